"""C18: sessions with the server."""
import big
from session import *
from drivers import rtext
from c17 import LOOPS

DOCS = [{}, {"verbose": True}, {"verbose": False}, {"function_name": "point"}, {"function_name": "search-forward"}, {"function_name": "no-such"}, {"category": "search"}, {"category": "movement", "verbose": True},
        {"category": "nothing"}, {"function_name": "insert", "verbose": True}, {"function_name": "", "category": ""}, {"category": "mark"}, {"category": "editing", "verbose": False}]
PREFIXES = ["", "", "", "my_", "x", "texted_", "a.b/", "edit_"]


def ended(r, real_fs, ns):
    """A script that is sure to end when it is looped: it consumes something."""
    return r.choice(LOOPS[:10] + LOOPS[15:])


def one(r, sc):
    k = r.random()
    if k < 0.32:
        fmt, src = rscript(r)
        o = mcp_op(sc.names(4), src, False, r.random() < 0.3)
    elif k < 0.4:
        o = mcp_op(sc.names(2), r.choice(['search-forward "o"; replace-match ""', '["search-forward", "a"] ["replace-match", "b"]', 'no-such', 'insert "x"; search-forward "zz"', 'insert "']), True)
    elif k < 0.65:
        fmt, src = rscript(r)
        t = rtext(r, 30) if r.random() < 0.8 else ""
        o = {"k": "eval", "src": b(src), "inp": b(t), "mode": r.choice(["buffer", "expression"]), "explicit": r.random() < 0.4}
    elif k < 0.75:
        o = {"k": "doc", "doc": r.choice(DOCS)}
    else:
        o = {"k": "bad"}
    return o


def related(r, o):
    """Calls that are like an earlier one, but not the same: what one of them gave says nothing about the others."""
    out = []
    for _ in range(r.choice([1, 2, 3])):
        n = {k: o[k] for k in ("k", "src", "inp", "mode", "explicit")}
        k = r.randrange(6)
        sp = r.choice([b("\n"), b(" "), b(" \n ")])
        if k == 0:                       # the same characters, cut elsewhere into input and script
            out.append(dict(n, src=sp + o["src"]))
            n["inp"] = o["inp"] + sp
        elif k == 1:                     # cut elsewhere into script and input
            out.append(dict(n, inp=sp + o["inp"]))
            n["src"] = o["src"] + sp
        elif k == 2:
            n["mode"] = "buffer" if o["mode"] == "expression" else "expression"
        elif k == 3:
            n["inp"] = b(rtext(r, 30))
        elif k == 4:
            n["inp"], n["src"] = o["inp"] + b("a"), b('end-of-buffer; insert "b"')
            out.append(dict(n, inp=o["inp"]))
        out.append(n)
    r.shuffle(out)
    return out


def session(r, long=0):
    sc = Scene(r, r.choice([1, 2, 3]))
    for n in list(sc.fs):
        if sc.fs[n]["k"] == "file" and "c" in sc.fs[n]:
            try:
                bytes(sc.fs[n]["c"]).decode()
            except UnicodeDecodeError:
                sc.fs[n]["c"] = b("text")
    s = Session(r, sc.real, r.random() < 0.5, r.choice(PREFIXES))
    n = long or r.choice([1, 2, 3, 5, 8, 12])
    for _ in range(n):
        if r.random() < 0.15:
            s.noise()
        o = one(r, sc)
        s.add(o)
        if not s.pipe and r.random() < (0.3 if o["k"] == "mcp" else 0.05):
            p = put_op(sc)
            if p:
                s.put(p)
                if o["k"] == "mcp":
                    s.add(dict(o))
        if o["k"] == "eval" and r.random() < 0.35:
            for x in related(r, o):
                s.add(x)
    return s, sc.fs, sc.rodirs


def many(r, n):
    """Very many small calls of every tool in one session."""
    sc = Scene(r, 1)
    sc.fs = {x: (File("abc") if v["k"] == "file" else v) for x, v in sc.fs.items()}
    s = Session(r, sc.real, True, r.choice(PREFIXES))
    for i in range(n):
        s.add({"k": "eval", "src": b(r.choice(['insert "x"', "point-max", 'concat "a" "b"', 'search-forward "q"', "insert"])), "inp": b(r.choice(["", "abc", "q"])),
               "mode": r.choice(["buffer", "expression"]), "explicit": r.random() < 0.5})
        if r.random() < 0.2:
            s.add({"k": "doc", "doc": r.choice(DOCS)})
    return s, sc.fs, sc.rodirs


def together(r, n):
    """Calls that are made at the same time, each with files of its own."""
    real = {"a": "@CALL@/a.txt", "b": "@CALL@/b c.txt", "z": "@CALL@/none"}
    sc = Scene(r, 1)
    sc.real = real
    out = []
    while len(out) < n:
        sc.fs = {"a": File(rtext(r, 40)), "b": File(r.choice(["", "aab", rtext(r, 20)])), "z": dict(NONE)}
        sc.names = lambda most=3: [r.choice("aabbz") for _ in range(r.choice([1, 1, 2, 3]))]
        o = one(r, sc)
        if o["k"] == "bad":
            m, o["why"] = bad_call(r, real, 1, "")
            p = m["params"] if isinstance(m.get("params"), dict) else {}
            if m["method"] != "tools/call" or p.get("name") not in NAMES.values() or not isinstance(p.get("arguments"), dict):
                continue
            tool, args = p["name"], p["arguments"]
        else:
            tool, args = NAMES[o["k"]], arguments(o, real)
        out.append((o, tool, args, dict(sc.fs), real))
    return out


def check(c):
    r = c.rng
    docs, distinct, _ = c.tlc("SessionGen", "SPECIFICATION Spec\nINVARIANT Laws Emit\nCHECK_DEADLOCK FALSE\nCONSTANT MaxCalls = %d\n" % (3 if c.quick else 4))
    c.cov.setdefault("models", []).append({"module": "SessionGen", "sessions": len(docs), "states": distinct})
    c.add("states", distinct)
    if c.quick:
        docs = r.sample(docs, 900)
    elif len(docs) > 15000:
        docs = r.sample(docs, 15000)
    real = {"a": "a.txt", "b": "b c.txt", "c": "c"}
    todo = []
    for d in docs:
        s = Session(r, real, r.random() < 0.5 and all(x["k"] != "put" for x in d["calls"]))
        for x in d["calls"]:
            if x["k"] == "put":
                s.put(dict(x, keep=r.random() < 0.7, new=r.random() < 0.3))
                continue
            s.add({"k": "doc", "doc": {"function_name": x["doc"]}} if x["k"] == "doc" else dict(x))
        todo.append((s, d["fs"], []))
    run_sessions(c, todo)
    tr = run_sessions(c, [session(r) for _ in range(700 if c.quick else 7000)] + [session(r, n) for n in ([200, 200, 200, 1100] if c.quick else [200] * 40 + [5000])] + [many(r, 1300 if c.quick else 5000)])
    burst(c, together(r, 800 if c.quick else 8000), 16, 4)
    burst(c, together(r, 400 if c.quick else 4000), 8, 2, True)
    big.through(c, ["server"], 24, 200)
    big.big(c, [{"t": [{"c": 97, "n": 1}], "p": [{"f": "open", "n": [n], "x": [], "q": 1}], "via": [{"via": "server", "fmt": f}]}
                for n in (1, 20000, 6 * 10 ** 6) for f in ("shell", "json")], steps=False)
    n = {}
    for t in tr:
        for o in t["ops"]:
            if o["k"] == "put":
                continue
            k = "%s %s" % (o["k"], o["obs"]["st"] if "st" in o["obs"] else "all" if o["obs"]["all"] else "not all")
            n[k] = n.get(k, 0) + 1
    c.cov["calls"] = n
    c.sample({"session": [o["k"] for o in tr[2]["ops"]], "pipelined": tr[2]["pipe"]})
