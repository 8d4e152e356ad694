"""C09: order of evaluation, stopping at the first error, error context, tracing."""
import concurrent.futures
import os
import re
import subprocess

from drivers import *
from editor import describe, brief, trace_check, canon
from vlib import CheckError, S, Y, Nm, L, show, text


def check(c):
    generated(c)
    validate(c, [rprogram(c.rng) for _ in range(2500 if c.quick else 25000)]
             + [lprogram(c.rng) for _ in range(16 if c.quick else 200)])
    told(c, 150 if c.quick else 2000)


def generated(c):
    """Every program of the bounded model, with its outcome, into the real evaluator."""
    docs, distinct, _ = c.tlc("ProgramGen", "SPECIFICATION Spec\nINVARIANT Laws Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxDepth = %d\n Wide = %s\n"
                              % ((3, "FALSE") if c.quick else (3, "TRUE")))
    if 2 * len(docs) != distinct:
        raise CheckError("ProgramGen: %d programs emitted, %d states" % (len(docs), distinct))
    c.add("states", len(docs))
    c.cov.setdefault("models", []).append({"module": "ProgramGen", "programs": len(docs)})
    cases = [{"id": i, "t": d["t"], "x": d["x"], "u": i % 2} for i, d in enumerate(docs)]
    got = {r["id"]: r for r in c.harness("program", cases)}
    for i, d in enumerate(docs):
        r, w = got[i], d["want"]
        if "crash" in r:
            c.violation("crash: " + describe(d["t"], d["x"]), r)
            continue
        c.add("transitions", len(d["x"]))
        c.add("traces_validated_against_impl")
        diff = compare(r, w)
        if diff:
            c.violation("%s: %s" % (describe(d["t"], d["x"]), diff), {"case": cases[i], "got": r, "specified": w})
            if len(c.violations) > 30:
                return


def compare(r, w):
    if r.get("odd"):
        return "error report: " + r["odd"]
    if w["ok"] == "uns":
        return None
    if r["ok"] != w["ok"]:
        return "specified %s, got %s" % (w["ok"], r["ok"])
    if r["s"] != w["s"]:
        return "specified final state %s, got %s" % (brief(w["s"]), brief(r["s"]))
    if r["tr"]:
        ev = [{k: e[k] for k in "tpk"} for e in r["ev"]]
        if ev != w["ev"]:
            return "specified reports %s, got %s" % ([brief(e) for e in w["ev"]], [brief(e) for e in ev])
        if [canon(e["x"]) for e in r["ev"]] != [canon(x) for x in r["x"][:len(ev)]]:
            return "reports name other commands"
    if w["ok"] == "ok":
        return None if canon(r["v"]) == canon(w["v"]) else "specified value %s, got %s" % (show(w["v"]), show(r["v"]))
    if r["n"] != w["n"] or canon(r["at"]) != canon(r["x"][w["n"]]):
        return "specified error at %d, got %d %s" % (w["n"], r["n"], show(r["at"]))
    if r["m"] != w["m"]:
        return "specified last match %s, got %s" % (w["m"], r["m"])
    return None


# ---- random programs with nesting -----------------------------------------
def arg_string(r, t, depth):
    k = r.random()
    if depth <= 0 or k < 0.3:
        return S(r.choice(["a", "b", "x", "foo", "", "\n", "caf\u00e9"]))
    return r.choice([
        lambda: call("concat", arg_string(r, t, depth - 1), arg_string(r, t, depth - 1)),
        lambda: call("upcase", arg_string(r, t, depth - 1)),
        lambda: call("buffer-substring", arg_number(r, t, depth - 1), arg_number(r, t, depth - 1)),
        lambda: call("insert", arg_string(r, t, depth - 1)),
        lambda: call("search-forward", rpattern(r, t)),
        lambda: call("delete-char"),
        lambda: call("replace-match", arg_string(r, t, depth - 1)),
        lambda: call("substring", arg_string(r, t, depth - 1), arg_number(r, t, depth - 1)),
    ])()


def arg_number(r, t, depth):
    k = r.random()
    if depth <= 0 or k < 0.4:
        return Nm(rpos(r, len(t)))
    return r.choice([
        lambda: call("point"), lambda: call("mark"), lambda: call("point-max"),
        lambda: call("length", arg_string(r, t, depth - 1)),
        lambda: call("string-match", rpattern(r, t), arg_string(r, t, depth - 1)),
        lambda: call("region-end"), lambda: call("buffer-size"),
        lambda: call("point") if r.random() < 0.8 else arg_string(r, t, 1),
    ])()


def rinstr(r, t):
    k = r.random()
    if k < 0.45:
        return rcmd(r, t, ["move", "goto", "insert", "delete", "search", "replace", "mark", "region", "query"])
    if k < 0.9:
        return r.choice([
            lambda: call("insert", arg_string(r, t, 3)), lambda: call("goto-char", arg_number(r, t, 3)),
            lambda: call("set-mark-command", arg_number(r, t, 2)), lambda: call("replace-match", arg_string(r, t, 2)),
            lambda: call("replace-region", arg_string(r, t, 2)), lambda: call("delete-char", arg_number(r, t, 2)),
            lambda: arg_string(r, t, 3), lambda: arg_number(r, t, 3), lambda: call("search-forward", arg_string(r, t, 2)),
        ])()
    if k < 0.95:
        return r.choice([S("x"), Nm(3), S("")])
    return r.choice([Y("t"), L(), L(S("insert"), S("x")), call("no-such-function", call("insert", "x")), call("insert"), L(L(Y("point"))),
                     call("insert", Y("nil")), call("insert", call("insert", "y"), Y("t")), call("Insert", "x")])


def rprogram(r):
    t = rtext(r, 30)
    return {"t": list(t.encode()), "x": [rinstr(r, t) for _ in range(r.randrange(0, 14))]}


def lprogram(r):
    """A program of many instructions; most of them fail, late."""
    n = r.choice([60, 99, 100, 101, 128, 130, 200, 256, 257, 300])
    x = []
    for _ in range(n):
        x.append(r.choice([
            lambda: call("insert", r.choice("ab")), lambda: call("delete-backward-char"), lambda: call("beginning-of-buffer"), lambda: call("forward-char"),
            lambda: call("point"), lambda: call("set-mark"), lambda: S("x"), lambda: call("length", call("concat", "a", "b")), lambda: call("delete-char"),
        ])())
    if r.random() < 0.8:
        x.insert(r.choice([n, n - 1, n - 2, n // 2]), r.choice([call("search-forward", "zz"), call("no-such-function"), L(), Y("q"), call("insert", Nm(1))]))
    return {"t": list(b"ab"), "x": x}


def validate(c, cases):
    for i, x in enumerate(cases):
        x["id"], x["u"] = i, i % 2
    got = c.harness("program", cases)
    by = {r["id"]: r for r in got}
    odd = 0
    for i, r in by.items():
        if "crash" in r:
            c.violation("crash: " + describe(cases[i]["t"], cases[i]["x"]), r)
        elif r.get("odd"):
            c.violation("%s: error report: %s" % (describe(cases[i]["t"], cases[i]["x"]), r["odd"]), {"case": cases[i], "got": r})
    logs = [r for r in got if "crash" not in r]
    bad, uns = trace_check(c, logs, "ProgramTrace", 800)
    c.add("states", len(logs))
    c.add("transitions", sum(len(r["ev"]) for r in logs))
    c.add("traces_validated_against_impl", len(logs))
    c.add("unspecified_runs", uns)
    r = by[len(cases) // 2]
    c.sample({"program": describe(cases[r["id"]]["t"], r["x"]), "ok": r["ok"], "reports": len(r["ev"])})
    for d in bad[:40]:
        cs, r = cases[d["bad"]], by[d["bad"]]
        again = c.harness("program", [cs], jobs=1)[0]
        if again != r and not c.leaks("program", cases, d["bad"], again, lambda a: a):
            raise CheckError("not repeatable: " + describe(cs["t"], cs["x"]))
        c.violation("%s: %s" % (describe(cs["t"], cs["x"]), compare(r, d["want"]) or "rejected"), {"case": cs, "got": r, "specified": d["want"]})


# ---- what the test command tells about the scripts it runs --------------------
REPORT = re.compile(rb'TRACE: Executed instruction: (.*?)\n  Buffer content: "((?:[^"\\\n]|\\.)*)"\n  Point: (-?\d+), Mark: (-?\d+)\n', re.S)
ESCAPE = re.compile(rb'\\(x[0-9a-f]{2}|u[0-9a-f]{4}|U[0-9a-f]{8}|.)', re.S)
SIMPLE = {b"n": b"\n", b"t": b"\t", b"r": b"\r", b"a": b"\a", b"b": b"\b", b"f": b"\f", b"v": b"\v"}


def unquoted(q):
    def one(m):
        e = m.group(1)
        if e[:1] == b"x":
            return bytes([int(e[1:], 16)])
        if e[:1] in b"uU" and len(e) > 1:
            return chr(int(e[1:], 16)).encode()
        return SIMPLE.get(e, e)
    return ESCAPE.sub(one, q)


def told(c, n):
    from c19 import programs as scripts, xml
    r, exe = c.rng, c.texted()
    ps = [p for p in scripts(r, 5 * n) if p["lang"] != "json"]
    jobs = []
    for _ in range(n):
        j = [r.choice(ps) for _ in range(r.choice([1, 2, 3, 4, 7]))]
        files = [xml(r, dict(p, wf=True, out=r.choice(["x", p["buf"] or "y"]), res="", rlang="", err=r.choice(["", "", "search failed"]))) for p in j]
        names = ["t%d.xml" % i for i in range(len(j))]
        flags = ["--trace"] + r.choice([[], [], ["-q"], ["-v"], ["--fail-only"]])
        jobs.append((j, files, names, flags + names if r.random() < 0.5 else names + flags))

    def run(job):
        _, files, names, argv = job
        d = c.fresh(".d")
        os.makedirs(d)
        for n, x in zip(names, files):
            with open(os.path.join(d, n), "w", newline="") as f:
                f.write(x)
        return subprocess.run([exe, "test"] + argv, cwd=d, capture_output=True, timeout=60).stdout
    recs = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for (j, _, _, _), out in zip(jobs, ex.map(run, jobs)):
            rep = [{"x": list(m[0]), "t": list(unquoted(m[1])), "p": int(m[2]), "k": int(m[3])} for m in REPORT.findall(out)]
            if len(rep) != out.count(b"TRACE: Executed instruction: ") and not any("TRACE" in p["src"] for p in j):
                rep.append({"x": list(b"?"), "t": [], "p": 0, "k": 0})      # a report that cannot be read
            recs.append({"id": len(recs), "runs": [{"t": list(p["buf"].encode()), "src": list(p["src"].encode())} for p in j], "rep": rep})
    bad, uns = trace_check(c, recs, "ReportTrace", 800)
    c.add("states", 2 * len(recs))
    c.add("transitions", sum(len(e["rep"]) for e in recs))
    c.add("traces_validated_against_impl", len(recs))
    c.add("unspecified_runs", uns)
    tell = lambda rep: [(text(e["x"]), text(e["t"]), e["p"], e["k"]) for e in rep]
    for d in bad[:20]:
        e = recs[d["bad"]]
        c.violation("test --trace of %s: reported %s, specified %s" % ([(text(x["src"]), text(x["t"])) for x in e["runs"]], tell(e["rep"]), tell(d["want"])), {"record": e, "specified": d["want"]})
