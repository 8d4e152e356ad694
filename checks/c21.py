"""C21: evaluating expressions."""
from files import *
from drivers import program, call
from c10 import ALL, plain
from vlib import S


def model_run(c):
    docs, distinct, _ = c.tlc("ExprGen", "SPECIFICATION Spec\nINVARIANT Laws Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxEs = %d\n MaxNs = %d\n" % ((2, 2) if c.quick else (3, 2)))
    c.cov.setdefault("models", []).append({"module": "ExprGen", "calls": len(docs), "states": distinct})
    c.add("states", distinct)
    r = c.rng
    if c.quick:
        docs = [d for d in docs if len(d["es"]) < 2 or r.random() < 0.3]
    else:
        docs = [d for d in docs if len(d["es"]) < 3 or r.random() < 0.2]
    cases = []
    for d in docs:
        x = {"fs": d["fs"], "real": {"a": "a.txt", "b": "b c.txt"}, "rodirs": []}

        class Sc:
            pass
        sc = Sc()
        sc.r, sc.real, sc.suffix = r, x["real"], ".bak"
        o = cli_op(sc, ns=d["ns"], via="e", es=[text(e) for e in d["es"]], ofmt=d["ofmt"], inp="ba")
        o["still"] = True
        x["ops"] = [o]
        cases.append(x)
    run_cases(c, cases)


FIXED_ES = ["point", "(point)", "mark", "buffer-size", "(buffer-substring 1 20)", 'insert "x"', '(insert "two words")', 'search-forward "o"', 're-search-forward "[a-z]+"', 'replace-match "W"',
            "forward-char 2", "backward-char", "end-of-buffer", "beginning-of-buffer", "mark-whole-buffer", "region-beginning", "region-end", "delete-region", 'looking-at "a"', "set-mark", "current-line",
            'concat "a" "b;c"', 'concat "quo\\"te" "back\\\\slash" "tab\\t"', 'concat "%s %d %%"', 'length "caf\\u00e9"', 'string-match "b" "abc"', 'string-match "z" "abc"', 'substring "hello" 1 3', 'upcase "abc"', 'concat ""',
            'replace-regexp-in-string "[aeiou]" "_" "education"', "line-number-at-pos", "point-max", "forward-word", "kill-word", "delete-line", 'concat "nil"', 'concat "123"', 'concat "t"', 'concat "a b"', 'concat "(x)"', 'concat "\\u65e5"',
            'concat "-5"', 'concat "1e3"', 'concat "line\\nbreak"', 'concat "=== a ==="', 'concat "Error in expression 1: x"']
BROKEN_ES = ["no-such-function", "(point", 'insert "', "forward-char \"a\"", "goto-char", ")", "insert", 'search-forward "zzzz"', "(point) x", '"\\q"', "(point))"]


def rexpr(r, t):
    k = r.random()
    if k < 0.55:
        return r.choice(FIXED_ES)
    if k < 0.62:
        return r.choice(BROKEN_ES)
    if k < 0.7:
        return "; ".join(r.choice(FIXED_ES) for _ in range(r.randrange(1, 4)))
    x = program(r, ALL, ALL, r.choice([1, 1, 2]), t=t)["x"]
    x = [v if v["k"] == "l" else call("concat", v) for v in x]
    s = render(r, x, r.choice(["shell", "sexp"]))
    return mutate(r, s) if r.random() < 0.05 else s


def jexpr(r, t):
    if r.random() < 0.12:
        return r.choice(['["point"', '["no-such"]', '["goto-char", "x"]', '{"a": 1}', '["insert", null]', "nonsense", '["search-forward", "zzzz"]', "null", "[] []"])
    x = program(r, ALL, ALL, r.choice([1, 1, 2]), t=t)["x"]
    x = [v if v["k"] == "l" else call("concat", v) for v in x]
    return render(r, x, "json") if all(plain(v) for v in x) else '["point"]'


def operation(r, sc):
    o = {"via": "e", "fmt": r.choice(["shell", "shell", "shell", "sexp", "json"]), "ofmt": r.choice(["shell", "sexp", "json"]) if r.random() < 0.97 else ""}
    o["ns"] = [] if r.random() < 0.3 else sc.names(4)
    o["inp"] = rcontent(r) if not o["ns"] or r.random() < 0.3 else ""
    t = text(sc.fs[o["ns"][0]]["c"]) if o["ns"] and sc.fs[o["ns"][0]]["k"] == "file" else text(b(o["inp"]))
    es = []
    while not es or r.random() < 0.7 and len(es) < 7:
        e = jexpr(r, t) if o["fmt"] == "json" else rexpr(r, t)
        if e and "\0" not in e:
            es.append(e)
    o["es"] = es
    o["torn"] = r.random() < 0.05
    o["jam"] = r.random() < 0.05
    o["quiet"] = r.random() < 0.15
    o["verbose"] = r.random() < 0.2 and not any("\n" in e or "\r" in e for e in es)
    k = r.random()
    if k < 0.12:
        o["inplace"] = True
    elif k < 0.17:
        o.update(inplace=True, sfx=SFX)
    elif k < 0.24:
        o["out"] = "o"
        if "o" not in sc.fs:
            sc.put("o", r.choice([dict(NONE), File("old")]), sc.spare[0])
    elif k < 0.27:
        o["sfx"] = SFX
    elif k < 0.3:
        o["fmt"] = ""
    o = cli_op(sc, **o)
    o["still"] = True
    return o


def history(r):
    sc = Scene(r, r.choice([1, 2, 3]), suffix=r.choice(SUFFIXES))
    for n in list(sc.fs):
        if sc.fs[n]["k"] != "file" and len(n) == 1 and n != "l" and r.random() < 0.6:
            sc.put(n, File(rcontent(r)), n + sc.real[n].split("/")[-1])
            sc.real[n + SFX] = sc.real[n] + sc.suffix
    return case(sc, [operation(r, sc) for _ in range(r.choice([1, 1, 2]))])


def crowded(r):
    """Many expressions for one file, or few for many files."""
    sc, ns = crowd(r)
    many = r.random() < 0.5
    es = [r.choice(["forward-char", "point", 'insert "x"', "delete-char", 'search-forward "a"', "(buffer-size)", 'concat "v"', "beginning-of-buffer", "looking-at \"[a-z]\""]) for _ in range(r.choice([20, 70, 140]) if many else 2)]
    if many:
        es = [e for e in es if e[0] != "s" or r.random() < 0.1]
        ns = r.choice([[], ns[:1], ns[:2]])
    o = cli_op(sc, via="e", es=es, ns=ns, inp="aaaa bb" if not ns else "", ofmt=r.choice(["shell", "sexp", "json"]))
    o["still"] = True
    return case(sc, [o])


def check(c):
    model_run(c)
    tr = run_cases(c, [history(c.rng) for _ in range(1500 if c.quick else 15000)] + [crowded(c.rng) for _ in range(60 if c.quick else 600)])
    n = {}
    for t in tr:
        for o in t["ops"]:
            k = "%s %s" % (o["ofmt"] or "bad format", o["obs"]["st"])
            n[k] = n.get(k, 0) + 1
            c.add("values_printed", len(o["obs"]["lines"]))
    c.cov["calls"] = n
    t = tr[5]
    c.sample({"expressions": [text(e) for e in t["ops"][0]["es"]], "printed": text(t["ops"][0]["obs"]["out"])[:300]})
