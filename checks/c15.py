"""C15: command-line editing."""
import big
from files import *


def plainly(r):
    return {"quiet": r.random() < 0.2, "verbose": r.random() < 0.2, "inp": rcontent(r) if r.random() < 0.5 else "", "torn": r.random() < 0.04}


def source(r, sc, o):
    """Where the script comes from."""
    fmt, src = rscript(r)
    o["fmt"] = fmt
    if "\0" in src or not src.strip() and r.random() < 0.5 or r.random() < 0.4:
        o["via"], o["sf"] = "f", "scr"
        k = r.random()
        sc.put("scr", File(src) if k < 0.92 else r.choice([dict(NONE), File(src, False, True), dict(DIR)]), sc.spare[0])
    else:
        o["via"], o["src"] = "s", src
    return o


def operation(r, sc):
    o = plainly(r)
    k = r.random()
    if k < 0.25:                                     # standard input to standard output or a file
        pass
    elif k < 0.5:                                    # one file, likewise
        o["ns"] = sc.names()[:1]
    elif k < 0.85:
        o["ns"], o["inplace"] = sc.names(6), True
    else:
        return contradiction(r, sc, o)
    if not o.get("inplace") and r.random() < 0.4:
        o["out"] = "o"
        e = r.choice([dict(NONE)] * 4 + [File("old output, and longer than most of the results " * 2), File("ro", True, False), dict(DIR), dict(LOST), dict(FULL)])
        if "o" not in sc.fs:
            sc.put("o", e, sc.spare[1])
    o["jam"] = not o.get("inplace") and r.random() < 0.07
    return source(r, sc, o)


def contradiction(r, sc, o):
    k = r.randrange(7)
    many = (sc.names(4) + sc.names(4))[:4]
    if "o" not in sc.fs:
        sc.put("o", r.choice([dict(NONE), File("old")]), sc.spare[1])
    source(r, sc, o)
    if k == 0:
        o["ns"] = many + many[:1]
    elif k == 1:
        o.update(ns=sc.names()[:1], out="o", inplace=True)
    elif k == 2:
        o.update(ns=many + many[:1], out="o", inplace=r.random() < 0.3)
    elif k == 3:
        o.update(ns=sc.names()[:1], sfx=SFX, out="o" if r.random() < 0.3 else "")
    elif k == 4:
        o.update(ns=many, fmt="", inplace=True)
    elif k == 5:
        o.update(ns=many, via="-", src="", inplace=True)
    else:
        o.update(ns=many[:1] if r.random() < 0.5 else [], via="s", src="", out="o" if r.random() < 0.3 else "")
    return o


def history(r):
    sc = Scene(r, r.choice([2, 3, 3, 4]), suffix=r.choice(SUFFIXES))
    ops = []
    for _ in range(r.choice([1, 1, 2, 3])):
        o = operation(r, sc)
        if o.get("via") == "f" and any(p["via"] == "f" for p in ops):
            o = dict(o, via="s", src='insert "s"')     # the file with the script is there once
            o["fmt"] = "shell"
        ops.append(o)
    return case(sc, [cli_op(sc, **o) for o in ops])


def crowded(r):
    sc, ns = crowd(r)
    return case(sc, [cli_op(sc, **source(r, sc, dict(plainly(r), ns=ns, inplace=True)))])


def check(c):
    docs = model(c, 2, 1, False) if c.quick else model(c, 3, 1, False)
    r = c.rng

    class Real:
        def __init__(self, d):
            self.r, self.real, self.suffix = r, model_case(d, [])["real"], ".bak"

    def call(d):
        s = {"fmt": d["s"]["fmt"], "src": text(d["s"]["src"])}
        return cli_op(Real(d), ns=d["ns"], inplace=True, **s)

    def compare(d, obs):
        w = d["edit"]
        if norm(obs["fs"]) != norm(w["fs"]):
            return "specified files %s" % tellfs(w["fs"])
        ok = all(v == "ok" for v in w["v"])
        if obs["st"] != ("ok" if ok else "err") or (not ok and not obs["err"]):
            return "specified exit %s, got %s, error reported: %s" % ("ok" if ok else "err", obs["st"], obs["err"])
        if obs["marks"] != [[v, n] for v, n in zip(w["v"], d["ns"])]:
            return "specified verdicts %s, got %s" % (w["v"], obs["marks"])
    if c.quick:
        docs = [d for d in docs if r.random() < 0.25 and d["fs"]["abak"]["k"] == "none"] + [d for d in docs if r.random() < 0.1]
    replay(c, docs, call, compare)
    tr = run_cases(c, [history(r) for _ in range(1500 if c.quick else 15000)] + [crowded(r) for _ in range(50 if c.quick else 500)])
    big.through(c, ["stdin", "file", "out", "inplace"], 24, 300, counted=2)
    shapes = {}
    for t in tr:
        for o in t["ops"]:
            k = "%s%s%s %s" % ("in place" if o["inplace"] else "filter", " file" if o["ns"] else " stdin", " -o" if o["out"] else "", o["obs"]["st"])
            shapes[k] = shapes.get(k, 0) + 1
    c.cov["calls"] = shapes
    c.sample({"call": "files %s" % tellfs(tr[3]["fs"]), "exit": tr[3]["ops"][0]["obs"]["st"]})
