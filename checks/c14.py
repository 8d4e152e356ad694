"""C14: editing lists of files."""
import big
from files import *


def compare(d, obs):
    w = d["edit"]
    if obs["v"] != w["v"]:
        return "specified verdicts %s, got %s" % (w["v"], obs["v"])
    if norm(obs["fs"]) != norm(w["fs"]):
        return "specified files %s" % tellfs(w["fs"])


def history(r):
    sc = Scene(r, r.choice([2, 3, 3, 4]))
    ops = []
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        fmt, src = rscript(r)
        ops.append(lib_op(sc.names(6) if r.random() < 0.97 else [], fmt, src, fmt != "json" and r.random() < 0.4))
        if r.random() < 0.35:
            o = put_op(sc)
            if o:
                ops += [o, dict(ops[-1])]
    return case(sc, ops)


def crowded(r):
    sc, ns = crowd(r)
    ops = []
    for _ in range(2):
        fmt, src = r.choice([("shell", 'insert "x"'), ("sexp", '(end-of-buffer) (insert "y")'), ("shell", 'search-forward "o"; replace-match "0"'), ("json", '["delete-char"]'), ("shell", 'search-forward "a"; replace-match "ba"')])
        ops.append(lib_op(ns, fmt, src, fmt != "json" and r.random() < 0.4) if r.random() < 0.7 else mcp_op(ns, src))
    return case(sc, ops)


def check(c):
    docs = model(c, 2 if c.quick else 3, 1, not c.quick)
    replay(c, docs, lambda d: lib_op(d["ns"], d["s"]["fmt"], text(d["s"]["src"])), compare)
    # a list as one call of the server's tool
    def mcp(d, obs):
        w = d["edit"]
        if norm(obs["fs"]) != norm(w["fs"]):
            return "specified files %s" % tellfs(w["fs"])
        good = sorted(n for n, v in zip(d["ns"], w["v"]) if v == "ok")
        bad = sorted(n for n, v in zip(d["ns"], w["v"]) if v != "ok")
        if sorted(obs["good"]) != good or sorted(obs["bad"]) != bad or obs["all"] != (not bad) or obs["n"] != 1:
            return "specified report: edited %s, failed %s" % (good, bad)
    replay(c, docs, lambda d: mcp_op(d["ns"], text(d["s"]["src"])), mcp)
    tr = run_cases(c, [history(c.rng) for _ in range(1200 if c.quick else 15000)] + [crowded(c.rng) for _ in range(80 if c.quick else 800)])
    big.through(c, ["files", "edit"], 24, 300)
    t = tr[len(tr) // 2]
    c.sample({"files": tellfs(t["fs"]), "call": tell(t["ops"][0], {k: text(v) for k, v in t["real"].items()}), "verdicts": t["ops"][0]["obs"]["v"]})
