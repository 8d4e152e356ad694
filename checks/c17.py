"""C17: looping until an error."""
import os

import big
from files import *
from vlib import SPEC

LOOPS = ['search-forward "a"; replace-match ""', 'search-forward "o"; replace-match "0"', 're-search-forward "[a-z]"; replace-match "#"', 'search-forward "ab"; replace-match "b"',
         '(search-forward "foo")(replace-match "bar")', '["search-forward", "a"]\n["replace-match", "X"]', '[["search-forward", "o"], ["replace-match", ""]]',
         'search-forward "\\n"; replace-match " "', 'insert "x"; search-forward "a"; delete-backward-char', 'insert "x"; no-such', 'insert "x" (', 'end-of-buffer; re-search-backward "b+"; delete-char',
         'search-forward "o"; replace-match "oo"', 'point', 'delete-char; looking-at "a"; search-forward "b"', '["insert", "x"', 'end-of-buffer; search-backward "l"; replace-match "LL"']


def scenario(r):
    sc = Scene(r, r.choice([1, 2, 3]))
    for n in list(sc.fs):
        e = sc.fs[n]
        if e["k"] != "file" or not (e["r"] and e["w"]):
            if r.random() < 0.6:
                sc.put(n, File(""), n + sc.real[n].split("/")[-1])
        if sc.fs[n]["k"] == "file" and r.random() < 0.7:
            sc.fs[n]["c"] = b(r.choice(["aaa", "foo boo\n", "banana", "abab\nab", "oooooooo", "hello\nall\n", "", "x", "a" * 13]))
    src = r.choice(LOOPS) if r.random() < 0.85 else rscript(r)[1]
    return case(sc, [mcp_op(sc.names(4), src, True)])


def crowded(r):
    sc, ns = crowd(r)
    return case(sc, [mcp_op(ns, r.choice(LOOPS), True)])


def check(c):
    r = c.rng
    docs = [d for d in model(c, 2 if c.quick else 3, 4, not c.quick) if d["loop"]["ok"]]

    def compare(d, obs):
        w = d["loop"]
        if norm(obs["fs"]) != norm(w["fs"]):
            return "specified files %s after %d rounds" % (tellfs(w["fs"]), w["n"])
        good = sorted(n for n, v in zip(d["ns"], w["v"]) if v == "ok")
        bad = sorted(n for n, v in zip(d["ns"], w["v"]) if v != "ok")
        if obs["n"] != w["n"] or sorted(obs["good"]) != good or sorted(obs["bad"]) != bad or obs["all"]:
            return "specified %d rounds, in the last one edited %s, failed %s; reported %d, %s, %s" % (w["n"], good, bad, obs["n"], obs["good"], obs["bad"])
    replay(c, docs, lambda d: mcp_op(d["ns"], text(d["s"]["src"]), True), compare)
    # random scenarios: those that end
    cases = [scenario(r) for _ in range(1200 if c.quick else 12000)] + [crowded(r) for _ in range(60 if c.quick else 600)]
    p = c.fresh(".ndjson")
    with open(p, "w") as f:
        for i, x in enumerate(cases):
            f.write(json.dumps({"id": i, "fs": x["fs"], "ns": x["ops"][0]["ns"], "src": x["ops"][0]["src"]}) + "\n")
    plans, _, _ = c.tlc("LoopPlan", os.path.join(SPEC, "LoopPlan.cfg"), env={"TRACE": p})
    plan = {d["id"]: d for d in plans}
    ends = [x for i, x in enumerate(cases) if plan[i]["ok"] and "uns" not in plan[i]["v"]]
    rounds = {}
    for i, x in enumerate(cases):
        if plan[i]["ok"]:
            rounds[plan[i]["n"]] = rounds.get(plan[i]["n"], 0) + 1
        elif r.random() < 0.5:
            x["ops"][0].update(loop=False, explicit=r.random() < 0.5)     # once, then
            ends.append(x)
    c.cov["rounds"] = {str(k): v for k, v in sorted(rounds.items())}
    # afterwards the same call again: it starts from the files as they are
    for x in ends:
        if x["ops"][0]["loop"] and r.random() < 0.3:
            x["ops"].append(dict(x["ops"][0]))
    # long loops: an a passes every b behind it
    long = []
    for n in [12, 33, 65, 102] if c.quick else [12, 23, 33, 46, 65, 102, 150, 200]:
        real = {"a": "long.txt", "b": "short.txt"}
        o = mcp_op(r.choice([["a"], ["b", "a"], ["a", "b"]]), r.choice(['search-forward "ab"; replace-match "ba"', '["search-forward", "ab"] ["replace-match", "ba"]', '(re-search-forward "ab") (replace-match "ba")']), True)
        o["max"] = n * n + 10
        fs = {"a": File("a" * n + "b" * n), "b": File("aa" + "b" * r.choice([5, n * n]) if n < 30 else "a" * n + "b" * (n + 1))}
        long.append({"fs": fs, "real": real, "rodirs": [], "ops": [o]})
    run_cases(c, long, module="LoopSteps")
    tr = run_cases(c, ends)
    big.big(c, [big.loop(r) for _ in range(60 if c.quick else 900)], steps=False)
    t = tr[len(tr) // 3]
    c.sample({"files": tellfs(t["fs"]), "script": text(t["ops"][0]["src"]), "rounds": t["ops"][0]["obs"]["n"]})
