"""C13: runs side by side and one after another."""
import json

from drivers import *
from editor import trace_check, describe, brief
from scripts import render, mutate
from c09 import rinstr, rprogram
from c10 import ALL, plain
from vlib import CheckError, b, text, show

RACE = {"GORACE": "halt_on_error=1"}


def tell(d, sched=None):
    return "; ".join("%s" % describe(d["runs"][i]["t"], d["progs"][d["runs"][i]["p"]]) for i in range(min(4, len(d["runs"])))) + (" (%d runs)" % len(d["runs"]) if len(d["runs"]) > 4 else "") \
        + ", " + d["how"] + (" %s" % d["sched"] if d["sched"] else "")


def drive(c, cases, race=False, timeout=800):
    """Runs the cases and has TLC judge what is recorded."""
    for i, x in enumerate(cases):
        x["id"] = i
    res = c.harness("runs", cases, race=race, env=RACE)
    recs = []
    for x, a in zip(cases, res):
        if "crash" in a:
            c.violation("%s: %s" % (tell(x), a["crash"][-800:]), {"case": x, "crash": a["crash"]})
            continue
        if a["odd"]:
            c.violation("%s: %s" % (tell(x), "; ".join(a["odd"])), {"case": x, "got": a})
            if not a["res"]:
                continue
        recs.append({"id": x["id"], "runs": [{"t": y["t"], "p": x["specs"][y["p"]]} for y in x["runs"]], "sched": x["sched"], "obs": a["obs"], "res": a["res"]})
        if len(a["obs"]) != len(x["sched"]):
            recs.pop()
    bad, uns = trace_check(c, recs, "RunsTrace", timeout)
    c.add("states", 2 * len(recs))
    c.add("transitions", sum(len(e["runs"]) + len(e["sched"]) for e in recs))
    c.add("traces_validated_against_impl", len(recs))
    by = {e["id"]: e for e in recs}
    for d in bad:
        x, e = cases[d["bad"]], by[d["bad"]]
        i = sorted(d["runs"])[0] - 1
        r, w = e["res"][i], d["want"][i]
        c.violation("%s: run %d gave %s text %r, alone it gives %s text %r" % (tell(x), i + 1, r["ok"], text(r["s"]["t"])[:200], w["ok"], text(w["s"]["t"])[:200]),
                    {"case": x, "run": i + 1, "got": r, "observed": e["obs"], "specified": w})
        if len(c.violations) > 20:
            break


def norm(c, progs):
    """The programs as the specification writes them."""
    out = c.harness("program", [{"id": i, "t": [], "x": p, "u": 1} for i, p in enumerate(progs)])
    bad = [i for i, o in enumerate(out) if "crash" in o]
    for i in bad:
        out[i] = {"x": []}
    return [o["x"] for o in out], set(bad)


def generated(c):
    """Every schedule of the bounded model, replayed instruction by instruction."""
    cases = []
    for many, wide in ((2, True), (3, False)):
        docs, distinct, _ = c.tlc("RunsGen", "SPECIFICATION Spec\nINVARIANT Isolated Emit\nPROPERTY OnlyOne\nCHECK_DEADLOCK FALSE\nCONSTANTS Many = %d\n Wide = %s\n" % (many, "TRUE" if wide else "FALSE"))
        c.add("states", distinct)
        c.cov.setdefault("models", []).append({"module": "RunsGen", "runs": many, "schedules": len(docs), "states": distinct})
        if c.quick and len(docs) > 1600:
            docs = c.rng.sample(docs, 1600)
        elif len(docs) > 12000:
            docs = c.rng.sample(docs, 12000)
        for d in docs:
            ps = []
            for x in d["runs"]:
                if x["p"] not in ps:
                    ps.append(x["p"])
            cases.append({"progs": ps, "specs": ps, "runs": [{"t": x["t"], "p": ps.index(x["p"])} for x in d["runs"]], "sched": d["sched"], "how": "step", "envs": 1})
    return cases


def scheduled(c, n):
    """Random programs under random schedules."""
    r = c.rng
    raw = [rprogram(r) if r.random() < 0.5 else program(r, ALL, ALL, r.randrange(1, 7)) for _ in range(max(60, n // 3))]
    specs, bad = norm(c, [p["x"] for p in raw])
    good = [i for i in range(len(raw)) if i not in bad]
    cases = []
    for _ in range(n):
        how = r.choice(["step", "step", "seq", "free", "free"])
        m = {"step": r.choice([2, 2, 3, 4, 6]), "seq": r.choice([3, 10, 30]), "free": r.choice([2, 8, 24])}[how]
        few = r.sample(good, min(len(good), r.choice([1, 2, m])))
        pick = [r.choice(few) for _ in range(m)]
        ps = sorted(set(pick))
        runs = [{"t": raw[i]["t"] if r.random() < 0.8 and isinstance(raw[i]["t"], list) else b(rtext(r, 30)), "p": ps.index(i)} for i in pick]
        cases.append({"progs": [raw[i]["x"] for i in ps], "specs": [specs[i] for i in ps], "runs": runs, "sched": [], "how": how, "envs": r.choice([1, 1, 2])})
    # a schedule needs to know how long each run takes
    step = [x for x in cases if x["how"] == "step"]
    seq = c.harness("runs", [dict(x, id=i, how="seq") for i, x in enumerate(step)])
    for x, a in zip(step, seq):
        if "crash" in a or not a["res"]:
            x["how"] = "seq"
            continue
        left = [(i + 1) for i, q in enumerate(a["res"]) for _ in range(q["n"] + (1 if q["ok"] != "ok" else 0))]
        r.shuffle(left)
        if r.random() < 0.2:                     # nearly one after another
            left.sort(key=lambda i: (i * 7 + r.random() * 4) % 11)
        x["sched"] = left
    return cases


def scripts(r, n):
    out = []
    while len(out) < n:
        t = rtext(r, 30)
        x = program(r, ALL, ALL, r.randrange(1, 7), t=t)["x"] if r.random() < 0.6 else [rinstr(r, t) for _ in range(r.randrange(0, 5))]
        x = [v if v["k"] == "l" else call("concat", v) for v in x]
        fmt = r.choice(["shell", "sexp", "json", "auto"])
        if fmt in ("json", "auto") and not all(plain(v) for v in x):
            fmt = "shell"
        s = render(r, x, fmt if fmt != "auto" else r.choice(["json", "shell"]))
        if r.random() < 0.15:
            s = mutate(r, s)
        out.append({"src": b(s), "fmt": fmt, "t": b(t)})
        if r.random() < 0.4:                      # the same script on another text, another script on the same text
            out.append({"src": b(s), "fmt": fmt, "t": b(rtext(r, 30))})
        if r.random() < 0.1:                      # the same characters, cut elsewhere into text and script
            sp = r.choice(["\n", " "])
            out.append({"src": b(sp + s), "fmt": fmt, "t": b(t)})
            out.append({"src": b(s), "fmt": fmt, "t": b(t + sp)})
        if r.random() < 0.2:
            out.append({"src": b(s + "\n" if fmt != "json" else s + " "), "fmt": fmt, "t": b(t)})
    return out


def uses(c, cases, conc, times, race, size=60, again=0):
    parts = [cases[i:i + size] for i in range(0, len(cases), size)]
    for p in parts:
        for i, x in enumerate(p):
            x["id"] = i
    res = c.harness("uses", [{"id": i, "cases": p, "conc": conc, "times": times, "again": again} for i, p in enumerate(parts)], race=race, env=RACE)
    recs, seen = [], {}
    for p, a in zip(parts, res):
        if "crash" in a or a["bad"]:
            c.violation("scripts at the same time (%d)%s: %s" % (conc, ", race detector" if race else "", a.get("bad") or a["crash"][-800:]), {"cases": p, "got": a.get("crash", "")})
            continue
        for x, rs in zip(p, a["res"]):
            for q in rs:
                c.add("transitions")
                if q["odd"]:
                    c.violation("%r on %r: %s" % (text(x["src"]), text(x["t"]), q["odd"]), {"case": x, "got": q})
                # many of these are the same: judge one of each
                key = json.dumps({k: v for k, v in q.items() if k != "id"}, sort_keys=True)
                if key not in seen:
                    seen[key] = len(recs)
                    recs.append(dict(q, id=len(recs)))
    bad, uns = trace_check(c, recs, "ScriptTrace", 800)
    c.add("states", 2 * len(recs))
    c.add("traces_validated_against_impl", len(recs))
    for d in bad:
        q, w = recs[d["bad"]], d["want"]
        c.violation("%s script %r on %r, %d at a time: %s %s text %r value %s, alone %s text %r value %s" % (q["fmt"], text(q["src"]), text(q["t"]), conc, q["pok"], q["ok"], text(q["o"])[:200], show(q["v"]), w["ok"], text(w["t"])[:200], show(w["v"])),
                    {"record": q, "specified": w})
        if len(c.violations) > 20:
            break


def check(c):
    r = c.rng
    q = c.quick
    drive(c, generated(c) + scheduled(c, 900 if q else 9000))
    # long histories in one process: the last run gives what the first gave
    raw = [program(r, ALL, ALL, r.randrange(1, 5)) for _ in range(40)]
    specs, bad = norm(c, [p["x"] for p in raw])
    good = [i for i in range(len(raw)) if i not in bad]
    long = []
    for how in ("seq", "free"):
        for k in range(2):
            pick = [r.choice(good) for _ in range(1500)]
            long.append({"progs": [p["x"] for p in raw], "specs": specs, "runs": [{"t": raw[i]["t"], "p": i} for i in pick], "sched": [], "how": how, "envs": 1 + k})
    drive(c, long)
    free = [dict(x, how="free", sched=[]) for x in scheduled(c, 400 if q else 4000)]
    drive(c, free, race=True)
    c.sample({"runs": tell(free[0])})
    uses(c, scripts(r, 600 if q else 6000), 1, 8, False)
    uses(c, scripts(r, 600 if q else 6000), 16, 8, False)
    # uses without end in one process: counters, caches, and numbers that wrap around
    uses(c, scripts(r, 60), 1, 2, False, 80, 200000 if q else 2000000)
    uses(c, scripts(r, 240 if q else 2400), 8, 8, True, 30)
