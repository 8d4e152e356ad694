"""Conformance of the real editor with spec/Editor.tla, in both directions."""
import concurrent.futures
import json
import os
import subprocess

from vlib import CheckError, show, text


def describe(t, xs):
    return "%s on %s" % ("; ".join(show(x) for x in xs), json.dumps(text(t), ensure_ascii=False)[:300])


def canon(v):
    """Value as the specification writes it."""
    if v["k"] == "l":
        return ("l", tuple(canon(x) for x in v["v"]))
    if v["k"] == "n":
        return ("n", v["i"], tuple(v.get("x") or []))
    return (v["k"], tuple(v["v"]) if isinstance(v["v"], list) else v["v"])


def generated(c, module, consts, timeout=800, maxlen=None, heap="6g"):
    """Model -> code: explores the bounded model with TLC, which checks the laws on every
    transition, and replays every state and transition into the real editor."""
    cfg = "SPECIFICATION Spec\nVIEW View\nINVARIANT LawsHold Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Texts <- MCTexts\n Cmds <- MCCmds\n EmitOn = TRUE\n"
    consts = dict(consts)
    consts.setdefault("Parts", 1)
    for k, v in consts.items():
        cfg += " %s = %s\n" % (k, v)
    docs, distinct, gen = c.tlc(module, cfg, timeout=timeout, heap=heap)
    cmds = [d for d in docs if "cmds" in d][0]
    states = [d for d in docs if "h" in d]
    if 2 * len(states) != distinct or not states:
        raise CheckError("%s: %d states emitted, %d found" % (module, len(states), distinct))
    nt = sum(1 for d in states for r in d["r"] if r[0] != "uns")
    uns = sum(1 for d in states for r in d["r"] if r[0] == "uns")
    distinct = len(states)
    c.add("states", distinct)
    c.add("transitions", nt)
    c.cov.setdefault("models", []).append(
        {"module": module, "constants": consts, "states": distinct, "transitions": nt,
         "commands": len(cmds["cmds"]), "unspecified": uns})
    exe = c.vh()
    head = json.dumps(cmds)

    def run(part):
        body = head + "\n" + "".join(json.dumps(d, separators=(",", ":")) + "\n" for d in part)
        r = subprocess.run([exe, "replay"], input=body.encode(), capture_output=True, timeout=timeout, env=c.env, cwd=c.tmp)
        return r.returncode, [json.loads(x) for x in r.stdout.split(b"\n") if x.strip()], r.stderr[-1500:].decode(errors="replace"), part

    step = (len(states) + 7) // 8
    parts = [states[i:i + step] for i in range(0, len(states), step)]
    done_s = done_t = 0
    bad = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for rc, out, err, part in ex.map(run, parts):
            if rc == 3:
                raise CheckError("replay: " + err)
            for d in out:
                if "states" in d:
                    done_s += d["states"]
                    done_t += d["transitions"]
                else:
                    bad.append(d)
            if rc not in (0, 4):
                # the process died: find the state by replaying one at a time
                for d in part:
                    rc1, out1, err1, _ = run([d])
                    if rc1 not in (0, 4):
                        bad.append({"t": d["h"]["t"], "x": [cmds["cmds"][i - 1] for i in d["h"]["c"]],
                                    "want": "any command in this state", "got": {"crash": err1}, "crash": True})
                        break
    for d in bad:
        if d.get("crash"):
            c.violation("the editor crashed: " + describe(d["t"], d["x"]), d)
            continue
        again = c.harness("run", [{"id": 0, "t": d["t"], "x": d["x"]}], jobs=1)[0]
        if not again.get("crash") and not differs(again, d["want"]):
            continue
        c.violation("%s: specified %s, got %s" % (describe(d["t"], d["x"]), brief(d["want"]), brief(d["got"])), d)
        if len(c.violations) > 50:
            break
    if not bad:
        if done_s != len(states) or done_t != nt:
            raise CheckError("%s: replayed %d/%d states, %d/%d transitions" % (module, done_s, len(states), done_t, nt))
    c.add("traces_validated_against_impl", len(states))
    d = states[len(states) // 2]
    c.sample({"model": module, "text": text(d["h"]["t"]), "calls": [show(cmds["cmds"][i - 1]) for i in d["h"]["c"]],
              "reached": {"text": text(d["t"]), "point": d["p"], "mark": d["k"]},
              "outcomes_compared": len(d["r"])})


def brief(o):
    if not isinstance(o, dict):
        return str(o)
    r = dict(o)
    if "t" in r:
        r["t"] = text(r["t"])[:200]
    if isinstance(r.get("v"), dict):
        r["v"] = show(r["v"]) if r["v"]["k"] in "synl" else r["v"]
    return json.dumps(r, ensure_ascii=False)


def differs(trace, want):
    t, p, k = trace["t"], 1, 1
    ok, v = "ok", None
    for st in trace["y"]:
        if st["c"]:
            t = st["t"]
        p, k, ok, v = st["p"], st["k"], st["ok"], st["v"]
    if t != want["t"] or p != want["p"] or k != want["k"]:
        return True
    if "ok" in want and ok != want["ok"]:
        return True
    return want.get("ok") == "ok" and canon(v) != canon(want["v"])


def validate(c, cases, kind="run", module="EditorTrace", timeout=800, focus=None, env=None, pure=None):
    """Code -> model: runs the cases [{t, x: [expr]}] and has TLC check the recorded traces.

    focus: set of function names; a rejected step counts only if it mentions one of them.
    pure: functions that must leave no trace at all (the last match is not logged): a rejected
    step also counts if leaving out the earlier calls of these functions repairs it."""
    for i, x in enumerate(cases):
        x["id"] = i
    traces = c.harness(kind, cases)
    byid = {}
    for tr in traces:
        if "crash" in tr:
            cs = cases[tr["id"]]
            if "crash" in c.harness(kind, [cs], jobs=1)[0]:
                c.violation("the editor crashed: " + describe(cs["t"], cs["x"]), {"case": cs, "crash": tr["crash"]})
            tr = {"id": tr["id"], "t": cs["t"], "y": []}
        byid[tr["id"]] = tr
    bad, uns = trace_check(c, [byid[i] for i in range(len(cases))], module, timeout, env)
    steps = sum(len(t["y"]) for t in byid.values())
    stat = c.cov.setdefault("commands", {})
    for t in byid.values():
        for st in t["y"]:
            x = st["x"]
            if x["k"] == "l" and x["v"] and x["v"][0]["k"] == "y":
                k = text(x["v"][0]["v"])
                if len(k) < 30:
                    e = stat.setdefault(k, [0, 0])
                    e[0 if st["ok"] == "ok" else 1] += 1
    c.add("transitions", steps)
    c.add("states", steps + len(byid))
    c.add("traces_validated_against_impl", len(byid))
    c.add("unspecified_steps", uns)
    tr = byid[len(cases) // 3] if cases else None
    if tr:
        c.sample({"trace": describe(tr["t"], [s["x"] for s in tr["y"][:12]])})
    seen = set()
    blamed = 0
    for d in bad:
        tr = byid[d["bad"]]
        st = tr["y"][d["step"] - 1]
        if focus is not None and st["ok"] in ("ok", "err") and not (names(st["x"]) & focus):
            cs = cases[d["bad"]]
            prefix = cs["x"][:d["step"] - 1]
            rest = [x for x in prefix if not (names(x) & (pure or set()))]
            if not pure or len(rest) == len(prefix) or blamed > 200:
                c.add("rejected_out_of_focus", 1)
                continue
            blamed += 1
            again = c.harness(kind, [{"id": 0, "t": cs["t"], "x": rest + [cs["x"][d["step"] - 1]]}], jobs=1)[0]
            if "crash" in again or differs(again, d["want"]):
                c.add("rejected_out_of_focus", 1)
                continue
        cs = cases[d["bad"]]
        again = c.harness(kind, [cs], jobs=1)[0]
        if "crash" not in again and (len(again["y"]) < d["step"] or not same(again["y"][d["step"] - 1], st)) \
                and not c.leaks(kind, cases, d["bad"], again, lambda a: a.get("y")):
            raise CheckError("not repeatable: " + describe(tr["t"], [s["x"] for s in tr["y"][:d["step"]]]))
        key = tuple(sorted(names(st["x"])))
        if key in seen and len(c.violations) >= 5:
            continue
        seen.add(key)
        got = {"ok": st["ok"], "p": st["p"], "k": st["k"], "v": st["v"]}
        if st["c"]:
            got["t"] = st["t"]
        c.violation("%s: step %d: specified %s, got %s" % (
            describe(tr["t"], [s["x"] for s in tr["y"][:d["step"]]]), d["step"], brief(d["want"]), brief(got)),
            {"text": tr["t"], "steps": tr["y"][:d["step"]], "specified": d["want"]})
        if len(c.violations) > 50:
            break


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def names(x):
    if x["k"] != "l" or not x["v"]:
        return set()
    r = set()
    if x["v"][0]["k"] == "y":
        r.add(text(x["v"][0]["v"]))
    for y in x["v"]:
        r |= names(y)
    return r


def trace_check(c, traces, module, timeout, env=None):
    """TLC on recorded traces; returns (rejected steps, number of unspecified steps)."""
    p = c.fresh(".ndjson")
    with open(p, "w") as f:
        for t in traces:
            f.write(json.dumps(t, separators=(",", ":")) + "\n")
    e = {"TRACE": p}
    e.update(env or {})
    docs, distinct, _ = c.tlc(module, os.path.join(c_spec(), module + ".cfg"), env=e, timeout=timeout)
    os.unlink(p)
    bad = sorted((d for d in docs if "bad" in d), key=lambda d: (d["bad"], d.get("step", 0)))
    return bad, sum(1 for d in docs if "uns" in d)


def c_spec():
    from vlib import SPEC
    return SPEC
