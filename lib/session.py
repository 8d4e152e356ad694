"""Sessions with the server: building them, running them, judging every answer."""
import base64
import json
import os

from files import *
from vlib import CheckError, text, show

NAMES = {"mcp": "edit_file", "eval": "texted_eval", "doc": "texted_doc"}
INIT = [{"jsonrpc": "2.0", "id": "init", "method": "initialize", "params": {"protocolVersion": "2024-11-05", "capabilities": {}, "clientInfo": {"name": "verif", "version": "1"}}},
        {"jsonrpc": "2.0", "method": "notifications/initialized"}]


def rpc(i, name, args, **kw):
    p = {"name": name}
    if args is not Ellipsis:
        p["arguments"] = args
    p.update(kw)
    return {"jsonrpc": "2.0", "id": i, "method": "tools/call", "params": p}


def arguments(o, real):
    """The arguments of a good call."""
    if o["k"] == "mcp":
        a = {"script": text(o["src"]), "files": [real[n] for n in o["ns"]]}
        if o["loop"] or o.get("explicit"):
            a["loopUntilError"] = o["loop"]
        return a
    if o["k"] == "eval":
        a = {"script": text(o["src"]), "input": text(o["inp"])}
        if o["mode"] != "buffer" or o.get("explicit"):
            a["output"] = o["mode"]
        return a
    return dict(o["doc"])


def dump(r, m):
    """JSON in one of its spellings."""
    if r.random() < 0.5:
        return json.dumps(m)
    if r.random() < 0.5:
        return json.dumps(m, ensure_ascii=False, separators=(",", ":"))
    items = list(m.items())
    r.shuffle(items)
    return json.dumps(dict(items), ensure_ascii=r.random() < 0.5)


def bad_call(r, real, i, prefix):
    """A call that cannot be served, as a message, with a description."""
    f = sorted(real.values())[0]
    wrong = [None, 5, True, ["x"], {"a": 1}, 1.5]
    s = 'insert "WRONG"'
    k = r.randrange(20)
    name = lambda n: prefix + NAMES[n]
    if k == 0:
        a = ("mcp", {"files": [f]})
    elif k == 1:
        a = ("mcp", {"script": s})
    elif k == 2:
        a = ("mcp", {"script": s, "files": []})
    elif k == 3:
        a = ("mcp", {"script": r.choice(wrong), "files": [f]})
    elif k == 4:
        a = ("mcp", {"script": s, "files": r.choice([f, None, 5, True, {"0": f}])})
    elif k == 5:
        a = ("mcp", {"script": s, "files": r.choice([[f, 5], [None], [[f]], [f, {"x": 1}], [f, f, True]]), "loopUntilError": r.random() < 0.3})
    elif k == 6:
        a = ("mcp", r.choice([{}, Ellipsis, None, [s, [f]], s, 7]))
    elif k == 7:
        a = ("eval", {"script": s})
    elif k == 8:
        a = ("eval", {"input": "text"})
    elif k == 9:
        a = ("eval", {"script": r.choice(wrong), "input": "text"})
    elif k == 10:
        a = ("eval", {"script": s, "input": r.choice(wrong), "output": r.choice(["buffer", "expression"])})
    elif k == 11:
        a = ("eval", {"script": s, "input": "text", "output": r.choice(["Buffer", "text", "expr", "json", "", "expression ", "both"])})
    elif k == 12:
        a = ("eval", r.choice([{}, Ellipsis, None, [], "x"]))
    elif k == 13:
        a = ("doc", {"function_name": "point", "category": "search", "verbose": r.random() < 0.5})
    elif k == 14:
        a = ("doc", {"function_name": r.choice(["no-such", "poin", "POINT", "points", " point", "(point)", "search", "-", "*", "search-forward "])})
    elif k == 15:
        a = ("doc", {"category": r.choice(["no-such", "Search", "searc", "search ", "all", "*", "movement,search"])})
    elif k == 16:
        n = r.choice(["edit", "EDIT_FILE", "", "eval", "texted", "edit_files", "texted_eval ", "shell", prefix])
        if n in {prefix + x for x in NAMES.values()}:
            n = "nothing"
        return rpc(i, n, {"script": s, "files": [f], "input": "x"}), "unknown tool"
    elif k == 17:
        n = r.choice(sorted(NAMES.values()))
        n = n if prefix else "x" + n
        return rpc(i, n, {"script": s, "files": [f], "input": "x"}), "unknown tool (prefix)"
    elif k == 18:
        return {"jsonrpc": "2.0", "id": i, "method": r.choice(["tools/run", "tools/cal", "edit_file", "shutdown", "exit", "tools/call/edit_file"]), "params": {"name": name("mcp"), "arguments": {"script": s, "files": [f]}}}, "unknown method"
    else:
        p = r.choice([5, "x", [], {"name": 5}, {"name": None}, {"name": ["edit_file"]}, {"arguments": {"script": s, "files": [f]}}])
        return {"jsonrpc": "2.0", "id": i, "method": "tools/call", "params": p}, "bad parameters"
    return rpc(i, name(a[0]), a[1]), "wrong arguments"


NOISE = ["", "   ", "{", "[]", "5", "null", "not json", '{"jsonrpc": "2.0"', '{"jsonrpc": "2.0", "id": 1', "\u00e9\u00e9", '"x"', "{}", "[[[[[["]


class Session:
    """Builds the messages of a session; ops are the calls that are judged."""

    def __init__(self, r, real, pipe, prefix=""):
        self.r, self.real, self.pipe, self.prefix = r, real, pipe, prefix
        self.msgs, self.ops, self.ids = [], [], []
        for m in INIT:
            self.msgs.append({"line": json.dumps(m), "wait": "id" in m, "look": False})

    def ident(self):
        n = len(self.ops)
        return self.r.choice([n + 1, "c%d" % n, n + 1000000, "id \u00e9 %d" % n])

    def add(self, o):
        i = self.ident()
        if o["k"] == "bad":
            m, o["why"] = bad_call(self.r, self.real, i, self.prefix)
        else:
            m = rpc(i, self.prefix + NAMES[o["k"]], arguments(o, self.real))
        o["line"] = dump(self.r, m)
        self.ids.append(i)
        self.ops.append(o)
        self.msgs.append({"line": o["line"], "wait": True, "look": not self.pipe})

    def put(self, o):
        """Someone else changes a file."""
        o["line"] = tell(o, self.real)
        self.ids.append(None)
        self.ops.append(o)
        self.msgs.append({"line": "", "wait": False, "look": True, "put": {k: o[k] for k in ("n", "e", "keep", "new")}})

    def noise(self):
        k = self.r.random()
        if k < 0.4:
            self.msgs.append({"line": self.r.choice(NOISE), "wait": True, "look": False})
        elif k < 0.6:
            self.msgs.append({"line": json.dumps({"jsonrpc": "2.0", "id": "ping%d" % len(self.msgs), "method": "ping"}), "wait": True, "look": False})
        elif k < 0.8:
            self.msgs.append({"line": json.dumps({"jsonrpc": "2.0", "id": "list%d" % len(self.msgs), "method": "tools/list"}), "wait": True, "look": False})
        else:
            self.msgs.append({"line": json.dumps({"jsonrpc": "2.0", "method": "notifications/cancelled", "params": {"requestId": 99}}), "wait": False, "look": False})

    def case(self, i, fs, rodirs, exe):
        return {"id": i, "fs": fs, "real": self.real, "rodirs": rodirs, "texted": exe, "argv": ["mcp"] + (["--prefix=" + self.prefix] if self.prefix else []),
                "msgs": self.msgs, "pipe": self.pipe, "chunk": self.r.choice([0, 0, 0, 7, 4096])}


def answer(line):
    """(status, text) of an answer; None if it is not one."""
    if line.get("jsonrpc") != "2.0":
        return None
    if "error" in line:
        e = line["error"]
        return ("err", "") if "result" not in line and isinstance(e, dict) and isinstance(e.get("message"), str) and e["message"] and isinstance(e.get("code"), int) else None
    r = line.get("result")
    if not isinstance(r, dict) or not isinstance(r.get("content"), list):
        return None
    out = ""
    for x in r["content"]:
        if x.get("type") != "text" or not isinstance(x.get("text"), str):
            return None
        out += x["text"]
    if r.get("isError"):
        return ("err", out) if out else None
    return "ok", out


def tools_listed(line, prefix):
    """What is wrong with the list of tools?"""
    names = sorted(t.get("name") for t in line.get("result", {}).get("tools", []))
    want = sorted(prefix + n for n in NAMES.values())
    return None if names == want else "tools are listed as %s" % names


def run_sessions(c, sessions, timeout=800):
    """sessions: [(Session, fs, rodirs)]"""
    exe = c.texted()
    cases = [s.case(i, fs, ro, exe) for i, (s, fs, ro) in enumerate(sessions)]
    got = {g["id"]: g for g in c.harness("session", cases, nobody=True, timeout=timeout)}
    # the answer that a look-up gets alone
    alone = {}
    for s, _, _ in sessions:
        for o in s.ops:
            if o["k"] == "doc":
                alone.setdefault(json.dumps(o["doc"], sort_keys=True), None)
    keys = sorted(alone)
    one = []
    for i, k in enumerate(keys):
        s = Session(c.rng, {"a": "a"}, False)
        s.add({"k": "doc", "doc": json.loads(k)})
        one.append(s.case(i, {"a": {"k": "none"}}, [], exe))
    if one:
        for g in c.harness("session", one, nobody=True, timeout=timeout):
            a = answer(g["lines"][-1]) if g.get("lines") else None
            if a is None:
                c.violation("texted_doc %s: no answer" % keys[g["id"]], g)
                return []
            alone[keys[g["id"]]] = {"st": a[0], "out": b(a[1])}
    traces = []
    for i, (s, fs, _) in enumerate(sessions):
        g = got[i]

        def wrong(what, o=None):
            c.violation("session%s: %s%s" % (" (pipelined)" if s.pipe else "", what, " for " + o["line"][:300] if o else ""), {"case": cases[i], "got": g})
        if "crash" in g:
            wrong("crash of the harness: " + g["crash"][:300])
            continue
        if g["exit"] != "ok":
            wrong("ended with %s: %s" % (g["exit"], g["err"][:400]))
            continue
        if g["odd"]:
            wrong(g["odd"][0])
            continue
        if g["end"]["extra"]:
            wrong("made files that nobody asked for: %s" % g["end"]["extra"][:3])
            continue
        by = {}
        for ln in g["lines"]:
            if ln.get("id") is not None:
                by.setdefault(json.dumps(ln["id"]), []).append(ln)
        ops, looks, fine = [], [x for x in g["seen"] if x], True
        for n, (o, ident) in enumerate(zip(s.ops, s.ids)):
            if o["k"] == "put":
                ops.append({"k": "put", "n": o["n"], "e": o["e"], "obs": {"fs": looks[n]["fs"]}})
                continue
            a = by.pop(json.dumps(ident), [])
            if len(a) != 1:
                wrong("%d answers" % len(a), o)
                fine = False
                break
            st = answer(a[0])
            if st is None:
                wrong("ill-formed answer %s" % json.dumps(a[0])[:300], o)
                fine = False
                break
            if not s.pipe and looks[n]["extra"]:
                wrong("made files that nobody asked for: %s" % looks[n]["extra"][:3], o)
                fine = False
                break
            h = {"out": b(st[1]), "st": st[0], "err": "", "fs": None if s.pipe else looks[n]["fs"]}
            p = {k: v for k, v in o.items() if k not in ("line", "explicit", "why")}
            p["obs"] = seen(c, o, h, s.real) if o["k"] in ("mcp", "eval") else {"fs": h["fs"], "st": h["st"], "out": h["out"]}
            if o["k"] == "mcp" and st[0] != "ok":
                p["obs"]["n"] = -2
            if s.pipe:
                del p["obs"]["fs"]
            if o["k"] == "doc":
                p["doc"] = json.dumps(o["doc"], sort_keys=True)
                p["alone"] = alone[p["doc"]]
            ops.append(p)
        if not fine:
            continue
        for k, v in by.items():
            if k == '"init"' or k.startswith('"ping'):
                if len(v) != 1 or "result" not in v[0]:
                    wrong("answer %s to %s" % (json.dumps(v)[:200], k))
            elif k.startswith('"list'):
                bad = tools_listed(v[0], s.prefix) or (len(v) != 1 and "several answers")
                if bad:
                    wrong(bad)
        traces.append({"id": i, "fs": fs, "real": {k: b(v) for k, v in s.real.items()}, "pipe": s.pipe, "stdio": True, "ops": ops, "end": g["end"]["fs"]})
    bad, uns = trace_check(c, traces, "SessionTrace", timeout)
    n = sum(len(t["ops"]) for t in traces)
    c.add("states", n + 2 * len(traces))
    c.add("transitions", n)
    c.add("traces_validated_against_impl", len(traces))
    c.add("unspecified_steps", uns)
    tr = {t["id"]: t for t in traces}
    for d in bad:
        s, fs, ro = sessions[d["bad"]]
        t = tr[d["bad"]]
        if d["step"] > len(s.ops):
            c.violation("session (pipelined: %s): files at the end are %s, specified %s, after %s" % (s.pipe, tellfs(t["end"]), tellfs(d["want"]), "; ".join(o["line"][:200] for o in s.ops)),
                        {"case": cases[d["bad"]], "end": t["end"]})
        else:
            o, obs = s.ops[d["step"] - 1], t["ops"][d["step"] - 1]["obs"]
            rest = {k: (text(v)[:300] if k == "out" else v) for k, v in obs.items() if k not in ("fs", "marks", "lines")}
            before = "" if s.pipe else " with %s" % tellfs(t["fs"] if d["step"] == 1 else t["ops"][d["step"] - 2]["obs"]["fs"])
            c.violation("session, call %d, %s%s%s: got %s%s; specified %s" % (d["step"], o["line"][:400], " (%s)" % o["why"] if "why" in o else "", before, rest,
                        ", files %s" % tellfs(obs["fs"]) if "fs" in obs else "", brief(d["want"])), {"case": cases[d["bad"]], "observed": obs, "specified": d["want"]})
        if len(c.violations) > 30:
            break
    return traces


# ---- calls at the same time ---------------------------------------------------
def burst(c, calls, conc, times, race=False, timeout=800):
    """calls: [(o, tool, args, fs, real)], made by several threads of one process; every answer is judged by itself."""
    size = 48
    parts = [calls[i:i + size] for i in range(0, len(calls), size)]
    send = lambda i, part, conc, times: {"id": i, "conc": conc, "times": times,
                                         "calls": [{"tool": t, "args": a, "fs": fs, "real": real} for _, t, a, fs, real in part]}
    docs = [x for x in calls if x[0]["k"] == "doc"]
    alone = {}
    for x, g in zip(docs, c.harness("burst", [send(i, [x], 1, 1) for i, x in enumerate(docs)]) if docs else []):
        alone[json.dumps(x[0]["doc"], sort_keys=True)] = g["res"][0][0]
    got = c.harness("burst", [send(i, p, conc, times) for i, p in enumerate(parts)], race=race, env={"GORACE": "halt_on_error=1"}, timeout=timeout)
    traces, of = [], []
    for p, g in zip(parts, got):
        if "crash" in g or g["bad"]:
            c.violation("calls at the same time%s: %s" % (" (race detector)" if race else "", g.get("bad") or g["crash"][-900:]), {"calls": [x[2] for x in p], "got": g})
            continue
        for (o, tool, args, fs, real), obs in zip(p, g["res"]):
            c.add("transitions", len(obs))
            distinct = {json.dumps(x, sort_keys=True): x for x in obs}
            for h in distinct.values():
                if h["st"] == "crash":
                    c.violation("%s %s, %d at a time: crash" % (tool, json.dumps(args)[:400], conc), {"args": args, "got": h})
                    continue
                q = {k: v for k, v in o.items() if k not in ("explicit", "why", "line")}
                h["err"] = ""
                q["obs"] = seen(c, o, h, real) if o["k"] in ("mcp", "eval") else {"fs": h["fs"], "st": h["st"], "out": h["out"]}
                if o["k"] == "doc":
                    q["doc"] = json.dumps(o["doc"], sort_keys=True)
                    a = alone[q["doc"]]
                    q["alone"] = {"st": a["st"], "out": a["out"]}
                traces.append({"id": len(traces), "fs": fs, "real": {k: b(v) for k, v in real.items()}, "pipe": False, "stdio": False, "ops": [q], "end": q["obs"]["fs"]})
                of.append((o, tool, args, h, len(distinct)))
    bad, uns = trace_check(c, traces, "SessionTrace", timeout)
    c.add("states", 3 * len(traces))
    c.add("traces_validated_against_impl", len(traces))
    c.add("unspecified_steps", uns)
    for d in bad[:20]:
        o, tool, args, h, n = of[d["bad"]]
        c.violation("%s %s, %d at a time: one of %d different answers is %s %r, files %s; specified %s" % (tool, json.dumps(args)[:400], conc, n, h["st"], text(h["out"])[:300], tellfs(h["fs"]), brief(d["want"])),
                    {"args": args, "got": h, "specified": d["want"]})
