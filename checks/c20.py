"""C20: documentation."""
import concurrent.futures
import json
import re
import subprocess

from vlib import CheckError, b
from editor import trace_check

HEAD = re.compile(r"^# (.*)$", re.M)


def listing(out, mcp):
    """The functions of a listing, by group: [(category or None, [(name, summary or None)])]"""
    groups = []
    for ln in out.split("\n"):
        m = re.match(r"## (.+)$", ln)
        if m:
            groups.append((m.group(1).lower(), []))
            continue
        m = re.match(r"(?:- |  )(?:\*\*(.+?)\*\*(?:: (.*))?|(\S+))$", ln)
        if m:
            if not groups:
                groups.append((None, []))
            groups[-1][1].append((m.group(1) or m.group(3), m.group(2)))
    return groups


def parameters(out, via):
    """The parameters that a description lists: the command line says which of them are optional."""
    return [(m.group(1), m.group(2), bool(m.group(3)) and via != "mcp") for m in re.finditer(r"^- \*\*(.+?)\*\* \((\w+)\)( \(optional\))?", out, re.M)]


def shown(q, via, ok, out, cat):
    """What an answer shows, for the specification."""
    o = {"ok": ok, "names": [], "groups": [], "sums": [], "own": [], "cats": [], "sorted": True}
    if not ok:
        return o
    if q["op"] == "one":
        o["names"] = HEAD.findall(out)[:1]
        flat = " ".join(out.split())
        has = lambda t: " ".join(t.split()) in flat
        for n in o["names"]:
            d = cat.get(n)
            fits = d and has(d["Summary"]) and has(d["Description"]) and has(d["Category"]) and all(has("**%s** (%s)" % (p["Name"], p["Type"])) and has(p["Description"]) for p in d["Parameters"] or []) \
                and all(has(e["Input"]) and has(e["Description"]) and (via == "mcp" or has(e["Buffer"]) and has(e["Output"])) for e in d["Examples"] or []) and all(has(s) for s in d["SeeAlso"] or []) \
                and parameters(out, via) == [(p["Name"], p["Type"], bool(p["Optional"]) and via != "mcp") for p in d["Parameters"] or []]
            o["own"].append(n if fits else "?")
        o["sums"] = [n for n in cat if has("**" + cat[n]["Summary"] + "**")]
        return o
    gs = listing(out, via == "mcp")
    for m in re.finditer(r"\((\d+) total\)|Found (\d+) function", out.split("\n\n## ")[0]):
        if int(m.group(1) or m.group(2)) != sum(len(fs) for _, fs in gs):
            o["own"].append("counted as %s" % m.group(0))
    for g, fs in gs:
        if not fs:
            continue
        names = [n for n, _ in fs]
        if g is not None:
            o["groups"].append({"cat": g, "b": b(g), "names": names})
        o["names"] += names
        for n, s in fs:
            o["own"].append(n if not q["verbose"] or (n in cat and s == cat[n]["Summary"]) else "?")
            if s is not None:
                o["sums"].append(n)
    return o


def queries(cat, r, quick):
    cats = sorted({d["Category"] for d in cat.values()})
    qs = []
    for n in sorted(cat):
        near = {n[:-1], n + "s", n.upper(), n.replace("-", "_"), " " + n, n + " ", n.title(), "(" + n + ")", n.split("-")[0], n.split("-")[-1], n[1:], "(%s)" % n, n.replace("-", "")} - {""}
        for x in [n] + (r.sample(sorted(near), 4) if quick else sorted(near)):
            qs.append({"op": "one", "arg": x, "verbose": r.random() < 0.2})
    for x in ["no-such-function", "*", "doc", "all", "search", "help"]:
        qs.append({"op": "one", "arg": x, "verbose": False})
    for k in cats + [k[:-1] for k in cats] + [k.upper() for k in cats] + [k.title() for k in cats] + [k + " " for k in cats] + ["no-such", "other", "Uncategorized", "point", "all", "search,movement", ".*"]:
        for v in (False, True):
            qs.append({"op": "cat", "arg": k, "verbose": v})
    for v in (False, True) * 8:
        qs.append({"op": "all", "arg": "", "verbose": v})
    return qs


def argv(q, r):
    if q["op"] == "one":
        a = ["--", q["arg"]] if q["arg"].startswith("-") else [q["arg"]]
        return ["doc"] + (["--verbose"] if q["verbose"] else []) + a
    a = ["doc"] + (r.choice([["--category", q["arg"]], ["--category=" + q["arg"]]]) if q["op"] == "cat" else [])
    return a + ([r.choice(["-v", "--verbose"])] if q["verbose"] else [])


def tool_args(q, r):
    a = {"function_name": q["arg"]} if q["op"] == "one" else {"category": q["arg"]} if q["op"] == "cat" else {}
    if q["verbose"] or r.random() < 0.3:
        a["verbose"] = q["verbose"]
    if r.random() < 0.2:
        a.setdefault("function_name", "")
    if r.random() < 0.2:
        a.setdefault("category", "")
    return a


def check(c):
    r = c.rng
    exe = c.texted()
    names = c.harness("docs", [{"id": 0, "conc": 1, "qs": [{"via": "lib", "op": "all"}]}])[0]["res"][0]["docs"]
    every = [d["Name"] for d in names]
    got = c.harness("docs", [{"id": 0, "conc": 1, "qs": [{"via": "lib", "op": "one", "arg": n} for n in every]}])[0]["res"]
    cat, own = {}, {}
    for n, a in zip(every, got):
        if a["docs"]:
            cat[n] = a["docs"][0]
            own[n] = a["docs"][0]["Name"]
    sums = [(d["Summary"], d["Description"]) for d in cat.values()]
    for i, key in enumerate(["summary", "description"]):
        seen = {}
        for n, d in sorted(cat.items()):
            t = (d["Summary"], d["Description"])[i].strip()
            if not t:
                c.violation("%s has no %s" % (n, key), {"function": n})
            elif t in seen:
                c.violation("%s and %s have the same %s" % (seen[t], n, key), {"functions": [seen[t], n]})
            seen[t] = n
    cs = {n: {"b": b(n), "cat": d["Category"], "params": [{"t": p["Type"], "o": p["Optional"]} for p in d["Parameters"] or []], "see": d["SeeAlso"] or []} for n, d in cat.items()}
    recs = [{"id": 0, "catalog": cs, "own": own}]

    def record(q, via, obs, how):
        recs.append({"id": len(recs), "q": q, "via": via, "obs": obs})
        hows.append(how)
    hows = [None]
    # the library and the tool, one after another and at the same time
    qs = queries(cat, r, c.quick)
    for conc, race in [(1, False), (8, False), (8, True)]:
        mine = []
        for q in qs + [{"op": "cats", "arg": "", "verbose": False}] * 8 + [{"op": "env", "arg": "", "verbose": False}] * 8:
            for via in ("lib", "mcp"):
                if q["op"] in ("cats", "env") and via == "mcp" or race and r.random() < 0.6:
                    continue
                mine.append(dict(q, via=via, args=tool_args(q, r)))
        if conc > 1:
            r.shuffle(mine)
        parts = [mine[i::4] for i in range(4)] if conc > 1 else [mine]
        res = c.harness("docs", [{"id": i, "conc": conc, "qs": p} for i, p in enumerate(parts)], race=race, env={"GORACE": "halt_on_error=1"})
        for p, a in zip(parts, res):
            if "crash" in a:
                c.violation("look-ups at the same time%s: %s" % (" (race detector)" if race else "", a["crash"][-600:]), {"queries": p[:50], "stderr": a["crash"]})
                continue
            for q, x in zip(p, a["res"]):
                pure = {k: q[k] for k in ("op", "arg", "verbose")}
                if q["via"] == "mcp":
                    obs = shown(q, "mcp", x["ok"], x["text"], cat)
                    if not x["ok"] and HEAD.search(x["text"]):
                        obs["names"] = HEAD.findall(x["text"])
                else:
                    ns = [d["Name"] for d in x["docs"]]
                    obs = {"ok": x["ok"] and not (q["op"] == "cat" and not ns), "names": ns if q["op"] != "env" else x["list"], "groups": [], "sums": [], "cats": x["list"], "sorted": x["list"] == sorted(x["list"]),
                           "own": [d["Name"] if cat.get(d["Name"]) == d else "?" for d in x["docs"]] if q["op"] != "env" else x["list"]}
                record(pure, q["via"], obs, "%s %s at %d" % (q["via"], json.dumps(q.get("args") if q["via"] == "mcp" else pure), conc))

    def run(q):
        a = argv(q, r)
        p = subprocess.run([exe] + a, capture_output=True, text=True, timeout=60, cwd=c.tmp)
        return q, a, p
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for q, a, p in ex.map(run, qs + [{"op": "one", "arg": "", "verbose": False}]):
            ok = p.returncode == 0
            obs = shown(q, "cli", ok, p.stdout, cat)
            if not ok:
                obs["names"] = HEAD.findall(p.stdout) + [n for _, fs in listing(p.stdout, False) for n, _ in fs]
                obs["own"] = obs["names"]
                if not p.stderr.strip() or p.returncode < 0 or "\ngoroutine " in p.stderr:
                    c.violation("texted %s: exit %d, reported %r" % (" ".join(a), p.returncode, p.stderr[-300:]), {"argv": a})
            record(q, "cli", obs, "texted " + " ".join(a))
    # several names at once are refused
    for a in (["doc", "point", "mark"], ["doc", "point", "point"], ["doc", "a", "b", "c"]):
        p = subprocess.run([exe] + a, capture_output=True, text=True, timeout=60, cwd=c.tmp)
        c.add("transitions")
        if p.returncode == 0 or HEAD.search(p.stdout):
            c.violation("texted %s shows %r" % (" ".join(a), p.stdout[:100]), {"argv": a})
    bad, _ = trace_check(c, recs, "DocsTrace", 800)
    c.add("states", 2 * len(recs))
    c.add("transitions", len(recs))
    c.add("traces_validated_against_impl", len(recs) - 1)
    c.cov["functions"] = len(cat)
    for d in bad:
        if d["bad"] == 0:
            c.violation("catalog: available but not documented %s, documented but not available %s, documented with other parameters %s" % (d["undocumented"], d["unavailable"], d["unfit"]), d)
            continue
        x = recs[d["bad"]]
        o = {k: v for k, v in x["obs"].items() if k in ("ok", "names", "groups", "own")}
        c.violation("%s (%s): got %s, specified %s" % (hows[d["bad"]], json.dumps(x["q"]), json.dumps(o)[:500], json.dumps(d["want"])[:300]), {"how": hows[d["bad"]], "record": x, "specified": d["want"]})
        if len(c.violations) > 30:
            break
    c.sample({"look-up": hows[len(hows) // 2], "shown": recs[len(hows) // 2]["obs"]["names"][:5]})
