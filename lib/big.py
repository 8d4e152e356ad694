"""Texts and scripts of any size: spec/Big.tla, which is Editor on runs of bytes."""
import json

from editor import trace_check
from vlib import CheckError

ODD_SIZES = [4095, 4096, 4097, 8192, 32768, 65535, 65536, 65537, 70000, 131072, 262145, 2 ** 20 - 1, 2 ** 20, 2 ** 20 + 1, 3 * 2 ** 20 + 5]
MOVES = ["forward-char", "backward-char", "forward-word", "backward-word", "beginning-of-line", "end-of-line", "beginning-of-buffer", "end-of-buffer", "goto-char", "goto-line"]
EDITS = ["insert", "delete-char", "delete-backward-char", "delete-line", "kill-line", "kill-word", "backward-kill-word"]
SEARCHES = ["search-forward", "search-backward", "re-search-forward", "re-search-backward", "looking-at", "looking-back"]
MATCHES = ["replace-match"]
REGION = ["set-mark", "set-mark-command", "exchange-point-and-mark", "mark-word", "mark-line", "mark-whole-buffer", "delete-region", "replace-region", "mark"]
QUERIES = ["point", "mark", "point-max", "buffer-size", "region-beginning", "region-end", "line-number-at-pos", "buffer-substring"]
STRINGS = ["length", "concat", "substring", "upcase", "downcase", "string-match", "replace-regexp-in-string"]
PATTERNED = {"re-search-forward": 1, "re-search-backward": 1, "looking-at": 1, "looking-back": 1, "string-match": 2, "replace-regexp-in-string": 3}
COUNTED = {"forward-char", "backward-char", "forward-word", "backward-word", "delete-char", "delete-backward-char", "delete-line", "kill-line", "kill-word",
           "backward-kill-word", "mark-line", "set-mark-command"}
ENTRIES = ["run", "files", "eval", "edit", "stdin", "file", "out", "inplace", "backup", "server"]


def push(t, c, n):
    if n <= 0:
        return
    if t and t[-1]["c"] == c:
        t[-1]["n"] += n
    else:
        t.append({"c": c, "n": n})


def size(t):
    return sum(x["n"] for x in t)


WIDE = ["\u00e9", "\u00c9", "\u00fc", "\u65e5", "\u00e9t\u00e9"]


def runs(r, most, big=0.4, letters=b"aab \n", wide=0.0):
    """A text of up to `most` runs; one of them may be huge.  wide: how often it has letters of several bytes."""
    parts = [([r.choice(letters)], r.choice([1, 1, 1, 2, 3, 5])) for _ in range(r.randrange(0, most + 1))]
    if r.random() < big:
        n = max(1, r.choice(ODD_SIZES) + r.choice([0, 0, -1, 1, -2, 7]))
        parts.insert(r.randrange(0, len(parts) + 1), ([r.choice(letters)], n))
    if r.random() < wide:
        for _ in range(r.choice([1, 2, 4])):
            parts.insert(r.randrange(0, len(parts) + 1), (list(r.choice(WIDE).encode()), 1))
    t = []
    for bs, n in parts:
        for b in bs:
            push(t, b, n)
    return t


def whole(t):
    """Whether a text has whole letters only."""
    try:
        bytes(b for x in t for b in [x["c"]] * min(x["n"], 3)).decode()
        return True
    except UnicodeDecodeError:
        return False


def near(r, t, k=3):
    """A number close to an edge of a run."""
    p, edges = 1, [1]
    for x in t:
        p += x["n"]
        edges.append(p)
    return r.choice(edges) + r.randrange(-k, k + 1)


def piece(r, t, most=3):
    """A part of a text, likely to occur in it."""
    if not t:
        return runs(r, 2, 0)
    i = r.randrange(len(t))
    m = min(r.choice([1, 1, 2, 3]), most)
    part = [dict(x) for x in t[i:i + m]]
    if r.random() < 0.7:
        part[0]["n"] = max(1, part[0]["n"] - r.choice([0, 1, 5, part[0]["n"] // 2]))
        if len(part) > 1:
            part[-1]["n"] = max(1, part[-1]["n"] - r.choice([0, 1, 3]))
    if r.random() < 0.15:
        part[0]["n"] += 1
    return part if whole(part) else runs(r, 2, 0)


def pattern(r, t):
    own = [x for x in t if x["c"] in b"abx"]
    if own and r.random() < 0.8:
        x = r.choice(own)
        n = r.choice([0, 0, 1, min(x["n"], 12), min(2, x["n"]), min(max(1, x["n"] // 2), 12)])
        return [{"c": x["c"], "n": n}]
    return [{"c": r.choice(b"abx"), "n": r.choice([0, 1, 2])}]


def command(r, f, t):
    o = {"f": f, "n": [], "x": [], "q": 1}
    if f in COUNTED and r.random() < 0.75:
        o["n"] = [near(r, t)] if f == "set-mark-command" else [r.choice([-1, 0, 1, 2, 3, 10, 1000, 65536, 10 ** 6, 2 * 10 ** 9 // 2, max(1, size(t) - r.randrange(3))])]
    elif f in ("goto-char", "goto-line"):
        o["n"] = [near(r, t) if f == "goto-char" or r.random() < 0.5 else r.choice([1, 2, 3, 70000, 10 ** 6])]
    elif f == "buffer-substring":
        o["n"] = [near(r, t), r.choice([near(r, t), near(r, t), -1])]
    elif f == "substring":
        o["x"] = [runs(r, 4, wide=0.2)]
        o["n"] = [near(r, o["x"][0])] + [near(r, o["x"][0])] * (r.random() < 0.7)
    elif f in ("insert", "replace-region", "replace-match"):
        o["x"] = [runs(r, 3, 0.12)]
    elif f in ("search-forward", "search-backward"):
        o["x"] = [piece(r, t)]
    elif f in PATTERNED:
        x = runs(r, 5) if PATTERNED[f] > 1 else t
        o["x"] = [pattern(r, x)]
        if f == "string-match":
            o["x"].append(x)
        elif f == "replace-regexp-in-string":
            o["x"] += [[{"c": r.choice(b"abyz"), "n": r.choice([1, 1, 2, 3])}] if r.random() < 0.8 else [], x]
    elif f == "concat":
        o["x"] = [runs(r, 3, 0.3, wide=0.2) for _ in range(r.choice([1, 2, 3]))]
    elif f in ("length", "upcase", "downcase"):
        o["x"] = [runs(r, 4, 0.6, b"abAZ \n", 0.6)]
    if f in ("insert", "forward-char", "delete-char", "backward-char", "forward-word", "point") and r.random() < 0.03 and (not o["x"] or len(o["x"][0]) < 2 and size(o["x"][0]) < 5):
        o["q"] = r.choice([50, 300, 2000])
    return o


def case(r, fns, n, via=(), text=None):
    t = runs(r, 8, 0.8, wide=0 if via else 0.15) if text is None else text
    p = []
    for _ in range(n):
        f = r.choice(fns) if r.random() < 0.6 else r.choice(MOVES + EDITS + ["set-mark", "goto-char", "goto-char", "exchange-point-and-mark", "search-forward", "replace-match"])
        p.append(command(r, f, t))
        if f.startswith(("search", "re-search")) and r.random() < 0.5:
            p.append(command(r, "replace-match", t))
    return {"t": t, "p": p, "via": entries(r, via)}


def quiet(r, n, via):
    """A program without searches: it does not fail."""
    c = case(r, MOVES + EDITS + REGION, 0, via)
    c["p"] = [command(r, r.choice(MOVES + EDITS + REGION + ["insert", "insert", "goto-char"]), c["t"]) for _ in range(n)]
    return c


def entries(r, via):
    return [{"via": v, "fmt": r.choice(["shell", "sexp", "json"] if v not in ("eval", "edit", "server") else ["shell", "json"])} for v in via]


def long_scripts(r, via, deepest=False):
    """Scripts that are long or deep, in every way, without and with an error at the end."""
    word, tail = [{"c": 97, "n": 1}], {"f": "insert", "n": [], "x": [[{"c": 98, "n": 3}]], "q": 1}
    out = []
    for n in (3000, 9000):
        out.append([{"f": "insert", "n": [], "x": [word], "q": n}, tail])
    for n in (70000, 2 ** 20 + 1, 5 * 2 ** 20):
        out.append([{"f": "insert", "n": [], "x": [[{"c": 97, "n": n}, {"c": 10, "n": 2}]], "q": 1}, tail])
        out.append([{"f": "insert", "n": [], "x": [[{"c": 10, "n": n // 3}, {"c": 97, "n": 2}]], "q": 1}, tail])
    for n in (1000, 5000, 9900):
        out.append([{"f": "nest", "n": [n], "x": [word], "q": 1}, tail])
    for n in (10100, 25000):
        out.append([tail, {"f": "nest", "n": [n], "x": [word], "q": 1}])
    for n in (1, 10000, 50000) + ((6 * 10 ** 6,) if deepest else ()):
        out.append([tail, {"f": "open", "n": [n], "x": [], "q": 1}])
    cases = [{"t": runs(r, 3, 0.2), "p": p, "via": entries(r, via)} for p in out]
    for p in out[:11]:
        if r.random() < 0.5:
            cases.append({"t": runs(r, 3, 0.2), "p": p + [{"f": "open", "n": [r.choice([1, 7])], "x": [], "q": 1}], "via": entries(r, via)})
    return cases


def loop(r):
    """A script that takes something away in every round, until there is no more of it."""
    x = r.choice([97, 98, 10])
    k = r.choice([1, 1, 2, 3, 9])
    t, left = [], r.choice([0, 3, 17, 40, 70]) * k
    for _ in range(r.randrange(1, 9)):
        if r.random() < 0.5:
            n = min(left, r.choice([k, k, k + 1, 2 * k, 5 * k]))
            left -= n
            push(t, x, n)
        else:
            push(t, r.choice([99, 32, 100]), r.choice([1, 2, 5]) if r.random() < 0.7 else r.choice(ODD_SIZES[:8]))
    o = lambda f, *xs, **kw: {"f": f, "n": kw.get("n", []), "x": list(xs), "q": 1}
    own = [{"c": x, "n": k}]
    p = [r.choice([o("search-forward", own), o("re-search-forward", own), o("re-search-forward", [{"c": x, "n": 0}])])] if r.random() < 0.7 or x == 10 else \
        [o("end-of-buffer"), r.choice([o("search-backward", own), o("re-search-backward", own)])]
    if x == 10:
        p = [o("search-forward", own)]
    p.append(o("replace-match", r.choice([[], [{"c": 122, "n": 2}], [{"c": 99, "n": r.choice([1, 700])}]])))
    for _ in range(r.choice([0, 0, 1, 2])):
        p.insert(r.choice([0, len(p)]), r.choice([o("insert", [{"c": 99, "n": r.choice([1, 5])}]), o("point"), o("upcase", own), o("end-of-line"), o("set-mark")]))
    if p[0]["f"] == "end-of-line" and x != 10 or r.random() < 0.1:
        p.append(o("beginning-of-buffer"))
    return {"t": t, "p": p, "via": [{"via": "loop", "fmt": r.choice(["shell", "json"])}]}


def tell(c, n=None):
    def tx(t):
        return "+".join("%r" % chr(x["c"]) + ("*%d" % x["n"] if x["n"] != 1 else "") if x["c"] >= 0 else "?" for x in t) or "''"
    p = c["p"] if n is None else c["p"][:n]
    return "%s on %s" % ("; ".join("%s%s%s%s" % (o["f"], "".join(" " + tx(x) for x in o["x"]), "".join(" %d" % k for k in o["n"]), " (%d times)" % o["q"] if o["q"] != 1 else "") for o in p), tx(c["t"]))


def big(c, cases, focus=None, steps=True, timeout=600):
    """Runs the cases and has TLC judge them.  focus: functions of which a rejected step counts; steps: whether steps count."""
    exe = c.texted()
    for i, x in enumerate(cases):
        x["id"], x["texted"] = i, exe
    got = c.harness("big", cases, timeout=timeout)
    byid, traces = {}, []
    for g in got:
        x = cases[g["id"]]
        if "crash" in g:
            if "crash" in c.harness("big", [x], jobs=1)[0]:
                c.violation("crash: %s" % tell(x)[:1500], {"case": x, "got": g["crash"][-1500:]})
            continue
        byid[g["id"]] = g
        traces.append(g)
    bad, _ = trace_check(c, traces, "BigTrace", timeout)
    n = sum(len(t["y"]) + len(t["o"]) for t in traces)
    c.add("states", n + len(traces))
    c.add("transitions", n)
    c.add("traces_validated_against_impl", len(traces))
    c.cov["big"] = {"texts": len(traces), "largest": max([size(t["t"]) for t in traces] + [0]), "steps": sum(len(t["y"]) for t in traces), "entries": sum(len(t["o"]) for t in traces),
                    "failed_entries": sum(o["st"] == "err" for t in traces for o in t["o"])}
    for d in bad:
        g, x = byid[d["bad"]], cases[d["bad"]]
        k = d["step"]
        again = c.harness("big", [x], jobs=1)[0]
        if (again.get("y") != g["y"] or again.get("o") != g["o"]) and not c.leaks("big", cases, d["bad"], again, lambda a: (a.get("y"), a.get("o"))):
            raise CheckError("not repeatable: %s" % tell(x)[:1500])
        if k <= len(g["y"]):
            seen = g["y"][k - 1]
            if seen["ok"] in ("ok", "err") and (not steps or focus is not None and g["p"][k - 1]["f"] not in focus):
                c.add("rejected_out_of_focus", 1)
                continue
            what = tell(x, k)
        else:
            seen = g["o"][k - len(g["y"]) - 1]
            what = "%s (%s): %s" % (seen["via"], seen["fmt"], tell(x))
        c.violation("%s: specified %s, got %s" % (what[:1500], json.dumps(d["want"])[:600], json.dumps(seen)[:600]), {"case": x, "step": k, "seen": seen, "specified": d["want"]})
    return traces


def sizes(c, fns, quick, thorough, focus=None, n=12):
    """Random programs around the functions on texts of any size; focus: those of which a rejected step counts."""
    r = c.rng
    big(c, [case(r, fns, n) for _ in range(quick if c.quick else thorough)], set(fns) if focus is None else focus)


def refinement(c):
    """Big is Editor, on every small text."""
    runs = 2 if c.quick else 3
    _, distinct, gen = c.tlc("BigGen", "SPECIFICATION Spec\nINVARIANT Refines\nCHECK_DEADLOCK FALSE\nCONSTANTS Runs = %d\n Reps = 2\n" % runs, timeout=800)
    c.add("states", distinct)
    c.add("transitions", gen)
    c.cov.setdefault("models", []).append({"module": "BigGen", "distinct": distinct})


def through(c, via, quick, thorough, long=False, counted=None, focus=None):
    """Whole scripts through entry points; the steps count only of the functions in focus."""
    r = c.rng
    cases = []
    for _ in range(quick if c.quick else thorough):
        own = via if counted is None else r.sample(via, counted)
        cases.append(quiet(r, r.choice([1, 3, 8]), own) if r.random() < 0.7 else case(r, SEARCHES + MATCHES + STRINGS, 6, own))
    if long:
        cases += long_scripts(r, via if counted is None else r.sample(via, counted))
    big(c, cases, focus, focus is not None)
