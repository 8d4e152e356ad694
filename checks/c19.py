"""C19: the test runner."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess

from drivers import *
from editor import trace_check
from scripts import render, mutate, sexp, utf8
from c09 import rinstr
from c10 import ALL, plain
from vlib import CheckError, known_findings, b, text, show, S, Nm

LEGAL = re.compile("^[\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]*$")


def xml_text(r, s, attr=False):
    out, i = "", 0
    while i < len(s):
        k = r.random()
        if not attr and k < 0.03:
            j = min(len(s), i + r.randrange(1, 12))
            part = s[i:j]
            if "]]>" not in part and "\r" not in part:
                out += "<![CDATA[%s]]>" % part
                i = j
                continue
        if not attr and k < 0.045:
            out += r.choice(["<!-- c -->", "<!--<output>x</output>-->", "<?pi x?>"])
        ch = s[i]
        if ch in "<&\r" or ch == ">" and k < 0.8 or ch == ">" and out.endswith("]]") or ch in "\"'" and (attr or k < 0.1):
            out += {"<": r.choice(["&lt;", "&#60;"]), "&": r.choice(["&amp;", "&#x26;"]), ">": "&gt;", '"': "&quot;", "'": "&apos;", "\r": "&#13;"}[ch]
        elif k > 0.98:
            out += r.choice(["&#%d;", "&#x%x;"]) % ord(ch)
        else:
            out += ch
        i += 1
    return out


def element(r, name, value, lang=None):
    a = "" if lang is None else " lang=%s" % r.choice(['"%s"', "'%s'"]) % lang
    if r.random() < 0.1:
        a += " id=\"x\""
    if value == "" and r.random() < 0.4:
        return "<%s%s/>" % (name, a)
    return "<%s%s%s>%s</%s>" % (name, a, r.choice(["", "", " "]), xml_text(r, value), name)


def xml(r, c):
    """The file of a case."""
    es = []
    for name, key, lang in [("buffer", "buf", None), ("input", "src", "lang"), ("output", "out", None), ("result", "res", "rlang"), ("error", "err", None)]:
        v = c[key]
        lg = c[lang] if lang else (r.choice([None, None, "sexp", "shell"]) if key == "err" else None)
        if v == "" and r.random() < 0.6:
            if not lang or lg == "shell" and key == "src" or key == "res" and lg in ("", "sexp"):
                continue
        if lang and (lg == "" or lg in ("shell", "sexp") and key == "src" and r.random() < 0.2):
            lg = None
        es.append(element(r, name, v, lg))
    if r.random() < 0.15:
        es.append(r.choice(["<name>x</name>", "<!-- <output>no</output> -->", "<note><output>no</output></note>", "text"]))
    if r.random() < 0.4:
        r.shuffle(es)
    sep = lambda: r.choice(["\n", "\n", "", "\n\n", "  "])
    s = (r.choice(['<?xml version="1.0"?>', '<?xml version="1.0" encoding="UTF-8"?>\n']) if r.random() < 0.1 else "") + sep() + "".join(e + sep() for e in es)
    if c["wf"]:
        return s
    k = r.randrange(5)
    c["stray"] = r.random() < 0.15
    if c["stray"]:
        return s + "</testcase>" + r.choice(["", "x", "<output>x</output>", "<testcase>"])
    return [lambda: s + "<output>x", lambda: s + "</buffer>", lambda: s + "&nosuch;", lambda: s + "<<", lambda: s + "<error></errors>"][k]()


def near(r, s):
    """Almost the same text."""
    if not s:
        return r.choice(["a", " ", "\n"])
    i = r.randrange(len(s))
    return r.choice([lambda: s + r.choice(["\n", " ", "x", "\r"]), lambda: r.choice(["\n", " "]) + s, lambda: s[:i] + s[i + 1:] or "x", lambda: s[:i] + s[i].swapcase() + s[i + 1:] + ("" if s[i].swapcase() != s[i] else "!"),
                     lambda: s[:-1] or "y", lambda: s[1:] or "z", lambda: s.strip() if s.strip() not in ("", s) else s + s, lambda: s + s])()


def value_text(r, v):
    if v["k"] == "n" and v.get("x"):
        m = re.match(r"(-?)(\d+)e(-?\d+)$", text(v["x"]))
        return repr(float(text(v["x"]))) if m else "0"
    return sexp(r, v)


def near_value(r, v):
    return r.choice([lambda: show(S(value_text(r, v))), lambda: value_text(r, v) + " 1", lambda: "(" + value_text(r, v) + ")", lambda: r.choice(["nil", "t", "0", "1", '""', '"a"']),
                     lambda: r.choice([value_text(r, Nm(v["i"] + 1)), "%d.5" % v["i"], "-%d" % v["i"], "%d.0" % v["i"]]) if v["k"] == "n" else near(r, value_text(r, v)), lambda: '"' + value_text(r, v) + '"', lambda: value_text(r, v).upper() + "x"])()


def programs(r, n):
    res = []
    for _ in range(n):
        t = rtext(r, 30)
        k = r.random()
        if k < 0.65:
            x = program(r, ALL, ALL, r.randrange(1, 7), t=t)["x"]
        elif k < 0.95:
            x = [rinstr(r, t) for _ in range(r.randrange(1, 5))]
        else:
            x = []
        x = [v if v["k"] == "l" else call("concat", v) for v in x]
        if r.random() < 0.5:
            x.append(r.choice([call("point"), call("buffer-substring", 1, r.randrange(1, 12)), call("insert", "x"), call("search-forward", rpattern(r, t)), call("region-end"), call("string-match", "a", "ba"), call("looking-at", rpattern(r, t))]))
        lang = r.choice(["shell", "sexp", "shell", "sexp", "shell", "json"])
        if lang == "json" and not all(plain(v) for v in x):
            lang = "shell"
        s = render(r, x, lang)
        if r.random() < 0.06:
            s = mutate(r, s)
        if r.random() < 0.5:
            s = "\n" + s + r.choice(["\n", " \n"])
        if LEGAL.match(t) and LEGAL.match(s) and "\ufeff" not in s:
            res.append({"buf": t, "src": s, "lang": lang})
    return res


def expectations(r, p, v):
    """A case about the script p, whose outcome by itself is v."""
    c = dict(p, wf=True, out="", res="", rlang="", err="")
    t, msg = utf8(v["t"]), utf8(v["msg"]) or ""
    if v["ok"] == "err":
        k = r.random()
        i = r.randrange(len(msg))
        part = msg[i:i + r.randrange(3, 40)]
        c["err"] = r.choice([lambda: msg, lambda: msg.split(" (at")[0], lambda: "(" + msg.split(" (at")[0] + ")", lambda: part, lambda: "\n" + part + "\n", lambda: near(r, part), lambda: part.upper(), lambda: "no such error",
                             lambda: "", lambda: " \n", lambda: part + " ", lambda: "()", lambda: msg + ")"])()
        if r.random() < 0.25:
            c["out"] = r.choice([t or "", "zzz", p["buf"]])
        if r.random() < 0.15:
            c["res"] = r.choice(["nil", "1", '""'])
    else:
        k = r.random()
        if k < 0.7 and t:
            c["out"] = t if r.random() < 0.65 else near(r, t) if r.random() < 0.8 else p["buf"]
        if k > 0.4:
            c["res"] = value_text(r, v["val"]) if r.random() < 0.7 else near_value(r, v["val"])
            c["res"] = r.choice(["%s", "%s", "\n%s\n", " %s", "%s "]) % c["res"]
            c["rlang"] = r.choice(["", "sexp", "sexp"])
        if r.random() < 0.08:
            c["err"] = r.choice(["search failed", "()", " ", "e"])
        if r.random() < 0.05:
            c["out"], c["res"] = "", r.choice(["", " ", "\n"])
    if r.random() < 0.05:
        c["wf"] = False
    for k in ("out", "res", "err"):
        if not LEGAL.match(c[k]) or "\ufeff" in c[k]:
            c[k] = ""
    return c


def tell(c):
    return json.dumps({k: v for k, v in c.items() if v not in ("", True)}, ensure_ascii=False)


def judged(c, cases, size=6):
    """Runs the cases, in sequences that share an environment, and has TLC judge the verdicts."""
    r = c.rng
    for x in cases:
        x["xml"] = xml(r, x["c"]) if "xml" not in x else x["xml"]
    seqs = [cases[i:i + size] for i in range(0, len(cases), size)]
    res = c.harness("tests", [{"id": i, "cases": [{"xml": b(x["xml"]), "buf": b(x["c"]["buf"]), "src": b(x["c"]["src"]), "lang": x["c"]["lang"]} for x in s]} for i, s in enumerate(seqs)])
    recs = []
    for s, a in zip(seqs, res):
        if "crash" in a or a["bad"]:
            c.violation("test runner: %s on %s" % (a.get("bad") or a["crash"][-300:], [x["xml"] for x in s]), {"cases": [x["xml"] for x in s], "got": a})
            continue
        for x, v in zip(s, a["vs"]):
            x["v"] = v["v"]
            if v["odd"]:
                c.violation("%s: %s" % (x["xml"], v["odd"]), {"case": x["c"], "xml": x["xml"], "got": v})
            recs.append({"id": len(recs), "c": {k: (b(z) if k in ("buf", "src", "out", "res", "err") else z) for k, z in x["c"].items() if k != "stray"}, "stray": x["c"].get("stray", False), "msg": v["msg"], "v": v["v"], "x": x})
    bad, uns = trace_check(c, [{k: z for k, z in e.items() if k != "x"} for e in recs], "TestsTrace", 800)
    c.add("states", 2 * len(recs))
    c.add("transitions", len(recs))
    c.add("traces_validated_against_impl", len(recs))
    c.add("unspecified", uns)
    listed = dict(known_findings("C19"))
    for d in bad:
        x = recs[d["bad"]]["x"]
        if d.get("known") in listed:
            x["known"] = True
            if d["known"] + ": " + listed[d["known"]] not in c.known:
                c.known.append(d["known"] + ": " + listed[d["known"]])
            continue
        c.violation("test case %s: verdict %s, specified %s" % (tell(x["c"]), x["v"], d["want"]), {"case": x["c"], "xml": x["xml"], "verdict": x["v"], "specified": d["want"]})
        if len(c.violations) > 30:
            break
    v = c.cov.setdefault("verdicts", {"pass": 0, "fail": 0})
    for e in recs:
        v[e["v"]] += 1


def observed(p):
    lines, totals = [], []
    for ln in p.stdout.split("\n"):
        m = re.match(r"\[(PASS|FAIL)\] (.*)$", ln)
        if m:
            lines.append({"name": b(m.group(2)), "v": m.group(1).lower()})
        m = re.match(r"Tests: (\d+) passed, (\d+) failed, (\d+) total$", ln)
        if m:
            totals += [int(x) for x in m.groups()]
    return {"lines": lines, "totals": totals, "st": "ok" if p.returncode == 0 else "err"}


def argv(o, r):
    a = []
    for p in o["pats"]:
        a += r.choice([["-i", p], ["--include", p], ["--include=" + p]])
    if o["quiet"]:
        a.append(r.choice(["-q", "--quiet"]))
    if o["failonly"]:
        a.append("--fail-only")
    return a


def reports(c, jobs):
    """jobs: {all: [(path, content or None, verdict)], o, flags, default}: runs the command in a fresh directory."""
    exe, r = c.texted(), c.rng

    def run(j):
        d = c.fresh(".d")
        os.makedirs(os.path.join(d, "tests"))
        for p, content, _ in j["all"] + j.get("more", []):
            p = os.path.join(d, p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if content is not None:
                with open(p, "w", newline="") as f:
                    f.write(content)
        a = ["test"] + j["argv"]
        if not j.get("default"):
            a += [p for p, _, _ in j["all"]]
        p = subprocess.run([exe] + a, cwd=d, capture_output=True, text=True, errors="backslashreplace", timeout=60)
        left = {}
        for root, _, fs in os.walk(d):
            for f in fs:
                with open(os.path.join(root, f), newline="") as g:
                    left[os.path.relpath(os.path.join(root, f), d)] = g.read()
        shutil.rmtree(d)
        return j, a, p, left
    for j in jobs:
        j["argv"] = argv(j["o"], r) + j.get("flags", [])
    recs, hows = [], []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for j, a, p, left in ex.map(run, jobs):
            how = "texted %s (%s)" % (" ".join(a), [(n, v) for n, _, v in j["all"]])
            if left != {n: x for n, x, _ in j["all"] + j.get("more", []) if x is not None}:
                c.violation(how + ": the files were changed", {"argv": a, "left": left})
            if p.returncode < 0 or "\ngoroutine " in p.stderr:
                c.violation(how + ": crashed: " + p.stderr[-300:], {"argv": a, "stderr": p.stderr})
            recs.append({"id": len(recs), "all": [{"name": b(os.path.basename(n)), "v": v} for n, _, v in j["all"]], "o": dict(j["o"], pats=[b(x) for x in j["o"]["pats"]]), "obs": observed(p)})
            hows.append((how, p.stdout, j))
            if "--trace" in a and not j["o"]["pats"] and "TRACE: " not in p.stdout and any(v == "pass" and "<input" in (x or "") for _, x, v in j["all"]) and j.get("traced"):
                c.violation(how + ": no trace", {"argv": a, "out": p.stdout})
    bad, uns = trace_check(c, recs, "TestsTrace", 800)
    c.add("states", 2 * len(recs))
    c.add("transitions", len(recs))
    c.add("traces_validated_against_impl", len(recs))
    c.add("unspecified", uns)
    for d in bad:
        how, out, j = hows[d["bad"]]
        tellr = lambda x: {"lines": [(text(y["name"]), y["v"]) for y in x["lines"]], "totals": x["totals"], "exit": x["st"]}
        c.violation("%s: reported %s, specified %s" % (how, tellr(recs[d["bad"]]["obs"]), tellr(d["want"])), {"argv": j["argv"], "files": j["all"], "output": out, "specified": tellr(d["want"])})
        if len(c.violations) > 30:
            break


PASS = "<buffer>a</buffer><input>insert \"x\"</input><output>xa</output>"
FAIL = "<buffer>a</buffer><input>insert \"x\"</input><output>a</output>"


def check(c):
    r = c.rng
    # every verdict of the bounded model
    docs, distinct, _ = c.tlc("TestsGen", "SPECIFICATION Spec\nINVARIANT Laws Emit\nCHECK_DEADLOCK FALSE\nCONSTANT Wide = %s\n" % ("FALSE" if c.quick else "TRUE"))
    if 2 * len(docs) != distinct:
        raise CheckError("TestsGen: %d cases emitted, %d states" % (len(docs), distinct))
    c.cov.setdefault("models", []).append({"module": "TestsGen", "cases": len(docs)})
    cases = []
    for d in docs:
        x = {k: (text(v) if isinstance(v, list) else v) for k, v in d["c"].items()}
        if not c.quick or r.random() < 0.6:
            cases.append({"c": x, "want": d["v"]})
    r.shuffle(cases)
    judged(c, cases)
    for x in cases:
        if x.get("v") and x["want"] != "uns" and not x.get("known") and x["v"] != x["want"]:
            c.violation("test case %s: verdict %s, specified %s" % (tell(x["c"]), x["v"], x["want"]), x)
    # scripts with expectations made from what they do
    ps = programs(r, 2500 if c.quick else 25000)
    alone = c.harness("tests", [{"id": i, "cases": [{"xml": [], "buf": b(p["buf"]), "src": b(p["src"]), "lang": p["lang"]}]} for i, p in enumerate(ps)])
    more = []
    for p, a in zip(ps, alone):
        if "crash" in a or a["bad"] or not a["vs"]:
            continue                     # C01's to report
        more.append({"c": expectations(r, p, a["vs"][0])})
    judged(c, more)
    c.sample({"case": more[0]["xml"], "verdict": more[0].get("v")})
    # the command: every report of the bounded model, then longer ones
    docs, distinct, _ = c.tlc("ReportGen", "SPECIFICATION Spec\nINVARIANT Laws Emit\nCHECK_DEADLOCK FALSE\nCONSTANT MaxLen = 3\n")
    c.cov["models"].append({"module": "ReportGen", "reports": len(docs)})
    if c.quick:
        docs = r.sample(docs, 500)
    none = {"pats": [], "quiet": False, "failonly": False}
    jobs = []
    for d in docs:
        fs = [(text(e["name"]), PASS if e["v"] == "pass" else FAIL, e["v"]) for e in d["all"]]
        fs = fs if not fs or r.random() < 0.7 else [("tests/" + n, x, v) for n, x, v in fs]
        if fs:
            jobs.append({"all": fs, "o": dict(d["o"], pats=[text(x) for x in d["o"]["pats"]]), "flags": r.choice([[], [], ["-v"], ["--trace"]])})
        else:
            jobs.append({"all": [], "more": r.choice([[], [("a.xml", PASS, "pass"), ("tests/a.txt", FAIL, "fail"), ("tests/sub/a.xml", FAIL, "fail")]]), "o": dict(d["o"], pats=[text(x) for x in d["o"]["pats"]])})
    known = [x for x in more if x.get("v")]
    for _ in range(250 if c.quick else 2500):
        xs = r.sample(known, r.randrange(1, 9))
        want = r.random()
        if want < 0.5:
            xs = [x for x in xs if x["v"] == "pass"] or xs[:1]
        fs = [("%s%d.xml" % (r.choice(["t", "u", "tu-", "sub/t", "Caf\u00e9 "]), i), x["xml"], x["v"]) for i, x in enumerate(xs)]
        if r.random() < 0.2:
            fs.insert(r.randrange(len(fs) + 1), r.choice([("missing.xml", None, "fail"), ("tests", None, "fail"), ("empty.xml", "", "fail")]))
        default = r.random() < 0.3
        if default:
            fs = sorted([("tests/" + os.path.basename(p), x, v) for p, x, v in fs if x is not None], key=lambda f: f[0].encode())
        elif r.random() < 0.2:
            fs.append(fs[0])
        o = {"pats": r.choice([[], [], ["t"], ["u", "^s"], ["[13579]\\.xml$"], ["\\d", "t1"], ["caf", "t"], ["(?i)caf"], ["xml", "xml"], ["."], ["^$"]]), "quiet": r.random() < 0.2, "failonly": r.random() < 0.3}
        tr = r.random() < 0.15
        jobs.append({"all": fs, "o": o, "flags": ["--trace"] if tr else ["-v"] if r.random() < 0.2 else [], "default": default and bool(fs)})
    jobs.append({"all": [("a.xml", PASS, "pass")], "o": none, "flags": ["--trace"], "traced": True})
    jobs.append({"all": [("tests/%03d.xml" % i, PASS if i % 50 else FAIL, "pass" if i % 50 else "fail") for i in range(300)], "o": none, "default": True})
    # totals that are too large for small numbers
    for bad, good in [(256, 0), (256, 3), (512, 1), (255, 1), (100, 0), (128, 0)] + ([] if c.quick else [(65536, 1)]):
        fs = [("f.xml", FAIL, "fail")] * bad + [("p.xml", PASS, "pass")] * good
        if bad < 300 and r.random() < 0.5:
            fs = [("%d%s" % (i, n), x, v) for i, (n, x, v) in enumerate(fs)]
        r.shuffle(fs)
        jobs.append({"all": fs, "o": dict(none, quiet=r.random() < 0.5), "flags": []})
    reports(c, jobs)
    c.cov["commands"] = len(jobs)
