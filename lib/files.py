"""Files and the calls that edit them: scenarios, their execution, their judgement."""
import json

from vlib import CheckError, text, show
from editor import trace_check, describe
from drivers import rtext, odd_ends
from scripts import render, mutate


def b(s):
    return list(s.encode() if isinstance(s, str) else s)


def File(c, r=True, w=True):
    return {"k": "file", "c": b(c), "r": r, "w": w}


NONE, DIR, LOST, FULL = {"k": "none"}, {"k": "dir"}, {"k": "lost"}, {"k": "full"}
SFX = "bak"                      # the symbolic suffix: the backup of a is abak
SUFFIXES = [".bak", "~", ".orig", " copy", ".%d", ".b\u00e9k", "-1"]
REALS = ["a.txt", "b c.txt", "sub/deep/file.go", "100%s.md", "%d%v", "./-dash", "\u00fcber\u65e5.txt", "UPPER.TXT", "quo\"te'.txt", "@DIR@/abs/o.txt", "semi;colon.c", "noext",
         "x/./zig.txt", "back\\slash", "[1].txt", "$HOME", "~tilde", "dot.", ".hidden", "*", "w x/y z"]
MARK = "@@MARK@@"

# (format, source): what a script does, without arguments of its own
FIXED = [("shell", 'end-of-buffer; insert "x"'), ("sexp", '(insert "head\n")'), ("shell", 'search-forward "o"; replace-match "0"'),
         ("sexp", '(search-forward "a")(replace-match "")'), ("shell", 'search-backward "b"'), ("shell", 'insert "lost"; search-forward "zzz"'),
         ("shell", 'insert "lost"; no-such-function'), ("shell", 'insert "x"; insert ('), ("shell", 'point'), ("shell", "\n \n"), ("json", "[]"), ("json", '["insert", "j\\u00e9"]'),
         ("json", '[["end-of-buffer"], ["insert", "k"]]'), ("json", '["insert", "x"] ["insert", null]'), ("json", '["insert", "x"'), ("shell", "mark-whole-buffer; delete-region"),
         ("sexp", '(mark-whole-buffer) (replace-region "all new\\n")'), ("shell", 'insert "%s %d"'), ("shell", "end-of-buffer; delete-backward-char"), ("shell", "delete-char 3"),
         ("shell", 'insert "a" 5'), ("shell", 're-search-forward "[a-z]+"; replace-match "W"'), ("shell", 'beginning-of-buffer; insert "\\xc3\\xa9"'), ("json", '{"a": 1}')]


def rscript(r):
    k = r.random()
    if k < 0.75:
        f, s = r.choice(FIXED)
        return f, s
    from c10 import programs, plain
    t, x = next(programs(r, 1))
    fmt = r.choice(["shell", "sexp", "json"] if all(plain(v) for v in x) else ["shell", "sexp"])
    s = render(r, x, fmt)
    return fmt, (mutate(r, s) if r.random() < 0.15 else s)


def rcontent(r):
    k = r.random()
    if k < 0.1:
        return ""
    if k < 0.25:
        return r.choice(["a", "foo boo", "ab\n", "\n", "no newline at end", "crlf\r\nline\r\n", "\u00e9", "aaa"])
    if k < 0.3:
        return r.choice([b"\xff\xfe bad", b"nul\x00 in o", b"caf\xe9 o\n", b"\xff\xfea\x00o\x00", b"\xc3", b"o\xe2\x80"])
    if k < 0.42:
        return odd_ends(r, r.choice(["", "a", "foo boo", "line o\nab\n"]))
    return rtext(r, 50)


def rentry(r):
    k = r.random()
    if k < 0.66:
        return File(rcontent(r))
    if k < 0.74:
        return dict(NONE)
    if k < 0.8:
        return File(rcontent(r), True, False)
    if k < 0.86:
        return File(rcontent(r), False, r.random() < 0.5)
    if k < 0.92:
        return dict(DIR)
    return dict(LOST)


class Scene:
    """A file system of a scenario: symbolic entries and real names."""

    def __init__(self, r, n=3, suffix=None):
        self.r, self.fs, self.real, self.rodirs = r, {}, {}, []
        self.suffix = suffix
        reals = r.sample(REALS, n + 3)
        for i in range(n):
            s = "abcdef"[i]
            e = rentry(r)
            self.put(s, e, reals[i])
        if n > 1 and r.random() < 0.2:
            to = r.choice(sorted(self.fs))
            self.put("l", {"k": "link", "to": to}, "link.lnk")
            if self.fs[to]["k"] in ("link", "lost"):
                self.fs["l"] = dict(NONE)
        self.spare = reals[n:]
        if suffix is not None:
            for s in list(self.fs):
                self.backup(s)

    def put(self, s, e, real):
        if e["k"] == "lost":
            real = "gone-%s/%s" % (s, real.split("/")[-1])
        self.fs[s], self.real[s] = e, real

    def backup(self, s):
        k = self.r.random()
        to = s + SFX
        e = dict(NONE) if k < 0.6 else File(self.r.choice(["old backup", "", "x" * 60])) if k < 0.75 else File("ro", True, False) if k < 0.85 else dict(DIR) if k < 0.93 else dict(NONE)
        if self.fs[s]["k"] == "lost":
            e = dict(LOST)
        elif self.fs[s]["k"] == "file" and self.r.random() < 0.05:
            e = {"k": "link", "to": s}               # the backup is the file itself
        self.fs[to], self.real[to] = e, self.real[s] + self.suffix
        if e["k"] == "none" and self.r.random() < 0.1:
            # a directory in which nothing can be made
            d = "ro-%s" % s
            if self.fs[s]["k"] == "file" and "/" not in self.real[s]:
                self.real[s] = d + "/" + self.real[s]
                self.real[to] = self.real[s] + self.suffix
                self.fs[to] = dict(LOST)
                self.rodirs.append(d)

    def names(self, most=3):
        own = [s for s in self.fs if len(s) == 1 and s in "abcdefl"]
        return [self.r.choice(own) for _ in range(self.r.choice([1, 1, 2, 2, 3, most]))]


def crowd(r, suffix=None):
    """Long lists of names, many of them more than once."""
    sc = Scene(r, 6, suffix)
    for n in list(sc.fs):
        if len(n) == 1 and n != "l" and sc.fs[n]["k"] != "file" and r.random() < 0.7:
            sc.put(n, File(r.choice(["aaa", "o o o o o o o o o o", "b\n" * 12])), n + sc.real[n].split("/")[-1])
            if suffix is not None:
                sc.fs[n + SFX], sc.real[n + SFX] = dict(NONE), sc.real[n] + suffix
    ns = [r.choice([s for s in sorted(sc.fs) if s in "abcdefl"]) for _ in range(r.choice([9, 12, 17, 33, 65]))]
    return sc, ns


def put_op(sc):
    """Someone else changes a file, perhaps so that one cannot tell from its size and time."""
    r = sc.r
    own = [s for s in sc.fs if len(s) == 1 and s in "abcdef" and sc.fs[s]["k"] in ("file", "none", "dir") and not any(sc.real[s].startswith(d + "/") for d in sc.rodirs)
           and (sc.fs[s]["k"] != "none" or "/" not in sc.real[s])]
    if not own:
        return None
    s = r.choice(own)
    k = r.random()
    if k < 0.6 and sc.fs[s]["k"] == "file":
        was = list(sc.fs[s]["c"])
        now = [{97: 111, 111: 97}.get(x, x) for x in was] if r.random() < 0.6 else [r.choice([97, 98, 111, 10, 32]) for _ in was]
        e = dict(sc.fs[s], c=now)
    elif k < 0.85:
        e = File(rtext(r, 30))
    elif k < 0.9:
        e = File(rtext(r, 30), r.random() < 0.5, r.random() < 0.5)
    else:
        e = r.choice([dict(NONE), dict(DIR)])
    return {"k": "put", "n": s, "e": e, "keep": r.random() < 0.7, "new": r.random() < 0.3}


def short(r, a, bb):
    return r.choice([a, bb])


def respelled(r, f):
    """Another way to write the name of a file, which ends with the usual one."""
    return ("/" if f[0] in "/@" else r.choice(["./", "./", ".//", "././"])) + f


def cli_op(scene, **kw):
    """A call of `texted edit`: arguments for the specification, and argv."""
    r = scene.r
    o = {"k": "cli", "ns": [], "fmt": "shell", "via": "s", "src": "", "sf": "", "es": [], "inplace": False, "dry": False, "quiet": False, "verbose": False,
         "sfx": "", "out": "", "inp": "", "torn": False, "jam": False, "ofmt": "shell"}
    o.update(kw)
    flags = []
    if o["via"] == "s":
        s = o["src"]
        flags.append(r.choice([["-s", s], ["--script", s], ["--script=" + s]]))
    elif o["via"] == "f":
        f = scene.real[o["sf"]]
        flags.append(r.choice([["-f", f], ["--file", f], ["--file=" + f]]))
    elif o["via"] == "e":
        # one after another: their order matters
        flags.append([x for e in o["es"] for x in r.choice([["-e", e], ["--expression", e], ["--expression=" + e]])])
    if o["fmt"] == "":
        flags.append(["--format", r.choice(["yaml", "Shell", "lisp", "JSON", "shell,sexp"])])
    elif o["fmt"] != "shell" or r.random() < 0.3:
        flags.append(r.choice([["--format", o["fmt"]], ["--format=" + o["fmt"]], ["--" + o["fmt"]]]))
    if o["inplace"]:
        flags.append([short(r, "-i", "--in-place")])
    if o["dry"]:
        flags.append([short(r, "-n", "--dry-run")])
    if o["quiet"]:
        flags.append([short(r, "-q", "--quiet")])
    if o["verbose"]:
        flags.append([short(r, "-v", "--verbose")])
    if o["sfx"]:
        flags.append(r.choice([["--backup", scene.suffix], ["--backup=" + scene.suffix]]))
    if o["out"]:
        f = scene.real[o["out"]]
        flags.append(r.choice([["-o", f], ["--output", f], ["--output=" + f]]))
    if o["via"] == "e" and (o["ofmt"] != "shell" or r.random() < 0.3):
        flags.append(["--output-format", o["ofmt"] or r.choice(["yaml", "Json", "text"])])
    r.shuffle(flags)
    files = [scene.real[n] for n in o["ns"]]
    if o["via"] != "e" and r.random() < 0.3:
        files = [respelled(r, f) if r.random() < 0.5 else f for f in files]
    if r.random() < 0.5:
        argv = [x for f in flags for x in f] + files
    else:
        parts = [[f] for f in files]
        argv = []
        while flags or parts:
            argv += (flags if flags and (not parts or r.random() < 0.5) else parts).pop(0)
    o["argv"] = ["edit"] + argv
    o["src"], o["inp"], o["es"] = b(o["src"]), b(o["inp"]), [b(e) for e in o["es"]]
    o["plain"] = not any(ch in "\\\n" for e in kw.get("es", []) for ch in e)
    return o


def lib_op(ns, fmt, src, plain=False):
    return {"k": "lib", "ns": ns, "fmt": fmt, "src": b(src), "plain": plain}


def mcp_op(ns, src, loop=False, explicit=False):
    return {"k": "mcp", "ns": ns, "src": b(src), "loop": loop, "explicit": explicit}


# ---- execution -----------------------------------------------------------------
def harness_op(scene_real, o):
    files = o.get("as") or [scene_real[n] for n in o.get("ns", [])]
    if o["k"] == "put":
        return {"k": "put", "put": {k: o[k] for k in ("n", "e", "keep", "new")}}
    if o["k"] == "lib":
        return {"k": "lib", "files": files, "fmt": o["fmt"], "src": o["src"], "plain": o["plain"]}
    if o["k"] == "mcp":
        args = {"script": text(o["src"]), "files": files}
        if o["loop"] or o["explicit"]:
            args["loopUntilError"] = o["loop"]
        return {"k": "tool", "tool": "edit_file", "args": args}
    if o["k"] == "eval":
        args = {"script": text(o["src"]), "input": text(o["inp"])}
        if o["mode"] != "buffer" or o.get("explicit"):
            args["output"] = o["mode"]
        return {"k": "tool", "tool": "texted_eval", "args": args}
    return {"k": "cli", "argv": o["argv"], "inp": o["inp"], "torn": o["torn"], "jam": o["jam"], "still": o.get("still", False)}


def named(line, ns, real):
    """The file that a status line is about."""
    best = [n for n in ns if real[n] in line]
    return max(best, key=lambda n: len(real[n])) if best else "?"


def seen(c, o, h, real):
    """What the specification is asked about: the obs of a call."""
    out = text(h["out"]) if h["out"] else ""
    if o["k"] == "lib":
        return {"fs": h["fs"], "v": h["v"]}
    if o["k"] == "put":
        return {"fs": h["fs"]}
    if o["k"] == "eval":
        return {"fs": h["fs"], "st": h["st"], "out": h["out"]}
    if o["k"] == "mcp":
        good, bad, n, lines = [], [], -1, out.split("\n")
        words = lines[0].replace(":", "").split()
        for i, w in enumerate(words):
            if w.startswith("iteration") and words[i - 1].isdigit():
                n = int(words[i - 1])
        for ln in lines[1:]:
            if ln.startswith("\u2713"):
                good.append(named(ln, o["ns"], real))
            elif ln.startswith("\u2717"):
                bad.append(named(ln, o["ns"], real))
        return {"fs": h["fs"], "n": n if h["st"] == "ok" else -2, "good": good, "bad": bad, "all": lines[0].startswith("All")}
    marks, lines = [], []
    if o["inplace"] and o["via"] != "e":
        for ln in out.split("\n"):
            if ln.startswith("\u2713"):
                marks.append(["ok", named(ln, o["ns"], real)])
            elif ln.startswith("\u2717"):
                marks.append(["err", named(ln, o["ns"], real)])
    if o["via"] == "e":
        lines = [b(ln) for ln in out.split("\n") if ln.strip() and not (o["verbose"] and ln.startswith("Evaluating "))]
    return {"fs": h["fs"], "st": h["st"], "out": h["out"], "err": bool(h["err"]), "marks": marks, "lines": lines}


STRIP = ("argv", "explicit", "still", "as")


def tell(o, real):
    """A call in words."""
    if o["k"] == "put":
        return "(someone else puts %s at %s)" % (tellfs({"": o["e"]})[""], real[o["n"]])
    if o["k"] == "cli":
        return "texted " + " ".join(json.dumps(a, ensure_ascii=False) if not a or set(a) & set(" \n\"';()\\") else a for a in o["argv"]) + (" < a directory" if o["torn"] else " < %r" % text(o["inp"])[:60] if o["inp"] else "") + (" > /dev/full" if o["jam"] else "")
    return "%s %s on %s" % ({"lib": "EditFiles", "mcp": "edit_file loop=%s" % o.get("loop"), "eval": "texted_eval"}[o["k"]], repr(text(o["src"]))[:120], o.get("as") or [real[n] for n in o.get("ns", [])])


def tellfs(fs):
    out = {}
    for n, e in fs.items():
        out[n] = e["k"] if e["k"] != "file" else "%s%s%r" % ("" if e["r"] else "unreadable ", "" if e["w"] else "unwritable ", text(e["c"])[:60])
        if e["k"] == "link":
            out[n] = "-> " + e["to"]
    return out


def run_cases(c, cases, timeout=800, count=None, module="FilesTrace"):
    """cases: [{fs, real, rodirs, ops}].  Runs the histories, has TLC judge each call."""
    exe = c.texted()
    hc = [{"id": i, "fs": x["fs"], "real": x["real"], "rodirs": x.get("rodirs", []), "texted": exe, "ops": [harness_op(x["real"], o) for o in x["ops"]]} for i, x in enumerate(cases)]
    got = c.harness("files", hc, nobody=True, timeout=timeout)
    byid = {g["id"]: g for g in got}
    traces = []
    for i, x in enumerate(cases):
        g = byid[i]
        if "crash" in g or g.get("hang"):
            c.violation("crash or hang: %s" % "; ".join(tell(o, x["real"]) for o in x["ops"]), {"case": x, "got": g})
            continue
        ops = []
        for o, h in zip(x["ops"], g["obs"]):
            if h["extra"]:
                h["odd"].append("made files that nobody asked for: %s" % h["extra"][:3])
            if h["st"] in ("crash", "hang"):
                h["odd"].append("ended by a " + h["st"])
            if h["odd"]:
                c.violation("%s: %s" % (tell(o, x["real"]), "; ".join(h["odd"])), {"case": x, "got": h})
            p = {k: v for k, v in o.items() if k not in STRIP}
            p["obs"] = seen(c, o, h, x["real"])
            ops.append(p)
        traces.append({"id": i, "fs": x["fs"], "real": {k: b(v) for k, v in x["real"].items()}, "ops": ops})
    bad, uns = trace_check(c, traces, module, timeout)
    n = sum(len(t["ops"]) for t in traces)
    c.add("states", n + len(traces))
    c.add("transitions", n)
    c.add("traces_validated_against_impl", len(traces))
    c.add("unspecified_steps", uns)
    tr = {t["id"]: t for t in traces}
    for d in bad:
        x, t = cases[d["bad"]], tr[d["bad"]]
        o, obs = x["ops"][d["step"] - 1], t["ops"][d["step"] - 1]["obs"]
        if count and not count(o, obs, d["want"]):
            c.add("rejected_out_of_focus", 1)
            continue
        again = c.harness("files", [hc[d["bad"]]], jobs=1, nobody=True)[0]
        key = lambda a: [(h["st"], h["fs"], h["v"], h["out"]) for h in a.get("obs", [])][:d["step"]]
        if key(again) != key(byid[d["bad"]]) and not c.leaks("files", hc, d["bad"], again, key, nobody=True):
            raise CheckError("not repeatable: %s" % tell(o, x["real"]))
        before = t["fs"] if d["step"] == 1 else t["ops"][d["step"] - 2]["obs"]["fs"]
        rest = {k: (text(v)[:200] if k == "out" else [text(y) for y in v] if k == "lines" else v) for k, v in obs.items() if k != "fs"}
        c.violation("%s with %s: got %s, files %s; specified %s" % (tell(o, x["real"]), tellfs(before), rest, tellfs(obs["fs"]), brief(d["want"])),
                    {"case": x, "step": d["step"], "observed": obs, "specified": d["want"]})
        if len(c.violations) > 30:
            break
    return traces


def brief(w):
    if isinstance(w, list):
        return " or ".join(brief(x) for x in w)
    r = dict(w)
    if isinstance(r.get("fs"), dict):
        r["fs"] = tellfs(r["fs"])
    if isinstance(r.get("t"), list):
        r["t"] = text(r["t"])[:200]
    if isinstance(r.get("items"), list):
        r["items"] = [i["h"] or show(i["v"]) for i in r["items"]]
    return json.dumps(r, ensure_ascii=False)[:900]


def case(scene, ops):
    for o in ops:
        if o["k"] in ("lib", "mcp") and "as" not in o and scene.r.random() < 0.25:
            o["as"] = [respelled(scene.r, scene.real[n]) if scene.r.random() < 0.5 else scene.real[n] for n in o["ns"]]
    return {"fs": scene.fs, "real": scene.real, "rodirs": scene.rodirs, "ops": ops}


# ---- the bounded model -----------------------------------------------------------
def model(c, maxlist, rounds, wide):
    docs, distinct, _ = c.tlc("FilesGen", "SPECIFICATION Spec\nINVARIANT Laws Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxList = %d\n MaxRounds = %d\n Wide = %s\n"
                              % (maxlist, rounds, "TRUE" if wide else "FALSE"))
    c.cov.setdefault("models", []).append({"module": "FilesGen", "calls": len(docs), "states": distinct})
    c.add("states", distinct)
    if not docs:
        raise CheckError("FilesGen: nothing emitted")
    return docs


def norm(fs):
    return {n: json.dumps({"k": "none"} if e["k"] == "lost" else e, sort_keys=True) for n, e in fs.items()}


def model_case(d, ops, suffix=".bak"):
    real = {"a": "a.txt", "b": "b.txt", "c": "c.txt", "abak": "a.txt" + suffix, "bbak": "b.txt" + suffix, "cbak": "c.txt" + suffix}
    rodirs = []
    for n in "ab":
        if d["fs"][n]["k"] == "lost":
            real[n] = "gone%s/x" % n
            real[n + "bak"] = real[n] + suffix
    if d["fs"]["abak"]["k"] == "lost" and d["fs"]["a"]["k"] != "lost":
        real["a"] = "ro/a.txt"
        real["abak"] = "ro/a.txt" + suffix
        rodirs = ["ro"]
        if d["fs"]["a"]["k"] == "none":
            rodirs = []
    return {"fs": d["fs"], "real": real, "rodirs": rodirs, "ops": ops}


def replay(c, docs, how, compare, timeout=800):
    """how(doc) gives the call; compare(doc, obs) gives a deviation or None."""
    exe = c.texted()
    cases = []
    for i, d in enumerate(docs):
        x = model_case(d, [how(d)])
        cases.append(x)
    hc = [{"id": i, "fs": x["fs"], "real": x["real"], "rodirs": x["rodirs"], "texted": exe, "ops": [harness_op(x["real"], o) for o in x["ops"]]} for i, x in enumerate(cases)]
    got = {g["id"]: g for g in c.harness("files", hc, nobody=True, timeout=timeout)}
    for i, d in enumerate(docs):
        g, x = got[i], cases[i]
        o = x["ops"][0]
        if "crash" in g or g.get("hang"):
            c.violation("crash or hang: %s" % tell(o, x["real"]), {"case": x, "got": g})
            continue
        h = g["obs"][0]
        obs = seen(c, o, h, x["real"])
        dev = "made files that nobody asked for: %s" % h["extra"] if h["extra"] else "; ".join(h["odd"]) or compare(d, obs)
        c.add("transitions")
        c.add("traces_validated_against_impl")
        if dev:
            c.violation("%s with %s: %s; files then %s" % (tell(o, x["real"]), tellfs(d["fs"]), dev, tellfs(obs["fs"])), {"case": x, "observed": obs, "specified": d})
            if len(c.violations) > 30:
                return


def either(obs, outcomes):
    """Is what was seen one of the outcomes ({fs, v})?"""
    for r in outcomes:
        if norm(obs["fs"]) == norm(r["fs"]):
            return True
    return False
