"""C16: backups at every moment, dry runs."""
import concurrent.futures
import os
import random
import resource
import shutil
import subprocess
import threading

import big
from files import *
from vlib import NOBODY
import c15


def model_part(c, r):
    docs = model(c, 2, 1, False) if c.quick else model(c, 3, 1, True)

    class Real:
        def __init__(self, d):
            self.r, self.real, self.suffix = r, model_case(d, [])["real"], ".bak"

    def call(d):
        return cli_op(Real(d), ns=d["ns"], inplace=True, sfx=SFX, fmt=d["s"]["fmt"], src=text(d["s"]["src"]))

    def compare(d, obs):
        for w in d["bak"]:
            ok = all(v == "ok" for v in w["v"])
            if norm(obs["fs"]) == norm(w["fs"]) and obs["st"] == ("ok" if ok else "err") and (ok or obs["err"]) and obs["marks"] == [[v, n] for v, n in zip(w["v"], d["ns"])]:
                return None
        return "specified %s, got exit %s, verdicts %s" % (" or ".join("%s %s" % (w["v"], tellfs(w["fs"])) for w in d["bak"]), obs["st"], obs["marks"])
    replay(c, [d for d in docs if r.random() < (0.3 if c.quick else 0.5)], call, compare)

    def dry(d):
        return dict(cli_op(Real(d), ns=d["ns"], inplace=True, dry=True, sfx=r.choice(["", SFX]), fmt=d["s"]["fmt"], src=text(d["s"]["src"])), still=True)

    def nothing(d, obs):
        if norm(obs["fs"]) != norm(d["fs"]):
            return "a dry run changed files"
        if obs["st"] not in ("ok", "err"):
            return "ended by a " + obs["st"]
    replay(c, [d for d in docs if r.random() < 0.06], dry, nothing)


def dry_op(r, sc):
    o = c15.operation(r, sc) if r.random() < 0.5 else c15.source(r, sc, dict(c15.plainly(r), ns=sc.names(5), inplace=True))
    if r.random() < 0.6:
        o.update(via="s", fmt="shell", src=r.choice(['insert "%s"', 'mark-whole-buffer; replace-region "%s"', 'end-of-buffer; insert "%s"']) % MARK)
    if o.get("inplace") and not o.get("out") and r.random() < 0.5:
        o["sfx"] = SFX
    o["dry"] = True
    return o


def history(r):
    sc = Scene(r, r.choice([2, 3, 3]), suffix=r.choice(SUFFIXES + ["/x"]))
    if sc.suffix == "/x":
        for s in list(sc.fs):
            if s.endswith(SFX):
                sc.fs[s] = dict(LOST) if sc.fs[s[:-3]]["k"] != "dir" else dict(NONE)
                sc.real[s] = sc.real[s[:-3]] + "/x"
    elif r.random() < 0.15 and sc.fs["a"]["k"] == "file" and "abak" in sc.fs and not sc.rodirs:
        sc.fs["abak"] = File("backup of a, edited too: oab\n")
        sc.put("abak" + SFX, dict(NONE), sc.real["abak"] + sc.suffix)
    ops = []
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        if r.random() < 0.35:
            o = dry_op(r, sc)
        else:
            o = dict(c15.plainly(r), ns=sc.names(5), inplace=True, sfx=SFX if r.random() < 0.9 else "")
            if "abak" + SFX in sc.fs and r.random() < 0.7:
                o["ns"] = [n for n in o["ns"] if n != "a" or sc.fs["a"]["w"]]
                o["ns"].insert(r.randrange(len(o["ns"]) + 1), "abak")
            c15.source(r, sc, o)
        if o.get("via") == "f" and any(p["via"] == "f" for p in ops):
            o = dict(o, via="s", src='insert "s"', fmt="shell")
        ops.append(o)
    return case(sc, [dict(cli_op(sc, **o), still=o.get("dry", False)) for o in ops])


def crowded(r):
    sc, ns = crowd(r, r.choice(SUFFIXES))
    return case(sc, [cli_op(sc, **c15.source(r, sc, dict(c15.plainly(r), ns=ns, inplace=True, sfx=SFX)))])


# ---- moments -------------------------------------------------------------------
KILLS = "write,pwrite64,writev,openat,open,creat,rename,renameat,renameat2,unlink,unlinkat,ftruncate,truncate,copy_file_range,sendfile,splice,link,linkat,symlinkat,close,fsync,fdatasync,fchmod"


def look(d):
    fs = {}
    for n in ("a", "b", "abak", "bbak"):
        p = os.path.join(d, n)
        try:
            with open(p, "rb") as f:
                fs[n] = {"k": "file", "c": list(f.read()), "r": True, "w": bool(os.stat(p).st_mode & 0o200)}
        except FileNotFoundError:
            fs[n] = {"k": "none"}
    return fs


class Moment:
    def __init__(self, c, r, i):
        self.d = os.path.join(c.playground(), "m%d" % i)
        os.mkdir(self.d)
        os.chmod(self.d, 0o777)
        self.ns = r.choice([["a"], ["a", "b"], ["b", "a"]])
        self.fmt, self.src = r.choice([("shell", 'end-of-buffer; insert "x"'), ("shell", "mark-whole-buffer; delete-region"), ("sexp", '(search-forward "o") (replace-match "0")'),
                                       ("shell", 'mark-whole-buffer; replace-region "other"'), ("json", '["insert", "many more bytes than there were before"]'), ("shell", 'insert "x"; no-such')])
        self.fs = {"a": File(r.choice(["hello", "foo\nbar\n", "", "o" * 30])), "b": File(r.choice(["world", "oo", "no newline"])), "abak": dict(NONE), "bbak": dict(NONE)}
        if r.random() < 0.4:
            self.fs["abak"] = File("an older and longer backup of the file" if r.random() < 0.6 else "z")

    def set_up(self):
        for n, e in self.fs.items():
            p = os.path.join(self.d, n)
            if os.path.lexists(p):
                os.unlink(p)
            if e["k"] == "file":
                with open(p, "wb") as f:
                    f.write(bytes(e["c"]))
                os.chown(p, 65534, 65534)

    def argv(self, exe):
        return [exe, "edit", "-i", "--backup", "bak", "--format", self.fmt, "-s", self.src] + self.ns

    def record(self, fs=None, none=False):
        return {"fs0": self.fs, "fs": fs or look(self.d), "ns": self.ns, "fmt": self.fmt, "src": b(self.src), "none": none}


def moments(c, r):
    exe = c.texted()
    traced = subprocess.run(["strace", "-f", "-o", "/dev/null", "true"], capture_output=True, cwd=c.playground(), **NOBODY).returncode == 0
    recs, info = [], []
    n = 8 if c.quick else 60

    def kills(m):
        out = []
        for k in range(1, 23 if c.quick else 40):
            m.set_up()
            p = subprocess.run(["strace", "-f", "-o", "/dev/null", "--inject=%s:signal=KILL:when=%d" % (KILLS, k)] + m.argv(exe), capture_output=True, cwd=m.d, timeout=60, **NOBODY)
            out.append((m.record(), "killed at system call %d" % k if p.returncode else "ran to the end"))
        # a backup that cannot be made, or not in full
        ok = m.src != 'insert "x"; no-such'
        for call, err in (("openat", "EACCES"), ("openat", "ENOSPC"), ("write", "ENOSPC"), ("write", "EIO")):
            m.set_up()
            first = m.ns[0]
            if not m.fs[first]["c"] and call == "write":
                continue                       # nothing is written
            one = dict(m.__dict__)
            mm = Moment.__new__(Moment)
            mm.__dict__.update(one, ns=[first])
            log = os.path.join(m.d, "log")
            p = subprocess.run(["strace", "-f", "-o", log, "-P", first + "bak", "-P", os.path.join(m.d, first + "bak"), "--inject=%s:error=%s" % (call, err)] + mm.argv(exe), capture_output=True, cwd=m.d, timeout=60, **NOBODY)
            with open(log) as f:
                injected = "(INJECTED)" in f.read()
            os.unlink(log)
            if not injected:
                c.add("faults_not_reached")
                continue
            c.add("faults_injected")
            fs = look(m.d)
            if p.returncode == 0 and look(m.d)[first + "bak"] == m.fs[first + "bak"] and ok:
                fs[first] = {"k": "none"}      # success is reported: judged as an edited file
            out.append((mm.record(fs, none=True), "%s of the backup fails with %s" % (call, err)))
        return out

    def limits(m):
        out = []
        first = m.fs[m.ns[0]]["c"]
        for lim in sorted({0, 1, 3, len(first) - 1, len(first), len(first) + 1, len(first) + 3} - {-1}):
            m.set_up()
            def limit():
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
            subprocess.run(m.argv(exe), capture_output=True, cwd=m.d, timeout=60, preexec_fn=limit, **NOBODY)
            out.append((m.record(), "no file may become larger than %d bytes" % lim))
        return out

    def one(i):
        m = Moment(c, random.Random("%s/%d" % (c.seed, i)), i)
        res = limits(m) + (kills(m) if traced else [])
        shutil.rmtree(m.d, ignore_errors=True)
        return [(m, rec, what) for rec, what in res]

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for res in ex.map(one, range(n)):
            for m, rec, what in res:
                rec["id"] = len(recs)
                recs.append(rec)
                info.append((m, what))
    for x in pipes(c, exe):
        x[0]["id"] = len(recs)
        recs.append(x[0])
        info.append((x[1], x[2]))
    bad, _ = trace_check(c, recs, "MomentsTrace", 600)
    distinct = {json.dumps([x["fs0"], x["fs"], x["src"]], sort_keys=True) for x in recs}
    c.cov["moments"] = {"observed": len(recs), "distinct": len(distinct), "killed_by_tracer": traced}
    c.add("states", len(distinct))
    c.add("transitions", len(recs))
    c.add("traces_validated_against_impl", len(recs))
    for d in bad:
        rec, (m, what) = recs[d["bad"]], info[d["bad"]]
        c.violation("edit -i --backup of %s by %r, %s: files %s, before %s" % (rec["ns"], m.src, what, tellfs(rec["fs"]), tellfs(rec["fs0"])), {"moment": what, "record": rec})
        if len(c.violations) > 30:
            break


def pipes(c, exe):
    """The backup is a pipe that takes only a part: the file must be as before until the rest is taken."""
    out = []
    r = random.Random("%s/pipe" % c.seed)
    m = Moment(c, r, 10000)
    m.ns, m.fmt, m.src = ["a"], "shell", 'end-of-buffer; insert "x"'
    m.fs = {"a": File("p" * 70000), "b": File("b"), "abak": dict(NONE), "bbak": dict(NONE)}
    m.set_up()
    fifo = os.path.join(m.d, "abak")
    os.mkfifo(fifo)
    os.chmod(fifo, 0o666)
    fd = os.open(fifo, os.O_RDONLY | os.O_NONBLOCK)
    p = subprocess.Popen(m.argv(exe), cwd=m.d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **NOBODY)
    try:
        p.wait(1.5)
    except subprocess.TimeoutExpired:
        pass
    with open(os.path.join(m.d, "a"), "rb") as f:
        now = list(f.read())
    if p.poll() is None:                           # it waits for the pipe
        fs = dict(m.fs, a={"k": "file", "c": now, "r": True, "w": True})
        out.append((m.record(fs), m, "half of the backup is written"))
        os.set_blocking(fd, True)
        taken = bytes()
        while True:
            x = os.read(fd, 1 << 16)
            if not x:
                break
            taken += x
        try:
            p.wait(20)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    else:
        p.wait()
    os.close(fd)
    shutil.rmtree(m.d, ignore_errors=True)
    return out


def check(c):
    r = c.rng
    for src in ("Grow", "Shrink"):
        _, distinct, gen = c.tlc("MC_Moments", "SPECIFICATION MSpec\nINVARIANT AlwaysWhole EndsRight\nCHECK_DEADLOCK FALSE\nCONSTANTS Contents <- MCContents\n Fmt = \"shell\"\n Src <- %s\n MaxFiles = 2\n" % src)
        c.add("states", distinct)
        c.cov.setdefault("models", []).append({"module": "Moments", "script": src, "states": distinct})
    model_part(c, r)
    moments(c, r)
    tr = run_cases(c, [history(r) for _ in range(900 if c.quick else 9000)] + [crowded(r) for _ in range(40 if c.quick else 400)])
    big.through(c, ["backup"], 24, 300)
    t = tr[5]
    c.sample({"files": tellfs(t["fs"]), "calls": len(t["ops"]), "dry": [o["dry"] for o in t["ops"]]})
