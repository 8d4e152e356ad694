"""Shared machinery of the checks: building, running TLC, recording verdicts."""
import concurrent.futures
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


NOBODY = {"user": 65534, "group": 65534, "extra_groups": []}


class CheckError(Exception):
    """The check itself failed: no verdict."""


class TooMany(Exception):
    """The code under test hangs or crashes again and again: nothing more is tried."""


def b(s):
    """Text as the byte list of the specification."""
    return list(s.encode() if isinstance(s, str) else s)


def S(s):
    return {"k": "s", "v": b(s)}


def Y(s):
    return {"k": "y", "v": b(s)}


def Nm(i):
    if isinstance(i, int) and abs(i) <= 10 ** 9:
        return {"k": "n", "i": i}
    return {"k": "n", "i": 0, "f": repr(i)}


def L(*xs):
    return {"k": "l", "v": list(xs)}


def val(a):
    if isinstance(a, dict):
        return a
    if isinstance(a, (str, bytes)):
        return S(a)
    return Nm(a)


def call(f, *args):
    """The expression (f arg...); str is a string, int/float a number, dicts are expressions."""
    return L(Y(f), *[val(a) for a in args])


def text(bs):
    return bytes(bs).decode("utf-8", "backslashreplace")


def show(v):
    """Readable form of a value of the specification."""
    if v["k"] == "s":
        return json.dumps(text(v["v"]), ensure_ascii=False)
    if v["k"] == "y":
        return text(v["v"])
    if v["k"] == "n":
        return v.get("f") or text(v.get("x") or []) or str(v["i"])
    return "(" + " ".join(show(x) for x in v["v"]) + ")"


class Check:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random("%s/%s/%s" % (prop, self.seed, tier))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        os.chmod(self.tmp, 0o755)
        self.leaking = False
        self.violations = []
        self.known = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.env = dict(os.environ)
        self.env.setdefault("GOFLAGS", "-mod=mod -buildvcs=false")
        self.env.setdefault("GOCACHE", "/root/.cache/go-build")
        self.env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
        self.env["GOFLAGS"] = "-mod=mod -buildvcs=false"
        self.env["GOPROXY"] = "off"
        self.env["GOSUMDB"] = "off"
        self.env["GOTOOLCHAIN"] = "local"
        self.env.pop("TRACE", None)
        self._vh = None
        self._texted = None
        self._n = 0

    # ---- building -------------------------------------------------------
    def path(self, *p):
        return os.path.join(self.tmp, *p)

    def fresh(self, suffix=""):
        self._n += 1
        return self.path("f%d%s" % (self._n, suffix))

    def _go(self, args, cwd):
        r = subprocess.run(["go"] + args, cwd=cwd, env=self.env, capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise CheckError("go %s: %s%s" % (" ".join(args), r.stdout[-2000:], r.stderr[-2000:]))

    def vh(self, race=False):
        """The harness, built against /repo's working tree."""
        if self._vh is None:
            self._vh = {}
        if race not in self._vh:
            src = self.path("harness")
            if not os.path.isdir(src):
                shutil.copytree(os.path.join(VERIF, "harness"), src)
                # the module requires what the repository requires
                with open(os.path.join(REPO, "go.mod")) as f:
                    mod = re.sub(r"(?m)^module .*$", "module verif/harness", f.read())
                with open(os.path.join(src, "go.mod"), "w") as f:
                    f.write(mod + "\nrequire github.com/dhamidi/texted v0.0.0\nreplace github.com/dhamidi/texted => %s\n" % REPO)
                shutil.copy(os.path.join(REPO, "go.sum"), src)
            exe = self.path("vh-race" if race else "vh")
            self._go(["build"] + (["-race"] if race else []) + ["-o", exe, "."], src)
            self._vh[race] = exe
        return self._vh[race]

    def texted(self):
        """The command, built from /repo's working tree."""
        if self._texted is None:
            exe = self.path("bin", "texted")
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            self._go(["build", "-o", exe, "./cmd/texted"], REPO)
            self._texted = exe
        return self._texted

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=8, timeout=800, extra=(), heap="6g", specdir=SPEC):
        """Runs TLC; returns (JSON documents that it printed, distinct states, generated states)."""
        if "\n" in cfg:
            p = self.fresh(".cfg")
            with open(p, "w") as f:
                f.write(cfg)
            cfg = p
        meta = self.fresh(".states")
        e = dict(self.env)
        e.update(env or {})
        outp = self.fresh(".tlc")
        cmd = ["java", "-XX:+UseParallelGC", "-Xss512m", "-Xmx" + heap, "-Dtlc2.TLC.stopAfter=%d" % (timeout + 30),
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfg] + list(extra) + [os.path.join(specdir, module + ".tla")]
        with open(outp, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=self.tmp, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timed out on %s" % module)
        shutil.rmtree(meta, ignore_errors=True)
        docs, tail = [], []
        distinct = generated = 0
        with open(outp) as f:
            for line in f:
                if line.startswith('"{'):
                    docs.append(json.loads(json.loads(line)))
                else:
                    tail.append(line)
                    m = re.match(r"(\d+) states generated.*, (\d+) distinct states found", line)
                    if m:
                        generated, distinct = int(m.group(1)), int(m.group(2))
        self.last_tlc = "".join(tail)
        if r.returncode != 0:
            raise CheckError("TLC failed on %s (%d):\n%s" % (module, r.returncode, "".join(tail)[-3000:]))
        os.unlink(outp)
        return docs, distinct, generated

    def playground(self):
        """A directory in which an unprivileged user may work."""
        p = self.path("playground")
        if not os.path.isdir(p):
            os.mkdir(p)
            os.chmod(p, 0o777)
        return p

    # ---- harness --------------------------------------------------------
    @staticmethod
    def share(cases, jobs=8):
        """How many cases a process gets."""
        jobs = max(1, min(jobs, len(cases)))
        return (len(cases) + jobs - 1) // jobs if cases else 1

    def leaks(self, cmd, cases, i, alone, key, **kw):
        """Does the answer to case i depend on the cases before it in its process?  alone: the answer that it gets alone."""
        if not self.leaking:
            first = i - i % self.share(cases)
            got = self.harness(cmd, cases[first:i + 1], jobs=1, **kw)[-1]
            self.leaking = "crash" in got or key(got) != key(alone)
        return self.leaking

    def harness(self, cmd, cases, race=False, jobs=8, timeout=800, args=(), env=None, nobody=False):
        """Feeds one JSON document per case to `vh cmd`; returns the documents that come back, in order.

        A case on which the process dies gets {"id": id, "crash": stderr}."""
        exe = self.vh(race)
        e = dict(self.env)
        e.update(env or {})
        cwd, user = self.tmp, {}
        if nobody:
            cwd, user = self.playground(), NOBODY
        lines = [json.dumps(c, separators=(",", ":")) + "\n" for c in cases]

        stops = []      # cases on which the process died or had to be stopped

        def stopped(i, answer):
            stops.append((cases[i], answer))

        def run(idx):
            res = []
            while idx:
                if len(stops) >= 12:
                    return res
                try:
                    r = subprocess.run([exe, cmd] + list(args), input="".join(lines[i] for i in idx).encode(),
                                       capture_output=True, timeout=timeout, env=e, cwd=cwd, **user)
                except subprocess.TimeoutExpired:
                    raise CheckError("harness %s timed out" % cmd)
                got = [json.loads(x) for x in r.stdout.split(b"\n") if x.strip()]
                res += got
                if r.returncode == 0 and len(got) == len(idx):
                    break
                if r.returncode == 3:
                    raise CheckError("harness %s: %s" % (cmd, r.stderr[-2000:].decode(errors="replace")))
                if r.returncode == 4 and got:      # stopped after reporting a hang
                    stopped(idx[len(got) - 1], got[-1])
                    idx = idx[len(got):]
                    continue
                if len(got) >= len(idx):
                    raise CheckError("harness %s: exit %d\n%s" % (cmd, r.returncode, r.stderr[-2000:].decode(errors="replace")))
                res.append({"id": cases[idx[len(got)]].get("id"), "crash": r.stderr[-1500:].decode(errors="replace")})
                stopped(idx[len(got)], res[-1])
                idx = idx[len(got) + 1:]
            return res

        step = self.share(cases, jobs)
        jobs = max(1, min(jobs, len(cases)))
        parts = [list(range(i, min(i + step, len(cases)))) for i in range(0, len(cases), step)]
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            out = []
            for r in ex.map(run, parts):
                out += r
        if len(stops) >= 12:
            for x, answer in stops:
                self.violation("crash or hang: %s" % json.dumps(x, ensure_ascii=False)[:400], {"case": x, "got": answer})
            raise TooMany()
        if len(out) != len(cases):
            raise CheckError("harness %s: %d answers for %d cases" % (cmd, len(out), len(cases)))
        return out

    # ---- verdicts -------------------------------------------------------
    def violation(self, what, replay):
        self.violations.append((what, replay))

    def sample(self, x, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def finish(self, level="model_checking"):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        if not self.cov["samples"]:
            self.cov["samples"] = ["no sample"]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if not self.violations:
            print("%s: held on everything explored (%s)" % (self.prop, ", ".join(
                "%s %s" % (v, k) for k, v in self.cov.items() if isinstance(v, int))))
            return 0
        rd = os.path.join(VERIF, "replays", self.prop)
        shutil.rmtree(rd, ignore_errors=True)
        os.makedirs(rd, exist_ok=True)
        for i, (what, replay) in enumerate(self.violations[:20]):
            p = os.path.join(rd, "%d.json" % (i + 1))
            with open(p, "w") as f:
                json.dump({"property": self.prop, "what": what, "replay": replay}, f, indent=1, default=str)
                f.write("\n")
            print(what)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        if len(self.violations) > 20:
            print("... and %d more" % (len(self.violations) - 20))
        return 1

    def cleanup(self):
        subprocess.run(["chmod", "-R", "u+rwX", self.tmp], capture_output=True)
        shutil.rmtree(self.tmp, ignore_errors=True)


def known_findings(prop):
    """The lines `known: property=ID KEY ...` of the known-findings file."""
    res = []
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) (\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res
