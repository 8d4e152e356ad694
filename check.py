#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's working tree."""
import importlib
import os
import signal
import subprocess
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import vlib


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    c = vlib.Check(prop, tier)

    def late(*_):
        """Out of time: what was found until now counts."""
        print("%s: out of time" % prop, file=sys.stderr)
        rc = c.finish() if c.violations else 2
        sys.stdout.flush()
        c.cleanup()
        os._exit(rc)
    if c.quick:
        signal.signal(signal.SIGALRM, late)
        signal.alarm(840)
    try:
        importlib.import_module(prop.lower()).check(c)
        return c.finish()
    except vlib.TooMany:
        return c.finish()
    except subprocess.TimeoutExpired as e:
        if isinstance(e.cmd, list) and c._texted in e.cmd:
            c.violation("the command did not end: %s" % e.cmd, {"argv": e.cmd})
            return c.finish()
        traceback.print_exc()
        return c.finish() if c.violations else 2
    except vlib.CheckError as e:
        if c.violations:
            return c.finish()
        print("%s: no verdict: %s" % (prop, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return c.finish() if c.violations else 2
    finally:
        c.cleanup()


if __name__ == "__main__":
    sys.exit(main())
