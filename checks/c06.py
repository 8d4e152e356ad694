"""C06: mark and region."""
import big
from drivers import *
from editor import generated, validate

FOCUS = set(MARKS + ["mark", "delete-region", "replace-region", "region-beginning", "region-end"])


def check(c):
    generated(c, "MC_C06", {"Size": 3 if c.quick else 4, "MaxLen": 4, "MaxDepth": 40})
    r = c.rng
    cases = [program(r, ["mark", "region", "region"], ["goto", "move", "insert", "delete", "edge", "search"], r.randrange(6, 30)) for _ in range(1800 if c.quick else 15000)]
    for _ in range(6 if c.quick else 60):
        cases.append(program(r, ["mark", "region"], ["goto", "insert"], 40, t="".join(rtext(r) for _ in range(70))))
    cases += [large(r, ["mark", "region"], ["goto", "delete"], 14) for _ in range(12 if c.quick else 150)]
    cases += sweep(*[call(f) for f in ["mark-word", "mark-line"]])
    validate(c, cases, focus=FOCUS)
    big.sizes(c, big.REGION, 300, 4000)
