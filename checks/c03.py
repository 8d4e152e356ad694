"""C03: inserting and deleting."""
import big
from drivers import *
from editor import generated, validate

FOCUS = set(DELETES + ["insert"])


def check(c):
    generated(c, "MC_C03", {"Size": 3 if c.quick else 4, "MaxLen": 3 if c.quick else 4, "MaxDepth": 60})
    r = c.rng
    cases = [program(r, ["delete", "delete", "insert"], ["goto", "move", "mark", "edge"], r.randrange(6, 30)) for _ in range(1800 if c.quick else 15000)]
    for _ in range(6 if c.quick else 60):
        cases.append(program(r, ["delete", "insert"], ["goto", "goto", "mark"], 40, t="".join(rtext(r) for _ in range(70))))
    cases += [large(r, ["delete", "delete", "insert"], ["goto", "mark"], 12) for _ in range(12 if c.quick else 150)]
    cases += sweep(*[call(f) for f in DELETES])
    validate(c, cases, focus=FOCUS)
    big.sizes(c, big.EDITS, 300, 4000)
