"""C02: movement."""
import big
from drivers import *
from editor import generated, validate

FOCUS = set(MOVES + GOTOS + EDGES)


def check(c):
    generated(c, "MC_C02", {"Size": 4 if c.quick else 5, "MaxLen": 5, "MaxDepth": 50})
    r = c.rng
    n = 1500 if c.quick else 12000
    cases = [program(r, ["move", "move", "goto", "edge"], ["insert", "delete", "goto", "mark"], r.randrange(4, 30), p_setup=0.3)
             for _ in range(n)]
    for _ in range(6 if c.quick else 40):
        cases.append(program(r, ["move", "goto", "edge"], ["goto", "insert"], 40, t="".join(rtext(r) for _ in range(60))))
    cases += [large(r, ["move", "move", "goto", "edge"], ["goto"], 20) for _ in range(12 if c.quick else 150)]
    cases += sweep(*[call(f) for f in MOVES[2:] + EDGES[:2]], call("goto-line", 2))
    validate(c, cases, focus=FOCUS)
    big.sizes(c, big.MOVES, 300, 4000)
