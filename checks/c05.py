"""C05: replacing the last match."""
import big
from drivers import *
from editor import generated, validate


def check(c):
    generated(c, "MC_C05", {"Size": 2 if c.quick else 3, "MaxLen": 3 if c.quick else 4, "MaxDepth": 4 if c.quick else 5})
    r = c.rng
    cases = [program(r, ["search", "replace", "search", "replace"], ["goto", "move", "insert", "delete", "mark", "region", "query", "look"], r.randrange(6, 40), p_setup=0.35)
             for _ in range(2200 if c.quick else 18000)]
    # repeated texts: the same text may stand at the remembered place again
    for _ in range(400 if c.quick else 4000):
        t = r.choice(["ab", "aa", "foo ", "a\n"]) * r.randrange(2, 8)
        cases.append(program(r, ["search", "replace"], ["insert", "delete", "goto", "region", "mark"], 20, t=t))
    cases += [large(r, ["search", "replace"], ["goto", "delete"], 14) for _ in range(12 if c.quick else 120)]
    validate(c, cases, focus={"replace-match"})
    big.sizes(c, big.SEARCHES[:4] + big.MATCHES * 4, 300, 4000, {"replace-match"})
