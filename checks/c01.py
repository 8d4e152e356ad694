"""C01: positions stay inside the buffer, no crash, no hang, for every program."""
import big
from drivers import *
from editor import generated, validate


def check(c):
    generated(c, "MC_C01", {"Size": 2 if c.quick else 3, "MaxLen": 3 if c.quick else 4, "MaxDepth": 100})
    r = c.rng
    everything = ["move", "goto", "edge", "insert", "delete", "search", "look", "replace", "mark", "region", "query", "string"]
    cases = [program(r, everything, ["delete", "mark", "goto", "insert"], r.randrange(5, 40)) for _ in range(1500 if c.quick else 12000)]
    for _ in range(4 if c.quick else 40):   # large texts
        cases.append(program(r, ["move", "goto", "edge", "insert", "delete", "mark", "region", "query"], ["goto", "mark"], 40,
                             t="".join(rtext(r) for _ in range(80))))
    validate(c, cases)
    big.refinement(c)
    every = big.MOVES + big.EDITS + big.SEARCHES + big.MATCHES + big.REGION + big.QUERIES + big.STRINGS
    big.sizes(c, every, 300, 6000, set())
    big.big(c, big.long_scripts(r, ["run"], True), steps=False)
    huge(c)


def huge(c):
    """Texts far beyond what the bounded models hold: only the position law is judged (by the specification)."""
    r = c.rng
    big = "".join(rtext(r, 200) for _ in range(40 if c.quick else 400))
    cases = []
    for f, n in [("delete-line", 10 ** 9), ("kill-line", 10 ** 9), ("mark-line", 1e18), ("forward-word", 10 ** 9), ("backward-word", 10 ** 9),
                 ("delete-char", 2.0 ** 63), ("delete-backward-char", 1e300), ("kill-word", 10 ** 9), ("backward-kill-word", 10 ** 9), ("goto-line", 1e300),
                 ("goto-char", -1e300), ("forward-char", 2.0 ** 31), ("backward-char", -2.0 ** 31), ("set-mark-command", 2.0 ** 62)]:
        cases.append({"t": list(big.encode()), "x": [call("goto-char", r.randrange(1, len(big))), call("set-mark"), call(f, n), call("point"),
                                                    call("exchange-point-and-mark"), call(f, n), call("delete-region")]})
    validate(c, cases)
