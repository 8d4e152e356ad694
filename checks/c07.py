"""C07: queries."""
import big
from drivers import *
from editor import generated, validate
from vlib import known_findings

FOCUS = set(QUERIES + ["buffer-substring"])
# The column of the documentation is 0-based; see the known finding.
DOCUMENTED_COLUMNS = [("Hello world", [call("beginning-of-line")], 0), ("Hello world", [call("goto-char", 6)], 5),
                      ("ab\ncd", [call("end-of-line")], 2), ("ab\ncd", [call("goto-char", 5)], 1), ("ab\n", [call("end-of-buffer")], 0)]


def check(c):
    generated(c, "MC_C07", {"Size": 2 if c.quick else 3, "MaxLen": 3 if c.quick else 4, "MaxDepth": 40})
    r = c.rng
    cases = [program(r, ["query"], ["goto", "move", "insert", "delete", "edge", "search", "mark", "region", "replace"], r.randrange(8, 40), p_setup=0.45)
             for _ in range(1500 if c.quick else 12000)]
    for _ in range(5 if c.quick else 50):
        cases.append(program(r, ["query"], ["goto", "insert", "delete"], 40, t="".join(rtext(r) for _ in range(70))))
    cases += [large(r, ["query"], ["goto", "delete", "move"], 20) for _ in range(12 if c.quick else 120)]
    # a query between a search and replace-match
    for _ in range(200 if c.quick else 2000):
        cases.append(program(r, ["query"], ["search", "search", "replace"], 25, t=r.choice(["ab", "aa", "foo ", "a\n"]) * r.randrange(2, 8), p_setup=0.5))
    cases += sweep(*[call(f) for f in ["line-number-at-pos", "current-column"]])
    validate(c, cases, focus=FOCUS, pure=FOCUS)
    big.sizes(c, big.QUERIES, 300, 4000)
    listed = dict(known_findings("C07"))
    traces = c.harness("run", [{"id": i, "t": list(t.encode()), "x": xs + [call("current-column")]} for i, (t, xs, _) in enumerate(DOCUMENTED_COLUMNS)])
    wrong = [(t, w, tr["y"][-1]["v"]["i"]) for tr, (t, xs, w) in zip(traces, DOCUMENTED_COLUMNS) if tr["y"][-1]["v"]["i"] != w]
    if wrong:
        if "current-column" not in listed:
            c.violation("current-column deviates from its documentation: %s" % (wrong,), wrong)
        else:
            c.known.append("current-column: " + listed["current-column"])
