"""C04: searching and looking."""
import big
from drivers import *
from editor import generated, validate

FOCUS = set(SEARCHES + ["looking-at", "looking-back"])


def check(c):
    generated(c, "MC_C04", {"Size": 3 if c.quick else 4, "MaxLen": 4, "MaxDepth": 30})
    r = c.rng
    cases = [program(r, ["search", "search", "look"], ["goto", "goto", "insert", "move", "edge"], r.randrange(6, 25)) for _ in range(1800 if c.quick else 15000)]
    for _ in range(5 if c.quick else 50):
        cases.append(program(r, ["search", "look"], ["goto"], 20, t="".join(rtext(r) for _ in range(25))))
    cases += [large(r, ["search", "look"], ["goto"], 14) for _ in range(15 if c.quick else 150)]
    # patterns put together at random, on texts of the few characters they speak of
    for _ in range(400 if c.quick else 5000):
        t = "".join(r.choice("aabboAKskS1_ .-\n\u00e9\u017f\u212a") for _ in range(r.randrange(1, 14)))
        xs = [call("end-of-buffer")]
        for _ in range(10):
            q = rpat(r)
            xs += [call("goto-char", r.randrange(1, len(t.encode()) + 2)), call(r.choice(["re-search-forward", "re-search-backward", "looking-at", "looking-back", "looking-back"]), q),
                   call("end-of-buffer"), call(r.choice(["looking-back", "re-search-backward"]), q)]
        cases.append({"t": list(t.encode()), "x": xs})
    # the match that was found is what replace-match replaces
    for x in cases[::3]:
        x["x"] = [y for e in x["x"] for y in ([e, call("replace-match", "<>")] if e["v"][0]["v"][-7:] in ([111, 114, 119, 97, 114, 100],) or b"search" in bytes(e["v"][0]["v"]) and r.random() < 0.3 else [e])]
    validate(c, cases, focus=FOCUS | {"replace-match"})
    big.sizes(c, big.SEARCHES, 300, 4000, set(big.SEARCHES + big.MATCHES))
