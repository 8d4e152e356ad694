"""C10: the three syntaxes, at every entry point."""
import big
from drivers import *
from scripts import generated, spots, render, use, cases_of
from c09 import rinstr
from vlib import L, S, Y, Nm

ALL = ["move", "goto", "edge", "insert", "delete", "search", "look", "replace", "mark", "region", "query", "string"]


def plain(v, top=True):
    """Can JSON express it?"""
    if v["k"] == "l":
        return not v["v"] or (v["v"][0]["k"] == "y" and all(plain(x, False) for x in v["v"][1:]))
    return v["k"] != "y" and not top


def respell(r, v):
    """The same program with strings made of the characters that mean something in a script."""
    if v["k"] == "l":
        return L(*[respell(r, x) for x in v["v"]])
    return S(tricky(r)) if v["k"] == "s" and r.random() < 0.6 else v


def programs(r, n):
    for _ in range(n):
        t = rtext(r, 30)
        k = r.random()
        if k < 0.5:
            x = program(r, ALL, ALL, r.randrange(1, 7), t=t)["x"]
        elif k < 0.9:
            x = [rinstr(r, t) for _ in range(r.randrange(0, 5))]
        else:
            x = [call("insert", rinsert(r)) for _ in range(r.randrange(1, 12))] + [call("buffer-size")]
        x = [v if v["k"] == "l" else call("concat", v) for v in x]
        if r.random() < 0.35:
            x = [respell(r, v) for v in x]
        yield t, x


def sources(r, n):
    """(source, format, text, command line too) of the same programs in every syntax."""
    out = []
    for t, x in programs(r, n):
        cli = 1 if r.random() < 0.12 else 0
        for fmt in ["shell", "sexp"] + (["json"] if all(plain(v) for v in x) else []):
            s = render(r, x, fmt)
            out.append((s, fmt, t, cli))
            if r.random() < 0.4:
                out.append((s, "auto", t, 0))
    return out


def check(c):
    ok = lambda x, w: w["parse"]["ok"] == "ok"
    generated(c, ["shell", "json", "strings"], {"shell": 4, "json": 4, "strings": 6} if c.quick else {"shell": 5, "json": 6, "strings": 6}, not c.quick, ok)
    cases = cases_of(sources(c.rng, 700 if c.quick else 8000))
    cases += cases_of([(s, f, "a b", int(i % 97 == 0)) for f in ("shell", "json") for i, s in enumerate(spots(f))])
    got = use(c, cases, ok)
    c.sample({"source": bytes(cases[1]["src"]).decode(), "format": cases[1]["fmt"], "ok": got[1]["ok"]})
    big.through(c, ["run", "eval", "stdin"], 24, 300, counted=1)
