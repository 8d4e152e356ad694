"""C11: converting scripts between the syntaxes."""
from drivers import *
from scripts import NO_FORMATS, render, mutate, use, cases_of, syntax_model
from c10 import programs, plain
from vlib import CheckError, L, S, Y, Nm, text, show

TRICKY = ["", "a b", "\"", "\\", "\n", "\t\r", "a;b", "(x)", "[1,2]", "null", "5", "1e3", "caf\u00e9", "\u65e5\u672c", "\U0001f600", "\u2028", "\u00a0", "\x00", "\x7f", "\x01\x1f", "\ufffd", "\\n",
          "<&>", "/", "'", "$1", "\u0085", "e\u0301", "\ufeff", "\\u0041", " lead", "trail ", "\"q\"", "a\\"]
NUMBERS = [0, 1, -1, 7, 42, 1000, 10 ** 9, -10 ** 9, 999999999, 1.5, -0.25, 0.1, 3.14159, 1e18, 1e21, 1.5e21, 1e22, 1e-7, 1.25e-9, 123456.789, 1e100, 2.0 ** 31, 2.0 ** 53, 1e15, 1234567.5, 12345678901.25, 0.000001, 1e20, 1e-5, 0.0001]
SYMBOLS = ["t", "nil", "foo", "x-y", "+", "-", "a.b", "1a", "--", "set!", "caf\u00e9", "a\"b c\"d", "\u00a0a", "a\u00a0", "'", "e5", "a;"]


def value(r, depth):
    k = r.random()
    if k < 0.45:
        if r.random() < 0.1:
            return {"k": "s", "v": r.choice([[255], [195, 40], [97, 128, 98], [237, 160, 128]])}
        return S(r.choice(TRICKY) + (r.choice(TRICKY) if r.random() < 0.4 else ""))
    if k < 0.75 or depth == 0:
        return Nm(r.choice(NUMBERS) if r.random() < 0.8 else r.choice(VALUES) * r.choice([1, 1, -1]))
    if k < 0.82:
        return Y(r.choice(SYMBOLS[:16]))
    if k < 0.85:
        return L()
    return L(Y(r.choice(["concat", "insert", "point"])), *[value(r, depth - 1) for _ in range(r.randrange(0, 3))])


def command(r):
    head = Y(r.choice(["insert", "concat", "search-forward", "replace-match", "foo"])) if r.random() < 0.93 else Y(r.choice(SYMBOLS[:16]))
    if r.random() < 0.03:
        return L()
    if r.random() < 0.04:
        return L(*[value(r, 1) for _ in range(r.randrange(1, 3))])
    depth = 2 if r.random() < 0.3 else 0
    return L(head, *[value(r, depth) for _ in range(r.randrange(0, 4))])


def jok(v):
    """Can JSON text express it?"""
    if v["k"] == "s":
        try:
            bytes(v["v"]).decode()
        except UnicodeDecodeError:
            return False
        return True
    return v["k"] == "n" or (v["k"] == "l" and (not v["v"] or v["v"][0]["k"] == "y" and all(jok(x) for x in v["v"][1:])))


def check(c):
    generated(c)
    r = c.rng
    cases = []
    for i in range(1000 if c.quick else 12000):
        prog = [command(r) for _ in range(r.choice([0, 1, 1, 1, 2, 3, 4]))] if i % 3 else next(programs(r, 1))[1]
        for fmt in ["shell", "json"] if all(jok(v) and v["k"] == "l" for v in prog) else ["shell"]:
            src = render(r, prog, r.choice(["shell", "sexp"]) if fmt == "shell" else fmt)
            if r.random() < 0.08:
                src = mutate(r, src)
            for dst in ["shell", "sexp", "json"]:
                cases.append({"src": list(src.encode()), "fmt": "sexp" if fmt == "shell" and r.random() < 0.3 else fmt, "dst": dst, "t": []})
    for f in NO_FORMATS:
        for s in ('insert "x"', '["insert", "x"]', '(insert "x")', "", "["):
            cases += [{"src": list(s.encode()), "fmt": f, "dst": d, "t": []} for d in ("shell", "sexp", "json", f)]
            cases += [{"src": list(s.encode()), "fmt": g, "dst": f, "t": []} for g in ("shell", "sexp", "json")]
    got = use(c, cases, lambda x, w: True)
    ok = sum(g.get("pok") == "ok" for g in got.values())
    c.cov["converted"] = ok
    c.cov["rejected"] = len(cases) - ok
    there_and_back(c, cases, got)
    x = cases[1]
    c.sample({"source": text(x["src"]), "from": x["fmt"], "to": x["dst"], "output": text(got[1]["o"])})


def there_and_back(c, cases, got):
    """Converting the output back, and again to the same syntax, gives the same commands."""
    back = []
    for i, x in enumerate(cases):
        if got[i].get("pok") == "ok":
            back.append({"src": got[i]["o"], "fmt": x["dst"], "dst": x["dst"] if i % 2 else "sexp", "t": []})
    use(c, back, lambda x, w: True)


def generated(c):
    """Every source of the bounded model of the syntax, converted to every syntax."""
    cases = []
    for fmt, n in (("shell", 3), ("json", 4)) if c.quick else (("shell", 4), ("json", 5)):
        docs, distinct, _ = syntax_model(c, fmt, n, fmt == "shell")
        if 2 * len(docs) != distinct:
            raise CheckError("SyntaxGen: %d sources emitted, %d states" % (len(docs), distinct))
        c.add("states", len(docs))
        c.cov.setdefault("models", []).append({"module": "SyntaxGen", "format": fmt, "sources": len(docs)})
        for i, d in enumerate(docs):
            if d["pok"] == "ok" or i % 10 == 0:
                cases += [{"src": d["src"], "fmt": fmt, "dst": dst, "t": []} for dst in ("shell", "sexp", "json")]
    use(c, cases, lambda x, w: True)
