"""C22: numbers and kinds of arguments."""
from drivers import *
from editor import generated, validate

NAMES = """beginning-of-buffer beginning-of-line buffer-size current-column delete-region end-of-buffer end-of-line
exchange-point-and-mark line-number-at-pos mark mark-whole-buffer mark-word point point-max point-min region-beginning
region-end set-mark backward-char backward-kill-word backward-word delete-backward-char delete-char delete-line
forward-char forward-word kill-line kill-word mark-line set-mark-command goto-char goto-line insert search-forward
search-backward re-search-forward re-search-backward replace-match replace-region looking-at looking-back length
upcase downcase capitalize string-match buffer-substring substring concat replace-regexp-in-string""".split()


def check(c):
    generated(c, "MC_C22", {"Size": 3 if c.quick else 4, "MaxLen": 5, "MaxDepth": 1, "Parts": 8})
    r = c.rng
    symbols = [call("looking-at", "a"), call("looking-at", "zz"), call("looking-back", "x"), call("string-match", "q", "a")]

    def arg():
        k = r.random()
        if k < 0.4:
            return r.choice(["a", "", "foo", "1"])
        if k < 0.8:
            return r.choice([1, 2, 0, -1, 3, 1.5])
        return r.choice(symbols)
    cases = []
    for _ in range(60 if c.quick else 600):
        t = rtext(r, 30)
        xs = []
        for f in NAMES:
            xs.append(rcmd(r, t, ["goto", "mark", "insert", "search"]))
            xs.append(call(f, *[arg() for _ in range(r.randrange(0, 6))]))
        cases.append({"t": list(t.encode()), "x": xs})
    validate(c, cases)
