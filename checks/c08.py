"""C08: string functions."""
import big
from drivers import *
from editor import generated, validate

FOCUS = {"concat", "length", "substring", "upcase", "downcase", "capitalize", "string-match", "replace-regexp-in-string"}


BLOCKS = [(0x41, 0x7b), (0xa0, 0x100), (0x100, 0x250), (0x250, 0x2b0), (0x370, 0x400), (0x400, 0x530), (0x531, 0x588), (0x1e00, 0x1f00),
          (0x2000, 0x2028), (0x2100, 0x2150), (0x3040, 0x3100), (0x4e00, 0x4f00), (0xff00, 0xff5f), (0x10400, 0x10450), (0x1f600, 0x1f640)]
PECULIAR = "\u0131\u017f\u00ff\u0178\u01c4\u01c5\u01c6\u03a3\u03c3\u03c2\u00b5\u039c\u0345\u023a\u2c65\u0250\u2126\u212a\u1e9e\u0412\u1c80\u00d7\u00f7\u00aa\u00ba\u2160"

# patterns for long strings: those which the specification follows in a time that does not grow with the square of the length
LONG = ["a", "b+", "[a-z]+", "o*", "\\s+", "^", "$", "a{2}", "(foo|bar)", "a.", "[^ ]", "z|", " ", "\n", "(ab)+", "a**", "(", "(?i)A", "(?P<n>o)", "Z", "\\.", "[[:space:]]+"]


def letters(r):
    """A text of some letters, most of one block."""
    a, b = r.choice(BLOCKS)
    t = ""
    for _ in range(r.choice([1, 1, 2, 3, 6, 20])):
        k = r.random()
        t += chr(r.randrange(a, b)) if k < 0.75 else r.choice(PECULIAR) if k < 0.85 else r.choice("abYZ 1-\n")
    return t


def check(c):
    generated(c, "MC_C08", {"Size": 2 if c.quick else 3, "MaxLen": 2, "MaxDepth": 1, "Parts": 16})
    r = c.rng
    cases = [program(r, ["string"], ["goto", "mark", "search", "insert"], r.randrange(10, 40), p_setup=0.1) for _ in range(1500 if c.quick else 15000)]
    for _ in range(12 if c.quick else 150):      # long strings, many matches
        t = r.choice(UNITS) * r.randrange(257, 600)
        f = r.choice(["upcase", "downcase", "capitalize", "length", "concat", "substring", "replace-regexp-in-string", "replace-regexp-in-string", "string-match"])
        x = (call(f, t) if f in ("upcase", "downcase", "capitalize", "length") else call(f, t, "<", t) if f == "concat" else call(f, t, r.randrange(len(t)))
             if f == "substring" else call(f, r.choice(LONG), t + "Z") if f == "string-match" else call(f, r.choice(LONG), r.choice(["X", "$0$0", "", "<$1>"]), t))
        cases.append({"t": [], "x": [x]})
    # letters of many scripts, alone and in words; some become longer or shorter in the other case
    for _ in range(400 if c.quick else 6000):
        cases.append({"t": [], "x": [call(r.choice(["upcase", "downcase", "capitalize"]), letters(r)) for _ in range(4)]})
    # a string function between a search and replace-match
    for _ in range(300 if c.quick else 3000):
        cases.append(program(r, ["string"], ["search", "search", "replace"], 25, t=r.choice(["ab", "aa", "foo ", "a\n"]) * r.randrange(2, 8), p_setup=0.5))
    validate(c, cases, focus=FOCUS, pure=FOCUS)
    big.sizes(c, big.STRINGS, 300, 4000)
