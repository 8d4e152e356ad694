"""Random texts, arguments and programs (seeded)."""
from vlib import call
from doubles import VALUES

WORDS = ["foo", "bar", "a", "b", "x1", "Hello", "world", "the", "42", "abc", "abcabc", "aXb", "caf\u00e9", "na\u00efve", "\u00c5ngstr\u00f6m", "\u65e5\u672c", "\U0001f600", "don't", "e_f"]
SEPS = ["\r", "\v", "\u2028", " ", " ", " ", "  ", "\n", "\n", "\n\n", "\t", ".", ", ", "-", "(", ")", "$1", "\\", "\"", ";", "*", "+", "\r\n", "'", "[", "]"]
COUNTS = [1, 1, 1, 2, 2, 3, 0, -1, -2, 4, 5, 7, 9, 10, 11, 12, 20, 50, 100, 1000, 10 ** 9, -10 ** 9, 1.5, 2.9, -0.5, 0.9, 1e18, -1e18, 2.0 ** 31, 2.0 ** 63]
MOVES = ["forward-char", "backward-char", "forward-word", "backward-word"]
DELETES = ["delete-char", "delete-backward-char", "delete-line", "kill-line", "kill-word", "backward-kill-word"]
SEARCHES = ["search-forward", "search-backward", "re-search-forward", "re-search-backward"]
GOTOS = ["goto-char", "goto-line"]
EDGES = ["beginning-of-line", "end-of-line", "beginning-of-buffer", "end-of-buffer"]
QUERIES = ["point", "mark", "point-min", "point-max", "buffer-size", "line-number-at-pos", "current-column", "region-beginning", "region-end"]
MARKS = ["set-mark", "set-mark-command", "exchange-point-and-mark", "mark-word", "mark-line", "mark-whole-buffer"]


STARTS = ["\ufeff", "\n", "\r\n", "#!/bin/sh\n", "\t", "\u00a0", "\x00", "---\n", "\x1f\u008b"]
ENDS = ["\r\n", "\r", "\n\n", "\x00", "\x1a", "\u2028", "\u0085", "\u00a0", " ", "\t", "\\", "\\\n", "\ufeff", "\f"]


def odd_ends(r, s):
    k = r.random()
    return (r.choice(STARTS) if k < 0.6 else "") + s + (r.choice(ENDS) if k > 0.4 else "")


def rtext(r, maxlen=60, ascii_only=False):
    """A text: empty, short, made of words and separators, with or without a final newline."""
    k = r.random()
    if k < 0.06:
        return ""
    if k < 0.16:
        return "".join(r.choice("ab \n") for _ in range(r.randrange(1, 8)))
    n = r.randrange(1, maxlen)
    out = ""
    while len(out) < n:
        out += r.choice(WORDS) + r.choice(SEPS)
    if r.random() < 0.4:
        out = out.rstrip("\n") if r.random() < 0.5 else out + "\n"
    if r.random() < 0.06:                        # what other programs treat specially at the start or the end
        out = odd_ends(r, out)
    if ascii_only:
        out = out.encode("ascii", "ignore").decode()
    return out


def rcount(r):
    if r.random() < 0.02:
        return r.choice(VALUES) * r.choice([1, 1, -1])
    return r.choice(COUNTS)


def rpos(r, n):
    k = r.random()
    if k < 0.8:
        return r.randrange(1, n + 3)
    return r.choice([0, -1, -5, n + 1, n + 2, n + 100, 10 ** 9, -10 ** 9, 1.5, 1e18])


def substring_of(r, t, maxlen=6):
    if not t:
        return r.choice(["a", " ", "\n"])
    i = r.randrange(len(t))
    return t[i:i + r.randrange(1, maxlen + 1)]


REGEXES = ["a", "b+", "[a-z]+", "[A-Z][a-z]*", "o*", "\\w+", "\\d+", "\\s+", "^", "$", "^a", "o$", "(foo|bar)", "foo|foobar", "a|ab|abc",
           "(a)(b)?", "a.c", ".", ".*", ".+", "\\bfoo\\b", "\\b", "[^a-z]", "[^ ]+ ", "x{2}", "a{1,2}", "a{2,}", "(?i)hello", "(?m)^b", "(?m)o$",
           "(?s).*", "(ab)+", "(a|b)*c", "a*?b", "\\(", "\\)", "\\$", "\\.", "[", "(", "*", "a**", "a{2,1}", ")", "\\", "[z-a]", "\u00e9", "[\u00e0-\u00ff]+",
           "\\W", "\\D+", "\\S+", "(\\w+) (\\w+)", "f(o)+", "[0-9]{2}", "\\n", "a\\nb", "(?:ab)+", "z|", "()", "[.]", "[]a]", "+", "?", "{", "a{", "a{,3}", "x*$", "(^| )a", "o.?$"]


REGEX_ATOMS = ["a", "b", "o", ".", "\\w", "\\W", "\\d", "\\D", "\\s", "\\S", "[a-c]", "[^a]", "[\\w-]", "[\\W_]", "[^\\s]", "[[:alpha:]]", "[[:^digit:] ]",
               "[[:upper:][:digit:]]", "[[:blank:]]", "[a\\]]", "[\\x41-\\x5a]", "\\x41", "\\x{e9}", "\\x{65e5}", "\\101", "\\0", "\\n", "\\t", "\\r", "\\Qa.c\\E", "\\Q.\\E",
               "\\Q(", "\\ ", "\\-", "^", "$", "\\b", "\\B", "\\A", "\\z", "(?i)", "(?-i)", "(?m)", "(?s)", "(?U)", "(?i-s)", "k", "s", "K", "S", "\u017f", "\u212a", "[k-s]",
               "\u00e9", "\u65e5", "[\u00e0-\u00ff]", "foo", "bar", " ", "[[:word:]]", "[[:punct:]]", "[[:print:]]", "[[:xdigit:]]"]
REGEX_ODD = ["[[:foo:]]", "\\8", "\\1", "\\xg0", "\\x{}", "\\x{110000}", "(?P<n>", "(?P<>a)", "(?<1a>b)", "(?<a b>c)", "(?=a)", "(?!a)", "(?)", "(?-)", "(?i", "(?z)", "(?--i)", "\\E", "\\pL",
             "[\\d-z]", "[a-\\d]", "[b-a]", "[\\b]", "a{1001}", "a{0}", "(a{2}){3}", "[[:alpha:]", "[[.a.]]", "\\C", "\\Z", "a{,2}", "a{1", "(?P=n)", "[^]]", "[^]", "[]", "a||b", "(|a)"]


def rpat(r, depth=0):
    """A pattern put together at random."""
    k = r.random()
    if depth > 2 or k < 0.45:
        return r.choice(REGEX_ATOMS) if r.random() < 0.93 else r.choice(REGEX_ODD)
    if k < 0.6:
        return rpat(r, depth + 1) + rpat(r, depth + 1)
    if k < 0.72:
        return rpat(r, depth + 1) + r.choice(["*", "+", "?", "*?", "+?", "??", "{2}", "{1,3}", "{2,}", "{1,2}?", "{0,30}"])
    if k < 0.8:
        return rpat(r, depth + 1) + "|" + rpat(r, depth + 1)
    return r.choice(["(", "(", "(?:", "(?i:", "(?m:", "(?s:", "(?U:", "(?-i:", "(?P<n>", "(?<word>", "(?P<x1>"]) + rpat(r, depth + 1) + ")"


def rtemplate(r):
    """A replacement text with references to groups."""
    return "".join(r.choice(["$1", "${1}", "$2", "$0", "$n", "${n}", "${word}", "$word", "${x1}", "$1x", "$$", "$", "${", "x", "-", "[", "]", "$01", "$10", "\\1", "\u00e9"])
                   for _ in range(r.randint(1, 4)))


def rregex(r, t):
    k = r.random()
    if len(t) > 200:      # (only what the specification follows in reasonable time)
        k = r.choice([0.1, 0.5])
        if k == 0.5:
            return r.choice([x for x in REGEXES if x not in ("(\\w+) (\\w+)", "(a|b)*c", "[^ ]+ ")])
    elif k > 0.8:
        return rpat(r)
    if k < 0.3:
        s = substring_of(r, t, 5)
        return "".join(("\\" + ch if ch in "\\.+*?()|[]{}^$" and r.random() < 0.8 else ch) for ch in s)
    if k < 0.4:
        return r.choice(REGEXES) + r.choice(REGEXES)
    return r.choice(REGEXES)


def rpattern(r, t):
    return substring_of(r, t) if r.random() < 0.8 else r.choice(["foo", "zzz", "", "\n", "a.c", "(", "$", "[a-z]+"])


def rinsert(r):
    return r.choice(["", "x", "foo", "\n", " ", "a\nb\n", "$1", "\\1", "${name}", "caf\u00e9", "\u65e5", "long text " * 3, "\"q\"", "ab"])


def rcmd(r, t, kinds):
    """A command of one of the kinds; t is (roughly) the current text."""
    k = r.choice(kinds)
    n = len(t.encode())
    if k == "move":
        f = r.choice(MOVES)
        return call(f) if r.random() < 0.3 else call(f, rcount(r))
    if k == "goto":
        return call("goto-char", rpos(r, n)) if r.random() < 0.7 else call("goto-line", r.choice([1, 2, 3, 0, -1, 5, 100, 1e18, 2.5]))
    if k == "edge":
        return call(r.choice(EDGES))
    if k == "insert":
        return call("insert", rinsert(r))
    if k == "delete":
        f = r.choice(DELETES)
        return call(f) if r.random() < 0.3 else call(f, rcount(r))
    if k == "search":
        f = r.choice(SEARCHES)
        return call(f, rregex(r, t) if f.startswith("re-") else rpattern(r, t))
    if k == "look":
        return call(r.choice(["looking-at", "looking-back"]), rregex(r, t) if r.random() < 0.6 else rpattern(r, t))
    if k == "replace":
        return call("replace-match", rinsert(r))
    if k == "mark":
        f = r.choice(MARKS)
        if f == "set-mark-command" and r.random() < 0.8:
            return call(f, rpos(r, n))
        if f == "mark-line" and r.random() < 0.6:
            return call(f, rcount(r))
        return call(f)
    if k == "region":
        f = r.choice(["delete-region", "replace-region", "region-beginning", "region-end"])
        return call(f, rinsert(r)) if f == "replace-region" else call(f)
    if k == "query":
        if r.random() < 0.35:
            return call("buffer-substring", rpos(r, n), r.choice([-1, rpos(r, n), rpos(r, n)]))
        return call(r.choice(QUERIES))
    if k == "string":
        return rstring(r, t)
    raise ValueError(k)


def rstr(r):
    return r.choice(["", "a", "hello world", "caf\u00e9 noir", "\u00e9T\u00c9", "ABC def", "12ab", " x", "foo.bar", "a+b", "$x", "aaa", "\u65e5\u672c\u8a9e", "line\nbreak", "\u00c5bc", "zZ", "o\u00f6o", "\u03a3\u03af\u03c3\u03c5\u03c6\u03bf\u03c2", "\u041f\u0440\u0438\u0432\u0435\u0442", "\u0131\u0142\u0178\u00ff", "\u017fT"]) if r.random() < 0.6 else rtext(r, 20)


def rstring(r, t):
    f = r.choice(["concat", "length", "substring", "substring", "upcase", "downcase", "capitalize", "string-match", "string-match", "replace-regexp-in-string", "replace-regexp-in-string"])
    if f == "concat":
        return call(f, *[rstr(r) for _ in range(r.randrange(0, 5))])
    if f in ("length", "upcase", "downcase", "capitalize"):
        return call(f, rstr(r))
    s = rstr(r)
    if f == "substring":
        a = [s, rpos(r, len(s.encode()))]
        if r.random() < 0.6:
            a.append(rpos(r, len(s.encode())))
        return call(f, *a)
    if f == "string-match":
        return call(f, rregex(r, s), s)
    return call(f, rregex(r, s), rtemplate(r) if r.random() < 0.4 else r.choice(["", "X", "$1", "$0", "[$0]", "${1}", "$1x", "${1}x", "$$", "$", "\\1", "$2-$1", "a$", "${", "${1", "$9", "$01"]), s)


def program(r, kinds, setup, n, t=None, p_setup=0.4):
    t = rtext(r) if t is None else t
    xs = []
    for _ in range(n):
        xs.append(rcmd(r, t, setup if r.random() < p_setup else kinds))
    return {"t": list(t.encode()), "x": xs}


UNITS = ["a", "ab ", "x\n", "foo bar\n", "\n", "\u00e9 ", "a\n\nb ", "aab", "word, "]


def large(r, kinds, setup, n, lo=257, hi=700):
    """A program on a text with hundreds of equal words, lines, matches: the counts go beyond every small bound."""
    u = r.choice(UNITS)
    t = u * r.randrange(lo, hi)
    if r.random() < 0.5:
        i = r.randrange(len(t))
        t = t[:i] + r.choice(["Z", "foo", "\n", " ", "\u65e5"]) + t[i:]
    size = len(t.encode())
    xs = []
    for _ in range(n):
        k = r.random()
        if k < 0.15:
            xs.append(call(r.choice(["end-of-buffer", "end-of-buffer", "beginning-of-buffer"])))
        elif k < 0.3:
            xs.append(call(r.choice(["goto-char", "set-mark-command"]), r.randrange(1, size + 2)))
        else:
            x = rcmd(r, t, setup if k < 0.45 else kinds)
            f = bytes(x["v"][0]["v"]).decode()
            if f.startswith("re-") or f.startswith("looking"):      # matches stay short
                x = call(f, r.choice(["a", "b", "o", "[ab]", "a|b", "aa?", "(a)(b)?", "ab", "x\\n", "\\bfoo\\b", "\\w\\W", "a{2}", "^a", "(?m)^x", "foo|b", "o{2}", "Z", "\\W", "q"]))
            if f in MOVES + DELETES + ["mark-line", "goto-line"] and r.random() < 0.7:
                x = call(f, r.choice([255, 256, 257, 300, 500, -257, -300, 1000, 128, 64]))
            xs.append(x)
    return {"t": list(t.encode()), "x": xs}


def tricky(r):
    """A string of characters that mean something in a script."""
    return "".join(r.choice(["\\", "\\", "\"", "\"", ";", ";", "(", ")", " ", "a", "\n", "\u00e9", "'", "[", "]", ",", "\t", "{", "}", "#", "|", "n", "u0041", "//", ":"]) for _ in range(r.randrange(0, 6)))


def sweep(*calls):
    """Every byte next to a letter, at the edges of words and lines: each call at each position (the bytes that
    end words and lines, that have case, that are letters are told from their neighbours exactly)."""
    out = []
    for b in range(256):
        for t in ([97, b, 98], [32, b, 10], [b]):
            for p in range(1, len(t) + 2):
                out += [{"t": t, "x": [call("goto-char", p), x]} for x in calls]
    return out


# Characters beyond ASCII that are spaces, line ends, marks of formats, or look like ASCII.
ODD_RUNES = [0x80, 0x85, 0xa0, 0xad, 0xd7, 0xdf, 0xe9, 0xff, 0x100, 0x130, 0x131, 0x17f, 0x1c5, 0x300, 0x3b1, 0x660, 0x1680, 0x180e, 0x2000, 0x200a, 0x200b, 0x2028, 0x2029, 0x202f, 0x205f,
             0x2060, 0x2212, 0x201c, 0x3000, 0x4e00, 0xfeff, 0xff08, 0xff1b, 0xfffd, 0xfffe, 0x10000, 0x1f600, 0x10ffff]
