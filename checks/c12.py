"""C12: malformed scripts are rejected whole, well-formed ones run in full."""
import big
from drivers import *
from scripts import generated, spots, NO_FORMATS, render, mutate, use, cases_of
from c10 import programs, plain


def check(c):
    every = lambda x, w: True
    r = c.rng
    generated(c, ["shell", "json"], {"shell": 4, "json": 5} if c.quick else {"shell": 5, "json": 6}, True if not c.quick else False, every)
    srcs = []
    for t, x in programs(r, 900 if c.quick else 10000):
        fmt = r.choice(["shell", "sexp", "json"] if all(plain(v) for v in x) else ["shell", "sexp"])
        s = mutate(r, render(r, x, fmt))
        srcs.append((s, fmt, t, 1 if r.random() < 0.12 else 0))
        if r.random() < 0.4:
            srcs.append((s, "auto", t, 0))
    srcs += conventions(r, 0.5 if c.quick else 1)
    srcs += long_sources(r, 1 if c.quick else 4)
    srcs += [(s, f, "a b", int(i % 97 == 0)) for f in ("shell", "json", "auto") for i, s in enumerate(spots("json" if f == "json" else "shell"))]
    srcs += [(s, f, "t", 1) for f in NO_FORMATS for s in ('insert "x"', '["insert", "x"]', '(insert "x")', "", "#")]
    cases = cases_of(srcs)
    got = use(c, cases, every)
    big.through(c, big.ENTRIES, 0, 100, long=True, counted=2, focus={"nest", "open"})
    rejected = sum(g.get("pok") == "err" for g in got.values())
    c.cov["rejected_scripts"] = rejected
    c.sample({"source": bytes(cases[0]["src"]).decode(), "format": cases[0]["fmt"], "parsed": got[0]["pok"]})


# what has a meaning in other languages: comments, directives, ends of the input, continued lines
CONVENTIONS = ["#", "#!", "#!/usr/bin/env texted", "##", "# x", "//", "// x", "/*", "*/", "/* x */", "--", "-- x", "%", "%%", "rem x", "REM", "'x", "`x`", "$x", "${x}", "$(point)", "@x", "!", "!!", "?", "~", "^",
               "&", "&&", "||", "|", "|x", "> x", ">", "<", "<<EOF", "EOF", "__END__", "__DATA__", ".", "..", "...", ":", "::", ":x", ",", "=", "x=1", "==", "+", "-", "*", "\\", "\\\n", "\\n", "#|", "|#", "#;", "#t", "nil", "t",
               "'()", "`()", ",@x", "exit", "quit", "end", "\ufeff", "\x1a", "\x04", "\x00", "\x0c", "\x1b[0m", "<!--", "-->", "<?x?>", "{", "}", "{}", "{x}", "[", "]", '"""', "'''", "- x", "* x", "1.", "0x", "x:", "---", "***", "include x",
               "set -e", "true", "false", "null", "None", "NaN", "Infinity", "progn", "quote", "lambda", "(progn", "('x)", "; x", ";;", ";;; x"]
LINES = ["~", "  ~", "~ 1", '~; insert "y"', 'insert "x"~', 'insert "x" ~', 'insert "x" ~ "y"', "insert ~", '(insert "x") ~', '(insert "x" ~)', "(~)", '(~ insert "x")', '~(insert "x")', '~insert "x"', '~ insert "x"']


def conventions(r, part):
    out = []
    for w in CONVENTIONS:
        for ln in LINES:
            if r.random() < part:
                s = ln.replace("~", w)
                out.append((r.choice(["", 'insert "a"\n', 'insert "a";']) + s + r.choice(["", "\n", '\ninsert "b"']), r.choice(["shell", "shell", "sexp", "auto"]), "t", int(r.random() < 0.04 and "\0" not in s)))
        for ln in ('~', '["insert", "x"]~', '["insert", "x"]\n~\n["insert", "y"]', '[~["insert", "x"]]', '~\n["insert", "x"]'):
            if r.random() < part:
                out.append((ln.replace("~", w), r.choice(["json", "json", "auto"]), "t", 0))
    return out


def long_sources(r, k):
    """Long lines, many lines, many arguments, deep lists; each also with an error at the end."""
    out = []
    for _ in range(k):
        big = "x" * r.choice([4095, 4096, 65535, 65536, 70000, 140000])
        deep = r.choice([60, 110])
        for s in ['insert "%s"; insert "end"' % big,
                  'insert "a"\n' * 700 + 'insert "end"',
                  'insert "a";' * 700 + 'insert "end"',
                  "(concat " + '"a" ' * 700 + ")",
                  "(concat " * deep + '"a"' + ")" * deep,
                  "   " * 30000 + 'insert "end"',
                  '(insert "%s")' % big]:
            out.append((s, "shell", "t", 1))
            out.append((s + '\ninsert "', "shell", "t", 1))
            out.append((s + " )", "sexp", "t", 0))
        for s in ['["insert", "%s"]\n["insert", "end"]' % big,
                  '["insert", "a"]\n' * 600 + '["insert", "end"]',
                  "[" + '["insert", "a"],' * 600 + '["insert", "end"]]',
                  '["concat",' * deep + '"a"' + "]" * deep]:
            out.append((s, "json", "t", 1))
            out.append((s + ' ["insert", null]', "json", "t", 1))
            out.append((s + "]", "json", "t", 0))
            out.append((s, "auto", "t", 0))
    return out
