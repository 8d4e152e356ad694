"""Scripts as sources: rendering programs in the three syntaxes, breaking them, judging their uses."""
import json

from vlib import CheckError, text, show
from editor import trace_check, canon
from doubles import BY_VALUE


# ---- rendering a program (list of values) with random layout and escapes ----
def utf8(bs):
    try:
        return bytes(bs).decode()
    except UnicodeDecodeError:
        return None


def line_string(r, v, plain=False):
    """A string literal of the line-based syntax."""
    s = utf8(v)
    out = '"'
    if s is None:
        for x in v:
            out += "\\x%02x" % x if x >= 128 or x < 32 or chr(x) in '"\\' else chr(x)
        return out + '"'
    for ch in s:
        o = ord(ch)
        k = 1 if plain else r.random()
        if ch in '"\\':
            out += "\\" + ch if k > 0.2 else "\\x%02x" % o
        elif ch == "\n":
            out += "\\n" if k > 0.2 else r.choice(["\\x0a", "\\012", "\\u000a"])
        elif ch in "\a\b\f\r\t\v" and k > 0.3:
            out += {"\a": "\\a", "\b": "\\b", "\f": "\\f", "\r": "\\r", "\t": "\\t", "\v": "\\v"}[ch]
        elif k < 0.04 and o < 128:
            out += r.choice(["\\x%02x", "\\%03o", "\\x%02X"]) % o
        elif k < 0.1 and o >= 128:
            out += "\\u%04x" % o if o < 65536 else "\\U%08x" % o
        elif k < 0.12 and o >= 128:
            out += "".join("\\x%02x" % x for x in ch.encode())
        elif o < 32 or o == 127:
            out += "\\x%02x" % o if k > 0.2 or ch == "\r" else ch
        else:
            out += ch
    return out + '"'


def json_string(r, v, plain=False):
    out = '"'
    for ch in utf8(v):
        o = ord(ch)
        k = 1 if plain else r.random()
        if ch in '"\\':
            out += "\\" + ch if k > 0.1 else "\\u%04x" % o
        elif ch in "\b\f\n\r\t":
            out += {"\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}[ch] if k > 0.2 else "\\u%04x" % o
        elif o < 32 or k < 0.04:
            out += "\\u%04x" % o if o < 65536 else "\\u%04x\\u%04x" % (0xD800 + ((o - 65536) >> 10), 0xDC00 + ((o - 65536) & 1023))
        elif ch == "/" and k < 0.5:
            out += "\\/"
        else:
            out += ch
    return out + '"'


def number(r, v, fmt):
    f = v.get("f")
    x = float(f) if f else v["i"]
    if abs(x) in BY_VALUE and r.random() < 0.7:
        return ("-" if x < 0 else "") + r.choice(BY_VALUE[abs(x)])
    if f and abs(x) < 1e15 and x != int(x):
        return repr(x)
    if abs(x) >= 1e15:
        s = "%.0e" % x if float("%.0e" % x) == x else repr(x)
        return s.replace("e+", r.choice(["e", "e+", "E"]))
    n = int(x)
    k = r.random()
    if k < 0.75:
        return str(n)
    if k < 0.83:
        return "%d.0" % n
    if k < 0.9 and n and n % 10 == 0:
        return "%de1" % (n // 10)
    if fmt == "json" or k < 0.93:
        return str(n)
    return r.choice(["%+d", "%03d", "%d."]) % n if n >= 0 else str(n)


def atom(r, v, fmt):
    if v["k"] == "s":
        return json_string(r, v["v"]) if fmt == "json" else line_string(r, v["v"])
    if v["k"] == "n":
        return number(r, v, fmt)
    return json_string(r, v["v"], r.random() < 0.9) if fmt == "json" else utf8(v["v"])


def gap(r):
    return r.choice([" ", " ", " ", " ", "  ", "\t", " \t "])


def opt(r):
    return r.choice(["", "", "", "", " ", "\t", "  "])


def sexp(r, v):
    if v["k"] != "l":
        return atom(r, v, "sexp")
    return "(" + opt(r) + gap(r).join(sexp(r, x) for x in v["v"]) + opt(r) + ")"


def jws(r):
    return r.choice(["", "", "", "", " ", "\n", "\t ", "\r\n"])


def jsn(r, v):
    if v["k"] != "l":
        return atom(r, v, "json")
    return "[" + jws(r) + ",".join(jws(r) + jsn(r, x) + jws(r) for x in v["v"]) + "]"


def render(r, prog, fmt):
    """The source of a program: shell and sexp may be mixed (they are one syntax), json has two forms."""
    if fmt == "json":
        if r.random() < 0.5 and all(v["k"] == "l" for v in prog) and prog:
            return jws(r) + "[" + ",".join(jws(r) + jsn(r, v) + jws(r) for v in prog) + "]" + jws(r)
        return jws(r) + "".join(jsn(r, v) + r.choice(["\n", "\n", " ", "", "\r\n"]) for v in prog)
    out = ""
    seps = ["\n", "\n", "\n", ";", " ; ", "\r\n", "\n\n", ";;", "\n \t\n", "\n\u00a0\n"] if r.random() < 0.7 else [";", ";", "; ", " ;"]
    for i, v in enumerate(prog):
        flat = v["v"] and v["v"][0]["k"] != "l"
        if fmt == "shell" and flat:
            out += opt(r) + gap(r).join(sexp(r, x) for x in v["v"]) + opt(r)
        else:
            out += opt(r) + sexp(r, v) + opt(r)
        out += r.choice(seps) if i + 1 < len(prog) else r.choice(["", "", "\n", ";", "\r\n"])
    return out


def mutate(r, src):
    """Breaks (or not) a source by small changes."""
    s = src
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randrange(len(s) + 1)
        k = r.random()
        if k < 0.35:
            s = s[:i] + s[i + 1:]
        elif k < 0.75:
            s = s[:i] + r.choice(["(", ")", '"', "\\", ";", "\n", " ", "[", "]", ",", "1", "null", "x", "{", "}", ":", "'", "\\q", "\\x4", "\\u12", "\\400",
                                  "\\ud800", "\t", "\v", "\u00a0", "1.5", "-", "e", ".", "true", '""', "()", "[]", "\r", "\\'", "/", "\\U00110000", "#"]) + s[i:]
        elif k < 0.9:
            j = min(len(s), i + r.randrange(1, 8))
            s = s[:i] + s[j:]
        else:
            s = s[:i]
    return s


SHELL_SPOTS = ['insert "a~c"', "insert a~c", 'insert~"x"', '~insert "x"', 'insert "x"~', '(insert~"x")', '(insert "x")~', '(insert~)', 'insert "x"~insert "y"', 'insert "\\~"', "concat 1~", "concat ~1",
               'insert "\\~0"', '(~insert "x"~)', 'insert "a"~"b"', 'insert "x"; ~; insert "y"', "concat 1~2"]
JSON_SPOTS = ['["insert","a~c"]', '["insert","\\~"]', '["insert"~"x"]', '["insert","x"~]', '["insert","x"]~', '~["insert","x"]', '["insert","x"]~["insert","y"]', '["concat",1~]', '["concat",~1]',
              '["concat",1~2]', '[~["insert","x"]]', '["concat",-~]', '["concat",1.~]', '["concat",1e~]', '["insert","\\u00~1"]']


NO_FORMATS = ["", "yaml", "JSON", "Shell", "s-exp", "shell ", "lisp", "text", "auto", "json,shell"]


def spots(fmt, part=(0, 1)):
    """Every byte, and odd characters, at every kind of place of a script."""
    from drivers import ODD_RUNES
    units = [bytes([b]) for b in range(256)] + [chr(o).encode() for o in ODD_RUNES]
    out = [t.encode().replace(b"~", u) for t in (JSON_SPOTS if fmt == "json" else SHELL_SPOTS) for u in units]
    return out[part[0]::part[1]]


def canons(vs):
    return [canon(v) for v in vs]


# ---- uses -------------------------------------------------------------------
def cases_of(srcs):
    """[(src, fmt, text, cli)] as harness cases."""
    out = []
    for s, fmt, t, cli in srcs:
        b = list(s.encode()) if isinstance(s, str) else list(s)
        out.append({"src": b, "fmt": fmt, "t": list(t.encode()) if isinstance(t, str) else list(t), "cli": cli})
    return out


def use(c, cases, count, timeout=800):
    """Runs every case through the entry points, has TLC judge the records.

    count(case, specification) tells whether a deviation counts for this property."""
    for i, x in enumerate(cases):
        x["id"] = i
    got = {r["id"]: r for r in c.harness("script", cases)}
    logs = []
    for i, x in enumerate(cases):
        r = got[i]
        if "crash" in r or r["pok"] in ("panic", "hang"):
            c.violation("crash: %s source %r" % (x["fmt"], text(x["src"])), {"case": x, "got": r})
        else:
            logs.append({k: v for k, v in r.items() if k != "odd"})
    bad, uns = trace_check(c, logs, "ScriptTrace", timeout)
    c.add("states", len(logs))
    c.add("transitions", len(logs))
    c.add("traces_validated_against_impl", len(logs))
    c.add("unspecified_runs", uns)
    for i, x in enumerate(cases):
        if got[i].get("odd"):
            c.violation("%s source %r on %r: %s" % (x["fmt"], text(x["src"])[:300], text(x["t"])[:80], "; ".join(got[i]["odd"])), {"case": x, "got": got[i]})
            if len(c.violations) > 20:
                return got
    for d in bad:
        x, r = cases[d["bad"]], got[d["bad"]]
        if not count(x, d["want"]):
            c.add("rejected_out_of_focus", 1)
            continue
        again = c.harness("script", [x], jobs=1)[0]
        if again != r and not c.leaks("script", cases, d["bad"], again, lambda a: a):
            raise CheckError("not repeatable: %s %r" % (x["fmt"], text(x["src"])))
        c.violation("%s source %r on %r: %s" % (x["fmt"], text(x["src"])[:300], text(x["t"])[:80], deviation(x, r, d["want"])), {"case": x, "got": r, "specified": d["want"]})
        if len(c.violations) > 40:
            break
    return got


def deviation(x, r, w):
    if "dst" in x:
        return "conversion to %s specified %s of %s, got %s %r" % (x["dst"], w["ok"], [show(v) for v in w["parse"]["v"]], r["pok"], text(r["o"])[:300])
    p = w["parse"]
    d = w.get("datum", {"ok": "uns"})
    if r["dok"] != "-" and d["ok"] != "uns" and (r["dok"] != d["ok"] or d["ok"] == "ok" and [show(v) for v in d["v"]] != [show(v) for v in r["dv"]]):
        return "as a single value: specified %s %s, read as %s %s" % (d["ok"], [show(v) for v in d["v"]], r["dok"], [show(v) for v in r["dv"]])
    if r["pok"] != "-" and (r["pok"] != p["ok"] or (p["ok"] == "ok" and [show(v) for v in p["v"]] != [show(v) for v in r["pv"]])):
        return "specified %s %s, read as %s %s" % (p["ok"], [show(v) for v in p["v"]], r["pok"], [show(v) for v in r["pv"]])
    return "specified %s text %r value %s, got %s text %r, value %s %s %r" % (
        w["ok"], text(w["t"])[:200], show(w["v"]), r["ok"], text(r["o"])[:200], r["vok"], show(r["v"]), text(r["vt"])[:200])


def syntax_model(c, fmt, maxlen, wide, strings=False):
    return c.tlc("SyntaxGen", "SPECIFICATION Spec\nINVARIANT Laws Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Fmt = \"%s\"\n MaxLen = %d\n Wide = %s\n Strings = %s\n"
                 % (fmt, maxlen, "TRUE" if wide else "FALSE", "TRUE" if strings else "FALSE"))


def generated(c, fmts, maxlen, wide, count):
    """Every source of the bounded model, and what it means; "strings" is the model of string literals."""
    for fmt in fmts:
        strings = fmt == "strings"
        n = maxlen[fmt]
        fmt = "shell" if strings else fmt
        docs, distinct, _ = syntax_model(c, fmt, n, wide, strings)
        if 2 * len(docs) != distinct:
            raise CheckError("SyntaxGen: %d sources emitted, %d states" % (len(docs), distinct))
        c.add("states", len(docs))
        c.cov.setdefault("models", []).append({"module": "SyntaxGen", "format": fmt, "strings": strings, "sources": len(docs),
                                               "well_formed": sum(d["pok"] == "ok" for d in docs)})
        cases = [{"id": i, "src": d["src"], "fmt": fmt, "t": [97], "lite": 0 if i % 23 == 0 else 1, "cli": 1 if i % 529 == 0 else 0} for i, d in enumerate(docs)]
        got = {r["id"]: r for r in c.harness("script", cases)}
        for i, d in enumerate(docs):
            r, x = got[i], cases[i]
            if "crash" in r or r["pok"] in ("panic", "hang"):
                c.violation("crash: %s source %r" % (fmt, text(x["src"])), {"case": x, "got": r})
                continue
            c.add("transitions")
            c.add("traces_validated_against_impl")
            what = "; ".join(r["odd"])
            if not what and d["pok"] != "uns" and count(x, {"parse": {"ok": d["pok"], "v": d["pv"]}}):
                if r["pok"] != d["pok"] or (d["pok"] == "ok" and canons(r["pv"]) != canons(d["pv"])):
                    what = "specified %s %s, read as %s %s" % (d["pok"], [show(v) for v in d["pv"]], r["pok"], [show(v) for v in r["pv"]])
                elif d["ok"] != "uns" and (r["ok"] != d["ok"] or r["vok"] != d["ok"] or (d["ok"] == "ok" and (r["o"] != d["o"] or canon(r["v"]) != canon(d["v"])))):
                    what = "specified %s text %r value %s, got %s text %r, %s value %s" % (d["ok"], text(d["o"]), show(d["v"]), r["ok"], text(r["o"]), r["vok"], show(r["v"]))
                elif fmt != "json" and d["dok"] != "uns" and (r["dok"] != d["dok"] or canons(r["dv"]) != canons(d["dv"])):
                    what = "as a single value: specified %s %s, read as %s %s" % (d["dok"], [show(v) for v in d["dv"]], r["dok"], [show(v) for v in r["dv"]])
            if what:
                c.violation("%s source %r: %s" % (fmt, text(x["src"]), what), {"case": x, "got": r, "specified": d})
                if len(c.violations) > 20:
                    return
