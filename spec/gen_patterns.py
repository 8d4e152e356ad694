"""Writes Patterns.tla: regular expressions and replacement templates of the bounded models, as bytes."""
import os
here = os.path.dirname(os.path.abspath(__file__))
RX = ["a", "b", "ab", "a+", "a*", "b?", "a|ab", "ab|a", "(a|b)+", "(a)(b)?", "[ab]", "[^a]", ".", ".+", "a.b", "^", "$", "^a", "b$",
      "\\b", "a{2}", "a{1,2}", "(?i)A", "\\w+", "\\n", "(?m)^b", "(?m)a$", "(?s).+", "a+?", "(ab|a)(b|)", "x*", "",
      "[", "(", "*", "a**", ")", "a{2,1}", "[b-a]", "\\", "b\\", "(a)|b", "\\W", "(?m)$", "(a*)b", "[a-", "a{2"]
TM = ["", "x", "$1", "[$0]", "$$", "${1}y", "$1y", "$", "\\1", "$2$1"]
PL = ["a", "b", "ab", "aa", "ba", "\n", "aba", "", ".", "a+", "c"]
def seq(name, comment, xs):
    return "\\* %s\n%s ==\n  <<\n%s\n  >>\n" % (comment, name, ",\n".join(
        "    <<%s>>  \\* %r" % (", ".join(map(str, x.encode())), x) if i == len(xs) - 1 else
        "    <<%s>>" % ", ".join(map(str, x.encode())) for i, x in enumerate(xs)))
with open(os.path.join(here, "Patterns.tla"), "w") as f:
    f.write("------------------------------ MODULE Patterns ------------------------------\n")
    f.write("(* Generated by gen_patterns.py. *)\n")
    f.write(seq("RegexSeq", "   ".join(repr(x) for x in RX), RX))
    f.write(seq("TemplateSeq", "   ".join(repr(x) for x in TM), TM))
    f.write(seq("PlainSeq", "   ".join(repr(x) for x in PL), PL))
    f.write("=============================================================================\n")
