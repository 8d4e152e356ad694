"""Writes Names.tla: the byte sequences of the function names."""
import re, os
here = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(here, "Editor.tla")).read()
sets = src[src.index("NoArgFns =="):src.index("\\* kinds of the arguments")]
names = sorted(set(re.findall(r'"([a-z-]+)"', sets)))
assert len(names) == 50, len(names)
with open(os.path.join(here, "Names.tla"), "w") as f:
    f.write("------------------------------- MODULE Names -------------------------------\n")
    f.write("(* Generated by gen_names.py from the function sets of Editor.tla. *)\n")
    f.write("EXTENDS TLC\n\nNameOf ==\n")
    f.write("  @@\n".join("  <<%s>> :> \"%s\"" % (", ".join(map(str, n.encode())), n) for n in names))
    f.write("\n\nBytesOf ==\n")
    f.write("  @@\n".join("  \"%s\" :> <<%s>>" % (n, ", ".join(map(str, n.encode()))) for n in names))
    f.write("\n=============================================================================\n")
