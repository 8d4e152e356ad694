"""Writes Case.tla: the capital and the small letter of the letters of some blocks, from Python's Unicode data.

A letter whose mapping is not one letter, or that got its mapping with a recent version of Unicode, is not in the tables (0).
"""
import os
here = os.path.dirname(os.path.abspath(__file__))
BLOCKS = [(0x80, 0x58F), (0x1E00, 0x1EFF), (0x2000, 0x206F), (0x2100, 0x214F), (0xFF00, 0xFF5F), (0x10400, 0x1044F)]
RECENT = {0x19B, 0x264}
CASELESS = [(0x3040, 0x30FF), (0x4E00, 0x9FFF), (0x1F300, 0x1F6FF)]

def one(c, mapped):
    return ord(mapped) if len(mapped) == 1 and c not in RECENT else 0

for a, b in CASELESS:
    assert all(chr(c).upper() == chr(c) == chr(c).lower() for c in range(a, b + 1))

with open(os.path.join(here, "Case.tla"), "w") as f:
    f.write("-------------------------------- MODULE Case --------------------------------\n")
    f.write("(* Generated by gen_case.py: for each block, its first letter and the capital (small) *)\n")
    f.write("(* letters of its letters; 0 for those whose mapping is not specified.              *)\n")
    f.write("EXTENDS Integers, Sequences\n\n")
    for name, m in (("Capitals", str.upper), ("Smalls", str.lower)):
        f.write("%s == <<\n" % name)
        f.write(",\n".join("  <<%d, <<%s>>>>" % (a, ",".join(str(one(c, m(chr(c)))) for c in range(a, b + 1))) for a, b in BLOCKS))
        f.write(">>\n\n")
    f.write("Caseless == {%s}\n" % ", ".join("<<%d, %d>>" % r for r in CASELESS))
    f.write("=============================================================================\n")
