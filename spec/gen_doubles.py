"""Writes Doubles.tla: the doubles that some numerals of more than 15 digits are read as."""
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "..", "lib"))
from doubles import TABLE


def t(p):
    return "<<<<%s>>, %d>>" % (",".join(p[0]), p[1])


with open(os.path.join(here, "Doubles.tla"), "w") as f:
    f.write("------------------------------- MODULE Doubles ------------------------------\n")
    f.write("(* Generated by gen_doubles.py: numerals of more than 15 digits (digits, exponent), and the *)\n")
    f.write("(* shortest numeral of the double next to each of them.                                *)\n")
    f.write("EXTENDS Integers, Sequences, TLC\n\n")
    f.write("Doubles ==\n  " + " @@\n  ".join("%s :> %s" % (t(a), t(b)) for a, b in TABLE) + "\n")
    f.write("LongNumerals == DOMAIN Doubles\n")
    f.write("=============================================================================\n")
