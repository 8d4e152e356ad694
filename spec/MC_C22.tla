------------------------------- MODULE MC_C22 -------------------------------
(* Every function with every combination of up to Size arguments of the kinds string, number, list value. *)
EXTENDS EditorGen
CONSTANT Size
MCTexts == {<<>>, <<97, 98, 32, 97>>}
Vals == << Str(<<97>>), Num(1), Sym(<<116>>) >>
RECURSIVE Tuples(_)
Tuples(n) == IF n = 0 THEN << <<>> >>
             ELSE LET P == Tuples(n - 1)
                      Q == SelectSeq(P, LAMBDA x : Len(x) = n - 1)
                  IN P \o [i \in 1..(Len(Q) * Len(Vals)) |-> Append(Q[((i - 1) \div Len(Vals)) + 1], Vals[((i - 1) % Len(Vals)) + 1])]
AllF == SetToSeq(Functions)
MCCmds == FoldLeft(LAMBDA acc, f : acc \o FA(f, Tuples(Size)), <<>>, AllF)
=============================================================================
