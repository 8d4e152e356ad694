------------------------------- MODULE MC_C08 -------------------------------
(* String functions: all small strings, indices, patterns and templates. *)
EXTENDS EditorGen, Patterns
CONSTANT Size
MCTexts == {<<>>, <<97, 10>>}
Strs == SetToSeq(Texts_({97, 98}, Size)) \o << <<65, 32, 98>>, <<195, 169, 97>>, <<97, 195, 137>>, <<10, 97>>, <<97, 10, 98>>, <<32, 97, 66, 32>>, <<196, 177, 197, 191, 66>>, <<200, 186, 97>>, <<206, 163, 207, 130>> >>
Ix == <<-1, 0, 1, 2, 3, 4, 100>>
Prod2(X0, Y0) == LET X == TLCEval(X0) Y == TLCEval(Y0) IN TLCEval([i \in 1..(Len(X) * Len(Y)) |-> <<X[((i - 1) \div Len(Y)) + 1], Y[((i - 1) % Len(Y)) + 1]>>])
S1(q) == TLCEval([i \in 1..Len(q) |-> Str(q[i])])
N1(q) == TLCEval([i \in 1..Len(q) |-> Num(q[i])])
Sub3 == LET P == TLCEval(Prod2(S1(Strs), Prod2(N1(Ix), N1(Ix)))) IN [i \in 1..Len(P) |-> <<P[i][1]>> \o P[i][2]]
Rep3 == LET P == Prod2(S1(RegexSeq), Prod2(S1(TemplateSeq), S1(Strs))) IN [i \in 1..Len(P) |-> <<P[i][1]>> \o P[i][2]]
MCCmds == F("concat") \o FS("concat", Strs) \o FA("concat", Prod2(S1(Strs), S1(Strs))) \o FA("concat", << <<Str(<<97>>), Str(<<>>), Str(<<98>>), Str(<<97>>)>> >>)
       \o FS("length", Strs) \o FS("upcase", Strs) \o FS("downcase", Strs) \o FS("capitalize", Strs)
       \o FA("substring", Prod2(S1(Strs), N1(Ix))) \o FA("substring", Sub3)
       \o FA("string-match", Prod2(S1(RegexSeq), S1(Strs)))
       \o FA("replace-regexp-in-string", Rep3)
       \o F("end-of-buffer")
=============================================================================
