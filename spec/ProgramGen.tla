----------------------------- MODULE ProgramGen -----------------------------
(* Every program of up to MaxDepth instructions of Instrs on every text of Texts. *)
EXTENDS Program, Json

CONSTANTS MaxDepth, Wide

B(x) == Str(x)
Fn(f, as) == Lst(<<Sym(BytesOf[f])>> \o as)
A == <<97>>
AB == <<97, 98>>
Insert(x) == Fn("insert", <<x>>)
Goto(n) == Fn("goto-char", <<n>>)
Point == Fn("point", <<>>)
\* Completed or failing, with effects in the arguments, nested, no call at all.
Instrs ==
  << Insert(B(A)), Goto(Num(2)), Fn("delete-char", <<>>), Fn("search-forward", <<B(A)>>),
     Fn("replace-match", <<B(AB)>>), Point, B(AB), Num(7),
     Sym(A), Lst(<<>>), Lst(<<B(A)>>), Lst(<<Sym(<<122, 122>>), Insert(B(A))>>),
     \* the effect of the first argument stays, that of the third does not happen
     Fn("concat", <<Insert(B(AB)), Fn("search-forward", <<B(<<122>>)>>), Insert(B(A))>>),
     Insert(Fn("concat", <<Insert(B(A)), Fn("buffer-substring", <<Num(1), Point>>)>>)),
     Fn("insert", <<Insert(B(A)), Insert(B(AB))>>),
     Fn("goto-char", <<Insert(B(AB))>>),
     Fn("set-mark", <<>>), Lst(<<Lst(<<Sym(A)>>)>>) >>
  \o IF Wide THEN << Fn("exchange-point-and-mark", <<>>), Fn("end-of-buffer", <<>>), Fn("length", <<Fn("upcase", <<Insert(B(A))>>)>>),
                     Fn("re-search-backward", <<B(<<91>>)>>), Fn("buffer-size", <<>>) >>
     ELSE <<>>
Texts == {<<>>, <<97, 98, 97>>}

VARIABLES t, prog, judged
vars == <<t, prog, judged>>
Init == t \in Texts /\ prog = <<>> /\ judged = FALSE
Extend == ~judged /\ Len(prog) < MaxDepth /\ \E i \in 1..Len(Instrs) : prog' = Append(prog, Instrs[i])
          /\ UNCHANGED <<t, judged>>
Judge == ~judged /\ judged' = TRUE /\ UNCHANGED <<t, prog>>
Next == Extend \/ Judge
Spec == Init /\ [][Next]_vars

Laws == judged => ProgramLaws(t, prog)
Emit == judged => PrintT(ToJson([t |-> t, x |-> prog, want |-> Outcome(t, prog)]))
=============================================================================
