------------------------------ MODULE EditorGen ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the editing machine within small bounds:      *)
(* every state reachable from the texts Texts by the calls Cmds while the  *)
(* text has at most MaxLen bytes.  On every transition the laws are        *)
(* checked; every distinct state is emitted once as                        *)
(*   [h: initial text and the calls that lead there,                       *)
(*    r: the outcome of every call of Cmds in that state]                  *)
(* and replayed into the implementation.  hist is hidden by the VIEW.      *)
(***************************************************************************)
EXTENDS Laws, Json

CONSTANTS Texts, Cmds, MaxLen, MaxDepth, Parts, EmitOn

VARIABLES s, hist, part, judged
vars == <<s, hist, part, judged>>

Expr(c) == Lst(<<Sym(BytesOf[c.f])>> \o c.a)
F(f) == << [f |-> f, a |-> <<>>] >>
FN(f, ns) == [i \in 1..Len(ns) |-> [f |-> f, a |-> <<Num(ns[i])>>]]
FS(f, xs) == [i \in 1..Len(xs) |-> [f |-> f, a |-> <<Str(xs[i])>>]]
FA(f, as) == [i \in 1..Len(as) |-> [f |-> f, a |-> as[i]]]

\* Cmds, evaluated once (TLC would evaluate it again at every use).
ASSUME TLCSet(1, TLCEval(Cmds))
TheCmds == TLCGet(1)

Init == \E t \in Texts : s = NewState(t) /\ hist = [t |-> t, c |-> <<>>] /\ part \in 0..(Parts - 1) /\ judged = FALSE

Explore == /\ ~judged /\ judged' = FALSE
           /\ Len(hist.c) < MaxDepth
           /\ LET C == TheCmds
              IN \E i \in 1..Len(C) :
                LET r == TLCEval(Call(s, C[i].f, C[i].a))
                IN /\ r.ok = "ok" /\ Len(r.s.t) <= MaxLen /\ r.s # s
                   /\ s' = r.s
                   /\ hist' = [hist EXCEPT !.c = Append(@, i)]
           /\ UNCHANGED part
\* Every state gets judged once (a step of its own, so that TLC's workers share the work).
Judge == ~judged /\ judged' = TRUE /\ UNCHANGED <<s, hist, part>>
Next == Explore \/ Judge
Spec == Init /\ [][Next]_vars

View == <<s, part, judged>>
\* The commands that are judged in a state; the work is divided into Parts parts.
Mine(C) == {i \in 1..Len(C) : i % Parts = part}
MineSeq(C) == LET first == IF part = 0 THEN Parts ELSE part
              IN [j \in 1..((Len(C) - first + Parts) \div Parts) |-> C[first + (j - 1) * Parts]]

LawsHold == /\ InBounds(s)
            /\ judged => 
               LET C == TheCmds
               IN \A i \in Mine(C) :
                    LET c == C[i] r == TLCEval(Call(s, c.f, c.a)) IN AllLaws(s, c.f, c.a, r)

\* Outcome of a call, without repeating an unchanged text.
Pack(r) == <<r.ok, r.s.p, r.s.k, IF r.s.t = s.t THEN 0 ELSE r.s.t, r.v>>
Emit == (judged /\ EmitOn) => LET C == MineSeq(TheCmds)
                  IN PrintT(ToJson([h |-> hist, p |-> s.p, k |-> s.k, t |-> s.t, q |-> <<part, Parts>>,
                       r |-> [i \in 1..Len(C) |-> Pack(Call(s, C[i].f, C[i].a))]]))
\* The calls, once.
ASSUME LET C == TheCmds IN PrintT(ToJson([cmds |-> [i \in 1..Len(C) |-> Expr(C[i])]]))

\* All texts over the alphabet A with at most n bytes.
RECURSIVE Texts_(_, _)
Texts_(A, n) == IF n = 0 THEN {<<>>} ELSE LET S == Texts_(A, n - 1) IN S \cup {Append(x, b) : x \in {y \in S : Len(y) = n - 1}, b \in A}
=============================================================================
