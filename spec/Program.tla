------------------------------ MODULE Program ------------------------------
(* Laws of programs, and what is observable of a run. *)
EXTENDS Editor

Seen(s) == [t |-> s.t, p |-> s.p, k |-> s.k]
\* What a traced run shows; at an error also the last match.
Outcome(t, prog) ==
  LET r == RunProgram(NewState(t), prog)
  IN [ok |-> r.ok, v |-> r.v, n |-> r.n, m |-> r.s.m, s |-> Seen(r.s),
      ev |-> [j \in 1..Len(r.ev) |-> Seen(r.ev[j])]]

(***************************************************************************)
(* Laws, checked on every program of the bounded model.                    *)
(***************************************************************************)
ProgramLaws(t, prog) ==
  LET s == NewState(t)
      r == RunProgram(s, prog)
      n == Len(prog)
  IN /\ r.n = Len(r.ev) /\ r.n <= n
     /\ (r.ok = "ok") <=> (r.n = n)
     \* the first part decides what the second part starts from
     /\ \A i \in 0..n :
          LET a == RunProgram(s, SubSeq(prog, 1, i))
              b == RunProgram(a.s, SubSeq(prog, i + 1, n))
          IN IF a.ok = "ok"
             THEN r.ok = b.ok /\ r.s = b.s /\ r.n = i + b.n /\ (i < n => VEq(r.v, b.v))
             ELSE r.ok = a.ok /\ r.s = a.s /\ r.n = a.n /\ r.n < i
     \* nothing behind an error matters
     /\ r.ok = "err" => LET a == RunProgram(s, SubSeq(prog, 1, r.n + 1)) IN a = r
     /\ n = 0 => r.v = NoValue
=============================================================================
