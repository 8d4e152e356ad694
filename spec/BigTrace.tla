------------------------------ MODULE BigTrace ------------------------------
(***************************************************************************)
(* Runs of the code on texts and scripts of any size, checked against Big. *)
(* A line of the trace file is one script on one text:                     *)
(*   t: the text; p: the commands; y: what was seen after each of them     *)
(*   when they were evaluated one by one: ok, p, k, the value v and, if it *)
(*   changed (c = 1), the text t; o: what came out when the whole script   *)
(*   was given to an entry point: via, fmt, st, the text that was answered *)
(*   or printed (t), the file (left) and the backup (bak) afterwards.      *)
(* Gone stands for no text at all, Other for one that is not in runs.      *)
(***************************************************************************)
EXTENDS Big, Json, IOUtils

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(1)

VARIABLES l, j, s, st        \* st: outcome of the script so far
vars == <<l, j, s, st>>
View == <<l, j>>

Gone  == <<Of(-1, 1)>>
Unknown == [x |-> <<>>, s |-> -1, e |-> -1]

Init == l \in 1..Len(Trace) /\ j = 0 /\ st = "ok" /\ s = [t |-> Trace[l].t, p |-> 1, k |-> 1, m |-> NoMatch]

SameBig(a, b) == IF a.k = "s" THEN b.k = "s" /\ a.v = b.v ELSE VEq(a, b)
Allowed(e, r, t) ==
  IF r.ok = "uns" THEN e.ok \in {"ok", "err"}
  ELSE /\ r.ok = e.ok /\ r.s.p = e.p /\ r.s.k = e.k /\ r.s.t = t
       /\ e.ok = "ok" => SameBig(r.v, e.v)

Step ==
  /\ j < Len(Trace[l].y)
  /\ LET e == Trace[l].y[j + 1]
         t == IF e.c = 1 THEN e.t ELSE s.t
         o == Trace[l].p[j + 1]
         unk == s.m.s = -1 /\ o.f = "replace-match"
         r == IF unk THEN Unspec(s) ELSE Times(s, o)
         good == Allowed(e, r, t)
     IN /\ IF good THEN TRUE
           ELSE PrintT(ToJson([bad |-> Trace[l].id, step |-> j + 1, want |-> [ok |-> r.ok, t |-> r.s.t, p |-> r.s.p, k |-> r.s.k, v |-> r.v]]))
        /\ s' = [t |-> t, p |-> e.p, k |-> e.k, m |-> IF good /\ r.ok # "uns" THEN r.s.m ELSE Unknown]
        /\ st' = IF st # "ok" THEN st ELSE IF ~good \/ r.ok = "uns" THEN "uns" ELSE r.ok
  /\ j' = j + 1 /\ l' = l

\* What an entry point has to show: the file was `was`, the script gives `now`.
Shows(via, was, now, p) ==
  LET n == [st |-> st, n |-> 0, t |-> Gone, left |-> Gone, bak |-> Gone]
      new == IF st = "ok" THEN now ELSE was
  IN CASE via \in {"run", "eval", "server"} -> [n EXCEPT !.t = IF st = "ok" THEN now ELSE Gone]
       [] via = "stdin" -> [n EXCEPT !.t = IF st = "ok" THEN now ELSE <<>>]
       [] via = "file"  -> [n EXCEPT !.t = IF st = "ok" THEN now ELSE <<>>, !.left = was]
       [] via = "out"   -> [n EXCEPT !.t = IF st = "ok" THEN now ELSE Gone]
       [] via \in {"files", "edit", "inplace"} -> [n EXCEPT !.left = new]
       [] via = "loop"   -> LET r == Again(was, p, 1) IN [n EXCEPT !.st = "ok", !.n = r.n, !.left = r.t]
       [] via = "backup" -> [n EXCEPT !.left = new, !.bak = IF st = "ok" THEN was ELSE Gone]

Judge ==
  /\ j >= Len(Trace[l].y) /\ j < Len(Trace[l].y) + Len(Trace[l].o)
  /\ LET o == Trace[l].o[j + 1 - Len(Trace[l].y)]
         w == Shows(o.via, Trace[l].t, s.t, Trace[l].p)
     IN IF \/ st = "uns" /\ o.st \in {"ok", "err"}
           \/ w = [st |-> o.st, n |-> o.n, t |-> o.t, left |-> o.left, bak |-> o.bak]
        THEN TRUE
        ELSE PrintT(ToJson([bad |-> Trace[l].id, step |-> j + 1, want |-> w]))
  /\ j' = j + 1 /\ UNCHANGED <<l, s, st>>

Spec == Init /\ [][Step \/ Judge]_vars

Expected == FoldLeft(LAMBDA n, x : n + Len(x.y) + Len(x.o) + 1, 0, Trace)
Complete == TLCGet("stats").distinct = Expected
=============================================================================
