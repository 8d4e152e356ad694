----------------------------- MODULE ReportTrace ----------------------------
(***************************************************************************)
(* What `texted test --trace` tells about the scripts it runs.  Records:   *)
(*  {id, runs: <<{t, src}>>, rep: <<{x, t, p, k}>>}                        *)
(* the scripts in order with their texts, and the reports in order: the    *)
(* command as it is shown, and text, point and mark after it.              *)
(***************************************************************************)
EXTENDS Syntax, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, j
vars == <<l, j>>

\* How a command is shown; numbers that are not small integers in any way.
RECURSIVE Told(_)
Told(v) == CASE v.k = "s" -> <<QUOTE>> \o v.v \o <<QUOTE>>
             [] v.k = "n" -> Decimal(v.i)
             [] v.k = "y" -> v.v
             [] OTHER -> <<40>> \o Join([i \in 1..Len(v.v) |-> Told(v.v[i])], <<32>>) \o <<41>>
RECURSIVE Vague(_)
Vague(v) == (v.k = "n" /\ (v.x # <<>> \/ v.i >= Limit \/ v.i <= -Limit)) \/ (v.k = "l" /\ \E i \in 1..Len(v.v) : Vague(v.v[i]))

Of(run) ==
  LET p == ParseScript("shell", run.src)
      r == IF p.ok = "ok" THEN RunProgram(NewState(run.t), p.v) ELSE [ok |-> p.ok, ev |-> <<>>]
  IN [uns |-> r.ok = "uns", rep |-> [i \in 1..Len(r.ev) |-> [x |-> p.v[i], t |-> r.ev[i].t, p |-> r.ev[i].p, k |-> r.ev[i].k]]]
RECURSIVE All(_)
All(runs) == IF runs = <<>> THEN [uns |-> FALSE, rep |-> <<>>]
             ELSE LET a == Of(runs[1]) b == All(Tail(runs)) IN [uns |-> a.uns \/ b.uns, rep |-> a.rep \o b.rep]

Same(a, w) == a.t = w.t /\ a.p = w.p /\ a.k = w.k /\ (Vague(w.x) \/ a.x = Told(w.x))
Good(e, w) == Len(e.rep) = Len(w.rep) /\ \A i \in 1..Len(w.rep) : Same(e.rep[i], w.rep[i])

Init == l \in 1..Len(Trace) /\ j = 0
Step == /\ j = 0 /\ j' = 1 /\ l' = l
        /\ LET e == Trace[l] w == All(e.runs)
           IN IF w.uns THEN PrintT(ToJson([uns |-> e.id]))
              ELSE IF Good(e, w) THEN TRUE ELSE PrintT(ToJson([bad |-> e.id, want |-> [i \in 1..Len(w.rep) |-> [x |-> Told(w.rep[i].x), t |-> w.rep[i].t, p |-> w.rep[i].p, k |-> w.rep[i].k]]]))
Spec == Init /\ [][Step]_vars
Complete == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
