---------------------------- MODULE ProgramTrace ----------------------------
(***************************************************************************)
(* Recorded runs of whole programs against the specification.  A record    *)
(* holds the text t, the program x, and what the run showed: if it was     *)
(* traced (tr = 1) ev: the reports of the tracer; ok, v, s: the final state; for an error  *)
(* n: the index it names, at: the instruction it names, m: the last match. *)
(***************************************************************************)
EXTENDS Program, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, j
vars == <<l, j>>

SameState(a, b) == a.t = b.t /\ a.p = b.p /\ a.k = b.k
Good(e, w) ==
  /\ e.tr = 1 => /\ Len(e.ev) >= Len(w.ev)
                 /\ \A i \in 1..Len(w.ev) : SameState(e.ev[i], w.ev[i]) /\ VEq(e.ev[i].x, e.x[i])
  /\ \/ w.ok = "uns" /\ e.ok \in {"ok", "err"}
     \/ /\ e.ok = w.ok /\ (e.tr = 1 => Len(e.ev) = Len(w.ev)) /\ SameState(e.s, w.s)
        /\ e.ok = "ok" => VEq(e.v, w.v)
        /\ e.ok = "err" => e.n = w.n /\ VEq(e.at, e.x[w.n + 1]) /\ e.m.x = w.m.x /\ e.m.s = w.m.s /\ e.m.e = w.m.e

Init == l \in 1..Len(Trace) /\ j = 0
Step == /\ j = 0 /\ j' = 1 /\ l' = l
        /\ LET e == Trace[l] w == Outcome(e.t, e.x)
           IN /\ IF Good(e, w) THEN TRUE ELSE PrintT(ToJson([bad |-> e.id, step |-> 0, want |-> w]))
              /\ IF w.ok = "uns" THEN PrintT(ToJson([uns |-> e.id])) ELSE TRUE
Spec == Init /\ [][Step]_vars
Complete == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
