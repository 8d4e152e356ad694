---------------------------- MODULE MomentsTrace ----------------------------
(* Moments of real runs: {id, fs0, ns, fmt, src, fs, none}: what was there at the start and what
   was there at that moment; none: the backup was impossible, so nothing may be edited. *)
EXTENDS Whole, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, j
Init == l \in 1..Len(Trace) /\ j = 0
Step == /\ j = 0 /\ j' = 1 /\ l' = l
        /\ LET e == Trace[l]
               ok == /\ Whole(e.fs0, e.fs, e.ns, e.fmt, e.src, "bak")
                     /\ e.none => \A i \in 1..Len(e.ns) : e.fs[e.ns[i]] = e.fs0[e.ns[i]]
           IN IF ok THEN TRUE ELSE PrintT(ToJson([bad |-> e.id, want |-> [fs |-> e.fs0]]))
Spec == Init /\ [][Step]_<<l, j>>
Complete == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
