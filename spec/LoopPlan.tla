------------------------------ MODULE LoopPlan ------------------------------
(* What looping until an error does in the given cases {id, fs, ns, src}; ok is FALSE where it
   does not end within the given number of rounds. *)
EXTENDS Files, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, j
Init == l \in 1..Len(Trace) /\ j = 0
Step == /\ j = 0 /\ j' = 1 /\ l' = l
        /\ LET e == Trace[l]
               r == Rounds(e.fs, e.ns, Detected(e.src), e.src, 1, 40)
           IN PrintT(ToJson([id |-> e.id] @@ r))
Spec == Init /\ [][Step]_<<l, j>>
Complete == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
