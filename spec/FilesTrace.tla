----------------------------- MODULE FilesTrace -----------------------------
(* Recorded histories of calls on a file system: every call is judged on the files as they were
   before it (see FilesJudge). *)
EXTENDS FilesJudge, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, j
vars == <<l, j>>

Before(e, i) == IF i = 1 THEN e.fs ELSE Known(e.fs, e.ops[i - 1].obs.fs)
Init == l \in 1..Len(Trace) /\ j = 0
Step == /\ j < Len(Trace[l].ops) /\ j' = j + 1 /\ l' = l
        /\ LET e == Trace[l] o == e.ops[j + 1]
               r == JudgeOp(e, Before(e, j + 1), o)
           IN /\ IF r.ok THEN TRUE ELSE PrintT(ToJson([bad |-> e.id, step |-> j + 1, want |-> r.want]))
              /\ IF r.uns THEN PrintT(ToJson([uns |-> e.id])) ELSE TRUE
Spec == Init /\ [][Step]_vars
Complete == TLCGet("stats").distinct = FoldLeft(LAMBDA n, e : n + 1 + Len(e.ops), 0, Trace)
=============================================================================
