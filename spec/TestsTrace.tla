----------------------------- MODULE TestsTrace -----------------------------
(***************************************************************************)
(* Recorded verdicts {id, c: the case, msg: the message of its error, v}   *)
(* and reports {id, all, o, obs: [lines, totals, st]} against the          *)
(* specification.  A deviation that is one of the two findings which are   *)
(* not repaired is told apart: a stray end tag </testcase> ends the case   *)
(* silently, and lang does not choose the syntax of the script.            *)
(***************************************************************************)
EXTENDS Tests, Json, IOUtils

Load == ndJsonDeserialize(IOEnv.TRACE)
ASSUME TLCSet(1, Load)
Trace == TLCGet(1)
VARIABLES l, j
Deviating(e) == [e.c EXCEPT !.wf = @ \/ e.stray, !.lang = "shell"]
Finding(e) == IF e.stray THEN "stray-end-tag" ELSE "json-input"
Init == l \in 1..Len(Trace) /\ j = 0
Step == /\ j = 0 /\ j' = 1 /\ l' = l
        /\ LET e == Trace[l] IN
           IF "o" \in DOMAIN e
           THEN LET w == Report(e.all, e.o) IN
                IF w.st = "uns" THEN PrintT(ToJson([uns |-> e.id]))
                ELSE IF w = e.obs THEN TRUE ELSE PrintT(ToJson([bad |-> e.id, want |-> w]))
           ELSE LET w == Verdict(e.c, e.msg) IN
                IF w = "uns" THEN PrintT(ToJson([uns |-> e.id]))
                ELSE IF w = e.v THEN TRUE
                ELSE IF ~e.stray /\ e.c.lang # "json" THEN PrintT(ToJson([bad |-> e.id, want |-> w]))
                ELSE LET d == Verdict(Deviating(e), e.msg)
                     IN IF d = "uns" \/ (e.c.lang = "json" /\ WantsError(e.c) /\ Ran(Deviating(e)).ok = "err") THEN \* msg is that of the JSON script
                           PrintT(ToJson([uns |-> e.id]))
                        ELSE IF d = e.v THEN PrintT(ToJson([bad |-> e.id, want |-> w, known |-> Finding(e)]))
                        ELSE PrintT(ToJson([bad |-> e.id, want |-> w]))
Spec == Init /\ [][Step]_<<l, j>>
Complete == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
