----------------------------- MODULE RunsTrace ------------------------------
(***************************************************************************)
(* Recorded schedules against the specification: {id, runs: [t, p], sched: *)
(* the run that moved, step by step, obs: after each step the states of    *)
(* all buffers, res: of each run [ok, v, s: the final state, n: the        *)
(* instructions done, m: the last match at an error]}.                     *)
(* Runs that were not driven step by step have an empty schedule.          *)
(***************************************************************************)
EXTENDS Runs, Json, IOUtils

Load == ndJsonDeserialize(IOEnv.TRACE)
ASSUME TLCSet(1, Load)
Trace == TLCGet(1)

Moves(s, j, i) == Cardinality({k \in 1..j : s[k] = i})
Judge(e) ==
  LET N == Len(e.runs)
      o == [i \in 1..N |-> Alone(e.runs[i])]
  IN [uns |-> {i \in 1..N : o[i].ok = "uns"}, want |-> o,
      bad |-> {i \in 1..N : o[i].ok # "uns" /\
                 ~(/\ e.res[i].ok = o[i].ok /\ e.res[i].n = o[i].n /\ e.res[i].s = o[i].s
                   /\ IF o[i].ok = "ok" THEN VEq(e.res[i].v, o[i].v) ELSE e.res[i].m = o[i].m
                   /\ \A j \in 1..Len(e.sched) : e.obs[j][i] = AloneAfter(e.runs[i], o[i], Moves(e.sched, j, i)))}]

VARIABLES l, j
Init == l \in 1..Len(Trace) /\ j = 0
Step == /\ j = 0 /\ j' = 1 /\ l' = l
        /\ LET e == Trace[l] r == Judge(e) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT(ToJson([bad |-> e.id, runs |-> r.bad, want |-> r.want]))
           /\ IF r.uns = {} THEN TRUE ELSE PrintT(ToJson([uns |-> e.id, n |-> Cardinality(r.uns)]))
Spec == Init /\ [][Step]_<<l, j>>
Complete == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
