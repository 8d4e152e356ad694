----------------------------- MODULE LoopSteps ------------------------------
(* Looping until an error, one step per round, for recorded calls {id, fs, real, ops: <<the call>>};
   for loops that are too long to be judged as one value (see Rounds). *)
EXTENDS FilesJudge, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, n, fs, done
vars == <<l, n, fs, done>>
Init == l \in 1..Len(Trace) /\ n = 0 /\ fs = Trace[l].fs /\ done = FALSE
Round == /\ ~done /\ n' = n + 1 /\ l' = l
         /\ LET e == Trace[l] o == e.ops[1]
                r == EditFiles(fs, o.ns, Detected(o.src), o.src)
            IN /\ fs' = r.fs
               /\ done' = (~AllGood(r.v) \/ n' > o.max)
               /\ IF done' THEN
                    IF /\ SameFs(o.obs.fs, r.fs) /\ o.obs.n = n' /\ ~o.obs.all
                       /\ SameBag(o.obs.good, Named(o.ns, r.v, "ok")) /\ SameBag(o.obs.bad, Named(o.ns, r.v, "err"))
                    THEN TRUE ELSE PrintT(ToJson([bad |-> e.id, step |-> 1, want |-> [n |-> n', v |-> r.v, fs |-> r.fs]]))
                  ELSE TRUE
Stay == done /\ UNCHANGED vars
Spec == Init /\ [][Round \/ Stay]_vars
=============================================================================
