---------------------------- MODULE SessionTrace -----------------------------
(***************************************************************************)
(* Recorded sessions {id, fs, real, pipe, ops, end} against the            *)
(* specification.  Where the client waited for every answer, the files     *)
(* were seen after every call; where it did not (pipe), they were seen at  *)
(* the end only, and what lies between is the specification's.             *)
(* A call of kind "doc" has with it the answer that it gets alone.         *)
(***************************************************************************)
EXTENDS FilesJudge, Server, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, j, fs, lost
vars == <<l, j, fs, lost>>

Init == l \in 1..Len(Trace) /\ j = 0 /\ fs = Trace[l].fs /\ lost = FALSE
\* What the specification says of the files, where they were not seen.
Expected(e, o) == [o EXCEPT !.obs = [fs |-> Serve(fs, o).fs] @@ @]
Judge(e, o) ==
  IF o.k = "doc" THEN Judged(o.obs.st = o.alone.st /\ o.obs.out = o.alone.out /\ SameFs(o.obs.fs, fs), FALSE, o.alone)
  ELSE IF o.k = "eval" /\ e.stdio /\ o.obs.st = "ok" /\ LET r == Serve(fs, o) IN r.st = "ok" /\ "t" \in DOMAIN r.ans /\ ~ValidUtf8(r.ans.t)
       THEN Judged(TRUE, TRUE, <<>>)     \* JSON cannot carry it
  ELSE JudgeOp(e, fs, o)
Step == /\ j < Len(Trace[l].ops) /\ j' = j + 1 /\ l' = l
        /\ LET e == Trace[l] o0 == e.ops[j + 1] IN
           IF lost THEN UNCHANGED <<fs, lost>>
           ELSE LET o == IF e.pipe THEN Expected(e, o0) ELSE o0
                    r == Judge(e, o)
                IN /\ fs' = Known(e.fs, o.obs.fs)
                   /\ lost' = (e.pipe /\ (r.uns \/ ~r.ok))
                   /\ IF r.ok THEN TRUE ELSE PrintT(ToJson([bad |-> e.id, step |-> j + 1, want |-> r.want]))
                   /\ IF r.uns THEN PrintT(ToJson([uns |-> e.id])) ELSE TRUE
End == /\ j = Len(Trace[l].ops) /\ j' = j + 1 /\ UNCHANGED <<l, fs, lost>>
       /\ LET e == Trace[l] IN
          IF lost \/ SameFs(fs, e.end) THEN TRUE ELSE PrintT(ToJson([bad |-> e.id, step |-> j + 1, want |-> fs]))
Spec == Init /\ [][Step \/ End]_vars
Complete == TLCGet("stats").distinct = FoldLeft(LAMBDA n, e : n + 2 + Len(e.ops), 0, Trace)
=============================================================================
