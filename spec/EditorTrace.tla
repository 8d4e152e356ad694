----------------------------- MODULE EditorTrace -----------------------------
(***************************************************************************)
(* Traces of the real editor checked against the editing machine.  Every   *)
(* line of the trace file is one run: an initial text and its steps, each  *)
(* an expression with the logged outcome: ok/err/panic/hang, the value,    *)
(* point, mark and (if it changed) the text.  Every logged step must be    *)
(* the step that Eval allows in the state logged before it; the last match *)
(* is not logged, TLC carries it along.  A step that is not allowed is     *)
(* printed, and checking goes on from the logged state, in which the last  *)
(* match is unknown.                                                       *)
(***************************************************************************)
EXTENDS Editor, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, j, s
vars == <<l, j, s>>
View == <<l, j>>

Unknown == [x |-> <<>>, s |-> -1, e |-> -1]
LoggedText(e) == IF e.c = 1 THEN e.t ELSE s.t

Init == l \in 1..Len(Trace) /\ j = 0 /\ s = NewState(Trace[l].t)

\* The commands of which the outcome depends on the last match.
RECURSIVE Mentions(_, _)
Mentions(x, names) == x.k = "l" /\ \E i \in 1..Len(x.v) :
                        \/ i = 1 /\ x.v[i].k = "y" /\ x.v[i].v \in names
                        \/ Mentions(x.v[i], names)
ReplaceMatchName == {BytesOf["replace-match"]}
SearchNames == {BytesOf[f] : f \in {"search-forward", "search-backward", "re-search-forward", "re-search-backward"}}

Allowed(e, r) ==
  \/ r.ok = "uns" /\ e.ok \in {"ok", "err"}
     /\ e.p \in 1..(Len(LoggedText(e)) + 1) /\ e.k \in 1..(Len(LoggedText(e)) + 1)
  \/ /\ r.ok = e.ok
     /\ r.s.p = e.p /\ r.s.k = e.k
     /\ IF e.c = 1 THEN r.s.t = e.t ELSE r.s.t = s.t
     /\ e.ok = "ok" => VEq(r.v, e.v)

Step ==
  /\ j < Len(Trace[l].y)
  /\ LET e == Trace[l].y[j + 1]
         unk == s.m.s = -1 /\ Mentions(e.x, ReplaceMatchName)
         r == IF unk THEN Unspec(s) ELSE Eval(s, e.x)
         good == Allowed(e, r)
         m == IF r.ok = "uns" \/ ~good
              THEN (IF good /\ ~Mentions(e.x, SearchNames) THEN s.m ELSE Unknown)
              ELSE r.s.m
     IN /\ IF good THEN TRUE
           ELSE PrintT(ToJson([bad |-> Trace[l].id, step |-> j + 1, want |-> [ok |-> r.ok, t |-> r.s.t, p |-> r.s.p, k |-> r.s.k, v |-> r.v]]))
        /\ IF r.ok # "uns" THEN TRUE ELSE PrintT(ToJson([uns |-> Trace[l].id, step |-> j + 1]))
        /\ s' = [t |-> LoggedText(e), p |-> e.p, k |-> e.k, m |-> m]
  /\ j' = j + 1 /\ l' = l

Spec == Init /\ [][Step]_vars

\* Nothing was skipped: one state per step and one per run.
Expected == FoldLeft(LAMBDA n, x : n + Len(x.y) + 1, 0, Trace)
Complete == TLCGet("stats").distinct = Expected
=============================================================================
