------------------------------ MODULE ExprGen -------------------------------
(***************************************************************************)
(* Every short list of expressions on every short list of small files,     *)
(* with what evaluating them prints; and the laws of evaluating.           *)
(***************************************************************************)
EXTENDS Tool, Json

CONSTANTS MaxEs, MaxNs

\* insert "x"
EInsert == <<105,110,115,101,114,116,32,34,120,34>>
\* (point)
EWhere == <<40,112,111,105,110,116,41>>
\* search-forward "b"
EFind == <<115,101,97,114,99,104,45,102,111,114,119,97,114,100,32,34,98,34>>
\* replace-match "cc"
EReplace == <<114,101,112,108,97,99,101,45,109,97,116,99,104,32,34,99,99,34>>
\* forward-char; point
ETwo == <<102,111,114,119,97,114,100,45,99,104,97,114,59,32,112,111,105,110,116>>
\* (point
EOpen == <<40,112,111,105,110,116>>
\* insert "y"; no-such
EFail == <<105,110,115,101,114,116,32,34,121,34,59,32,110,111,45,115,117,99,104>>
\* (buffer-substring 1 9)
EAll == <<40,98,117,102,102,101,114,45,115,117,98,115,116,114,105,110,103,32,49,32,57,41>>
\* (set-mark 2)
EMark == <<40,115,101,116,45,109,97,114,107,32,50,41>>
\* region-end
ERegion == <<114,101,103,105,111,110,45,101,110,100>>
Exprs == <<EInsert, EWhere, EFind, EReplace, ETwo, EOpen, EFail, EAll, EMark, ERegion>>
Worlds == {[a |-> x, b |-> y] : x \in {File(<<97, 98, 98>>), File(<<>>), Unreadable(<<98>>)}, y \in {ReadOnly(<<98, 10>>), Nothing}}
Input == <<98, 97>>

VARIABLES fs, ns, es, of, judged
vars == <<fs, ns, es, of, judged>>
Init == fs \in Worlds /\ ns = <<>> /\ es = <<>> /\ of \in Formats /\ judged = FALSE
\* The files are chosen first.
Name == ~judged /\ es = <<>> /\ Len(ns) < MaxNs /\ \E n \in {"a", "b"} : ns' = Append(ns, n) /\ UNCHANGED <<fs, es, of, judged>>
Add == ~judged /\ Len(es) < MaxEs /\ \E i \in 1..Len(Exprs) : es' = Append(es, Exprs[i]) /\ UNCHANGED <<fs, ns, of, judged>>
Judge == ~judged /\ es # <<>> /\ judged' = TRUE /\ UNCHANGED <<fs, ns, es, of>>
Spec == Init /\ [][Name \/ Add \/ Judge]_vars

Evaluate(n, e) == [k |-> "cli", ns |-> n, fmt |-> "shell", via |-> "e", src |-> <<>>, sf |-> "", es |-> e, inplace |-> FALSE, dry |-> FALSE,
               quiet |-> FALSE, verbose |-> FALSE, sfx |-> "", out |-> "", inp |-> Input, torn |-> FALSE, jam |-> FALSE, ofmt |-> of]
The(n, e) == CHOOSE r \in Cli(fs, Evaluate(n, e)) : TRUE
Plain(r) == SelectSeq(r.items, LAMBDA i : i.h = "")

Laws == judged =>
  LET r == The(ns, es) files == IF ns = <<>> THEN 1 ELSE Len(ns) IN
  \* exactly one outcome, nothing is modified
  /\ Cardinality(Cli(fs, Evaluate(ns, es))) = 1 /\ r.fs = fs
  \* one value per expression and file, or fewer and a failure
  /\ IF r.st = "ok" THEN Len(Plain(r)) = Len(es) * files ELSE Len(Plain(r)) < Len(es) * files
  \* a file is named exactly if there are several
  /\ (Len(r.items) > Len(Plain(r))) => Len(ns) > 1
  \* with fewer expressions or fewer files nothing else comes out
  /\ Len(es) > 1 /\ Len(ns) < 2 =>
       LET q == The(ns, SubSeq(es, 1, Len(es) - 1)) IN
       /\ Len(q.items) <= Len(r.items) /\ SubSeq(r.items, 1, Len(q.items)) = q.items
       /\ q.st = "err" => (r.st = "err" /\ r.items = q.items)
  \* every file starts afresh: the values for the last file are those it gets alone
  /\ Len(ns) > 1 /\ r.st = "ok" =>
       SubSeq(r.items, Len(r.items) - Len(es) + 1, Len(r.items)) = The(<<ns[Len(ns)]>>, es).items
Emit == judged => PrintT(ToJson([fs |-> fs, ns |-> ns, es |-> es, ofmt |-> of, want |-> The(ns, es)]))
=============================================================================
