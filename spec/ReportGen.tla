------------------------------ MODULE ReportGen -----------------------------
(* Every report on short lists of test cases; and the laws of reports. *)
EXTENDS Tests, Json

CONSTANT MaxLen
Names == <<<<97,45,49,46,120,109,108>>, <<98,46,120,109,108>>, <<97,98,46,120,109,108>>>>
Pats == {<<>>, <<<<97>>>>, <<<<94,97>>>>, <<<<94,97,45,91,48,45,57,93,92,46,120,109,108,36>>, <<98>>>>, <<<<122, 122>>>>, <<<<40>>>>}
Options == [pats: Pats, quiet: BOOLEAN, failonly: BOOLEAN]
VARIABLES all, o, judged
Init == all = <<>> /\ o \in Options /\ judged = FALSE
Add == ~judged /\ Len(all) < MaxLen /\ UNCHANGED <<o, judged>>
       /\ \E i \in 1..Len(Names), v \in {"pass", "fail"} :
            /\ \A k \in 1..Len(all) : all[k].name = Names[i] => all[k].v = v        \* the same file, the same verdict
            /\ all' = Append(all, [name |-> Names[i], v |-> v])
Judge == ~judged /\ judged' = TRUE /\ UNCHANGED <<all, o>>
Spec == Init /\ [][Add \/ Judge]_<<all, o, judged>>

Laws == judged /\ Valid(o.pats) = "ok" =>
  LET r == Report(all, o)
      plain == Report(all, [pats |-> o.pats, quiet |-> FALSE, failonly |-> FALSE])
      whole == Report(all, [pats |-> <<>>, quiet |-> FALSE, failonly |-> FALSE])
  IN \* how much is shown changes neither totals nor status
     /\ r.totals = plain.totals /\ r.st = plain.st
     /\ o.quiet => r.lines = <<>>
     /\ ~o.quiet /\ o.failonly => r.lines = Failed(plain.lines)
     \* everything is reported, in order
     /\ whole.lines = all
     /\ r.totals # <<>> => r.totals[1] + r.totals[2] = r.totals[3] /\ r.totals[3] = Len(plain.lines)
     /\ (r.st = "err") <=> (Failed(plain.lines) # <<>>)
     \* what is not asked for does not matter
     /\ plain.lines = SelectSeq(all, LAMBDA c : Included(c.name, o.pats))
     /\ Report(plain.lines, o) = r
Emit == judged => PrintT(ToJson([all |-> all, o |-> o, want |-> Report(all, o)]))
=============================================================================
