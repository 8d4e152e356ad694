------------------------------ MODULE TestsGen ------------------------------
(***************************************************************************)
(* Every combination of a few texts, scripts and expectations, with its    *)
(* verdict; and the laws of verdicts.                                      *)
(***************************************************************************)
EXTENDS Tests, Json

CONSTANT Wide

NLs(t) == <<NL>> \o t \o <<NL>>
SInsert == <<105,110,115,101,114,116,32,34,120,34>>
SPoint == <<112,111,105,110,116>>
STwo == <<105,110,115,101,114,116,32,34,120,34,59,32,112,111,105,110,116>>
SFail == <<115,101,97,114,99,104,45,102,111,114,119,97,114,100,32,34,113,34>>
SLate == <<105,110,115,101,114,116,32,34,120,34,59,32,115,101,97,114,99,104,45,102,111,114,119,97,114,100,32,34,113,34>>
SOpen == <<105,110,115,101,114,116,32,34,120>>
SJson == <<91,91,34,105,110,115,101,114,116,34,44,34,120,34,93,44,91,34,112,111,105,110,116,34,93,93>>
Sources == {<<>>, NLs(SInsert), SPoint, NLs(STwo), SFail, SLate, SOpen} \cup (IF Wide THEN {SInsert, NLs(SFail), <<32>>, NLs(SPoint)} ELSE {})
Outs == {<<>>, <<97>>, <<120, 97>>, <<120>>} \cup (IF Wide THEN {<<120, 97, NL>>, <<32>>} ELSE {})
Ress == {<<>>, <<49>>, <<NL, 50, 32>>, <<34, 120, 34>>, <<110, 105, 108>>, <<NL, 32>>, <<49, 46, 53>>} \cup (IF Wide THEN {<<49, 32, 49>>, <<49, 46, 48>>, <<34, 49, 34>>, <<120>>} ELSE {})
MFound == <<115,101,97,114,99,104,32,102,97,105,108,101,100>>
MInsert == <<105,110,115,116,114,117,99,116,105,111,110,32,49>>
Errs == {<<>>, <<NL, 32>>, MFound, <<OPEN>> \o MFound \o <<CLOSE>>, MInsert, <<110, 111, 112, 101>>} \cup (IF Wide THEN {NLs(MFound), Down(MFound) \o <<33>>} ELSE {})
\* The only error in these scripts (as documented: what failed, the index, the instruction, point and mark).
Message(c) == <<115,101,97,114,99,104,32,102,97,105,108,101,100,32,40,97,116,32,105,110,115,116,114,117,99,116,105,111,110,32>>
  \o (IF c.src = SLate THEN <<49>> ELSE <<48>>)
  \o <<58,32,40,115,101,97,114,99,104,45,102,111,114,119,97,114,100,32,34,113,34,41,44,32,112,111,105,110,116,61>>
  \o (IF c.src = SLate THEN Decimal(Len(<<120>>) + 1) ELSE <<49>>) \o <<44,32,109,97,114,107,61,49,41>>

Cases == [wf: BOOLEAN, buf: {<<>>, <<97>>}, src: Sources, lang: {"shell"}, out: Outs, res: Ress, rlang: {"sexp"}, err: Errs]
         \cup [wf: {TRUE}, buf: {<<97>>}, src: {SJson, SInsert}, lang: {"json"}, out: {<<>>, <<120, 97>>}, res: {<<>>, <<50>>}, rlang: {""}, err: {<<>>, <<110, 111, 112, 101>>}]

VARIABLES c, judged
Init == c \in Cases /\ judged = FALSE
Judge == ~judged /\ judged' = TRUE /\ UNCHANGED c
Spec == Init /\ [][Judge]_<<c, judged>>

V(x) == Verdict(x, Message(x))
Laws == judged =>
  LET noOut == [c EXCEPT !.out = <<>>]
      noRes == [c EXCEPT !.res = <<>>]
      noErr == [c EXCEPT !.err = <<>>]
      none == [noOut EXCEPT !.res = <<>>, !.err = <<>>]
  IN /\ V(c) \in {"pass", "fail", "uns"}
     \* nothing expected, nothing passed
     /\ V(none) \in {"fail", "uns"}
     \* two expectations hold exactly if each of them does
     /\ WantsText(c) /\ WantsValue(c) /\ ~WantsError(c) /\ V(c) # "uns" =>
          (V(c) = "pass" <=> (V(noRes) = "pass" /\ V(noOut) = "pass"))
     \* the same script cannot pass with and without an expected error
     /\ WantsError(c) /\ V(c) = "pass" => V(noErr) # "pass"
     /\ V(c) = "pass" => Ran(c).ok = IF WantsError(c) THEN "err" ELSE "ok"
     /\ ~c.wf => V(c) = "fail"
     \* every script that runs passes with its own text
     /\ c.wf /\ Ran(c).ok = "ok" /\ Ran(c).t # <<>> => V([none EXCEPT !.out = Ran(c).t]) = "pass"
Emit == judged => PrintT(ToJson([c |-> c, v |-> V(c)]))
=============================================================================
