------------------------------- MODULE Tests --------------------------------
(***************************************************************************)
(* The runner of test cases.  A test case is                               *)
(*   [wf: is it well-formed?  buf: the text, src: the script, lang: its    *)
(*    syntax, out: the expected text, res: the expected value (in          *)
(*    S-expression syntax), rlang, err: the expected error]                *)
(* where an empty out and a blank res or err state nothing.                *)
(* An expected value in another syntax is outside of this specification.   *)
(***************************************************************************)
EXTENDS Syntax

Trimmed(t) == LET i == TrimL(t, 1, Len(t)) IN SubSeq(t, i, TrimR(t, i, Len(t)))
Blank(t) == TrimL(t, 1, Len(t)) > Len(t)

IsParen(b) == b = OPEN \/ b = CLOSE
\* An error may be written as a list.
Unwrapped(t) ==
  LET i == FirstIn(t, 1, Len(t), LAMBDA b : ~IsParen(b))
  IN IF i = 0 THEN <<>> ELSE SubSeq(t, i, LastIn(t, 1, Len(t), LAMBDA b : ~IsParen(b)))
HasText(t, x) == \E i \in 1..(Len(t) - Len(x) + 1) : SubSeq(t, i, i + Len(x) - 1) = x

\* Running the script of the case: [ok, t, v, n]
Ran(c) ==
  LET p == ParseScript(IF c.lang = "json" THEN "json" ELSE "shell", Trimmed(c.src)) IN
  IF p.ok # "ok" THEN [ok |-> IF p.ok = "err" THEN "malformed" ELSE "uns", t |-> c.buf, v |-> NoValue, n |-> 0]
  ELSE LET r == RunProgram(NewState(c.buf), p.v) IN [ok |-> r.ok, t |-> r.s.t, v |-> r.v, n |-> Len(p.v)]

WantsError(c) == ~Blank(c.err)
WantsText(c) == c.out # <<>>
WantsValue(c) == ~Blank(c.res)
ErrorFits(c, msg) == HasText(msg, Unwrapped(Trimmed(c.err)))
\* "yes", "no" or "uns"
ValueFits(c, r) ==
  LET t == Trimmed(c.res)
      p == ReadElems(t, 1, Len(t), FALSE, <<>>)
  IN IF c.rlang \notin {"", "sexp"} \/ p.ok = "uns" THEN "uns"
     ELSE IF p.ok = "ok" /\ Len(p.v) = 1 /\ VEq(p.v[1], r.v) THEN "yes" ELSE "no"

\* msg: the message of the error, if the script fails.
Verdict(c, msg) ==
  IF ~c.wf THEN "fail"
  ELSE LET r == Ran(c) IN
    IF r.ok = "uns" THEN "uns"
    ELSE IF r.ok = "malformed" THEN "fail"
    ELSE IF WantsError(c) THEN (IF r.ok = "err" /\ ErrorFits(c, msg) THEN "pass" ELSE "fail")
    ELSE IF r.ok = "err" \/ ~(WantsText(c) \/ WantsValue(c)) THEN "fail"
    ELSE IF WantsText(c) /\ c.out # r.t THEN "fail"
    ELSE IF ~WantsValue(c) THEN "pass"
    ELSE CASE ValueFits(c, r) = "yes" -> "pass" [] ValueFits(c, r) = "no" -> "fail" [] OTHER -> "uns"

(***************************************************************************)
(* The command: names is the list of files, verdicts what became of each.  *)
(* Every case is run, in order; the report shows the cases asked for.      *)
(***************************************************************************)
\* Is the name one of those asked for?  (No pattern: all are.)
Included(name, pats) == pats = <<>> \/ \E i \in 1..Len(pats) : Find(Compile(pats[i]), name, 1).s > 0
Valid(pats) == LET os == {Compile(pats[i]).ok : i \in 1..Len(pats)} IN IF "uns" \in os \/ ("bad" \in os /\ Len(pats) > 1) THEN "uns" ELSE IF "bad" \in os THEN "bad" ELSE "ok"
Passed(s) == SelectSeq(s, LAMBDA c : c.v = "pass")
Failed(s) == SelectSeq(s, LAMBDA c : c.v # "pass")

\* all: the sequence of [name, v: "pass" or "fail"]; o: [pats, quiet, failonly].
\* No totals if there is nothing to run.
Report(all, o) ==
  IF Valid(o.pats) # "ok" /\ all # <<>> THEN [lines |-> <<>>, totals |-> <<>>, st |-> IF Valid(o.pats) = "bad" THEN "err" ELSE "uns"]
  ELSE
  LET run == SelectSeq(all, LAMBDA c : Included(c.name, o.pats))
      p == Len(Passed(run))
      f == Len(Failed(run))
  IN [lines |-> IF o.quiet THEN <<>> ELSE IF o.failonly THEN Failed(run) ELSE run,
      totals |-> IF run = <<>> THEN <<>> ELSE <<p, f, Len(run)>>,
      st |-> IF f = 0 THEN "ok" ELSE "err"]
=============================================================================
