---------------------------- MODULE ScriptTrace -----------------------------
(***************************************************************************)
(* Recorded uses of scripts against the specification.  Records:           *)
(*  {id, src, fmt, t, pok, pv, ok, o, vok, v, vt}                          *)
(*    pok, pv: the parser's verdict and commands; ok, o: verdict and text  *)
(*    of running the script on t; vok, v: the same run asked for its       *)
(*    value, vt: the value as printed in S-expression format               *)
(*    dok, dv: verdict and values of reading it as a single value           *)
(*    (a field is "-" where the entry point was not used)                  *)
(*  {id, src, fmt, dst, pok, o}                                            *)
(*    a conversion from fmt to dst: verdict and output                     *)
(***************************************************************************)
EXTENDS Syntax, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, j
vars == <<l, j>>


\* The value itself, and as it is printed.
Valued(e, v) == /\ e.fmt # "auto" => VEq(e.v, v)
                /\ e.fmt = "auto" \/ e.vt # <<>> => ReadsAsValue(e.vt, v)
JudgeRun(e) ==
  LET p == ParseScript(IF e.fmt = "auto" THEN Detected(e.src) ELSE e.fmt, e.src)
      r == IF p.ok # "ok" THEN [ok |-> p.ok, s |-> NewState(e.t), v |-> NoValue] ELSE RunProgram(NewState(e.t), p.v)
      d == ParseDatum(e.src)
  IN [ok |-> IF p.ok = "uns" THEN TRUE
             ELSE IF e.dok # "-" /\ d.ok # "uns" /\ ~(e.dok = d.ok /\ (d.ok = "ok" => SameProgram(e.dv, d.v))) THEN FALSE
             ELSE /\ e.pok # "-" => e.pok = p.ok /\ (p.ok = "ok" => SameProgram(e.pv, p.v))
                  /\ r.ok = "uns" \/ ((e.ok # "-" => e.ok = r.ok /\ (r.ok = "ok" => e.o = r.s.t))
                                      /\ (e.vok # "-" => e.vok = r.ok /\ (r.ok = "ok" => Valued(e, r.v)))),
      uns |-> p.ok = "uns" \/ r.ok = "uns",
      want |-> [parse |-> p, datum |-> d, ok |-> r.ok, t |-> r.s.t, v |-> r.v]]

\* A number with more digits than this specification reads is taken on trust.
Means(fmt, o, prog) == ReadsAs(fmt, o, prog) \/ (ParseScript(fmt, o).ok = "uns" /\ ValidUtf8(o))

\* Either answer is right for an empty list in shell syntax.
JudgeConversion(e) ==
  LET p == ParseScript(e.fmt, e.src)
      loose == e.dst = "shell" /\ \E i \in 1..Len(p.v) : p.v[i] = Lst(<<>>)
      can == Expressible(e.dst, p.v) /\ ~(e.dst = "shell" /\ Nested(p.v))
  IN [ok |-> CASE e.dst \notin Formats -> e.pok = "err" /\ e.o = <<>>
               [] p.ok = "uns" -> TRUE
               [] p.ok = "err" -> e.pok = "err" /\ e.o = <<>>
               [] OTHER -> IF e.pok = "ok" THEN Means(e.dst, e.o, p.v) /\ (can \/ loose) ELSE e.o = <<>> /\ (~can \/ loose),
      uns |-> p.ok = "uns",
      want |-> [parse |-> p, ok |-> IF p.ok = "ok" /\ can THEN "ok" ELSE "err", t |-> <<>>, v |-> NoValue]]

Init == l \in 1..Len(Trace) /\ j = 0
Step == /\ j = 0 /\ j' = 1 /\ l' = l
        /\ LET e == Trace[l]
               r == IF "dst" \in DOMAIN e THEN JudgeConversion(e) ELSE JudgeRun(e)
           IN /\ IF r.ok THEN TRUE ELSE PrintT(ToJson([bad |-> e.id, want |-> r.want]))
              /\ IF r.uns THEN PrintT(ToJson([uns |-> e.id])) ELSE TRUE
Spec == Init /\ [][Step]_vars
Complete == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
