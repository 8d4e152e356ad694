----------------------------- MODULE SyntaxGen ------------------------------
(***************************************************************************)
(* Every source that is a sequence of up to MaxLen lexemes, with what it   *)
(* means; and the laws of the syntax on each of them.                      *)
(***************************************************************************)
EXTENDS Syntax, Json

CONSTANTS Fmt, MaxLen, Wide, Strings

Insert == <<105, 110, 115, 101, 114, 116>>
QX == <<QUOTE, 120, QUOTE>>
LineLexemes ==
  << Insert, QX, <<QUOTE>>, <<BSL>>, <<OPEN>>, <<CLOSE>>, <<32>>, <<SEMI>>, <<NL>>, <<50>> >>
  \o IF Wide THEN << <<45>>, <<13, NL>>, <<110>>, <<194, 160>>, <<46, 53>>, <<101>> >> ELSE <<>>
\* "[", "]", ",", "insert", "x", a lone quote, 2, a space, null
JsonLexemes ==
  << <<91>>, <<93>>, <<44>>, <<QUOTE>> \o Insert \o <<QUOTE>>, QX, <<QUOTE>>, <<50>>, <<32>>, <<110, 117, 108, 108>> >>
  \o IF Wide THEN << <<123>>, <<125>>, <<58>>, <<BSL, 110>>, <<46, 53>>, <<45>>, <<101>>, <<NL>>, <<48>> >> ELSE <<>>
\* Where string literals end: quotes, backslashes, semicolons and letters behind a command name
StringLexemes == << <<QUOTE>>, <<BSL>>, <<SEMI>>, <<120>> >> \o IF Wide THEN << <<CLOSE>> >> ELSE <<>>
Lexemes == IF Strings THEN StringLexemes ELSE IF Fmt = "json" THEN JsonLexemes ELSE LineLexemes
Prefix == IF Strings THEN Insert \o <<32>> ELSE <<>>

VARIABLES lx, judged
vars == <<lx, judged>>
Init == lx = <<>> /\ judged = FALSE
Extend == ~judged /\ Len(lx) < MaxLen /\ \E i \in 1..Len(Lexemes) : lx' = Append(lx, i) /\ UNCHANGED judged
Judge == ~judged /\ judged' = TRUE /\ UNCHANGED lx
Next == Extend \/ Judge
Spec == Init /\ [][Next]_vars

src == Prefix \o ConcatAll([i \in 1..Len(lx) |-> Lexemes[lx[i]]])

(***************************************************************************)
(* Laws.                                                                   *)
(***************************************************************************)
SyntaxLaws ==
  LET p == ParseScript(Fmt, src) IN
  /\ p.ok = "err" => p.v = <<>>
  /\ p.ok = "ok" =>
       /\ \A i \in 1..Len(p.v) : p.v[i].k = "l"
       \* a script reads the same in its own syntax when it is written down
       /\ Fmt # "json" => Expressible("sexp", p.v)
       /\ Fmt = "json" => Expressible("json", p.v) \/ p.v = <<Lst(<<>>)>>     \* [] is no command at all
       \* the syntaxes mean the same: what one expresses and another can express has one outcome
       /\ \A f \in Formats : Expressible(f, p.v) => RunScript(f, WriteScript(f, p.v, <<NL>>), <<97>>) = RunScript(Fmt, src, <<97>>)
       \* layout has no meaning
       /\ Fmt # "json" => /\ ReadsAs(Fmt, <<32, NL, 9>> \o src \o <<NL, 13, NL>>, p.v)
                          /\ ReadsAs("sexp", WriteScript("sexp", p.v, <<SEMI>>), p.v)
       /\ Fmt = "json" => ReadsAs(Fmt, <<NL, 32>> \o src \o <<9>>, p.v)
  \* a list alone is one command, and one value
  /\ LET d == ParseDatum(src) IN
     src # <<>> /\ src[1] = OPEN /\ Fmt # "json" /\ (\A i \in 1..Len(src) : src[i] \notin {NL, SEMI}) => d = p
  \* an error stays an error, whatever stands around it
  /\ p.ok = "err" /\ Fmt # "json" => /\ ParseScript(Fmt, Insert \o <<32>> \o QX \o <<NL>> \o src).ok = "err"
                                     /\ ParseScript(Fmt, src \o <<NL>> \o Insert \o <<32>> \o QX).ok = "err"
Laws == judged => SyntaxLaws
Emit == judged => LET p == ParseScript(Fmt, src) r == RunScript(Fmt, src, <<97>>) d == ParseDatum(src)
                  IN PrintT(ToJson([src |-> src, pok |-> p.ok, pv |-> p.v, ok |-> r.ok, o |-> r.t, v |-> r.v, dok |-> d.ok, dv |-> d.v]))
=============================================================================
