-------------------------------- MODULE Rx --------------------------------
(***************************************************************************)
(* Regular expressions: a parser from pattern bytes to syntax trees, and   *)
(* matching with Perl-like leftmost-first semantics, defined by the        *)
(* ordered list of all the ways in which a tree can match at a position.   *)
(*                                                                         *)
(* Compile(r).ok is "ok", "bad" (a pattern the implementation must reject) *)
(* or "uns" (a construct outside of this specification).                   *)
(***************************************************************************)
EXTENDS Bytes

BAR == 124  LP == 40  RP == 41  LB == 91  RB == 93  LC == 123  RC == 125
STAR == 42  PLUS == 43  QM == 63  BSL == 92  CARET == 94  DOLLAR == 36  DOT == 46
DASH == 45  COMMA == 44

IsDigit(b) == b >= 48 /\ b <= 57
IsAlpha(b) == (b >= 97 /\ b <= 122) \/ (b >= 65 /\ b <= 90)
IsPunct(b) == (b >= 33 /\ b <= 47) \/ (b >= 58 /\ b <= 64) \/ (b >= 91 /\ b <= 96) \/ (b >= 123 /\ b <= 126)

DigitR == << <<48, 57>> >>
WordR  == << <<48, 57>>, <<65, 90>>, <<95, 95>>, <<97, 122>> >>
SpaceR == << <<9, 10>>, <<12, 13>>, <<32, 32>> >>

Char(r, i) == IF i >= 1 /\ i <= Len(r) THEN r[i] ELSE -1

MaxRune == 1114111
\* Everything outside of some ordered ranges.
OtherRunes(rs) ==
  LET f == FoldLeft(LAMBDA a, x : IF x[1] > a.from THEN [from |-> x[2] + 1, out |-> Append(a.out, <<a.from, x[1] - 1>>)]
                                  ELSE [a EXCEPT !.from = x[2] + 1],
                    [from |-> 0, out |-> <<>>], rs)
  IN Append(f.out, <<f.from, MaxRune>>)
\* The two characters outside of ASCII which are the same as an ASCII letter but for case: long s and the Kelvin sign.
LongS == 383
Kelvin == 8490
WordFR == << <<48, 57>>, <<65, 90>>, <<95, 95>>, <<97, 122>>, <<LongS, LongS>>, <<Kelvin, Kelvin>> >>

\* The classes with a name, as in [[:alpha:]].
NamedClass(name) ==
  CASE name = <<97, 108, 110, 117, 109>>      -> << <<48, 57>>, <<65, 90>>, <<97, 122>> >>             \* alnum
    [] name = <<97, 108, 112, 104, 97>>       -> << <<65, 90>>, <<97, 122>> >>                         \* alpha
    [] name = <<97, 115, 99, 105, 105>>       -> << <<0, 127>> >>                                      \* ascii
    [] name = <<98, 108, 97, 110, 107>>       -> << <<9, 9>>, <<32, 32>> >>                            \* blank
    [] name = <<99, 110, 116, 114, 108>>      -> << <<0, 31>>, <<127, 127>> >>                         \* cntrl
    [] name = <<100, 105, 103, 105, 116>>     -> DigitR                                                \* digit
    [] name = <<103, 114, 97, 112, 104>>      -> << <<33, 126>> >>                                     \* graph
    [] name = <<108, 111, 119, 101, 114>>     -> << <<97, 122>> >>                                     \* lower
    [] name = <<112, 114, 105, 110, 116>>     -> << <<32, 126>> >>                                     \* print
    [] name = <<112, 117, 110, 99, 116>>      -> << <<33, 47>>, <<58, 64>>, <<91, 96>>, <<123, 126>> >> \* punct
    [] name = <<115, 112, 97, 99, 101>>       -> << <<9, 13>>, <<32, 32>> >>                           \* space
    [] name = <<117, 112, 112, 101, 114>>     -> << <<65, 90>> >>                                      \* upper
    [] name = <<119, 111, 114, 100>>          -> WordR                                                 \* word
    [] name = <<120, 100, 105, 103, 105, 116>> -> << <<48, 57>>, <<65, 70>>, <<97, 102>> >>            \* xdigit
    [] OTHER -> <<>>

\* A result of parsing: tree, next position, groups so far, "ok", "bad" or "uns", and the flags from there on.
Res(n, i, g, ok) == [n |-> n, i |-> i, g |-> g, ok |-> ok, fl |-> {}]
Emp == <<"emp">>
Bad(i, g) == Res(Emp, i, g, "bad")
Uns(i, g) == Res(Emp, i, g, "uns")

\* Set nodes: <<"set", negated, ranges, fold-case>>
Lit(fl, bs) ==
  IF "i" \in fl /\ Len(bs) = 1 /\ IsAlpha(bs[1])
  THEN <<"set", FALSE, << <<bs[1], bs[1]>> >>, TRUE>>
  ELSE <<"lit", bs>>
\* Characters which this specification does not follow: with case folding those outside of ASCII; the replacement character
\* (which text that is not UTF-8 may count as), half pairs, and numbers that are no character.
Strange(fl, c) == ("i" \in fl /\ c >= 128) \/ c = 65533 \/ (c >= 55296 /\ c <= 57343)
LitRes(fl, c, i, g) == IF Strange(fl, c) THEN Uns(i, g) ELSE Res(Lit(fl, Utf8(c)), i, g, "ok")

IsOct(b) == b >= 48 /\ b <= 55
HexOf(b) == IF b >= 48 /\ b <= 57 THEN b - 48 ELSE IF b >= 97 /\ b <= 102 THEN b - 87 ELSE IF b >= 65 /\ b <= 70 THEN b - 55 ELSE -1

\* The value of hexadecimal digits from i to the closing brace: [ok, v, i].
RECURSIVE Braced(_, _, _, _)
Braced(r, i, v, any) ==
  LET c == Char(r, i) IN
  IF c = RC THEN [ok |-> any, v |-> v, i |-> i + 1]
  ELSE IF HexOf(c) = -1 \/ v * 16 + HexOf(c) > MaxRune THEN [ok |-> FALSE, v |-> 0, i |-> i]
  ELSE Braced(r, i + 1, v * 16 + HexOf(c), TRUE)

\* An escape that stands for one character, r[i] is the character after the backslash: [ok, v, i].
OneEscape(r, i) ==
  LET c == Char(r, i)
      is(v, j) == [ok |-> TRUE, v |-> v, i |-> j]
      no == [ok |-> FALSE, v |-> 0, i |-> i]
  IN CASE c = 97  -> is(7, i + 1)
       [] c = 102 -> is(12, i + 1)
       [] c = 110 -> is(10, i + 1)
       [] c = 114 -> is(13, i + 1)
       [] c = 116 -> is(9, i + 1)
       [] c = 118 -> is(11, i + 1)
       [] c = 120 -> IF Char(r, i + 1) = LC THEN Braced(r, i + 2, 0, FALSE)
                     ELSE IF HexOf(Char(r, i + 1)) = -1 \/ HexOf(Char(r, i + 2)) = -1 THEN no
                     ELSE is(HexOf(r[i + 1]) * 16 + HexOf(r[i + 2]), i + 3)
       [] IsOct(c) -> IF ~IsOct(Char(r, i + 1)) THEN (IF c = 48 THEN is(0, i + 1) ELSE no)
                      ELSE LET two == (c - 48) * 8 + r[i + 1] - 48
                           IN IF IsOct(Char(r, i + 2)) THEN is(two * 8 + r[i + 2] - 48, i + 3) ELSE is(two, i + 2)
       [] c >= 0 /\ c < 128 /\ ~IsAlpha(c) /\ ~IsDigit(c) -> is(c, i + 1)
       [] OTHER -> no

\* The ranges of a class escape (d, w, s and their opposites), <<>> for other letters.
PerlClass(c, fold) ==
  CASE c = 100 -> DigitR
    [] c = 68  -> OtherRunes(DigitR)
    [] c = 119 -> IF fold THEN WordFR ELSE WordR
    [] c = 87  -> OtherRunes(IF fold THEN WordFR ELSE WordR)
    [] c = 115 -> SpaceR
    [] c = 83  -> OtherRunes(SpaceR)
    [] OTHER -> <<>>

\* An escape outside of a class, r[i] is the character after the backslash.
Escape(r, i, fl, g) ==
  LET c == Char(r, i)
      pc == PerlClass(c, "i" \in fl)
      e == OneEscape(r, i)
  IN CASE c = -1  -> Bad(i, g)
       [] pc # <<>> -> Res(<<"set", FALSE, pc, FALSE>>, i + 1, g, "ok")
       [] c = 98  -> Res(<<"wb">>, i + 1, g, "ok")
       [] c = 66  -> Res(<<"nwb">>, i + 1, g, "ok")
       [] c = 65  -> Res(<<"bol">>, i + 1, g, "ok")
       [] c = 122 -> Res(<<"eol">>, i + 1, g, "ok")
       [] c \in {80, 112} -> Uns(i, g)       \* classes of Unicode
       [] ~e.ok -> Bad(i, g)
       [] OTHER -> LitRes(fl, e.v, e.i, g)

\* One class character: [i, ok, one].
ClassChar(r, i) ==
  LET c == Char(r, i) IN
  IF c = -1 THEN [i |-> i, ok |-> "bad", one |-> -1]
  ELSE IF c = BSL THEN LET e == OneEscape(r, i + 1)
                       IN [i |-> e.i, ok |-> IF ~e.ok THEN "bad" ELSE "ok", one |-> e.v]
  ELSE [i |-> i + RuneLen(r, i), ok |-> "ok", one |-> RuneAt(r, i)]

\* One class character, escape or named class: [rs: ranges, i, ok, one: the character or -1]
ClassItem(r, i, fold) ==
  LET c == Char(r, i)
      pc == IF c = BSL THEN PerlClass(Char(r, i + 1), fold) ELSE <<>>
      s == IF c = LB /\ Char(r, i + 1) = 58 THEN IndexFrom(r, <<58, RB>>, i + 2) ELSE 0
  IN IF pc # <<>> THEN [rs |-> pc, i |-> i + 2, ok |-> "ok", one |-> -1]
     ELSE IF c = BSL /\ Char(r, i + 1) \in {80, 112} THEN [rs |-> <<>>, i |-> i, ok |-> "uns", one |-> -1]
     ELSE IF s # 0
     THEN LET neg == Char(r, i + 2) = CARET
              rs == NamedClass(SubSeq(r, IF neg THEN i + 3 ELSE i + 2, s - 1))
          IN [rs |-> IF neg THEN OtherRunes(rs) ELSE rs, i |-> s + 2, one |-> -1,
              ok |-> IF rs = <<>> THEN "bad" ELSE IF neg /\ fold THEN "uns" ELSE "ok"]
     ELSE LET a == ClassChar(r, i) IN [rs |-> << <<a.one, a.one>> >>, i |-> a.i, ok |-> a.ok, one |-> a.one]

RECURSIVE ClassItems(_, _, _, _, _)
ClassItems(r, i, acc, first, fl) ==
  IF Char(r, i) = -1 THEN [rs |-> acc, i |-> i, ok |-> "bad"]
  ELSE IF Char(r, i) = RB /\ ~first THEN [rs |-> acc, i |-> i + 1, ok |-> "ok"]
  ELSE LET a == ClassItem(r, i, "i" \in fl) IN
       IF a.ok # "ok" THEN [rs |-> acc, i |-> i, ok |-> a.ok]
       ELSE IF a.one # -1 /\ Char(r, a.i) = DASH /\ Char(r, a.i + 1) \notin {RB, -1}
       THEN LET b == ClassChar(r, a.i + 1) IN
            IF b.ok # "ok" THEN [rs |-> acc, i |-> i, ok |-> b.ok]
            ELSE IF b.one < a.one THEN [rs |-> acc, i |-> i, ok |-> "bad"]
            ELSE IF "i" \in fl /\ b.one >= 128 THEN [rs |-> acc, i |-> i, ok |-> "uns"]
            ELSE ClassItems(r, b.i, Append(acc, <<a.one, b.one>>), FALSE, fl)
       ELSE IF "i" \in fl /\ a.one >= 128 THEN [rs |-> acc, i |-> i, ok |-> "uns"]
       ELSE ClassItems(r, a.i, acc \o a.rs, FALSE, fl)

Class(r, i, fl, g) ==      \* r[i] is the character after '['
  LET neg == Char(r, i) = CARET
      it  == ClassItems(r, IF neg THEN i + 1 ELSE i, <<>>, TRUE, fl)
  IN IF it.ok # "ok" THEN Res(Emp, i, g, it.ok)
     ELSE Res(<<"set", neg, it.rs, "i" \in fl>>, it.i, g, "ok")

\* Number starting at i: [v, i]; v = -1 if there is none, 1001 for anything larger than 1000.
RECURSIVE Digits(_, _, _, _)
Digits(r, i, v, any) ==
  IF Char(r, i) # -1 /\ IsDigit(r[i])
  THEN Digits(r, i + 1, IF v > 1000 THEN v ELSE v * 10 + r[i] - 48, TRUE)
  ELSE [v |-> IF any THEN Min2(v, 1001) ELSE -1, i |-> i]

\* {n}, {n,} or {n,m} at i (r[i] = '{'): [ok, lo, hi, i]
Counts(r, i) ==
  LET a == Digits(r, i + 1, 0, FALSE) IN
  IF a.v = -1 THEN [ok |-> FALSE, lo |-> 0, hi |-> 0, i |-> i]
  ELSE IF Char(r, a.i) = RC THEN [ok |-> TRUE, lo |-> a.v, hi |-> a.v, i |-> a.i + 1]
  ELSE IF Char(r, a.i) = COMMA THEN
    IF Char(r, a.i + 1) = RC THEN [ok |-> TRUE, lo |-> a.v, hi |-> -1, i |-> a.i + 2]
    ELSE LET b == Digits(r, a.i + 1, 0, FALSE) IN
         IF b.v # -1 /\ Char(r, b.i) = RC THEN [ok |-> TRUE, lo |-> a.v, hi |-> b.v, i |-> b.i + 1]
         ELSE [ok |-> FALSE, lo |-> 0, hi |-> 0, i |-> i]
  ELSE [ok |-> FALSE, lo |-> 0, hi |-> 0, i |-> i]

RECURSIVE Nullable(_)
Nullable(n) ==
  CASE n[1] \in {"lit", "any", "set"} -> FALSE
    [] n[1] = "cat" -> \A k \in 1..Len(n[2]) : Nullable(n[2][k])
    [] n[1] = "alt" -> \E k \in 1..Len(n[2]) : Nullable(n[2][k])
    [] n[1] = "rep" -> n[3] = 0 \/ Nullable(n[2])
    [] n[1] = "grp" -> Nullable(n[3])
    [] OTHER -> TRUE

\* The repetition operator at i, if any: [is, ok, lo, hi, greedy, i]
Quant(r, i) ==
  LET c == Char(r, i)
      q(lo, hi, j, ok) == [is |-> TRUE, ok |-> ok, lo |-> lo, hi |-> hi,
                           greedy |-> Char(r, j) # QM,
                           i |-> IF Char(r, j) = QM THEN j + 1 ELSE j]
      none == [is |-> FALSE, ok |-> TRUE, lo |-> 0, hi |-> 0, greedy |-> TRUE, i |-> i]
  IN CASE c = STAR -> q(0, -1, i + 1, TRUE)
       [] c = PLUS -> q(1, -1, i + 1, TRUE)
       [] c = QM   -> q(0, 1, i + 1, TRUE)
       [] c = LC   -> LET k == Counts(r, i) IN
                      IF ~k.ok THEN none
                      ELSE q(k.lo, k.hi, k.i, k.lo <= 1000 /\ k.hi <= 1000 /\ (k.hi = -1 \/ k.lo <= k.hi))
       [] OTHER -> none

\* The flags after "(?", from position i on: [ok, i, fl, open].
RECURSIVE FlagsAt(_, _, _, _, _)
FlagsAt(r, i, fl, neg, any) ==
  LET c == Char(r, i)
      f == CASE c = 105 -> "i" [] c = 109 -> "m" [] c = 115 -> "s" [] c = 85 -> "U" [] OTHER -> ""
  IN IF f # "" THEN FlagsAt(r, i + 1, IF neg THEN fl \ {f} ELSE fl \cup {f}, neg, TRUE)
     ELSE IF c = DASH /\ ~neg THEN FlagsAt(r, i + 1, fl, TRUE, FALSE)
     ELSE [ok |-> c \in {58, RP} /\ (neg => any), i |-> i + 1, fl |-> fl, open |-> c = 58]

\* How often, at most, the innermost part of a tree is repeated by counts (1001 for more than 1000).
RECURSIVE MostReps(_)
MostReps(n) ==
  CASE n[1] \in {"cat", "alt"} -> FoldLeft(LAMBDA a, x : IF MostReps(x) > a THEN MostReps(x) ELSE a, 1, n[2])
    [] n[1] = "rep" -> LET k == IF n[4] = -1 THEN n[3] ELSE n[4] IN Min2(1001, (IF k < 1 THEN 1 ELSE k) * MostReps(n[2]))
    [] n[1] = "grp" -> MostReps(n[3])
    [] OTHER -> 1

RECURSIVE ParseAlt(_, _, _, _), ParseCat(_, _, _, _, _), ParseAtom(_, _, _, _)

\* The group whose first character is r[i]; k is its number (0: it has none).
Group(r, i, fl, g, k, name) ==
  LET a == ParseAlt(r, i, fl, IF k = 0 THEN g ELSE k) IN
  IF a.ok # "ok" THEN a
  ELSE IF Char(r, a.i) # RP THEN Bad(i, g)
  ELSE Res(IF k = 0 THEN a.n ELSE <<"grp", k, a.n, name>>, a.i + 1, a.g, "ok")

\* "(?" at i.
Special(r, i, fl, g) ==
  LET p == Char(r, i + 2) = 80 /\ Char(r, i + 3) = 60 /\ Len(r) > i + 3
      named == p \/ (Char(r, i + 2) = 60 /\ Len(r) > i + 2)
      from == IF p THEN i + 4 ELSE i + 3
      e == FirstIn(r, from, Len(r), LAMBDA b : b = 62)
      f == FlagsAt(r, i + 2, fl, FALSE, FALSE)
  IN IF named
     THEN IF e <= from \/ \E k \in from..(e - 1) : ~(IsDigit(r[k]) \/ IsAlpha(r[k]) \/ r[k] = 95) THEN Bad(i, g)
          ELSE Group(r, e + 1, fl, g, g + 1, SubSeq(r, from, e - 1))
     ELSE IF ~f.ok THEN Bad(i, g)
     ELSE IF f.open THEN Group(r, f.i, f.fl, g, 0, <<>>)
     ELSE Res(<<"fl", f.fl>>, f.i, g, "ok")

\* The characters of r from i to e as they are.
RECURSIVE Verbatim(_, _, _, _, _)
Verbatim(r, i, e, fl, acc) ==
  IF i > e THEN acc
  ELSE Verbatim(r, i + RuneLen(r, i), e, fl, Append(acc, Lit(fl, SubSeq(r, i, i + RuneLen(r, i) - 1))))

ParseAtom(r, i, fl, g) ==
  LET c == r[i] IN
  CASE c = DOT -> Res(<<"any", "s" \in fl>>, i + 1, g, "ok")
    [] c = CARET -> Res(<<IF "m" \in fl THEN "bolm" ELSE "bol">>, i + 1, g, "ok")
    [] c = DOLLAR -> Res(<<IF "m" \in fl THEN "eolm" ELSE "eol">>, i + 1, g, "ok")
    [] c = LB -> Class(r, i + 1, fl, g)
    [] c = BSL /\ Char(r, i + 1) = 81 ->           \* \Q...\E
         LET s == IndexFrom(r, <<BSL, 69>>, i + 2)
             e == IF s = 0 THEN Len(r) ELSE s - 1
         IN IF "i" \in fl /\ ~AsciiOnly(SubSeq(r, i + 2, e)) THEN Uns(i, g)
            ELSE Res(<<"seq", Verbatim(r, i + 2, e, fl, <<>>)>>, IF s = 0 THEN e + 1 ELSE s + 2, g, "ok")
    [] c = BSL -> Escape(r, i + 1, fl, g)
    [] c = LP -> IF Char(r, i + 1) = QM THEN Special(r, i, fl, g) ELSE Group(r, i + 1, fl, g, g + 1, <<>>)
    [] OTHER -> LitRes(fl, RuneAt(r, i), i + RuneLen(r, i), g)

ParseCat(r, i, fl, g, acc) ==
  IF Char(r, i) \in {-1, BAR, RP} THEN [Res(<<"cat", acc>>, i, g, "ok") EXCEPT !.fl = fl]
  ELSE IF Quant(r, i).is THEN Bad(i, g)         \* nothing to repeat
  ELSE LET a == ParseAtom(r, i, fl, g) IN
       IF a.ok # "ok" THEN a
       ELSE LET parts == IF a.n[1] = "fl" THEN <<>> ELSE IF a.n[1] = "seq" THEN a.n[2] ELSE <<a.n>>
                fl1 == IF a.n[1] = "fl" THEN a.n[2] ELSE fl
                q == Quant(r, a.i)
                x == parts[Len(parts)]
                all == acc \o parts
            IN IF ~q.is THEN ParseCat(r, a.i, fl1, a.g, all)
               ELSE IF all = <<>> \/ ~q.ok THEN Bad(i, g)
               ELSE IF parts = <<>> THEN Uns(i, g)       \* what comes before flags or an empty quotation is repeated
               ELSE IF Quant(r, q.i).is THEN Bad(i, g)   \* stacked repetition
               ELSE IF Nullable(x) /\ q.hi = -1 THEN Uns(i, g)
               ELSE LET n == <<"rep", x, q.lo, q.hi, q.greedy # ("U" \in fl)>>
                    IN IF x[1] \notin {"lit", "set", "any"} /\ (q.lo > 20 \/ q.hi > 20 \/ MostReps(n) > 1000) THEN Uns(i, g)
                       ELSE ParseCat(r, q.i, fl, a.g, Append(SubSeq(all, 1, Len(all) - 1), n))

\* Flags last until the end of the group, also across alternatives.
RECURSIVE ParseAlts(_, _, _, _, _)
ParseAlts(r, i, fl, g, acc) ==
  LET a == ParseCat(r, i, fl, g, <<>>) IN
  IF a.ok # "ok" THEN a
  ELSE IF Char(r, a.i) = BAR THEN ParseAlts(r, a.i + 1, a.fl, a.g, Append(acc, a.n))
  ELSE Res(IF acc = <<>> THEN a.n ELSE <<"alt", Append(acc, a.n)>>, a.i, a.g, "ok")
ParseAlt(r, i, fl, g) == ParseAlts(r, i, fl, g, <<>>)

\* The names of the groups: <<number, name>>.
RECURSIVE GroupNames(_)
GroupNames(n) ==
  CASE n[1] \in {"cat", "alt"} -> UNION {GroupNames(n[2][k]) : k \in 1..Len(n[2])}
    [] n[1] = "rep" -> GroupNames(n[2])
    [] n[1] = "grp" -> {<<n[2], n[4]>>} \cup GroupNames(n[3])
    [] OTHER -> {}

\* [ok, n: tree, g: number of groups, names: name of each group]
Compile(r) ==
  LET a == ParseAlt(r, 1, {}, 0)
      ok == IF a.ok # "ok" THEN a.ok ELSE IF a.i <= Len(r) THEN "bad" ELSE "ok"
      ns == GroupNames(a.n)
  IN IF ~ValidUtf8(r) THEN [ok |-> "bad", n |-> Emp, g |-> 0, names |-> <<>>]
     ELSE [ok |-> ok, n |-> a.n, g |-> a.g,
           names |-> IF ok # "ok" THEN <<>> ELSE [k \in 1..a.g |-> (CHOOSE x \in ns : x[1] = k)[2]]]

(***************************************************************************)
(* Matching.  M(n, t, i, c) lists <<end, captures>> of every way in which  *)
(* n matches t from position i, most preferred first; of several ways with *)
(* the same end only the most preferred one is kept.                       *)
(***************************************************************************)
InRanges(rs, cp) == \E k \in 1..Len(rs) : rs[k][1] <= cp /\ cp <= rs[k][2]
SwapCase(cp) == IF cp >= 97 /\ cp <= 122 THEN cp - 32 ELSE IF cp >= 65 /\ cp <= 90 THEN cp + 32 ELSE cp
SameLetter(cp) == {cp, SwapCase(cp)} \cup (IF cp \in {75, 107, Kelvin} THEN {75, 107, Kelvin} ELSE {})
                                    \cup (IF cp \in {83, 115, LongS} THEN {83, 115, LongS} ELSE {})
SetHas(n, cp) == LET in == IF n[4] THEN \E c \in SameLetter(cp) : InRanges(n[3], c) ELSE InRanges(n[3], cp)
                 IN IF n[2] THEN ~in ELSE in

WordByte(b) == IsWord(b) \/ b = 95
AtWordBoundary(t, i) ==
  (i > 1 /\ WordByte(t[i - 1])) # (i <= Len(t) /\ WordByte(t[i]))

\* For the one-rune nodes: the end of a match at i, or 0.
OneRune(n, t, i) ==
  IF i > Len(t) THEN 0
  ELSE IF n[1] = "any" THEN (IF t[i] = NL /\ ~n[2] THEN 0 ELSE i + RuneLen(t, i))
  ELSE IF n[1] = "set" THEN (IF SetHas(n, RuneAt(t, i)) THEN i + RuneLen(t, i) ELSE 0)
  ELSE (IF OccursAt(t, n[2], i) THEN i + Len(n[2]) ELSE 0)

Dedup(rs) == FoldLeft(LAMBDA a, r : IF \E k \in 1..Len(a) : a[k][1] = r[1] THEN a ELSE Append(a, r), <<>>, rs)

RECURSIVE Run(_, _, _, _, _)      \* ends of k..hi repetitions of a one-rune node
Run(n, t, i, k, hi) ==
  LET e == IF k = hi THEN 0 ELSE OneRune(n, t, i)
  IN IF e = 0 THEN <<i>> ELSE <<i>> \o Run(n, t, e, k + 1, hi)

RECURSIVE M(_, _, _, _), MRep(_, _, _, _, _, _)
\* Repetitions of n[2] from the k-th on, at i; acc: [seen: the pairs of place and number already followed, whose ends are all
\* in out by a more preferred way, out: ways].
MRep(n, t, i, c, k, acc) ==
  LET key == <<i, IF n[4] = -1 /\ k > n[3] THEN n[3] ELSE k>>
      stop(a) == IF k < n[3] THEN a ELSE [a EXCEPT !.out = Append(@, <<i, c>>)]
      more(a) == IF n[4] # -1 /\ k = n[4] THEN a
                 ELSE FoldLeft(LAMBDA b, r : IF r[1] = i /\ k >= n[3] THEN b ELSE MRep(n, t, r[1], r[2], k + 1, b), a, M(n[2], t, i, c))
      acc1 == [acc EXCEPT !.seen = @ \cup {key}]
  IN IF key \in acc.seen THEN acc
     ELSE IF n[5] THEN stop(more(acc1)) ELSE more(stop(acc1))

M(n, t, i, c) ==
  CASE n[1] \in {"lit", "any", "set"} ->
         LET e == OneRune(n, t, i) IN IF e = 0 THEN <<>> ELSE << <<e, c>> >>
    [] n[1] = "cat" ->
         FoldLeft(LAMBDA rs, x : IF Len(rs) = 1 THEN M(x, t, rs[1][1], rs[1][2])      \* whose ends differ
                                 ELSE Dedup(FoldLeft(LAMBDA a, r : a \o M(x, t, r[1], r[2]), <<>>, rs)),
                  << <<i, c>> >>, n[2])
    [] n[1] = "alt" ->
         Dedup(FoldLeft(LAMBDA a, x : a \o M(x, t, i, c), <<>>, n[2]))
    [] n[1] = "rep" ->
         IF n[2][1] \in {"any", "set"} \/ (n[2][1] = "lit")
         THEN LET run == Run(n[2], t, i, 0, n[4])
                  ends == SubSeq(run, n[3] + 1, Len(run))
              IN [k \in 1..Len(ends) |-> <<IF n[5] THEN ends[Len(ends) + 1 - k] ELSE ends[k], c>>]
         ELSE Dedup(MRep(n, t, i, c, 0, [seen |-> {}, out |-> <<>>]).out)
    [] n[1] = "grp" ->
         LET rs == M(n[3], t, i, c)
         IN [k \in 1..Len(rs) |-> <<rs[k][1], [rs[k][2] EXCEPT ![n[2]] = <<i, rs[k][1]>>]>>]
    [] n[1] = "bol" -> IF i = 1 THEN << <<i, c>> >> ELSE <<>>
    [] n[1] = "eol" -> IF i = Len(t) + 1 THEN << <<i, c>> >> ELSE <<>>
    [] n[1] = "bolm" -> IF i = 1 \/ t[i - 1] = NL THEN << <<i, c>> >> ELSE <<>>
    [] n[1] = "eolm" -> IF i = Len(t) + 1 \/ t[i] = NL THEN << <<i, c>> >> ELSE <<>>
    [] n[1] = "wb" -> IF AtWordBoundary(t, i) THEN << <<i, c>> >> ELSE <<>>
    [] n[1] = "nwb" -> IF AtWordBoundary(t, i) THEN <<>> ELSE << <<i, c>> >>
    [] OTHER -> << <<i, c>> >>

NoCaps(re) == [k \in 1..re.g |-> <<0, 0>>]

\* Bytes a match can start with; 256 stands for "anything".
RECURSIVE FirstBytes(_)
FirstBytes(n) ==
  CASE n[1] = "lit" -> {n[2][1]}
    [] n[1] = "cat" -> IF n[2] = <<>> \/ Nullable(n[2][1]) THEN {256} ELSE FirstBytes(n[2][1])
    [] n[1] = "alt" -> UNION {FirstBytes(n[2][k]) : k \in 1..Len(n[2])}
    [] n[1] = "rep" -> IF n[3] = 0 THEN {256} ELSE FirstBytes(n[2])
    [] n[1] = "grp" -> FirstBytes(n[3])
    [] OTHER -> {256}

\* Leftmost match at or after position i (a rune boundary): [s, e, c]; s = 0 if there is none.
RECURSIVE FindIn(_, _, _, _)
FindIn(re, t, i, fb) ==
  IF i > Len(t) + 1 THEN [s |-> 0, e |-> 0, c |-> <<>>]
  ELSE IF i <= Len(t) /\ t[i] \notin fb /\ 256 \notin fb THEN FindIn(re, t, i + RuneLen(t, i), fb)
  ELSE LET rs == M(re.n, t, i, NoCaps(re))
       IN IF rs # <<>> THEN [s |-> i, e |-> rs[1][1], c |-> rs[1][2]]
          ELSE FindIn(re, t, IF i <= Len(t) THEN i + RuneLen(t, i) ELSE i + 1, fb)
Find(re, t, i) == FindIn(re, t, i, FirstBytes(re.n))

\* Is there a match that ends at the end of t?
MatchesUpToEnd(re, t) ==
  \E i \in 1..(Len(t) + 1) :
     \E k \in 1..Len(M(re.n, t, i, NoCaps(re))) : M(re.n, t, i, NoCaps(re))[k][1] = Len(t) + 1

\* All successive non-overlapping matches; an empty match right after the previous match does not count.
RECURSIVE AllFrom(_, _, _, _, _)
AllFrom(re, t, i, prevEnd, acc) ==
  IF i > Len(t) + 1 THEN acc
  ELSE LET m == Find(re, t, i) IN
       IF m.s = 0 THEN acc
       ELSE LET next == IF m.e = i
                        THEN (IF i <= Len(t) THEN i + RuneLen(t, i) ELSE i + 1)
                        ELSE m.e
                take == ~(m.e = i /\ m.s = prevEnd)
            IN AllFrom(re, t, next, m.e, IF take THEN Append(acc, m) ELSE acc)
FindAll(re, t) == AllFrom(re, t, 1, 0, <<>>)

\* Expansion of $1, ${1}, ${name} and $$ in a replacement template.
NameByte(b) == IsWord(b) \/ b = 95
GroupText(names, name, m, t) ==
  LET num == FoldLeft(LAMBDA v, b : IF v = -1 \/ ~IsDigit(b) \/ v > 1000 THEN -1 ELSE v * 10 + b - 48, 0, name)
      of == {k \in 1..Len(names) : names[k] = name /\ m.c[k] # <<0, 0>>}      \* the first that took part counts
      k1 == CHOOSE k \in of : \A l \in of : k <= l
  IN IF num = -1 \/ (Len(name) > 1 /\ name[1] = 48)
     THEN (IF of = {} THEN <<>> ELSE Between(t, m.c[k1][1], m.c[k1][2]))
     ELSE IF num = 0 THEN Between(t, m.s, m.e)
     ELSE IF num > Len(m.c) THEN <<>>
     ELSE IF m.c[num] = <<0, 0>> THEN <<>>
     ELSE Between(t, m.c[num][1], m.c[num][2])

RECURSIVE Expand(_, _, _, _, _, _)
Expand(names, x, i, m, t, acc) ==
  IF i > Len(x) THEN acc
  ELSE IF x[i] # DOLLAR THEN Expand(names, x, i + 1, m, t, Append(acc, x[i]))
  ELSE LET d == Char(x, i + 1) IN
       IF d = DOLLAR THEN Expand(names, x, i + 2, m, t, Append(acc, DOLLAR))
       ELSE LET brace == d = LC
                from == IF brace THEN i + 2 ELSE i + 1
                stop == FirstIn(x, from, Len(x), LAMBDA b : ~NameByte(b))
                to == IF stop = 0 THEN Len(x) ELSE stop - 1
            IN IF to < from \/ (brace /\ Char(x, to + 1) # RC)
               THEN Expand(names, x, i + 1, m, t, Append(acc, DOLLAR))
               ELSE Expand(names, x, IF brace THEN to + 2 ELSE to + 1, m, t,
                           acc \o GroupText(names, SubSeq(x, from, to), m, t))

RECURSIVE ReplFrom(_, _, _, _, _, _)
ReplFrom(re, t, x, i, last, acc) ==
  LET m == IF i > Len(t) + 1 THEN [s |-> 0, e |-> 0, c |-> <<>>] ELSE Find(re, t, i) IN
  IF m.s = 0 THEN acc \o SubSeq(t, last, Len(t))
  ELSE LET acc1 == acc \o Between(t, last, m.s)
           acc2 == IF m.e > last \/ m.s = 1 THEN Expand(re.names, x, 1, m, t, acc1) ELSE acc1
           w == IF i <= Len(t) THEN RuneLen(t, i) ELSE 0
           next == IF i + w > m.e THEN i + w ELSE IF i + 1 > m.e THEN i + 1 ELSE m.e
       IN ReplFrom(re, t, x, next, m.e, acc2)
SubstAll(re, t, x) == ReplFrom(re, t, x, 1, 1, <<>>)
=============================================================================
