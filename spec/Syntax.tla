------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* The three syntaxes of scripts.  A source is a sequence of bytes;        *)
(* ParseScript(fmt, src) = [ok, v]: ok is "ok", "err" or "uns" (outside of *)
(* this specification), v the sequence of commands (values of Editor).     *)
(*                                                                         *)
(* "shell" and "sexp" are one line-based syntax: lines are cut into        *)
(* commands at semicolons outside of strings, white space around a command *)
(* is dropped; a command that starts with a parenthesis is one list, any   *)
(* other command is the list of its elements.                              *)
(* "json" is one array of commands or a sequence of commands.              *)
(*                                                                         *)
(* Everything works on positions in the source (t[i..j]), so that long     *)
(* sources cost linear time.                                               *)
(***************************************************************************)
EXTENDS Editor, Doubles

QUOTE == 34
OPEN == 40
CLOSE == 41
SEMI == 59

Ok(v) == [ok |-> "ok", v |-> v]
Err == [ok |-> "err", v |-> <<>>]
Unsp == [ok |-> "uns", v |-> <<>>]
\* An error anywhere is an error of the whole.
Both(a, b) == IF a = "err" \/ b = "err" THEN "err" ELSE IF a = "uns" \/ b = "uns" THEN "uns" ELSE "ok"
RECURSIVE AllOk(_)
AllOk(rs) == IF rs = <<>> THEN "ok" ELSE Both(rs[1].ok, AllOk(Tail(rs)))
Joined(rs) == LET o == AllOk(rs) IN IF o = "ok" THEN Ok([i \in 1..Len(rs) |-> rs[i].v]) ELSE [ok |-> o, v |-> <<>>]

(***************************************************************************)
(* White space: the characters that Unicode calls white space.             *)
(***************************************************************************)
IsSpaceRune(c) == \/ c \in {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
                  \/ c >= 8192 /\ c <= 8202
IsAsciiSpace(b) == b = 32 \/ (b >= 9 /\ b <= 13)
RECURSIVE TrimL(_, _, _), TrimR(_, _, _)
\* First position >= i without white space, j + 1 if there is none up to j.
TrimL(t, i, j) ==
  LET k == FirstIn(t, i, j, LAMBDA b : ~IsAsciiSpace(b))
  IN IF k = 0 THEN j + 1
     ELSE IF t[k] >= 128 /\ IsSpaceRune(RuneAt(t, k)) THEN TrimL(t, k + RuneLen(t, k), j) ELSE k
\* Last position <= j without white space, i - 1 if there is none from i on.
TrimR(t, i, j) ==
  LET k == LastIn(t, i, j, LAMBDA b : ~IsAsciiSpace(b))
      r == LastIn(t, i, k, LAMBDA b : b < 128 \/ b > 191)     \* start of the last rune
  IN IF k = 0 THEN i - 1
     ELSE IF t[k] >= 128 /\ r > 0 /\ r + RuneLen(t, r) - 1 = k /\ IsSpaceRune(RuneAt(t, r)) THEN TrimR(t, i, r - 1) ELSE k

(***************************************************************************)
(* Numbers: decimal fractions with an optional exponent.  Num of           *)
(* Editor: i is the number truncated and limited to +-10^9, x the          *)
(* canonical text unless the number is such an integer.                    *)
(***************************************************************************)
Limit == 1000000000
RECURSIVE DigitsValue(_, _)
DigitsValue(d, acc) == IF d = <<>> THEN acc ELSE DigitsValue(Tail(d), 10 * acc + d[1])
RECURSIVE StripZeros(_)
StripZeros(d) == IF d # <<>> /\ d[1] = 0 THEN StripZeros(Tail(d)) ELSE d
RECURSIVE TrailingZeros(_)
TrailingZeros(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN 1 + TrailingZeros(SubSeq(d, 1, Len(d) - 1)) ELSE 0
RECURSIVE Decimal(_)
Decimal(n) == IF n < 0 THEN <<45>> \o Decimal(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>

\* The number with the decimal digits d times 10^e.  Up to 15 digits tell doubles apart;
\* of the longer numerals, those in the table are specified.
Number(neg, digits, e0) ==
  LET d0 == StripZeros(digits)
      z == TrailingZeros(d0)
      d1 == SubSeq(d0, 1, Len(d0) - z)
      long == Len(d1) > 15
      known == long /\ <<d1, e0 + z>> \in LongNumerals
      d == IF known THEN Doubles[<<d1, e0 + z>>][1] ELSE d1
      e == IF known THEN Doubles[<<d1, e0 + z>>][2] ELSE e0 + z
      n == Len(d) + e                       \* digits in front of the point
      \* the first n digits
      w == IF n <= 0 THEN 0 ELSE IF n >= 10 THEN Limit
           ELSE DigitsValue([i \in 1..n |-> IF i <= Len(d) THEN d[i] ELSE 0], 0)
      whole == d = <<>> \/ (e >= 0 /\ (n < 10 \/ (n = 10 /\ d = <<1>>)))
      sign == IF neg THEN <<45>> ELSE <<>>
  IN IF (long /\ ~known) \/ n > 290 \/ n < -290 THEN Unsp
     ELSE Ok([k |-> "n", i |-> IF d = <<>> THEN 0 ELSE IF neg THEN -w ELSE w,
              x |-> IF whole THEN <<>> ELSE sign \o [i \in 1..Len(d) |-> d[i] + 48] \o <<101>> \o Decimal(e)])

DigitsOf(t, i, j) == [k \in 1..(j - i + 1) |-> t[i + k - 1] - 48]
\* Number in t[i..j], [ok |-> "no"] if it is none.
NoNumber == [ok |-> "no", v |-> <<>>]
ReadNumber(t, i, j) ==
  LET hasSign == i <= j /\ t[i] \in {43, 45}
      neg == hasSign /\ t[i] = 45
      a == IF hasSign THEN i + 1 ELSE i                           \* start of the integer part
      b0 == FirstIn(t, a, j, LAMBDA c : ~IsDigit(c))
      b == IF b0 = 0 THEN j + 1 ELSE b0                           \* behind the integer part
      point == b <= j /\ t[b] = 46
      f == IF point THEN b + 1 ELSE b                             \* start of the fraction
      g0 == FirstIn(t, f, j, LAMBDA c : ~IsDigit(c))
      g == IF ~point THEN f ELSE IF g0 = 0 THEN j + 1 ELSE g0     \* behind the fraction
      mant == (b - a) + (g - f)
      expo == g <= j /\ t[g] \in {69, 101}
      h == IF expo /\ g + 1 <= j /\ t[g + 1] \in {43, 45} THEN g + 2 ELSE g + 1   \* start of the exponent
      eok == h <= j /\ FirstIn(t, h, j, LAMBDA c : ~IsDigit(c)) = 0
      ed == StripZeros(DigitsOf(t, h, j))
      eneg == t[g + 1] = 45
  IN IF mant = 0 THEN NoNumber
     ELSE IF g > j THEN Number(neg, DigitsOf(t, a, b - 1) \o DigitsOf(t, f, g - 1), -(g - f))
     ELSE IF ~expo \/ ~eok THEN NoNumber
     ELSE IF Len(ed) > 3 THEN Unsp
     ELSE LET x == DigitsValue(ed, 0)
          IN Number(neg, DigitsOf(t, a, b - 1) \o DigitsOf(t, f, g - 1), (IF eneg THEN -x ELSE x) - (g - f))

\* Other spellings of numbers: infinity, not-a-number, hexadecimal, digits grouped by _.
OddNumber(t, i, j) ==
  LET a == IF i <= j /\ t[i] \in {43, 45} THEN i + 1 ELSE i
      w == Down(SubSeq(t, a, Min2(j, a + 9)))
      pre == SubSeq(w, 1, Min2(2, Len(w)))
  IN a <= j /\ (w \in {<<105, 110, 102>>, <<110, 97, 110>>, <<105, 110, 102, 105, 110, 105, 116, 121>>}
                \/ pre \in {<<48, 120>>, <<48, 98>>, <<48, 111>>}
                \/ (IsDigit(t[a]) /\ FirstIn(t, a, j, LAMBDA c : c = 95) # 0))

(***************************************************************************)
(* String literals of the line-based syntax.                               *)
(***************************************************************************)
HexVal(b) == IF IsDigit(b) THEN b - 48 ELSE IF b >= 97 /\ b <= 102 THEN b - 87 ELSE IF b >= 65 /\ b <= 70 THEN b - 55 ELSE -1
AllHex(t, i, j) == FirstIn(t, i, j, LAMBDA b : HexVal(b) < 0) = 0
RECURSIVE HexNum(_, _, _, _)
HexNum(t, i, j, acc) == IF i > j THEN acc ELSE HexNum(t, i + 1, j, IF acc > 1114111 THEN acc ELSE acc * 16 + HexVal(t[i]))
IsRune(c) == c >= 0 /\ c <= 1114111 /\ ~(c >= 55296 /\ c <= 57343)

SimpleEscape(b) == CASE b = 97 -> 7 [] b = 98 -> 8 [] b = 102 -> 12 [] b = 110 -> 10 [] b = 114 -> 13
                     [] b = 116 -> 9 [] b = 118 -> 11 [] b = BSL -> BSL [] b = QUOTE -> QUOTE [] OTHER -> -1
\* The escape at t[i] = "\", in a string that ends at j: [n: its length, v: its bytes], n = 0 if invalid.
StringEscape(t, i, j) ==
  LET bad == [n |-> 0, v |-> <<>>] IN
  IF i = j THEN bad
  ELSE LET c == t[i + 1] IN
    IF SimpleEscape(c) >= 0 THEN [n |-> 2, v |-> <<SimpleEscape(c)>>]
    ELSE IF c = 120 THEN (IF i + 3 <= j /\ AllHex(t, i + 2, i + 3) THEN [n |-> 4, v |-> <<HexNum(t, i + 2, i + 3, 0)>>] ELSE bad)
    ELSE IF c \in {117, 85}
      THEN LET m == IF c = 117 THEN 4 ELSE 8 IN
           IF i + 1 + m <= j /\ AllHex(t, i + 2, i + 1 + m) /\ IsRune(HexNum(t, i + 2, i + 1 + m, 0))
           THEN [n |-> m + 2, v |-> Utf8(HexNum(t, i + 2, i + 1 + m, 0))] ELSE bad
    ELSE IF c >= 48 /\ c <= 55
      THEN IF i + 3 <= j /\ \A k \in 2..3 : t[i + k] >= 48 /\ t[i + k] <= 55
           THEN LET v == (c - 48) * 64 + (t[i + 2] - 48) * 8 + (t[i + 3] - 48)
                IN IF v <= 255 THEN [n |-> 4, v |-> <<v>>] ELSE bad
           ELSE bad
    ELSE bad

RECURSIVE Unquote(_, _, _, _)
\* The bytes that t[i..j] (between the quotes) stands for, appended to acc.
Unquote(t, i, j, acc) ==
  LET k == FirstIn(t, i, j, LAMBDA b : b = BSL \/ b = QUOTE \/ b = NL) IN
  IF k = 0 THEN Ok(Str(acc \o SubSeq(t, i, j)))
  ELSE IF t[k] # BSL THEN Err
  ELSE LET e == StringEscape(t, k, j)
       IN IF e.n = 0 THEN Err ELSE Unquote(t, k + e.n, j, acc \o SubSeq(t, i, k - 1) \o e.v)

(***************************************************************************)
(* The line-based syntax.                                                  *)
(***************************************************************************)
RECURSIVE QuoteEnd(_, _, _)
\* Position of the quote that closes the string whose text starts at i, 0 if none up to j.
QuoteEnd(t, i, j) ==
  LET k == FirstIn(t, i, j, LAMBDA b : b = QUOTE \/ b = BSL)
  IN IF k = 0 THEN 0 ELSE IF t[k] = QUOTE THEN k ELSE QuoteEnd(t, k + 2, j)

IsSep(b) == b = 32 \/ b = 9 \/ b = NL \/ b = 13
RECURSIVE TokenEnd(_, _, _)
\* Position behind the token that goes on at i, 0 if a string in it is not terminated.
TokenEnd(t, i, j) ==
  LET k == FirstIn(t, i, j, LAMBDA b : IsSep(b) \/ b = OPEN \/ b = CLOSE \/ b = QUOTE)
  IN IF k = 0 THEN j + 1
     ELSE IF t[k] # QUOTE THEN k
     ELSE LET q == QuoteEnd(t, k + 1, j) IN IF q = 0 THEN 0 ELSE TokenEnd(t, q + 1, j)

ReadToken(t, i, j) ==
  IF t[i] = QUOTE /\ t[j] = QUOTE THEN Unquote(t, i + 1, j - 1, <<>>)
  ELSE LET n == ReadNumber(t, i, j)
       IN IF n.ok # "no" THEN n
          ELSE IF OddNumber(t, i, j) THEN Unsp
          ELSE Ok(Sym(SubSeq(t, i, j)))

SkipSeps(t, i, j) == LET k == FirstIn(t, i, j, LAMBDA b : ~IsSep(b)) IN IF k = 0 THEN j + 1 ELSE k

RECURSIVE ReadElems(_, _, _, _, _)
\* Elements from i on, up to the closing parenthesis (inList) or the end j:
\* [ok, v: elements, i: position behind].
ReadElems(t, i0, j, inList, acc) ==
  LET i == SkipSeps(t, i0, j) IN
  IF i > j THEN (IF inList THEN [ok |-> "err", v |-> acc, i |-> i] ELSE [ok |-> "ok", v |-> acc, i |-> i])
  ELSE IF t[i] = CLOSE THEN (IF inList THEN [ok |-> "ok", v |-> acc, i |-> i + 1] ELSE [ok |-> "err", v |-> acc, i |-> i])
  ELSE IF t[i] = OPEN
  THEN LET r == ReadElems(t, i + 1, j, TRUE, <<>>)
           s == IF r.ok = "err" THEN r ELSE ReadElems(t, r.i, j, inList, Append(acc, Lst(r.v)))
       IN [s EXCEPT !.ok = Both(r.ok, s.ok)]
  ELSE LET e == TokenEnd(t, i, j) IN
       IF e = 0 THEN [ok |-> "err", v |-> acc, i |-> i]
       ELSE LET v == ReadToken(t, i, e - 1)
                s == IF v.ok = "err" THEN [ok |-> "err", v |-> acc, i |-> e]
                     ELSE ReadElems(t, e, j, inList, Append(acc, v.v))
            IN [s EXCEPT !.ok = Both(v.ok, s.ok)]

\* The command t[i..j], without white space around it.
ReadCommand(t, i, j) ==
  LET r == ReadElems(t, i, j, FALSE, <<>>)
  IN IF r.ok # "ok" THEN [ok |-> r.ok, v |-> <<>>]
     ELSE IF t[i] = OPEN THEN (IF Len(r.v) = 1 THEN Ok(r.v[1]) ELSE Err)      \* something behind the list
     ELSE Ok(Lst(r.v))

RECURSIVE CommandEnd(_, _, _)
\* Position of the semicolon that ends the command that goes on at i (j + 1 if none).
CommandEnd(t, i, j) ==
  LET k == FirstIn(t, i, j, LAMBDA b : b = QUOTE \/ b = SEMI)
  IN IF k = 0 THEN j + 1
     ELSE IF t[k] = SEMI THEN k
     ELSE LET q == QuoteEnd(t, k + 1, j) IN IF q = 0 THEN j + 1 ELSE CommandEnd(t, q + 1, j)

RECURSIVE LineCommands(_, _, _, _), Commands(_, _, _)
LineCommands(t, i, j, acc) ==
  IF i > j THEN acc
  ELSE LET e == CommandEnd(t, i, j)
           a == TrimL(t, i, e - 1)
           b == TrimR(t, a, e - 1)
       IN LineCommands(t, e + 1, j, IF a > b THEN acc ELSE Append(acc, ReadCommand(t, a, b)))
Commands(t, i, acc) ==
  IF i > Len(t) THEN acc
  ELSE LET e == LineEnd(t, i)
           b == IF e > i /\ t[e - 1] = 13 THEN e - 2 ELSE e - 1
       IN Commands(t, e + 1, LineCommands(t, i, b, acc))

ParseLines(t) == IF ~ValidUtf8(t) THEN Unsp ELSE Joined(Commands(t, 1, <<>>))

(***************************************************************************)
(* JSON.  A raw value is [k, v]: "s" string, "n" number, "a" array,        *)
(* "o" anything else (true, false, null, an object).                       *)
(***************************************************************************)
JSpace(t, i) == LET k == FirstIn(t, i, Len(t), LAMBDA b : ~IsSep(b)) IN IF k = 0 THEN Len(t) + 1 ELSE k
JOk(v, i) == [ok |-> "ok", v |-> v, i |-> i]
JErr == [ok |-> "err", v |-> <<>>, i |-> 0]
JUns(i) == [ok |-> "uns", v |-> [k |-> "o", v |-> <<>>], i |-> i]

JSimple(b) == CASE b = 98 -> 8 [] b = 102 -> 12 [] b = 110 -> 10 [] b = 114 -> 13 [] b = 116 -> 9
                [] b = BSL -> BSL [] b = QUOTE -> QUOTE [] b = 47 -> 47 [] OTHER -> -1
\* \uXXXX at t[i], -1 if there is none
JHex(t, i) == IF i + 5 <= Len(t) /\ t[i] = BSL /\ t[i + 1] = 117 /\ AllHex(t, i + 2, i + 5) THEN HexNum(t, i + 2, i + 5, 0) ELSE -1
RECURSIVE JString(_, _, _)
\* The string whose text goes on at i.
JString(t, i, acc) ==
  LET k == FirstIn(t, i, Len(t), LAMBDA b : b = QUOTE \/ b = BSL \/ b < 32) IN
  IF k = 0 THEN JErr
  ELSE IF t[k] = QUOTE THEN JOk([k |-> "s", v |-> acc \o SubSeq(t, i, k - 1)], k + 1)
  ELSE IF t[k] < 32 \/ k = Len(t) THEN JErr
  ELSE LET pre == acc \o SubSeq(t, i, k - 1)
           c == t[k + 1]
           h == JHex(t, k)
           lo == IF h >= 55296 /\ h <= 56319 THEN JHex(t, k + 6) ELSE -1
       IN IF c # 117 THEN (IF JSimple(c) < 0 THEN JErr ELSE JString(t, k + 2, Append(pre, JSimple(c))))
          ELSE IF h < 0 THEN JErr
          ELSE IF lo >= 56320 /\ lo <= 57343
               THEN JString(t, k + 12, pre \o Utf8(65536 + (h - 55296) * 1024 + (lo - 56320)))
          ELSE JString(t, k + 6, pre \o Utf8(IF IsRune(h) THEN h ELSE 65533))

\* Number at i: the longest prefix of t[i..] that is one.
JNumber(t, i) ==
  LET a == IF t[i] = 45 THEN i + 1 ELSE i
      n == Len(t)
      DigitsTo(p) == LET k == FirstIn(t, p, n, LAMBDA c : ~IsDigit(c)) IN IF k = 0 THEN n + 1 ELSE k
      b == IF a <= n /\ t[a] = 48 THEN a + 1 ELSE DigitsTo(a)
      f == IF b <= n /\ t[b] = 46 THEN DigitsTo(b + 1) ELSE b
      e0 == IF f <= n /\ t[f] \in {69, 101} THEN (IF f + 1 <= n /\ t[f + 1] \in {43, 45} THEN f + 2 ELSE f + 1) ELSE f
      e == IF e0 > f THEN DigitsTo(e0) ELSE f
      r == ReadNumber(t, i, e - 1)
  IN IF b = a \/ (b <= n /\ t[b] = 46 /\ f = b + 1) \/ (e0 > f /\ e = e0) THEN JErr
     ELSE IF r.ok # "ok" THEN JUns(e) ELSE JOk([k |-> "n", v |-> r.v], e)

Word(t, i, w) == IF SubSeq(t, i, Min2(Len(t), i + Len(w) - 1)) = w THEN JOk([k |-> "o", v |-> <<>>], i + Len(w)) ELSE JErr

RECURSIVE JValue(_, _), JElems(_, _, _, _), JMembers(_, _, _)
JValue(t, i0) ==
  LET i == JSpace(t, i0) IN
  IF i > Len(t) THEN JErr
  ELSE LET c == t[i] IN
    CASE c = QUOTE -> JString(t, i + 1, <<>>)
      [] c = 91 -> LET k == JSpace(t, i + 1) IN
                   IF k <= Len(t) /\ t[k] = 93 THEN JOk([k |-> "a", v |-> <<>>], k + 1) ELSE JElems(t, k, "ok", <<>>)
      [] c = 123 -> LET k == JSpace(t, i + 1) IN
                    IF k <= Len(t) /\ t[k] = 125 THEN JOk([k |-> "o", v |-> <<>>], k + 1) ELSE JMembers(t, k, "ok")
      [] c = 45 \/ IsDigit(c) -> JNumber(t, i)
      [] c = 116 -> Word(t, i, <<116, 114, 117, 101>>)
      [] c = 102 -> Word(t, i, <<102, 97, 108, 115, 101>>)
      [] c = 110 -> Word(t, i, <<110, 117, 108, 108>>)
      [] OTHER -> JErr
JElems(t, i, ok, acc) ==
  LET r == JValue(t, i) IN
  IF r.ok = "err" THEN JErr
  ELSE LET k == JSpace(t, r.i) o == Both(ok, r.ok) IN
       IF k > Len(t) THEN JErr
       ELSE IF t[k] = 93 THEN [ok |-> o, v |-> [k |-> "a", v |-> Append(acc, r.v)], i |-> k + 1]
       ELSE IF t[k] # 44 THEN JErr
       ELSE JElems(t, k + 1, o, Append(acc, r.v))
JMembers(t, i0, ok) ==
  LET i == JSpace(t, i0) IN
  IF i > Len(t) \/ t[i] # QUOTE THEN JErr
  ELSE LET n == JString(t, i + 1, <<>>) IN
  IF n.ok = "err" THEN JErr
  ELSE LET c == JSpace(t, n.i) IN
  IF c > Len(t) \/ t[c] # 58 THEN JErr
  ELSE LET r == JValue(t, c + 1) IN
  IF r.ok = "err" THEN JErr
  ELSE LET k == JSpace(t, r.i) o == Both(ok, r.ok) IN
       IF k > Len(t) THEN JErr
       ELSE IF t[k] = 125 THEN [ok |-> o, v |-> [k |-> "o", v |-> <<>>], i |-> k + 1]
       ELSE IF t[k] # 44 THEN JErr
       ELSE JMembers(t, k + 1, o)

\* The command that a raw value stands for.
RECURSIVE JCommand(_)
JItem(r) == CASE r.k = "s" -> Ok(Str(r.v)) [] r.k = "n" -> Ok(r.v) [] r.k = "a" -> JCommand(r) [] OTHER -> Err
JCommand(r) ==
  IF r.k # "a" THEN Err
  ELSE IF r.v = <<>> THEN Ok(Lst(<<>>))
  ELSE IF r.v[1].k # "s" THEN Err
  ELSE LET rest == Joined([i \in 1..(Len(r.v) - 1) |-> JItem(r.v[i + 1])])
       IN IF rest.ok = "ok" THEN Ok(Lst(<<Sym(r.v[1].v)>> \o rest.v)) ELSE rest
\* A string or number that is a command by itself is outside of this specification.
JTop(r) == IF r.k \in {"s", "n"} THEN Unsp ELSE JCommand(r)

RECURSIVE JStream(_, _, _)
\* All values from i on: [ok, v: raw values]
JStream(t, i0, acc) ==
  LET i == JSpace(t, i0) IN
  IF i > Len(t) THEN [ok |-> "ok", v |-> acc]
  ELSE LET r == JValue(t, i) IN
       IF r.ok = "err" THEN [ok |-> "err", v |-> <<>>]
       ELSE LET s == JStream(t, r.i, Append(acc, r.v)) IN [s EXCEPT !.ok = Both(r.ok, s.ok)]

ParseJson(t) ==
  IF ~ValidUtf8(t) THEN Unsp
  ELSE LET r == JStream(t, 1, <<>>) IN
    IF r.ok # "ok" THEN [ok |-> r.ok, v |-> <<>>]
    ELSE IF Len(r.v) = 1 /\ r.v[1].k = "a" /\ \A i \in 1..Len(r.v[1].v) : r.v[1].v[i].k = "a"
    THEN Joined([i \in 1..Len(r.v[1].v) |-> JCommand(r.v[1].v[i])])
    ELSE Joined([i \in 1..Len(r.v) |-> JTop(r.v[i])])

\* There are three formats; anything else names none, and nothing is a script in it.
Formats == {"shell", "sexp", "json"}
ParseScript(fmt, t) == IF fmt \notin Formats THEN [ok |-> "err", v |-> <<>>] ELSE IF fmt = "json" THEN ParseJson(t) ELSE ParseLines(t)

\* A single value: a list, or one token that is not wrapped in a list.
ParseDatum(t) ==
  LET i == TrimL(t, 1, Len(t)) j == TrimR(t, i, Len(t)) IN
  IF i > Len(t) THEN Ok(<<>>)
  ELSE IF ~ValidUtf8(t) THEN Unsp
  ELSE IF t[i] = OPEN THEN LET r == ReadCommand(t, i, j) IN IF r.ok = "ok" THEN Ok(<<r.v>>) ELSE [ok |-> r.ok, v |-> <<>>]
  ELSE LET r == ReadElems(t, i, j, FALSE, <<>>) IN IF r.ok = "ok" /\ Len(r.v) = 1 THEN Ok(r.v) ELSE Unsp

\* The format of a script where none is given.
Detected(t) == LET i == TrimL(t, 1, Len(t)) IN IF i <= Len(t) /\ t[i] = 91 THEN "json" ELSE "shell"

(***************************************************************************)
(* The whole: what running the script src on the text t does.  A script    *)
(* that is not well-formed does nothing.                                   *)
(***************************************************************************)
RunScript(fmt, src, t) ==
  LET p == ParseScript(fmt, src) IN
  IF p.ok # "ok" THEN [ok |-> p.ok, t |-> t, v |-> NoValue]
  ELSE LET r == RunProgram(NewState(t), p.v)
       IN IF r.ok = "ok" THEN [ok |-> "ok", t |-> r.s.t, v |-> r.v] ELSE [ok |-> r.ok, t |-> t, v |-> NoValue]

(***************************************************************************)
(* Writing programs, and which programs a syntax can express: those that   *)
(* read as themselves when written down.                                   *)
(***************************************************************************)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex2(b) == <<HexDigit(b \div 16), HexDigit(b % 16)>>
Quoted(v) ==
  LET E(b) == IF b = QUOTE \/ b = BSL THEN <<BSL, b>> ELSE IF b = NL THEN <<BSL, 110>>
              ELSE IF b < 32 \/ b = 127 THEN <<BSL, 120>> \o Hex2(b) ELSE <<b>>
      X(b) == IF b >= 128 THEN <<BSL, 120>> \o Hex2(b) ELSE E(b)
  IN <<QUOTE>> \o ConcatAll([i \in 1..Len(v) |-> IF ValidUtf8(v) THEN E(v[i]) ELSE X(v[i])]) \o <<QUOTE>>
JQuoted(v) ==
  LET E(b) == IF b = QUOTE \/ b = BSL THEN <<BSL, b>> ELSE IF b < 32 THEN <<BSL, 117, 48, 48>> \o Hex2(b) ELSE <<b>>
  IN <<QUOTE>> \o ConcatAll([i \in 1..Len(v) |-> E(v[i])]) \o <<QUOTE>>
NumText(v) == IF v.x = <<>> THEN Decimal(v.i) ELSE v.x

RECURSIVE Join(_, _)
Join(xs, sep) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o sep \o Join(Tail(xs), sep)
RECURSIVE WriteSexp(_), WriteJson(_)
WriteSexp(v) == CASE v.k = "s" -> Quoted(v.v) [] v.k = "n" -> NumText(v) [] v.k = "y" -> v.v
                  [] v.k = "l" -> <<OPEN>> \o Join([i \in 1..Len(v.v) |-> WriteSexp(v.v[i])], <<32>>) \o <<CLOSE>>
WriteShell(v) == IF v.k = "l" THEN Join([i \in 1..Len(v.v) |-> WriteSexp(v.v[i])], <<32>>) ELSE WriteSexp(v)
WriteJson(v) == CASE v.k = "n" -> NumText(v) [] v.k = "s" \/ v.k = "y" -> JQuoted(v.v)
                  [] v.k = "l" -> <<91>> \o Join([i \in 1..Len(v.v) |-> WriteJson(v.v[i])], <<44>>) \o <<93>>
WriteCommand(fmt, v) == CASE fmt = "shell" -> WriteShell(v) [] fmt = "sexp" -> WriteSexp(v) [] fmt = "json" -> WriteJson(v)
\* sep: what to write between commands
WriteScript(fmt, prog, sep) == Join([i \in 1..Len(prog) |-> WriteCommand(fmt, prog[i])], sep)

SameProgram(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VEq(a[i], b[i])
\* The text of one value in S-expression format.
ReadsAsValue(txt, v) == LET r == ReadElems(txt, 1, Len(txt), FALSE, <<>>)
                        IN r.ok = "ok" /\ Len(r.v) = 1 /\ VEq(r.v[1], v)
ReadsAs(fmt, src, prog) == LET r == ParseScript(fmt, src) IN r.ok = "ok" /\ SameProgram(r.v, prog)
Expressible(fmt, prog) == fmt \in Formats /\ ReadsAs(fmt, WriteScript(fmt, prog, <<NL>>), prog)
Nested(prog) == \E i \in 1..Len(prog) : prog[i].k = "l" /\ \E j \in 1..Len(prog[i].v) : prog[i].v[j].k = "l"
=============================================================================
