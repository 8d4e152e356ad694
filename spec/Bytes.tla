------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Texts are sequences of bytes (0..255).  Positions are 1-based: position *)
(* i is in front of the byte t[i], position Len(t)+1 is the end.           *)
(*                                                                         *)
(* SelectInSubSeq/SelectLastInSubSeq of the CommunityModules are used      *)
(* through FirstIn/LastIn only: TLC evaluates them with Java code that returns *)
(* absolute indices.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Case

NL == 10

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

\* A word is a maximal run of ASCII letters and digits.
IsWord(b) == \/ b >= 97 /\ b <= 122
             \/ b >= 65 /\ b <= 90
             \/ b >= 48 /\ b <= 57

\* Index of the first/last element of t[i..j] that passes Test, 0 if none.
FirstIn(t, i, j, Test(_)) == IF i > j THEN 0 ELSE SelectInSubSeq(t, i, j, Test)
LastIn(t, i, j, Test(_))  == IF i > j THEN 0 ELSE SelectLastInSubSeq(t, i, j, Test)

\* t[i..j-1]; i and j are positions.
Between(t, i, j) == SubSeq(t, i, j - 1)
\* t with the text between positions i and j replaced by x.
Splice(t, i, j, x) == SubSeq(t, 1, i - 1) \o x \o SubSeq(t, j, Len(t))
Cut(t, i, j) == SubSeq(t, 1, i - 1) \o SubSeq(t, j, Len(t))

OccursAt(t, x, i) == /\ i >= 1 /\ i + Len(x) - 1 <= Len(t)
                     /\ SubSeq(t, i, i + Len(x) - 1) = x

\* First position >= i where x occurs in t, 0 if none.
RECURSIVE IndexFrom(_, _, _)
IndexFrom(t, x, i) ==
  IF x = <<>> THEN (IF i <= Len(t) + 1 THEN i ELSE 0)
  ELSE LET j == FirstIn(t, i, Len(t) - Len(x) + 1, LAMBDA b : b = x[1])
       IN IF j = 0 THEN 0
          ELSE IF SubSeq(t, j, j + Len(x) - 1) = x THEN j
          ELSE IndexFrom(t, x, j + 1)

\* Last position where x occurs in t[1..n] (entirely), 0 if none.
RECURSIVE LastIndexUpTo(_, _, _)
LastIndexUpTo(t, x, n) ==
  IF x = <<>> THEN n + 1
  ELSE LET j == LastIn(t, 1, n - Len(x) + 1, LAMBDA b : b = x[1])
       IN IF j = 0 THEN 0
          ELSE IF SubSeq(t, j, j + Len(x) - 1) = x THEN j
          ELSE LastIndexUpTo(t, x, j + Len(x) - 2)

\* Position of the first newline at or after position i (end of text if none).
LineEnd(t, i) == LET j == FirstIn(t, i, Len(t), LAMBDA b : b = NL)
                 IN IF j = 0 THEN Len(t) + 1 ELSE j
\* Position of the start of the line that position i is on.
LineStart(t, i) == LastIn(t, 1, i - 1, LAMBDA b : b = NL) + 1

CountNL(t, i, j) == FoldLeft(LAMBDA n, b : IF b = NL THEN n + 1 ELSE n, 0, SubSeq(t, i, j))

\* Positions after c lines from position i on, newline included.
RECURSIVE LinesOn(_, _, _)
LinesOn(t, i, c) ==
  IF c < 1 \/ i > Len(t) THEN i
  ELSE LET e == LineEnd(t, i)
       IN LinesOn(t, IF e <= Len(t) THEN e + 1 ELSE e, c - 1)

\* Position after c words from position i on.
RECURSIVE WordsOn(_, _, _)
WordsOn(t, i, c) ==
  IF c < 1 \/ i > Len(t) THEN i
  ELSE LET w == FirstIn(t, i, Len(t), LAMBDA b : IsWord(b))
           e == IF w = 0 THEN 0 ELSE FirstIn(t, w, Len(t), LAMBDA b : ~IsWord(b))
       IN IF w = 0 \/ e = 0 THEN Len(t) + 1 ELSE WordsOn(t, e, c - 1)

\* Start of the c-th word before position i.
RECURSIVE WordsBack(_, _, _)
WordsBack(t, i, c) ==
  IF c < 1 \/ i <= 1 THEN i
  ELSE LET w == LastIn(t, 1, i - 1, LAMBDA b : IsWord(b))
       IN IF w = 0 THEN 1
          ELSE WordsBack(t, LastIn(t, 1, w, LAMBDA b : ~IsWord(b)) + 1, c - 1)

\* Start of line number c (1-based); the last line if there are fewer.
RECURSIVE NthLineStart(_, _, _)
NthLineStart(t, i, c) ==
  IF c <= 1 THEN i
  ELSE LET e == LineEnd(t, i)
       IN IF e > Len(t) THEN i ELSE NthLineStart(t, e + 1, c - 1)

(***************************************************************************)
(* UTF-8.                                                                  *)
(***************************************************************************)
IsCont(t, i) == i <= Len(t) /\ t[i] >= 128 /\ t[i] <= 191

\* Number of bytes of the rune at position i; 1 if the bytes are not UTF-8.
RuneLen(t, i) ==
  LET b == t[i] IN
  IF b < 128 THEN 1
  ELSE IF b >= 194 /\ b <= 223 THEN (IF IsCont(t, i + 1) THEN 2 ELSE 1)
  ELSE IF b >= 224 /\ b <= 239
       THEN (IF IsCont(t, i + 1) /\ IsCont(t, i + 2)
                /\ (b = 224 => t[i + 1] >= 160) /\ (b = 237 => t[i + 1] <= 159) THEN 3 ELSE 1)
  ELSE IF b >= 240 /\ b <= 244
       THEN (IF IsCont(t, i + 1) /\ IsCont(t, i + 2) /\ IsCont(t, i + 3)
                /\ (b = 240 => t[i + 1] >= 144) /\ (b = 244 => t[i + 1] <= 143) THEN 4 ELSE 1)
  ELSE 1

\* Code point of the rune at position i (65533 for bytes that are not UTF-8).
RuneAt(t, i) ==
  LET b == t[i] n == RuneLen(t, i) IN
  IF b < 128 THEN b
  ELSE IF n = 1 THEN 65533
  ELSE IF n = 2 THEN (b - 192) * 64 + (t[i + 1] - 128)
  ELSE IF n = 3 THEN (b - 224) * 4096 + (t[i + 1] - 128) * 64 + (t[i + 2] - 128)
  ELSE (b - 240) * 262144 + (t[i + 1] - 128) * 4096 + (t[i + 2] - 128) * 64 + (t[i + 3] - 128)

\* Is all of t UTF-8?
AsciiOnly(t) == FirstIn(t, 1, Len(t), LAMBDA b : b >= 128) = 0
RECURSIVE ValidFrom(_, _)
ValidFrom(t, i) == LET j == FirstIn(t, i, Len(t), LAMBDA b : b >= 128)
                   IN IF j = 0 THEN TRUE ELSE RuneLen(t, j) > 1 /\ ValidFrom(t, j + RuneLen(t, j))
ValidUtf8(t) == ValidFrom(t, 1)

\* UTF-8 encoding of a code point.
Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

(***************************************************************************)
(* Case mapping, letter by letter: the tables of Case.tla.                 *)
(***************************************************************************)
InTable(c, T) == \E i \in 1..Len(T) : c >= T[i][1] /\ c < T[i][1] + Len(T[i][2])
\* The letter for c in a table, 0 if it is not specified.
FromTable(c, T) ==
  LET i == CHOOSE i \in 1..Len(T) : c >= T[i][1] /\ c < T[i][1] + Len(T[i][2])
  IN T[i][2][c - T[i][1] + 1]
IsCaseless(c) == \E r \in Caseless : c >= r[1] /\ c <= r[2]
UpRune(c) == IF c < 128 THEN (IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c) ELSE IF InTable(c, Capitals) THEN FromTable(c, Capitals) ELSE IF IsCaseless(c) THEN c ELSE 0
DownRune(c) == IF c < 128 THEN (IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c) ELSE IF InTable(c, Smalls) THEN FromTable(c, Smalls) ELSE IF IsCaseless(c) THEN c ELSE 0

IsAscii(t) == \A i \in 1..Len(t) : t[i] < 128
\* Is the mapping of the text specified: UTF-8, of letters in the tables?
RECURSIVE MapSpecified(_, _)
MapSpecified(t, i) ==
  \/ i > Len(t)
  \/ t[i] < 128 /\ MapSpecified(t, i + 1)
  \/ LET n == RuneLen(t, i) c == RuneAt(t, i)
     IN n > 1 /\ UpRune(c) # 0 /\ DownRune(c) # 0 /\ MapSpecified(t, i + n)
\* The text from i on, with its letters mapped (and bytes that are not UTF-8 left alone).
RECURSIVE MapRunes(_, _, _)
MapRunes(t, i, up) ==
  IF i > Len(t) THEN <<>>
  ELSE LET n == RuneLen(t, i) a == RuneAt(t, i) c == IF up THEN UpRune(a) ELSE DownRune(a)
       IN (IF t[i] < 128 THEN <<c>> ELSE IF n = 1 \/ c = 0 THEN SubSeq(t, i, i + n - 1) ELSE Utf8(c)) \o MapRunes(t, i + n, up)
Up(t)   == IF IsAscii(t) THEN [i \in 1..Len(t) |-> UpRune(t[i])] ELSE MapRunes(t, 1, TRUE)
Down(t) == IF IsAscii(t) THEN [i \in 1..Len(t) |-> DownRune(t[i])] ELSE MapRunes(t, 1, FALSE)
Capitalized(t) ==
  IF t = <<>> THEN t
  ELSE LET n == RuneLen(t, 1)
       IN Up(SubSeq(t, 1, n)) \o Down(SubSeq(t, n + 1, Len(t)))

ConcatAll(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
=============================================================================
