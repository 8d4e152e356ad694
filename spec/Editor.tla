------------------------------- MODULE Editor -------------------------------
(***************************************************************************)
(* The editing machine: a text, a point, a mark and the last search match, *)
(* and the 50 commands that act on it.                                     *)
(*                                                                         *)
(* State      [t: bytes, p: point, k: mark, m: [x, s, e]]  (m: last match) *)
(* Values     [k |-> "s", v |-> bytes]           string                    *)
(*            [k |-> "n", i |-> int, x |-> text] number; i is the number   *)
(*               truncated to an integer and limited to +-10^9, x is the   *)
(*               canonical decimal text if it is not such an integer       *)
(*            [k |-> "y", v |-> bytes]           symbol                    *)
(*            [k |-> "l", v |-> values]          list                      *)
(* Call(s, f, a) = [s |-> state after, ok |-> no error, v |-> value].      *)
(* ok is "ok", "err" or "uns" (outside of this specification).             *)
(***************************************************************************)
EXTENDS Rx, TLC, Names

Str(b)  == [k |-> "s", v |-> b]
Num(i)  == [k |-> "n", i |-> i, x |-> <<>>]
Sym(b)  == [k |-> "y", v |-> b]
Lst(vs) == [k |-> "l", v |-> vs]
NoValue == Str(<<>>)
SymT    == Sym(<<116>>)
SymNil  == Sym(<<110, 105, 108>>)

RECURSIVE VEq(_, _)
VEq(a, b) ==
  /\ a.k = b.k
  /\ CASE a.k = "n" -> a.i = b.i /\ a.x = b.x
       [] a.k = "l" -> Len(a.v) = Len(b.v) /\ \A j \in 1..Len(a.v) : VEq(a.v[j], b.v[j])
       [] OTHER -> a.v = b.v

NoMatch == [x |-> <<>>, s |-> 0, e |-> 0]
NewState(t) == [t |-> t, p |-> 1, k |-> 1, m |-> NoMatch]

(***************************************************************************)
(* Signatures: the kinds of the arguments, the number of required ones.    *)
(***************************************************************************)
NoArgFns == {"beginning-of-buffer", "beginning-of-line", "buffer-size", "current-column",
             "delete-region", "end-of-buffer", "end-of-line", "exchange-point-and-mark",
             "line-number-at-pos", "mark", "mark-whole-buffer", "mark-word", "point",
             "point-max", "point-min", "region-beginning", "region-end", "set-mark"}
OptNumFns == {"backward-char", "backward-kill-word", "backward-word", "delete-backward-char",
              "delete-char", "delete-line", "forward-char", "forward-word", "kill-line",
              "kill-word", "mark-line", "set-mark-command"}
NumFns == {"goto-char", "goto-line"}
StrFns == {"insert", "search-forward", "search-backward", "re-search-forward",
           "re-search-backward", "replace-match", "replace-region", "looking-at",
           "looking-back", "length", "upcase", "downcase", "capitalize"}
Functions == NoArgFns \cup OptNumFns \cup NumFns \cup StrFns
             \cup {"string-match", "buffer-substring", "substring", "concat", "replace-regexp-in-string"}

\* kinds of the arguments; required number
Sig(f) ==
  CASE f \in NoArgFns  -> [a |-> <<>>, r |-> 0]
    [] f \in OptNumFns -> [a |-> <<"n">>, r |-> 0]
    [] f \in NumFns    -> [a |-> <<"n">>, r |-> 1]
    [] f \in StrFns    -> [a |-> <<"s">>, r |-> 1]
    [] f = "string-match" -> [a |-> <<"s", "s">>, r |-> 2]
    [] f = "buffer-substring" -> [a |-> <<"n", "n">>, r |-> 2]
    [] f = "substring" -> [a |-> <<"s", "n", "n">>, r |-> 2]
    [] f = "replace-regexp-in-string" -> [a |-> <<"s", "s", "s">>, r |-> 3]

WellTyped(f, a) ==
  IF f = "concat" THEN \A j \in 1..Len(a) : a[j].k = "s"
  ELSE /\ Len(a) >= Sig(f).r /\ Len(a) <= Len(Sig(f).a)
       /\ \A j \in 1..Len(a) : a[j].k = Sig(f).a[j]

(***************************************************************************)
(* Results.                                                                *)
(***************************************************************************)
\* Point and mark are always inside the text.
Norm(s) == [s EXCEPT !.p = Clamp(s.p, 1, Len(s.t) + 1), !.k = Clamp(s.k, 1, Len(s.t) + 1)]
Do(s)      == [s |-> Norm(s), ok |-> "ok", v |-> NoValue]
Ret(s, v)  == [s |-> s, ok |-> "ok", v |-> v]
Fail(s)    == [s |-> s, ok |-> "err", v |-> NoValue]
Unspec(s)  == [s |-> s, ok |-> "uns", v |-> NoValue]

Move(s, p) == Do([s EXCEPT !.p = p])
\* Replace the text between positions i and j by x, leave point at p.
Edit(s, i, j, x, p) == Do([s EXCEPT !.t = Splice(s.t, i, j, x), !.p = p])
Delete(s, i, j, p)  == IF i >= j THEN Do([s EXCEPT !.p = p]) ELSE Do([s EXCEPT !.t = Cut(s.t, i, j), !.p = p])
Matched(s, i, j) == Do([s EXCEPT !.p = j, !.m = [x |-> Between(s.t, i, j), s |-> i, e |-> j]])

RegBeg(s) == Min2(s.p, s.k)
RegEnd(s) == Max2(s.p, s.k)

Column(s) == LET n == Len(s.t) q == Min2(s.p, n)
             IN IF n = 0 THEN 0 ELSE q - LastIn(s.t, 1, q, LAMBDA b : b = NL)

SearchForward(s, x) ==
  LET i == IF s.p > Len(s.t) THEN 0 ELSE IndexFrom(s.t, x, s.p)
  IN IF i = 0 THEN Fail(s) ELSE Matched(s, i, i + Len(x))

SearchBackward(s, x) ==
  LET i == LastIndexUpTo(s.t, x, s.p - 1)
  IN IF i = 0 THEN Fail(s) ELSE Matched(s, i, i + Len(x))

ReSearchForward(s, r) ==
  LET n == Len(s.t) IN
  IF s.p > n THEN Fail(s)
  ELSE LET re == Compile(r) IN
       CASE re.ok = "uns" -> Unspec(s)
         [] re.ok = "bad" -> Fail(s)
         [] OTHER -> LET m == Find(re, SubSeq(s.t, s.p, n), 1)
                     IN IF m.s = 0 THEN Fail(s) ELSE Matched(s, s.p + m.s - 1, s.p + m.e - 1)

ReSearchBackward(s, r) ==
  LET re == Compile(r) IN
  CASE re.ok = "uns" -> Unspec(s)
    [] re.ok = "bad" -> Fail(s)
    [] OTHER -> LET ms == FindAll(re, SubSeq(s.t, 1, s.p - 1))
                IN IF ms = <<>> THEN Fail(s)
                   ELSE Matched(s, ms[Len(ms)].s, ms[Len(ms)].e)

ReplaceMatch(s, x) ==
  IF \/ s.m.x = <<>>
     \/ s.m.e > Len(s.t) + 1
     \/ Between(s.t, s.m.s, s.m.e) # s.m.x
  THEN Fail(s)
  ELSE Edit(s, s.m.s, s.m.e, x, s.m.s + Len(x))

ReplaceRegion(s, x) ==
  IF s.p = s.k THEN Do(s) ELSE Edit(s, RegBeg(s), RegEnd(s), x, RegBeg(s) + Len(x))

LookingAt(s, r) ==
  IF s.p > Len(s.t) THEN Ret(s, SymNil)
  ELSE LET re == Compile(r) rest == SubSeq(s.t, s.p, Len(s.t)) IN
       CASE re.ok = "uns" -> Unspec(s)
         [] re.ok = "bad" -> Ret(s, IF OccursAt(rest, r, 1) THEN SymT ELSE SymNil)
         [] OTHER -> LET m == Find(re, rest, 1) IN Ret(s, IF m.s = 1 THEN SymT ELSE SymNil)

LookingBack(s, r) ==
  IF s.p = 1 THEN Ret(s, SymNil)
  ELSE LET re == Compile(r) before == SubSeq(s.t, 1, s.p - 1) IN
       CASE re.ok = "uns" -> Unspec(s)
         [] re.ok = "bad" -> Ret(s, IF OccursAt(before, r, Len(before) - Len(r) + 1) THEN SymT ELSE SymNil)
         [] OTHER -> Ret(s, IF MatchesUpToEnd(re, before) THEN SymT ELSE SymNil)

StringMatch(s, r, x) ==
  LET re == Compile(r) IN
  CASE re.ok = "uns" -> Unspec(s)
    [] re.ok = "bad" -> LET i == IndexFrom(x, r, 1) IN Ret(s, IF i = 0 THEN SymNil ELSE Num(i - 1))
    [] OTHER -> LET m == Find(re, x, 1) IN Ret(s, IF m.s = 0 THEN SymNil ELSE Num(m.s - 1))

\* (Which characters outside of ASCII belong to a name after $ is not specified.)
ReplaceRegexpInString(s, r, to, x) ==
  LET re == Compile(r) IN
  CASE re.ok = "uns" -> Unspec(s)
    [] re.ok = "ok" /\ ~AsciiOnly(to) /\ (\E k \in 1..Len(to) : to[k] = DOLLAR) -> Unspec(s)
    [] re.ok = "bad" -> Fail(s)
    [] OTHER -> Ret(s, Str(SubstAll(re, x, to)))

Substring(x, a, b) ==
  LET i == Max2(a - 1, 0) j == Min2(b - 1, Len(x))
  IN Str(IF i > j THEN <<>> ELSE SubSeq(x, i + 1, j))

BufferSubstring(s, a, b) ==
  LET n == Len(s.t)
      i == Clamp(a, 1, n + 1)
      j == IF b = -1 THEN n + 1 ELSE Clamp(b, 1, n + 1)
  IN Str(IF i >= j THEN <<>> ELSE Between(s.t, i, j))

\* Case mapping is specified for texts of the letters in the tables of Case.tla.
CaseOK(x) == MapSpecified(x, 1)
CaseMap(s, x, y) == IF CaseOK(x) THEN Ret(s, Str(y)) ELSE Unspec(s)

Effect(s, f, a) ==
  LET t == s.t  p == s.p  k == s.k  n == Len(s.t)
      c == IF a = <<>> THEN 1 ELSE IF a[1].k = "n" THEN a[1].i ELSE 0
      x == IF a = <<>> THEN <<>> ELSE IF a[1].k = "s" THEN a[1].v ELSE <<>>
  IN
  CASE f = "forward-char"        -> Move(s, p + c)
    [] f = "backward-char"       -> Move(s, p - c)
    [] f = "forward-word"        -> Move(s, WordsOn(t, p, c))
    [] f = "backward-word"       -> Move(s, WordsBack(t, p, c))
    [] f = "beginning-of-line"   -> Move(s, LineStart(t, p))
    [] f = "end-of-line"         -> Move(s, LineEnd(t, p))
    [] f = "beginning-of-buffer" -> Move(s, 1)
    [] f = "end-of-buffer"       -> Move(s, n + 1)
    [] f = "goto-char"           -> Move(s, c)
    [] f = "goto-line"           -> Move(s, NthLineStart(t, 1, c))
    [] f = "insert"              -> Edit(s, p, p, x, p + Len(x))
    [] f = "delete-char"         -> IF c < 1 THEN Do(s) ELSE Delete(s, p, Min2(p + c, n + 1), p)
    [] f = "delete-backward-char" -> IF c < 1 THEN Do(s)
                                     ELSE LET i == Max2(1, p - c) IN Delete(s, i, p, i)
    [] f = "delete-line"         -> IF c < 1 THEN Do(s)
                                    ELSE LET i == LineStart(t, p) IN Delete(s, i, LinesOn(t, p, c), i)
    [] f = "kill-line"           -> IF c < 1 \/ p > n THEN Do(s)
                                    ELSE IF c = 1 THEN Delete(s, p + 1, LineEnd(t, p + 1), p)
                                    ELSE Delete(s, p, LinesOn(t, p, c), p)
    [] f = "kill-word"           -> IF c < 1 \/ p > n THEN Do(s) ELSE Delete(s, p, WordsOn(t, p, c), p)
    [] f = "backward-kill-word"  -> IF c < 1 THEN Do(s)
                                    ELSE LET i == WordsBack(t, p, c) IN Delete(s, i, Min2(p + 1, n + 1), i)
    [] f = "delete-region"       -> Delete(s, RegBeg(s), RegEnd(s), RegBeg(s))
    [] f = "replace-region"      -> ReplaceRegion(s, x)
    [] f = "search-forward"      -> SearchForward(s, x)
    [] f = "search-backward"     -> SearchBackward(s, x)
    [] f = "re-search-forward"   -> ReSearchForward(s, x)
    [] f = "re-search-backward"  -> ReSearchBackward(s, x)
    [] f = "replace-match"       -> ReplaceMatch(s, x)
    [] f = "looking-at"          -> LookingAt(s, x)
    [] f = "looking-back"        -> LookingBack(s, x)
    [] f = "mark-word"           -> IF p > n THEN Do(s)
                                    ELSE Do([s EXCEPT !.k = LastIn(t, 1, p - 1, LAMBDA b : ~IsWord(b)) + 1,
                                                      !.p = LET e == FirstIn(t, p, n, LAMBDA b : ~IsWord(b))
                                                            IN IF e = 0 THEN n + 1 ELSE e])
    [] f = "mark-line"           -> Do([s EXCEPT !.k = LineStart(t, p), !.p = LinesOn(t, p, c)])
    [] f = "mark-whole-buffer"   -> Do([s EXCEPT !.k = 1, !.p = n + 1])
    [] f = "set-mark"            -> Do([s EXCEPT !.k = p])
    [] f = "set-mark-command"    -> Do([s EXCEPT !.k = IF a = <<>> THEN p ELSE c])
    [] f = "exchange-point-and-mark" -> Do([s EXCEPT !.k = p, !.p = k])
    [] f = "mark"                -> Ret(s, Num(k))
    [] f = "point"               -> Ret(s, Num(p))
    [] f = "point-min"           -> Ret(s, Num(1))
    [] f = "point-max"           -> Ret(s, Num(n + 1))
    [] f = "buffer-size"         -> Ret(s, Num(n))
    [] f = "region-beginning"    -> Ret(s, Num(RegBeg(s)))
    [] f = "region-end"          -> Ret(s, Num(RegEnd(s)))
    [] f = "line-number-at-pos"  -> Ret(s, Num(1 + CountNL(t, 1, p - 1)))
    [] f = "current-column"      -> Ret(s, Num(Column(s)))
    [] f = "buffer-substring"    -> Ret(s, BufferSubstring(s, a[1].i, a[2].i))
    [] f = "length"              -> Ret(s, Num(Len(x)))
    [] f = "upcase"              -> CaseMap(s, x, Up(x))
    [] f = "downcase"            -> CaseMap(s, x, Down(x))
    [] f = "capitalize"          -> CaseMap(s, x, Capitalized(x))
    [] f = "concat"              -> Ret(s, Str(ConcatAll([j \in 1..Len(a) |-> a[j].v])))
    [] f = "substring"           -> Ret(s, Substring(x, a[2].i, IF Len(a) = 3 THEN a[3].i ELSE Len(x) + 1))
    [] f = "string-match"        -> StringMatch(s, x, a[2].v)
    [] f = "replace-regexp-in-string" -> ReplaceRegexpInString(s, x, a[2].v, a[3].v)

Call(s, f, a) == IF WellTyped(f, a) THEN Effect(s, f, a) ELSE Fail(s)

(***************************************************************************)
(* Evaluation of an expression (a value): strings and numbers evaluate to  *)
(* themselves, a list is a call of the function that its head names.       *)
(***************************************************************************)
RECURSIVE Eval(_, _), EvalArgs(_, _, _)
EvalArgs(s, xs, acc) ==          \* [s, ok, v: sequence of values], left to right
  IF xs = <<>> THEN [s |-> s, ok |-> "ok", v |-> acc]
  ELSE LET r == Eval(s, Head(xs))
       IN IF r.ok # "ok" THEN [s |-> r.s, ok |-> r.ok, v |-> acc]
          ELSE EvalArgs(r.s, Tail(xs), Append(acc, r.v))

Eval(s, e) ==
  IF e.k \in {"s", "n"} THEN Ret(s, e)
  ELSE IF e.k = "y" THEN Fail(s)
  ELSE IF e.v = <<>> THEN Fail(s)
  ELSE IF e.v[1].k # "y" THEN Fail(s)
  ELSE IF e.v[1].v \notin DOMAIN NameOf THEN Fail(s)
  ELSE LET r == EvalArgs(s, Tail(e.v), <<>>)
       IN IF r.ok # "ok" THEN [s |-> r.s, ok |-> r.ok, v |-> NoValue]
          ELSE Call(r.s, NameOf[e.v[1].v], r.v)

(***************************************************************************)
(* A program is a sequence of expressions, run in order up to the first    *)
(* error.  Its outcome: s: the state at the end or at the error, ok, v:    *)
(* the value of the last expression, n: the number of completed            *)
(* expressions (so prog[n + 1] is the one that failed), ev: the states     *)
(* after each completed expression, which is what tracing reports.         *)
(***************************************************************************)
RECURSIVE RunFrom(_, _, _, _, _)
RunFrom(s, prog, i, v, ev) ==
  IF i > Len(prog) THEN [s |-> s, ok |-> "ok", v |-> v, n |-> Len(prog), ev |-> ev]
  ELSE LET r == Eval(s, prog[i])
       IN IF r.ok # "ok" THEN [s |-> r.s, ok |-> r.ok, v |-> NoValue, n |-> i - 1, ev |-> ev]
          ELSE RunFrom(r.s, prog, i + 1, r.v, Append(ev, r.s))
RunProgram(s, prog) == RunFrom(s, prog, 1, NoValue, <<>>)
=============================================================================
