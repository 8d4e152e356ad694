-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* The editing machine on texts of any size.  A text is a sequence of      *)
(* runs [c: byte, n: how often], neighbours being different bytes, and     *)
(* every command is given by arithmetic on the runs.  BigGen checks that   *)
(* this machine is the one of Editor (on all small texts, through Flat); *)
(* BigTrace holds the code to it on texts and scripts of megabytes.        *)
(*                                                                         *)
(* State     [t: runs, p: point, k: mark, m: [x: runs, s, e]]              *)
(* Command   [f: name, n: numbers, x: texts, q: how many times]            *)
(* Outcome   [s, ok, v] as in Editor, strings being runs                   *)
(*                                                                         *)
(* The patterns of commands with regular expressions are <<[c, n]>>: the   *)
(* letter c n times, or, if n = 0, "c+".  The command "nest" inserts a     *)
(* letter d times by d nested calls of concat, "open" is a script of d     *)
(* opening parentheses.                                                    *)
(***************************************************************************)
EXTENDS Editor, FiniteSets

Of(c, n) == [c |-> c, n |-> n]
Push(t, r) == IF r.n = 0 THEN t
              ELSE IF t # <<>> /\ t[Len(t)].c = r.c THEN [t EXCEPT ![Len(t)].n = @ + r.n]
              ELSE Append(t, r)
Join(a, b) == FoldLeft(Push, a, b)
Size(t) == FoldLeft(LAMBDA n, r : n + r.n, 0, t)
\* The runs with the position at which each of them starts.
Placed(t) == FoldLeft(LAMBDA a, r : [o |-> a.o + r.n, u |-> Append(a.u, [c |-> r.c, n |-> r.n, a |-> a.o, z |-> a.o + r.n])],
                      [o |-> 1, u |-> <<>>], t).u
\* The text between positions i and j.
Part(t, i, j) == FoldLeft(LAMBDA a, r : Push(a, Of(r.c, Max2(0, Min2(r.z, j) - Max2(r.a, i)))), <<>>, Placed(t))
Paste(t, i, j, x) == Join(Join(Part(t, 1, i), x), Part(t, j, Size(t) + 1))

MaxOf(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : y <= x
MinOf(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : y >= x

\* The places of the runs of which the byte passes Test.
Places(t, Test(_)) == LET u == Placed(t) IN {u[i] : i \in {i \in 1..Len(u) : Test(u[i].c)}}
\* Last byte before position p, first at or after p, that passes Test.
LastBefore(t, p, Test(_)) == MaxOf({Min2(r.z, p) - 1 : r \in {r \in Places(t, Test) : r.a < p}}, 0)
FirstFrom(t, p, Test(_))  == MinOf({Max2(r.a, p) : r \in {r \in Places(t, Test) : r.z > p}}, 0)
IsNL(b) == b = NL
NoWord(b) == ~IsWord(b)

BLineStart(t, p) == LastBefore(t, p, IsNL) + 1
BLineEnd(t, p) == LET j == FirstFrom(t, p, IsNL) IN IF j = 0 THEN Size(t) + 1 ELSE j
\* Position of the c-th newline (c >= 1) at or after p, 0 if there are fewer.
NthNL(t, p, c) ==
  FoldLeft(LAMBDA a, r :
             IF a.r # 0 \/ r.c # NL \/ r.z <= p THEN a
             ELSE LET i == Max2(r.a, p) h == r.z - i
                  IN IF h >= a.c THEN [r |-> i + a.c - 1, c |-> 0] ELSE [r |-> 0, c |-> a.c - h],
           [r |-> 0, c |-> c], Placed(t)).r
BLinesOn(t, p, c) == IF c < 1 THEN p ELSE LET j == NthNL(t, p, c) IN IF j = 0 THEN Size(t) + 1 ELSE j + 1
BNthLine(t, c) == IF c <= 1 THEN 1 ELSE LET j == NthNL(t, 1, c - 1) IN IF j = 0 THEN BLineStart(t, Size(t) + 1) ELSE j + 1
NLsBefore(t, p) == FoldLeft(LAMBDA n, r : IF r.c = NL THEN n + Max2(0, Min2(r.z, p) - r.a) ELSE n, 0, Placed(t))

WordEdges(t) == LET u == Placed(t) IN
  [s |-> {u[i].a : i \in {i \in 1..Len(u) : IsWord(u[i].c) /\ (i = 1 \/ NoWord(u[i - 1].c))}},
   e |-> {u[i].z : i \in {i \in 1..Len(u) : IsWord(u[i].c) /\ (i = Len(u) \/ NoWord(u[i + 1].c))}}]
Nth(S, c, d, Before(_, _)) == IF c > Cardinality(S) THEN d ELSE CHOOSE q \in S : Cardinality({x \in S : x = q \/ Before(x, q)}) = c
BWordsOn(t, p, c)   == IF c < 1 THEN p ELSE Nth({q \in WordEdges(t).e : q > p}, c, Size(t) + 1, LAMBDA x, y : x < y)
BWordsBack(t, p, c) == IF c < 1 THEN p ELSE Nth({q \in WordEdges(t).s : q < p}, c, 1, LAMBDA x, y : x > y)

\* The positions at which the pattern x can start, the first and the last one of each place.
Finds(t, x) ==
  LET u == Placed(t) m == Len(x) IN
  IF m = 1 THEN UNION {{u[i].a, u[i].z - x[1].n} : i \in {i \in 1..Len(u) : u[i].c = x[1].c /\ u[i].n >= x[1].n}}
  ELSE {u[i].z - x[1].n : i \in {i \in 1..(Len(u) - m + 1) :
          /\ \A j \in 1..m : u[i + j - 1].c = x[j].c
          /\ u[i].n >= x[1].n /\ u[i + m - 1].n >= x[m].n
          /\ \A j \in 2..(m - 1) : u[i + j - 1].n = x[j].n}}

BNorm(s) == LET n == Size(s.t) + 1 IN [s EXCEPT !.p = Clamp(s.p, 1, n), !.k = Clamp(s.k, 1, n)]
Do2(s) == [s |-> BNorm(s), ok |-> "ok", v |-> NoValue]
BMove(s, p) == Do2([s EXCEPT !.p = p])
Change(s, i, j, x, p) == Do2([s EXCEPT !.t = Paste(s.t, i, j, x), !.p = p])
Erase(s, i, j, p) == IF i >= j THEN Do2([s EXCEPT !.p = p]) ELSE Change(s, i, j, <<>>, p)

Hit(s, i, j) == Do2([s EXCEPT !.p = j, !.m = [x |-> Part(s.t, i, j), s |-> i, e |-> j]])
BSearchForward(s, x) ==
  LET n == Size(s.t) IN
  IF s.p > n THEN Fail(s)
  ELSE IF x = <<>> THEN Hit(s, s.p, s.p)
  ELSE LET i == MinOf(Finds(Part(s.t, s.p, n + 1), x), 0)
       IN IF i = 0 THEN Fail(s) ELSE Hit(s, s.p + i - 1, s.p + i - 1 + Size(x))
BSearchBackward(s, x) ==
  IF x = <<>> THEN Hit(s, s.p, s.p)
  ELSE LET i == MaxOf(Finds(Part(s.t, 1, s.p), x), 0)
       IN IF i = 0 THEN Fail(s) ELSE Hit(s, i, i + Size(x))

\* Matches of a pattern <<[c, n]>>: within a run of c they follow one another.
Fits(t, r) == LET u == Placed(t) IN {u[i] : i \in {i \in 1..Len(u) : u[i].c = r.c /\ u[i].n >= Max2(r.n, 1)}}
BReForward(s, r) ==
  LET n == Size(s.t)
      h == Fits(Part(s.t, s.p, n + 1), r)
      f == CHOOSE x \in h : \A y \in h : x.a <= y.a
  IN IF s.p > n \/ h = {} THEN Fail(s)
     ELSE Hit(s, s.p + f.a - 1, s.p + f.a - 1 + IF r.n = 0 THEN f.n ELSE r.n)
BReBackward(s, r) ==
  LET h == Fits(Part(s.t, 1, s.p), r)
      f == CHOOSE x \in h : \A y \in h : x.a >= y.a
      e == IF r.n = 0 THEN f.z ELSE f.a + (f.n \div r.n) * r.n
  IN IF h = {} THEN Fail(s) ELSE Hit(s, IF r.n = 0 THEN f.a ELSE e - r.n, e)
BLookingAt(t, r) == LET u == t IN u # <<>> /\ u[1].c = r.c /\ u[1].n >= Max2(r.n, 1)
BLookingBack(t, r) == t # <<>> /\ t[Len(t)].c = r.c /\ t[Len(t)].n >= Max2(r.n, 1)
Truth(b) == IF b THEN SymT ELSE SymNil

BReplaceMatch(s, x) ==
  IF s.m.x = <<>> \/ s.m.e > Size(s.t) + 1 \/ Part(s.t, s.m.s, s.m.e) # s.m.x THEN Fail(s)
  ELSE Change(s, s.m.s, s.m.e, x, s.m.s + Size(x))

\* Every match of r in the text becomes y, a text of one run or none.
BSubst(t, r, y) ==
  FoldLeft(LAMBDA a, u :
             IF u.c # r.c THEN Push(a, u)
             ELSE LET q == IF r.n = 0 THEN 1 ELSE u.n \div r.n
                      rest == IF r.n = 0 THEN 0 ELSE u.n % r.n
                      b == IF y = <<>> THEN a ELSE Push(a, Of(y[1].c, y[1].n * q))
                  IN Push(b, Of(u.c, rest)),
           <<>>, t)
\* Here case mapping is specified for text that is UTF-8 and has no case outside of ASCII and U+00C0..U+00FE.
LatinOK(x) == \A i \in 1..Len(x) :
                \/ x[i] < 128
                \/ /\ x[i] = 195 /\ i < Len(x) /\ x[i + 1] >= 128 /\ x[i + 1] <= 190
                   /\ x[i + 1] # 159 /\ x[i + 1] # 151 /\ x[i + 1] # 183
                \/ x[i] >= 128 /\ x[i] <= 191 /\ i > 1 /\ x[i - 1] >= 195
                \/ x[i] = 226 /\ RuneLen(x, i) = 3 /\ x[i + 1] \in {128, 130, 134}
                \/ x[i] >= 128 /\ x[i] <= 191 /\ i > 2 /\ x[i - 2] = 226 /\ x[i - 1] \in {128, 130, 134}
                \/ x[i] \in {228, 230} /\ RuneLen(x, i) = 3
                \/ x[i] >= 128 /\ x[i] <= 191 /\ i > 2 /\ x[i - 2] \in {228, 230}
                \/ x[i] = 240 /\ RuneLen(x, i) = 4 /\ x[i + 1] = 159
                \/ x[i] >= 128 /\ x[i] <= 191 /\ i > 2 /\ x[i - 2] = 240
                \/ x[i] >= 128 /\ x[i] <= 191 /\ i > 3 /\ x[i - 3] = 240
\* Byte by byte: enough for these letters.
UpByte(t, i) ==
  LET b == t[i] IN
  IF b >= 97 /\ b <= 122 THEN b - 32
  ELSE IF i > 1 /\ t[i - 1] = 195 /\ b >= 160 /\ b <= 190 /\ b # 183 THEN b - 32
  ELSE b
DownByte(t, i) ==
  LET b == t[i] IN
  IF b >= 65 /\ b <= 90 THEN b + 32
  ELSE IF i > 1 /\ t[i - 1] = 195 /\ b >= 128 /\ b <= 158 /\ b # 151 THEN b + 32
  ELSE b
UpBytes(t) == [i \in 1..Len(t) |-> UpByte(t, i)]
DownBytes(t) == [i \in 1..Len(t) |-> DownByte(t, i)]
\* The first byte of a run may belong to a letter with the byte before it; LatinOK sees all that matters of a run.
Mapped(t, Map(_)) == FoldLeft(LAMBDA a, i : LET before == IF i = 1 THEN 0 ELSE t[i - 1].c
                                            IN Push(Push(a, Of(Map(<<before, t[i].c>>)[2], 1)), Of(Map(<<0, t[i].c>>)[2], t[i].n - 1)),
                              <<>>, [i \in 1..Len(t) |-> i])
Shortened(t) == FoldLeft(LAMBDA a, r : a \o [i \in 1..Min2(r.n, 4) |-> r.c], <<>>, t)
BCase(s, t, Map(_)) == IF LatinOK(Shortened(t)) THEN Ret(s, Str(Mapped(t, Map))) ELSE Unspec(s)

\* Lists nested this deep are accepted; deeper ones may be rejected, but must not end the process.
Sure == 9990

BigCall(s, o) ==
  LET f == o.f  t == s.t  p == s.p  k == s.k  n == Size(t)
      c == IF o.n = <<>> THEN 1 ELSE o.n[1]
      x == IF o.x = <<>> THEN <<>> ELSE o.x[1]
      b == Min2(p, k)  e == Max2(p, k)
  IN
  CASE f = "forward-char"        -> BMove(s, p + c)
    [] f = "backward-char"       -> BMove(s, p - c)
    [] f = "forward-word"        -> BMove(s, BWordsOn(t, p, c))
    [] f = "backward-word"       -> BMove(s, BWordsBack(t, p, c))
    [] f = "beginning-of-line"   -> BMove(s, BLineStart(t, p))
    [] f = "end-of-line"         -> BMove(s, BLineEnd(t, p))
    [] f = "beginning-of-buffer" -> BMove(s, 1)
    [] f = "end-of-buffer"       -> BMove(s, n + 1)
    [] f = "goto-char"           -> BMove(s, c)
    [] f = "goto-line"           -> BMove(s, BNthLine(t, c))
    [] f = "insert"              -> Change(s, p, p, x, p + Size(x))
    [] f = "delete-char"         -> IF c < 1 THEN Do2(s) ELSE Erase(s, p, Min2(p + c, n + 1), p)
    [] f = "delete-backward-char" -> IF c < 1 THEN Do2(s) ELSE LET i == Max2(1, p - c) IN Erase(s, i, p, i)
    [] f = "delete-line"         -> IF c < 1 THEN Do2(s) ELSE LET i == BLineStart(t, p) IN Erase(s, i, BLinesOn(t, p, c), i)
    [] f = "kill-line"           -> IF c < 1 \/ p > n THEN Do2(s)
                                    ELSE IF c = 1 THEN Erase(s, p + 1, BLineEnd(t, p + 1), p)
                                    ELSE Erase(s, p, BLinesOn(t, p, c), p)
    [] f = "kill-word"           -> IF c < 1 \/ p > n THEN Do2(s) ELSE Erase(s, p, BWordsOn(t, p, c), p)
    [] f = "backward-kill-word"  -> IF c < 1 THEN Do2(s) ELSE LET i == BWordsBack(t, p, c) IN Erase(s, i, Min2(p + 1, n + 1), i)
    [] f = "delete-region"       -> Erase(s, b, e, b)
    [] f = "replace-region"      -> IF p = k THEN Do2(s) ELSE Change(s, b, e, x, b + Size(x))
    [] f = "search-forward"      -> BSearchForward(s, x)
    [] f = "search-backward"     -> BSearchBackward(s, x)
    [] f = "re-search-forward"   -> BReForward(s, x[1])
    [] f = "re-search-backward"  -> BReBackward(s, x[1])
    [] f = "looking-at"          -> Ret(s, Truth(BLookingAt(Part(t, p, n + 1), x[1])))
    [] f = "looking-back"        -> Ret(s, Truth(BLookingBack(Part(t, 1, p), x[1])))
    [] f = "replace-match"       -> BReplaceMatch(s, x)
    [] f = "mark-word"           -> IF p > n THEN Do2(s)
                                    ELSE Do2([s EXCEPT !.k = LastBefore(t, p, NoWord) + 1,
                                                       !.p = LET j == FirstFrom(t, p, NoWord) IN IF j = 0 THEN n + 1 ELSE j])
    [] f = "mark-line"           -> Do2([s EXCEPT !.k = BLineStart(t, p), !.p = BLinesOn(t, p, c)])
    [] f = "mark-whole-buffer"   -> Do2([s EXCEPT !.k = 1, !.p = n + 1])
    [] f = "set-mark"            -> Do2([s EXCEPT !.k = p])
    [] f = "set-mark-command"    -> Do2([s EXCEPT !.k = IF o.n = <<>> THEN p ELSE c])
    [] f = "exchange-point-and-mark" -> Do2([s EXCEPT !.k = p, !.p = k])
    [] f = "mark"                -> Ret(s, Num(k))
    [] f = "point"               -> Ret(s, Num(p))
    [] f = "point-max"           -> Ret(s, Num(n + 1))
    [] f = "buffer-size"         -> Ret(s, Num(n))
    [] f = "region-beginning"    -> Ret(s, Num(b))
    [] f = "region-end"          -> Ret(s, Num(e))
    [] f = "line-number-at-pos"  -> Ret(s, Num(1 + NLsBefore(t, p)))
    [] f = "buffer-substring"    -> LET i == Clamp(o.n[1], 1, n + 1)
                                        j == IF o.n[2] = -1 THEN n + 1 ELSE Clamp(o.n[2], 1, n + 1)
                                    IN Ret(s, Str(IF i >= j THEN <<>> ELSE Part(t, i, j)))
    [] f = "length"              -> Ret(s, Num(Size(x)))
    [] f = "concat"              -> Ret(s, Str(FoldLeft(Join, <<>>, o.x)))
    [] f = "substring"           -> LET i == Max2(o.n[1] - 1, 0) + 1
                                        j == IF Len(o.n) = 2 THEN Min2(o.n[2], Size(x) + 1) ELSE Size(x) + 1
                                    IN Ret(s, Str(IF i >= j THEN <<>> ELSE Part(x, i, j)))
    [] f = "upcase"              -> BCase(s, x, UpBytes)
    [] f = "downcase"            -> BCase(s, x, DownBytes)
    [] f = "string-match"        -> LET h == Fits(o.x[2], x[1])
                                    IN Ret(s, IF h = {} THEN SymNil ELSE Num(MinOf({r.a : r \in h}, 0) - 1))
    [] f = "replace-regexp-in-string" -> Ret(s, Str(BSubst(o.x[3], x[1], o.x[2])))
    [] f = "nest"                -> IF c <= Sure THEN Change(s, p, p, Join(<<>>, <<Of(x[1].c, c)>>), p + c)
                                    ELSE Unspec(s)
    [] f = "open"                -> Fail(s)

\* A command, as many times as it says or up to its first failure.
Times(s, o) == FoldLeft(LAMBDA r, i : IF r.ok # "ok" THEN r ELSE BigCall(r.s, o), [s |-> s, ok |-> "ok", v |-> NoValue], [i \in 1..o.q |-> i])

Script(t, p) == FoldLeft(LAMBDA r, o : IF r.ok # "ok" THEN r ELSE Times(r.s, o),
                         [s |-> [t |-> t, p |-> 1, k |-> 1, m |-> NoMatch], ok |-> "ok", v |-> NoValue], p)
\* The script again and again, up to its first failure: the rounds and the last text.
RECURSIVE Again(_, _, _)
Again(t, p, n) == LET r == Script(t, p)
                  IN IF r.ok = "ok" THEN Again(r.s.t, p, n + 1) ELSE [n |-> n, t |-> t]
=============================================================================
