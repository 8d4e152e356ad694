-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* What a user relies on, stated independently of how Editor computes it:  *)
(* relations between the state s before a command, the function f with     *)
(* arguments a, and the outcome r = [s, ok, v].  TLC checks them on every  *)
(* transition of the bounded models (EditorGen).                           *)
(***************************************************************************)
EXTENDS Editor, FiniteSets

N(s) == Len(s.t)
Pos(s) == 1..(Len(s.t) + 1)

\* The c-th smallest / largest element of a set of positions, or d.
NthUp(S, c, d) == IF c > Cardinality(S) THEN d ELSE CHOOSE q \in S : Cardinality({x \in S : x <= q}) = c
NthDown(S, c, d) == IF c > Cardinality(S) THEN d ELSE CHOOSE q \in S : Cardinality({x \in S : x >= q}) = c

WordEnds(t)   == {q \in 2..(Len(t) + 1) : IsWord(t[q - 1]) /\ (q = Len(t) + 1 \/ ~IsWord(t[q]))}
WordStarts(t) == {q \in 1..Len(t) : IsWord(t[q]) /\ (q = 1 \/ ~IsWord(t[q - 1]))}
LineStarts(t) == {1} \cup {q \in 2..(Len(t) + 1) : t[q - 1] = NL}

Arg1(a) == IF a = <<>> THEN 1 ELSE a[1].i
Counted(f) == f \in (OptNumFns \ {"set-mark-command"})

(* C01 *)
InBounds(s) == s.p \in Pos(s) /\ s.k \in Pos(s)
                /\ (s.m = NoMatch \/ (s.m.s >= 1 /\ s.m.e >= s.m.s /\ s.m.e - s.m.s = Len(s.m.x)))

(* C02 *)
MoveFns == {"forward-char", "backward-char", "forward-word", "backward-word", "goto-char", "goto-line",
            "beginning-of-line", "end-of-line", "beginning-of-buffer", "end-of-buffer"}
MoveLaw(s, f, a, r) ==
  (f \in MoveFns /\ r.ok = "ok") =>
    LET p == s.p  q == r.s.p  t == s.t  n == Len(t)  c == Arg1(a) IN
    /\ r.s = [s EXCEPT !.p = q]
    /\ q \in Pos(s)
    /\ CASE f = "forward-char"  -> q = p + c \/ (q = n + 1 /\ p + c > n) \/ (q = 1 /\ p + c < 1)
         [] f = "backward-char" -> q = p - c \/ (q = n + 1 /\ p - c > n) \/ (q = 1 /\ p - c < 1)
         [] f = "goto-char"     -> q = c \/ (q = n + 1 /\ c > n) \/ (q = 1 /\ c < 1)
         [] f = "forward-word"  -> q = IF c < 1 THEN p ELSE NthUp({x \in WordEnds(t) : x > p}, c, n + 1)
         [] f = "backward-word" -> q = IF c < 1 THEN p ELSE NthDown({x \in WordStarts(t) : x < p}, c, 1)
         [] f = "goto-line"     -> /\ q \in LineStarts(t)
                                   /\ LET i == Cardinality({x \in LineStarts(t) : x <= q})
                                      IN i = Clamp(c, 1, Cardinality(LineStarts(t)))
         [] f = "beginning-of-line" -> q \in LineStarts(t) /\ q <= p /\ \A x \in LineStarts(t) : x <= p => x <= q
         [] f = "end-of-line"   -> /\ q >= p /\ (q = n + 1 \/ t[q] = NL)
                                   /\ \A x \in p..(q - 1) : t[x] # NL
         [] f = "beginning-of-buffer" -> q = 1
         [] f = "end-of-buffer" -> q = n + 1

(* C03 *)
DeleteFns == {"delete-char", "delete-backward-char", "delete-line", "kill-line", "kill-word", "backward-kill-word"}
\* t' is t without the bytes from position i to position j
Without(t, u, i, j) == /\ i <= j /\ Len(u) = Len(t) - (j - i)
                       /\ \A x \in 1..Len(u) : u[x] = IF x < i THEN t[x] ELSE t[x + j - i]
MarkKept(s, r) == r.s.k = Min2(s.k, Len(r.s.t) + 1)
EditLaw(s, f, a, r) ==
  /\ (f = "insert" /\ r.ok = "ok") =>
       /\ Without(r.s.t, s.t, s.p, s.p + Len(a[1].v))
       /\ Between(r.s.t, s.p, s.p + Len(a[1].v)) = a[1].v
       /\ r.s.p = s.p + Len(a[1].v) /\ r.s.k = s.k /\ r.s.m = s.m
  /\ (f \in DeleteFns /\ r.ok = "ok") =>
       LET t == s.t  p == s.p  n == Len(t)  c == Arg1(a) IN
       /\ MarkKept(s, r) /\ r.s.m = s.m
       /\ \E i \in Pos(s), j \in Pos(s) :
            /\ Without(t, r.s.t, i, j)
            /\ CASE c < 1 -> i = j /\ r.s.p = p
                 [] f = "delete-char" -> i = p /\ (j = p + c \/ (j = n + 1 /\ p + c > n)) /\ r.s.p = p
                 [] f = "delete-backward-char" -> j = p /\ (i = p - c \/ (i = 1 /\ p - c < 1)) /\ r.s.p = i
                 [] f = "delete-line" -> /\ i \in LineStarts(t) /\ i <= p /\ \A x \in LineStarts(t) : x <= p => x <= i
                                         /\ j = NthUp({x \in LineStarts(t) : x > i}, c, n + 1)
                                         /\ r.s.p = i
                 [] f = "kill-line" /\ c = 1 -> /\ r.s.p = p
                                                /\ i = Min2(p + 1, n + 1)
                                                /\ (j = n + 1 \/ t[j] = NL)
                                                /\ \A x \in i..(j - 1) : t[x] # NL
                 [] f = "kill-line" -> i = p /\ j = NthUp({x \in LineStarts(t) : x > p}, c, n + 1) /\ r.s.p = p
                 [] f = "kill-word" -> i = p /\ j = NthUp({x \in WordEnds(t) : x > p}, c, n + 1) /\ r.s.p = p
                 [] f = "backward-kill-word" -> /\ i = NthDown({x \in WordStarts(t) : x < p}, c, 1)
                                                /\ j = Min2(p + 1, n + 1) /\ r.s.p = i

(* C04 *)
SearchFns == {"search-forward", "search-backward", "re-search-forward", "re-search-backward"}
LookFns == {"looking-at", "looking-back"}
Occurrences(t, x) == {q \in 1..(Len(t) + 1 - Len(x)) : OccursAt(t, x, q)}
SearchLaw(s, f, a, r) ==
  /\ (f \in SearchFns /\ r.ok = "err") => r.s = s
  /\ (f \in SearchFns /\ r.ok = "ok") =>
       /\ r.s.t = s.t /\ r.s.k = s.k
       /\ r.s.p = r.s.m.e /\ r.s.m.s <= r.s.m.e
       /\ r.s.m.x = Between(s.t, r.s.m.s, r.s.m.e)
       /\ f \in {"search-forward", "re-search-forward"} => r.s.m.s >= s.p
       /\ f \in {"search-backward", "re-search-backward"} => r.s.m.e <= s.p
  /\ (f = "search-forward" /\ Len(a) = 1 /\ a[1].k = "s") =>
       LET O == {q \in Occurrences(s.t, a[1].v) : q >= s.p /\ s.p <= N(s)} IN
       /\ (r.ok = "ok") <=> (O # {})
       /\ r.ok = "ok" => r.s.m.x = a[1].v /\ r.s.m.s \in O /\ \A q \in O : r.s.m.s <= q
  /\ (f = "search-backward" /\ Len(a) = 1 /\ a[1].k = "s") =>
       LET O == {q \in Occurrences(s.t, a[1].v) : q + Len(a[1].v) <= s.p} IN
       /\ (r.ok = "ok") <=> (O # {})
       /\ r.ok = "ok" => r.s.m.x = a[1].v /\ r.s.m.s \in O /\ \A q \in O : r.s.m.s >= q
  \* A pattern without special characters is a plain search.
  /\ (f = "re-search-forward" /\ Len(a) = 1 /\ a[1].k = "s" /\ \A i \in 1..Len(a[1].v) : IsWord(a[1].v[i])) =>
       r = SearchForward(s, a[1].v)
  /\ f \in LookFns => r.s = s
  /\ (f = "looking-at" /\ Len(a) = 1 /\ a[1].k = "s" /\ \A i \in 1..Len(a[1].v) : IsWord(a[1].v[i])) =>
       (r.v = SymT) = (s.p <= N(s) /\ OccursAt(s.t, a[1].v, s.p))
  /\ (f = "looking-back" /\ Len(a) = 1 /\ a[1].k = "s" /\ \A i \in 1..Len(a[1].v) : IsWord(a[1].v[i])) =>
       (r.v = SymT) = (s.p > 1 /\ OccursAt(s.t, a[1].v, s.p - Len(a[1].v)))

(* C05 *)
ReplaceLaw(s, f, a, r) ==
  f = "replace-match" =>
    /\ r.ok = "err" => r.s = s
    /\ r.ok = "ok" =>
         /\ s.m.x # <<>>
         /\ Between(s.t, s.m.s, s.m.e) = s.m.x
         /\ r.s.t = SubSeq(s.t, 1, s.m.s - 1) \o a[1].v \o SubSeq(s.t, s.m.e, N(s))
         /\ r.s.p = s.m.s + Len(a[1].v)
         /\ MarkKept(s, r)
    \* right after a successful search for something, replacing works
    /\ (s.m.x # <<>> /\ s.m.e = s.p /\ s.m.e <= N(s) + 1 /\ Between(s.t, s.m.s, s.m.e) = s.m.x
        /\ Len(a) = 1 /\ a[1].k = "s") => r.ok = "ok"

(* C06 *)
RegionFns == {"delete-region", "replace-region", "region-beginning", "region-end"}
MarkFns == {"set-mark", "set-mark-command", "exchange-point-and-mark", "mark", "mark-word", "mark-line", "mark-whole-buffer"}
Swapped(s) == [s EXCEPT !.p = s.k, !.k = s.p]
RegionLaw(s, f, a, r) ==
  /\ (f \in RegionFns /\ r.ok = "ok") =>
       LET w == Call(Swapped(s), f, a) IN
       /\ w.s.t = r.s.t /\ VEq(w.v, r.v)
       /\ s.p = s.k => r.s = s
       /\ (f \in {"delete-region", "replace-region"} /\ s.p # s.k) =>
            LET x == IF a = <<>> THEN <<>> ELSE a[1].v IN
            /\ r.s.t = SubSeq(s.t, 1, RegBeg(s) - 1) \o x \o SubSeq(s.t, RegEnd(s), N(s))
            /\ r.s.p = RegBeg(s) + Len(x) /\ w.s.p = r.s.p
  /\ (f \in MarkFns /\ r.ok = "ok") => r.s.t = s.t /\ r.s.m = s.m
  /\ (f \in {"set-mark", "set-mark-command", "mark"}) => r.s.p = s.p
  /\ (f = "exchange-point-and-mark" /\ r.ok = "ok") => r.s = Swapped(s)
  /\ (f = "mark-line" /\ r.ok = "ok") => r.s.k \in LineStarts(s.t) /\ r.s.k <= s.p
                                         /\ (r.s.p \in LineStarts(s.t) \/ r.s.p = N(s) + 1 \/ r.s.p = s.p)

(* C07, C08 *)
QueryFns == {"point", "mark", "point-min", "point-max", "buffer-size", "line-number-at-pos", "current-column",
             "buffer-substring", "region-beginning", "region-end"}
StringFns == {"concat", "length", "substring", "upcase", "downcase", "capitalize", "string-match",
              "replace-regexp-in-string"}
QueryLaw(s, f, a, r) ==
  /\ f \in QueryFns \cup StringFns => r.s = s
  /\ (f = "line-number-at-pos" /\ r.ok = "ok") => r.v.i = Cardinality({q \in LineStarts(s.t) : q <= s.p})
  /\ (f = "buffer-substring" /\ r.ok = "ok") => Len(r.v.v) <= N(s)
  /\ (f = "buffer-substring" /\ r.ok = "ok" /\ a[1].i \in Pos(s) /\ a[2].i \in Pos(s) /\ a[1].i <= a[2].i) =>
        r.v.v = Between(s.t, a[1].i, a[2].i)
StringLaw(s, f, a, r) ==
  \* the state has no influence
  (f \in StringFns /\ r.ok # "uns") => LET w == Call(NewState(<<>>), f, a) IN w.ok = r.ok /\ VEq(w.v, r.v)

(* C09, C22: a failing call has no effect; non-queries return the empty string *)
FailLaw(s, f, a, r) ==
  /\ r.ok = "err" => r.s = s
  /\ ~WellTyped(f, a) => r.ok = "err"
  /\ (r.ok = "ok" /\ f \notin QueryFns \cup StringFns \cup LookFns \cup {"mark"}) => r.v = NoValue

AllLaws(s, f, a, r) ==
  /\ InBounds(r.s)
  /\ MoveLaw(s, f, a, r)
  /\ EditLaw(s, f, a, r)
  /\ SearchLaw(s, f, a, r)
  /\ ReplaceLaw(s, f, a, r)
  /\ RegionLaw(s, f, a, r)
  /\ QueryLaw(s, f, a, r)
  /\ StringLaw(s, f, a, r)
  /\ FailLaw(s, f, a, r)
=============================================================================
