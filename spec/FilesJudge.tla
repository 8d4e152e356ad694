----------------------------- MODULE FilesJudge -----------------------------
(***************************************************************************)
(* Judging recorded calls on a file system against the specification.      *)
(* A record is {id, fs, real, ops}: the files at the start, the real name  *)
(* of each, and the calls.  A call has a kind and its arguments, and obs,  *)
(* what was seen of it, with the files afterwards:                         *)
(*  k = "lib":  ns, fmt, src;  obs: fs, v                                  *)
(*  k = "cli":  see Tool;      obs: fs, st, out, err (is something on      *)
(*              standard error?), marks (of the status lines), lines       *)
(*  k = "mcp":  ns, src, loop; obs: fs, n, good, bad (names), all (is      *)
(*              everything said to have succeeded?)                        *)
(*  k = "eval": inp, src, mode; obs: fs, st, out                           *)
(*  k = "bad":  a call that is refused; obs: fs, st                        *)
(*  k = "put":  no call: entry e is put at n by someone else; obs: fs      *)
(***************************************************************************)
EXTENDS Tool, Json

Seen1(e) == IF e.k = "lost" THEN Nothing ELSE e
SameFs(a, b) == DOMAIN a = DOMAIN b /\ \A n \in DOMAIN a : Seen1(a[n]) = Seen1(b[n])
\* Entries that were lost look like nothing afterwards.
Known(fs0, fs) == [n \in DOMAIN fs |-> IF fs0[n].k = "lost" /\ fs[n].k = "none" THEN Lost ELSE fs[n]]

EndsWith(t, x) == Len(x) <= Len(t) /\ SubSeq(t, Len(t) - Len(x) + 1, Len(t)) = x
StartsWith(t, x) == Len(x) <= Len(t) /\ SubSeq(t, 1, Len(x)) = x
Marker == <<64, 64, 77, 65, 82, 75, 64, 64>>
Occurs(x, t) == \E i \in 1..(Len(t) - Len(x) + 1) : OccursAt(t, x, i)

\* A value as it is printed.
JsonValue(txt, v) ==
  LET r == JStream(txt, 1, <<>>) IN
  r.ok # "err" /\ Len(r.v) = 1 /\ (r.ok = "uns" \/
    CASE v.k = "n" -> r.v[1].k = "n" /\ VEq(r.v[1].v, v)
      [] v.k \in {"s", "y"} -> r.v[1].k = "s" /\ (r.v[1].v = v.v \/ ~ValidUtf8(v.v))   \* bytes that JSON cannot express
      [] OTHER -> TRUE)
Prints(ofmt, txt, v) == IF ofmt = "json" THEN JsonValue(txt, v) ELSE ReadsAsValue(txt, v)
Header(real) == <<61, 61, 61, 32>> \o real \o <<32, 61, 61, 61>>
ErrorWord == <<69, 114, 114, 111, 114>>

ItemsShown(e, o, r) ==
  LET ls == o.obs.lines n == Len(r.items) IN
  /\ Len(ls) >= n
  /\ \A i \in 1..n : IF r.items[i].h # "" THEN ls[i] = Header(e.real[r.items[i].h]) ELSE Prints(o.ofmt, ls[i], r.items[i].v)
  /\ IF r.st = "ok" THEN Len(ls) = n
     ELSE Len(ls) > n => StartsWith(ls[n + 1], ErrorWord) /\ (o.plain => Len(ls) = n + 1)

CliSeen(e, o, r) ==
  /\ SameFs(o.obs.fs, r.fs)
  /\ r.st = "any" \/ (o.obs.st = r.st /\ (r.st = "err" => o.obs.err))
  /\ CASE r.k = "exact"  -> o.obs.out = r.t
       [] r.k = "suffix" -> EndsWith(o.obs.out, r.t)
       [] r.k = "marks"  -> o.obs.marks = [i \in 1..Len(o.ns) |-> <<r.v[i], o.ns[i]>>]
       [] r.k = "items"  -> ItemsShown(e, o, r)
       [] r.k = "dry"    -> ~Occurs(Marker, o.obs.out)
       [] OTHER -> TRUE

Count(x, s) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a[i], a) = Count(a[i], b)
Named(ns, v, what) == SelectSeq([i \in 1..Len(ns) |-> IF v[i] = what THEN ns[i] ELSE ""], LAMBDA x : x # "")

\* [ok, uns, want]
Judged(ok, uns, want) == [ok |-> uns \/ ok, uns |-> uns, want |-> want]
JudgeOp(e, fs, o) ==
  CASE o.k = "lib" ->
         LET r == EditFiles(fs, o.ns, o.fmt, o.src)
         IN Judged(o.obs.v = r.v /\ SameFs(o.obs.fs, r.fs), \E i \in 1..Len(r.v) : r.v[i] = "uns", r)
    [] o.k = "cli" ->
         LET rs == Cli(fs, o)
         IN Judged(\E r \in rs : CliSeen(e, o, r), \E r \in rs : r.st = "uns", rs)
    [] o.k = "mcp" ->
         LET fmt == Detected(o.src)
             r == IF o.loop THEN Rounds(fs, o.ns, fmt, o.src, 1, 60)
                  ELSE [n |-> 1, ok |-> TRUE] @@ EditFiles(fs, o.ns, fmt, o.src)
         IN Judged(/\ SameFs(o.obs.fs, r.fs) /\ o.obs.n = r.n /\ o.obs.all = AllGood(r.v)
                   /\ SameBag(o.obs.good, Named(o.ns, r.v, "ok")) /\ SameBag(o.obs.bad, Named(o.ns, r.v, "err")),
                   ~r.ok \/ \E i \in 1..Len(r.v) : r.v[i] = "uns", r)
    [] o.k = "eval" ->
         LET r == RunScript(Detected(o.src), o.src, o.inp)
         IN Judged(/\ SameFs(o.obs.fs, fs) /\ o.obs.st = r.ok
                   /\ r.ok = "ok" => IF o.mode = "expression" THEN ReadsAsValue(o.obs.out, r.v) ELSE o.obs.out = r.t,
                   r.ok = "uns", r)
    [] o.k = "put" -> LET r == Outside(fs, o.n, o.e) IN Judged(SameFs(o.obs.fs, r), FALSE, r)
    [] OTHER -> Judged(SameFs(o.obs.fs, fs) /\ o.obs.st = "err", FALSE, fs)
=============================================================================
