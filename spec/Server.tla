------------------------------- MODULE Server --------------------------------
(***************************************************************************)
(* A session with the server: the state is the file system alone; nothing  *)
(* is remembered from one call to the next.  A call is a record            *)
(*   k = "mcp":  edit files (ns, src, loop)                                *)
(*   k = "eval": transform a text (inp, src, mode)                         *)
(*   k = "doc":  look up documentation; doc says which                     *)
(*   k = "bad":  a call that cannot be served: wrong or missing arguments, *)
(*               contradictory ones, an unknown tool, not a call at all    *)
(*   k = "put":  no call: someone else puts e at n                         *)
(* and its answer is a function of the call and of the files that it names.*)
(***************************************************************************)
EXTENDS Files

MaxServed == 60
\* [fs: the files afterwards, st, ans: what the answer says]
Serve(fs, c) ==
  CASE c.k = "mcp" ->
         LET fmt == Detected(c.src)
             r == IF c.loop THEN Rounds(fs, c.ns, fmt, c.src, 1, MaxServed) ELSE [n |-> 1, ok |-> TRUE] @@ EditFiles(fs, c.ns, fmt, c.src)
         IN [fs |-> r.fs, st |-> IF r.ok /\ \A i \in 1..Len(r.v) : r.v[i] # "uns" THEN "ok" ELSE "uns", ans |-> [n |-> r.n, v |-> r.v]]
    [] c.k = "eval" ->
         LET r == RunScript(Detected(c.src), c.src, c.inp)
         IN [fs |-> fs, st |-> r.ok, ans |-> IF r.ok # "ok" THEN [t |-> <<>>] ELSE IF c.mode = "expression" THEN [x |-> r.v] ELSE [t |-> r.t]]
    [] c.k = "doc" -> [fs |-> fs, st |-> "ok", ans |-> [d |-> c.doc]]
    [] c.k = "put" -> [fs |-> Outside(fs, c.n, c.e), st |-> "ok", ans |-> [t |-> <<>>]]
    [] OTHER -> [fs |-> fs, st |-> "err", ans |-> [t |-> <<>>]]

\* Only what the names resolve to is kept.
Named2(fs, ns) == {Resolve(fs, ns[i]) : i \in 1..Len(ns)} \cup {ns[i] : i \in 1..Len(ns)}
Only(fs, ns) == [n \in DOMAIN fs |-> IF n \in Named2(fs, ns) THEN fs[n] ELSE Nothing]
CallNames(c) == IF c.k = "mcp" THEN c.ns ELSE IF c.k = "put" THEN <<c.n>> ELSE <<>>

\* A call changes no file that it does not name, and other files have no influence on it.
ServerLaws(fs, c) ==
  LET r == Serve(fs, c) a == Serve(Only(fs, CallNames(c)), c) IN
  /\ \A n \in DOMAIN fs : n \notin Named2(fs, CallNames(c)) => r.fs[n] = fs[n]
  /\ r.st = a.st /\ r.ans = a.ans
  /\ \A n \in Named2(fs, CallNames(c)) : r.fs[n] = a.fs[n]
=============================================================================
