-------------------------------- MODULE Tool --------------------------------
(***************************************************************************)
(* The command line: what a call of `texted edit` does to the files, what  *)
(* it prints and how it exits.  A call is a record                         *)
(*   ns: the files; fmt: the format ("" if it is not one); via: where the  *)
(*   script comes from ("s": src, "f": the file sf, "e": the expressions   *)
(*   es, "-": nowhere); inplace, dry, quiet, verbose; sfx: backup suffix   *)
(*   or ""; out: output file or ""; inp: standard input; torn: it cannot   *)
(*   be read; jam: standard output takes no bytes; ofmt: format of printed *)
(*   values ("" if it is not one)                                          *)
(* Its outcomes are a set of records                                       *)
(*   fs; st: exit status ("any" if not specified); v: verdict per file;    *)
(*   k, t, items: what is on standard output:                              *)
(*     "exact" t, "suffix" t (progress may be reported before), "marks"    *)
(*     (one per file), "items" (values and file headers), "dry", "any"     *)
(***************************************************************************)
EXTENDS Files

Outcome1(fs, st, v, k, t, items) == [fs |-> fs, st |-> st, v |-> v, k |-> k, t |-> t, items |-> items]
Refused(fs) == {Outcome1(fs, "err", <<>>, "exact", <<>>, <<>>)}

Contradictory(o) ==
  \/ o.fmt = ""
  \/ o.out # "" /\ (Len(o.ns) > 1 \/ o.inplace)
  \/ o.sfx # "" /\ ~o.inplace
  \/ o.via = "-" \/ (o.via = "s" /\ o.src = <<>>)
  \/ o.via # "e" /\ Len(o.ns) > 1 /\ ~o.inplace

\* A run whose result goes to standard output or to the file o.out.
Filter(fs, o, r) ==
  LET noise == o.verbose /\ ~o.quiet
      nothing == IF noise THEN "any" ELSE "exact"
  IN IF r.ok = "uns" THEN {Outcome1(fs, "uns", <<>>, "any", <<>>, <<>>)}
     ELSE IF r.ok = "err" THEN {Outcome1(fs, "err", <<>>, nothing, <<>>, <<>>)}
     ELSE IF o.out = "" THEN {Outcome1(fs, "ok", <<>>, IF noise THEN "suffix" ELSE "exact", r.t, <<>>)}
     ELSE IF fs[o.out].k = "full" THEN {Outcome1(fs, IF r.t = <<>> THEN "any" ELSE "err", <<>>, nothing, <<>>, <<>>)}
     ELSE IF CanWrite(fs, o.out) THEN {Outcome1(Written(fs, o.out, r.t), "ok", <<>>, nothing, <<>>, <<>>)}
     ELSE {Outcome1(fs, "err", <<>>, nothing, <<>>, <<>>)}

InPlace(fs, o, src) ==
  {Outcome1(r.fs, IF \E i \in 1..Len(r.v) : r.v[i] = "uns" THEN "uns" ELSE IF AllGood(r.v) THEN "ok" ELSE "err",
            r.v, IF o.quiet THEN "exact" ELSE "marks", <<>>, <<>>)
   : r \in IF o.sfx = "" THEN {EditFiles(fs, o.ns, o.fmt, src)} ELSE EditWithBackup(fs, o.ns, o.fmt, src, o.sfx)}

(***************************************************************************)
(* Expressions: one state for all of them, and a fresh one for every file. *)
(***************************************************************************)
RECURSIVE Values(_, _, _, _)
\* [ok, items] of the expressions es from state s on
Values(s, fmt, es, acc) ==
  IF es = <<>> THEN [ok |-> "ok", items |-> acc]
  ELSE LET p == ParseScript(fmt, Head(es)) IN
       IF p.ok # "ok" THEN [ok |-> p.ok, items |-> acc]
       ELSE LET r == RunProgram(s, p.v) IN
            IF r.ok # "ok" THEN [ok |-> r.ok, items |-> acc]
            ELSE Values(r.s, fmt, Tail(es), Append(acc, [h |-> "", v |-> r.v]))
RECURSIVE FileValues(_, _, _, _)
FileValues(fs, o, ns, acc) ==
  IF ns = <<>> THEN [ok |-> "ok", items |-> acc]
  ELSE IF ~CanRead(fs, Head(ns)) THEN [ok |-> "err", items |-> acc]
  ELSE LET head == IF Len(o.ns) > 1 THEN <<[h |-> Head(ns), v |-> NoValue]>> ELSE <<>>
           r == Values(NewState(Content(fs, Head(ns))), o.fmt, o.es, acc \o head)
       IN IF r.ok # "ok" THEN r ELSE FileValues(fs, o, Tail(ns), r.items)
Expressions(fs, o) ==
  LET r == IF o.ns = <<>> THEN (IF o.torn THEN [ok |-> "err", items |-> <<>>] ELSE Values(NewState(o.inp), o.fmt, o.es, <<>>)) ELSE FileValues(fs, o, o.ns, <<>>)
  IN IF o.ofmt = "" /\ ~o.quiet THEN {Outcome1(fs, "err", <<>>, "any", <<>>, <<>>)}
     ELSE {Outcome1(fs, r.ok, <<>>, IF o.quiet THEN "exact" ELSE "items", <<>>, r.items)}

CliFree(fs, o) ==
  IF Contradictory(o) THEN Refused(fs)
  ELSE IF o.via = "e" THEN Expressions(fs, o)
  ELSE IF o.dry THEN {Outcome1(fs, "any", <<>>, "dry", <<>>, <<>>)}
  ELSE IF o.via = "f" /\ ~CanRead(fs, o.sf) THEN Refused(fs)
  ELSE LET src == IF o.via = "f" THEN Content(fs, o.sf) ELSE o.src IN
       IF o.ns = <<>> THEN Filter(fs, o, IF o.torn THEN [ok |-> "err", t |-> <<>>, v |-> NoValue] ELSE RunScript(o.fmt, src, o.inp))
       ELSE IF o.inplace THEN InPlace(fs, o, src)
       ELSE Filter(fs, o, IF CanRead(fs, o.ns[1]) THEN RunScript(o.fmt, src, Content(fs, o.ns[1])) ELSE [ok |-> "err", t |-> <<>>, v |-> NoValue])

\* What should be on standard output, and is not, is a failure.  (Nothing can fail to be written, too.)
Jammed(r) ==
  LET must == (r.k \in {"exact", "suffix"} /\ r.t # <<>>) \/ (r.k = "items" /\ r.items # <<>>)
  IN Outcome1(r.fs, IF r.st = "uns" THEN "uns" ELSE IF must \/ r.st = "err" THEN "err" ELSE "any", r.v, "any", <<>>, <<>>)
Cli(fs, o) == IF o.jam THEN {Jammed(r) : r \in CliFree(fs, o)} ELSE CliFree(fs, o)
=============================================================================
