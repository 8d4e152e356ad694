------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* Editing files.  A file system is a function from names to entries       *)
(*    [k |-> "file", c |-> bytes, r, w |-> may be read / written]          *)
(*    [k |-> "none"], [k |-> "dir"], [k |-> "link", to |-> name]           *)
(* Every name lies in a directory in which files may be created, except    *)
(* that a name of kind "lost" has no directory.  [k |-> "full"] is on a    *)
(* full disk: it takes no bytes.  (It is never read.)                      *)
(***************************************************************************)
EXTENDS Syntax

File(c) == [k |-> "file", c |-> c, r |-> TRUE, w |-> TRUE]
ReadOnly(c) == [k |-> "file", c |-> c, r |-> TRUE, w |-> FALSE]
Unreadable(c) == [k |-> "file", c |-> c, r |-> FALSE, w |-> TRUE]
Nothing == [k |-> "none"]
Dir == [k |-> "dir"]
Link(n) == [k |-> "link", to |-> n]
Lost == [k |-> "lost"]
Full == [k |-> "full"]

Resolve(fs, n) == IF fs[n].k = "link" THEN fs[n].to ELSE n
CanRead(fs, n) == LET e == fs[Resolve(fs, n)] IN e.k = "file" /\ e.r
Content(fs, n) == fs[Resolve(fs, n)].c
CanWrite(fs, n) == LET e == fs[Resolve(fs, n)] IN e.k = "none" \/ (e.k = "file" /\ e.w)
Written(fs, n, c) ==
  LET m == Resolve(fs, n) IN [fs EXCEPT ![m] = IF @.k = "file" THEN [@ EXCEPT !.c = c] ELSE File(c)]

(***************************************************************************)
(* One edit: read, run, write; all or nothing.                             *)
(***************************************************************************)
EditFile(fs, n, fmt, src) ==
  IF ~CanRead(fs, n) THEN [ok |-> "err", fs |-> fs]
  ELSE LET r == RunScript(fmt, src, Content(fs, n)) IN
       IF r.ok # "ok" THEN [ok |-> r.ok, fs |-> fs]
       ELSE IF ~CanWrite(fs, n) THEN [ok |-> "err", fs |-> fs]
       ELSE [ok |-> "ok", fs |-> Written(fs, n, r.t)]

(***************************************************************************)
(* One edit with a backup in file `to`: made before the file is changed,   *)
(* and not at all if the script fails or the file cannot be read.  The     *)
(* set of outcomes: if in the end the file cannot be written, the backup   *)
(* may stay.                                                               *)
(***************************************************************************)
EditFileBackup(fs, n, fmt, src, to) ==
  LET r == IF CanRead(fs, n) THEN RunScript(fmt, src, Content(fs, n)) ELSE [ok |-> "err"] IN
  IF r.ok # "ok" THEN {[ok |-> r.ok, fs |-> fs]}
  ELSE IF ~CanWrite(fs, to) \/ Resolve(fs, to) = Resolve(fs, n) THEN {[ok |-> "err", fs |-> fs]}   \* no backup of itself
  ELSE LET b == Written(fs, to, Content(fs, n)) IN
       IF CanWrite(b, n) THEN {[ok |-> "ok", fs |-> Written(b, n, r.t)]}
       ELSE {[ok |-> "err", fs |-> fs], [ok |-> "err", fs |-> b]}

RECURSIVE EditFrom(_, _, _, _, _)
\* Files one after another: [fs, v: verdict of every file]
EditFrom(fs, ns, fmt, src, acc) ==
  IF ns = <<>> THEN [fs |-> fs, v |-> acc]
  ELSE LET e == EditFile(fs, Head(ns), fmt, src) IN EditFrom(e.fs, Tail(ns), fmt, src, Append(acc, e.ok))
EditFiles(fs, ns, fmt, src) == EditFrom(fs, ns, fmt, src, <<>>)

RECURSIVE EditBackupFrom(_, _, _, _, _, _)
\* The set of outcomes; the backup of n is n \o sfx.
EditBackupFrom(fs, ns, fmt, src, sfx, acc) ==
  IF ns = <<>> THEN {[fs |-> fs, v |-> acc]}
  ELSE UNION {EditBackupFrom(e.fs, Tail(ns), fmt, src, sfx, Append(acc, e.ok)) :
              e \in EditFileBackup(fs, Head(ns), fmt, src, Head(ns) \o sfx)}
EditWithBackup(fs, ns, fmt, src, sfx) == EditBackupFrom(fs, ns, fmt, src, sfx, <<>>)

(***************************************************************************)
(* Looping: rounds over all files up to and including the first one in     *)
(* which a file fails.  ok is FALSE if that takes more than max rounds.    *)
(***************************************************************************)
AllGood(v) == \A i \in 1..Len(v) : v[i] = "ok"
RECURSIVE Rounds(_, _, _, _, _, _)
Rounds(fs, ns, fmt, src, n, max) ==
  LET r == EditFiles(fs, ns, fmt, src) IN
  IF ~AllGood(r.v) THEN [ok |-> TRUE, n |-> n, fs |-> r.fs, v |-> r.v]
  ELSE IF n = max THEN [ok |-> FALSE, n |-> n, fs |-> r.fs, v |-> r.v]
  ELSE Rounds(r.fs, ns, fmt, src, n + 1, max)

(***************************************************************************)
(* Laws.                                                                   *)
(***************************************************************************)
FilesLaws(fs, ns, fmt, src) ==
  LET r == EditFiles(fs, ns, fmt, src) IN
  /\ Len(r.v) = Len(ns)
  \* only named files change, and only if a name of theirs succeeded
  /\ \A n \in DOMAIN fs : r.fs[n] # fs[n] => \E i \in 1..Len(ns) : Resolve(fs, ns[i]) = n /\ r.v[i] = "ok"
  \* a file whose names are listed once, and succeed, holds the output for its content
  /\ \A i \in 1..Len(ns) :
        (\A j \in 1..Len(ns) : j = i \/ Resolve(fs, ns[j]) # Resolve(fs, ns[i])) =>
        r.v[i] = EditFile(fs, ns[i], fmt, src).ok /\ (r.v[i] = "ok" => Content(r.fs, ns[i]) = RunScript(fmt, src, Content(fs, ns[i])).t)
  \* nothing depends on the files around
  /\ \A i \in 0..Len(ns) : LET a == EditFiles(fs, SubSeq(ns, 1, i), fmt, src)
                               b == EditFiles(a.fs, SubSeq(ns, i + 1, Len(ns)), fmt, src)
                           IN r = [fs |-> b.fs, v |-> a.v \o b.v]
BackupLaws(fs, ns, fmt, src, sfx) ==
  \A r \in EditWithBackup(fs, ns, fmt, src, sfx) :
    /\ \A i \in 1..Len(ns) : LET n == ns[i] to == n \o sfx IN
         (\A j \in 1..Len(ns) : j = i \/ (Resolve(fs, ns[j]) # Resolve(fs, n) /\ ns[j] # to /\ Resolve(fs, ns[j] \o sfx) \notin {Resolve(fs, to), Resolve(fs, n)})) =>
           \* edited exactly if possible, and then the backup has what was there
           /\ r.v[i] = "ok" => Content(r.fs, to) = Content(fs, n) /\ Content(r.fs, n) = RunScript(fmt, src, Content(fs, n)).t
           /\ r.v[i] = "err" => r.fs[Resolve(fs, n)] = fs[Resolve(fs, n)]
    \* nothing but the files and their backups changes
    /\ \A n \in DOMAIN fs : r.fs[n] # fs[n] => \E i \in 1..Len(ns) : n \in {Resolve(fs, ns[i]), Resolve(fs, ns[i] \o sfx)}
LoopLaws(fs, ns, fmt, src, max) ==
  LET r == Rounds(fs, ns, fmt, src, 1, max) IN
  r.ok => /\ ~AllGood(r.v) /\ r.n >= 1
          \* one more round gives the same verdicts only if nothing changed in the last one
          /\ \A i \in 1..Len(ns) : r.v[i] = "err" /\ (\A j \in 1..Len(ns) : Resolve(fs, ns[j]) = Resolve(fs, ns[i]) => r.v[j] = "err") =>
                EditFile(r.fs, ns[i], fmt, src).ok = "err"
\* What someone else does between two calls: entry e is at n from then on.
Outside(fs, n, e) == [fs EXCEPT ![n] = e]
=============================================================================
