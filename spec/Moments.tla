------------------------------ MODULE Moments -------------------------------
(***************************************************************************)
(* Editing in place with backups, moment by moment: a file is written by   *)
(* emptying it and then adding to it, and the process may be killed        *)
(* between any two of these steps.  Whole describes every moment at which  *)
(* nothing is lost.                                                        *)
(***************************************************************************)
EXTENDS Whole

(***************************************************************************)
(* The machine.                                                            *)
(***************************************************************************)
CONSTANTS Contents, Fmt, Src, MaxFiles
VARIABLES fs0, fs, ns, at, pc, rest
mvars == <<fs0, fs, ns, at, pc, rest>>
Sfx == "bak"
MNames == <<"a", "b">>
MInit == /\ ns \in {SubSeq(MNames, 1, k) : k \in 1..MaxFiles}
         /\ \E x \in Contents, y \in Contents, z \in {Nothing, File(<<122, 122, 122>>), ReadOnly(<<122>>)} :
              fs0 = [a |-> File(x), b |-> File(y), abak |-> z, bbak |-> Nothing]
         /\ fs = fs0 /\ at = 1 /\ pc = "start" /\ rest = <<>>
New == RunScript(Fmt, Src, Content(fs, ns[at]))
Empty(n) == Written(fs, n, <<>>)
Next1 == at' = at + 1 /\ pc' = "start"
MStart == /\ pc = "start" /\ at <= Len(ns)
          /\ IF New.ok = "ok" /\ CanWrite(fs, ns[at] \o Sfx)
             THEN pc' = "backup" /\ at' = at /\ rest' = Content(fs, ns[at]) /\ fs' = Empty(ns[at] \o Sfx)
             ELSE Next1 /\ UNCHANGED <<fs, rest>>
          /\ UNCHANGED <<fs0, ns>>
\* some more bytes of rest
MBackup == /\ pc = "backup" /\ rest # <<>>
           /\ \E k \in 1..Len(rest) :
                /\ fs' = Written(fs, ns[at] \o Sfx, Content(fs, ns[at] \o Sfx) \o SubSeq(rest, 1, k))
                /\ rest' = SubSeq(rest, k + 1, Len(rest))
           /\ UNCHANGED <<fs0, ns, at, pc>>
MOpen == /\ pc = "backup" /\ rest = <<>> /\ pc' = "write" /\ rest' = New.t /\ fs' = Empty(ns[at]) /\ UNCHANGED <<fs0, ns, at>>
MWrite == /\ pc = "write"
          /\ IF rest = <<>> THEN Next1 /\ UNCHANGED <<fs, rest>>
             ELSE \E k \in 1..Len(rest) :
                    /\ fs' = Written(fs, ns[at], Content(fs, ns[at]) \o SubSeq(rest, 1, k))
                    /\ rest' = SubSeq(rest, k + 1, Len(rest)) /\ UNCHANGED <<at, pc>>
          /\ UNCHANGED <<fs0, ns>>
MNext == MStart \/ MBackup \/ MOpen \/ MWrite
MSpec == MInit /\ [][MNext]_mvars
AlwaysWhole == Whole(fs0, fs, ns, Fmt, Src, Sfx)
\* in the end it is what the specification of files says
EndsRight == at > Len(ns) => \E r \in EditWithBackup(fs0, ns, Fmt, Src, Sfx) : fs = r.fs
=============================================================================
