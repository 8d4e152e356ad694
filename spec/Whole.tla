------------------------------- MODULE Whole --------------------------------
(* The moments of editing in place with backups at which nothing is lost. *)
EXTENDS Files

Old(fs0, n) == Content(fs0, n)
Is(fs, n, c) == fs[Resolve(fs, n)].k = "file" /\ Content(fs, n) = c
\* The content from before is there in full, in the file or in its backup.
Available(fs0, fs, n, sfx) == Is(fs, n, Old(fs0, n)) \/ Is(fs, n \o sfx, Old(fs0, n))
\* A moment of editing the files ns (all different).
Whole(fs0, fs, ns, fmt, src, sfx) ==
  /\ \A i \in 1..Len(ns) : CanRead(fs0, ns[i]) => Available(fs0, fs, ns[i], sfx)
  \* a file that the script fails on is never touched
  /\ \A i \in 1..Len(ns) : CanRead(fs0, ns[i]) /\ RunScript(fmt, src, Old(fs0, ns[i])).ok = "err" => fs[ns[i]] = fs0[ns[i]]
  \* what is named by nobody stays
  /\ \A n \in DOMAIN fs0 : fs[n] # fs0[n] => \E i \in 1..Len(ns) : n \in {ns[i], ns[i] \o sfx}

=============================================================================
