------------------------------ MODULE FilesGen ------------------------------
(***************************************************************************)
(* Every small file system, script and list of files, with what the calls  *)
(* that edit files do; and the laws of editing on each of them.            *)
(***************************************************************************)
EXTENDS Files, Json

CONSTANTS MaxList, MaxRounds, Wide

\* end-of-buffer; insert "x"
Grow == <<101,110,100,45,111,102,45,98,117,102,102,101,114,59,105,110,115,101,114,116,32,34,120,34>>
\* search-forward "b"; replace-match ""
Shrink == <<115,101,97,114,99,104,45,102,111,114,119,97,114,100,32,34,98,34,59,114,101,112,108,97,99,101,45,109,97,116,99,104,32,34,34>>
\* insert "x"; search-forward "zz"
Broken == <<105,110,115,101,114,116,32,34,120,34,59,115,101,97,114,99,104,45,102,111,114,119,97,114,100,32,34,122,122,34>>
\* insert "x"; insert (
Malformed == <<105,110,115,101,114,116,32,34,120,34,59,105,110,115,101,114,116,32,40>>
\* point
Idle == <<112,111,105,110,116>>
\* mark-whole-buffer; delete-region
Clear == <<109,97,114,107,45,119,104,111,108,101,45,98,117,102,102,101,114,59,100,101,108,101,116,101,45,114,101,103,105,111,110>>
\* ["insert", "x"]
Json1 == <<91,34,105,110,115,101,114,116,34,44,32,34,120,34,93>>
Scripts == << [fmt |-> "shell", src |-> Grow], [fmt |-> "sexp", src |-> Shrink], [fmt |-> "shell", src |-> Broken],
              [fmt |-> "shell", src |-> Malformed], [fmt |-> "json", src |-> Json1], [fmt |-> "shell", src |-> Clear], [fmt |-> "shell", src |-> Idle] >>

Kinds == {File(<<97, 98>>), File(<<>>), ReadOnly(<<98>>), Unreadable(<<98>>), Nothing, Dir} \cup IF Wide THEN {File(<<98, 98, 98>>), Lost} ELSE {}
Baks == {Nothing, File(<<122>>), Dir, Link("a")} \cup IF Wide THEN {ReadOnly(<<122>>), Lost} ELSE {}
Start == {[a |-> x, b |-> y, c |-> Link("a"), abak |-> z, bbak |-> Nothing, cbak |-> Nothing] : x \in Kinds, y \in Kinds, z \in Baks}
Names == {"a", "b", "c"}

VARIABLES fs, ns, s, judged
vars == <<fs, ns, s, judged>>
Init == fs \in Start /\ s \in 1..Len(Scripts) /\ ns = <<>> /\ judged = FALSE
Extend == ~judged /\ Len(ns) < MaxList /\ \E n \in Names : ns' = Append(ns, n) /\ UNCHANGED <<fs, s, judged>>
Judge == ~judged /\ ns # <<>> /\ judged' = TRUE /\ UNCHANGED <<fs, ns, s>>
Next == Extend \/ Judge
Spec == Init /\ [][Next]_vars

sc == Scripts[s]
Laws == judged => /\ FilesLaws(fs, ns, sc.fmt, sc.src)
                  /\ BackupLaws(fs, ns, sc.fmt, sc.src, "bak")
                  /\ LoopLaws(fs, ns, sc.fmt, sc.src, MaxRounds)
Emit == judged => PrintT(ToJson([fs |-> fs, ns |-> ns, s |-> sc,
                     edit |-> EditFiles(fs, ns, sc.fmt, sc.src),
                     bak |-> EditWithBackup(fs, ns, sc.fmt, sc.src, "bak"),
                     loop |-> Rounds(fs, ns, sc.fmt, sc.src, 1, MaxRounds)]))
=============================================================================
