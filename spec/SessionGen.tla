----------------------------- MODULE SessionGen ------------------------------
(* Every short session of a few typical calls, and the laws of serving on each of them. *)
EXTENDS Server, Json

CONSTANT MaxCalls

\* insert "b"
CGrow == [k |-> "mcp", ns |-> <<"a">>, loop |-> FALSE, src |-> <<105,110,115,101,114,116,32,34,98,34>>]
\* ["insert", "x"]
CBoth == [k |-> "mcp", ns |-> <<"a", "b">>, loop |-> FALSE, src |-> <<91,34,105,110,115,101,114,116,34,44,32,34,120,34,93>>]
\* search-forward "b"; replace-match ""
CShrink == [k |-> "mcp", ns |-> <<"b", "a">>, loop |-> TRUE, src |-> <<115,101,97,114,99,104,45,102,111,114,119,97,114,100,32,34,98,34,59,32,114,101,112,108,97,99,101,45,109,97,116,99,104,32,34,34>>]
\* insert "y"; no-such
CGone == [k |-> "mcp", ns |-> <<"c", "a">>, loop |-> FALSE, src |-> <<105,110,115,101,114,116,32,34,121,34,59,32,110,111,45,115,117,99,104>>]
\* insert "z"; insert (
CMalformed == [k |-> "mcp", ns |-> <<"a">>, loop |-> TRUE, src |-> <<105,110,115,101,114,116,32,34,122,34,59,32,105,110,115,101,114,116,32,40>>]
\* set-mark 2; insert "q"
CText == [k |-> "eval", mode |-> "buffer", inp |-> <<97,98>>, src |-> <<115,101,116,45,109,97,114,107,32,50,59,32,105,110,115,101,114,116,32,34,113,34>>]
\* ["search-forward", "b"] ["mark"]
CValue == [k |-> "eval", mode |-> "expression", inp |-> <<97,98>>, src |-> <<91,34,115,101,97,114,99,104,45,102,111,114,119,97,114,100,34,44,32,34,98,34,93,32,91,34,109,97,114,107,34,93>>]
\* replace-match "w"
CStale == [k |-> "eval", mode |-> "buffer", inp |-> <<98>>, src |-> <<114,101,112,108,97,99,101,45,109,97,116,99,104,32,34,119,34>>]
\* (point
CUnparsed == [k |-> "eval", mode |-> "expression", inp |-> <<98>>, src |-> <<40,112,111,105,110,116>>]
CDoc == [k |-> "doc", doc |-> "point"]
CBad == [k |-> "bad"]
\* Between the calls of a session, somebody else is at work.
CPut == [k |-> "put", n |-> "a", e |-> File(<<98, 97, 98>>)]
CRemoved == [k |-> "put", n |-> "b", e |-> Nothing]
Calls == <<CGrow, CBoth, CShrink, CGone, CMalformed, CText, CValue, CStale, CUnparsed, CDoc, CBad, CPut, CRemoved>>
Worlds == {[a |-> File(<<97, 98, 98>>), b |-> File(<<98>>), c |-> Nothing], [a |-> File(<<>>), b |-> Link("a"), c |-> Dir], [a |-> File(<<98>>), b |-> ReadOnly(<<98, 98>>), c |-> File(<<99>>)]}

VARIABLES fs0, calls, fs
vars == <<fs0, calls, fs>>
Init == fs0 \in Worlds /\ calls = <<>> /\ fs = fs0
Serve1 == Len(calls) < MaxCalls /\ \E i \in 1..Len(Calls) : calls' = Append(calls, i) /\ fs' = Serve(fs, Calls[i]).fs /\ UNCHANGED fs0
Spec == Init /\ [][Serve1]_vars
Laws == \A i \in 1..Len(Calls) : ServerLaws(fs, Calls[i])
Emit == Len(calls) = MaxCalls => PrintT(ToJson([fs |-> fs0, calls |-> [i \in 1..Len(calls) |-> Calls[calls[i]]], end |-> fs]))
=============================================================================
