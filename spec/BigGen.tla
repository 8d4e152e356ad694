------------------------------- MODULE BigGen -------------------------------
(***************************************************************************)
(* Big is Editor: on every text of up to Runs runs of up to Reps bytes, at *)
(* every point and mark and after every search, each command of Big, and   *)
(* the command of Editor on the text that the runs stand for, have the     *)
(* same outcome.  (No "nest" and "open": they are about scripts.)          *)
(***************************************************************************)
EXTENDS Big
CONSTANTS Runs, Reps

VARIABLE s

Flat(t) == FoldLeft(LAMBDA a, r : a \o [i \in 1..r.n |-> r.c], <<>>, t)
FlatState(z) == [t |-> Flat(z.t), p |-> z.p, k |-> z.k, m |-> [z.m EXCEPT !.x = Flat(z.m.x)]]

Bytes_ == {97, 32, 10}
RunSet == {Of(c, n) : c \in Bytes_, n \in 1..Reps}
RECURSIVE Texts_(_)
Texts_(k) == IF k = 0 THEN {<<>>}
             ELSE LET S == Texts_(k - 1)
                  IN S \cup {Append(t, r) : <<t, r>> \in {z \in {t \in S : Len(t) = k - 1} \X RunSet : z[1] = <<>> \/ z[1][k - 1].c # z[2].c}}

Cmd(f, n, x) == [f |-> f, n |-> n, x |-> x, q |-> 1]
Plain == {"beginning-of-buffer", "beginning-of-line", "buffer-size", "delete-region", "end-of-buffer", "end-of-line", "exchange-point-and-mark",
          "line-number-at-pos", "mark", "mark-whole-buffer", "mark-word", "point", "point-max", "region-beginning", "region-end", "set-mark"}
Counted_ == {"backward-char", "backward-kill-word", "backward-word", "delete-backward-char", "delete-char", "delete-line", "forward-char", "forward-word",
             "kill-line", "kill-word", "mark-line", "set-mark-command"}
Strings == {<<>>, <<Of(97, 1)>>, <<Of(97, 2)>>, <<Of(10, 1)>>, <<Of(97, 1), Of(10, 1)>>, <<Of(10, 1), Of(97, 1), Of(32, 1)>>, <<Of(98, 1)>>}
Patterns_ == {<<Of(97, 0)>>, <<Of(97, 1)>>, <<Of(97, 2)>>, <<Of(98, 0)>>, <<Of(32, 1)>>}
Searches == {Cmd(f, <<>>, <<x>>) : f \in {"search-forward", "search-backward"}, x \in Strings}
            \cup {Cmd(f, <<>>, <<x>>) : f \in {"re-search-forward", "re-search-backward"}, x \in Patterns_}
Cmds == {Cmd(f, <<>>, <<>>) : f \in Plain \cup Counted_}
        \cup {Cmd(f, <<c>>, <<>>) : f \in Counted_ \cup {"goto-char", "goto-line"}, c \in {-1, 0, 1, 2, 3, 100}}
        \cup Searches
        \cup {Cmd(f, <<>>, <<x>>) : f \in {"looking-at", "looking-back"}, x \in Patterns_}
        \cup {Cmd(f, <<>>, <<x>>) : f \in {"insert", "replace-match", "replace-region"}, x \in {<<>>, <<Of(97, 1)>>, <<Of(10, 1), Of(97, 1)>>}}
        \cup {Cmd("buffer-substring", <<i, j>>, <<>>) : i \in {0, 1, 2, 3}, j \in {-1, 1, 2, 4, 100}}

Pattern(r) == IF r.n = 0 THEN <<r.c, 43>> ELSE Flat(<<r>>)
\* The arguments for Editor.
Args(o) ==
  IF o.f \in {"re-search-forward", "re-search-backward", "looking-at", "looking-back"} THEN <<Str(Pattern(o.x[1][1]))>>
  ELSE IF o.f = "string-match" THEN <<Str(Pattern(o.x[1][1])), Str(Flat(o.x[2]))>>
  ELSE IF o.f = "replace-regexp-in-string" THEN <<Str(Pattern(o.x[1][1])), Str(Flat(o.x[2])), Str(Flat(o.x[3]))>>
  ELSE [i \in 1..Len(o.x) |-> Str(Flat(o.x[i]))] \o [i \in 1..Len(o.n) |-> Num(o.n[i])]

Canonical(t) == /\ \A i \in 1..Len(t) : t[i].n >= 1
                /\ \A i \in 1..(Len(t) - 1) : t[i].c # t[i + 1].c
SameValue(a, b) == IF a.k = "s" THEN b.k = "s" /\ Flat(a.v) = b.v ELSE VEq(a, b)
Agree(z, o) ==
  LET r == BigCall(z, o)  w == Call(FlatState(z), o.f, Args(o))
  IN \/ r.ok = "uns"
     \/ /\ r.ok = w.ok /\ FlatState(r.s) = w.s /\ SameValue(r.v, w.v)
        /\ Canonical(r.s.t) /\ (r.v.k = "s" => Canonical(r.v.v))
     \/ Print(<<z, o, r, w>>, FALSE)

\* Letters of two bytes, in small and capital, with others around; and what is none.
Letters == {Join(Join(x, y), z) : x, z \in {<<>>, <<Of(97, 2)>>, <<Of(65, 1)>>, <<Of(195, 1), Of(169, 1)>>, <<Of(195, 1), Of(137, 1)>>},
                                  y \in {<<>>, <<Of(195, 1), Of(169, 1)>>, <<Of(195, 1), Of(137, 1)>>, <<Of(195, 2)>>, <<Of(169, 3)>>, <<Of(195, 1), Of(183, 1)>>,
                                         <<Of(195, 1), Of(159, 1)>>, <<Of(230, 1), Of(151, 1), Of(165, 1)>>}}
\* Functions that only depend on their arguments.
Pure == {Cmd("length", <<>>, <<x>>) : x \in Texts_(2)}
        \cup {Cmd("concat", <<>>, <<x, y>>) : x \in Texts_(2), y \in Strings}
        \cup {Cmd(f, <<>>, <<x>>) : f \in {"upcase", "downcase"}, x \in Texts_(2) \cup Letters}
        \cup {Cmd("substring", <<i, j>>, <<x>>) : i \in -1..4, j \in -1..5, x \in Texts_(2)}
        \cup {Cmd("substring", <<i>>, <<x>>) : i \in -1..4, x \in Texts_(2)}
        \cup {Cmd("string-match", <<>>, <<x, y>>) : x \in Patterns_, y \in Texts_(3)}
        \cup {Cmd("replace-regexp-in-string", <<>>, <<x, y, z>>) : x \in Patterns_, y \in {<<>>, <<Of(97, 1)>>, <<Of(98, 3)>>}, z \in Texts_(3)}

Init == s \in UNION {{[t |-> t, p |-> p, k |-> k, m |-> NoMatch] : p \in 1..(Size(t) + 1), k \in 1..(Size(t) + 1)} : t \in Texts_(Runs)}
\* A search, and a shift of what was found.
Next == \/ s.m = NoMatch /\ \E o \in Searches : LET r == BigCall(s, o) IN r.ok = "ok" /\ s' = r.s
        \/ s.m # NoMatch /\ Size(s.t) <= Runs * Reps /\ s' = Change(s, s.k, s.k, <<Of(97, 1)>>, s.p).s
Spec == Init /\ [][Next]_s

Refines == \A o \in Cmds : Agree(s, o)
ASSUME \A o \in Pure : Agree([t |-> <<>>, p |-> 1, k |-> 1, m |-> NoMatch], o)
=============================================================================
