------------------------------- MODULE MC_C07 -------------------------------
(* Queries in every state that edits of small texts produce. *)
EXTENDS EditorGen
CONSTANT Size
MCTexts == Texts_({97, 195, 10}, Size)
Idx == <<-2, -1, 0, 1, 2, 3, 4, 5, 100>>
Pairs == [i \in 1..(Len(Idx) * Len(Idx)) |-> <<Num(Idx[((i - 1) \div Len(Idx)) + 1]), Num(Idx[((i - 1) % Len(Idx)) + 1])>>]
MCCmds == FN("goto-char", <<1, 2, 3, 4, 5>>) \o F("set-mark") \o F("delete-char") \o FS("insert", <<<<10>>>>)
       \o FS("search-forward", <<<<10>>>>)
       \o F("point") \o F("mark") \o F("point-min") \o F("point-max") \o F("buffer-size") \o F("line-number-at-pos")
       \o F("current-column") \o F("region-beginning") \o F("region-end") \o FA("buffer-substring", Pairs)
=============================================================================
