------------------------------- MODULE MC_C01 -------------------------------
(* Positions: every command that moves, edits, marks or searches, with counts and positions out of range. *)
EXTENDS EditorGen
CONSTANT Size
MCTexts == Texts_({97, 32, 10}, Size)
Cn == <<-1, 2, 1000000000>>
A == <<97>>
Seqs(fs, ns) == FoldLeft(LAMBDA acc, f : acc \o F(f) \o FN(f, ns), <<>>, fs)
MCCmds == Seqs(<<"forward-char", "backward-char", "forward-word", "backward-word", "delete-char", "delete-backward-char",
                 "delete-line", "kill-line", "kill-word", "backward-kill-word", "mark-line", "set-mark-command">>, Cn)
       \o FN("goto-char", <<-3, 0, 2, 100>>) \o FN("goto-line", <<-3, 0, 2, 100>>)
       \o F("beginning-of-line") \o F("end-of-line") \o F("beginning-of-buffer") \o F("end-of-buffer")
       \o F("set-mark") \o F("exchange-point-and-mark") \o F("mark-word") \o F("mark-whole-buffer")
       \o F("delete-region") \o FS("replace-region", <<<<>>, A>>) \o FS("insert", <<A, <<>>>>)
       \o FS("search-forward", <<A, <<>>>>) \o FS("search-backward", <<A>>) \o FS("re-search-forward", <<<<46, 43>>, <<91>>>>)
       \o FS("re-search-backward", <<<<46, 43>>>>) \o FS("replace-match", <<<<>>, <<98, 98>>>>)
       \o F("line-number-at-pos") \o F("current-column") \o F("region-end") \o FA("buffer-substring", <<<<Num(-5), Num(100)>>, <<Num(3), Num(1)>>>>)
=============================================================================
