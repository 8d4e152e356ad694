------------------------------- MODULE MC_C03 -------------------------------
(* Inserting and deleting: every text over {a, space, newline}, every point, marks. *)
EXTENDS EditorGen
CONSTANT Size
MCTexts == Texts_({97, 32, 10}, Size)
Cn == <<-1, 0, 2, 3, 1000000000>>
Del(f) == F(f) \o FN(f, Cn)
MCCmds == FN("goto-char", <<1, 2, 3, 4, 5, 6>>) \o F("set-mark")
       \o Del("delete-char") \o Del("delete-backward-char") \o Del("delete-line") \o Del("kill-line")
       \o Del("kill-word") \o Del("backward-kill-word")
       \o FS("insert", <<<<>>, <<98>>, <<10>>, <<97, 10>>>>)
=============================================================================
