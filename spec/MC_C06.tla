------------------------------- MODULE MC_C06 -------------------------------
(* Region: every text over {a, space, newline}, every pair of point and mark. *)
EXTENDS EditorGen
CONSTANT Size
MCTexts == Texts_({97, 32, 10}, Size)
MCCmds == FN("goto-char", <<1, 2, 3, 4, 5>>) \o FN("set-mark-command", <<-1, 0, 1, 2, 3, 4, 5, 6, 100>>)
       \o F("set-mark-command") \o F("set-mark") \o F("mark") \o F("exchange-point-and-mark")
       \o F("mark-word") \o F("mark-line") \o FN("mark-line", <<-1, 0, 2, 100>>) \o F("mark-whole-buffer")
       \o F("delete-region") \o FS("replace-region", <<<<>>, <<98>>, <<36, 49>>, <<97, 10, 97>>>>)
       \o F("region-beginning") \o F("region-end") \o F("delete-char") \o F("end-of-buffer")
=============================================================================
