------------------------------- MODULE MC_C02 -------------------------------
(* Movement: every text over {a, space, newline}, every point. *)
EXTENDS EditorGen
CONSTANT Size
MCTexts == Texts_({97, 32, 10}, Size)
Cnts == <<-1, 0, 1, 2, 3, 1000000000>>
MCCmds == F("beginning-of-line") \o F("end-of-line") \o F("beginning-of-buffer") \o F("end-of-buffer")
       \o F("forward-char") \o F("backward-char") \o F("forward-word") \o F("backward-word") \o F("set-mark")
       \o FN("forward-char", Cnts) \o FN("backward-char", Cnts)
       \o FN("forward-word", Cnts) \o FN("backward-word", Cnts)
       \o FN("goto-char", Cnts \o <<-1000000000>>) \o FN("goto-line", Cnts \o <<4, -1000000000>>)
=============================================================================
