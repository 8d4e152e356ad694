------------------------------- MODULE MC_C05 -------------------------------
(* Histories of searches, movements, edits and replacements of the match. *)
EXTENDS EditorGen
CONSTANT Size
MCTexts == {x \in Texts_({97, 98}, Size) : Len(x) >= Size - 1}
MCCmds == FS("replace-match", <<<<>>, <<98>>, <<97, 97>>, <<36, 49>>>>)
       \o FS("search-forward", <<<<97>>, <<97, 98>>, <<>>, <<99>>>>) \o FS("search-backward", <<<<97>>, <<98>>>>)
       \o FS("re-search-forward", <<<<98, 43>>, <<91>>, <<98, 42>>>>) \o FS("re-search-backward", <<<<97, 46>>>>)
       \o FN("goto-char", <<1, 3>>) \o F("end-of-buffer") \o FS("insert", <<<<97>>, <<98>>>>) \o F("delete-char") \o F("delete-backward-char")
       \o F("set-mark") \o F("delete-region")
=============================================================================
