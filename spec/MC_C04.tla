------------------------------- MODULE MC_C04 -------------------------------
(* Searches: every text over {a, b, newline}, every point, plain and regular patterns. *)
EXTENDS EditorGen, Patterns
CONSTANT Size
MCTexts == Texts_({97, 98, 10}, Size)
MCCmds == FN("goto-char", <<1, 2, 3, 4, 5, 6>>)
       \o FS("search-forward", PlainSeq) \o FS("search-backward", PlainSeq)
       \o FS("re-search-forward", RegexSeq) \o FS("re-search-backward", RegexSeq)
       \o FS("looking-at", RegexSeq) \o FS("looking-back", RegexSeq)
=============================================================================
