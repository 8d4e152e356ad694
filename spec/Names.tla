------------------------------- MODULE Names -------------------------------
(* Generated by gen_names.py from the function sets of Editor.tla. *)
EXTENDS TLC

NameOf ==
  <<98, 97, 99, 107, 119, 97, 114, 100, 45, 99, 104, 97, 114>> :> "backward-char"  @@
  <<98, 97, 99, 107, 119, 97, 114, 100, 45, 107, 105, 108, 108, 45, 119, 111, 114, 100>> :> "backward-kill-word"  @@
  <<98, 97, 99, 107, 119, 97, 114, 100, 45, 119, 111, 114, 100>> :> "backward-word"  @@
  <<98, 101, 103, 105, 110, 110, 105, 110, 103, 45, 111, 102, 45, 98, 117, 102, 102, 101, 114>> :> "beginning-of-buffer"  @@
  <<98, 101, 103, 105, 110, 110, 105, 110, 103, 45, 111, 102, 45, 108, 105, 110, 101>> :> "beginning-of-line"  @@
  <<98, 117, 102, 102, 101, 114, 45, 115, 105, 122, 101>> :> "buffer-size"  @@
  <<98, 117, 102, 102, 101, 114, 45, 115, 117, 98, 115, 116, 114, 105, 110, 103>> :> "buffer-substring"  @@
  <<99, 97, 112, 105, 116, 97, 108, 105, 122, 101>> :> "capitalize"  @@
  <<99, 111, 110, 99, 97, 116>> :> "concat"  @@
  <<99, 117, 114, 114, 101, 110, 116, 45, 99, 111, 108, 117, 109, 110>> :> "current-column"  @@
  <<100, 101, 108, 101, 116, 101, 45, 98, 97, 99, 107, 119, 97, 114, 100, 45, 99, 104, 97, 114>> :> "delete-backward-char"  @@
  <<100, 101, 108, 101, 116, 101, 45, 99, 104, 97, 114>> :> "delete-char"  @@
  <<100, 101, 108, 101, 116, 101, 45, 108, 105, 110, 101>> :> "delete-line"  @@
  <<100, 101, 108, 101, 116, 101, 45, 114, 101, 103, 105, 111, 110>> :> "delete-region"  @@
  <<100, 111, 119, 110, 99, 97, 115, 101>> :> "downcase"  @@
  <<101, 110, 100, 45, 111, 102, 45, 98, 117, 102, 102, 101, 114>> :> "end-of-buffer"  @@
  <<101, 110, 100, 45, 111, 102, 45, 108, 105, 110, 101>> :> "end-of-line"  @@
  <<101, 120, 99, 104, 97, 110, 103, 101, 45, 112, 111, 105, 110, 116, 45, 97, 110, 100, 45, 109, 97, 114, 107>> :> "exchange-point-and-mark"  @@
  <<102, 111, 114, 119, 97, 114, 100, 45, 99, 104, 97, 114>> :> "forward-char"  @@
  <<102, 111, 114, 119, 97, 114, 100, 45, 119, 111, 114, 100>> :> "forward-word"  @@
  <<103, 111, 116, 111, 45, 99, 104, 97, 114>> :> "goto-char"  @@
  <<103, 111, 116, 111, 45, 108, 105, 110, 101>> :> "goto-line"  @@
  <<105, 110, 115, 101, 114, 116>> :> "insert"  @@
  <<107, 105, 108, 108, 45, 108, 105, 110, 101>> :> "kill-line"  @@
  <<107, 105, 108, 108, 45, 119, 111, 114, 100>> :> "kill-word"  @@
  <<108, 101, 110, 103, 116, 104>> :> "length"  @@
  <<108, 105, 110, 101, 45, 110, 117, 109, 98, 101, 114, 45, 97, 116, 45, 112, 111, 115>> :> "line-number-at-pos"  @@
  <<108, 111, 111, 107, 105, 110, 103, 45, 97, 116>> :> "looking-at"  @@
  <<108, 111, 111, 107, 105, 110, 103, 45, 98, 97, 99, 107>> :> "looking-back"  @@
  <<109, 97, 114, 107>> :> "mark"  @@
  <<109, 97, 114, 107, 45, 108, 105, 110, 101>> :> "mark-line"  @@
  <<109, 97, 114, 107, 45, 119, 104, 111, 108, 101, 45, 98, 117, 102, 102, 101, 114>> :> "mark-whole-buffer"  @@
  <<109, 97, 114, 107, 45, 119, 111, 114, 100>> :> "mark-word"  @@
  <<112, 111, 105, 110, 116>> :> "point"  @@
  <<112, 111, 105, 110, 116, 45, 109, 97, 120>> :> "point-max"  @@
  <<112, 111, 105, 110, 116, 45, 109, 105, 110>> :> "point-min"  @@
  <<114, 101, 45, 115, 101, 97, 114, 99, 104, 45, 98, 97, 99, 107, 119, 97, 114, 100>> :> "re-search-backward"  @@
  <<114, 101, 45, 115, 101, 97, 114, 99, 104, 45, 102, 111, 114, 119, 97, 114, 100>> :> "re-search-forward"  @@
  <<114, 101, 103, 105, 111, 110, 45, 98, 101, 103, 105, 110, 110, 105, 110, 103>> :> "region-beginning"  @@
  <<114, 101, 103, 105, 111, 110, 45, 101, 110, 100>> :> "region-end"  @@
  <<114, 101, 112, 108, 97, 99, 101, 45, 109, 97, 116, 99, 104>> :> "replace-match"  @@
  <<114, 101, 112, 108, 97, 99, 101, 45, 114, 101, 103, 101, 120, 112, 45, 105, 110, 45, 115, 116, 114, 105, 110, 103>> :> "replace-regexp-in-string"  @@
  <<114, 101, 112, 108, 97, 99, 101, 45, 114, 101, 103, 105, 111, 110>> :> "replace-region"  @@
  <<115, 101, 97, 114, 99, 104, 45, 98, 97, 99, 107, 119, 97, 114, 100>> :> "search-backward"  @@
  <<115, 101, 97, 114, 99, 104, 45, 102, 111, 114, 119, 97, 114, 100>> :> "search-forward"  @@
  <<115, 101, 116, 45, 109, 97, 114, 107>> :> "set-mark"  @@
  <<115, 101, 116, 45, 109, 97, 114, 107, 45, 99, 111, 109, 109, 97, 110, 100>> :> "set-mark-command"  @@
  <<115, 116, 114, 105, 110, 103, 45, 109, 97, 116, 99, 104>> :> "string-match"  @@
  <<115, 117, 98, 115, 116, 114, 105, 110, 103>> :> "substring"  @@
  <<117, 112, 99, 97, 115, 101>> :> "upcase"

BytesOf ==
  "backward-char" :> <<98, 97, 99, 107, 119, 97, 114, 100, 45, 99, 104, 97, 114>>  @@
  "backward-kill-word" :> <<98, 97, 99, 107, 119, 97, 114, 100, 45, 107, 105, 108, 108, 45, 119, 111, 114, 100>>  @@
  "backward-word" :> <<98, 97, 99, 107, 119, 97, 114, 100, 45, 119, 111, 114, 100>>  @@
  "beginning-of-buffer" :> <<98, 101, 103, 105, 110, 110, 105, 110, 103, 45, 111, 102, 45, 98, 117, 102, 102, 101, 114>>  @@
  "beginning-of-line" :> <<98, 101, 103, 105, 110, 110, 105, 110, 103, 45, 111, 102, 45, 108, 105, 110, 101>>  @@
  "buffer-size" :> <<98, 117, 102, 102, 101, 114, 45, 115, 105, 122, 101>>  @@
  "buffer-substring" :> <<98, 117, 102, 102, 101, 114, 45, 115, 117, 98, 115, 116, 114, 105, 110, 103>>  @@
  "capitalize" :> <<99, 97, 112, 105, 116, 97, 108, 105, 122, 101>>  @@
  "concat" :> <<99, 111, 110, 99, 97, 116>>  @@
  "current-column" :> <<99, 117, 114, 114, 101, 110, 116, 45, 99, 111, 108, 117, 109, 110>>  @@
  "delete-backward-char" :> <<100, 101, 108, 101, 116, 101, 45, 98, 97, 99, 107, 119, 97, 114, 100, 45, 99, 104, 97, 114>>  @@
  "delete-char" :> <<100, 101, 108, 101, 116, 101, 45, 99, 104, 97, 114>>  @@
  "delete-line" :> <<100, 101, 108, 101, 116, 101, 45, 108, 105, 110, 101>>  @@
  "delete-region" :> <<100, 101, 108, 101, 116, 101, 45, 114, 101, 103, 105, 111, 110>>  @@
  "downcase" :> <<100, 111, 119, 110, 99, 97, 115, 101>>  @@
  "end-of-buffer" :> <<101, 110, 100, 45, 111, 102, 45, 98, 117, 102, 102, 101, 114>>  @@
  "end-of-line" :> <<101, 110, 100, 45, 111, 102, 45, 108, 105, 110, 101>>  @@
  "exchange-point-and-mark" :> <<101, 120, 99, 104, 97, 110, 103, 101, 45, 112, 111, 105, 110, 116, 45, 97, 110, 100, 45, 109, 97, 114, 107>>  @@
  "forward-char" :> <<102, 111, 114, 119, 97, 114, 100, 45, 99, 104, 97, 114>>  @@
  "forward-word" :> <<102, 111, 114, 119, 97, 114, 100, 45, 119, 111, 114, 100>>  @@
  "goto-char" :> <<103, 111, 116, 111, 45, 99, 104, 97, 114>>  @@
  "goto-line" :> <<103, 111, 116, 111, 45, 108, 105, 110, 101>>  @@
  "insert" :> <<105, 110, 115, 101, 114, 116>>  @@
  "kill-line" :> <<107, 105, 108, 108, 45, 108, 105, 110, 101>>  @@
  "kill-word" :> <<107, 105, 108, 108, 45, 119, 111, 114, 100>>  @@
  "length" :> <<108, 101, 110, 103, 116, 104>>  @@
  "line-number-at-pos" :> <<108, 105, 110, 101, 45, 110, 117, 109, 98, 101, 114, 45, 97, 116, 45, 112, 111, 115>>  @@
  "looking-at" :> <<108, 111, 111, 107, 105, 110, 103, 45, 97, 116>>  @@
  "looking-back" :> <<108, 111, 111, 107, 105, 110, 103, 45, 98, 97, 99, 107>>  @@
  "mark" :> <<109, 97, 114, 107>>  @@
  "mark-line" :> <<109, 97, 114, 107, 45, 108, 105, 110, 101>>  @@
  "mark-whole-buffer" :> <<109, 97, 114, 107, 45, 119, 104, 111, 108, 101, 45, 98, 117, 102, 102, 101, 114>>  @@
  "mark-word" :> <<109, 97, 114, 107, 45, 119, 111, 114, 100>>  @@
  "point" :> <<112, 111, 105, 110, 116>>  @@
  "point-max" :> <<112, 111, 105, 110, 116, 45, 109, 97, 120>>  @@
  "point-min" :> <<112, 111, 105, 110, 116, 45, 109, 105, 110>>  @@
  "re-search-backward" :> <<114, 101, 45, 115, 101, 97, 114, 99, 104, 45, 98, 97, 99, 107, 119, 97, 114, 100>>  @@
  "re-search-forward" :> <<114, 101, 45, 115, 101, 97, 114, 99, 104, 45, 102, 111, 114, 119, 97, 114, 100>>  @@
  "region-beginning" :> <<114, 101, 103, 105, 111, 110, 45, 98, 101, 103, 105, 110, 110, 105, 110, 103>>  @@
  "region-end" :> <<114, 101, 103, 105, 111, 110, 45, 101, 110, 100>>  @@
  "replace-match" :> <<114, 101, 112, 108, 97, 99, 101, 45, 109, 97, 116, 99, 104>>  @@
  "replace-regexp-in-string" :> <<114, 101, 112, 108, 97, 99, 101, 45, 114, 101, 103, 101, 120, 112, 45, 105, 110, 45, 115, 116, 114, 105, 110, 103>>  @@
  "replace-region" :> <<114, 101, 112, 108, 97, 99, 101, 45, 114, 101, 103, 105, 111, 110>>  @@
  "search-backward" :> <<115, 101, 97, 114, 99, 104, 45, 98, 97, 99, 107, 119, 97, 114, 100>>  @@
  "search-forward" :> <<115, 101, 97, 114, 99, 104, 45, 102, 111, 114, 119, 97, 114, 100>>  @@
  "set-mark" :> <<115, 101, 116, 45, 109, 97, 114, 107>>  @@
  "set-mark-command" :> <<115, 101, 116, 45, 109, 97, 114, 107, 45, 99, 111, 109, 109, 97, 110, 100>>  @@
  "string-match" :> <<115, 116, 114, 105, 110, 103, 45, 109, 97, 116, 99, 104>>  @@
  "substring" :> <<115, 117, 98, 115, 116, 114, 105, 110, 103>>  @@
  "upcase" :> <<117, 112, 99, 97, 115, 101>>
=============================================================================
