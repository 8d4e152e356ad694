----------------------------- MODULE MC_Moments -----------------------------
EXTENDS Moments
MCContents == {<<>>, <<97>>, <<98, 97, 98>>, <<99, 98>>}
\* end-of-buffer; insert "x"      search-forward "b"; replace-match ""
Grow == <<101,110,100,45,111,102,45,98,117,102,102,101,114,59,105,110,115,101,114,116,32,34,120,34>>
Shrink == <<115,101,97,114,99,104,45,102,111,114,119,97,114,100,32,34,98,34,59,114,101,112,108,97,99,101,45,109,97,116,99,104,32,34,34>>
=============================================================================
