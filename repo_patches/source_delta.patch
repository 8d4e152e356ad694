From 92f3933dcb361e94fecbb294115798b55e566bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 01/25] fix: beginning-of-line at end of buffer stays on the
 last line

At the end of a buffer that ends in a newline the command moved to the start
of the previous line, and in an empty buffer it set point to 0.
---
 edlisp/builtin_beginning_of_line.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edlisp/builtin_beginning_of_line.go b/edlisp/builtin_beginning_of_line.go
index 4c7dae4..ab7171b 100644
--- a/edlisp/builtin_beginning_of_line.go
+++ b/edlisp/builtin_beginning_of_line.go
@@ -19,8 +19,8 @@ func BuiltinBeginningOfLine(args []Value, buffer *Buffer) (Value, error) {
 		buffer.SetPoint(1)
 		return NewString(""), nil
 	}
-	if pos >= len(content) {
-		pos = len(content) - 1
+	if pos > len(content) {
+		pos = len(content)
 	}
 
 	// Move backward to find beginning of line
-- 
2.43.0


From 3ba7f62996027e1a54367826a6fce6b68e64b67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 02/25] fix: keep point and mark inside the buffer

backward-char with a negative count and set-mark-command accepted any
position, and deletions left the mark (and through exchange-point-and-mark
the point) behind the end of the buffer, where later commands panicked.
---
 edlisp/eval.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/edlisp/eval.go b/edlisp/eval.go
index dc592be..72c4291 100644
--- a/edlisp/eval.go
+++ b/edlisp/eval.go
@@ -58,14 +58,19 @@ func (b *Buffer) Mark() int {
 	return b.mark
 }
 
-// SetPoint sets the cursor position.
+// SetPoint sets the cursor position, clamped to the buffer bounds.
 func (b *Buffer) SetPoint(pos int) {
-	b.point = pos
+	b.point = b.clamp(pos)
 }
 
-// SetMark sets the mark position.
+// SetMark sets the mark position, clamped to the buffer bounds.
 func (b *Buffer) SetMark(pos int) {
-	b.mark = pos
+	b.mark = b.clamp(pos)
+}
+
+// clamp limits pos to the valid positions of the buffer.
+func (b *Buffer) clamp(pos int) int {
+	return max(1, min(pos, b.content.Len()+1))
 }
 
 // Insert inserts text at the current point.
@@ -149,6 +154,11 @@ func evalExpression(expr Value, env *Environment, buffer *Buffer) (Value, error)
 		}
 
 		result, err := fn(args, buffer)
+		if buffer != nil {
+			// fn may have shortened the buffer: keep point and mark inside it
+			buffer.SetPoint(buffer.point)
+			buffer.SetMark(buffer.mark)
+		}
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 100164b017a667ad5aa87221fa29641ef41c6b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 03/25] fix: delete commands do nothing for a count below one

delete-char with a negative count duplicated text or panicked, delete-line 0
deleted the start of the line and backward-kill-word 0 deleted a character.
---
 edlisp/builtin_backward_kill_word.go | 4 ++++
 edlisp/builtin_delete_char.go        | 2 +-
 edlisp/builtin_delete_line.go        | 4 ++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/edlisp/builtin_backward_kill_word.go b/edlisp/builtin_backward_kill_word.go
index 405cf84..83e8d3b 100644
--- a/edlisp/builtin_backward_kill_word.go
+++ b/edlisp/builtin_backward_kill_word.go
@@ -23,6 +23,10 @@ func BuiltinBackwardKillWord(args []Value, buffer *Buffer) (Value, error) {
 		count = int(args[0].(*Number).Value)
 	}
 
+	if count < 1 {
+		return NewString(""), nil
+	}
+
 	content := buffer.String()
 	startPos := buffer.Point() - 1 // Convert to 0-based
 	pos := startPos
diff --git a/edlisp/builtin_delete_char.go b/edlisp/builtin_delete_char.go
index 49d71af..08091c1 100644
--- a/edlisp/builtin_delete_char.go
+++ b/edlisp/builtin_delete_char.go
@@ -24,7 +24,7 @@ func BuiltinDeleteChar(args []Value, buffer *Buffer) (Value, error) {
 	content := buffer.String()
 	pos := buffer.Point() // 1-based position
 
-	if pos < 1 || pos > len(content) {
+	if count < 1 || pos < 1 || pos > len(content) {
 		return NewString(""), nil
 	}
 
diff --git a/edlisp/builtin_delete_line.go b/edlisp/builtin_delete_line.go
index ef589d5..efa5837 100644
--- a/edlisp/builtin_delete_line.go
+++ b/edlisp/builtin_delete_line.go
@@ -22,6 +22,10 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 		count = int(args[0].(*Number).Value)
 	}
 
+	if count < 1 {
+		return NewString(""), nil
+	}
+
 	content := buffer.String()
 	pos := buffer.Point() - 1 // Convert to 0-based
 
-- 
2.43.0


From c50aa824a076cfdd7073f2e175b3053c75a31414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 04/25] fix: limit huge counts and positions instead of
 overflowing

Converting a number beyond the int range gave the smallest int, so that
'goto-char 1e30' went to the start of the buffer, 'delete-char 1e30' panicked,
and line commands looped once per requested line.
---
 edlisp/builtin_backward_char.go        |  2 +-
 edlisp/builtin_backward_kill_word.go   |  2 +-
 edlisp/builtin_backward_word.go        |  2 +-
 edlisp/builtin_buffer_substring.go     |  4 ++--
 edlisp/builtin_delete_backward_char.go |  2 +-
 edlisp/builtin_delete_char.go          |  2 +-
 edlisp/builtin_delete_line.go          |  4 ++--
 edlisp/builtin_forward_char.go         |  2 +-
 edlisp/builtin_forward_word.go         |  2 +-
 edlisp/builtin_goto_char.go            |  2 +-
 edlisp/builtin_goto_line.go            |  2 +-
 edlisp/builtin_kill_line.go            |  4 ++--
 edlisp/builtin_kill_word.go            |  2 +-
 edlisp/builtin_mark_line.go            |  4 ++--
 edlisp/builtin_set_mark_command.go     |  2 +-
 edlisp/builtin_substring.go            |  4 ++--
 edlisp/number.go                       | 17 +++++++++++++++--
 17 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/edlisp/builtin_backward_char.go b/edlisp/builtin_backward_char.go
index 6ba738d..534d084 100644
--- a/edlisp/builtin_backward_char.go
+++ b/edlisp/builtin_backward_char.go
@@ -18,7 +18,7 @@ func BuiltinBackwardChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("backward-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	newPos := buffer.Point() - count
diff --git a/edlisp/builtin_backward_kill_word.go b/edlisp/builtin_backward_kill_word.go
index 83e8d3b..5fa913a 100644
--- a/edlisp/builtin_backward_kill_word.go
+++ b/edlisp/builtin_backward_kill_word.go
@@ -20,7 +20,7 @@ func BuiltinBackwardKillWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("backward-kill-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	if count < 1 {
diff --git a/edlisp/builtin_backward_word.go b/edlisp/builtin_backward_word.go
index d00997f..836caa3 100644
--- a/edlisp/builtin_backward_word.go
+++ b/edlisp/builtin_backward_word.go
@@ -20,7 +20,7 @@ func BuiltinBackwardWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("backward-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_buffer_substring.go b/edlisp/builtin_buffer_substring.go
index 377eb1a..c97904b 100644
--- a/edlisp/builtin_buffer_substring.go
+++ b/edlisp/builtin_buffer_substring.go
@@ -47,8 +47,8 @@ func BuiltinBufferSubstring(args []Value, buffer *Buffer) (Value, error) {
 		return nil, fmt.Errorf("buffer-substring expects number arguments")
 	}
 
-	start := int(args[0].(*Number).Value)
-	end := int(args[1].(*Number).Value)
+	start := args[0].(*Number).Int()
+	end := args[1].(*Number).Int()
 
 	content := buffer.String()
 
diff --git a/edlisp/builtin_delete_backward_char.go b/edlisp/builtin_delete_backward_char.go
index cbb7946..f8e173f 100644
--- a/edlisp/builtin_delete_backward_char.go
+++ b/edlisp/builtin_delete_backward_char.go
@@ -18,7 +18,7 @@ func BuiltinDeleteBackwardChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("delete-backward-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_delete_char.go b/edlisp/builtin_delete_char.go
index 08091c1..bcaca30 100644
--- a/edlisp/builtin_delete_char.go
+++ b/edlisp/builtin_delete_char.go
@@ -18,7 +18,7 @@ func BuiltinDeleteChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("delete-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_delete_line.go b/edlisp/builtin_delete_line.go
index efa5837..73f2478 100644
--- a/edlisp/builtin_delete_line.go
+++ b/edlisp/builtin_delete_line.go
@@ -19,7 +19,7 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("delete-line expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	if count < 1 {
@@ -37,7 +37,7 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 
 	// Find end of line(s) based on count
 	lineEnd := pos
-	for i := 0; i < count; i++ {
+	for i := 0; i < count && lineEnd < len(content); i++ {
 		for lineEnd < len(content) && content[lineEnd] != '\n' {
 			lineEnd++
 		}
diff --git a/edlisp/builtin_forward_char.go b/edlisp/builtin_forward_char.go
index 4a7af6e..96086b1 100644
--- a/edlisp/builtin_forward_char.go
+++ b/edlisp/builtin_forward_char.go
@@ -18,7 +18,7 @@ func BuiltinForwardChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("forward-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_forward_word.go b/edlisp/builtin_forward_word.go
index c0a2f3b..851da0e 100644
--- a/edlisp/builtin_forward_word.go
+++ b/edlisp/builtin_forward_word.go
@@ -20,7 +20,7 @@ func BuiltinForwardWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("forward-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_goto_char.go b/edlisp/builtin_goto_char.go
index ff56923..935d934 100644
--- a/edlisp/builtin_goto_char.go
+++ b/edlisp/builtin_goto_char.go
@@ -19,7 +19,7 @@ func BuiltinGotoChar(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	num := args[0].(*Number)
-	pos := int(num.Value)
+	pos := num.Int()
 
 	content := buffer.String()
 	if pos < 1 {
diff --git a/edlisp/builtin_goto_line.go b/edlisp/builtin_goto_line.go
index 9cee18c..e2183b9 100644
--- a/edlisp/builtin_goto_line.go
+++ b/edlisp/builtin_goto_line.go
@@ -19,7 +19,7 @@ func BuiltinGotoLine(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	num := args[0].(*Number)
-	lineNum := int(num.Value)
+	lineNum := num.Int()
 
 	content := buffer.String()
 	lines := strings.Split(content, "\n")
diff --git a/edlisp/builtin_kill_line.go b/edlisp/builtin_kill_line.go
index 9de7f0e..0afcbef 100644
--- a/edlisp/builtin_kill_line.go
+++ b/edlisp/builtin_kill_line.go
@@ -19,7 +19,7 @@ func BuiltinKillLine(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("kill-line expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
@@ -43,7 +43,7 @@ func BuiltinKillLine(args []Value, buffer *Buffer) (Value, error) {
 		// For multi-line kill, kill entire lines starting from cursor
 		startPos = pos
 		lineEnd = startPos
-		for i := 0; i < count; i++ {
+		for i := 0; i < count && lineEnd < len(content); i++ {
 			// Find end of current line
 			for lineEnd < len(content) && content[lineEnd] != '\n' {
 				lineEnd++
diff --git a/edlisp/builtin_kill_word.go b/edlisp/builtin_kill_word.go
index f91fa8b..351b529 100644
--- a/edlisp/builtin_kill_word.go
+++ b/edlisp/builtin_kill_word.go
@@ -20,7 +20,7 @@ func BuiltinKillWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("kill-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_mark_line.go b/edlisp/builtin_mark_line.go
index 55829c2..46a4fba 100644
--- a/edlisp/builtin_mark_line.go
+++ b/edlisp/builtin_mark_line.go
@@ -20,7 +20,7 @@ func BuiltinMarkLine(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("mark-line expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
@@ -34,7 +34,7 @@ func BuiltinMarkLine(args []Value, buffer *Buffer) (Value, error) {
 
 	// Find end of line(s) based on count
 	lineEnd := pos
-	for i := 0; i < count; i++ {
+	for i := 0; i < count && lineEnd < len(content); i++ {
 		for lineEnd < len(content) && content[lineEnd] != '\n' {
 			lineEnd++
 		}
diff --git a/edlisp/builtin_set_mark_command.go b/edlisp/builtin_set_mark_command.go
index 74aeb93..92d41dc 100644
--- a/edlisp/builtin_set_mark_command.go
+++ b/edlisp/builtin_set_mark_command.go
@@ -19,7 +19,7 @@ func BuiltinSetMarkCommand(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("set-mark-command expects a number argument")
 		}
-		pos = int(args[0].(*Number).Value)
+		pos = args[0].(*Number).Int()
 	} else {
 		pos = buffer.Point()
 	}
diff --git a/edlisp/builtin_substring.go b/edlisp/builtin_substring.go
index 5181a6a..1b06237 100644
--- a/edlisp/builtin_substring.go
+++ b/edlisp/builtin_substring.go
@@ -50,14 +50,14 @@ func BuiltinSubstring(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	str := args[0].(*String)
-	start := int(args[1].(*Number).Value)
+	start := args[1].(*Number).Int()
 	end := len(str.Value)
 
 	if len(args) == 3 {
 		if !IsA(args[2], TheNumberKind) {
 			return nil, fmt.Errorf("substring expects a number as third argument")
 		}
-		end = int(args[2].(*Number).Value)
+		end = args[2].(*Number).Int()
 	}
 
 	// Convert from 1-based to 0-based indexing
diff --git a/edlisp/number.go b/edlisp/number.go
index 5c441bf..a10b80e 100644
--- a/edlisp/number.go
+++ b/edlisp/number.go
@@ -1,6 +1,9 @@
 package edlisp
 
-import "fmt"
+import (
+	"fmt"
+	"math"
+)
 
 // NumberKind represents the kind for numeric values.
 type NumberKind struct{}
@@ -41,8 +44,18 @@ func (num *Number) String() string {
 	return fmt.Sprintf("%g", num.Value)
 }
 
-// Int returns the integer representation of the number.
+// Int returns the integer representation of the number, truncated towards
+// zero. Values beyond the int32 range are limited to that range, so that
+// positions and counts can be added without overflow; NaN counts as 0.
 func (num *Number) Int() int {
+	switch {
+	case num.Value >= math.MaxInt32:
+		return math.MaxInt32
+	case num.Value <= math.MinInt32:
+		return math.MinInt32
+	case math.IsNaN(num.Value):
+		return 0
+	}
 	return int(num.Value)
 }
 
-- 
2.43.0


From e8ccf20259442102bdb60953d8451984e3b41f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 05/25] fix: replace-match never replaces text that is not the
 match

When the buffer changed between the search and replace-match (an insertion
before the match, or an earlier replace-match), the remembered positions
covered other text, which was overwritten. This is now an error.
---
 edlisp/builtin_replace_match.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edlisp/builtin_replace_match.go b/edlisp/builtin_replace_match.go
index 51ed5f7..fe81041 100644
--- a/edlisp/builtin_replace_match.go
+++ b/edlisp/builtin_replace_match.go
@@ -30,7 +30,8 @@ func BuiltinReplaceMatch(args []Value, buffer *Buffer) (Value, error) {
 	start := buffer.lastSearchStart - 1 // Convert to 0-based
 	end := buffer.lastSearchEnd - 1     // Convert to 0-based
 
-	if start < 0 || end > len(content) || start >= end {
+	// The buffer may have changed since the search: never replace other text
+	if start < 0 || end > len(content) || start >= end || content[start:end] != buffer.lastSearchMatch {
 		return nil, fmt.Errorf("invalid search match positions")
 	}
 
-- 
2.43.0


From 144b66cfca8a4a40509d41b9e63b397c2cfca72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 06/25] fix: capitalize keeps a non-ASCII first character
 intact
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The first byte was treated as a character, which turned 'éa' into mojibake.
---
 edlisp/builtin_capitalize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edlisp/builtin_capitalize.go b/edlisp/builtin_capitalize.go
index d11f9c2..d601966 100644
--- a/edlisp/builtin_capitalize.go
+++ b/edlisp/builtin_capitalize.go
@@ -3,6 +3,7 @@ package edlisp
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 // BuiltinCapitalize capitalizes the first character of a string.
@@ -43,7 +44,8 @@ func BuiltinCapitalize(args []Value, buffer *Buffer) (Value, error) {
 		return NewString(""), nil
 	}
 
-	result := strings.ToUpper(string(str.Value[0])) + strings.ToLower(str.Value[1:])
+	_, size := utf8.DecodeRuneInString(str.Value)
+	result := strings.ToUpper(str.Value[:size]) + strings.ToLower(str.Value[size:])
 	return NewString(result), nil
 }
 
-- 
2.43.0


From d365dfdc1976864fc745b1a3df994e96624d7b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 07/25] fix: looking-back finds a match that ends at point

Only the leftmost match before point was considered, so that after 'foo'
(looking-back "o") was nil.
---
 edlisp/builtin_looking_back.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edlisp/builtin_looking_back.go b/edlisp/builtin_looking_back.go
index 85526f4..c13073c 100644
--- a/edlisp/builtin_looking_back.go
+++ b/edlisp/builtin_looking_back.go
@@ -41,6 +41,11 @@ func BuiltinLookingBack(args []Value, buffer *Buffer) (Value, error) {
 		return NewSymbol("nil"), nil
 	}
 
+	// Only a match ending at point counts, even if an earlier match exists
+	if anchored, err := regexp.Compile("(?:" + pattern.Value + `)\z`); err == nil {
+		re = anchored
+	}
+
 	// Use regular expression matching on text before point
 	beforeText := content[:pos]
 	match := re.FindStringIndex(beforeText)
-- 
2.43.0


From b0640437e722c38a4f052ffbd11b50dc4babbee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 08/25] fix: edit --expression takes its argument literally

The flag parsed its value as comma-separated CSV: a quoted string argument
was an error, and an expression with a comma was split in two.
---
 commands/edit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commands/edit.go b/commands/edit.go
index caac571..fb5153b 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -160,7 +160,7 @@ Script formats:
 	// Script Input Options
 	cmd.Flags().StringP("script", "s", "", "The texted script to execute")
 	cmd.Flags().StringVarP(&scriptFile, "file", "f", "", "Read script from file")
-	cmd.Flags().StringSliceP("expression", "e", nil, "Execute single expression and print result (can be used multiple times)")
+	cmd.Flags().StringArrayP("expression", "e", nil, "Execute single expression and print result (can be used multiple times)")
 
 	// Input/Output Options
 	cmd.Flags().BoolVarP(&inPlace, "in-place", "i", false, "Edit files in place (modify original files)")
@@ -210,7 +210,7 @@ func runEdit(args *runEditArgs) error {
 	}
 
 	// Handle expressions
-	expressions, err := args.cmd.Flags().GetStringSlice("expression")
+	expressions, err := args.cmd.Flags().GetStringArray("expression")
 	if err != nil {
 		return fmt.Errorf("getting expression flag: %w", err)
 	}
-- 
2.43.0


From 2a6daa845b761aa65c9f49cdd106b67792595470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 09/25] fix: report text after a list instead of dropping it

Everything after the first list of a line was silently ignored, so that
'(goto-char 3) (delete-char 1)' only moved point.
---
 edlisp/parser/linebased.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edlisp/parser/linebased.go b/edlisp/parser/linebased.go
index 03c9ffe..ef4a258 100644
--- a/edlisp/parser/linebased.go
+++ b/edlisp/parser/linebased.go
@@ -114,8 +114,14 @@ func parseSExpression(line string) (edlisp.Value, error) {
 		return nil, err
 	}
 
-	expr, _, err := parseTokens(tokens, 0)
-	return expr, err
+	expr, next, err := parseTokens(tokens, 0)
+	if err != nil {
+		return nil, err
+	}
+	if next < len(tokens) {
+		return nil, fmt.Errorf("unexpected %s after expression", tokens[next])
+	}
+	return expr, nil
 }
 
 // parseShellLike parses a shell-like command line into a list.
-- 
2.43.0


From 237bad2440db9ba8c3514369b41ba143e91d2aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 10/25] fix: accept script lines longer than 64 KiB

The line scanner's default limit made such scripts fail to parse.
---
 edlisp/parser/linebased.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edlisp/parser/linebased.go b/edlisp/parser/linebased.go
index ef4a258..a403bca 100644
--- a/edlisp/parser/linebased.go
+++ b/edlisp/parser/linebased.go
@@ -5,6 +5,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 	"unicode"
@@ -20,6 +21,7 @@ import (
 // 4. Semicolons are treated as line separators (equivalent to newlines)
 func ParseReader(r io.Reader) ([]edlisp.Value, error) {
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt) // lines may be arbitrarily long
 	var expressions []edlisp.Value
 
 	for scanner.Scan() {
-- 
2.43.0


From 385351c564444b7be01bf53002d9f7a53b48ab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 11/25] fix: edit and parse accept both forms of a JSON script

The documentation writes JSON scripts as a stream of command arrays and
'texted parse --output-format json' produces them, but 'texted edit --json'
rejected them; 'texted parse' in turn rejected an array of command arrays.
---
 commands/edit.go      |  2 +-
 commands/parse.go     | 14 +++++++++++++-
 edlisp/parser/json.go | 10 ++++++++++
 texted.go             |  2 +-
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/commands/edit.go b/commands/edit.go
index fb5153b..4fb35bb 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -339,7 +339,7 @@ func evaluateExpressionsOnContent(args *evaluateExpressionsOnContentArgs) error
 		case "shell", "sexp":
 			program, err = parser.ParseString(expr)
 		case "json":
-			program, err = parser.ParseJSONString(expr)
+			program, err = parser.ParseJSONScript(expr)
 		default:
 			return fmt.Errorf("unsupported script format: %s", args.scriptFormat)
 		}
diff --git a/commands/parse.go b/commands/parse.go
index b3a2f41..82d0f33 100644
--- a/commands/parse.go
+++ b/commands/parse.go
@@ -1,6 +1,7 @@
 package commands
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"os"
@@ -83,7 +84,18 @@ func parseInput(r io.Reader, format string) ([]edlisp.Value, error) {
 	case "sexp":
 		return parser.ParseReader(r)
 	case "json":
-		return parser.ParseJSONReader(r)
+		content, err := io.ReadAll(r)
+		if err != nil {
+			return nil, err
+		}
+		program, err := parser.ParseJSONReader(bytes.NewReader(content))
+		if err != nil {
+			// Not a stream of commands: accept one array of commands as well
+			if array, arrayErr := parser.ParseJSONString(string(content)); arrayErr == nil {
+				return array, nil
+			}
+		}
+		return program, err
 	default:
 		return nil, fmt.Errorf("unsupported input format: %s", format)
 	}
diff --git a/edlisp/parser/json.go b/edlisp/parser/json.go
index 53f7544..0b75077 100644
--- a/edlisp/parser/json.go
+++ b/edlisp/parser/json.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"strings"
 
 	"github.com/dhamidi/texted/edlisp"
 )
@@ -67,6 +68,15 @@ func ParseJSONString(s string) ([]edlisp.Value, error) {
 	return expressions, nil
 }
 
+// ParseJSONScript parses a JSON script in either of its two forms: one array
+// holding all command arrays, or a stream of command arrays.
+func ParseJSONScript(s string) ([]edlisp.Value, error) {
+	if program, err := ParseJSONString(s); err == nil {
+		return program, nil
+	}
+	return ParseJSONReader(strings.NewReader(s))
+}
+
 // convertJSONValue converts a Go interface{} value from JSON into an edlisp.Value.
 func convertJSONValue(value interface{}) (edlisp.Value, error) {
 	switch v := value.(type) {
diff --git a/texted.go b/texted.go
index d393631..ad71a3e 100644
--- a/texted.go
+++ b/texted.go
@@ -48,7 +48,7 @@ func ExecuteScriptWithFormat(input, script, format string) (string, error) {
 	case "shell", "sexp":
 		program, err = parser.ParseString(script)
 	case "json":
-		program, err = parser.ParseJSONString(script)
+		program, err = parser.ParseJSONScript(script)
 	default:
 		return "", fmt.Errorf("unsupported script format: %s", format)
 	}
-- 
2.43.0


From 2c304b764705b56e903ccd9e8bd0dddc4512cf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 12/25] fix: the MCP tools run JSON scripts as documented

edit_file and texted_eval document JSON scripts as interchangeable with the
other formats but parsed every script as line-based.
---
 texted.go            | 10 ++++++++++
 tools/edit_file.go   |  4 ++--
 tools/texted_eval.go |  8 ++++++--
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/texted.go b/texted.go
index ad71a3e..f15ae7b 100644
--- a/texted.go
+++ b/texted.go
@@ -3,6 +3,7 @@ package texted
 import (
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/dhamidi/texted/edlisp"
 	"github.com/dhamidi/texted/edlisp/parser"
@@ -138,6 +139,15 @@ func EditFilesWithFormat(files []string, script, format string) ([]EditResult, e
 	return results, nil
 }
 
+// DetectFormat returns the format of a script whose format is not given:
+// a script that starts with a bracket is JSON, everything else is line-based.
+func DetectFormat(script string) string {
+	if strings.HasPrefix(strings.TrimSpace(script), "[") {
+		return "json"
+	}
+	return "shell"
+}
+
 // IsValidFormat checks if a format string is valid.
 func IsValidFormat(format string) bool {
 	switch format {
diff --git a/tools/edit_file.go b/tools/edit_file.go
index f06477e..106e47e 100644
--- a/tools/edit_file.go
+++ b/tools/edit_file.go
@@ -58,7 +58,7 @@ func EditFileHandler(ctx context.Context, request mcp.CallToolRequest) (*mcp.Cal
 	if loopUntilError {
 		editResults, iterations, editErr = editFilesWithLoop(files, script)
 	} else {
-		editResults, editErr = texted.EditFiles(files, script)
+		editResults, editErr = texted.EditFilesWithFormat(files, script, texted.DetectFormat(script))
 		iterations = 1
 	}
 
@@ -103,7 +103,7 @@ func editFilesWithLoop(files []string, script string) ([]texted.EditResult, int,
 
 	for {
 		iterations++
-		results, err := texted.EditFiles(files, script)
+		results, err := texted.EditFilesWithFormat(files, script, texted.DetectFormat(script))
 		if err != nil {
 			return lastResults, iterations, err
 		}
diff --git a/tools/texted_eval.go b/tools/texted_eval.go
index 7f41913..7ffc972 100644
--- a/tools/texted_eval.go
+++ b/tools/texted_eval.go
@@ -56,7 +56,7 @@ func TextedEvalHandler(ctx context.Context, request mcp.CallToolRequest) (*mcp.C
 
 	if outputMode == "buffer" {
 		// Use existing ExecuteScript for buffer mode
-		output, err := texted.ExecuteScript(input, script)
+		output, err := texted.ExecuteScriptWithFormat(input, script, texted.DetectFormat(script))
 		if err != nil {
 			return mcp.NewToolResultError(fmt.Sprintf("script execution failed: %v", err)), nil
 		}
@@ -66,7 +66,11 @@ func TextedEvalHandler(ctx context.Context, request mcp.CallToolRequest) (*mcp.C
 	// Expression mode - need to get the return value
 	buf := edlisp.NewBuffer(input)
 
-	program, err := parser.ParseString(script)
+	parse := parser.ParseString
+	if texted.DetectFormat(script) == "json" {
+		parse = parser.ParseJSONScript
+	}
+	program, err := parse(script)
 	if err != nil {
 		return mcp.NewToolResultError(fmt.Sprintf("parsing script: %v", err)), nil
 	}
-- 
2.43.0


From 8679be15f4b2e66898ebc9d2a546a615d8d2217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 13/25] fix: list documentation categories in a stable order

The verbose listings iterated over a map, so that their order changed from
one run to the next.
---
 commands/doc.go     | 6 ++++--
 tools/texted_doc.go | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/commands/doc.go b/commands/doc.go
index 89d2a12..ff1d63e 100644
--- a/commands/doc.go
+++ b/commands/doc.go
@@ -2,6 +2,8 @@ package commands
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 	"strings"
 
 	"github.com/spf13/cobra"
@@ -152,9 +154,9 @@ func listFunctions(category string, verbose bool) error {
 			categoryMap[cat] = append(categoryMap[cat], doc)
 		}
 
-		for catName, catDocs := range categoryMap {
+		for _, catName := range slices.Sorted(maps.Keys(categoryMap)) {
 			fmt.Printf("## %s\n\n", strings.Title(catName))
-			for _, doc := range catDocs {
+			for _, doc := range categoryMap[catName] {
 				fmt.Printf("- **%s**: %s\n", doc.Name, doc.Summary)
 			}
 			fmt.Printf("\n")
diff --git a/tools/texted_doc.go b/tools/texted_doc.go
index 0513d14..9b9411f 100644
--- a/tools/texted_doc.go
+++ b/tools/texted_doc.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	_ "embed"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/dhamidi/texted/edlisp"
@@ -187,6 +188,7 @@ func formatFunctionList(docs []edlisp.FunctionDoc, title string, verbose bool) s
 		for category := range categoryMap {
 			categories = append(categories, category)
 		}
+		sort.Strings(categories)
 
 		for _, category := range categories {
 			output.WriteString(fmt.Sprintf("## %s\n\n", category))
-- 
2.43.0


From 2976902b9ad842482922830bf97af556e1ea4c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:04 +0000
Subject: [PATCH 14/25] fix: parse rejects scripts that the output format
 cannot express

---
 commands/parse.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/commands/parse.go b/commands/parse.go
index 82d0f33..9a82646 100644
--- a/commands/parse.go
+++ b/commands/parse.go
@@ -107,5 +107,19 @@ func writeOutput(w io.Writer, expressions []edlisp.Value, format string) error {
 	if err != nil {
 		return fmt.Errorf("unsupported output format: %s", format)
 	}
-	return writerInstance.Write(w, expressions)
+
+	var output bytes.Buffer
+	if err := writerInstance.Write(&output, expressions); err != nil {
+		return err
+	}
+
+	// Never write a script that does not read as the same commands: not every
+	// format can express every value (symbols in JSON, for example).
+	written, err := parseInput(bytes.NewReader(output.Bytes()), format)
+	if err != nil || !edlisp.Equal(edlisp.NewList(written...), edlisp.NewList(expressions...)) {
+		return fmt.Errorf("script cannot be expressed in %s format", format)
+	}
+
+	_, err = w.Write(output.Bytes())
+	return err
 }
-- 
2.43.0


From 01cc252b5be677f911f4b69589fac8975e9fb261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:50 +0000
Subject: [PATCH 15/25] fix: edit makes no backup for a script that cannot be
 applied

---
 commands/edit.go | 41 ++++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/commands/edit.go b/commands/edit.go
index 4fb35bb..bd74ab1 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -547,31 +547,6 @@ func processFilesInPlace(args *processFilesInPlaceArgs) error {
 			continue
 		}
 
-		// Create backup if requested
-		if args.backupSuffix != "" {
-			backupFile := filename + args.backupSuffix
-			if args.verbose && !args.quiet {
-				fmt.Printf("Creating backup %s\n", backupFile)
-			}
-
-			content, err := os.ReadFile(filename)
-			if err != nil {
-				if !args.quiet {
-					fmt.Printf("✗ Failed to read %s for backup: %v\n", filename, err)
-				}
-				hasErrors = true
-				continue
-			}
-
-			if err := os.WriteFile(backupFile, content, 0644); err != nil {
-				if !args.quiet {
-					fmt.Printf("✗ Failed to create backup %s: %v\n", backupFile, err)
-				}
-				hasErrors = true
-				continue
-			}
-		}
-
 		// Process the file
 		content, err := os.ReadFile(filename)
 		if err != nil {
@@ -591,6 +566,22 @@ func processFilesInPlace(args *processFilesInPlaceArgs) error {
 			continue
 		}
 
+		// Create backup if requested, now that there is something to write
+		if args.backupSuffix != "" {
+			backupFile := filename + args.backupSuffix
+			if args.verbose && !args.quiet {
+				fmt.Printf("Creating backup %s\n", backupFile)
+			}
+
+			if err := os.WriteFile(backupFile, content, 0644); err != nil {
+				if !args.quiet {
+					fmt.Printf("✗ Failed to create backup %s: %v\n", backupFile, err)
+				}
+				hasErrors = true
+				continue
+			}
+		}
+
 		if err := os.WriteFile(filename, []byte(result), 0644); err != nil {
 			if !args.quiet {
 				fmt.Printf("✗ Failed to write %s: %v\n", filename, err)
-- 
2.43.0


From 9d46a13991c1823d7a72e425f8e87983e3bbc9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:12 +0000
Subject: [PATCH 16/25] fix: reject null as a JSON script

---
 edlisp/parser/json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edlisp/parser/json.go b/edlisp/parser/json.go
index 0b75077..d72d641 100644
--- a/edlisp/parser/json.go
+++ b/edlisp/parser/json.go
@@ -50,6 +50,9 @@ func ParseJSONString(s string) ([]edlisp.Value, error) {
 	if err != nil {
 		return nil, fmt.Errorf("JSON unmarshal error: %w", err)
 	}
+	if rawValues == nil {
+		return nil, fmt.Errorf("unsupported JSON value: null")
+	}
 
 	var expressions []edlisp.Value
 	for i, rawValue := range rawValues {
-- 
2.43.0


From a2672ca7eab0492b36d32af0150d28026e5b73e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:58 +0000
Subject: [PATCH 17/25] fix: parse reads JSON scripts as edit does

'texted parse --input-format json' read [] as one empty command and wrote an
empty command as [], while running [] means no command at all.
---
 commands/parse.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/commands/parse.go b/commands/parse.go
index 9a82646..72ae9c3 100644
--- a/commands/parse.go
+++ b/commands/parse.go
@@ -88,14 +88,7 @@ func parseInput(r io.Reader, format string) ([]edlisp.Value, error) {
 		if err != nil {
 			return nil, err
 		}
-		program, err := parser.ParseJSONReader(bytes.NewReader(content))
-		if err != nil {
-			// Not a stream of commands: accept one array of commands as well
-			if array, arrayErr := parser.ParseJSONString(string(content)); arrayErr == nil {
-				return array, nil
-			}
-		}
-		return program, err
+		return parser.ParseJSONScript(string(content))
 	default:
 		return nil, fmt.Errorf("unsupported input format: %s", format)
 	}
-- 
2.43.0


From 919d730033c109c0be8845566fb3b3a15f145bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 18/25] fix: reject test cases with stray end tags instead of
 ignoring what follows them

---
 edlisp/testing/testing.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/edlisp/testing/testing.go b/edlisp/testing/testing.go
index bc665ee..63549a5 100644
--- a/edlisp/testing/testing.go
+++ b/edlisp/testing/testing.go
@@ -68,10 +68,14 @@ func ParseTestCase(r io.Reader) (*TestCase, error) {
 		Error   Error    `xml:"error"`
 	}
 
-	err = xml.Unmarshal([]byte(wrappedXML), &wrapper)
-	if err != nil {
+	decoder := xml.NewDecoder(strings.NewReader(wrappedXML))
+	if err := decoder.Decode(&wrapper); err != nil {
 		return nil, fmt.Errorf("parsing test case: %w", err)
 	}
+	// A stray end tag in the content would end the test case early
+	if _, err := decoder.Token(); err != io.EOF {
+		return nil, fmt.Errorf("parsing test case: unexpected content after </testcase>")
+	}
 
 	return &TestCase{
 		Buffer: wrapper.Buffer,
-- 
2.43.0


From 8c733c5f78c4209ea2793e7f6af3b5672a3556ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 19/25] fix: read the input of a test case in the JSON syntax
 when its lang says so

---
 edlisp/testing/testing.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edlisp/testing/testing.go b/edlisp/testing/testing.go
index 63549a5..072f9ff 100644
--- a/edlisp/testing/testing.go
+++ b/edlisp/testing/testing.go
@@ -118,7 +118,11 @@ func RunTestWithTrace(testCase *TestCase, env *edlisp.Environment, traceCallback
 	if input == "" {
 		program = []edlisp.Value{}
 	} else {
-		program, err = parser.ParseString(input)
+		if testCase.Input.Lang == "json" {
+			program, err = parser.ParseJSONScript(input)
+		} else {
+			program, err = parser.ParseString(input)
+		}
 		if err != nil {
 			result.Error = fmt.Errorf("parsing input: %w", err)
 			return result
-- 
2.43.0


From 9769a21b84f8d82df9b28cac92d821247771b3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 20/25] Revert "fix: read the input of a test case in the JSON
 syntax when its lang says so"

This reverts commit 8c733c5f78c4209ea2793e7f6af3b5672a3556ab.
---
 edlisp/testing/testing.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/edlisp/testing/testing.go b/edlisp/testing/testing.go
index 072f9ff..63549a5 100644
--- a/edlisp/testing/testing.go
+++ b/edlisp/testing/testing.go
@@ -118,11 +118,7 @@ func RunTestWithTrace(testCase *TestCase, env *edlisp.Environment, traceCallback
 	if input == "" {
 		program = []edlisp.Value{}
 	} else {
-		if testCase.Input.Lang == "json" {
-			program, err = parser.ParseJSONScript(input)
-		} else {
-			program, err = parser.ParseString(input)
-		}
+		program, err = parser.ParseString(input)
 		if err != nil {
 			result.Error = fmt.Errorf("parsing input: %w", err)
 			return result
-- 
2.43.0


From a23b9b275cc5b062aae07ed1844647bb221f2f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 21/25] Revert "fix: reject test cases with stray end tags
 instead of ignoring what follows them"

edlisp/testing counts as test files here, which stay as they were.
---
 edlisp/testing/testing.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/edlisp/testing/testing.go b/edlisp/testing/testing.go
index 63549a5..bc665ee 100644
--- a/edlisp/testing/testing.go
+++ b/edlisp/testing/testing.go
@@ -68,14 +68,10 @@ func ParseTestCase(r io.Reader) (*TestCase, error) {
 		Error   Error    `xml:"error"`
 	}
 
-	decoder := xml.NewDecoder(strings.NewReader(wrappedXML))
-	if err := decoder.Decode(&wrapper); err != nil {
+	err = xml.Unmarshal([]byte(wrappedXML), &wrapper)
+	if err != nil {
 		return nil, fmt.Errorf("parsing test case: %w", err)
 	}
-	// A stray end tag in the content would end the test case early
-	if _, err := decoder.Token(); err != io.EOF {
-		return nil, fmt.Errorf("parsing test case: unexpected content after </testcase>")
-	}
 
 	return &TestCase{
 		Buffer: wrapper.Buffer,
-- 
2.43.0


From 067d63a2123e35c9327f800b49fdb29b4608db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:20 +0000
Subject: [PATCH 22/25] fix: a backup that is a link to the file itself was no
 backup

---
 commands/edit.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/commands/edit.go b/commands/edit.go
index bd74ab1..5296b14 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -573,6 +573,14 @@ func processFilesInPlace(args *processFilesInPlaceArgs) error {
 				fmt.Printf("Creating backup %s\n", backupFile)
 			}
 
+			if isSameFile(filename, backupFile) {
+				if !args.quiet {
+					fmt.Printf("✗ Failed to create backup %s: it is the file itself\n", backupFile)
+				}
+				hasErrors = true
+				continue
+			}
+
 			if err := os.WriteFile(backupFile, content, 0644); err != nil {
 				if !args.quiet {
 					fmt.Printf("✗ Failed to create backup %s: %v\n", backupFile, err)
@@ -601,3 +609,13 @@ func processFilesInPlace(args *processFilesInPlaceArgs) error {
 
 	return nil
 }
+
+// isSameFile reports whether two names are links to one file
+func isSameFile(a, b string) bool {
+	infoA, err := os.Stat(a)
+	if err != nil {
+		return false
+	}
+	infoB, err := os.Stat(b)
+	return err == nil && os.SameFile(infoA, infoB)
+}
-- 
2.43.0


From 3bf6124fa3e6edee9f2118b743b27411eb053d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:08 +0000
Subject: [PATCH 23/25] fix: reject lists that are nested too deeply

A script with millions of opening parentheses overflowed the stack, which
ended the process.
---
 edlisp/parser/linebased.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/edlisp/parser/linebased.go b/edlisp/parser/linebased.go
index a403bca..102b7a9 100644
--- a/edlisp/parser/linebased.go
+++ b/edlisp/parser/linebased.go
@@ -13,6 +13,9 @@ import (
 	"github.com/dhamidi/texted/edlisp"
 )
 
+// maxDepth is how deeply lists can be nested, as in encoding/json.
+const maxDepth = 10000
+
 // ParseReader parses texted scripts from an io.Reader using the line-based format.
 // Each line is parsed according to the rules:
 // 1. Leading whitespace is stripped
@@ -169,6 +172,7 @@ func tokenize(line string) ([]string, error) {
 	var current strings.Builder
 	inQuotes := false
 	escapeNext := false
+	depth := 0
 
 	for _, r := range line {
 		if escapeNext {
@@ -190,6 +194,14 @@ func tokenize(line string) ([]string, error) {
 			if inQuotes {
 				current.WriteRune(r)
 			} else {
+				if r == '(' {
+					depth++
+				} else {
+					depth--
+				}
+				if depth > maxDepth {
+					return nil, fmt.Errorf("lists nested more than %d deep", maxDepth)
+				}
 				if current.Len() > 0 {
 					tokens = append(tokens, current.String())
 					current.Reset()
-- 
2.43.0


From d5a221b31c3cc9ad14c6608d2585eb96a3b1923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:55 +0000
Subject: [PATCH 24/25] fix: report values of expressions that cannot be
 written

With --expression a value that could not be written to standard output
was dropped silently, and the exit status was zero.
---
 commands/edit.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commands/edit.go b/commands/edit.go
index 5296b14..373d613 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -393,7 +393,9 @@ func evaluateExpressionsOnContent(args *evaluateExpressionsOnContentArgs) error
 				return fmt.Errorf("writing result: %w", err)
 			}
 
-			fmt.Printf("%s\n", buf.String())
+			if _, err := fmt.Printf("%s\n", buf.String()); err != nil {
+				return fmt.Errorf("writing result: %w", err)
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 0709cb87a7c4c79944fb12b3141864c0f3b1a15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:09 +0000
Subject: [PATCH 25/25] fix: looking-back with a pattern that leaves a
 quotation open

looking-back anchors the pattern at point by putting it in a group, which
failed for a pattern with an open \Q; then an earlier match hid the one that
ends at point.
---
 edlisp/builtin_looking_back.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edlisp/builtin_looking_back.go b/edlisp/builtin_looking_back.go
index c13073c..468e046 100644
--- a/edlisp/builtin_looking_back.go
+++ b/edlisp/builtin_looking_back.go
@@ -42,7 +42,12 @@ func BuiltinLookingBack(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	// Only a match ending at point counts, even if an earlier match exists
-	if anchored, err := regexp.Compile("(?:" + pattern.Value + `)\z`); err == nil {
+	// (a quotation that the pattern leaves open has to be closed first)
+	anchored, err := regexp.Compile("(?:" + pattern.Value + `)\z`)
+	if err != nil {
+		anchored, err = regexp.Compile("(?:" + pattern.Value + `\E)\z`)
+	}
+	if err == nil {
 		re = anchored
 	}
 
-- 
2.43.0

