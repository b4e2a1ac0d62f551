From 0343c6ab568c227d0d93b3b574d0bbd18d33452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 01/37] fix: clamp Region.Y2 against the height, not the width

---
 region.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region.go b/region.go
index ae93c48..b809c1e 100644
--- a/region.go
+++ b/region.go
@@ -43,6 +43,6 @@ func (r Region) Clamp(rc Region) Region {
 		X:  nx,
 		X2: clamp(r.X2, nx, rc.X2),
 		Y:  ny,
-		Y2: clamp(r.Y2, ny, rc.X2),
+		Y2: clamp(r.Y2, ny, rc.Y2),
 	}
 }
-- 
2.43.0


From cc61b2d379bce954c4b38e0edf7ba5304675594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 02/37] fix: limit scroll distance to the region and ignore
 empty ranges

---
 screen.go      | 7 +++++--
 screen_grid.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/screen.go b/screen.go
index 4d652f9..eb58953 100644
--- a/screen.go
+++ b/screen.go
@@ -3,7 +3,6 @@ package termemu
 import (
 	"bytes"
 	"fmt"
-	"os"
 	"strings"
 )
 
@@ -435,7 +434,11 @@ func (s *spanScreen) scroll(y1 int, y2 int, dy int) {
 	y1 = clamp(y1, 0, s.size.Y-1)
 	y2 = clamp(y2, 0, s.size.Y-1)
 	if y1 > y2 {
-		fmt.Fprintln(os.Stderr, "scroll ys out of order", y1, y2, dy)
+		return // the range is empty, e.g. the cursor is below the scroll region
+	}
+	dy = clamp(dy, -(y2 - y1 + 1), y2-y1+1) // scrolling further only clears the region
+	if dy == 0 {
+		return
 	}
 
 	if dy > 0 {
diff --git a/screen_grid.go b/screen_grid.go
index 634d210..31868ab 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -3,7 +3,6 @@ package termemu
 import (
 	"bytes"
 	"fmt"
-	"os"
 	"strings"
 	"unicode/utf8"
 
@@ -579,7 +578,11 @@ func (s *gridScreen) scroll(y1 int, y2 int, dy int) {
 	// 	fmt.Println("scroll outside margin", y, s.topMargin, s.bottomMargin)
 	// }
 	if y1 > y2 {
-		fmt.Fprintln(os.Stderr, "scroll ys out of order", y1, y2, dy)
+		return // the range is empty, e.g. the cursor is below the scroll region
+	}
+	dy = clamp(dy, -(y2 - y1 + 1), y2-y1+1) // scrolling further only clears the region
+	if dy == 0 {
+		return
 	}
 
 	if dy > 0 {
-- 
2.43.0


From 9dffc253399a3f2ec4044cdf00debac6c869f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 03/37] fix: ignore DECSTBM requests whose top lies below their
 bottom

---
 escapes.go     | 2 +-
 screen.go      | 3 +++
 screen_grid.go | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index a70bc01..08371f0 100644
--- a/escapes.go
+++ b/escapes.go
@@ -695,7 +695,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 			if len(params) >= 1 {
 				top = params[0]
 			}
-			if len(params) >= 2 {
+			if len(params) >= 2 && params[1] > 0 {
 				bottom = params[1]
 			}
 			// debugPrintf("cursor home: %v, %v\n", x, y)
diff --git a/screen.go b/screen.go
index eb58953..58dc3a4 100644
--- a/screen.go
+++ b/screen.go
@@ -425,6 +425,9 @@ func (s *spanScreen) setCursorPos(x, y int) {
 
 func (s *spanScreen) setScrollMarginTopBottom(top, bottom int) {
 	debugPrintln(debugScroll, "scroll margins:", top, bottom)
+	if top > bottom {
+		return
+	}
 	s.topMargin = clamp(top, 0, s.size.Y-1)
 	s.bottomMargin = clamp(bottom, 0, s.size.Y-1)
 }
diff --git a/screen_grid.go b/screen_grid.go
index 31868ab..ad01df9 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -566,6 +566,9 @@ func (s *gridScreen) setCursorPos(x, y int) {
 
 func (s *gridScreen) setScrollMarginTopBottom(top, bottom int) {
 	debugPrintln(debugScroll, "scroll margins:", top, bottom)
+	if top > bottom {
+		return
+	}
 	s.topMargin = clamp(top, 0, s.size.Y-1)
 	s.bottomMargin = clamp(bottom, 0, s.size.Y-1)
 }
-- 
2.43.0


From 8fa3bc4255554e2f98db3b74a8fb24246715968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:35 +0000
Subject: [PATCH 04/37] fix: keep cursor, saved cursor and margins inside the
 screen on resize

---
 screen.go      | 13 ++++++-------
 screen_grid.go | 14 ++++++--------
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/screen.go b/screen.go
index 58dc3a4..54f773a 100644
--- a/screen.go
+++ b/screen.go
@@ -273,19 +273,18 @@ func (s *spanScreen) setSize(w, h int) {
 
 	s.lines = newLines
 
-	s.bottomMargin = h - (s.size.Y - s.bottomMargin)
+	// The margins keep their distance from the screen edges, but stay a
+	// non-empty range of rows that exist.
+	s.bottomMargin = clamp(h-(s.size.Y-s.bottomMargin), 0, h-1)
+	s.topMargin = clamp(s.topMargin, 0, s.bottomMargin)
 
 	s.size = Pos{X: w, Y: h}
 
 	// Resize buffers
 	s.renderBuffer = make([]rune, w)
 
-	if s.cursorPos.X > w {
-		s.cursorPos.X = 0
-	}
-	if s.cursorPos.Y > h {
-		s.cursorPos.Y = 0
-	}
+	s.cursorPos = Pos{X: clamp(s.cursorPos.X, 0, w-1), Y: clamp(s.cursorPos.Y, 0, h-1)}
+	s.savedCursorPos = Pos{X: clamp(s.savedCursorPos.X, 0, w-1), Y: clamp(s.savedCursorPos.Y, 0, h-1)}
 
 	s.setStyle(s.style)
 }
diff --git a/screen_grid.go b/screen_grid.go
index ad01df9..7d91a3a 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -266,17 +266,15 @@ func (s *gridScreen) setSize(w, h int) {
 	}
 	s.cellStyles = styleRect
 
-	s.bottomMargin = h - (s.size.Y - s.bottomMargin)
+	// The margins keep their distance from the screen edges, but stay a
+	// non-empty range of rows that exist.
+	s.bottomMargin = clamp(h-(s.size.Y-s.bottomMargin), 0, h-1)
+	s.topMargin = clamp(s.topMargin, 0, s.bottomMargin)
 
 	s.size = Pos{X: w, Y: h}
 
-	// TODO: Logic for cursor position on resize?
-	if s.cursorPos.X > w {
-		s.cursorPos.X = 0
-	}
-	if s.cursorPos.Y > h {
-		s.cursorPos.Y = 0
-	}
+	s.cursorPos = Pos{X: clamp(s.cursorPos.X, 0, w-1), Y: clamp(s.cursorPos.Y, 0, h-1)}
+	s.savedCursorPos = Pos{X: clamp(s.savedCursorPos.X, 0, w-1), Y: clamp(s.savedCursorPos.Y, 0, h-1)}
 
 	s.setStyle(s.style)
 }
-- 
2.43.0


From 6f357364129ce137585454f3aead2935da52367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 05/37] fix: scroll only when the cursor crosses a scroll
 region edge, never for CUD

---
 escapes.go     |  2 +-
 screen.go      | 36 +++++++++++++++---------------------
 screen_grid.go | 42 +++++++++++++++---------------------------
 3 files changed, 31 insertions(+), 49 deletions(-)

diff --git a/escapes.go b/escapes.go
index 08371f0..65ef6b1 100644
--- a/escapes.go
+++ b/escapes.go
@@ -335,7 +335,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-			t.screen().moveCursor(0, params[0], false, true)
+			t.screen().moveCursor(0, params[0], false, false)
 		case 'C': // Move cursor forward
 			if paramCount == 0 {
 				paramStore[0] = 1
diff --git a/screen.go b/screen.go
index 54f773a..2fd6659 100644
--- a/screen.go
+++ b/screen.go
@@ -470,37 +470,31 @@ func (s *spanScreen) clampRegion(r Region) Region {
 }
 
 func (s *spanScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
+	s.cursorPos.X += dx
 	if wrap && s.autoWrap {
-		s.cursorPos.X += dx
 		for s.cursorPos.X < 0 {
 			s.cursorPos.X += s.size.X
-			s.cursorPos.Y--
+			dy--
 		}
 		for s.cursorPos.X >= s.size.X {
 			s.cursorPos.X -= s.size.X
-			s.cursorPos.Y++
+			dy++
 		}
-	} else {
-		s.cursorPos.X += dx
-		s.cursorPos.X = clamp(s.cursorPos.X, 0, s.size.X-1)
 	}
+	s.cursorPos.X = clamp(s.cursorPos.X, 0, s.size.X-1)
 
-	s.cursorPos.Y += dy
-	if scroll {
-		if s.cursorPos.Y < s.topMargin {
-			s.scroll(s.topMargin, s.bottomMargin, s.topMargin-s.cursorPos.Y)
-			s.cursorPos.Y = s.topMargin
-		}
-		if s.cursorPos.Y > s.bottomMargin {
-			s.scroll(s.topMargin, s.bottomMargin, s.bottomMargin-s.cursorPos.Y)
-			s.cursorPos.Y = s.bottomMargin
-		}
-	} else {
-		s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
-	}
-	if s.cursorPos.Y >= s.size.Y {
-		panic(fmt.Sprintf("moveCursor outside, %v %v  %v, %v, %v, %v", s.cursorPos, s.size, dx, dy, wrap, scroll))
+	// Only a move that crosses an edge of the scroll region from inside scrolls;
+	// outside the region the cursor just stops at the edge of the screen.
+	y := s.cursorPos.Y + dy
+	switch {
+	case scroll && s.cursorPos.Y >= s.topMargin && y < s.topMargin:
+		s.scroll(s.topMargin, s.bottomMargin, s.topMargin-y)
+		y = s.topMargin
+	case scroll && s.cursorPos.Y <= s.bottomMargin && y > s.bottomMargin:
+		s.scroll(s.topMargin, s.bottomMargin, s.bottomMargin-y)
+		y = s.bottomMargin
 	}
+	s.cursorPos.Y = clamp(y, 0, s.size.Y-1)
 	s.frontend.CursorMoved(s.cursorPos.X, s.cursorPos.Y)
 }
 
diff --git a/screen_grid.go b/screen_grid.go
index 7d91a3a..85d099e 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -633,43 +633,31 @@ func (s *gridScreen) clampRegion(r Region) Region {
 }
 
 func (s *gridScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
+	s.cursorPos.X += dx
 	if wrap && s.autoWrap {
-		s.cursorPos.X += dx
 		for s.cursorPos.X < 0 {
 			s.cursorPos.X += s.size.X
-			s.cursorPos.Y--
+			dy--
 		}
 		for s.cursorPos.X >= s.size.X {
 			s.cursorPos.X -= s.size.X
-			s.cursorPos.Y++
+			dy++
 		}
-	} else {
-		s.cursorPos.X += dx
-		s.cursorPos.X = clamp(s.cursorPos.X, 0, s.size.X-1)
 	}
+	s.cursorPos.X = clamp(s.cursorPos.X, 0, s.size.X-1)
 
-	s.cursorPos.Y += dy
-	if scroll {
-		if s.cursorPos.Y < s.topMargin {
-			s.scroll(s.topMargin, s.bottomMargin, s.topMargin-s.cursorPos.Y)
-			s.cursorPos.Y = s.topMargin
-		}
-		if s.cursorPos.Y > s.bottomMargin {
-			s.scroll(s.topMargin, s.bottomMargin, s.bottomMargin-s.cursorPos.Y)
-			s.cursorPos.Y = s.bottomMargin
-		}
-	} else {
-		/*for s.cursorPos.Y < 0 {
-			s.cursorPos.Y += s.size.Y
-		}
-		for s.cursorPos.Y >= s.size.Y {
-			s.cursorPos.Y -= s.size.Y
-		}*/
-		s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
-	}
-	if s.cursorPos.Y >= s.size.Y {
-		panic(fmt.Sprintf("moveCursor outside, %v %v  %v, %v, %v, %v", s.cursorPos, s.size, dx, dy, wrap, scroll))
+	// Only a move that crosses an edge of the scroll region from inside scrolls;
+	// outside the region the cursor just stops at the edge of the screen.
+	y := s.cursorPos.Y + dy
+	switch {
+	case scroll && s.cursorPos.Y >= s.topMargin && y < s.topMargin:
+		s.scroll(s.topMargin, s.bottomMargin, s.topMargin-y)
+		y = s.topMargin
+	case scroll && s.cursorPos.Y <= s.bottomMargin && y > s.bottomMargin:
+		s.scroll(s.topMargin, s.bottomMargin, s.bottomMargin-y)
+		y = s.bottomMargin
 	}
+	s.cursorPos.Y = clamp(y, 0, s.size.Y-1)
 	s.frontend.CursorMoved(s.cursorPos.X, s.cursorPos.Y)
 	//debugPrintf(debugCursor, "cursor move: %v, %v  %v, %v: %v %v\n", s.cursorPos.X, s.cursorPos.Y, dx, dy, wrap, scroll)
 }
-- 
2.43.0


From 02f81cdd2548b971893d5ca9e970b1ad21ef50c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 06/37] fix: EL 1 erases the cursor cell too

---
 escapes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index 65ef6b1..9e2b5cd 100644
--- a/escapes.go
+++ b/escapes.go
@@ -567,7 +567,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				t.screen().eraseRegion(Region{
 					X:  0,
 					Y:  t.screen().CursorPos().Y,
-					X2: t.screen().CursorPos().X,
+					X2: t.screen().CursorPos().X + 1,
 					Y2: t.screen().CursorPos().Y + 1,
 				}, CRClear)
 			case params[0] == 2: // Erase entire line
-- 
2.43.0


From 1f396bf7ca21b1235df147556a4e80d5d506b4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 07/37] fix: saturate CSI parameters instead of overflowing and
 keep more than eight

---
 escapes.go | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/escapes.go b/escapes.go
index 9e2b5cd..346d0d6 100644
--- a/escapes.go
+++ b/escapes.go
@@ -252,6 +252,9 @@ func (t *terminal) handleCommand(r escapeReader) bool {
 	return true
 }
 
+// maxCSIParam is the value at which CSI parameters saturate.
+const maxCSIParam = 1 << 24
+
 func (t *terminal) handleCmdCSI(r escapeReader) bool {
 
 	b, err := r.ReadByte()
@@ -276,25 +279,18 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 
 	// This cannot escape to the heap! Use append([]int(nil), params...) instead of params to make a copy if needed, such as to debug calls
 	var paramStore [8]int
-	paramCount := 0
+	params := paramStore[:0]
 	param := 0
 	paramSet := false
 	sawSeparator := false
 	for b == ';' || (b >= '0' && b <= '9') {
 		if b == ';' {
-			value := 0
-			if paramSet || sawSeparator || paramCount > 0 {
-				value = param
-			}
-			if paramCount < len(paramStore) {
-				paramStore[paramCount] = value
-				paramCount++
-			}
+			params = append(params, param)
 			param = 0
 			paramSet = false
 			sawSeparator = true
 		} else {
-			param = param*10 + int(b-'0')
+			param = min(param*10+int(b-'0'), maxCSIParam)
 			paramSet = true
 			sawSeparator = false
 		}
@@ -308,17 +304,9 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 		}
 	}
 	if paramSet || sawSeparator {
-		value := 0
-		if paramSet {
-			value = param
-		}
-		if paramCount < len(paramStore) {
-			paramStore[paramCount] = value
-			paramCount++
-		}
+		params = append(params, param)
 	}
-
-	params := paramStore[:paramCount]
+	paramCount := len(params)
 
 	if prefix == 0 {
 		switch b {
-- 
2.43.0


From e47c4e9a0a3ad264efb9b7e13cbd107c7ff2e372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:26 +0000
Subject: [PATCH 08/37] fix: consume ESC and CSI sequences with intermediates
 or sub-parameters whole

---
 escapes.go | 56 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/escapes.go b/escapes.go
index 346d0d6..e6d006d 100644
--- a/escapes.go
+++ b/escapes.go
@@ -193,6 +193,21 @@ func (t *terminal) handleCommand(r escapeReader) bool {
 		return false
 	}
 
+	// Intermediate bytes (such as the charset designations G0 to G3) are followed
+	// by a final byte. None of these sequences is supported.
+	if b >= 0x20 && b <= 0x2f {
+		for b >= 0x20 && b <= 0x2f {
+			b, err = r.ReadByte()
+			if err != nil {
+				if err != io.EOF {
+					debugPrintln(debugErrors, "ERR ReadByte4:", err)
+				}
+				return false
+			}
+		}
+		return true
+	}
+
 	// short commands
 	switch b {
 
@@ -214,23 +229,6 @@ func (t *terminal) handleCommand(r escapeReader) bool {
 	case ']': // OSC Operating System Commands
 		return t.handleCmdOSC(r)
 
-	case '(': // G0
-		fallthrough
-	case ')': // G1
-		fallthrough
-	case '*': // G2
-		fallthrough
-	case '+': // G3
-		C, err := r.ReadByte()
-		if err != nil {
-			if err != io.EOF {
-				debugPrintln(debugErrors, "ERR ReadByte4:", err)
-			}
-			return false
-		}
-		_ = C
-		return true
-
 	case '=': // Application Keypad
 		t.setViewFlag(VFAppKeypad, true)
 
@@ -308,6 +306,22 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 	}
 	paramCount := len(params)
 
+	if b >= 0x20 && b <= 0x3f {
+		// Sub-parameters, intermediates and misplaced private markers select
+		// functions that are not supported: drop the rest of the sequence.
+		for b >= 0x20 && b <= 0x3f {
+			b, err = r.ReadByte()
+			if err != nil {
+				if err != io.EOF {
+					debugPrintln(debugErrors, "ERR ReadByte7:", err)
+				}
+				return true // there was nothing to do anyway
+			}
+		}
+		debugPrintf(debugTodo, "TODO: Unhandled CSI Command: %v %#v\n", append([]int(nil), params...), string(b))
+		return true
+	}
+
 	if prefix == 0 {
 		switch b {
 		case 'A': // Move cursor up
@@ -706,14 +720,6 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				debugPrintln(debugTodo, "TODO: Unhandled DSR params: ", append([]int(nil), params...))
 			}
 
-		case '%': // Select character set (ignored)
-			// ignored
-
-		case '<': // SGR mouse or other private mode (ignored)
-			if *debugCmd {
-				debugPrintf(debugCmd, "CSI < params: %v\n", append([]int(nil), params...))
-			}
-
 		default:
 			debugPrintf(debugTodo, "TODO: Unhandled CSI Command: %v %#v\n", append([]int(nil), params...), string(b))
 			return true
-- 
2.43.0


From d1a823ebc6999dcf4e014e24eed14890ac2df80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 09/37] fix: answer CSI c without a parameter

---
 escapes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index e6d006d..3c919e3 100644
--- a/escapes.go
+++ b/escapes.go
@@ -363,7 +363,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 
 		case 'c': // Send Device Attributes
 			if paramCount == 0 {
-				paramStore[0] = 1
+				paramStore[0] = 0
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-- 
2.43.0


From 8123d467f93ce67893f9867572c32a2233f0db03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 10/37] fix: default omitted cursor movement counts to 1 also
 before a separator

---
 escapes.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/escapes.go b/escapes.go
index 3c919e3..54071b3 100644
--- a/escapes.go
+++ b/escapes.go
@@ -325,28 +325,28 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 	if prefix == 0 {
 		switch b {
 		case 'A': // Move cursor up
-			if paramCount == 0 {
+			if paramCount == 0 || params[0] == 0 {
 				paramStore[0] = 1
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
 			t.screen().moveCursor(0, -params[0], false, false)
 		case 'B': // Move cursor down
-			if paramCount == 0 {
+			if paramCount == 0 || params[0] == 0 {
 				paramStore[0] = 1
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
 			t.screen().moveCursor(0, params[0], false, false)
 		case 'C': // Move cursor forward
-			if paramCount == 0 {
+			if paramCount == 0 || params[0] == 0 {
 				paramStore[0] = 1
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
 			t.screen().moveCursor(params[0], 0, false, false)
 		case 'D': // Move cursor backward
-			if paramCount == 0 {
+			if paramCount == 0 || params[0] == 0 {
 				paramStore[0] = 1
 				paramCount = 1
 				params = paramStore[:paramCount]
-- 
2.43.0


From ce3ad8993153f08f0c555fea953ab429796deaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:00 +0000
Subject: [PATCH 11/37] fix: read OSC and DCS strings up to their terminator,
 keeping UTF-8 payloads intact

---
 escapes.go | 81 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 45 insertions(+), 36 deletions(-)

diff --git a/escapes.go b/escapes.go
index 54071b3..0fbf7d5 100644
--- a/escapes.go
+++ b/escapes.go
@@ -906,53 +906,37 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 }
 
 func (t *terminal) handleCmdOSC(r escapeReader) bool {
-	paramBytes := []byte{}
-	var err error
-	var b byte
+	// Read the whole string first, so that nothing of a malformed command is left over.
+	body := []byte{}
+	var utf utf8Tracker
 	for {
-		b, err = r.ReadByte()
+		b, err := r.ReadByte()
 		if err != nil {
 			if err != io.EOF {
 				debugPrintln(debugErrors, "ERR ReadByte8:", err)
 			}
 			return false
 		}
-
-		if b >= '0' && b <= '9' {
-			paramBytes = append(paramBytes, byte(b))
-		} else {
+		inRune := utf.next(b)
+		if b == 7 || (b == 0x9c && !inRune) { // BEL, ST
 			break
 		}
+		if len(body) > 0 && body[len(body)-1] == 27 && b == '\\' { // ESC \ is also ST
+			body = body[:len(body)-1]
+			break
+		}
+		body = append(body, b)
 	}
 
-	param, _ := strconv.Atoi(string(paramBytes))
-
-	param2 := []byte{}
-
-	if b == ';' {
-		// skip the ';'
-		for {
-			b, err = r.ReadByte()
-			if err != nil {
-				if err != io.EOF {
-					debugPrintln(debugErrors, "ERR ReadByte9:", err)
-				}
-				return false
-			}
-			if b == 7 || b == 0x9c { // BEL , ST
-				break
-			}
-			if len(param2) > 0 && param2[len(param2)-1] == 27 && b == '\\' { // ESC \ is also ST
-				param2 = param2[:len(param2)-1]
-				break
-			}
-
-			param2 = append(param2, byte(b))
+	number, payload, _ := bytes.Cut(body, []byte{';'})
+	for _, b := range number {
+		if b < '0' || b > '9' {
+			debugPrintf(debugErrors, "OSC command number not followed by ;, BEL, or ST? %q\n", string(body))
+			return false
 		}
-	} else if b != 7 && b != 0x9c { // BEL, ST
-		debugPrintln(debugErrors, "OSC command number not followed by ;, BEL, or ST?", b)
-		return false
 	}
+	param, _ := strconv.Atoi(string(number))
+	param2 := payload
 
 	switch param {
 	case 0:
@@ -983,7 +967,7 @@ func (t *terminal) handleCmdOSC(r escapeReader) bool {
 		debugPrintln(debugTodo, "TODO: Reset Cursor Color", string(param2))
 
 	default:
-		debugPrintln(debugTodo, "TODO: Unhandled OSC Command: ", param, string(b))
+		debugPrintln(debugTodo, "TODO: Unhandled OSC Command: ", param)
 		return true
 	}
 
@@ -994,9 +978,33 @@ func (t *terminal) handleCmdOSC(r escapeReader) bool {
 	return true
 }
 
+// utf8Tracker tells the continuation bytes of UTF-8 characters from C1 controls.
+type utf8Tracker struct {
+	pending int
+}
+
+// next reports whether b continues a UTF-8 character.
+func (u *utf8Tracker) next(b byte) bool {
+	switch {
+	case b >= 0x80 && b < 0xc0 && u.pending > 0:
+		u.pending--
+		return true
+	case b >= 0xf0 && b < 0xf8:
+		u.pending = 3
+	case b >= 0xe0 && b < 0xf0:
+		u.pending = 2
+	case b >= 0xc0 && b < 0xe0:
+		u.pending = 1
+	default:
+		u.pending = 0
+	}
+	return false
+}
+
 func (t *terminal) handleDCS(r escapeReader) bool {
 	prev := byte(0)
 	var payload []byte
+	var utf utf8Tracker
 	for {
 		b, err := r.ReadByte()
 		if err != nil {
@@ -1005,7 +1013,8 @@ func (t *terminal) handleDCS(r escapeReader) bool {
 			}
 			return false
 		}
-		if b == 0x9c {
+		inRune := utf.next(b)
+		if b == 0x9c && !inRune {
 			if *debugCmd {
 				debugPrintf(debugCmd, "DCS payload: %q\n", string(payload))
 			}
-- 
2.43.0


From 7e82373d205fb9803b4c40cf88cfa711fe7060b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 12/37] fix: switch screens only on a change and announce the
 cursor and style of the new screen

---
 escapes.go  |  2 +-
 terminal.go | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/escapes.go b/escapes.go
index 0fbf7d5..36fb2b6 100644
--- a/escapes.go
+++ b/escapes.go
@@ -812,7 +812,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 					debugPrintf(debugTodo, "TODO: Interpret Meta key = %v\n", value)
 
 				case 1049: // Save/Restore cursor and alternate screen
-					t.switchScreen()
+					t.switchScreen(value)
 
 				case 2004: // Bracketed paste
 					t.setViewFlag(VFBracketedPaste, value)
diff --git a/terminal.go b/terminal.go
index 245d013..65f5b03 100644
--- a/terminal.go
+++ b/terminal.go
@@ -326,10 +326,22 @@ func (t *terminal) WithLock(f func()) {
 	f()
 }
 
-func (t *terminal) switchScreen() {
-	t.onAltScreen = !t.onAltScreen
+// switchScreen activates the alternate or the main screen, if it is not active already.
+func (t *terminal) switchScreen(alt bool) {
+	if t.onAltScreen == alt {
+		return
+	}
+	t.onAltScreen = alt
+	t.announceScreen(CRScreenSwitch)
+}
+
+// announceScreen tells the frontend about the whole active screen.
+func (t *terminal) announceScreen(cr ChangeReason) {
 	size := t.screen().Size()
-	t.frontend.RegionChanged(Region{X: 0, Y: 0, X2: size.X, Y2: size.Y}, CRScreenSwitch)
+	cursor := t.screen().CursorPos()
+	t.frontend.RegionChanged(Region{X: 0, Y: 0, X2: size.X, Y2: size.Y}, cr)
+	t.frontend.StyleChanged(t.screen().Style())
+	t.frontend.CursorMoved(cursor.X, cursor.Y)
 }
 
 // testHandleCommand is only for testing.
-- 
2.43.0


From a3cdfb294ec8acf49ade2bd4fa45c14aa86d1af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 13/37] fix: lock the terminal in Resize and announce the
 resized screen

---
 terminal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terminal.go b/terminal.go
index 65f5b03..1ac1d05 100644
--- a/terminal.go
+++ b/terminal.go
@@ -144,8 +144,12 @@ type winsize struct {
 }
 
 func (t *terminal) Resize(w, h int) error {
+	t.Lock()
+	defer t.Unlock()
+
 	t.mainScreen.setSize(w, h)
 	t.altScreen.setSize(w, h)
+	t.announceScreen(CRRedraw)
 
 	if t.backend == nil {
 		return nil
-- 
2.43.0


From 886648a8c74e057e6791d5490d2e5cc8dd8cd47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:07 +0000
Subject: [PATCH 14/37] fix: announce lines that scroll off the top through
 ScrollLines

---
 screen.go      |  3 +++
 screen_grid.go |  3 +++
 terminal.go    | 10 ++++++++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/screen.go b/screen.go
index 2fd6659..9dba268 100644
--- a/screen.go
+++ b/screen.go
@@ -454,6 +454,9 @@ func (s *spanScreen) scroll(y1 int, y2 int, dy int) {
 		debugPrintln(debugScroll, "scroll changed region:", Region{Y: y1, Y2: y1 + dy, X: 0, X2: s.size.X})
 		s.frontend.RegionChanged(Region{Y: y1, Y2: y1 + dy, X: 0, X2: s.size.X}, CRScroll)
 	} else {
+		if y1 == 0 {
+			s.frontend.ScrollLines(-dy)
+		}
 		for y := y1; y <= y2+dy; y++ {
 			s.lines[y] = s.lines[y-dy]
 		}
diff --git a/screen_grid.go b/screen_grid.go
index 85d099e..0d2296a 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -600,6 +600,9 @@ func (s *gridScreen) scroll(y1 int, y2 int, dy int) {
 		debugPrintln(debugScroll, "scroll changed region:", Region{Y: y1, Y2: y1 + dy, X: 0, X2: s.size.X})
 		s.eraseRegion(Region{Y: y1, Y2: y1 + dy, X: 0, X2: s.size.X}, CRScroll)
 	} else {
+		if y1 == 0 {
+			s.frontend.ScrollLines(-dy)
+		}
 		for y := y1; y <= y2+dy; y++ {
 			// fmt.Println("   3: ", y, y1, y2+dy)
 			copy(s.chars[y], s.chars[y-dy])
diff --git a/terminal.go b/terminal.go
index 1ac1d05..8cbfb29 100644
--- a/terminal.go
+++ b/terminal.go
@@ -83,7 +83,7 @@ func newTerminal(f Frontend, backend Backend, mode TextReadMode) *terminal {
 	return &terminal{
 		frontend:     f,
 		mainScreen:   newScreen(f),
-		altScreen:    newScreen(f),
+		altScreen:    newScreen(altFrontend{f}),
 		backend:      backend,
 		viewFlags:    make([]bool, viewFlagCount),
 		viewInts:     make([]int, viewIntCount),
@@ -95,9 +95,15 @@ func newTerminal(f Frontend, backend Backend, mode TextReadMode) *terminal {
 func (t *terminal) SetFrontend(f Frontend) {
 	t.frontend = f
 	t.mainScreen.SetFrontend(f)
-	t.altScreen.SetFrontend(f)
+	t.altScreen.SetFrontend(altFrontend{f})
 }
 
+// altFrontend is the frontend as the alternate screen sees it: what scrolls off
+// that screen is not scrollback.
+type altFrontend struct{ Frontend }
+
+func (altFrontend) ScrollLines(y int) {}
+
 // func NewNoPTY(f Frontend) Terminal {
 // 	return &terminal{
 // 		frontend: f,
-- 
2.43.0


From e7b8a03eea31778e7c46ae2559e1b06c8ed2bd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 15/37] fix: take the terminal lock while encoding a key

---
 keys.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keys.go b/keys.go
index a30d8e9..03ee984 100644
--- a/keys.go
+++ b/keys.go
@@ -185,7 +185,9 @@ type KeyEvent struct {
 }
 
 func (t *terminal) SendKey(ev KeyEvent) (int, error) {
+	t.Lock()
 	seq := t.encodeKey(ev)
+	t.Unlock()
 	if len(seq) == 0 {
 		return 0, nil
 	}
-- 
2.43.0


From 7844da69c73bc3f33399d6e83ed689c4cb735f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 16/37] fix: emit no bytes for release events that are not
 reported

---
 keys.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keys.go b/keys.go
index 03ee984..6796c4a 100644
--- a/keys.go
+++ b/keys.go
@@ -196,10 +196,17 @@ func (t *terminal) SendKey(ev KeyEvent) (int, error) {
 
 func (t *terminal) encodeKey(ev KeyEvent) []byte {
 	flags := t.keyboardFlags()
+	release := ev.Event == KeyRelease
+	if release && flags&int(KbdReportEvents) == 0 {
+		return nil
+	}
 	if flags != 0 {
 		if seq := t.encodeKittyKey(ev, flags); seq != nil {
 			return seq
 		}
+		if release {
+			return nil // keys that keep their legacy encoding have no release events
+		}
 	}
 	return t.encodeLegacyKey(ev)
 }
@@ -328,7 +335,7 @@ func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 	case KeyF12:
 		return kittyCSITilde(24, modField)
 	case KeyEscape:
-		if flags&int(KbdReportAllKeys) != 0 || flags&int(KbdDisambiguate) != 0 {
+		if flags&int(KbdReportAllKeys|KbdDisambiguate) != 0 || ev.Event == KeyRelease {
 			return kittyCSIu(kittyKeyField(27, ev, flags), modField, kittyTextField(ev, flags))
 		}
 		return nil
-- 
2.43.0


From 4032ab571dcb6f401c59fde46f3a46d37cc49684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 17/37] fix: report modifier keys only with report-all-keys

---
 keys.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/keys.go b/keys.go
index 6796c4a..c54b67a 100644
--- a/keys.go
+++ b/keys.go
@@ -200,6 +200,9 @@ func (t *terminal) encodeKey(ev KeyEvent) []byte {
 	if release && flags&int(KbdReportEvents) == 0 {
 		return nil
 	}
+	if isModifierKey(ev.Code) && flags&int(KbdReportAllKeys) == 0 {
+		return nil
+	}
 	if flags != 0 {
 		if seq := t.encodeKittyKey(ev, flags); seq != nil {
 			return seq
@@ -377,6 +380,17 @@ func (t *terminal) encodeKittyRune(ev KeyEvent, flags int) []byte {
 	return nil
 }
 
+func isModifierKey(code KeyCode) bool {
+	switch code {
+	case KeyLeftShift, KeyLeftControl, KeyLeftAlt, KeyLeftSuper, KeyLeftHyper, KeyLeftMeta,
+		KeyRightShift, KeyRightControl, KeyRightAlt, KeyRightSuper, KeyRightHyper, KeyRightMeta,
+		KeyISOLevel3Shift, KeyISOLevel5Shift:
+		return true
+	default:
+		return false
+	}
+}
+
 func isKeypadKey(code KeyCode) bool {
 	switch code {
 	case KeyKP0, KeyKP1, KeyKP2, KeyKP3, KeyKP4, KeyKP5, KeyKP6, KeyKP7, KeyKP8, KeyKP9,
-- 
2.43.0


From 589cbbc1651e635d23abb957378131ee0d021ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:30 +0000
Subject: [PATCH 18/37] fix: encode keypad keys and F3 as the Kitty protocol
 defines

---
 keys.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/keys.go b/keys.go
index c54b67a..3a3a925 100644
--- a/keys.go
+++ b/keys.go
@@ -235,6 +235,8 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 		return t.encodeHomeEndKey('H', ev.Mod)
 	case KeyEnd:
 		return t.encodeHomeEndKey('F', ev.Mod)
+	case KeyKPBegin:
+		return t.encodeCursorKey('E', ev.Mod)
 	case KeyInsert:
 		return encodeTildeKey(2, ev.Mod)
 	case KeyDelete:
@@ -284,8 +286,10 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 }
 
 func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
-	if isKeypadKey(ev.Code) && flags&int(KbdDisambiguate) == 0 {
-		if mapped, ok := keypadEquivalent(ev); ok {
+	if isKeypadKey(ev.Code) && flags&int(KbdReportAllKeys) == 0 {
+		mapped, ok := keypadEquivalent(ev)
+		text := mapped.Code == KeyRune && ev.Mod&(ModAlt|ModCtrl|ModSuper|ModHyper|ModMeta) == 0
+		if ok && (text || flags&int(KbdDisambiguate) == 0) {
 			return t.encodeKittyKey(mapped, flags)
 		}
 	}
@@ -305,6 +309,8 @@ func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 		return kittyCSI1('H', modField)
 	case KeyEnd:
 		return kittyCSI1('F', modField)
+	case KeyKPBegin:
+		return kittyCSI1('E', modField)
 	case KeyInsert:
 		return kittyCSITilde(2, modField)
 	case KeyDelete:
@@ -318,7 +324,7 @@ func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 	case KeyF2:
 		return kittyCSI1('Q', modField)
 	case KeyF3:
-		return kittyCSI1('R', modField)
+		return kittyCSITilde(13, modField) // CSI R is the cursor position report
 	case KeyF4:
 		return kittyCSI1('S', modField)
 	case KeyF5:
@@ -462,8 +468,6 @@ func keypadEquivalent(ev KeyEvent) (KeyEvent, bool) {
 		mapped.Code = KeyInsert
 	case KeyKPDelete:
 		mapped.Code = KeyDelete
-	case KeyKPBegin:
-		mapped.Code, mapped.Rune = KeyRune, '5'
 	default:
 		return KeyEvent{}, false
 	}
@@ -586,8 +590,6 @@ func kittyFunctionalCode(code KeyCode) (int, bool) {
 		return 57425, true
 	case KeyKPDelete:
 		return 57426, true
-	case KeyKPBegin:
-		return 57427, true
 	case KeyMediaPlay:
 		return 57428, true
 	case KeyMediaPause:
-- 
2.43.0


From b8db9fc4070cf41c6d4a33325efd5c03e26d8bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:32 +0000
Subject: [PATCH 19/37] fix: report only text that the key event generates

---
 keys.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/keys.go b/keys.go
index 3a3a925..a07f559 100644
--- a/keys.go
+++ b/keys.go
@@ -806,16 +806,22 @@ func kittyTextField(ev KeyEvent, flags int) string {
 	if flags&int(KbdReportAllKeys) == 0 || flags&int(KbdReportText) == 0 {
 		return ""
 	}
-	text := ev.Text
-	if len(text) == 0 && ev.Code == KeyRune && ev.Rune != 0 {
-		text = []rune{ev.Rune}
+	if ev.Event == KeyRelease {
+		return "" // only presses and repeats generate text
 	}
-	if len(text) == 0 {
-		return ""
+	text := ev.Text
+	if len(text) == 0 && ev.Code == KeyRune && ev.Mod&(ModAlt|ModCtrl|ModSuper|ModHyper|ModMeta) == 0 {
+		if ev.Mod&ModShift != 0 && ev.Shifted != 0 {
+			text = []rune{ev.Shifted}
+		} else {
+			text = []rune{ev.Rune}
+		}
 	}
 	parts := make([]string, 0, len(text))
 	for _, r := range text {
-		parts = append(parts, strconv.Itoa(int(r)))
+		if r >= 0x20 && (r < 0x7f || r >= 0xa0) { // no control codes
+			parts = append(parts, strconv.Itoa(int(r)))
+		}
 	}
 	return strings.Join(parts, ":")
 }
-- 
2.43.0


From 028e9312520d246c664af3338ef4d3318ad02ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:33 +0000
Subject: [PATCH 20/37] fix: keep lock modifiers out of legacy key encodings
 and include the others

---
 keys.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/keys.go b/keys.go
index a07f559..0233623 100644
--- a/keys.go
+++ b/keys.go
@@ -215,6 +215,7 @@ func (t *terminal) encodeKey(ev KeyEvent) []byte {
 }
 
 func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
+	ev.Mod &^= ModCapsLock | ModNumLock // there is no legacy encoding for them
 	if isKeypadKey(ev.Code) {
 		if mapped, ok := keypadEquivalent(ev); ok {
 			return t.encodeLegacyKey(mapped)
@@ -855,17 +856,7 @@ func kittyCSIu(keyField, modField, textField string) []byte {
 }
 
 func xtermModParam(mod KeyMod) int {
-	param := 1
-	if mod&ModShift != 0 {
-		param += 1
-	}
-	if mod&ModAlt != 0 {
-		param += 2
-	}
-	if mod&ModCtrl != 0 {
-		param += 4
-	}
-	return param
+	return kittyModParam(mod &^ (ModCapsLock | ModNumLock))
 }
 
 func normalizeEventType(event KeyEventType) KeyEventType {
-- 
2.43.0


From 067d7ed38682503c929689b403526c1eb0e3b1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 21/37] fix: complete the legacy encodings of modified C0, ctrl
 and menu keys

---
 keys.go | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/keys.go b/keys.go
index 0233623..07b3cfa 100644
--- a/keys.go
+++ b/keys.go
@@ -223,7 +223,11 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 	}
 	switch ev.Code {
 	case KeyRune:
-		return t.encodeRuneKey(ev.Rune, ev.Mod)
+		r := ev.Rune
+		if ev.Mod&ModShift != 0 && ev.Mod&ModCtrl == 0 && ev.Shifted != 0 {
+			r = ev.Shifted
+		}
+		return t.encodeRuneKey(r, ev.Mod)
 	case KeyUp:
 		return t.encodeCursorKey('A', ev.Mod)
 	case KeyDown:
@@ -250,6 +254,8 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 		return t.encodeBackspaceKey(ev.Mod)
 	case KeyTab:
 		return t.encodeTabKey(ev.Mod)
+	case KeyMenu:
+		return encodeTildeKey(29, ev.Mod)
 	case KeyEnter:
 		return t.encodeEnterKey(ev.Mod)
 	case KeyEscape:
@@ -699,10 +705,14 @@ func (t *terminal) encodeBackspaceKey(mod KeyMod) []byte {
 	if t.viewInts[VIModifyOtherKeys] > 0 {
 		return encodeModifyOtherKeys(127, mod)
 	}
+	b := byte(0x7f)
+	if mod&ModCtrl != 0 {
+		b = 0x08
+	}
 	if mod&ModAlt != 0 {
-		return []byte{0x1b, 0x7f}
+		return []byte{0x1b, b}
 	}
-	return []byte{0x7f}
+	return []byte{b}
 }
 
 func (t *terminal) encodeTabKey(mod KeyMod) []byte {
@@ -715,6 +725,12 @@ func (t *terminal) encodeTabKey(mod KeyMod) []byte {
 	if t.viewInts[VIModifyOtherKeys] > 0 {
 		return encodeModifyOtherKeys(9, mod)
 	}
+	if mod&ModShift != 0 {
+		if mod&ModAlt != 0 {
+			return []byte{0x1b, 0x1b, '[', 'Z'}
+		}
+		return []byte{0x1b, '[', 'Z'}
+	}
 	if mod&ModAlt != 0 {
 		return []byte{0x1b, '\t'}
 	}
@@ -741,6 +757,9 @@ func (t *terminal) encodeEscapeKey(mod KeyMod) []byte {
 	if t.viewInts[VIModifyOtherKeys] > 0 {
 		return encodeModifyOtherKeys(27, mod)
 	}
+	if mod&ModAlt != 0 {
+		return []byte{0x1b, 0x1b}
+	}
 	return []byte{0x1b}
 }
 
@@ -874,19 +893,19 @@ func ctrlByte(r rune) (byte, bool) {
 		return byte(r - 'A' + 1), true
 	}
 	switch r {
-	case '@':
+	case ' ', '@', '2':
 		return 0, true
-	case '[':
+	case '[', '3':
 		return 27, true
-	case '\\':
+	case '\\', '4':
 		return 28, true
-	case ']':
+	case ']', '5':
 		return 29, true
-	case '^':
+	case '^', '~', '6':
 		return 30, true
-	case '_':
+	case '_', '/', '7':
 		return 31, true
-	case '?':
+	case '?', '8':
 		return 127, true
 	default:
 		return 0, false
-- 
2.43.0


From 958a1900a5cbf89169805b1bbe461f270a84a00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 22/37] fix: ignore modifyOtherKeys while Kitty keyboard flags
 are set

---
 keys.go | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/keys.go b/keys.go
index 07b3cfa..210fb3d 100644
--- a/keys.go
+++ b/keys.go
@@ -211,14 +211,15 @@ func (t *terminal) encodeKey(ev KeyEvent) []byte {
 			return nil // keys that keep their legacy encoding have no release events
 		}
 	}
-	return t.encodeLegacyKey(ev)
+	// modifyOtherKeys only applies while the Kitty protocol is off.
+	return t.encodeLegacyKey(ev, flags == 0 && t.viewInts[VIModifyOtherKeys] > 0)
 }
 
-func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
+func (t *terminal) encodeLegacyKey(ev KeyEvent, modifyOther bool) []byte {
 	ev.Mod &^= ModCapsLock | ModNumLock // there is no legacy encoding for them
 	if isKeypadKey(ev.Code) {
 		if mapped, ok := keypadEquivalent(ev); ok {
-			return t.encodeLegacyKey(mapped)
+			return t.encodeLegacyKey(mapped, modifyOther)
 		}
 	}
 	switch ev.Code {
@@ -227,7 +228,7 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 		if ev.Mod&ModShift != 0 && ev.Mod&ModCtrl == 0 && ev.Shifted != 0 {
 			r = ev.Shifted
 		}
-		return t.encodeRuneKey(r, ev.Mod)
+		return encodeRuneKey(r, ev.Mod, modifyOther)
 	case KeyUp:
 		return t.encodeCursorKey('A', ev.Mod)
 	case KeyDown:
@@ -251,15 +252,15 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 	case KeyPageDown:
 		return encodeTildeKey(6, ev.Mod)
 	case KeyBackspace:
-		return t.encodeBackspaceKey(ev.Mod)
+		return encodeBackspaceKey(ev.Mod, modifyOther)
 	case KeyTab:
-		return t.encodeTabKey(ev.Mod)
+		return encodeTabKey(ev.Mod, modifyOther)
 	case KeyMenu:
 		return encodeTildeKey(29, ev.Mod)
 	case KeyEnter:
-		return t.encodeEnterKey(ev.Mod)
+		return encodeEnterKey(ev.Mod, modifyOther)
 	case KeyEscape:
-		return t.encodeEscapeKey(ev.Mod)
+		return encodeEscapeKey(ev.Mod, modifyOther)
 	case KeyF1:
 		return encodeFunctionKey('P', ev.Mod)
 	case KeyF2:
@@ -656,11 +657,11 @@ func kittyFunctionalCode(code KeyCode) (int, bool) {
 	}
 }
 
-func (t *terminal) encodeRuneKey(r rune, mod KeyMod) []byte {
+func encodeRuneKey(r rune, mod KeyMod, modifyOther bool) []byte {
 	if r == 0 {
 		return nil
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 && mod != 0 {
+	if modifyOther && mod != 0 {
 		return encodeModifyOtherKeys(int(r), mod)
 	}
 	if mod&ModCtrl != 0 {
@@ -698,11 +699,11 @@ func (t *terminal) encodeHomeEndKey(final byte, mod KeyMod) []byte {
 	return []byte(fmt.Sprintf("\033[1;%d%c", xtermModParam(mod), final))
 }
 
-func (t *terminal) encodeBackspaceKey(mod KeyMod) []byte {
+func encodeBackspaceKey(mod KeyMod, modifyOther bool) []byte {
 	if mod == 0 {
 		return []byte{0x7f}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
+	if modifyOther {
 		return encodeModifyOtherKeys(127, mod)
 	}
 	b := byte(0x7f)
@@ -715,14 +716,14 @@ func (t *terminal) encodeBackspaceKey(mod KeyMod) []byte {
 	return []byte{b}
 }
 
-func (t *terminal) encodeTabKey(mod KeyMod) []byte {
+func encodeTabKey(mod KeyMod, modifyOther bool) []byte {
 	if mod == 0 {
 		return []byte{'\t'}
 	}
 	if mod == ModShift {
 		return []byte{0x1b, '[', 'Z'}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
+	if modifyOther {
 		return encodeModifyOtherKeys(9, mod)
 	}
 	if mod&ModShift != 0 {
@@ -737,11 +738,11 @@ func (t *terminal) encodeTabKey(mod KeyMod) []byte {
 	return []byte{'\t'}
 }
 
-func (t *terminal) encodeEnterKey(mod KeyMod) []byte {
+func encodeEnterKey(mod KeyMod, modifyOther bool) []byte {
 	if mod == 0 {
 		return []byte{'\r'}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
+	if modifyOther {
 		return encodeModifyOtherKeys(13, mod)
 	}
 	if mod&ModAlt != 0 {
@@ -750,11 +751,11 @@ func (t *terminal) encodeEnterKey(mod KeyMod) []byte {
 	return []byte{'\r'}
 }
 
-func (t *terminal) encodeEscapeKey(mod KeyMod) []byte {
+func encodeEscapeKey(mod KeyMod, modifyOther bool) []byte {
 	if mod == 0 {
 		return []byte{0x1b}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
+	if modifyOther {
 		return encodeModifyOtherKeys(27, mod)
 	}
 	if mod&ModAlt != 0 {
-- 
2.43.0


From c50bb2c6a4e2de3893152aa5de0a2d4f13757dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:20 +0000
Subject: [PATCH 23/37] fix: write X10 mouse reports as single bytes and return
 write errors

---
 terminal.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/terminal.go b/terminal.go
index 8cbfb29..aa1fa12 100644
--- a/terminal.go
+++ b/terminal.go
@@ -271,11 +271,10 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 			y = 255 - 32
 		}
 
-		mouseCmd := []byte("\033[M" + string(32+btnByte) + string(byte(32+x)) + string(byte(32+y)))
-		_, err := t.Write(mouseCmd)
-		if err != nil {
-			panic(fmt.Sprintf("error %v", err))
-		}
+		x = max(x, 1)
+		y = max(y, 1)
+
+		_, err := t.Write([]byte{27, '[', 'M', 32 + btnByte, byte(32 + x), byte(32 + y)})
 		return err
 
 	case MEUTF8:
-- 
2.43.0


From 054e84404163045b570424f2cdaa872f92ca71b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 24/37] fix: filter motion in press mode and buttonless motion
 in button-motion mode

---
 terminal.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/terminal.go b/terminal.go
index aa1fa12..71b3fb0 100644
--- a/terminal.go
+++ b/terminal.go
@@ -242,7 +242,7 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 	case MMNone:
 		return nil
 	case MMPress:
-		if !press {
+		if !press || mods&MMotion != 0 {
 			return nil
 		}
 	case MMPressRelease:
@@ -250,8 +250,8 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 			return nil
 		}
 	case MMPressReleaseMove:
-		if byte(mods)&mWhichBtn == byte(MRelease) {
-			return nil
+		if mods&MMotion != 0 && byte(btn)&mWhichBtn == byte(MRelease) {
+			return nil // motion without a button
 		}
 	case MMPressReleaseMoveAll:
 	}
-- 
2.43.0


From 11e55f1895dc6f01eb89e43e82721be5aed035a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 25/37] fix: lock mouse reports, SetFrontend and backend writes

---
 terminal.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/terminal.go b/terminal.go
index 71b3fb0..184047a 100644
--- a/terminal.go
+++ b/terminal.go
@@ -38,6 +38,7 @@ type terminal struct {
 	altScreen   screen
 
 	backend Backend
+	writeMu sync.Mutex // held while writing to the backend
 
 	viewFlags   []bool
 	viewInts    []int
@@ -93,6 +94,9 @@ func newTerminal(f Frontend, backend Backend, mode TextReadMode) *terminal {
 }
 
 func (t *terminal) SetFrontend(f Frontend) {
+	t.Lock()
+	defer t.Unlock()
+
 	t.frontend = f
 	t.mainScreen.SetFrontend(f)
 	t.altScreen.SetFrontend(altFrontend{f})
@@ -120,6 +124,10 @@ func (t *terminal) Write(b []byte) (int, error) {
 	if t.backend == nil {
 		return 0, errors.New("backend is nil")
 	}
+	// Replies and input events come from different goroutines: keep them apart.
+	t.writeMu.Lock()
+	defer t.writeMu.Unlock()
+
 	total := 0
 	for len(b) > 0 {
 		n, err := t.backend.Write(b)
@@ -238,7 +246,12 @@ const (
 // x and y should start at 1
 // wheel events should use btn1 for wheel up, btn2 for wheel down, true for press, and M_wheel for mods
 func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y int) error {
-	switch t.viewInts[VIMouseMode] {
+	t.Lock()
+	mouseMode := t.viewInts[VIMouseMode]
+	mouseEncoding := t.viewInts[VIMouseEncoding]
+	t.Unlock()
+
+	switch mouseMode {
 	case MMNone:
 		return nil
 	case MMPress:
@@ -256,7 +269,6 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 	case MMPressReleaseMoveAll:
 	}
 
-	mouseEncoding := t.viewInts[VIMouseEncoding]
 	switch mouseEncoding {
 	case MEX10:
 		btnByte := (byte(btn) & mWhichBtn) | byte(mods)
-- 
2.43.0


From ce2153e5447631264e5f7918f10f52a555102f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:49 +0000
Subject: [PATCH 26/37] fix: read terminal state under the lock and release it
 while waiting for input

---
 escapes.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/escapes.go b/escapes.go
index 36fb2b6..3337b1d 100644
--- a/escapes.go
+++ b/escapes.go
@@ -31,17 +31,21 @@ func (t *terminal) ptyReadLoop() {
 }
 
 func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
-	bw, useBytes := t.screen().(interface {
+	type stringWriter interface {
 		writeString(string, int, bool, TextReadMode)
-	})
-	if useBytes {
-		maxWidth := 0
+	}
+	useBytes := false
+	maxWidth := 0
+	t.WithLock(func() {
+		_, useBytes = t.screen().(stringWriter)
 		if t.screen().AutoWrap() {
 			maxWidth = t.screen().Size().X - t.screen().CursorPos().X
 			if maxWidth < 1 {
 				maxWidth = 1
 			}
 		}
+	})
+	if useBytes {
 		data, width, merge, err := gr.ReadPrintableBytes(maxWidth)
 		if err != nil {
 			if err != io.EOF {
@@ -51,7 +55,7 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 		}
 		if len(data) > 0 {
 			t.WithLock(func() {
-				bw.writeString(data, width, merge, t.textReadMode)
+				t.screen().(stringWriter).writeString(data, width, merge, t.textReadMode)
 			})
 			if *debugTxt {
 				debugPrintf(debugTxt, "\033[32mtxt: %#v\033[0m %v\n", data, len(data))
@@ -136,9 +140,10 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 	case 27: // ESC ^[ Escape Character
 
 		t.WithLock(func() {
+			reader := &unlockingReader{t: t, gr: gr}
 			if *debugCmd || *debugTodo {
 				var cmdBytes bytes.Buffer
-				cmdReader := &captureReader{r: gr, buf: &cmdBytes}
+				cmdReader := &captureReader{r: reader, buf: &cmdBytes}
 				success := t.handleCommand(cmdReader)
 				cmd := cmdBytes.Bytes()
 
@@ -148,7 +153,7 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 					debugPrintf(debugTodo, "TODO: Unhandled command: %#v\n", string(cmd))
 				}
 			} else {
-				_ = t.handleCommand(gr)
+				_ = t.handleCommand(reader)
 			}
 		})
 
@@ -167,6 +172,21 @@ type escapeReader interface {
 	// Buffered() int
 }
 
+// unlockingReader reads escape sequences for a terminal that is locked by the
+// caller, and releases the lock while it waits for more input.
+type unlockingReader struct {
+	t  *terminal
+	gr *GraphemeReader
+}
+
+func (u *unlockingReader) ReadByte() (byte, error) {
+	if u.gr.Buffered() == 0 {
+		u.t.Unlock()
+		defer u.t.Lock()
+	}
+	return u.gr.ReadByte()
+}
+
 type captureReader struct {
 	r   escapeReader
 	buf *bytes.Buffer
-- 
2.43.0


From 9b86608b81bc17867c07e277979f54f4212d5bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:50 +0000
Subject: [PATCH 27/37] fix: attach TTYFrontend without lock inversion and stay
 silent while detached

---
 tty_frontend.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/tty_frontend.go b/tty_frontend.go
index b31ba12..785ef10 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -49,21 +49,23 @@ func (t *TTYFrontend) SetTerminal(term Terminal) {
 // Attach starts updating the provided region.
 func (t *TTYFrontend) Attach(r Region) {
 	t.mu.Lock()
-	defer t.mu.Unlock()
+	term := t.term
+	t.mu.Unlock()
 
-	t.region = r
-	t.attached = true
-	if !t.showCur {
-		t.showCur = true
-	}
+	attach := func() {
+		t.mu.Lock()
+		defer t.mu.Unlock()
 
-	if t.term == nil {
+		t.region = r
+		t.attached = true
+		t.renderRegionLocked(t.region)
+	}
+	if term == nil {
+		attach()
 		return
 	}
-
-	t.term.WithLock(func() {
-		t.renderRegionLocked(t.region)
-	})
+	// Callbacks come with the terminal locked, so its lock is always taken first.
+	term.WithLock(attach)
 }
 
 // Detach stops updating the attached region.
@@ -141,7 +143,7 @@ func (t *TTYFrontend) ViewIntChanged(v ViewInt, value int)          {}
 func (t *TTYFrontend) ViewStringChanged(v ViewString, value string) {}
 
 func (t *TTYFrontend) renderRegionLocked(r Region) {
-	if t.out == nil || !t.attached {
+	if t.term == nil || t.out == nil || !t.attached {
 		return
 	}
 
@@ -168,10 +170,10 @@ func (t *TTYFrontend) renderRegionLocked(r Region) {
 }
 
 func (t *TTYFrontend) renderCursorLocked() {
-	if t.term == nil || t.out == nil {
+	if t.term == nil || t.out == nil || !t.attached {
 		return
 	}
-	if !t.attached || !t.showCur || !t.focused {
+	if !t.showCur || !t.focused {
 		_, _ = t.out.Write([]byte(ansiCursorHide))
 		return
 	}
-- 
2.43.0


From c71c1110b10991dbfea44e78479c995e76d0bbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:39 +0000
Subject: [PATCH 28/37] fix: keep span rows whole when wide characters, runs
 and merge fragments meet the edges of a write

replaceRange took the end of the last touched span for the width of the row, so
a write that covered everything up to it dropped the rest of the row, compared
only the foreground and background of styles, and lost cells when a wide
character was cut. Runs that do not fit the row were written clipped instead of
wrapping character by character, invalid UTF-8 was stored verbatim, and merge
fragments were appended to the end of a span instead of to the previous cell.
---
 grapheme_reader.go |   5 +
 screen.go          | 570 ++++++++++++++++++++++-----------------------
 2 files changed, 284 insertions(+), 291 deletions(-)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index ff06e11..3ad263b 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -338,6 +338,11 @@ func nextGraphemeTokenInfo(buf []byte, state int, forceMergeNext bool, lastWasRI
 	return cluster, consumed, width, merge, newState, nextForceMergeNext, nextLastWasRI, true
 }
 
+// isMergeFragment reports whether a cluster only extends the character before it.
+func isMergeFragment(b []byte) bool {
+	return isCombiningOnly(b) || isZWJOnly(b) || isVariationSelectorOnly(b)
+}
+
 func isCombiningOnly(b []byte) bool {
 	if len(b) == 0 {
 		return false
diff --git a/screen.go b/screen.go
index 9dba268..3820184 100644
--- a/screen.go
+++ b/screen.go
@@ -3,7 +3,9 @@ package termemu
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"strings"
+	"unicode/utf8"
 )
 
 type screen interface {
@@ -199,14 +201,7 @@ func (s *spanScreen) StyledLine(x, w, y int) Line {
 				spans = append(spans, sp)
 			} else {
 				// We need a sub-span
-				_, sub, _ := splitSpan(sp, offset, s.textMode) // skip left part
-				// now sub is from offset to end. we might need to truncate it if it's too long
-				if sub.Width > width {
-					keep, _, _ := splitSpan(sub, width, s.textMode)
-					spans = append(spans, keep)
-				} else {
-					spans = append(spans, sub)
-				}
+				spans = appendSubSpan(spans, sp, offset, offset+width, s.textMode)
 			}
 		}
 
@@ -219,6 +214,33 @@ func (s *spanScreen) StyledLine(x, w, y int) Line {
 	}
 }
 
+// appendSubSpan appends the cells [from,to) of sp to spans. A wide character that
+// is only partly inside that range is replaced by blanks.
+func appendSubSpan(spans []Span, sp Span, from, to int, mode TextReadMode) []Span {
+	_, sub, wide := splitSpan(sp, from, mode) // skip left part
+	want := to - from
+	if wide.Width > 0 {
+		blanks := min(sp.Width-sub.Width-from, want)
+		spans = append(spans, Span{Style: sp.Style, Rune: ' ', Width: blanks})
+		want -= blanks
+	}
+	if want <= 0 {
+		return spans
+	}
+	// now sub is from offset to end. we might need to truncate it if it's too long
+	if sub.Width > want {
+		sub, _, _ = splitSpan(sub, want, mode)
+	}
+	if sub.Width > 0 {
+		spans = append(spans, sub)
+		want -= sub.Width
+	}
+	if want > 0 {
+		spans = append(spans, Span{Style: sp.Style, Rune: ' ', Width: want})
+	}
+	return spans
+}
+
 func (s *spanScreen) StyledLines(r Region) []Line {
 	var lines []Line
 	for y := r.Y; y < r.Y2; y++ {
@@ -313,27 +335,71 @@ func (s *spanScreen) writeString(text string, width int, merge bool, mode TextRe
 	if len(text) == 0 {
 		return
 	}
+	text = validText(text)
 	s.textMode = mode
 	if merge {
-		s.mergeIntoPreviousCell(text)
-		return
+		if s.mergeIntoPreviousCell(text) {
+			return
+		}
+		_, width = byteIndexForCell([]byte(text), math.MaxInt, mode)
 	}
 	if width < 1 {
 		width = 1
 	}
-	if width > s.size.X {
-		width = s.size.X
+	for width > 0 && len(text) > 0 {
+		chunk, chunkWidth := text, width
+		if s.cursorPos.X+width > s.size.X {
+			// Write only the characters that fit in the rest of the row.
+			chunk, chunkWidth = textThatFits(text, s.size.X-s.cursorPos.X, mode)
+		}
+		if chunk == "" {
+			n, charWidth := nextTextCell([]byte(text), mode)
+			if n <= 0 {
+				return
+			}
+			if charWidth <= s.size.X {
+				if s.autoWrap {
+					s.moveCursor(-s.cursorPos.X, 1, false, true)
+					continue
+				}
+				s.cursorPos.X = s.size.X - charWidth
+				chunk, chunkWidth = text[:n], charWidth
+			} else {
+				// The character is wider than the whole screen.
+				text = string(utf8.RuneError) + text[n:]
+				width += 1 - charWidth
+				continue
+			}
+		}
+		sp := Span{Style: s.style, Text: chunk, Width: chunkWidth}
+		s.rawWriteSpan(s.cursorPos.X, s.cursorPos.Y, sp, CRText)
+		s.moveCursor(chunkWidth, 0, true, true)
+		text = text[len(chunk):]
+		width -= chunkWidth
 	}
-	if s.cursorPos.X+width > s.size.X {
-		if s.autoWrap {
-			s.moveCursor(-s.cursorPos.X, 1, false, true)
-		} else {
-			s.cursorPos.X = s.size.X - width
+}
+
+// textThatFits returns the characters at the start of text that fit in width cells.
+func textThatFits(text string, width int, mode TextReadMode) (string, int) {
+	textBytes := []byte(text)
+	end, used := 0, 0
+	for end < len(textBytes) {
+		n, charWidth := nextTextCell(textBytes[end:], mode)
+		if n <= 0 || used+charWidth > width {
+			break
 		}
+		end += n
+		used += charWidth
 	}
-	sp := Span{Style: s.style, Text: text, Width: width}
-	s.rawWriteSpan(s.cursorPos.X, s.cursorPos.Y, sp, CRText)
-	s.moveCursor(width, 0, true, true)
+	return text[:end], used
+}
+
+// validText replaces every invalid UTF-8 byte by U+FFFD, which is what it is displayed as.
+func validText(text string) string {
+	if utf8.ValidString(text) {
+		return text
+	}
+	return string([]rune(text))
 }
 
 func (s *spanScreen) insertRunes(b []rune) {
@@ -347,7 +413,7 @@ func (s *spanScreen) insertRunes(b []rune) {
 	}
 
 	line := &s.lines[y]
-	truncateLine(line, s.size.X-n, s.textMode)
+	truncateLine(line, s.size.X-n, s.style, s.textMode)
 	insertSpan(line, s.cursorPos.X, Span{Style: s.style, Rune: ' ', Width: n}, s.textMode)
 
 	s.rawWriteRunes(s.cursorPos.X, s.cursorPos.Y, b[:n], CRText)
@@ -364,8 +430,19 @@ func (s *spanScreen) rawWriteSpan(x int, y int, sp Span, cr ChangeReason) {
 	if y >= s.size.Y || x+sp.Width > s.size.X {
 		panic(fmt.Sprintf("rawWriteSpan out of range: %v  %v,%v,%v %v\n", s.size, x, y, x+sp.Width, sp.Width))
 	}
-	replaceRange(&s.lines[y], x, sp.Width, sp, s.textMode)
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + sp.Width}, cr)
+	s.replaceCells(x, y, sp.Width, sp, cr)
+}
+
+// replaceCells replaces n cells of a row with a span of the same width.
+func (s *spanScreen) replaceCells(x int, y int, n int, sp Span, cr ChangeReason) {
+	line := &s.lines[y]
+	x1, x2 := replaceRange(line, x, n, sp, s.textMode)
+	if line.width > s.size.X {
+		// The write went in after a wide character and pushed the row to the right.
+		truncateLine(line, s.size.X, s.style, s.textMode)
+		x2 = s.size.X
+	}
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x1, X2: x2}, cr)
 }
 
 func (s *spanScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReason) {
@@ -383,8 +460,7 @@ func (s *spanScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReas
 		sp = Span{Style: s.style, Text: string(r), Width: width}
 	}
 
-	replaceRange(&s.lines[y], x, width, sp, s.textMode)
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + width}, cr)
+	s.replaceCells(x, y, width, sp, cr)
 }
 
 func (s *spanScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
@@ -404,7 +480,7 @@ func (s *spanScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 
 	line := &s.lines[y]
 	// Delete characters from x to x+n, shift remaining chars left, and append spaces at the end
-	replaceRange(line, x, n, Span{}, s.textMode)
+	x1, _ := replaceRange(line, x, n, Span{Style: s.style}, s.textMode)
 	// Now append spaces to fill the end to width s.size.X
 	curWidth := lineCellWidth(line)
 	if curWidth < s.size.X {
@@ -412,7 +488,7 @@ func (s *spanScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 		line.width = s.size.X
 	}
 
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: s.size.X}, cr)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x1, X2: s.size.X}, cr)
 }
 
 func (s *spanScreen) setCursorPos(x, y int) {
@@ -577,7 +653,7 @@ func blankSpanLine(width int, style Style) spanLine {
 func resizeLine(line *spanLine, width int, style Style, mode TextReadMode) {
 	cur := lineCellWidth(line)
 	if cur > width {
-		truncateLine(line, width, mode)
+		truncateLine(line, width, style, mode)
 		return
 	}
 	if cur < width {
@@ -590,9 +666,6 @@ func lineCellWidth(line *spanLine) int {
 	if line == nil {
 		return 0
 	}
-	if line.width != 0 || len(line.spans) == 0 {
-		return line.width
-	}
 	width := 0
 	for _, sp := range line.spans {
 		width += sp.Width
@@ -620,8 +693,8 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 		return left, right, Span{}
 	}
 
-	if mode == TextReadModeRune && sp.Width == len(sp.Text) {
-		// Simple mode where each rune is one cell - can't have wide clusters
+	if isSimpleSpan(sp) {
+		// Simple text where each byte is one cell - can't have wide clusters
 		leftText := sp.Text[:cellOffset]
 		rightText := sp.Text[cellOffset:]
 		left := sp
@@ -635,18 +708,14 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 
 	// Text mode - check if we're breaking a wide grapheme cluster
 	idx := 0
-	state := -1
 	cellPos := 0
 	textBytes := []byte(sp.Text)
 
 	for idx < len(textBytes) {
-		cluster, consumed, width, newState, ok := stepTextCluster(textBytes[idx:], state, mode)
-		if !ok || consumed <= 0 {
+		consumed, width := nextTextCell(textBytes[idx:], mode)
+		if consumed <= 0 {
 			break
 		}
-		if width < 1 {
-			width = 0
-		}
 
 		clusterEnd := cellPos + width
 		if cellOffset >= cellPos && cellOffset < clusterEnd {
@@ -666,7 +735,7 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 
 				// Return the wide character that was split
 				wideChar := sp
-				wideChar.Text = string(cluster)
+				wideChar.Text = sp.Text[idx : idx+consumed]
 				wideChar.Width = width
 
 				return left, right, wideChar
@@ -676,7 +745,6 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 
 		cellPos = clusterEnd
 		idx += consumed
-		state = newState
 	}
 
 	// Normal split that doesn't break a wide cluster
@@ -696,47 +764,49 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 }
 
 func byteIndexForCell(text []byte, cellOffset int, mode TextReadMode) (int, int) {
-	if cellOffset <= 0 || len(text) == 0 {
-		return 0, 0
-	}
 	idx := 0
 	width := 0
-	state := -1
 	for idx < len(text) && width < cellOffset {
-		_, consumed, cellWidth, newState, ok := stepTextCluster(text[idx:], state, mode)
-		if !ok || consumed <= 0 {
+		consumed, cellWidth := nextTextCell(text[idx:], mode)
+		if consumed <= 0 {
 			break
 		}
 		idx += consumed
-		state = newState
-		if cellWidth > 0 {
-			width += cellWidth
-		}
+		width += cellWidth
 	}
 	return idx, width
 }
 
-// findSpanAtX returns the span index at position x and the offset within that span.
-// It does NOT modify the line. The returned index points to the span that contains x.
-// If x exactly matches a span boundary, it returns the index of the span after the boundary.
-func findSpanAtX(line *spanLine, x int) (int, int) {
-	if x <= 0 {
-		return 0, 0
+// isSimpleSpan reports whether every byte of a text span is a cell of its own.
+func isSimpleSpan(sp Span) bool {
+	if sp.Width != len(sp.Text) {
+		return false
 	}
-	pos := 0
-	for i := 0; i < len(line.spans); i++ {
-		sp := line.spans[i]
-		next := pos + sp.Width
-		if x == next {
-			return i + 1, 0
+	for i := 0; i < len(sp.Text); i++ {
+		if sp.Text[i] >= 0x80 {
+			return false
 		}
-		if x < next {
-			offset := x - pos
-			return i, offset
+	}
+	return true
+}
+
+// nextTextCell returns the length and the width of the first character of a
+// text span, including any fragments that were merged into it.
+func nextTextCell(text []byte, mode TextReadMode) (consumed int, width int) {
+	if mode != TextReadModeGrapheme {
+		_, consumed, width, _, _ = stepRuneCluster(text, -1)
+		return consumed, width
+	}
+	_, consumed, width, state, ok := stepGraphemeCluster(text, -1)
+	for ok && consumed < len(text) {
+		cluster, n, _, newState, stepped := stepGraphemeCluster(text[consumed:], state)
+		if !stepped || !isMergeFragment(cluster) {
+			break
 		}
-		pos = next
+		consumed += n
+		state = newState
 	}
-	return len(line.spans), 0
+	return consumed, width
 }
 
 // func mergeAdjacent(line *spanLine) {
@@ -787,225 +857,119 @@ func findSpanAtX(line *spanLine, x int) (int, int) {
 // 	line.spans = line.spans[:writeIdx+1]
 // }
 
-func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode) {
-	// Fast return for a no-op insert.
-	if n == 0 && insert.Width == 0 {
-		return
-	}
-
+// replaceRange replaces the n cells at x with insert and returns the range of
+// cells [x1,x2) that may have changed; x2 is the new end of the row if the cells
+// after the range were moved.
+//
+// A wide character that is only partly inside the range is removed as a whole
+// and its remaining cells become blanks in the style of insert. The exception is
+// text that starts on the right half of a wide character: it is inserted after it.
+func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode) (x1, x2 int) {
 	spans := line.spans
-	// Handle empty lines by inserting directly.
-	if len(spans) == 0 {
-		line.spans = append(line.spans[:0], insert)
-		line.width = insert.Width
-		return
-	}
-
-	// Clamp negative inputs and scan once to find boundaries.
-	if x < 0 {
-		x = 0
-	}
-	if n < 0 {
-		n = 0
-	}
+	totalWidth := lineCellWidth(line)
+	x = clamp(x, 0, totalWidth)
+	n = clamp(n, 0, totalWidth-x)
+	x1, x2 = x, x+n
 
-	// Locate the spans that intersect the replacement window.
-	startFound := false
-	startIdx := len(spans)
-	startOffset := 0
-	pos := 0
-	i := 0
-	for ; i < len(spans); i++ {
-		endPos := pos + spans[i].Width
-		if !startFound && x < endPos {
-			startIdx = i
-			startOffset = x - pos
-			break
-		}
-		pos = endPos
-	}
-	endIdx := len(spans) - 1
-	endOffset := 0
-	for ; i < len(spans); i++ {
-		endPos := pos + spans[i].Width
-		if x+n <= endPos {
-			endIdx = i
-			endOffset = x + n - pos
-			pos = endPos
-			break
-		}
-		pos = endPos
+	// Fast return for a no-op insert.
+	if n == 0 && insert.Width == 0 {
+		return x1, x2
 	}
 
-	// Clamp to total width (tracked by pos after the scan).
-	totalWidth := pos
-	if x > totalWidth {
-		x = totalWidth
+	// Locate the spans that intersect the replacement window. startPos and endPos
+	// are the cells where the first of them starts and the last of them ends.
+	startIdx, startPos := 0, 0
+	for startIdx < len(spans) && startPos+spans[startIdx].Width <= x {
+		startPos += spans[startIdx].Width
+		startIdx++
 	}
-	if x+n > totalWidth {
-		n = totalWidth - x
-		endIdx = len(spans) - 1
-		if endIdx >= 0 {
-			endOffset = spans[endIdx].Width
-		}
+	endIdx, endPos := startIdx, startPos
+	for endIdx < len(spans) && endPos < x+n {
+		endPos += spans[endIdx].Width
+		endIdx++
 	}
-	if x == 0 && n >= totalWidth {
-		line.spans = append(line.spans[:0], insert)
-		line.width = insert.Width
-		return
-	}
-
-	// If we never intersected, treat it like an append.
-	if startIdx == len(spans) {
-		if insert.Width > 0 {
-			line.spans = append(line.spans, insert)
-			line.width = totalWidth + insert.Width
-		}
-		return
+	if n == 0 && startPos < x {
+		endPos += spans[endIdx].Width
+		endIdx++
 	}
 
 	// Fast paths for in-place replacements inside a single span.
-	if startIdx == endIdx {
+	if endIdx == startIdx+1 && insert.Width == n && insert.Style == spans[startIdx].Style {
 		sp := spans[startIdx]
-		if startOffset == 0 && endOffset == sp.Width {
-			spans[startIdx] = insert
-			line.width = totalWidth - n + insert.Width
-			return
+		if sp.Text == "" && insert.Text == "" && sp.Rune == insert.Rune {
+			return x1, x2
 		}
-		// Compare styles
-		spFG, _, _ := sp.Style.GetColor(ComponentFG)
-		insertFG, _, _ := insert.Style.GetColor(ComponentFG)
-		spBG, _, _ := sp.Style.GetColor(ComponentBG)
-		insertBG, _, _ := insert.Style.GetColor(ComponentBG)
-		if insert.Width == n && spFG == insertFG && spBG == insertBG {
-			if sp.Text == "" && insert.Text == "" && sp.Rune == insert.Rune {
-				return
-			}
-			if sp.Text != "" && insert.Text != "" && mode == TextReadModeRune && sp.Width == len(sp.Text) && insert.Width == len(insert.Text) {
-				sp.Text = sp.Text[:startOffset] + insert.Text + sp.Text[startOffset+n:]
-				spans[startIdx] = sp
-				line.width = totalWidth
-				return
-			}
+		if sp.Text != "" && insert.Text != "" && isSimpleSpan(sp) && isSimpleSpan(insert) {
+			offset := x - startPos
+			spans[startIdx].Text = sp.Text[:offset] + insert.Text + sp.Text[offset+n:]
+			return x1, x2
 		}
 	}
 
 	// Split the boundary spans so we can keep the untouched parts.
-	var left Span
-	hasLeft := false
-	var splitWideAtStart Span // The wide character we're splitting through, if any
-	if startIdx < len(spans) && startOffset > 0 {
-		left, _, splitWideAtStart = splitSpan(spans[startIdx], startOffset, mode)
-		hasLeft = left.Width > 0
-	}
-
-	var right Span
-	hasRight := false
-	var splitWideAtEnd Span // The wide character we're splitting through, if any
-	if endIdx >= 0 && endIdx < len(spans) {
-		if endOffset < spans[endIdx].Width {
-			_, right, splitWideAtEnd = splitSpan(spans[endIdx], endOffset, mode)
-			hasRight = right.Width > 0
+	var pieces [5]Span
+	count := 0
+	add := func(sp Span) {
+		if sp.Width > 0 {
+			pieces[count] = sp
+			count++
 		}
 	}
-
-	// If we're splitting in the right cell of a wide character at the start,
-	// we should insert after the wide character rather than overwriting it
-	if splitWideAtStart.Width > 0 {
-		// splitSpan gave us the wide character - include it in the left part
-		// and insert after it
-		if hasLeft {
-			// Combine left with the wide character
-			combinedLeft := left
-			combinedLeft.Text = left.Text + splitWideAtStart.Text
-			combinedLeft.Width = left.Width + splitWideAtStart.Width
-			left = combinedLeft
-		} else {
-			// Just use the wide character as the left part
-			left = splitWideAtStart
-			hasLeft = true
+	removeEnd := x + n
+	if startPos < x {
+		left, _, wide := splitSpan(spans[startIdx], x-startPos, mode)
+		wideStart := startPos + left.Width
+		switch {
+		case wide.Width > 0 && insert.Text != "":
+			left.Text += wide.Text
+			left.Width += wide.Width
+			add(left)
+			x2 = wideStart + wide.Width
+			removeEnd = max(removeEnd, x2)
+			x1 = x2
+		case wide.Width > 0:
+			add(left)
+			add(Span{Style: insert.Style, Rune: ' ', Width: x - wideStart})
+			x1 = wideStart
+		default:
+			add(left)
 		}
-
-		// The right part already excludes the wide character, so we're good
-		// This effectively turns the operation into an insert after the wide character
-	}
-
-	// If we split a cell at the end, a space should fill in the gap
-	if splitWideAtEnd.Width > 0 {
-		insert.Text = insert.Text + " "
-		insert.Width += 1
-	}
-
-	// Compute the new slice length and where the suffix begins.
-	prefixLen := startIdx
-	suffixStart := endIdx + 1
-	newLen := prefixLen
-	insertCount := 0
-	if hasLeft {
-		insertCount++
-	}
-	if insert.Width > 0 {
-		insertCount++
 	}
-	if hasRight {
-		insertCount++
-	}
-	newLen += insertCount
-	if suffixStart < len(spans) {
-		newLen += len(spans) - suffixStart
-	}
-	newWidth := totalWidth - n + insert.Width
-
-	// Ensure capacity then populate the new span layout.
-	if cap(spans) < newLen {
-		newSpans := make([]Span, newLen)
-		copy(newSpans, spans[:prefixLen])
-		dest := prefixLen
-		if hasLeft {
-			newSpans[dest] = left
-			dest++
+	add(insert)
+	var right, padRight Span
+	if removeEnd < endPos {
+		last := spans[endIdx-1]
+		var wide Span
+		_, right, wide = splitSpan(last, last.Width-(endPos-removeEnd), mode)
+		if wide.Width > 0 {
+			padRight = Span{Style: insert.Style, Rune: ' ', Width: endPos - right.Width - removeEnd}
 		}
-		if insert.Width > 0 {
-			newSpans[dest] = insert
-			dest++
-		}
-		if hasRight {
-			newSpans[dest] = right
-			dest++
-		}
-		copy(newSpans[dest:], spans[suffixStart:])
-		line.spans = newSpans
-		line.width = newWidth
-		return
 	}
+	add(padRight)
+	add(right)
 
-	// Reuse the existing backing array and shift the suffix if needed.
-	line.spans = spans[:newLen]
-	destStart := prefixLen
-	destAfter := destStart + insertCount
-	suffixLen := len(spans) - suffixStart
-	if suffixLen > 0 && destAfter > suffixStart {
-		copy(line.spans[destAfter:], spans[suffixStart:])
-	}
-
-	dest := destStart
-	if hasLeft {
-		line.spans[dest] = left
-		dest++
-	}
-	if insert.Width > 0 {
-		line.spans[dest] = insert
-		dest++
-	}
-	if hasRight {
-		line.spans[dest] = right
-		dest++
+	// Splice the pieces into the line, reusing its backing array if possible.
+	newLen := startIdx + count + len(spans) - endIdx
+	if newLen <= cap(spans) {
+		tail := spans[endIdx:]
+		spans = spans[:newLen]
+		copy(spans[startIdx+count:], tail)
+	} else {
+		newSpans := make([]Span, newLen)
+		copy(newSpans, spans[:startIdx])
+		copy(newSpans[startIdx+count:], spans[endIdx:])
+		spans = newSpans
 	}
+	copy(spans[startIdx:], pieces[:count])
+	line.spans = spans
 
-	if suffixLen > 0 && destAfter <= suffixStart {
-		copy(line.spans[destAfter:], spans[suffixStart:])
+	line.width = lineCellWidth(line)
+	if line.width != totalWidth {
+		x2 = max(line.width, totalWidth)
+	} else {
+		x2 = removeEnd + padRight.Width
 	}
-	line.width = newWidth
+	return x1, x2
 }
 
 func insertSpan(line *spanLine, x int, insert Span, mode TextReadMode) {
@@ -1014,56 +978,80 @@ func insertSpan(line *spanLine, x int, insert Span, mode TextReadMode) {
 	replaceRange(line, x, 0, insert, mode)
 }
 
-func truncateLine(line *spanLine, width int, mode TextReadMode) {
+// truncateLine cuts a line off at width. A wide character that no longer fits as
+// a whole becomes blanks in the given style.
+func truncateLine(line *spanLine, width int, style Style, mode TextReadMode) {
 	if width <= 0 {
 		line.spans = nil
 		line.width = 0
 		return
 	}
 	// Use replaceRange to truncate: delete everything from width to end
-	replaceRange(line, width, lineCellWidth(line)-width, Span{}, mode)
+	replaceRange(line, width, lineCellWidth(line)-width, Span{Style: style}, mode)
 }
 
-func (s *spanScreen) mergeIntoPreviousCell(text string) {
+// mergeIntoPreviousCell appends a fragment of a character to the character before
+// the cursor. It returns false if the two do not form one character of the same width.
+func (s *spanScreen) mergeIntoPreviousCell(text string) bool {
 	if s.cursorPos.X <= 0 {
-		return
+		return true
 	}
 	y := s.cursorPos.Y
 	line := &s.lines[y]
-	cell := s.cursorPos.X - 1
 
-	// Find the span at cell position
-	idx, offset := findSpanAtX(line, cell)
+	// Find the span that contains the previous cell
+	idx, pos := 0, 0
+	for idx < len(line.spans) && pos+line.spans[idx].Width < s.cursorPos.X {
+		pos += line.spans[idx].Width
+		idx++
+	}
 	if idx >= len(line.spans) {
-		return
+		return true
 	}
 
-	sp := &line.spans[idx]
-
-	// If we're at an offset within the span, we need to split it first
-	if offset > 0 {
-		left, right, _ := splitSpan(*sp, offset, s.textMode)
-
-		// Update spans: replace current span with left and right
-		newSpans := make([]Span, 0, len(line.spans)+1)
-		newSpans = append(newSpans, line.spans[:idx]...)
-		newSpans = append(newSpans, left, right)
-		newSpans = append(newSpans, line.spans[idx+1:]...)
-		line.spans = newSpans
+	left, char, right := splitChar(line.spans[idx], s.cursorPos.X-1-pos, s.textMode)
+	char.Text += text
+	if n, width := nextTextCell([]byte(char.Text), s.textMode); n != len(char.Text) || width != char.Width {
+		return false
+	}
 
-		// Now the cell we want to merge into is at idx+1
-		idx++
+	newSpans := make([]Span, 0, len(line.spans)+2)
+	newSpans = append(newSpans, line.spans[:idx]...)
+	for _, sp := range []Span{left, char, right} {
+		if sp.Width > 0 {
+			newSpans = append(newSpans, sp)
+		}
 	}
+	line.spans = append(newSpans, line.spans[idx+1:]...)
+
+	x := pos + left.Width
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + char.Width}, CRText)
+	return true
+}
 
-	// Convert repeat to text if needed and merge
-	sp = &line.spans[idx]
+// splitChar splits a span into the character that covers the cell at cellOffset
+// and the parts before and after it.
+func splitChar(sp Span, cellOffset int, mode TextReadMode) (left, char, right Span) {
+	left, char, right = sp, sp, sp
 	if sp.Text == "" {
-		sp.Text = strings.Repeat(string(sp.Rune), sp.Width)
+		left.Width = cellOffset
+		char.Text, char.Rune, char.Width = string(sp.Rune), 0, 1
+		right.Width = sp.Width - cellOffset - 1
+		return left, char, right
+	}
+	text := []byte(sp.Text)
+	start, pos := 0, 0
+	for {
+		n, width := nextTextCell(text[start:], mode)
+		if n <= 0 || start+n >= len(text) || cellOffset < pos+width {
+			left.Text, left.Width = sp.Text[:start], pos
+			char.Text, char.Width = sp.Text[start:start+n], width
+			right.Text, right.Width = sp.Text[start+n:], sp.Width-pos-width
+			return left, char, right
+		}
+		start += n
+		pos += width
 	}
-	sp.Text += text
-	// Width doesn't change for merge
-
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: cell, X2: cell + 1}, CRText)
 }
 
 func max(a, b int) int {
-- 
2.43.0


From 6168aef99c6cccb485c87f414bdf900e3dfe78df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:46 +0000
Subject: [PATCH 29/37] fix: grapheme reader state, incomplete runes and empty
 reads

Cluster state was carried across control bytes and past the end of the buffer,
an incomplete rune at the end of a read could be taken for part of a cluster, a
complete flag was remembered as half of one, characters of no width stayed
without a cell, and a read of no bytes inside a character ended the stream.
---
 grapheme_reader.go | 62 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 16 deletions(-)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index 3ad263b..1a0cec3 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -41,6 +41,9 @@ type GraphemeReader struct {
 
 const graphemeReadBufferSize = 4096
 
+// maxEmptyReads is how many reads in a row may return neither data nor an error.
+const maxEmptyReads = 100
+
 func NewGraphemeReader(src io.Reader) *GraphemeReader {
 	return NewGraphemeReaderWithMode(src, TextReadModeRune)
 }
@@ -64,6 +67,10 @@ func (r *GraphemeReader) ReadByte() (byte, error) {
 	}
 	b := r.data[r.start]
 	r.start++
+	// The byte is not text, so no character continues across it.
+	r.state = -1
+	r.forceMergeNext = false
+	r.lastWasRI = false
 	return b, nil
 }
 
@@ -115,11 +122,8 @@ func (r *GraphemeReader) ReadPrintableBytes(maxWidth int) (string, int, bool, er
 				before := r.Buffered()
 				err := r.fill()
 				runStart = r.start
-				if r.Buffered() == before {
-					if err != nil {
-						return "", 0, false, err
-					}
-					return "", 0, false, io.EOF
+				if err != nil && r.Buffered() == before {
+					return "", 0, false, err
 				}
 				continue
 			}
@@ -192,11 +196,8 @@ func (r *GraphemeReader) ReadPrintableTokensInto(maxWidth int, dst []GraphemeTok
 			}
 			before := r.Buffered()
 			err := r.fill()
-			if r.Buffered() == before {
-				if err != nil {
-					return nil, err
-				}
-				return nil, io.EOF
+			if err != nil && r.Buffered() == before {
+				return nil, err
 			}
 			continue
 		}
@@ -237,11 +238,16 @@ func (r *GraphemeReader) fill() error {
 		copy(newBuf, r.data[:r.end])
 		r.data = newBuf
 	}
-	n, err := r.src.Read(r.data[r.end:])
-	if n > 0 {
-		r.end += n
+	for range maxEmptyReads {
+		n, err := r.src.Read(r.data[r.end:])
+		if n > 0 {
+			r.end += n
+		}
+		if n > 0 || err != nil {
+			return err
+		}
 	}
-	return err
+	return io.ErrNoProgress
 }
 
 func isPrintableByte(b byte) bool {
@@ -275,15 +281,36 @@ func stepGraphemeCluster(buf []byte, state int) ([]byte, int, int, int, bool) {
 	if !utf8.FullRune(buf) {
 		return nil, 0, 0, state, false
 	}
+	buf = completeRunes(buf)
 	cluster, rest, boundaries, newState := uniseg.Step(buf, state)
 	if cluster == nil {
 		return nil, 0, 0, state, false
 	}
 	width := boundaries >> uniseg.ShiftWidth
+	if width <= 0 {
+		width = 1
+	}
 	consumed := len(buf) - len(rest)
+	if len(rest) == 0 {
+		// The state says nothing about text that has not been seen yet.
+		newState = -1
+	}
 	return cluster, consumed, width, newState, true
 }
 
+// completeRunes cuts off a rune at the end of buf whose bytes are not all there yet.
+func completeRunes(buf []byte) []byte {
+	for i := len(buf) - 1; i >= 0 && i > len(buf)-utf8.UTFMax; i-- {
+		if utf8.RuneStart(buf[i]) {
+			if !utf8.FullRune(buf[i:]) {
+				return buf[:i]
+			}
+			break
+		}
+	}
+	return buf
+}
+
 func (r *GraphemeReader) nextTokenInfo(buf []byte) ([]byte, int, int, bool, int, bool, bool, bool) {
 	if r.mode == TextReadModeGrapheme {
 		return nextGraphemeTokenInfo(buf, r.state, r.forceMergeNext, r.lastWasRI)
@@ -322,10 +349,13 @@ func nextGraphemeTokenInfo(buf []byte, state int, forceMergeNext bool, lastWasRI
 	case isVariationSelectorOnly(cluster):
 		merge = true
 	case isRegionalIndicator(cluster):
-		if nextLastWasRI {
+		switch {
+		case utf8.RuneCount(cluster) > 1:
+			nextLastWasRI = false // a complete flag
+		case nextLastWasRI:
 			merge = true
 			nextLastWasRI = false
-		} else {
+		default:
 			nextLastWasRI = true
 		}
 	default:
-- 
2.43.0


From cb0879e274337ed71f21f5632ebdc05bdf85dae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:03 +0000
Subject: [PATCH 30/37] fix: keep wide and multi-rune characters whole in the
 grid screen

Writes, erases, deletes and resizes that cut a wide character left half of it
behind, clusters of several runes were spread over several cells, fragments were
merged without telling the frontend, and the text accessors disagreed about them.
---
 screen_grid.go | 229 +++++++++++++++++++++++--------------------------
 1 file changed, 105 insertions(+), 124 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index 0d2296a..41cdad8 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -77,17 +77,7 @@ func (s *gridScreen) getLine(y int) []rune {
 }
 
 func (s *gridScreen) Line(y int) string {
-	line := s.chars[y]
-	// Convert null bytes (wide character continuation markers) to spaces
-	result := make([]rune, len(line))
-	for i, r := range line {
-		if r == 0 {
-			result[i] = ' '
-		} else {
-			result[i] = r
-		}
-	}
-	return string(result)
+	return strings.Join(s.cellText[y], "")
 }
 
 func (s *gridScreen) StyledLine(x, w, y int) Line {
@@ -120,7 +110,7 @@ func (s *gridScreen) StyledLine(x, w, y int) Line {
 		isRepeat := true
 		for k := 0; k < width; k++ {
 			idx := start + k
-			if text[idx] != firstRune || s.cellWidth[y][idx] != 1 || s.cellCont[y][idx] {
+			if text[idx] != firstRune || s.cellWidth[y][idx] != 1 || s.cellCont[y][idx] || len(cellText[idx]) != utf8.RuneLen(firstRune) {
 				isRepeat = false
 				break
 			}
@@ -134,15 +124,14 @@ func (s *gridScreen) StyledLine(x, w, y int) Line {
 			spanWidth := 0
 			for k := 0; k < width; k++ {
 				idx := start + k
-				if s.cellCont[y][idx] {
-					// continuation cell, don't add text, it's part of previous
-					spanWidth++ // visual width increases
+				spanWidth++
+				if base, end := s.charBounds(y, idx); base < x || end > x+w {
+					// only a part of this char is visible
+					sb.WriteByte(' ')
 					continue
 				}
-				// It's a start of a char
-				// If visual width is > 1, next cells will be cont.
+				// The text of a continuation cell is empty, it's part of previous
 				sb.WriteString(cellText[idx])
-				spanWidth++
 			}
 
 			spans = append(spans, Span{Style: style, Text: sb.String(), Width: spanWidth})
@@ -172,9 +161,7 @@ func (s *gridScreen) renderLineANSI(y int) string {
 		buf.Write(currentStyle.ANSIEscape())
 
 		for x < len(line) && styles[x] == currentStyle {
-			if line[x] != 0 {
-				buf.WriteRune(line[x])
-			}
+			buf.WriteString(s.cellText[y][x])
 			x++
 		}
 	}
@@ -244,6 +231,7 @@ func (s *gridScreen) setSize(w, h int) {
 		}
 	}
 
+	oldCont := s.cellCont
 	s.cellText = cellText
 	s.cellWidth = cellWidth
 	s.cellCont = cellCont
@@ -266,6 +254,21 @@ func (s *gridScreen) setSize(w, h int) {
 	}
 	s.cellStyles = styleRect
 
+	// A wide character that no longer fits as a whole becomes blanks.
+	for y := 0; y < minH && w < prevW; y++ {
+		if !oldCont[y][w] {
+			continue
+		}
+		for x := w - 1; x >= 0; x-- {
+			cont := s.cellCont[y][x]
+			s.setBlank(y, x)
+			s.cellStyles[y][x] = s.style
+			if !cont {
+				break
+			}
+		}
+	}
+
 	// The margins keep their distance from the screen edges, but stay a
 	// non-empty range of rows that exist.
 	s.bottomMargin = clamp(h-(s.size.Y-s.bottomMargin), 0, h-1)
@@ -296,85 +299,69 @@ func (s *gridScreen) eraseRegion(r Region, cr ChangeReason) {
 // the bytes are printable bytes
 func (s *gridScreen) writeRunes(b []rune) {
 	for _, r := range b {
-		width := runeCellWidth(r)
-		if width > s.size.X {
-			width = s.size.X
-		}
-		if s.cursorPos.X+width > s.size.X {
-			if s.autoWrap {
-				s.moveCursor(-s.cursorPos.X, 1, false, true)
-			} else {
-				s.cursorPos.X = s.size.X - width
-			}
-		}
-		s.rawWriteRune(s.cursorPos.X, s.cursorPos.Y, r, width, CRText)
-		s.moveCursor(width, 0, true, true)
+		s.writeCell(string(r), runeCellWidth(r))
 	}
 }
 
 func (s *gridScreen) writeTokens(tokens []GraphemeToken) {
 	for _, tok := range tokens {
-		text := string(tok.Bytes)
+		text := validText(string(tok.Bytes))
 		if len(text) == 0 {
 			continue
 		}
-		if tok.Merge {
-			s.mergeIntoPreviousCell(text)
+		if !tok.Merge {
+			s.writeCell(text, tok.Width)
 			continue
 		}
-		if utf8.RuneCountInString(text) == 1 {
-			r, _ := utf8.DecodeRuneInString(text)
-			width := tok.Width
-			if width < 1 {
-				width = 1
-			}
-			if width > s.size.X {
-				width = s.size.X
-			}
-			if s.cursorPos.X+width > s.size.X {
-				if s.autoWrap {
-					s.moveCursor(-s.cursorPos.X, 1, false, true)
-				} else {
-					s.cursorPos.X = s.size.X - width
-				}
-			}
-			s.rawWriteRune(s.cursorPos.X, s.cursorPos.Y, r, width, CRText)
-			s.moveCursor(width, 0, true, true)
+		if s.mergeIntoPreviousCell(text) {
 			continue
 		}
 		for len(text) > 0 {
-			r, size := utf8.DecodeRuneInString(text)
-			if size == 0 || r == utf8.RuneError && size == 1 {
+			n, width := nextTextCell([]byte(text), TextReadModeGrapheme)
+			if n <= 0 {
 				break
 			}
-			text = text[size:]
-			width := runeCellWidth(r)
-			if width > s.size.X {
-				width = s.size.X
-			}
-			if s.cursorPos.X+width > s.size.X {
-				if s.autoWrap {
-					s.moveCursor(-s.cursorPos.X, 1, false, true)
-				} else {
-					s.cursorPos.X = s.size.X - width
-				}
-			}
-			s.rawWriteRune(s.cursorPos.X, s.cursorPos.Y, r, width, CRText)
-			s.moveCursor(width, 0, true, true)
+			s.writeCell(text[:n], width)
+			text = text[n:]
 		}
 	}
 }
 
-func (s *gridScreen) mergeIntoPreviousCell(text string) {
-	if len(text) == 0 || s.cursorPos.X <= 0 {
-		return
+// writeCell writes one character at the cursor, wrapping as necessary.
+func (s *gridScreen) writeCell(text string, width int) {
+	if width < 1 {
+		width = 1
+	}
+	if width > s.size.X {
+		// The character is wider than the whole screen.
+		text, width = string(utf8.RuneError), 1
+	}
+	if s.cursorPos.X+width > s.size.X {
+		if s.autoWrap {
+			s.moveCursor(-s.cursorPos.X, 1, false, true)
+		} else {
+			s.cursorPos.X = s.size.X - width
+		}
+	}
+	s.rawWriteCell(s.cursorPos.X, s.cursorPos.Y, text, width, CRText)
+	s.moveCursor(width, 0, true, true)
+}
+
+// mergeIntoPreviousCell appends a fragment of a character to the character before
+// the cursor. It returns false if the two do not form one character of the same width.
+func (s *gridScreen) mergeIntoPreviousCell(text string) bool {
+	if s.cursorPos.X <= 0 {
+		return true
 	}
 	y := s.cursorPos.Y
-	x := s.cursorPos.X - 1
-	for x > 0 && s.cellCont[y][x] {
-		x--
+	x, end := s.charBounds(y, s.cursorPos.X-1)
+	merged := s.cellText[y][x] + text
+	if n, width := nextTextCell([]byte(merged), TextReadModeGrapheme); n != len(merged) || width != end-x {
+		return false
 	}
-	s.cellText[y][x] += text
+	s.cellText[y][x] = merged
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: end}, CRText)
+	return true
 }
 
 // This is like writeRunes, but it moves existing runes to the right
@@ -402,14 +389,13 @@ func (s *gridScreen) rawWriteRunes(x int, y int, b []rune, cr ChangeReason) {
 	if y >= s.size.Y || x+len(b) > s.size.X {
 		panic(fmt.Sprintf("rawWriteBytes out of range: %v  %v,%v,%v %v %#v, %v,%v\n", s.size, x, y, x+len(b), len(b), string(b), len(s.chars), len(s.chars[0])))
 	}
+	s.breakWide(y, x)
+	s.breakWide(y, x+len(b))
 	textRow := s.cellText[y]
 	widthRow := s.cellWidth[y]
 	contRow := s.cellCont[y]
 	for i, r := range b {
 		idx := x + i
-		if contRow[idx] {
-			s.clearWideAt(y, idx)
-		}
 		s.chars[y][idx] = r
 		textRow[idx] = string(r)
 		widthRow[idx] = 1
@@ -420,23 +406,23 @@ func (s *gridScreen) rawWriteRunes(x int, y int, b []rune, cr ChangeReason) {
 }
 
 func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReason) {
+	s.rawWriteCell(x, y, string(r), width, cr)
+}
+
+// rawWriteCell writes one character, which may consist of several runes.
+func (s *gridScreen) rawWriteCell(x int, y int, text string, width int, cr ChangeReason) {
 	if width < 1 {
 		width = 1
 	}
 	if y >= s.size.Y || x+width > s.size.X {
-		panic(fmt.Sprintf("rawWriteRune out of range: %v  %v,%v,%v %v %#v\n", s.size, x, y, x+width, width, string(r)))
-	}
-	if s.cellCont[y][x] {
-		s.clearWideAt(y, x)
-	}
-
-	prevWidth := int(s.cellWidth[y][x])
-	if prevWidth < 1 {
-		prevWidth = 1
+		panic(fmt.Sprintf("rawWriteCell out of range: %v  %v,%v,%v %v %#v\n", s.size, x, y, x+width, width, text))
 	}
+	s.breakWide(y, x)
+	s.breakWide(y, x+width)
 
+	r, _ := utf8.DecodeRuneInString(text)
 	s.chars[y][x] = r
-	s.cellText[y][x] = string(r)
+	s.cellText[y][x] = text
 	s.cellWidth[y][x] = uint8(width)
 	s.cellCont[y][x] = false
 	for i := 1; i < width; i++ {
@@ -446,47 +432,43 @@ func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReas
 		s.cellWidth[y][idx] = 0
 		s.cellCont[y][idx] = true
 	}
-	for i := width; i < prevWidth; i++ {
-		idx := x + i
-		if idx >= s.size.X {
-			break
-		}
-		s.chars[y][idx] = ' '
-		s.cellText[y][idx] = " "
-		s.cellWidth[y][idx] = 1
-		s.cellCont[y][idx] = false
-	}
-	end := x + width
-	if prevWidth > width {
-		end = x + prevWidth
-	}
-	if end > s.size.X {
-		end = s.size.X
-	}
-	s.rawWriteStyles(y, x, end)
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: end}, cr)
+	s.rawWriteStyles(y, x, x+width)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + width}, cr)
 }
 
-func (s *gridScreen) clearWideAt(y int, x int) {
-	base := x
+// charBounds returns the range of cells of the character that covers cell x.
+func (s *gridScreen) charBounds(y int, x int) (base, end int) {
+	base, end = x, x+1
 	for base > 0 && s.cellCont[y][base] {
 		base--
 	}
-	width := int(s.cellWidth[y][base])
-	if width <= 1 {
+	for end < s.size.X && s.cellCont[y][end] {
+		end++
+	}
+	return base, end
+}
+
+// breakWide blanks the wide character that has cells on both sides of the left
+// edge of cell x, if there is one, because one of its sides is about to change.
+func (s *gridScreen) breakWide(y int, x int) {
+	if x >= s.size.X || !s.cellCont[y][x] {
 		return
 	}
-	end := min(base+width, s.size.X)
+	base, end := s.charBounds(y, x)
 	for i := base; i < end; i++ {
-		s.chars[y][i] = ' '
-		s.cellText[y][i] = " "
-		s.cellWidth[y][i] = 1
-		s.cellCont[y][i] = false
+		s.setBlank(y, i)
 	}
 	s.rawWriteStyles(y, base, end)
 	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: base, X2: end}, CRClear)
 }
 
+func (s *gridScreen) setBlank(y int, x int) {
+	s.chars[y][x] = ' '
+	s.cellText[y][x] = " "
+	s.cellWidth[y][x] = 1
+	s.cellCont[y][x] = false
+}
+
 func runeCellWidth(r rune) int {
 	if r == 0 {
 		return 1
@@ -522,6 +504,9 @@ func (s *gridScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 		n = s.size.X - x
 	}
 
+	s.breakWide(y, x)
+	s.breakWide(y, x+n)
+
 	line := s.chars[y]
 	copy(line[x:], line[x+n:])
 	textLine := s.cellText[y]
@@ -628,11 +613,7 @@ func clamp(v int, low, high int) int {
 }
 
 func (s *gridScreen) clampRegion(r Region) Region {
-	r.X = clamp(r.X, 0, s.size.X)
-	r.Y = clamp(r.Y, 0, s.size.Y)
-	r.X2 = clamp(r.X2, 0, s.size.X)
-	r.Y2 = clamp(r.Y2, 0, s.size.Y)
-	return r
+	return r.Clamp(Region{0, 0, s.size.X, s.size.Y})
 }
 
 func (s *gridScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
-- 
2.43.0


From 4e1378bbf5a88e4256aa7fd3264d08edd85c92b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 31/37] fix: a split in front of a wide character does not cut
 it

---
 screen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/screen.go b/screen.go
index 3820184..4da994d 100644
--- a/screen.go
+++ b/screen.go
@@ -718,7 +718,7 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 		}
 
 		clusterEnd := cellPos + width
-		if cellOffset >= cellPos && cellOffset < clusterEnd {
+		if cellOffset > cellPos && cellOffset < clusterEnd {
 			// Split point is within this cluster
 			if width > 1 {
 				// We're breaking a wide cluster - return the wide char we're splitting
-- 
2.43.0


From ca9a65dca37138d73921c3142962b5fc1e3c2d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:01 +0000
Subject: [PATCH 32/37] fix: IL and DL above the scroll region leave it alone

---
 escapes.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/escapes.go b/escapes.go
index 3337b1d..c5d3f6c 100644
--- a/escapes.go
+++ b/escapes.go
@@ -664,7 +664,10 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-			t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), params[0])
+			// Only rows of the scroll region move: outside of it there is nothing to do.
+			if y := t.screen().CursorPos().Y; y >= t.screen().TopMargin() {
+				t.screen().scroll(y, t.screen().BottomMargin(), params[0])
+			}
 
 		case 'M': // Delete lines, scroll up
 			if paramCount == 0 {
@@ -672,7 +675,10 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-			t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), -params[0])
+			// Only rows of the scroll region move: outside of it there is nothing to do.
+			if y := t.screen().CursorPos().Y; y >= t.screen().TopMargin() {
+				t.screen().scroll(y, t.screen().BottomMargin(), -params[0])
+			}
 
 		case 'S': // Scroll up
 			if paramCount == 0 {
-- 
2.43.0


From ee680c436c331410fd98c3aa8f17c0f6b498aa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:57 +0000
Subject: [PATCH 33/37] fix: erasing no cells of a grid row leaves wide
 characters alone

---
 screen_grid.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/screen_grid.go b/screen_grid.go
index 41cdad8..6b516c1 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -386,6 +386,9 @@ func (s *gridScreen) insertRunes(b []rune) {
 // This is a very raw write function. It assumes all the bytes are printable bytes
 // If you use this to write beyond the end of the line, it will panic.
 func (s *gridScreen) rawWriteRunes(x int, y int, b []rune, cr ChangeReason) {
+	if len(b) == 0 {
+		return
+	}
 	if y >= s.size.Y || x+len(b) > s.size.X {
 		panic(fmt.Sprintf("rawWriteBytes out of range: %v  %v,%v,%v %v %#v, %v,%v\n", s.size, x, y, x+len(b), len(b), string(b), len(s.chars), len(s.chars[0])))
 	}
-- 
2.43.0


From 35344d27975019e9ea788e3e8ad4424dfa6d50ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 34/37] fix: text written from inside a wide character does not
 depend on how it is read

---
 screen.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/screen.go b/screen.go
index 4da994d..77cfa05 100644
--- a/screen.go
+++ b/screen.go
@@ -371,6 +371,11 @@ func (s *spanScreen) writeString(text string, width int, merge bool, mode TextRe
 				continue
 			}
 		}
+		if s.insideChar(s.cursorPos.X, s.cursorPos.Y) {
+			// What this character does to the row decides where the next one goes.
+			n, charWidth := nextTextCell([]byte(chunk), mode)
+			chunk, chunkWidth = chunk[:n], charWidth
+		}
 		sp := Span{Style: s.style, Text: chunk, Width: chunkWidth}
 		s.rawWriteSpan(s.cursorPos.X, s.cursorPos.Y, sp, CRText)
 		s.moveCursor(chunkWidth, 0, true, true)
@@ -379,6 +384,21 @@ func (s *spanScreen) writeString(text string, width int, merge bool, mode TextRe
 	}
 }
 
+// insideChar reports whether a cell is the continuation of a wide character.
+func (s *spanScreen) insideChar(x, y int) bool {
+	for _, sp := range s.lines[y].spans {
+		if x < sp.Width {
+			if sp.Text == "" || isSimpleSpan(sp) {
+				return false
+			}
+			left, _, _ := splitChar(sp, x, s.textMode)
+			return left.Width != x
+		}
+		x -= sp.Width
+	}
+	return false
+}
+
 // textThatFits returns the characters at the start of text that fit in width cells.
 func textThatFits(text string, width int, mode TextReadMode) (string, int) {
 	textBytes := []byte(text)
-- 
2.43.0


From 7be6ac9f13ccf55792962a70341d3a986d4387d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:34 +0000
Subject: [PATCH 35/37] fix: a read error inside an escape sequence ends the
 read loop

---
 escapes.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/escapes.go b/escapes.go
index c5d3f6c..e7b2d7e 100644
--- a/escapes.go
+++ b/escapes.go
@@ -138,9 +138,8 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 		})
 
 	case 27: // ESC ^[ Escape Character
-
+		reader := &unlockingReader{t: t, gr: gr}
 		t.WithLock(func() {
-			reader := &unlockingReader{t: t, gr: gr}
 			if *debugCmd || *debugTodo {
 				var cmdBytes bytes.Buffer
 				cmdReader := &captureReader{r: reader, buf: &cmdBytes}
@@ -156,6 +155,7 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 				_ = t.handleCommand(reader)
 			}
 		})
+		return reader.err
 
 	case 127: // DEL  Delete Character (treat as backspace)
 		t.WithLock(func() {
@@ -175,8 +175,9 @@ type escapeReader interface {
 // unlockingReader reads escape sequences for a terminal that is locked by the
 // caller, and releases the lock while it waits for more input.
 type unlockingReader struct {
-	t  *terminal
-	gr *GraphemeReader
+	t   *terminal
+	gr  *GraphemeReader
+	err error // the error that ended the input
 }
 
 func (u *unlockingReader) ReadByte() (byte, error) {
@@ -184,7 +185,11 @@ func (u *unlockingReader) ReadByte() (byte, error) {
 		u.t.Unlock()
 		defer u.t.Lock()
 	}
-	return u.gr.ReadByte()
+	b, err := u.gr.ReadByte()
+	if err != nil {
+		u.err = err
+	}
+	return b, err
 }
 
 type captureReader struct {
-- 
2.43.0


From ef9b20cfae39cd4316ca4451902d1604970d15db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 36/37] fix: an error read together with data ends the read
 loop

---
 grapheme_reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index 1a0cec3..d522a2c 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -37,6 +37,7 @@ type GraphemeReader struct {
 	forceMergeNext bool
 	lastWasRI      bool
 	mode           TextReadMode
+	err            error // came together with data; there is nothing to read after it
 }
 
 const graphemeReadBufferSize = 4096
@@ -220,6 +221,9 @@ func (r *GraphemeReader) ReadPrintableTokensInto(maxWidth int, dst []GraphemeTok
 }
 
 func (r *GraphemeReader) fill() error {
+	if r.err != nil {
+		return r.err
+	}
 	if r.data == nil {
 		r.data = make([]byte, graphemeReadBufferSize)
 	}
@@ -242,6 +246,7 @@ func (r *GraphemeReader) fill() error {
 		n, err := r.src.Read(r.data[r.end:])
 		if n > 0 {
 			r.end += n
+			r.err = err
 		}
 		if n > 0 || err != nil {
 			return err
-- 
2.43.0


From 99336653559ca873e6eb78cebcd6432238164de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 37/37] fix: a TTYFrontend attached to a used terminal shows
 that terminal's cursor

---
 terminal.go     | 5 ++++-
 tty_frontend.go | 6 ++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/terminal.go b/terminal.go
index 184047a..e5c2d51 100644
--- a/terminal.go
+++ b/terminal.go
@@ -81,12 +81,15 @@ func newTerminal(f Frontend, backend Backend, mode TextReadMode) *terminal {
 		return nil
 	}
 
+	viewFlags := make([]bool, viewFlagCount)
+	viewFlags[VFShowCursor] = true
+
 	return &terminal{
 		frontend:     f,
 		mainScreen:   newScreen(f),
 		altScreen:    newScreen(altFrontend{f}),
 		backend:      backend,
-		viewFlags:    make([]bool, viewFlagCount),
+		viewFlags:    viewFlags,
 		viewInts:     make([]int, viewIntCount),
 		viewStrings:  make([]string, viewStringCount),
 		textReadMode: mode,
diff --git a/tty_frontend.go b/tty_frontend.go
index 785ef10..31a28bf 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -56,9 +56,15 @@ func (t *TTYFrontend) Attach(r Region) {
 		t.mu.Lock()
 		defer t.mu.Unlock()
 
+		// What happened before this frontend was told about anything.
+		if term, ok := term.(*terminal); ok {
+			t.cursor = term.screen().CursorPos()
+			t.showCur = term.GetViewFlag(VFShowCursor)
+		}
 		t.region = r
 		t.attached = true
 		t.renderRegionLocked(t.region)
+		t.renderCursorLocked()
 	}
 	if term == nil {
 		attach()
-- 
2.43.0

