package termemu

import "unicode/utf8"

// C03: printable text.

// vChar chooses a class of characters and returns a symbolic member and its width.
//
//	0 ASCII, 1 two-byte narrow, 2 three-byte wide, 3 four-byte wide, 4 three cells wide,
//	5 base + combining mark (grapheme mode only), 6 ZWJ sequence, 7 flag
func vChar(tag string, class int) (string, int) {
	switch class {
	case 0:
		return string([]byte{vU8(tag+".a", 0x20, 0x7e)}), 1
	case 1:
		return string(vRune(tag+".l", 0x100, 0x17f)), 1
	case 2:
		return string(vRune(tag+".w", 0x4e00, 0x4eff)), 2
	case 3:
		return string(vRune(tag+".e", 0x1f600, 0x1f64f)), 2
	case 4:
		return "\u2e3a", 3
	case 5:
		return string([]byte{vU8(tag+".b", 'a', 'z')}) + string(vRune(tag+".m", 0x300, 0x36f)), 1
	case 6:
		return "\U0001f468\u200d\U0001f469", 2
	case 7:
		return "\U0001f1fa\U0001f1f8", 2
	case 8:
		return "\u2e3b", 4
	case 9: // not UTF-8
		c := vU8(tag+".i", 0x80, 0xff)
		vAssume(vOr(c < 0xc2, c > 0xf4))
		return string([]byte{c}), 1
	}
	return "x", 1
}

func vModes() TextReadMode {
	if vChoose("mode", 2) == 1 {
		return TextReadModeGrapheme
	}
	return TextReadModeRune
}

// putRun writes a run of n characters of chosen classes in one read.
func (p *vPair) putRun(tag string, n, classes int) {
	run := ""
	for i := 0; i < n; i++ {
		t := tag + string(rune('0'+i))
		s, w := vChar(t, vChoose(t+".class", classes))
		run += s
		p.m.put(s, w)
	}
	if p.m.odd && !p.grid {
		vStop()
	}
	p.feeds(run)
}

func vClasses(mode TextReadMode) int {
	if mode == TextReadModeGrapheme {
		return 8
	}
	return 5
}

// A run of one or two characters from every cursor position and scroll region.
func vh_C03_step() {
	mode := vModes()
	p := vFilled(4, 3, mode, vChoose("grid", 2) == 1, false, vChoose("layout", 3))
	p.chooseMargins("reg")
	p.setWrap(vChoose("wrap", 2) == 1)
	p.sgr("1;45")
	p.chooseCursor("cur")
	p.putRun("a", 1, vClasses(mode))
	p.check("text")
	vObsScreen(p.t.screen())
	p.probe()
}

// Bytes that are not UTF-8, each a replacement character, among others.
func vh_C03_invalid() {
	mode := vModes()
	p := vFilled(4, 2, mode, vChoose("grid", 2) == 1, false, vChoose("layout", 2))
	p.setWrap(vChoose("wrap", 2) == 1)
	p.sgr("4")
	p.cup(vChoose("x", 4), vChoose("y", 2))
	one := vChoose("one", 2) == 1
	run := ""
	for _, t := range []string{"a", "b", "c"} {
		k := []int{9, 0, 2}[vChoose(t, 3)]
		s, w := vChar(t, k)
		if k == 9 {
			p.m.put("\ufffd", w)
		} else {
			p.m.put(s, w)
		}
		if p.m.odd && !p.grid {
			vStop()
		}
		if one {
			run += s
		} else {
			p.feeds(s)
		}
	}
	p.feeds(run)
	p.check("text")
}

// Runs of three to five characters across the right edge.
func vh_C03_run() {
	mode := vModes()
	w := 2 + vChoose("w", 3)
	p := vNewPair(w, 2, mode, vChoose("grid", 2) == 1)
	p.setWrap(vChoose("wrap", 2) == 1)
	p.sgr("4")
	p.cup(vChoose("x", w), vChoose("y", 2))
	cl := 3
	if mode == TextReadModeGrapheme {
		cl = 6
	}
	p.putRun("a", 2+vChoose("n", 2), cl)
	p.check("text")
	vObsScreen(p.t.screen())
}

// Screens narrower than a character.
func vh_C03_narrow() {
	mode := vModes()
	w := 1 + vChoose("w", 3)
	p := vNewPair(w, 2, mode, vChoose("grid", 2) == 1)
	p.setWrap(vChoose("wrap", 2) == 1)
	p.cup(vChoose("x", w), vChoose("y", 2))
	p.putRun("a", 2, 5)
	p.check("text")
	vObsScreen(p.t.screen())
}

// Text written over itself: two runs at two places of the same row.
func overBody(w, n1, n2 int, classes []int, sts []string) {
	mode := vModes()
	p := vNewPair(w, 2, mode, vChoose("grid", 2) == 1)
	p.setWrap(vChoose("wrap", 2) == 1)
	p.text("a", "b", "c", "d")
	p.sgr(sts[vChoose("st", len(sts))])
	p.cup(vChoose("x1", w), 0)
	p.putClasses("a", n1, classes, mode)
	p.sgr("44")
	p.cup(vChoose("x2", w), 0)
	p.putClasses("b", n2, classes, mode)
	p.check("text")
	vObsScreen(p.t.screen())
	p.probeAt(1 + 2*vChoose("probe", (w-1)/2))
}

// putClasses writes a run of characters chosen from the given classes.
func (p *vPair) putClasses(tag string, n int, classes []int, mode TextReadMode) {
	run := ""
	for i := 0; i < n; i++ {
		t := tag + string(rune('0'+i))
		c := classes[vChoose(t+".class", len(classes))]
		if mode != TextReadModeGrapheme && c >= 5 && c <= 7 {
			c -= 4
		}
		s, w := vChar(t, c)
		run += s
		p.m.put(s, w)
	}
	if p.m.odd && !p.grid {
		vStop()
	}
	p.feeds(run)
}

func vh_C03_over() { overBody(5, 2, 1, []int{0, 2, 5}, []string{"0", "31"}) }

// Characters of two and more cells written over in part.
func vh_C03_wide() {
	mode := vModes()
	w := 6
	p := vNewPair(w, 2, mode, vChoose("grid", 2) == 1)
	p.setWrap(vChoose("wrap", 2) == 1)
	p.text("a", "b", "c", "d", "e", "f")
	p.sgr("31")
	p.cup(vChoose("x1", w), 0)
	p.putClasses("a", 1, []int{2, 3, 4, 8, 6, 7}, mode)
	p.sgr("44")
	p.cup(vChoose("x2", w), 0)
	p.putClasses("b", 1, []int{0, 2, 4, 8}, mode)
	p.check("text")
	p.probeAt(vChoose("probe", w))
}

func vt_C03_over() { overBody(6, 2, 2, []int{0, 1, 2, 5}, []string{"0", "31", "44"}) }

// A write that starts on the second half of a wide character: the character is
// either kept whole (and the text goes in after it) or blanked; nothing to the
// left of it and on other rows changes and the row stays well formed.
func vh_C03_half() {
	mode := vModes()
	grid := vChoose("grid", 2) == 1
	p := vFilled(7, 2, mode, grid, false, 0)
	wx := vChoose("wx", 5)
	p.cup(wx, 0)
	p.sgr("32")
	wide, ww := vChar("wide", 2+vChoose("wc", 2))
	p.m.put(wide, ww)
	p.feeds(wide)
	p.setWrap(vChoose("wrap", 2) == 1)
	p.sgr("41")
	p.cup(wx+1, 0)
	s, w := vChar("c", vChoose("class", 4))
	before := p.m.c[0]
	if wx+1+w > p.m.w {
		vStop()
	}
	p.feeds(s)
	sc := p.t.screen()
	l := sc.StyledLine(0, 7, 0)
	vAssert(vWellFormed(l, 7, mode), "row well formed")
	vAssert(vRowEq(sc.StyledLine(0, wx, 0), before[:wx]), "cells to the left unchanged")
	vAssert(vRowEq(sc.StyledLine(0, 7, 1), p.m.c[1]), "other rows unchanged")
	st := sc.Style()
	blanks := []vCell{{" ", 1, st, vLax}, {" ", 1, st, vLax}}
	kept := vRowEq(sc.StyledLine(wx, ww, 0), before[wx:wx+ww])
	var want []vCell
	if grid {
		// blanked, the new text is at the cursor
		want = append(want, blanks[0])
		want = append(want, vCell{s, w, st, 0})
		for i := 1; i < w; i++ {
			want = append(want, vCell{"", 0, st, 0})
		}
		vAssert(vRowEq(sc.StyledLine(wx, 1+w, 0), want), "character blanked and text written")
	} else {
		vAssert(kept, "character kept whole")
		if wx+ww+w <= p.m.w {
			want = append(want, vCell{s, w, st, 0})
			for i := 1; i < w; i++ {
				want = append(want, vCell{"", 0, st, 0})
			}
			vAssert(vRowEq(sc.StyledLine(wx+ww, w, 0), want), "text after the character")
		}
	}
	x := wx + 1 + w
	c := sc.CursorPos()
	if x >= p.m.w {
		if p.m.wrap {
			vAssert(vAnd(c.X == 0, c.Y == 1), "cursor wrapped")
		} else {
			vAssert(vAnd(c.X == p.m.w-1, c.Y == 0), "cursor pinned")
		}
	} else {
		vAssert(vAnd(c.X == x, c.Y == 0), "cursor advanced by the width")
	}
}

// vWellFormed: styled runs of positive width that sum to the width of the row and
// whose text fills them.
func vWellFormed(l Line, w int, mode TextReadMode) bool {
	sum := 0
	ok := true
	for _, sp := range l.Spans {
		if sp.Width <= 0 {
			return false
		}
		sum += sp.Width
		if sp.Text == "" {
			ok = vAnd(ok, vAnd(sp.Rune >= 0x20, sp.Rune != 0x7f))
			continue
		}
		tw := 0
		b := []byte(sp.Text)
		if !utf8.Valid(b) {
			return false
		}
		for i := 0; i < len(b); {
			n, cw := vCluster(b[i:], mode)
			i += n
			tw += cw
		}
		ok = vAnd(ok, tw == sp.Width)
	}
	return vAnd(ok, sum == w)
}

// vCluster is the length and width of the first character of b, with fragments
// that can only be attached to it.
func vCluster(b []byte, mode TextReadMode) (int, int) {
	return vClusterU(b, mode)
}
