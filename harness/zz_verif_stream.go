package termemu

// Raw input: one item of the byte stream at a time, without a model.

// vItem is a piece of input that makes sense on its own.
type vItem struct {
	b    []byte
	w    int  // width, when the item is one printable character
	frag bool // may join the character before it
	join bool // may join the character after it
	uni  bool // has multi-byte characters that belong together
}

const (
	vKASCII  = iota // printable ASCII
	vKC0            // C0 control, DEL
	vKNarrow        // two-byte character
	vKWide          // wide, three bytes
	vKEmoji         // wide, four bytes
	vKComb          // base and combining mark
	vKFrag          // combining mark, ZWJ, variation selector alone
	vKRI            // one regional indicator
	vKHuge          // wider than two cells
	vKESC           // ESC and a final
	vKESCI          // ESC, an intermediate and a final
	vKCSI0          // CSI without parameters
	vKCSI1          // CSI with one parameter
	vKCSI2          // CSI with two parameters
	vKMode          // DEC private mode
	vKSGR
	vKOSC
	vKDCS
	vKKitty
	vKBad // not UTF-8
	vKOdd // unusual CSI
	vNKinds
)

// vCount is a symbolic parameter: 0-12 or large.
func vCount(name string) []byte {
	n := vConc(vInt(name, 0, 14))
	switch n {
	case 13:
		return []byte("40")
	case 14:
		return []byte("99999999999999999999")
	}
	return vItoa(n)
}

func vSelect(name string, list ...string) string { return list[vChoose(name, len(list))] }

// vFinal is a symbolic CSI final byte.
func vFinal(name string) byte { return vU8(name, 0x40, 0x7e) }

func vGenItem(tag string, kind int) vItem {
	switch kind {
	case vKASCII:
		return vItem{b: []byte{vU8(tag+".a", 0x20, 0x7e)}, w: 1}
	case vKC0:
		c := vU8(tag+".c", 0, 0x20)
		vAssume(c != 27)
		return vItem{b: []byte{vIte8(c == 0x20, 0x7f, c)}}
	case vKNarrow:
		return vItem{b: []byte(string(vRune(tag+".l", 0x100, 0x17f))), w: 1, uni: true}
	case vKWide:
		return vItem{b: []byte(string(vRune(tag+".w", 0x4e00, 0x4eff))), w: 2, uni: true}
	case vKEmoji:
		return vItem{b: []byte(string(vRune(tag+".e", 0x1f600, 0x1f64f))), w: 2, uni: true, join: true}
	case vKComb:
		return vItem{b: append([]byte{vU8(tag+".b", 'a', 'z')}, "\u0301"...), w: 1, uni: true}
	case vKFrag:
		s := vSelect(tag+".f", "\u0301", "\u200d", "\ufe0f", "\u20dd", "\u0308\u0301")
		return vItem{b: []byte(s), w: 1, frag: true, join: true, uni: true}
	case vKRI:
		return vItem{b: []byte("\U0001f1fa"), w: 2, frag: true, join: true, uni: true}
	case vKHuge:
		return vItem{b: []byte(vSelect(tag+".h", "\u2e3a", "\u2e3b")), w: 3, uni: true}
	case vKESC:
		c := vU8(tag+".f", 0x30, 0x7e)
		vAssume(vAnd(vAnd(vAnd(c != 'P', c != 'X'), vAnd(c != '^', c != '_')), vAnd(c != '[', c != ']')))
		return vItem{b: []byte{27, c}}
	case vKESCI:
		return vItem{b: []byte{27, vU8(tag+".i", 0x20, 0x2f), vU8(tag+".f", 0x30, 0x7e)}}
	case vKCSI0:
		return vItem{b: []byte{27, '[', vFinal(tag + ".f")}}
	case vKCSI1:
		b := append([]byte("\x1b["), vCount(tag+".n")...)
		return vItem{b: append(b, vFinal(tag+".f"))}
	case vKCSI2:
		b := append([]byte("\x1b["), vSelect(tag+".m", "", "0", "1", "2", "3", "99")...)
		b = append(b, ';')
		b = append(b, vSelect(tag+".n", "", "0", "1", "2", "3", "99999999999999999999")...)
		return vItem{b: append(b, vFinal(tag+".f"))}
	case vKMode:
		n := vSelect(tag+".m", "1", "7", "9", "12", "25", "45", "1000", "1002", "1003", "1004", "1005", "1006", "1015", "1049", "2004", "2026", "47", "5;25", "")
		return vItem{b: []byte("\x1b[?" + n + vSelect(tag+".h", "h", "l"))}
	case vKSGR:
		s := vSelect(tag+".s", "", "0", "1;31", "38;5;200", "48;2;1;2;3", "7;53;94", "38;5", "48;2;1", "38;7;1", "4:3", "22;39", "999")
		return vItem{b: []byte("\x1b[" + s + "m")}
	case vKOSC:
		b := append([]byte("\x1b]"), vSelect(tag+".o", "0", "2", "6", "7", "8", "52", "1337")...)
		b = append(b, ';', vU8(tag+".p", 0x20, 0x7e))
		b = append(b, vSelect(tag+".t", "\a", "\x1b\\")...)
		return vItem{b: b}
	case vKDCS:
		b := append([]byte("\x1bP"), vSelect(tag+".o", "", "1$r", "q#0")...)
		b = append(b, vU8(tag+".p", 0x20, 0x7e))
		return vItem{b: append(b, "\x1b\\"...)}
	case vKKitty:
		s := vSelect(tag+".k", "=1;1u", "=6;2u", "=1;3u", ">5u", ">u", "<u", "<2u", "<99u", "?u", "=u", ">4;1m", ">4m", ">1;2;3m")
		return vItem{b: []byte("\x1b[" + s)}
	case vKBad:
		b := vSelect(tag+".b", "\x80", "\xc3", "\xe4\xb8", "\xf0\x9f\x98", "\xed\xa0\x80", "\xff", "\xc0\xaf")
		return vItem{b: []byte(b + "x"), w: 1}
	case vKOdd:
		s := vSelect(tag+".s", "1 q", "!p", "1;2;3;4;5;6;7;8;9;10;11m", ";;;;;;;;;;;;;;;;H", ">c", ">1c", "c", "5n", "6n", "?6n", "4:2K", "?2J", "=3H", "\x7f", "1;2;3;4;5;6t", "-5A", "18446744073709551617C", "2147483648;4294967297H")
		return vItem{b: []byte("\x1b[" + s)}
	}
	return vItem{b: []byte{'x'}, w: 1}
}

// vOddWrite tells whether a character of width w, written now, starts on the second
// half of a wide character.
func (e *vEnv) oddWrite(w int) bool {
	s := e.t.screen()
	p := s.CursorPos()
	sz := s.Size()
	if w > sz.X {
		w = 1
	}
	if p.X+w > sz.X {
		if s.AutoWrap() {
			return false
		}
		p.X = sz.X - w
	}
	return p.X > 0 && vConts(s.StyledLine(0, sz.X, p.Y), e.mode)[p.X]
}

// vConts tells which cells of a row continue a wide character.
func vConts(l Line, mode TextReadMode) []bool {
	var r []bool
	for _, sp := range l.Spans {
		if sp.Text == "" {
			for i := 0; i < sp.Width; i++ {
				r = append(r, i > 0 && sp.Rune != ' ' && sp.Width == vRuneW(sp.Rune))
			}
			continue
		}
		b := []byte(sp.Text)
		n := 0
		for len(b) > 0 {
			k, w := vClusterU(b, mode)
			b = b[k:]
			for i := 0; i < w; i++ {
				r = append(r, i > 0)
				n++
			}
		}
		for ; n < sp.Width; n++ {
			r = append(r, false)
		}
	}
	return r
}

// vLineText is the text of a row.
func vLineText(l Line) string {
	s := ""
	for _, sp := range l.Spans {
		if sp.Text != "" {
			s += sp.Text
		} else {
			for i := 0; i < sp.Width; i++ {
				s += string(sp.Rune)
			}
		}
	}
	return s
}

// vLineSame compares the text of two rows and the style of every cell.
func vLineSame(a, b Line) bool {
	ta, tb := vLineText(a), vLineText(b)
	if len(ta) != len(tb) {
		return false
	}
	ok := ta == tb
	var sa, sb []Style
	for _, sp := range a.Spans {
		for i := 0; i < sp.Width; i++ {
			sa = append(sa, sp.Style)
		}
	}
	for _, sp := range b.Spans {
		for i := 0; i < sp.Width; i++ {
			sb = append(sb, sp.Style)
		}
	}
	if len(sa) != len(sb) {
		return false
	}
	for i := range sa {
		ok = vAnd(ok, vStyleEq(sa[i], sb[i]))
	}
	return ok
}

// vScreensSame compares everything two screens show, cursor and scroll region.
func vScreensSame(a, b screen, what string) {
	vAssert(a.Size() == b.Size(), what+": size")
	vAssert(a.CursorPos() == b.CursorPos(), what+": cursor")
	vAssert(vAnd(a.TopMargin() == b.TopMargin(), a.BottomMargin() == b.BottomMargin()), what+": scroll region")
	vAssert(a.AutoWrap() == b.AutoWrap(), what+": autowrap")
	vAssert(vStyleEq(a.Style(), b.Style()), what+": rendition")
	sz := a.Size()
	ok := true
	for y := 0; y < sz.Y; y++ {
		same := vLineSame(a.StyledLine(0, sz.X, y), b.StyledLine(0, sz.X, y))
		if vNative() && !same {
			print("row ", y, "\n  ")
			vDumpLine(a.StyledLine(0, sz.X, y))
			print("  ")
			vDumpLine(b.StyledLine(0, sz.X, y))
		}
		ok = vAnd(ok, same)
		la, lb := a.Line(y), b.Line(y)
		vAssert(len(la) == len(lb), what+": text")
		ok = vAnd(ok, la == lb)
	}
	vAssert(ok, what+": content")
}

func vDumpLine(l Line) {
	for _, sp := range l.Spans {
		t := sp.Text
		if t == "" {
			t = string(sp.Rune) + "*"
		}
		print("[", t, " w", sp.Width, " ", vStyleStr(sp.Style), "]")
	}
	println()
}

// vNotes is what a frontend was told during one step, apart from how the
// announcements were grouped.
type vNotes struct {
	cells [][]uint8 // reasons for which each cell was announced
	lost  int
	out   bool // announced cells off the screen
	ev    []vEvent
	cur   Pos
	st    Style
}

func (f *vFrontend) notes(w, h int) *vNotes {
	n := &vNotes{cur: f.cur, st: f.style}
	for y := 0; y < h; y++ {
		n.cells = append(n.cells, make([]uint8, w))
	}
	for _, e := range f.ev {
		switch e.kind {
		case 'R':
			if e.r.X < 0 || e.r.Y < 0 || e.r.X2 > w || e.r.Y2 > h {
				n.out = true
			}
			for y := max(0, e.r.Y); y < e.r.Y2 && y < h; y++ {
				for x := max(0, e.r.X); x < e.r.X2 && x < w; x++ {
					n.cells[y][x] |= 1 << uint(e.why)
				}
			}
		case 'L':
			n.lost += e.a
		case 'C', 'S':
		default:
			n.ev = append(n.ev, e)
		}
	}
	return n
}

// vNotesSame compares what two frontends were told.
func vNotesSame(a, b *vNotes, why bool, what string) {
	vAssert(a.cur == b.cur, what+": cursor notification")
	vAssert(vStyleEq(a.st, b.st), what+": style notification")
	vAssert(a.lost == b.lost, what+": scrolled lines notification")
	ok := true
	for y := range a.cells {
		for x := range a.cells[y] {
			if why {
				ok = ok && a.cells[y][x] == b.cells[y][x]
			} else {
				ok = ok && (a.cells[y][x] != 0) == (b.cells[y][x] != 0)
			}
		}
	}
	if vNative() && !ok {
		for y := range a.cells {
			for x := range a.cells[y] {
				print(a.cells[y][x], "/", b.cells[y][x], " ")
			}
			println()
		}
	}
	vAssert(ok, what+": announced cells")
	vAssert(len(a.ev) == len(b.ev), what+": number of notifications")
	for i := range a.ev {
		x, y := a.ev[i], b.ev[i]
		vAssert(x.kind == y.kind && x.a == y.a && x.b == y.b && len(x.s) == len(y.s), what+": notification")
		vAssert(x.s == y.s, what+": notified string")
	}
}
