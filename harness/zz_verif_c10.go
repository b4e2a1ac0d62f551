package termemu

// C10: a copy of the screen maintained from notifications only.

type vShadow struct {
	e     *vEnv
	w, h  int
	c     [][]vCell
	lost  [][]vCell
	bad   bool // an announcement could not be read back
	style Style
	cur   Pos
	curOK bool
	styOK bool
	flags [viewFlagCount]bool
	ints  [viewIntCount]int
	strs  [viewStringCount]string
}

// vRowCells reads a row back cell by cell.
func vRowCells(l Line, mode TextReadMode) []vCell {
	var r []vCell
	for _, sp := range l.Spans {
		if sp.Text == "" {
			w := 1
			if sp.Rune != ' ' && sp.Width > 1 {
				w = vRuneW(sp.Rune)
			}
			for i := 0; i < sp.Width; i += w {
				r = append(r, vCell{string(sp.Rune), w, sp.Style, 0})
				for k := 1; k < w; k++ {
					r = append(r, vCell{"", 0, sp.Style, 0})
				}
			}
			continue
		}
		b := []byte(sp.Text)
		for len(b) > 0 {
			n, w := vClusterU(b, mode)
			r = append(r, vCell{string(b[:n]), w, sp.Style, 0})
			for k := 1; k < w; k++ {
				r = append(r, vCell{"", 0, sp.Style, 0})
			}
			b = b[n:]
		}
	}
	return r
}

func (d *vShadow) row(y int) []vCell {
	s := d.e.t.screen()
	r := vRowCells(s.StyledLine(0, d.w, y), d.e.mode)
	if len(r) != d.w {
		d.bad = true
		for len(r) < d.w {
			r = append(r, vCell{})
		}
	}
	return r
}

func (d *vShadow) refreshAll() {
	sz := d.e.t.screen().Size()
	d.w, d.h = sz.X, sz.Y
	d.c = nil
	for y := 0; y < d.h; y++ {
		d.c = append(d.c, d.row(y))
	}
}

func vNewShadow(e *vEnv) *vShadow {
	d := &vShadow{e: e}
	d.refreshAll()
	t := e.t
	for i := range d.flags {
		d.flags[i] = t.GetViewFlag(ViewFlag(i))
	}
	for i := range d.ints {
		d.ints[i] = t.GetViewInt(ViewInt(i))
	}
	for i := range d.strs {
		d.strs[i] = t.GetViewString(ViewString(i))
	}
	d.cur, d.style = t.screen().CursorPos(), t.screen().Style()
	e.fe.hook = d.on
	return d
}

func (d *vShadow) on(e vEvent) {
	switch e.kind {
	case 'R':
		if sz := d.e.t.screen().Size(); sz.X != d.w || sz.Y != d.h {
			return // being resized
		}
		for y := max(0, e.r.Y); y < e.r.Y2 && y < d.h; y++ {
			row := d.row(y)
			for x := max(0, e.r.X); x < e.r.X2 && x < d.w; x++ {
				d.c[y][x] = row[x]
			}
		}
	case 'L':
		for y := 0; y < e.a && y < d.h; y++ {
			d.lost = append(d.lost, d.row(y))
		}
		if e.a > d.h {
			d.bad = true
		}
	case 'C':
		d.cur = Pos{e.a, e.b}
	case 'S':
		d.style = e.st
	case 'F':
		d.flags[e.a] = e.b != 0
	case 'I':
		d.ints[e.a] = e.b
	case 'T':
		d.strs[e.a] = e.s
	}
}

func vCellRowsEq(a, b []vCell) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for x := range a {
		if a[x].w != b[x].w || len(a[x].s) != len(b[x].s) {
			return false
		}
		ok = vAnd(ok, a[x].s == b[x].s)
		if a[x].lax == 0 && b[x].lax == 0 {
			ok = vAnd(ok, vStyleEq(a[x].st, b[x].st))
		}
	}
	return ok
}

// check compares the copy with the terminal.
func (d *vShadow) check(what string) {
	t := d.e.t
	s := t.screen()
	ok := true
	for y := 0; y < d.h; y++ {
		row := d.row(y)
		same := vCellRowsEq(d.c[y], row)
		if vNative() && !same {
			print("row ", y, ": ")
			vDumpLine(s.StyledLine(0, d.w, y))
			print("  copy: ")
			for _, c := range d.c[y] {
				print("[", c.s, " w", c.w, " ", vStyleStr(c.st), "]")
			}
			println()
		}
		ok = vAnd(ok, same)
	}
	vAssert(!d.bad, what+": announcement")
	vAssert(ok, what+": copy of the screen")
	vAssert(d.cur == s.CursorPos(), what+": cursor notification")
	vAssert(vStyleEq(d.style, s.Style()), what+": style notification")
	for i := range d.flags {
		vAssert(d.flags[i] == t.GetViewFlag(ViewFlag(i)), what+": flag notification")
	}
	for i := range d.ints {
		vAssert(d.ints[i] == t.GetViewInt(ViewInt(i)), what+": mode notification")
	}
	for i := range d.strs {
		vAssert(len(d.strs[i]) == len(t.GetViewString(ViewString(i))), what+": string notification")
		vAssert(d.strs[i] == t.GetViewString(ViewString(i)), what+": string notification")
	}
}

// One item of raw input in every state of a 4x3 screen.
func vh_C10_step() {
	lay := vChoose("layout", 4)
	grid := vChoose("grid", 2) == 1
	l := vKindList(TextReadModeGrapheme)
	kind := l[vChoose("kind", len(l))]
	mode, wrap := TextReadModeRune, lay%2 == 1
	if lay >= 2 || kind == vKComb || kind == vKRI || kind == vKFrag {
		mode = TextReadModeGrapheme
	}
	if kind <= vKHuge {
		wrap = vChoose("wrap", 2) == 1
	}
	p := vFilled(4, 3, mode, grid, lay == 3, lay)
	p.setWrap(wrap)
	if vChoose("reg", 2) == 1 {
		p.margins(1, 2)
	}
	p.sgr("3;45")
	p.chooseCursor("cur")
	d := vNewShadow(p.vEnv)
	p.feed(vGenItem("i", kind).b)
	d.check("input")
}

// A run of text in one read.
func vh_C10_run() {
	mode := vModes()
	w := 1 + vChoose("w", 4)
	lay := vChoose("layout", 2) * 3
	p := vFilled(w, 2, mode, vChoose("grid", 2) == 1, false, lay)
	p.setWrap(vChoose("wrap", 2) == 1)
	p.sgr("31")
	p.cup(vChoose("x", w), 1)
	d := vNewShadow(p.vEnv)
	n := 2 + vChoose("n", 2)
	run := ""
	for i := 0; i < n; i++ {
		t := "c" + string(rune('0'+i))
		cl := []int{0, 1, 2, 4, 5, 6}
		if mode != TextReadModeGrapheme {
			cl = cl[:4]
		}
		s, _ := vChar(t, cl[vChoose(t+".class", len(cl))])
		run += s
	}
	p.feeds(run)
	d.check("run of text")
}

// Three operations, among them buffer switches, without looking in between.
func vh_C10_seq() {
	mode := vModes()
	p := vFilled(4, 3, mode, vChoose("grid", 2) == 1, false, 3)
	p.setWrap(true)
	p.cup(2, 2)
	d := vNewShadow(p.vEnv)
	for _, tag := range []string{"op1", "op2", "op3"} {
		n := vNOps + 2
		if tag == "op3" {
			n = 8
		}
		op := vChoose(tag, n)
		if tag == "op3" {
			op = []int{0, 1, 4, 17, 22, 25, 36, 37}[op]
		}
		if op >= vNOps {
			p.toAlt(op == vNOps)
			p.m.st = p.t.screen().Style()
		} else {
			p.doOp(op)
		}
	}
	d.check("operations")
}

// What scrolls off the top of the main screen is announced before it is lost.
func vh_C10_lost() {
	h := 1 + vChoose("h", 4)
	alt := vChoose("alt", 2) == 1
	lay, mode := 0, TextReadModeRune
	if vChoose("layout", 2) == 1 {
		lay, mode = 3, TextReadModeGrapheme
	}
	p := vFilled(3, h, mode, vChoose("grid", 2) == 1, alt, lay)
	p.chooseMargins("reg")
	p.cup(2, vChoose("y", h))
	p.setWrap(true)
	d := vNewShadow(p.vEnv)
	p.m.lost = nil
	for _, tag := range []string{"a", "b"} {
		op := 0
		if tag == "a" {
			op = vChoose(tag, 7)
		} else {
			op = []int{0, 2, 3}[vChoose(tag, 3)]
		}
		switch op {
		case 0:
			n := 1
			if tag == "a" {
				n += 2 * vChoose(tag+".d", 2)
			}
			b, v := vNum(tag+".n", n)
			vAssume(v > 0)
			p.scrollBy(0, b, v)
		case 1:
			b, v := vNum(tag+".n", 1)
			vAssume(v > 0)
			p.scrollBy(vChoose(tag+".k", 2)+1, b, v)
		case 2, 3, 4, 5, 6:
			p.doOp([]int{0, 4, 5, 6, 35}[op-2])
		}
	}
	want := p.m.lost
	if alt {
		want = nil
	}
	vAssert(len(d.lost) == len(want), "number of rows announced as scrolled off")
	for i := range want {
		vAssert(vCellRowsEq(d.lost[i], want[i]), "row announced as scrolled off")
	}
	d.check("scrolling")
}

// Modes by number, and strings.
func vh_C10_modes() {
	p := vFilled(2, 2, TextReadModeRune, vChoose("grid", 2) == 1, false, 0)
	d := vNewShadow(p.vEnv)
	for _, tag := range []string{"a", "b"} {
		switch vChoose(tag, 4) {
		case 0:
			p.item(tag, vKMode)
		case 1:
			b, _ := vNum(tag+".n", 4)
			p.feed(append(append([]byte("\x1b[?"), b...), vIte8(vBool(tag+".h"), 'h', 'l')))
		case 2:
			p.item(tag, vKOSC)
		case 3:
			p.feed([]byte{27, vU8(tag+".e", '=', '>')})
		}
		d.check("mode")
	}
}

// After a resize the copy is refreshed; cursor and rendition are as announced.
func vh_C10_resize() {
	lay := vChoose("layout", 4)
	p := vFilled(4, 3, vModes(), vChoose("grid", 2) == 1, vChoose("alt", 2) == 1, lay)
	p.cup(3, 2)
	d := vNewShadow(p.vEnv)
	z := vSizes[vChoose("size", len(vSizes))]
	_ = p.t.Resize(z.X, z.Y)
	d.refreshAll()
	d.check("resize")
	k := []int{vKASCII, vKWide, vKC0, vKCSI0, vKMode}
	p.feed(vGenItem("i", k[vChoose("kind", len(k))]).b)
	d.check("input after a resize")
}

// Two raw items.
func vt_C10_items() {
	lay := vChoose("layout", 4)
	p := vFilled(4, 2, vModes(), vChoose("grid", 2) == 1, false, lay)
	p.setWrap(true)
	p.cup(vChoose("x", 4), 1)
	d := vNewShadow(p.vEnv)
	l := vKindList(p.mode)
	p.feed(vGenItem("i", l[vChoose("k1", len(l))]).b)
	d.check("first item")
	k := []int{vKASCII, vKC0, vKWide, vKEmoji, vKFrag, vKCSI1, vKMode}
	p.feed(vGenItem("j", k[vChoose("k2", len(k))]).b)
	d.check("second item")
}
