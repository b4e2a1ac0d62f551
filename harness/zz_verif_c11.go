package termemu

// C11: renderings interpreted again.

var vModeCodes = [...]int{1, 2, 3, 4, 5, 7, 8, 9, 53, 21, 51, 52, 6} // in the order of vModeList

// vColorSGR is a symbolic colour of kind k: 0 default, 1 basic, 2 bright, 3 indexed, 4 RGB.
func vColorSGR(tag string, k int, bg bool) []byte {
	base := 30
	if bg {
		base = 40
	}
	switch k {
	case 1:
		return vDigits(base+int(vU8(tag, 0, 7)), 2)
	case 2:
		return vDigits(base+60+int(vU8(tag, 0, 7)), 3)
	case 3:
		return append(append(vItoa(base+8), ";5;"...), vDigits(int(vU8(tag, 0, 255)), 3)...)
	case 4:
		b := append(vItoa(base+8), ";2"...)
		sym := vChoose(tag+".channel", 3)
		for i, v := range []int{9, 255, 100} {
			if i == sym {
				v = int(vU8(tag, 0, 255))
			}
			b = append(append(b, ';'), vDigits(v, 3)...)
		}
		return b
	}
	return vItoa(base + 9)
}

// vCellsOf reads every row of the active screen back cell by cell.
func (e *vEnv) vCellsOf(what string) [][]vCell {
	s := e.t.screen()
	sz := s.Size()
	var r [][]vCell
	for y := 0; y < sz.Y; y++ {
		row := vRowCells(s.StyledLine(0, sz.X, y), e.mode)
		if len(row) != sz.X {
			vAssert(e.loose, what+": row as wide as the screen")
			vStop()
		}
		r = append(r, row)
	}
	return r
}

// joins tells whether neighbouring cells hold characters that would be one character
// if written together, which no rendering can keep apart.
func (e *vEnv) joins(rows [][]vCell) bool {
	if !e.loose || e.mode != TextReadModeGrapheme {
		return false
	}
	for _, row := range rows {
		prev := ""
		for _, c := range row {
			if c.w == 0 {
				continue
			}
			n, _ := vClusterU([]byte(prev+c.s), e.mode)
			if n != len(prev) && prev != "" {
				return true
			}
			if prev == "" {
				if k, _ := vClusterU([]byte("a"+c.s), e.mode); k != 1 {
					return true // a lone fragment in the first column
				}
			}
			prev = c.s
		}
	}
	return false
}

// roundTrip feeds every row of the rendering into a fresh terminal.
func (e *vEnv) roundTrip(what string) {
	s := e.t.screen()
	sz := s.Size()
	rows := e.vCellsOf(what)
	if e.joins(rows) {
		vStop()
	}
	f := vNew(sz.X, sz.Y, e.mode, e.grid)
	f.feeds("\x1b[?7l")
	for y := 0; y < sz.Y; y++ {
		f.feed(append(vCup(0, y), e.t.ANSILine(y)...))
	}
	got := f.vCellsOf(what + " read back")
	ok := true
	for y := range rows {
		same := vCellRowsEq(rows[y], got[y])
		if vNative() && !same {
			vDumpLine(s.StyledLine(0, sz.X, y))
			vDumpLine(f.t.screen().StyledLine(0, sz.X, y))
		}
		ok = vAnd(ok, same)
	}
	vAssert(ok, what+": read back")
}

// ---- TTYFrontend ----

// vTTY is an outer terminal showing a region of an inner one.
type vTTY struct {
	in    *vEnv
	tf    *TTYFrontend
	out   *vEnv
	r     Region
	raw   []byte // written since the last look
	quiet bool   // the outer terminal is not fed
}

func (y *vTTY) Write(b []byte) (int, error) {
	y.raw = append(y.raw, b...)
	if !y.quiet {
		y.out.feed(append([]byte(nil), b...))
	}
	return len(b), nil
}

// vMirror puts a TTYFrontend in front of a terminal.
func vMirror(e *vEnv) *vTTY {
	sz := e.t.screen().Size()
	y := &vTTY{in: e}
	y.out = vNew(sz.X, sz.Y, e.mode, e.grid)
	y.tf = NewTTYFrontend(e.t, y)
	e.t.SetFrontend(y.tf)
	return y
}

func (y *vTTY) attach(r Region) {
	y.r = r
	y.tf.Attach(r)
}

// vCutCells blanks the cells of characters that are only partly inside [x1,x2).
func vCutCells(row []vCell, x1, x2 int) []vCell {
	r := append([]vCell(nil), row...)
	for x := 0; x < len(r); {
		w := max(1, r[x].w)
		if x < x1 && x+w > x1 || x < x2 && x+w > x2 {
			for i := x; i < x+w; i++ {
				r[i] = vCell{" ", 1, r[i].st, vLax}
			}
		}
		x += w
	}
	return r
}

// check compares the outer terminal with the inner one.
func (y *vTTY) check(what string) {
	a, b := y.in.t.screen(), y.out.t.screen()
	sz := a.Size()
	rows := y.in.vCellsOf(what)
	if y.in.joins(rows) {
		vStop()
	}
	y.out.loose = y.in.loose
	got := y.out.vCellsOf(what + " outer")
	x1, y1 := max(0, y.r.X), max(0, y.r.Y)
	x2, y2 := max(x1, min(y.r.X2, sz.X)), max(y1, min(y.r.Y2, sz.Y))
	ok, clean := true, true
	for r := range got {
		if r >= len(rows) {
			break
		}
		in := r >= y1 && r < y2
		same := true
		if in {
			w, g := vCutCells(rows[r], x1, x2), vCutCells(got[r], x1, x2)
			same = vCellRowsEq(w[x1:x2], g[x1:x2])
		}
		if vNative() && !same {
			print("row ", r, " of region ", x1, "-", x2, "\n  inner ")
			vDumpLine(a.StyledLine(0, sz.X, r))
			print("  outer ")
			vDumpLine(b.StyledLine(0, b.Size().X, r))
		}
		ok = vAnd(ok, same)
		for x, c := range got[r] {
			if (!in || x < x1 || x >= x2) && c.s != " " {
				clean = false
			}
		}
	}
	vAssert(ok, what+": outer terminal in the region")
	vAssert(clean, what+": outer terminal outside the region")
	p := a.CursorPos()
	show := y.in.t.GetViewFlag(VFShowCursor) && p.X >= y.r.X && p.X < y.r.X2 && p.Y >= y.r.Y && p.Y < y.r.Y2
	vAssert(y.out.t.GetViewFlag(VFShowCursor) == show, what+": outer cursor visible")
	if show {
		vAssert(b.CursorPos() == p, what+": outer cursor position")
	}
	vAssert(len(y.out.be.out) == 0, what+": no query to the outer terminal")
	y.raw = nil
}

// detached checks that nothing but show-cursor was written since the last look.
func (y *vTTY) detached(what string) {
	const sc = "\x1b[?25h"
	b := y.raw
	for len(b) > 0 {
		if len(b) < len(sc) {
			vAssert(false, what+": output while detached")
		}
		vAssert(string(b[:len(sc)]) == sc, what+": output while detached")
		b = b[len(sc):]
	}
	y.raw = nil
}

func vAllRegion(e *vEnv) Region {
	sz := e.t.screen().Size()
	return Region{X: 0, Y: 0, X2: sz.X, Y2: sz.Y}
}

// Every combination of the 13 modes.
func vh_C11_modes() {
	e := vNew(2, 1, TextReadModeRune, vChoose("grid", 2) == 1)
	b := []byte("\x1b[0")
	for i, c := range vModeCodes {
		if vBool("m" + string(vItoa(i))) {
			b = append(append(b, ';'), vItoa(c)...)
		}
	}
	e.feed(append(b, 'm', 'x'))
	e.roundTrip("modes")
}

// Every colour in foreground and background, next to a cell of another style.
func vh_C11_colors() {
	e := vNew(4, 1, TextReadModeRune, vChoose("grid", 2) == 1)
	e.feeds("\x1b[?7l")
	bg := vChoose("bg", 2) == 1
	pre := vSelect("pre", "", "1;97;44", "53;38;2;9;8;7;107")
	b := append(append([]byte("\x1b["), pre...), 'm', 'a')
	b = append(append(b, "\x1b["...), vColorSGR("c", vChoose("kind", 5), bg)...)
	b = append(append(b, vSelect("mode", "", ";4", ";22;7")...), "mxy"...)
	e.feed(b)
	e.roundTrip("colours")
}

// One operation on a filled screen: the rendering, and an outer terminal showing all.
func vh_C11_step() {
	mode := TextReadMode(vChoose("mode", 2))
	lay := vChoose("lay", 4)
	p := vFilled(6, 4, mode, vChoose("grid", 2) == 1, vChoose("alt", 2) == 1, lay)
	y := vMirror(p.vEnv)
	p.cup(vChoose("x", 6), 1)
	p.sgr("45;3")
	y.attach(vAllRegion(p.vEnv))
	y.check("attached")
	op := vChoose("op", vNOps)
	if op == 29 || op == 30 || op == 33 || op >= 7 && op <= 15 && op != 9 {
		vStop()
	}
	p.doOp(op)
	y.check("op")
	p.roundTrip("op")
}

// Any region, also one partly or fully outside, empty or inverted.
func vh_C11_region() {
	mode := TextReadMode(vChoose("mode", 2))
	p := vFilled(4, 3, mode, vChoose("grid", 2) == 1, false, vChoose("lay", 3))
	y := vMirror(p.vEnv)
	p.cup(1, 1)
	r := Region{X: vChoose("rx", 6) - 1, X2: vChoose("rx2", 7) - 1}
	r.Y, r.Y2 = 0, 3
	switch vChoose("ry", 5) {
	case 1:
		r.Y, r.Y2 = 1, 2
	case 2:
		r.Y, r.Y2 = -2, 1
	case 3:
		r.Y, r.Y2 = 2, 9
	case 4:
		r.Y, r.Y2 = 2, 1
	}
	y.attach(r)
	y.check("attached")
	switch vChoose("op", 7) {
	case 0:
		p.feeds("z\u4e77")
	case 1:
		p.feeds("\x1b[P")
	case 2:
		p.feeds("\x1b[L")
	case 3:
		p.feeds("\x1b[1J\x1b[H")
	case 4:
		p.feeds("\x1b[?25l")
	case 5:
		p.feeds("\x1b[?1049hq")
	case 6:
		p.feeds("\x1b[2;2HQ\x1b[3;4H")
	}
	y.check("op")
}

// Any input on an empty screen, the frontend being there from the start or not.
func vh_C11_items() {
	mode := TextReadMode(vChoose("mode", 2))
	e := vNew(4, 3, mode, vChoose("grid", 2) == 1)
	e.loose = true
	var y *vTTY
	late := vChoose("late", 2) == 1
	if !late {
		y = vMirror(e)
		y.attach(vAllRegion(e))
	}
	e.feeds("a\u4e00b\x1b[31;44mc\u4e01d\x1b[2;3H")
	if !late {
		y.raw = nil
		y.check("text")
	}
	k := vChoose("kind", vNKinds)
	if k == vKBad {
		vStop()
	}
	it := vGenItem("i", k)
	if e.oddItem(it) {
		vStop()
	}
	e.feed(it.b)
	if late {
		y = vMirror(e)
		y.attach(vAllRegion(e))
	}
	y.in.be.out = nil
	y.check("item")
	e.roundTrip("item")
	e.feeds("z")
	y.check("text after item")
}

func (e *vEnv) oddItem(it vItem) bool { return it.w > 0 && !it.frag && e.oddWrite(it.w) }

// Resizing and switching screens while attached.
func vh_C11_resize() {
	mode := TextReadMode(vChoose("mode", 2))
	e := vNew(5, 3, mode, vChoose("grid", 2) == 1)
	y := vMirror(e)
	y.attach([]Region{{0, 0, 5, 3}, {1, 1, 4, 3}, {0, 0, 9, 9}}[vChoose("region", 3)])
	e.feeds("\x1b[44ma\u4e00bcd\x1b[mefg\x1b[3;4Hh\x1b[1mi")
	if vChoose("alt", 2) == 1 {
		e.feeds("\x1b[?1049hpq\u4e00r")
	}
	y.check("before")
	w, h := 1+vChoose("w", 7), 1+vChoose("h", 5)
	// the outer terminal is resized first, as a real one is
	if w > 5 || h > 3 {
		_ = y.out.t.Resize(max(w, 5), max(h, 3))
	}
	_ = e.t.Resize(w, h)
	y.checkOver("resized")
	e.feeds("k")
	y.checkOver("text")
	if vChoose("back", 2) == 1 {
		e.feeds("\x1b[?1049l")
		y.checkOver("switched")
	}
	e.roundTrip("resized")
}

// checkOver is check for terminals of different sizes.
func (y *vTTY) checkOver(what string) {
	a, b := y.in.t.screen(), y.out.t.screen()
	sz := a.Size()
	rows, got := y.in.vCellsOf(what), y.out.vCellsOf(what+" outer")
	x1, x2 := y.r.X, min(y.r.X2, sz.X)
	for r := y.r.Y; r < min(y.r.Y2, sz.Y); r++ {
		if x1 >= x2 {
			break
		}
		w, g := vCutCells(rows[r], x1, x2), vCutCells(got[r], x1, x2)
		for x := x1; x < x2; x++ {
			if w[x].s == " " { // new cells have no particular style
				w[x].lax = vLax
			}
		}
		same := vCellRowsEq(w[x1:x2], g[x1:x2])
		if vNative() && !same {
			vDumpLine(a.StyledLine(0, sz.X, r))
			vDumpLine(b.StyledLine(0, b.Size().X, r))
		}
		vAssert(same, what+": outer terminal in the region")
	}
	p := a.CursorPos()
	show := y.in.t.GetViewFlag(VFShowCursor) && p.X >= y.r.X && p.X < y.r.X2 && p.Y >= y.r.Y && p.Y < y.r.Y2
	vAssert(y.out.t.GetViewFlag(VFShowCursor) == show, what+": outer cursor visible")
	if show {
		vAssert(b.CursorPos() == p, what+": outer cursor position")
	}
}

// Detaching and attaching again.
func vh_C11_detach() {
	mode := TextReadMode(vChoose("mode", 2))
	p := vFilled(4, 3, mode, vChoose("grid", 2) == 1, vChoose("alt", 2) == 1, vChoose("lay", 4))
	y := vMirror(p.vEnv)
	r := []Region{{0, 0, 4, 3}, {1, 0, 3, 2}}[vChoose("region", 2)]
	never := vChoose("never", 2) == 1
	if !never {
		y.attach(r)
		p.feeds("q")
		y.check("attached")
		y.tf.Detach()
		vAssert(string(y.raw) == "\x1b[?25h", "detach: show-cursor")
		vAssert(y.out.t.GetViewFlag(VFShowCursor), "detach: outer cursor")
		y.raw = nil
	}
	p.feeds("\x1b[2;2H")
	p.vC11Do(vChoose("op", 9))
	y.detached("detached")
	y.attach(Region{X: 0, Y: 0, X2: 4, Y2: 3})
	y.check("attached again")
	p.feeds("\x1b[mz")
	y.check("text")
}

func (p *vPair) vC11Do(i int) {
	switch i {
	case 0:
		p.feed([]byte{vU8("ch", 0x20, 0x7e)})
	case 1:
		p.feeds("\x1b[31m\u4e05")
	case 2:
		p.feeds("\n\n\n")
	case 3:
		p.feeds("\x1b[?25l")
	case 4:
		p.feeds("\x1b[?1049h")
	case 5:
		p.feeds("\x1b[?1049l")
	case 6:
		p.feeds("\x1b[2J\x1b[H\a")
	case 7:
		p.feeds("\x1b]2;t\a\x1b[?1000h\x1b[?1h")
	case 8:
		p.feeds("\x1b[L\x1b[@\x1b[P")
	}
}

var vC11Ops = []int{0, 1, 3, 4, 6, 9, 16, 19, 22, 23, 24, 25, 26, 27, 31, 34}

// Several operations while a region is shown.
func vC11Seq(n int, ops []int, lays []int) {
	mode := TextReadMode(vChoose("mode", 2))
	p := vFilled(5, 4, mode, vChoose("grid", 2) == 1, false, lays[vChoose("lay", len(lays))])
	p.sgr("7;95")
	y := vMirror(p.vEnv)
	p.cup(3, 1)
	y.attach([]Region{{0, 0, 5, 4}, {1, 1, 4, 3}}[vChoose("region", 2)])
	for i := 0; i < n; i++ {
		p.doOp(ops[vChoose("op", len(ops))])
		y.check("op")
	}
	p.roundTrip("op")
}

func vh_C11_seq()  { vC11Seq(2, vC11Ops, []int{3}) }
func vt_C11_seq3() { vC11Seq(3, vC11Ops, []int{1, 3}) }

func vt_C11_pairs() {
	all := make([]int, vNOps)
	for i := range all {
		all[i] = i
	}
	vC11Seq(2, all, []int{0, 1, 2, 3})
}

// A wide screen with long runs.
func vh_C11_big() {
	mode := TextReadMode(vChoose("mode", 2))
	const w = 140
	e := vNew(w, 2, mode, vChoose("grid", 2) == 1)
	y := vMirror(e)
	y.attach(vAllRegion(e))
	b := []byte("\x1b[?7l\x1b[38;5;9m")
	for i := 0; i < w; i++ {
		b = append(b, byte('a'+i%26))
	}
	b = append(b, "\x1b[2;1H\x1b[100;1m"...)
	for i := 0; i < w/2; i++ {
		b = append(b, string(rune(0x4e00+i))...)
	}
	e.feed(b)
	x := []int{0, 1, 63, 64, 99, 100, 127, 128, 138, 139}[vChoose("x", 10)]
	e.feed(vCup(x, vChoose("y", 2)))
	e.feeds(vSelect("op", "\x1b[mq", "\x1b[7m\x1b[K", "\x1b[1K", "\x1b[70P", "\x1b[4m\u4e99"))
	y.check("long row")
	e.roundTrip("long row")
}
