package termemu

// C20: the span and the grid buffer side by side.

// vTwin is a terminal with the span buffer, its model, and one with the grid
// buffer that gets the same input.
func vTwin(w, h int, mode TextReadMode, alt bool, layout int) *vPair {
	return vTwins(w, h, mode, false, true, alt, layout)
}

// vTwins is a terminal with its model, and another that gets the same input; layout
// -1 leaves them empty.
func vTwins(w, h int, mode TextReadMode, g1, g2, alt bool, layout int) *vPair {
	k := vKey("twin", w, h, mode, g1) + "." + string(vItoa(layout))
	if alt {
		k += "a"
	}
	if g2 {
		k += "t"
	}
	p := vMemoPair(k, func() *vPair {
		p := vNewPairRaw(w, h, mode, g1)
		p.twin = vNewRaw(w, h, mode, g2)
		if alt {
			p.toAlt(true)
		}
		if layout >= 0 {
			p.fill(layout)
		}
		return p
	})
	p.fe.rec, p.twin.fe.rec = true, true
	p.fe.ev, p.twin.fe.ev = nil, nil
	return p
}

// same compares the two terminals.
// The reasons given for announcements are compared where no wide character is cut.
func (p *vPair) same(what string) { p.sameWhy(what, false) }

func (p *vPair) sameWhy(what string, why bool) {
	a, b := p.t, p.twin.t
	vScreensSame(a.screen(), b.screen(), what)
	sz := a.screen().Size()
	vNotesSame(p.fe.notes(sz.X, sz.Y), p.twin.fe.notes(sz.X, sz.Y), why, what)
	p.fe.ev, p.twin.fe.ev = nil, nil
	vAssert(len(p.be.out) == len(p.twin.be.out), what+": replies")
	vAssert(string(p.be.out) == string(p.twin.be.out), what+": replies")
	vAssert(a.keyboardMain.flags == b.keyboardMain.flags, what+": keyboard flags")
	for i := 0; i < int(viewFlagCount); i++ {
		vAssert(a.GetViewFlag(ViewFlag(i)) == b.GetViewFlag(ViewFlag(i)), what+": mode")
	}
	for i := 0; i < int(viewIntCount); i++ {
		vAssert(a.GetViewInt(ViewInt(i)) == b.GetViewInt(ViewInt(i)), what+": mode")
	}
}

func (p *vPair) item(tag string, kind int) vItem {
	it := vGenItem(tag, kind)
	if it.w > 0 && p.oddWrite(it.w) {
		vStop()
	}
	p.feed(it.b)
	return it
}

func vKindList(mode TextReadMode) []int {
	var l []int
	for k := 0; k < vNKinds; k++ {
		if mode != TextReadModeGrapheme && (k == vKComb || k == vKRI || k == vKFrag) {
			continue
		}
		l = append(l, k)
	}
	return l
}

// One item of raw input in every state of a 4x3 screen.
func vh_C20_step() {
	lay := vChoose("layout", 4)
	l := vKindList(TextReadModeGrapheme)
	kind := l[vChoose("kind", len(l))]
	mode, wrap := TextReadModeRune, lay%2 == 1
	if lay >= 2 || kind == vKComb || kind == vKRI || kind == vKFrag {
		mode = TextReadModeGrapheme
	}
	if kind <= vKHuge {
		if kind != vKComb && kind != vKRI && kind != vKFrag {
			mode = vModes()
		}
		wrap = vChoose("wrap", 2) == 1
	}
	p := vTwin(4, 3, mode, false, lay)
	switch vChoose("reg", 3) {
	case 1:
		p.margins(0, 1)
	case 2:
		p.margins(1, 1)
	}
	p.setWrap(wrap)
	p.sgr("3;45")
	p.chooseCursor("cur")
	p.fe.ev, p.twin.fe.ev = nil, nil
	it := p.item("i", kind)
	p.sameWhy("input", lay == 0 && it.w < 2)
}

// Three operations.
func vh_C20_seq() {
	mode := vModes()
	p := vTwin(4, 3, mode, vChoose("alt", 2) == 1, 3)
	p.setWrap(true)
	p.cup(2, 2)
	p.genOp("op1")
	p.same("first operation")
	p.genOp("op2")
	p.same("second operation")
	p.pickOp("op3", []int{1, 3, 4, 6, 16, 17, 22, 25, 26, 34})
	p.same("third operation")
	p.probeTwin("third operation", 1)
}

// probeTwin writes on every row, wherever both buffers agree on the meaning.
func (p *vPair) probeTwin(what string, x int) {
	p.setWrap(false)
	p.feeds("\x1b[u")
	p.same(what + ", saved cursor")
	p.sgr("7;36")
	for y := 0; y < p.m.h; y++ {
		p.feed(vCup(x, y))
		if p.oddWrite(1) {
			continue
		}
		p.feeds(".")
	}
	p.same(what + ", text afterwards")
}

// Runs of text in one read, by which the two buffers are written differently.
func vh_C20_run() {
	mode := vModes()
	w := 1 + vChoose("w", 4)
	p := vTwin(w, 2, mode, false, vChoose("layout", 2)*4-1)
	p.setWrap(vChoose("wrap", 2) == 1)
	p.sgr("31")
	p.cup(vChoose("x", w), 1)
	n := 2 + vChoose("n", 2)
	run := ""
	for i := 0; i < n; i++ {
		t := "c" + string(rune('0'+i))
		cl := []int{0, 1, 2, 4, 5, 6, 7}
		if mode != TextReadModeGrapheme {
			cl = cl[:4]
		}
		s, wd := vChar(t, cl[vChoose(t+".class", len(cl))])
		run += s
		p.m.put(s, wd)
	}
	if p.m.odd {
		vStop()
	}
	p.feeds(run)
	p.same("run of text")
	p.probeTwin("run of text", (n+1)%w)
}

// Fragments that join the previous character, in grapheme mode.
func vh_C20_frag() {
	p := vTwin(4, 2, TextReadModeGrapheme, false, vChoose("layout", 3)+1)
	p.setWrap(vChoose("wrap", 2) == 1)
	p.chooseCursor("cur")
	kinds := []int{vKASCII, vKWide, vKEmoji, vKComb, vKFrag, vKRI, vKHuge, vKC0}
	p.item("a", kinds[vChoose("ka", len(kinds))])
	p.same("first item")
	p.item("b", []int{vKASCII, vKEmoji, vKFrag, vKRI}[vChoose("kb", 4)])
	p.same("second item")
	p.item("c", []int{vKASCII, vKEmoji, vKFrag, vKRI}[vChoose("kc", 4)])
	p.same("third item")
}

// Resizes.
func vh_C20_resize() {
	lay := vChoose("layout", 4)
	mode := TextReadModeRune
	if lay >= 2 {
		mode = TextReadModeGrapheme
	}
	w, h := 1+vChoose("w", 4), 1+vChoose("h", 3)
	p := vTwin(w, h, mode, lay == 3, lay)
	if vChoose("reg", 2) == 1 {
		p.margins(h/2, h/2)
	}
	x := vChoose("x", w)
	y := h - 1
	if lay == 1 {
		y -= vChoose("y", min(h, 2))
	}
	p.cup(x, y)
	p.feeds("\x1b[s\x1b[42m")
	z := vSizes[vChoose("size", len(vSizes))]
	p.resize(z.X, z.Y)
	_ = p.twin.t.Resize(z.X, z.Y)
	p.same("resize")
	vScreensSame(p.t.mainScreen, p.twin.t.mainScreen, "main screen")
	vScreensSame(p.t.altScreen, p.twin.t.altScreen, "alternate screen")
	k := []int{vKASCII, vKC0}
	if lay%2 == 1 {
		k = []int{vKWide, vKCSI0}
	}
	p.item("i", k[vChoose("kind", len(k))])
	p.same("input after a resize")
	p.probeTwin("input after a resize", (h+1)%z.X)
}
