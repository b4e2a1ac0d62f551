package termemu

// C17: the two screens and the DEC private modes.

// vKb is the keyboard-flag stack of one screen.
type vKb struct {
	flags int
	stack []int
}

// kbOp changes the keyboard flags of the active screen.
func (p *vPair) kbOp(tag string, kb *vKb) {
	switch vChoose(tag, 4) {
	case 1:
		p.feeds("\x1b[=5;1u")
		kb.flags = 5
	case 2:
		p.feeds("\x1b[>2u")
		kb.stack = append(kb.stack, kb.flags)
		kb.flags = 2
	case 3:
		p.feeds("\x1b[<1u")
		if n := len(kb.stack); n > 0 {
			kb.flags = kb.stack[n-1]
			kb.stack = kb.stack[:n-1]
		} else {
			kb.flags = 0
		}
	}
}

// checkKb asks the terminal for the flags and unwinds the stack.
func (p *vPair) checkKb(kb *vKb, what string) {
	for i := len(kb.stack); ; i-- {
		p.be.out = nil
		p.feeds("\x1b[?u")
		vAssert(string(p.be.out) == "\x1b[?"+string(vItoa(kb.flags))+"u", what+": keyboard flags")
		if i == 0 {
			break
		}
		kb.flags = kb.stack[i-1]
		kb.stack = kb.stack[:i-1]
		p.feeds("\x1b[<u")
	}
}

// checkWrap observes the autowrap setting by writing over the edge of the last row
// (which destroys content, so it comes last).
func (p *vPair) checkWrap(what string) {
	p.cup(p.m.w-1, 0)
	p.text("W", "V")
	p.check(what + ": autowrap")
}

// Two operations on the alternate screen leave the main screen as it was, and two
// more on the main screen leave the alternate one.
func vh_C17_isolation() {
	grid := vChoose("grid", 2) == 1
	p := vFilled(3, 3, TextReadModeGrapheme, grid, false, 3)
	// a state of the main screen
	st := vChoose("state", 4)
	if st&1 != 0 {
		p.margins(1, 1)
		p.setWrap(true)
	}
	p.cup(2, 1+st/2)
	p.feeds("\x1b[s")
	p.m.sx, p.m.sy = p.m.cx, p.m.cy
	if st&2 != 0 {
		p.cup(0, 2)
	}
	p.sgr("32")
	p.toAlt(true)
	p.m.st = p.t.screen().Style()
	p.genOp("alt1")
	p.genOp("alt2")
	p.check("alternate screen")
	p.toAlt(false)
	p.m.st = p.t.screen().Style()
	p.check("main screen re-entered")
	p.text("k", "l", "m")
	p.feeds("\x1b[u")
	p.m.cx, p.m.cy = p.m.sx, p.m.sy
	p.feeds("\n")
	p.m.cx = 0
	p.m.index()
	p.check("main screen used again")
	p.toAlt(true)
	p.m.st = p.t.screen().Style()
	p.check("alternate screen re-entered")
	p.checkWrap("alternate screen")
}

// Output on the main screen against a prepared alternate screen, with the
// keyboard flags of both.
func vh_C17_main() {
	grid := vChoose("grid", 2) == 1
	p := vFilled(3, 3, TextReadModeRune, grid, true, 3)
	var ka, km vKb
	p.kbOp("ka1", &ka)
	p.kbOp("ka2", &ka)
	p.cup(1, 2)
	p.feeds("\x1b[s")
	p.m.sx, p.m.sy = p.m.cx, p.m.cy
	if vChoose("reg", 2) == 1 {
		p.margins(0, 1)
		p.setWrap(true)
	}
	p.toAlt(false)
	p.m.st = p.t.screen().Style()
	p.kbOp("km", &km)
	p.genOp("m1")
	p.check("main screen")
	if vChoose("again", 2) == 1 {
		p.toAlt(false)
		p.check("main screen selected twice")
	}
	p.toAlt(true)
	p.m.st = p.t.screen().Style()
	p.check("alternate screen re-entered")
	if vChoose("twice", 2) == 1 {
		p.toAlt(true)
		p.check("alternate screen selected twice")
	}
	p.checkKb(&ka, "alternate screen")
	p.feeds("\x1b[u")
	p.m.cx, p.m.cy = p.m.sx, p.m.sy
	p.check("saved cursor of the alternate screen")
	p.checkWrap("alternate screen")
	p.toAlt(false)
	p.m.st = p.t.screen().Style()
	p.checkKb(&km, "main screen")
	p.checkWrap("main screen")
}

// ---- private modes ----

type vModeState struct {
	flags [viewFlagCount]bool
	ints  [viewIntCount]int
}

// privMode applies one mode to the model and says what is announced ('F', 'I' or 0).
func (p *vPair) privMode(ms *vModeState, mode int, v bool) (byte, int, int) {
	fl := func(f ViewFlag) (byte, int, int) {
		ms.flags[f] = v
		return 'F', int(f), vBtoI(v)
	}
	in := func(i ViewInt, on int) (byte, int, int) {
		if !v {
			on = 0
		}
		ms.ints[i] = on
		return 'I', int(i), on
	}
	switch mode {
	case 1:
		return fl(VFAppCursorKeys)
	case 7:
		p.m.wrap = v
	case 9:
		return in(VIMouseMode, MMPress)
	case 12:
		return fl(VFBlinkCursor)
	case 25:
		return fl(VFShowCursor)
	case 1000:
		return in(VIMouseMode, MMPressRelease)
	case 1002:
		return in(VIMouseMode, MMPressReleaseMove)
	case 1003:
		return in(VIMouseMode, MMPressReleaseMoveAll)
	case 1004:
		return fl(VFReportFocus)
	case 1005, 1015:
		return in(VIMouseEncoding, MEUTF8)
	case 1006:
		return in(VIMouseEncoding, MESGR)
	case 2004:
		return fl(VFBracketedPaste)
	case 1049:
		p.alt = v
		p.m = p.ms[vBtoI(v)]
		p.m.st = p.t.screen().Style()
	}
	return 0, 0, 0
}

func (p *vPair) checkModes(ms *vModeState, what string) {
	for f := ViewFlag(0); f < viewFlagCount; f++ {
		vAssert(p.t.GetViewFlag(f) == ms.flags[f], what+": flag")
		vAssert(!p.fe.flagSet[f] || p.fe.flags[f] == ms.flags[f], what+": announced flag")
	}
	for i := ViewInt(0); i < viewIntCount; i++ {
		vAssert(p.t.GetViewInt(i) == ms.ints[i], what+": mode")
		vAssert(p.fe.ints[i] == ms.ints[i], what+": announced mode")
	}
}

// vMode is any mode number below 10000: one or two digits, or four.
func vMode(tag string) ([]byte, int) {
	if vChoose(tag+".len", 2) == 0 {
		b, v := vNum(tag, 2)
		return b, v
	}
	var b []byte
	v := 0
	for i := 0; i < 4; i++ {
		d := vU8(tag, '0', '9')
		b = append(b, d)
		v = v*10 + int(d-'0')
	}
	return b, v
}

// modeSeq feeds one set or reset sequence of n modes.
func (p *vPair) modeSeq(tag string, ms *vModeState, n int) {
	v := vChoose(tag+".set", 2) == 1
	seq := []byte("\x1b[?")
	var modes []int
	for i := 0; i < n; i++ {
		b, md := vMode(tag + ".mode")
		modes = append(modes, md)
		if i > 0 {
			seq = append(seq, ';')
		}
		seq = append(seq, b...)
	}
	fin := byte('l')
	if v {
		fin = 'h'
	}
	p.fe.rec, p.fe.ev = true, nil
	p.feed(append(seq, fin))
	k := 0
	ev := p.fe.ev
	for _, md := range modes {
		kind, a, b := p.privMode(ms, md, v)
		if kind == 0 {
			continue
		}
		for k < len(ev) && ev[k].kind != 'F' && ev[k].kind != 'I' {
			k++
		}
		vAssert(k < len(ev) && ev[k].kind == kind && ev[k].a == a && ev[k].b == b, "set or reset reported with the value in force")
		k++
	}
	for k < len(ev) {
		vAssert(ev[k].kind != 'F' && ev[k].kind != 'I', "nothing else reported")
		k++
	}
	p.checkModes(ms, "private modes")
	p.check("private modes")
}

// Two sequences of one mode each, then one of two modes.
func vh_C17_modes() {
	p := vFilled(3, 2, TextReadModeRune, vChoose("grid", 2) == 1, false, 0)
	p.cup(1, 1)
	ms := &vModeState{ints: p.fe.ints}
	for f := range ms.flags {
		ms.flags[f] = p.t.GetViewFlag(ViewFlag(f))
	}
	p.modeSeq("a", ms, 1)
	p.modeSeq("b", ms, 2)
	p.checkWrap("after the modes")
}

// The same sequence twice has the effect of once.
func vh_C17_twice() {
	p := vFilled(3, 2, TextReadModeRune, vChoose("grid", 2) == 1, vChoose("alt", 2) == 1, 0)
	p.sgr("33")
	p.cup(1, 1)
	ms := &vModeState{ints: p.fe.ints}
	for f := range ms.flags {
		ms.flags[f] = p.t.GetViewFlag(ViewFlag(f))
	}
	b, md := vMode("mode")
	v := vChoose("set", 2) == 1
	seq := append([]byte("\x1b[?"), b...)
	if v {
		seq = append(seq, 'h')
	} else {
		seq = append(seq, 'l')
	}
	p.feed(seq)
	p.privMode(ms, md, v)
	p.pickOp("mid", []int{0, 1, 4, 15, 20, 27, 33})
	st := p.t.screen().Style()
	p.be.out = nil
	p.feed(seq)
	if md != 7 {
		p.privMode(ms, md, v)
	}
	vAssert(len(p.be.out) == 0, "no reply to a mode")
	vAssert(vStyleEq(p.t.screen().Style(), st), "rendition unchanged by a repeated mode")
	p.checkModes(ms, "repeated mode")
	p.check("repeated mode")
	p.checkWrap("repeated mode")
}

func vt_C17_modes4() {
	p := vFilled(2, 2, TextReadModeRune, false, false, 0)
	ms := &vModeState{ints: p.fe.ints}
	for f := range ms.flags {
		ms.flags[f] = p.t.GetViewFlag(ViewFlag(f))
	}
	p.modeSeq("a", ms, 2)
	p.modeSeq("b", ms, 2)
	p.checkWrap("after the modes")
}

func vt_C17_isolation3() {
	grid := vChoose("grid", 2) == 1
	p := vFilled(3, 3, TextReadModeGrapheme, grid, false, 3)
	p.setWrap(true)
	p.cup(1, 2)
	p.feeds("\x1b[s")
	p.m.sx, p.m.sy = 1, 2
	p.toAlt(true)
	p.m.st = p.t.screen().Style()
	p.genOp("alt1")
	p.genOp("alt2")
	p.toAlt(false)
	p.m.st = p.t.screen().Style()
	p.genOp("main")
	p.check("main screen")
	p.toAlt(true)
	p.m.st = p.t.screen().Style()
	p.check("alternate screen")
	p.checkWrap("alternate screen")
}
