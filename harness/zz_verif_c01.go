package termemu

// C01: nothing panics or hangs.  C02: the screens stay well formed.

var vTiny = [...]Pos{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 2}, {4, 3}}

// sweep calls every read accessor with in-range arguments.
func (e *vEnv) sweep(all bool) {
	w, h := e.t.Size()
	vAssert(w >= 1 && h >= 1, "size")
	for y := 0; y < h; y++ {
		_ = e.t.Line(y)
		_ = e.t.ANSILine(y)
		_ = e.t.StyledLine(0, w, y)
		if all {
			for x := 0; x < w; x++ {
				for n := 0; x+n <= w; n++ {
					_ = e.t.StyledLine(x, n, y)
				}
			}
		} else {
			_ = e.t.StyledLine(w/2, w-w/2, y)
			_ = e.t.StyledLine(0, w/2, y)
		}
	}
	_ = e.t.StyledLines(Region{X: 0, Y: 0, X2: w, Y2: h})
	_ = e.t.StyledLines(Region{X: w / 2, Y: h / 2, X2: w, Y2: h})
}

// vStart is a filled or empty terminal of one of several sizes, with a scroll region
// and a cursor position.
func vStart(n, kind int) *vPair {
	var z Pos
	lay := 0
	if kind < vKESC {
		z = vTiny[vChoose("z", n)]
		lay = vChoose("layout", 3)
	} else {
		z = []Pos{{1, 1}, {2, 2}, {4, 3}}[vChoose("z", min(n, 3))]
		lay = vChoose("layout", 2) * 2
	}
	mode := TextReadModeGrapheme
	if lay == 1 {
		mode = TextReadModeRune
	}
	grid := vChoose("grid", 2) == 1
	var p *vPair
	if lay == 0 {
		p = vNewPair(z.X, z.Y, mode, grid)
	} else {
		p = vFilled(z.X, z.Y, mode, grid, false, 3)
	}
	p.setWrap(kind >= vKESC || vChoose("wrap", 2) == 1)
	if z.Y > 1 && vChoose("reg", 2) == 1 {
		p.margins(z.Y-1, z.Y-1)
	}
	p.cup(vConc(vInt("x", 0, z.X-1)), vConc(vInt("y", 0, z.Y-1)))
	return p
}

var vShortKinds = [...]int{vKASCII, vKC0, vKWide, vKFrag, vKEmoji, vKRI, vKHuge}

// One item of raw input in any state, then text.
func vh_C01_item() {
	kind := vChoose("kind", vNKinds)
	p := vStart(len(vTiny), kind)
	p.feed(vGenItem("i", kind).b)
	p.feeds("y\u4e00z\n")
	p.sweep(false)
}

// Text and fragments of text, three in a row, in one read or three.
func vh_C01_text() {
	z := vTiny[vChoose("z", len(vTiny)-1)]
	p := vNewPair(z.X, z.Y, TextReadModeGrapheme, vChoose("grid", 2) == 1)
	p.setWrap(vChoose("wrap", 2) == 1)
	one := vChoose("one", 2) == 1
	for _, t := range []string{"a", "b", "c"} {
		k := vShortKinds[vChoose(t, len(vShortKinds))]
		if k == vKC0 && t != "a" {
			vStop()
		}
		it := vGenItem(t, k)
		p.be.in = append(p.be.in, it.b)
		if !one {
			p.run()
		}
	}
	if one {
		var all []byte
		for _, b := range p.be.in {
			all = append(all, b...)
		}
		p.be.in = nil
		p.feed(all)
	}
	p.sweep(true)
}

// A resize before, in the middle of, and after an item.
func vh_C01_resize() {
	lay := vChoose("layout", 2)
	z := vTiny[2*vChoose("z", 3)+1]
	mode := TextReadModeRune
	if lay == 1 {
		mode = TextReadModeGrapheme
	}
	p := vFilled(z.X, z.Y, mode, vChoose("grid", 2) == 1, false, lay*3)
	p.setWrap(true)
	if z.Y > 1 {
		p.margins(z.Y/2, z.Y-1)
	}
	p.cup(z.X-1, z.Y-1)
	p.feeds("\x1b[s")
	if lay == 1 {
		p.feeds("\x1b[?1049h")
	}
	kind := vChoose("kind", vNKinds)
	it := vGenItem("i", kind)
	cut := 0
	if kind == vKCSI1 || kind == vKCSI2 {
		cut = len(it.b)
	} else if cut = vChoose("cut", min(3, len(it.b)+1)); cut == 2 {
		cut = len(it.b)
	}
	p.feed(it.b[:cut])
	z = []Pos{{1, 1}, {2, 1}, {1, 2}, {4, 3}}[vChoose("z2", 4)]
	_ = p.t.Resize(z.X, z.Y)
	p.feed(it.b[cut:])
	p.sweep(false)
	z = vTiny[3*vChoose("z3", 2)]
	_ = p.t.Resize(z.X, z.Y)
	p.feeds("\x1b[?1049lz\x1b[u\u4e00\n\x1b[Mz")
	p.sweep(false)
}

// vAnyByte is any byte; if few, only some of those beyond ASCII.
func vAnyByte(name string, few bool) byte {
	if !few {
		return vU8(name, 0, 255)
	}
	n := vChoose(name+".c", 6)
	if n == 0 {
		return vU8(name, 0, 127)
	}
	return []byte{0x80, 0x9c, 0xbf, 0xc3, 0xff}[n-1]
}

// Arbitrary bytes.
func vh_C01_bytes() {
	p := vNewPair(2, 2, vModes(), vChoose("grid", 2) == 1)
	p.setWrap(true)
	var b []byte
	switch vChoose("pre", 6) {
	case 1:
		b = []byte{27}
	case 2:
		b = []byte("\x1b[")
	case 3:
		b = []byte("\x1b]")
	case 4:
		b = []byte("\x1bP")
	case 5:
		b = []byte("\x1b[?")
	}
	n := 2
	if b == nil {
		b = []byte("a")
	}
	for i := 0; i < n; i++ {
		b = append(b, vAnyByte("b"+string(rune('0'+i)), i > 0))
	}
	if vChoose("cut", 2) == 1 {
		p.feed(b[:len(b)-1])
		b = b[len(b)-1:]
	}
	p.feed(b)
	p.feeds("z\x1b\\\az")
	p.sweep(true)
}

// Every CSI final with every kind of number.
func vh_C01_params() {
	p := vFilled(3, 2, TextReadModeRune, vChoose("grid", 2) == 1, false, 3)
	p.cup(1, 1)
	b := []byte("\x1b[" + vSelect("pre", "", "?", ">", "<", "=", "!"))
	b = append(b, vSelect("n1", "", "0", "7", "65535", "2147483647", "4294967296", "9223372036854775807", "18446744073709551615", "99999999999999999999999999")...)
	b = append(b, vSelect("n2", "", ";", ";1", ";2147483648", ";;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;9", ";18446744073709551616;5", ":3")...)
	b = append(b, vFinal("f"))
	p.feed(b)
	p.feeds("z\n")
	p.sweep(false)
}

// SGR sequences of up to ten parameters with an extended colour cut anywhere.
func vh_C01_sgr() {
	before := vChoose("before", 9)
	p := vFilled(2, 1, TextReadModeRune, before%2 == 1, false, 3)
	b := []byte("\x1b[")
	for ; before > 0; before-- {
		b = append(b, "1;"...)
	}
	b = append(b, vSelect("what", "38", "48", "58", "")...)
	b = append(b, vSelect("sep", ";", ":", ";;")...)
	b = append(b, vSelect("kind", "", "0", "2", "5", "6", "99999999999999999999")...)
	n := vChoose("after", 6)
	last := n > 0 && vChoose("last", 2) == 1
	v := vSelect("v", "7", "255", "256", "4294967295")
	for i := n; i > 0; i-- {
		b = append(b, ';')
		if i > 1 || last {
			b = append(b, v...)
		}
	}
	p.feed(append(b, 'm'))
	p.feeds("z\n")
	p.sweep(false)
}

// The parser consumes long input in a bounded number of steps.
func vh_C01_long() {
	p := vNewPair(3, 2, vModes(), vChoose("grid", 2) == 1)
	p.setWrap(vChoose("wrap", 2) == 1)
	var b []byte
	c := vU8("c", 0x20, 0x7e)
	switch vChoose("kind", 6) {
	case 0:
		for i := 0; i < 300; i++ {
			b = append(b, c)
		}
	case 1:
		b = append(b, 27, '[')
		for i := 0; i < 300; i++ {
			b = append(b, '0'+byte(i%10))
		}
		b = append(b, 'C', c)
	case 2:
		b = append(b, 27, ']', '2', ';')
		for i := 0; i < 300; i++ {
			b = append(b, c)
		}
		b = append(b, 7)
	case 3:
		for i := 0; i < 60; i++ {
			b = append(b, "e\u0301\u4e00\u200d"...)
		}
	case 4:
		b = append(b, 'e')
		for i := 0; i < 100; i++ {
			b = append(b, "\u0301"...)
		}
		b = append(b, c)
	case 5:
		for i := 0; i < 60; i++ {
			b = append(b, "\x80\U0001f1fa\xf0\x9f"...)
		}
		b = append(b, c)
	}
	p.feed(b)
	p.sweep(true)
}

// Three items on small screens.
func vt_C01_three() {
	kind := vChoose("kind", vNKinds)
	p := vStart(4, kind)
	p.feed(vGenItem("i", kind).b)
	p.feed(vGenItem("j", vShortKinds[vChoose("kj", len(vShortKinds))]).b)
	p.feed(vGenItem("k", []int{vKASCII, vKC0, vKWide, vKFrag, vKCSI0}[vChoose("kk", 5)]).b)
	p.sweep(true)
}

// ---- C02 ----

// vPlain removes the SGR sequences from a rendered row.
func vPlain(s string) string {
	var r []byte
	for i := 0; i < len(s); i++ {
		if s[i] != 27 {
			r = append(r, s[i])
			continue
		}
		for i++; i < len(s) && s[i] != 'm'; i++ {
		}
	}
	return string(r)
}

// wellFormed checks one screen.
func (e *vEnv) wellFormed(s screen, active bool, what string) {
	sz := s.Size()
	vAssert(sz.X >= 1 && sz.Y >= 1, what+": size")
	rows := s.StyledLines(Region{X2: sz.X, Y2: sz.Y})
	vAssert(len(rows) == sz.Y, what+": StyledLines")
	for y := 0; y < sz.Y; y++ {
		l := s.StyledLine(0, sz.X, y)
		n, raw := 0, 0
		for _, sp := range l.Spans {
			vAssert(sp.Width > 0, what+": width of a run")
			n += sp.Width
			if sp.Text != "" {
				// a run is as wide as its text
				b := []byte(sp.Text)
				w := 0
				for len(b) > 0 {
					k, cw := vClusterU(b, e.mode)
					b = b[k:]
					w += cw
				}
				if e.loose {
					w = sp.Width
				}
				if vNative() && w != sp.Width {
					vDumpLine(l)
				}
				vAssert(w == sp.Width, what+": run as wide as its text")
			}
		}
		vAssert(n == sz.X, what+": runs cover the row")
		vAssert(l.Width == sz.X, what+": width of the row")
		if ss, ok := s.(*spanScreen); ok {
			for _, sp := range ss.lines[y].spans {
				vAssert(sp.Width > 0, what+": width of a stored run")
				raw += sp.Width
			}
			vAssert(raw == sz.X && ss.lines[y].width == sz.X, what+": stored row")
		}
		text := vLineText(l)
		line := s.Line(y)
		all := vLineText(rows[y])
		vAssert(len(all) == len(text), what+": StyledLines")
		vAssert(all == text, what+": StyledLines")
		vAssert(len(line) == len(text), what+": Line")
		vAssert(line == text, what+": Line")
		if active {
			a := vPlain(e.t.ANSILine(y))
			vAssert(len(a) == len(text), what+": ANSILine")
			vAssert(a == text, what+": ANSILine")
			vAssert(e.t.Line(y) == text, what+": Line of the terminal")
		}
	}
	c := s.CursorPos()
	vAssert(vAnd(vAnd(c.X >= 0, c.X < sz.X), vAnd(c.Y >= 0, c.Y < sz.Y)), what+": cursor")
	top, bot := s.TopMargin(), s.BottomMargin()
	vAssert(vAnd(top >= 0, vAnd(top <= bot, bot < sz.Y)), what+": scroll region")
}

func (e *vEnv) invariant(what string) {
	t := e.t
	act := t.screen()
	vAssert(t.mainScreen.Size() == t.altScreen.Size(), what+": sizes of the screens")
	e.wellFormed(t.mainScreen, act == t.mainScreen, what+": main screen")
	e.wellFormed(t.altScreen, act == t.altScreen, what+": alternate screen")
	// what the application is told
	n := len(e.be.out)
	e.feeds("\x1b[6n")
	r := e.be.out[n:]
	c := act.CursorPos()
	want := "\x1b[" + string(vItoa(c.Y+1)) + ";" + string(vItoa(c.X+1)) + "R"
	vAssert(len(r) == len(want), what+": cursor report")
	vAssert(string(r) == want, what+": cursor report")
	e.be.out = e.be.out[:n]
}

// watchCursor checks every cursor position the frontend is told.
func (e *vEnv) watchCursor() {
	e.fe.hook = func(ev vEvent) {
		if ev.kind == 'C' {
			w, h := e.t.Size()
			vAssert(vAnd(vAnd(ev.a >= 0, ev.a < w), vAnd(ev.b >= 0, ev.b < h)), "cursor told to the frontend")
		}
	}
}

// One item in any state.
func vh_C02_item() {
	kind := vChoose("kind", vNKinds)
	p := vStart(len(vTiny), kind)
	p.watchCursor()
	p.feed(vGenItem("i", kind).b)
	p.invariant("input")
}

// Fragments of text in grapheme mode, and text on the second half of a character.
func vh_C02_text() {
	lay := vChoose("layout", 2)
	z := Pos{2 + 2*lay, 2}
	p := vFilled(z.X, z.Y, TextReadModeGrapheme, vChoose("grid", 2) == 1, false, 3)
	p.setWrap(vChoose("wrap", 2) == 1)
	p.watchCursor()
	p.cup(vConc(vInt("x", 0, z.X-1)), 1)
	one := lay == 1 && vChoose("one", 2) == 1
	var b []byte
	for _, t := range []string{"a", "b", "c"} {
		k := vShortKinds[vChoose(t, len(vShortKinds))]
		if t == "c" && (k == vKHuge || k == vKWide) {
			vStop()
		}
		p.loose = p.loose || k == vKRI || k == vKFrag
		var it []byte
		if k == vKC0 {
			it = []byte(vSelect(t+".c", "\b", "\r", "\x1b[P", "\x1b[X", "\x1b[2D"))
		} else {
			it = vGenItem(t, k).b
		}
		if one {
			b = append(b, it...)
		} else {
			p.feed(it)
			p.invariant("text")
		}
	}
	p.feed(b)
	p.invariant("text")
}

// Two operations, a resize in between.
func vh_C02_resize() {
	lay := vChoose("layout", 2)*2 + 1
	mode := TextReadModeRune
	if lay == 3 {
		mode = TextReadModeGrapheme
	}
	p := vFilled(4, 3, mode, vChoose("grid", 2) == 1, lay == 3, lay)
	p.setWrap(true)
	p.margins(1, 2)
	p.cup(3, 2)
	p.feeds("\x1b[s")
	p.watchCursor()
	k := []int{vKASCII, vKWide, vKFrag, vKC0, vKCSI0, vKMode}
	p.feed(vGenItem("i", k[vChoose("k1", len(k))]).b)
	z := vSizes[vChoose("size", len(vSizes))]
	_ = p.t.Resize(z.X, z.Y)
	p.invariant("resize")
	if vChoose("second", 2) == 0 {
		p.feed(vGenItem("j", k[vChoose("k2", 4)]).b)
	} else {
		p.feeds("\x1b[u")
		z = vSizes[vChoose("size2", len(vSizes))]
		_ = p.t.Resize(z.X, z.Y)
	}
	p.invariant("input after a resize")
}

// Arbitrary bytes.
func vh_C02_bytes() {
	p := vNewPair(3, 2, vModes(), vChoose("grid", 2) == 1)
	p.setWrap(vChoose("wrap", 2) == 1)
	p.cup(1, 1)
	b := []byte("a")
	for i := 0; i < 2; i++ {
		b = append(b, vAnyByte("b"+string(rune('0'+i)), i > 0))
	}
	p.feed(b)
	p.feeds("z")
	p.feeds("\a\x1b\\")
	p.invariant("arbitrary bytes")
}

func vt_C02_three() {
	kind := vChoose("kind", vNKinds)
	p := vStart(len(vTiny), kind)
	p.watchCursor()
	p.feed(vGenItem("i", kind).b)
	p.feed(vGenItem("j", vShortKinds[vChoose("kj", len(vShortKinds))]).b)
	p.feed(vGenItem("k", []int{vKASCII, vKC0, vKWide, vKFrag, vKCSI0}[vChoose("kk", 5)]).b)
	p.invariant("three items")
}
