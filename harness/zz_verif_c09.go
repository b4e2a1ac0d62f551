package termemu

// C09: control sequences are consumed whole.

// vGreek is a terminal full of Greek letters; p.twin is another in the same state.
func vGreek(w, h int, mode TextReadMode, grid, alt bool) *vPair {
	k := vKey("greek", w, h, mode, grid)
	if alt {
		k += "a"
	}
	p := vMemoPair(k, func() *vPair {
		p := vNewPairRaw(w, h, mode, grid)
		p.twin = vNewRaw(w, h, mode, grid)
		p.setWrap(false)
		if alt {
			p.toAlt(true)
			p.setWrap(false)
		}
		n := 0
		for y := 0; y < h; y++ {
			p.cup(0, y)
			p.sgr(vFillStyles[y%len(vFillStyles)])
			for x := 0; x < w; x++ {
				p.feeds(string(rune(0x3b1 + n%24)))
				n++
			}
		}
		p.cup(1, h/2)
		p.feeds("\x1b[s")
		p.sgr("32;4")
		p.setWrap(true)
		return p
	})
	return p
}

// both feeds pre+seq+post to the terminal, and pre+post to its twin.
func (p *vPair) both(pre string, seq []byte, post string) {
	p.fe.rec, p.twin.fe.rec = true, true
	p.vEnv.feed(append(append([]byte(pre), seq...), post...))
	p.twin.feed([]byte(pre + post))
}

// same compares all state with the twin's.
func (p *vPair) sameState(what string) {
	a, b := p.vEnv, p.twin
	vAssert((a.t.screen() == a.t.altScreen) == (b.t.screen() == b.t.altScreen), what+": active screen")
	vScreensSame(a.t.screen(), b.t.screen(), what)
	for i := ViewFlag(0); i < viewFlagCount; i++ {
		vAssert(a.t.GetViewFlag(i) == b.t.GetViewFlag(i), what+": view flag")
	}
	for i := ViewInt(0); i < viewIntCount; i++ {
		vAssert(a.t.GetViewInt(i) == b.t.GetViewInt(i), what+": view integer")
	}
	for i := ViewString(0); i < viewStringCount; i++ {
		x, y := a.t.GetViewString(i), b.t.GetViewString(i)
		vAssert(len(x) == len(y) && x == y, what+": view string")
	}
	vAssert(a.t.keyboardFlags() == b.t.keyboardFlags(), what+": keyboard flags")
	vAssert(len(a.be.out) == len(b.be.out) && string(a.be.out) == string(b.be.out), what+": reply")
	vAssert(a.fe.bells == b.fe.bells, what+": bell")
	m, n := 0, 0
	for _, e := range a.fe.ev {
		if e.kind != 'R' && e.kind != 'C' && e.kind != 'S' {
			m++
		}
	}
	for _, e := range b.fe.ev {
		if e.kind != 'R' && e.kind != 'C' && e.kind != 'S' {
			n++
		}
	}
	vAssert(m == n, what+": notifications")
	// what only later input shows: saved cursor, keyboard stack, the other screen
	for _, s := range []string{"\x1b[u", "\x1b[<u", "\x1b[?1049h", "\x1b[<u\x1b[u", "\x1b[?1049l"} {
		a.feeds(s)
		b.feeds(s)
		vAssert(a.t.keyboardFlags() == b.t.keyboardFlags(), what+": keyboard stack")
		vAssert((a.t.screen() == a.t.altScreen) == (b.t.screen() == b.t.altScreen), what+": screens")
		vAssert(a.t.screen().CursorPos() == b.t.screen().CursorPos(), what+": saved cursor")
	}
	vScreensSame(a.t.mainScreen, b.t.mainScreen, what+", main screen")
	vScreensSame(a.t.altScreen, b.t.altScreen, what+", alternate screen")
}

// residue checks that nothing of a recognised sequence was drawn, nor swallowed
// what follows.
func (p *vPair) residue(seq []byte, what string) {
	p.vEnv.feed(seq)
	vAssert(p.gr.Buffered() == 0, what+": bytes left")
	s := p.t.screen()
	sz := s.Size()
	for y := 0; y < sz.Y; y++ {
		ok := true
		for _, sp := range s.StyledLine(0, sz.X, y).Spans {
			if sp.Text == "" {
				ok = vAnd(ok, vOr(sp.Rune == ' ', vAnd(sp.Rune >= 0x3b1, sp.Rune < 0x3b1+24)))
				continue
			}
			for _, r := range sp.Text {
				ok = vAnd(ok, vOr(r == ' ', vAnd(r >= 0x3b1, r < 0x3b1+24)))
			}
		}
		vAssert(ok, what+": drawn as text")
	}
	q := s.CursorPos()
	p.feeds("\x1b[?7l\u03a9")
	row := s.Line(q.Y)
	x := 0
	for _, r := range row {
		vAssert((r == 0x3a9) == (x == q.X), what+": the text after the sequence")
		x++
	}
}

func vGreekAny(alt bool) *vPair {
	grid := vChoose("grid", 2) == 1
	mode := TextReadModeRune
	if grid {
		mode = TextReadModeGrapheme
	}
	return vGreek(4, 3, mode, grid, alt)
}

// ESC, intermediates and a final byte.
func vh_C09_esc() {
	p := vGreekAny(vChoose("alt", 2) == 1)
	b := []byte{27}
	n := vChoose("n", 4)
	for i := 0; i < n; i++ {
		b = append(b, vU8("i"+string(rune('0'+i)), 0x20, 0x2f))
	}
	f := vU8("f", 0x30, 0x7e)
	if n == 0 {
		vAssume(vAnd(vAnd(vAnd(f != 'P', f != 'X'), vAnd(f != '^', f != '_')), vAnd(f != '[', f != ']')))
		if f == 'D' || f == 'M' || f == '=' || f == '>' {
			p.residue(append(b, f), "ESC sequence")
			return
		}
	}
	p.both("\u03c8", append(b, f), "xy")
	p.sameState("ESC sequence")
}

var vCSIKnown = [...]struct{ prefix, finals string }{
	{"", "ABCDGHJKLMPSTXcdfhlmnrstu"},
	{"?", "hlu"},
	{">", "cmu"},
	{"<", "u"},
	{"=", "u"},
}

func vIn(f byte, set string) bool {
	r := false
	for i := 0; i < len(set); i++ {
		r = vOr(r, f == set[i])
	}
	return r
}

// csi checks a CSI sequence; plain says that its parameters are digits and
// semicolons alone, without intermediates.
func (p *vPair) csi(k int, params []byte, plain bool, f byte) {
	b := append([]byte("\x1b["+vCSIKnown[k].prefix), params...)
	b = append(b, f)
	if plain && vIn(f, vCSIKnown[k].finals) {
		p.residue(b, "CSI sequence")
		return
	}
	p.both("\u03c8", b, "xy")
	p.sameState("CSI sequence")
}

// Every final with every private marker and few parameters.
func vh_C09_final() {
	p := vGreekAny(vChoose("alt", 2) == 1)
	k := vChoose("k", 5)
	s := vSelect("n", "", "0", "1", "2", "3;1", ";", "4;2", "1049", "6", "18;5")
	p.csi(k, []byte(s), true, vFinal("f"))
}

// Any parameter bytes.
func vh_C09_params() {
	p := vGreekAny(false)
	k := vChoose("k", 5)
	n := 1 + vChoose("n", 3)
	var b []byte
	plain := true
	for i := 0; i < n; i++ {
		c := vU8("p"+string(rune('0'+i)), 0x30, 0x3f)
		if k == 0 && i == 0 {
			vAssume(c < '<')
		}
		plain = vAnd(plain, c <= '9' || c == ';')
		b = append(b, c)
	}
	p.csi(k, b, plain, vSelect("f", "m", "H", "J", "h", "l", "u", "c", "r", "A", "P", "q", "p", "z", "@", "~", "{")[0])
}

// Intermediates.
func vh_C09_inter() {
	p := vGreekAny(false)
	k := vChoose("k", 5)
	b := []byte(vSelect("n", "", "0", "1", "2;3", "4:3", ":", "1;<2"))
	n := 1 + vChoose("i", 3)
	for i := 0; i < n; i++ {
		b = append(b, vU8("i"+string(rune('0'+i)), 0x20, 0x2f))
	}
	p.csi(k, b, false, vFinal("f"))
}

// Many parameters.
func vh_C09_many() {
	p := vGreekAny(false)
	k := vChoose("k", 5)
	n := vChoose("n", 21)
	what := vChoose("v", 4)
	var b []byte
	plain := true
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, ';')
		}
		switch what {
		case 0:
		case 1:
			b = append(b, '1')
		case 2:
			b = append(b, []string{"0", "", "7", "99999", "38", "25"}[i%6]...)
		case 3:
			b = append(b, "4:3"...)
			plain = false
		}
	}
	p.csi(k, b, plain, vFinal("f"))
}

// Modes by number.
func vh_C09_mode() {
	p := vGreekAny(false)
	v := vChoose("blk", 12)*256 + int(vU8("lo", 0, 255))
	k := vChoose("k", 2)
	known := false
	switch v {
	case 1, 7, 9, 12, 25, 1000, 1002, 1003, 1004, 1005, 1006, 1015, 1049, 2004:
		known = k == 0
	case 4, 20:
		known = k == 1
	}
	b := []byte("\x1b[?")
	if k == 1 {
		b = b[:2]
	}
	b = append(append(b, vDigits(v, 4)...), vSelect("f", "h", "l")...)
	if known {
		p.residue(b, "mode")
		return
	}
	p.both("\u03c8", b, "xy")
	p.sameState("mode")
}

// ---- strings ----

// vPayload is what a control string carries: up to n symbolic characters.
func vPayload(tag string, n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		t := tag + string(rune('0'+i))
		switch vChoose(t+".k", 6) {
		case 0:
			return b
		case 1:
			b = append(b, vU8(t, 0x20, 0x7e))
		case 2:
			b = append(b, string(vRune(t, 0xa0, 0x17f))...)
		case 3: // with 0x9c among the bytes
			b = append(b, string(vRune(t, 0x4e00, 0x4e3f))...)
		case 4:
			b = append(b, string(vRune(t, 0x1f700, 0x1f73f))...)
		case 5:
			b = append(b, string(vRune(t, 0x7100, 0x713f))...)
		}
	}
	return b
}

// Title, directory and file.
func vh_C09_title() {
	p := vGreekAny(vChoose("alt", 2) == 1)
	n := vChoose("n", 4)
	payload := vPayload("p", 3)
	b := append([]byte("\x1b]"), []string{"0;", "2;", "6;", "7;"}[n]...)
	b = append(b, payload...)
	b = append(b, vSelect("t", "\a", "\x1b\\", "\x9c")...)
	p.both("\u03c8", b, "xy")
	which := []ViewString{VSWindowTitle, VSWindowTitle, VSCurrentDirectory, VSCurrentFile}[n]
	for i := ViewString(0); i < viewStringCount; i++ {
		v := p.t.GetViewString(i)
		if i == which {
			vAssert(len(v) == len(payload) && v == string(payload), "payload")
		} else {
			vAssert(v == "", "another string changed")
		}
	}
	cnt := 0
	for _, e := range p.fe.ev {
		if e.kind == 'T' {
			cnt++
			vAssert(e.a == int(which) && len(e.s) == len(payload) && e.s == string(payload), "payload delivered")
		}
	}
	vAssert(cnt >= 1, "payload not delivered")
	p.feeds("\x1b]" + string(rune('0'+[]int{2, 2, 6, 7}[n])) + ";\a")
	p.fe.ev, p.twin.fe.ev = nil, nil
	p.sameState("OSC")
}

// Longer titles with marks of all kinds inside, twice.
func vh_C09_titles() {
	p := vGreekAny(false)
	for _, tag := range []string{"a", "b"} {
		payload := []byte(vSelect(tag, "", "x", ";", "a;b;;c", "~/\u00e9t\u00e9", "\u4e1c\u4eac", "[31m", "\x1b[31m", "0;x", "\u271c \U0001f71c!", "\\", "]2;y", "tab\there", "\u009c", "\xe2\x9c\x9c"))
		b := append([]byte("\x1b]2;"), payload...)
		b = append(b, vSelect(tag+".t", "\a", "\x1b\\", "\x9c")...)
		p.both("\u03c8", b, "x")
		v := p.t.GetViewString(VSWindowTitle)
		vAssert(v == string(payload), "payload")
	}
	p.feeds("\x1b]2;\a")
	p.fe.ev, p.twin.fe.ev = nil, nil
	p.sameState("OSC")
}

// Other commands.
func vh_C09_osc() {
	p := vGreekAny(false)
	num := vSelect("n", "1", "3", "4", "5", "8", "9", "10", "11", "12", "52", "104", "112", "133", "666", "1337", "20", "27", "60", "70", "72", "4294967296", "18446744073709551618", "l", "L", "x2", "2x", "P1")
	b := append([]byte("\x1b]"), num...)
	if vChoose("semi", 2) == 1 {
		b = append(b, ';')
		b = append(b, vPayload("p", 2)...)
	}
	b = append(b, vSelect("t", "\a", "\x1b\\", "\x9c")...)
	p.both("\u03c8", b, "xy")
	p.sameState("OSC")
}

// Device control strings.
func vh_C09_dcs() {
	p := vGreekAny(vChoose("alt", 2) == 1)
	b := append([]byte("\x1bP"), vSelect("n", "", "0;1|", "1$r", "$q", "+q", "q", "2;1;q", ">|")...)
	b = append(b, vPayload("p", 3)...)
	b = append(b, vSelect("x", "", "\a", "\n", "\x1b[31m", "\\", "m")...)
	b = append(b, vSelect("t", "\x1b\\", "\x9c")...)
	p.both("\u03c8", b, "xy")
	p.sameState("DCS")
}

// Two sequences and text around them, in one read.
func vh_C09_seq() {
	p := vGreekAny(false)
	list := []string{"\x1b(B", "\x1b)0", "\x1b%G", "\x1b#8", "\x1b F", "\x1b7x\x1b8", "\x1b[1;2y", "\x1b[4:3m", "\x1b[?25$p", "\x1b[2 q", "\x1b[!p", "\x1b[>4;2q",
		"\x1b]52;c;YQ==\a", "\x1b]8;;http://x\x1b\\", "\x1bP+q544e\x1b\\", "\x1b[>0q", "\x1b[?2026h", "\x1b[38:2::1:2:3m", "\x1b[=1;1$z", "\x1b*0", "\x1b$(C", "\x1b[1;1;1;1;2$r", "\x1b]133;A\x9c", "\x1bP\x9c"}
	a, b := list[vChoose("a", len(list))], list[vChoose("b", len(list))]
	mid := vSelect("mid", "", "\u03c9", "Z\n")
	p.fe.rec, p.twin.fe.rec = true, true
	strip := func(s string) string {
		if s == "\x1b7x\x1b8" {
			return "x"
		}
		return ""
	}
	c := vU8("c", 0x20, 0x7e)
	p.vEnv.feed(append([]byte(a+mid+b), c))
	p.twin.feed(append([]byte(strip(a)+mid+strip(b)), c))
	p.sameState("sequences")
}
