package termemu

// C07: SGR attributes.

// vSty is the reference rendition.
type vSty struct {
	fk, bk int // 0 default, 1 indexed, 2 bright, 3 RGB
	fv, bv int
	modes  int
}

var vModeList = [...]Mode{ModeBold, ModeDim, ModeItalic, ModeUnderline, ModeBlink, ModeReverse, ModeInvisible, ModeStrike,
	ModeOverline, ModeDoubleUnderline, ModeFramed, ModeEncircled, ModeRapidBlink}

const (
	vmBold = 1 << iota
	vmDim
	vmItalic
	vmUnderline
	vmBlink
	vmReverse
	vmInvisible
	vmStrike
	vmOverline
	vmDouble
	vmFramed
	vmEncircled
	vmRapid
)

// real builds the Style through the public setters.
func (m vSty) real() Style {
	s := NewStyle()
	set := func(c ColorComponent, k, v int) {
		switch k {
		case 0:
			s.SetColorDefault(c)
		case 1:
			s.SetColor256(c, v)
		case 2:
			s.SetColorBright(c, v)
		case 3:
			s.SetColorRGB(c, v>>16&255, v>>8&255, v&255)
		}
	}
	set(ComponentFG, m.fk, m.fv)
	set(ComponentBG, m.bk, m.bv)
	for i, x := range vModeList {
		if m.modes>>i&1 != 0 {
			s.SetMode(x)
		}
	}
	return s
}

// one applies one simple SGR code.
func (m vSty) one(p int) vSty {
	switch {
	case p == 0:
		return vSty{}
	case p == 1:
		m.modes |= vmBold
	case p == 2:
		m.modes |= vmDim
	case p == 3:
		m.modes |= vmItalic
	case p == 4:
		m.modes |= vmUnderline
	case p == 5:
		m.modes |= vmBlink
	case p == 6:
		m.modes |= vmRapid
	case p == 7:
		m.modes |= vmReverse
	case p == 8:
		m.modes |= vmInvisible
	case p == 9:
		m.modes |= vmStrike
	case p == 21:
		m.modes |= vmDouble
	case p == 22:
		m.modes &^= vmBold | vmDim
	case p == 23:
		m.modes &^= vmItalic
	case p == 24:
		m.modes &^= vmUnderline | vmDouble
	case p == 25:
		m.modes &^= vmBlink | vmRapid
	case p == 27:
		m.modes &^= vmReverse
	case p == 28:
		m.modes &^= vmInvisible
	case p == 29:
		m.modes &^= vmStrike
	case p == 51:
		m.modes |= vmFramed
	case p == 52:
		m.modes |= vmEncircled
	case p == 53:
		m.modes |= vmOverline
	case p == 54:
		m.modes &^= vmFramed | vmEncircled
	case p == 55:
		m.modes &^= vmOverline
	case p >= 30 && p <= 37:
		m.fk, m.fv = 1, p-30
	case p == 39:
		m.fk, m.fv = 0, 0
	case p >= 40 && p <= 47:
		m.bk, m.bv = 1, p-40
	case p == 49:
		m.bk, m.bv = 0, 0
	case p >= 90 && p <= 97:
		m.fk, m.fv = 2, p-90
	case p >= 100 && p <= 107:
		m.bk, m.bv = 2, p-100
	}
	return m
}

// vCode is a symbolic SGR code 0..255 other than 38 and 48, without leading zeros.
func vCode(tag string) ([]byte, int) {
	v := int(vU8(tag, 0, 255))
	vAssume(v != 38 && v != 48)
	return vDec(v), v
}

// vDec renders a symbolic value below 1000; the number of digits is forked.
func vDec(v int) []byte {
	if v < 10 {
		return vDigits(v, 1)
	}
	if v < 100 {
		return vDigits(v, 2)
	}
	return vDigits(v, 3)
}

// sgrItem is one element of a parameter list: a code, nothing, or an extended colour.
func sgrItem(tag string, m vSty, kinds int) ([]byte, vSty) {
	switch k := vChoose(tag+".kind", kinds); k {
	case 0:
		b, v := vCode(tag + ".code")
		return b, m.one(v)
	case 1, 2: // 38;5;n and 48;5;n
		v := int(vU8(tag+".n", 0, 255))
		b := []byte("38;5;")
		if k == 2 {
			b[0] = '4'
			m.bk, m.bv = 1, v
		} else {
			m.fk, m.fv = 1, v
		}
		return append(b, vDec(v)...), m
	case 3, 4: // RGB
		r, g, bl := int(vU8(tag+".r", 0, 255)), int(vU8(tag+".g", 0, 255)), int(vU8(tag+".b", 0, 255))
		b := []byte("38;2;")
		v := r<<16 | g<<8 | bl
		if k == 4 {
			b[0] = '4'
			m.bk, m.bv = 3, v
		} else {
			m.fk, m.fv = 3, v
		}
		b = append(b, vDigits(r, 3)...)
		b = append(append(b, ';'), vDigits(g, 3)...)
		return append(append(b, ';'), vDigits(bl, 3)...), m
	}
	return nil, m.one(0) // an empty parameter is 0
}

// checkStyle: the rendition in force, the one announced and the modes reported are
// those of the model.
func (p *vPair) checkStyle(m vSty) {
	want := m.real()
	got := p.t.screen().Style()
	vAssert(vStyleEq(got, want), "current rendition")
	vAssert(vOr(vNot(p.fe.stySet), vStyleEq(p.fe.style, want)), "announced rendition")
	for i, x := range vModeList {
		vAssert(got.TestMode(x) == (m.modes>>i&1 != 0), "TestMode")
	}
	vCheckColor(got, ComponentFG, m.fk, m.fv)
	vCheckColor(got, ComponentBG, m.bk, m.bv)
	n := 0
	for i := range vModeList {
		n += m.modes >> i & 1
	}
	ms := got.Modes()
	vAssert(len(ms) == n, "Modes")
	for _, x := range ms {
		vAssert(got.TestMode(x), "Modes")
	}
}

func vCheckColor(s Style, c ColorComponent, k, v int) {
	n, rgb, err := s.GetColor(c)
	vAssert(err == nil, "GetColor")
	vAssert(rgb == (k == 3), "GetColor kind")
	if k != 0 {
		vAssert(n == v, "GetColor value")
	}
}

// use writes text and blanks over styled cells: the cells touched take the current
// rendition and the others keep theirs.
func (p *vPair) use(m vSty) {
	p.m.st = m.real()
	p.cup(1, 1)
	p.text("x", "y")
	p.cup(0, 0)
	p.feeds("\x1b[2X")
	p.m.blank(0, 0, 2)
	p.cup(3, 0)
	p.feeds("\x1b[P")
	p.m.del(0, 3, 1)
	p.cup(2, 2)
	p.feeds("\x1b[K")
	p.m.blank(2, 2, p.m.w)
	p.check("cells")
}

// Every single parameter, from a rendition with all kinds of attributes set.
func vh_C07_one() {
	p := vFilled(5, 3, TextReadModeRune, vChoose("grid", 2) == 1, false, 3)
	m := vSty{}
	start := vChoose("start", 3)
	switch start {
	case 1: // every mode and two extended colours
		p.feeds("\x1b[1;2;3;4;5;6;7;8m\x1b[9;21;51;52;53;38;2;1;2;3m\x1b[48;5;200m")
		m = vSty{fk: 3, fv: 0x010203, bk: 1, bv: 200, modes: 1<<13 - 1}
	case 2:
		p.feeds("\x1b[97;40;4m")
		m = vSty{fk: 2, fv: 7, bk: 1, bv: 0, modes: vmUnderline}
	}
	b, m2 := sgrItem("a", m, 6)
	p.feed(append(append([]byte("\x1b["), b...), 'm'))
	p.checkStyle(m2)
	p.use(m2)
}

// Two parameters in one sequence or in two, or after seven or ten others.
func vh_C07_two() {
	p := vNewPair(5, 3, TextReadModeRune, false)
	m := vSty{}
	seq := []byte("\x1b[")
	switch vChoose("pre", 3) {
	case 1:
		seq = append(seq, "31;1;44;4;92;22;3;"...)
		m = vSty{fk: 2, fv: 2, bk: 1, bv: 4, modes: vmUnderline | vmItalic}
	case 2:
		seq = append(seq, "1;2;3;4;5;7;8;9;21;33;"...)
		m = vSty{fk: 1, fv: 3, modes: vmBold | vmDim | vmItalic | vmUnderline | vmBlink | vmReverse | vmInvisible | vmStrike | vmDouble}
	}
	b, m := sgrItem("a", m, 6)
	seq = append(seq, b...)
	if vChoose("split", 2) == 1 {
		seq = append(seq, "m\x1b["...)
	} else {
		seq = append(seq, ';')
	}
	b, m = sgrItem("b", m, 6)
	p.feed(append(append(seq, b...), 'm'))
	p.checkStyle(m)
	p.m.st = m.real()
	p.cup(1, 1)
	p.text("q")
	p.check("cells")
}

// Parameter lists of any length: the last ones count as much as the first.
func vh_C07_many() {
	p := vNewPair(5, 3, TextReadModeRune, vChoose("grid", 2) == 1)
	n := []int{3, 7, 8, 14, 15, 16, 17, 30, 31, 32, 33, 60, 130, 260}[vChoose("n", 14)]
	m := vSty{}
	pre := []struct {
		s string
		v int
	}{{"1;", 1}, {"33;", 33}, {"4;", 4}, {"22;", 22}, {"9;", 9}, {";", 0}, {"46;", 46}, {"3;", 3}}
	seq := []byte("\x1b[")
	for i := 0; i < n; i++ {
		seq = append(seq, pre[i%len(pre)].s...)
		m = m.one(pre[i%len(pre)].v)
	}
	b, m := sgrItem("a", m, 6)
	seq = append(append(seq, b...), ";53"...)
	m = m.one(53)
	p.feed(append(seq, 'm'))
	p.checkStyle(m)
	p.m.st = m.real()
	p.text("q")
	p.check("cells")
}

func vt_C07_three() {
	p := vNewPair(3, 2, TextReadModeRune, vChoose("grid", 2) == 1)
	m := vSty{}
	b, m := sgrItem("a", m, 6)
	seq := append(append([]byte("\x1b["), b...), ';')
	b, m = sgrItem("b", m, 6)
	seq = append(append(seq, b...), ';')
	b, m = sgrItem("c", m, 6)
	p.feed(append(append(seq, b...), 'm'))
	p.checkStyle(m)
	p.m.st = m.real()
	p.text("q")
	p.check("cells")
}

// vAnySty is a style with symbolic colours and modes.
func vAnySty(tag string) vSty {
	m := vSty{fk: vChoose(tag+".fk", 4), bk: vChoose(tag+".bk", 4)}
	val := func(t string, k int) int {
		switch k {
		case 1:
			return vInt(t, 0, 255)
		case 2:
			return vInt(t, 0, 7)
		case 3:
			return vInt(t, 0, 0xffffff)
		}
		return 0
	}
	m.fv, m.bv = val(tag+".fv", m.fk), val(tag+".bv", m.bk)
	return m
}

// Styles built from different attributes are different, whatever the order in which
// the attributes were set, and report them; setters touch nothing else.
func vh_C07_styles() {
	a, b := vAnySty("a"), vAnySty("b")
	i, j := vChoose("i", 14), vChoose("j", 14)
	if i < 13 {
		a.modes = 1 << i
	}
	if j < 13 {
		b.modes = 1<<j | a.modes
	}
	same := a.fk == b.fk && a.bk == b.bk && a.modes == b.modes
	ra, rb := a.real(), b.real()
	vAssert(vStyleEq(ra, rb) == vAnd(same, vAnd(a.fv == b.fv, a.bv == b.bv)), "styles equal only if the attributes are")
	for k, x := range vModeList {
		vAssert(rb.TestMode(x) == (b.modes>>k&1 != 0), "TestMode")
	}
	vCheckColor(rb, ComponentFG, b.fk, b.fv)
	vCheckColor(rb, ComponentBG, b.bk, b.bv)
	// changing an attribute and back
	rc := ra
	for k, x := range vModeList {
		if b.modes>>k&1 != 0 {
			rc.SetMode(x)
		}
	}
	vCheckColor(rc, ComponentFG, a.fk, a.fv)
	vCheckColor(rc, ComponentBG, a.bk, a.bv)
	for k, x := range vModeList {
		if b.modes>>k&1 != 0 && a.modes>>k&1 == 0 {
			rc.ResetMode(x)
		}
	}
	vAssert(vStyleEq(rc, ra), "mode set and reset")
}

var vNear = [...]string{"0", "30", "90", "38;2;0;0;0", "38;5;8", "40", "100", "48;2;0;0;0", "1", "9", "53", "38;5;1", "91", "38;2;0;0;1", "31;1", "48;5;255", "38;2;0;1;0", "7;45"}

// Text and erases over cells whose style differs little from the current one.
func vh_C07_over() {
	p := vNewPair(5, 1, TextReadModeGrapheme, vChoose("grid", 2) == 1)
	n := len(vNear)
	p.sgr(vNear[vChoose("s1", n)])
	p.text("a", "b", "\u4e00")
	p.sgr("0")
	p.sgr(vNear[vChoose("s2", n)])
	x := vChoose("x", 5)
	p.cup(x, 0)
	switch vChoose("op", 5) {
	case 0:
		p.text("z")
	case 1:
		p.text("z", "w")
	case 2:
		p.feeds("\x1b[X")
		p.m.blank(0, x, x+1)
	case 3:
		p.feeds("\x1b[P")
		p.m.del(0, x, 1)
	case 4:
		p.feeds("\x1b[1K")
		p.m.blank(0, 0, x+1)
	}
	p.check("cells")
}

// SGR on one screen, attributes of the cells of both.
func vt_C07_over2() {
	p := vNewPair(4, 2, TextReadModeGrapheme, vChoose("grid", 2) == 1)
	n := len(vNear)
	p.setWrap(true)
	p.sgr(vNear[vChoose("s1", n)])
	p.text("a", "b", "\u4e00", "c", "d")
	p.sgr("0")
	p.sgr(vNear[vChoose("s2", n)])
	x := vChoose("x", 4)
	p.cup(x, 0)
	p.text("z")
	p.sgr("0")
	p.sgr(vNear[vChoose("s3", n)])
	switch vChoose("op", 4) {
	case 0:
		p.text("w", "v")
	case 1:
		p.feeds("\x1b[2P")
		p.m.del(p.m.cy, p.m.cx, 2)
	case 2:
		p.feeds("\x1b[1J")
		for y := 0; y < p.m.cy; y++ {
			p.m.blank(y, 0, 4)
		}
		p.m.blank(p.m.cy, 0, p.m.cx+1)
	case 3:
		p.feeds("\x1b[S")
		p.m.scroll(0, 1, -1)
	}
	p.check("cells")
}
