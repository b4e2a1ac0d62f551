package termemu

// C06: scrolling.

func vBigNum(tag string) []byte {
	n := []int{3, 5, 7, 10, 19, 20, 40}[vChoose(tag+".len", 7)]
	seq := []byte{vU8(tag+".d0", '1', '9')}
	for i := 1; i < n; i++ {
		if n <= 5 || i == 1 || i == n-1 {
			seq = append(seq, vU8(tag+".d", '0', '9'))
		} else {
			seq = append(seq, '8')
		}
	}
	return seq
}

// scrollOp feeds SU, SD, IL or DL with a symbolic count and applies it to the model.
func (p *vPair) scrollOp(tag string, digits int) {
	op := vChoose(tag+".op", 4)
	b, v := vNum(tag+".n", vChoose(tag+".digits", digits+1))
	if len(b) == 0 {
		v = 1
	}
	vAssume(v > 0)
	p.scrollBy(op, b, v)
}

func (p *vPair) scrollBy(op int, b []byte, v int) {
	m := p.m
	n := vConc(vIte(v > m.h, m.h, v))
	p.feed(append(append([]byte("\x1b["), b...), "STLM"[op]))
	switch op {
	case 0:
		m.scroll(m.top, m.bot, -n)
	case 1:
		m.scroll(m.top, m.bot, n)
	default:
		if m.cy >= m.top && m.cy <= m.bot {
			if op == 2 {
				m.scroll(m.cy, m.bot, n)
			} else {
				m.scroll(m.cy, m.bot, -n)
			}
		}
		// IL and DL may move the cursor to the first column
		if c := p.t.screen().CursorPos(); c.X == 0 {
			m.cx = 0
		}
	}
}

// One scroll from every cursor row, scroll region and count.
func vh_C06_step() {
	w, h := 3, 5
	p := vFilled(w, h, vModes(), vChoose("grid", 2) == 1, vChoose("alt", 2) == 1, vChoose("layout", 2)*3)
	p.chooseMargins("reg")
	p.sgr("4;45")
	y := vChoose("y", h)
	p.cup(1, y)
	p.scrollOp("a", 2)
	p.check("scroll")
	vObsScreen(p.t.screen())
	p.probeAt(y % w)
}

// Counts of three digits up to beyond 64 bits clear the region.
func vh_C06_big() {
	p := vFilled(2, 4, TextReadModeRune, vChoose("grid", 2) == 1, false, 0)
	p.chooseMargins("reg")
	p.sgr("45")
	p.cup(1, vChoose("y", 4))
	p.scrollBy(vChoose("op", 4), vBigNum("n"), 1000)
	p.check("scroll")
}

// A zero count scrolls by nothing or by one.
func vh_C06_zero() {
	p := vFilled(2, 3, TextReadModeRune, vChoose("grid", 2) == 1, false, 0)
	p.margins(0, 1)
	p.sgr("45")
	p.cup(0, vChoose("y", 3))
	op := vChoose("op", 4)
	m := p.m
	p.feed([]byte{27, '[', '0', "STLM"[op]})
	if vScreenEq(p.t.screen(), m) {
		p.check("scroll by nothing")
		vStop()
	}
	in := op < 2 || m.cy <= m.bot
	top := m.top
	if op >= 2 {
		top = m.cy
	}
	if in {
		m.scroll(top, m.bot, []int{-1, 1, 1, -1}[op])
	}
	p.check("scroll by one")
}

// DECSTBM with symbolic parameters of zero to three digits (or very many): valid
// requests are taken (clamped to the screen), inverted ones are ignored.
func vh_C06_stbm() {
	h := 4
	p := vFilled(2, h, TextReadModeRune, vChoose("grid", 2) == 1, false, 0)
	p.margins(1, 2)
	p.sgr("45")
	m := p.m
	form := vChoose("form", 4)
	seq := []byte("\x1b[")
	t, b := 1, h
	switch form {
	case 1: // CSI t r
		d, v := vNum("top", 1+vChoose("td", 2))
		seq = append(seq, d...)
		t = v
	case 2, 3: // CSI t ; b r
		d, v := vNum("top", vChoose("td", 4))
		seq = append(append(seq, d...), ';')
		if len(d) > 0 {
			t = v
		}
		if form == 2 {
			d, v := vNum("bot", vChoose("bd", 4))
			seq = append(seq, d...)
			if len(d) > 0 {
				b = v
			}
		} else {
			seq = append(seq, vBigNum("big")...)
			b = 1000
		}
	}
	vConc(vIte(t > h, h+1, t))
	vConc(vIte(b > h, h+1, b))
	p.feed(append(seq, 'r'))
	t = vIte(t == 0, 1, t)
	b = vIte(b == 0, h, b)
	s := p.t.screen()
	if t > b {
		vAssert(vMarginsEq(s, m), "inverted scroll region ignored")
	} else if t > h {
		// completely below the screen: ignored or clamped
		vAssert(vOr(vMarginsEq(s, m), vAnd(s.TopMargin() == h-1, s.BottomMargin() == h-1)), "scroll region below the screen")
		m.top, m.bot = s.TopMargin(), s.BottomMargin()
	} else {
		m.top = t - 1
		m.bot = vIte(b > h, h, b) - 1
		vAssert(vMarginsEq(s, m), "scroll region set")
	}
	m.top, m.bot = vConc(m.top), vConc(m.bot)
	p.cup(0, 0)
	vAssert(vScreenEq(s, m), "content unchanged")
	p.scrollBy(vChoose("dir", 2), []byte("1"), 1)
	p.check("scroll in the region")
}

// anyScroll is one operation that may scroll: explicit ones and line feeds, index,
// reverse index, form feed and text at the right edge.
func (p *vPair) anyScroll(tag string) {
	m := p.m
	switch op := vChoose(tag+".any", 9); op {
	case 0, 1, 2, 3:
		n := []int{1, 2, 9}[vChoose(tag+".n", 3)]
		p.scrollBy(op, vItoa(n), n)
	case 4:
		p.feeds("\n")
		m.cx = 0
		m.index()
	case 5:
		p.feeds("\x1bD")
		m.index()
	case 6:
		p.feeds("\x1bM")
		m.rindex()
	case 7:
		p.feeds("\f")
		m.index()
	case 8:
		p.text("y", "z")
	}
}

// Two scrolling operations with a change of region and cursor in between.
func vh_C06_seq() {
	p := vFilled(2, 4, TextReadModeRune, vChoose("grid", 2) == 1, false, 0)
	top := vChoose("top", 3)
	bot := top + vChoose("bot", min(2, 4-top))
	p.margins(top, bot)
	p.setWrap(true)
	p.sgr("45")
	y := vChoose("y", 4)
	p.cup(0, y)
	p.anyScroll("a")
	if vChoose("rem", 2) == 1 {
		p.margins(0, 3)
		p.cup(1, 3)
	}
	p.sgr("3")
	p.anyScroll("b")
	p.check("scroll")
	vObsScreen(p.t.screen())
	p.probeAt(y % 2)
}

func vt_C06_seq3() {
	p := vFilled(3, 4, vModes(), vChoose("grid", 2) == 1, false, vChoose("layout", 2))
	p.chooseMargins("reg")
	p.setWrap(true)
	p.sgr("45")
	p.cup(1, vChoose("y", 4))
	p.anyScroll("a")
	p.sgr("7")
	p.anyScroll("b")
	p.sgr("3")
	p.anyScroll("c")
	p.check("scroll")
}
