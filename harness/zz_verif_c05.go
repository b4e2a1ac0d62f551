package termemu

// C05: erase and delete controls.

// eraseOp feeds one erase or delete control and applies it to the model.
func (p *vPair) eraseOp(tag string, digits int) {
	m := p.m
	op := vChoose(tag+".op", 10)
	switch {
	case op < 8: // J, 0J, 1J, 2J, K, 0K, 1K, 2K
		fin := byte('J')
		if op >= 4 {
			fin = 'K'
		}
		seq := []byte("\x1b[")
		k := op % 4
		if k > 0 {
			k--
			seq = append(seq, byte('0'+k))
		}
		p.feed(append(seq, fin))
		y1, y2 := m.cy, m.cy
		switch k {
		case 0:
			m.blank(m.cy, m.cx, m.w)
			y1, y2 = m.cy+1, m.h
		case 1:
			m.blank(m.cy, 0, m.cx+1)
			y1, y2 = 0, m.cy
		case 2:
			m.blank(m.cy, 0, m.w)
			y1, y2 = 0, m.h
		}
		if fin == 'J' {
			for y := y1; y < y2; y++ {
				m.blank(y, 0, m.w)
			}
			if k == 2 { // homing the cursor is accepted
				c := p.t.screen().CursorPos()
				if c.X == 0 && c.Y == 0 {
					m.cx, m.cy = 0, 0
				}
			}
		}
	default: // ECH, DCH
		b, v := vNum(tag+".n", vChoose(tag+".digits", digits+1))
		if len(b) == 0 {
			v = 1
		}
		vAssume(v > 0)
		n := vConc(vIte(v > m.w, m.w, v))
		p.feed(append(append([]byte("\x1b["), b...), "XP"[op-8]))
		v = n
		if op == 8 {
			m.blank(m.cy, m.cx, min(m.cx+v, m.w))
		} else {
			m.del(m.cy, m.cx, v)
		}
	}
}

func c05Size(tag string) (int, int) {
	if vChoose(tag, 2) == 1 {
		return 2, 5
	}
	return 6, 3
}

// One erase or delete from every cursor position of a wide and a tall screen whose
// rows are made of several runs and, in two layouts, of double-width characters.
func vh_C05_step() {
	w, h := c05Size("size")
	mode := vModes()
	p := vFilled(w, h, mode, vChoose("grid", 2) == 1, false, vChoose("layout", 4))
	if vChoose("reg", 2) == 1 {
		p.margins(1, 1)
	}
	p.setWrap(vChoose("wrap", 2) == 1)
	p.sgr("3;42")
	p.chooseCursor("cur")
	p.eraseOp("a", 2)
	p.check("erase")
	vObsScreen(p.t.screen())
}

// A count of zero is the same as one or nothing.
func vh_C05_zero() {
	p := vFilled(4, 2, TextReadModeRune, vChoose("grid", 2) == 1, false, vChoose("layout", 3))
	p.sgr("3;42")
	p.chooseCursor("cur")
	m := p.m
	if vChoose("op", 2) == 0 {
		p.feeds("\x1b[0X")
		if vScreenEq(p.t.screen(), m) {
			vStop()
		}
		m.blank(m.cy, m.cx, m.cx+1)
	} else {
		p.feeds("\x1b[0P")
		if vScreenEq(p.t.screen(), m) {
			vStop()
		}
		m.del(m.cy, m.cx, 1)
	}
	p.check("erase with a zero count")
}

// Two erases, with text in between, on both buffers.
func vh_C05_seq() {
	lay := 1 + 2*vChoose("layout", 2)
	p := vFilled(4, 3, TextReadModeGrapheme, vChoose("grid", 2) == 1, lay == 3 && vChoose("alt", 2) == 1, lay)
	p.cup(vChoose("x1", 4), 1)
	p.sgr("41")
	p.eraseOp("a", 1)
	p.sgr("32")
	switch vChoose("mid", 3) {
	case 1:
		p.cup(1, 1)
		p.text("\u4e00")
	case 2:
		p.text("z")
	}
	p.sgr("7")
	x2 := vChoose("x2", 4)
	p.cup(x2, 1)
	p.eraseOp("b", 1)
	p.check("erase")
	vObsScreen(p.t.screen())
	p.probeAt((x2 + 1) % 4)
}

// Erases of rows that something else has just moved, filled or created.
func vh_C05_after() {
	p := vFilled(4, 3, TextReadModeGrapheme, vChoose("grid", 2) == 1, false, 1+2*vChoose("layout", 2))
	p.sgr("41")
	pre := vChoose("pre", 9)
	switch pre {
	case 0, 1, 2, 3:
		p.cup(1, vChoose("at", 2))
		p.scrollBy(pre, []byte("2"), 2)
	case 4:
		p.feeds("\x1b[2J")
		for y := 0; y < p.m.h; y++ {
			p.m.blank(y, 0, p.m.w)
		}
	case 5:
		p.cup(0, 2)
		p.doOp(4)
		p.doOp(4)
	case 6:
		p.cup(0, 0)
		p.doOp(6)
		p.doOp(6)
	case 7:
		p.resize(5, 5)
	case 8:
		p.resize(2, 2)
		p.resize(4, 3)
	}
	p.sgr("32")
	y := vChoose("y", 3)
	p.cup(y+1, y)
	p.eraseOp("a", 0)
	p.check("erase of a moved row")
	p.sgr("35")
	p.cup(0, vChoose("y2", 3))
	if vChoose("b", 2) == 0 {
		p.doOp(16)
	} else {
		p.doOp(22)
	}
	p.check("erase of moved rows")
}

func vt_C05_deep() {
	w, h := c05Size("size")
	p := vFilled(w, h, vModes(), vChoose("grid", 2) == 1, false, vChoose("layout", 4))
	p.sgr("41")
	p.cup(vChoose("x1", w), 1)
	p.eraseOp("a", 2)
	p.sgr("32")
	p.cup(vChoose("x2", w), vChoose("y2", h))
	p.eraseOp("b", 2)
	p.sgr("9")
	p.cup(vChoose("x3", w), 1)
	p.eraseOp("c", 1)
	p.check("erase")
}

// Character counts from one digit up to beyond 64 bits.
func vh_C05_big() {
	p := vFilled(5, 2, TextReadModeRune, vChoose("grid", 2) == 1, false, vChoose("layout", 3))
	p.sgr("3;42")
	p.cup(vChoose("x", 5), 0)
	m := p.m
	n := []int{3, 5, 9, 10, 11, 19, 20, 21, 40}[vChoose("len", 9)]
	seq := []byte("\x1b[")
	seq = append(seq, vU8("d0", '1', '9'))
	for i := 1; i < n; i++ {
		if n <= 5 || i == n-1 {
			seq = append(seq, vU8("d", '0', '9'))
		} else {
			seq = append(seq, '7')
		}
	}
	if vChoose("op", 2) == 0 {
		p.feed(append(seq, 'X'))
		m.blank(m.cy, m.cx, m.w)
	} else {
		p.feed(append(seq, 'P'))
		m.del(m.cy, m.cx, m.w)
	}
	p.check("erase with a large count")
}
