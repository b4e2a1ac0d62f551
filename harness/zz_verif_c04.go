package termemu

// C04: cursor motion.

// vMoveOp feeds one motion control with symbolic parameters and applies it to the model.
// Numbers have up to so many digits; with none, they are one of a few.
func (p *vPair) moveOp(tag string, digits int) {
	m := p.m
	num := func(t string) ([]byte, int) {
		if digits == 0 {
			s := []string{"", "2", "3", "9"}[vChoose(t, 4)]
			if s == "" {
				return nil, 0
			}
			return []byte(s), int(s[0] - '0')
		}
		return vNum(t, vChoose(t+".digits", digits+1))
	}
	op := vChoose(tag+".op", 17)
	if op < 9 { // CSI with one parameter or two
		if op < 6 {
			b, v := num(tag + ".n")
			if len(b) == 0 {
				v = 1
			}
			if op < 4 {
				vAssume(v > 0) // an explicit 0 is 0 or 1 depending on the reader
			}
			p.feed(append(append([]byte("\x1b["), b...), "ABCDGd"[op]))
			switch op {
			case 0:
				m.setCur(m.cx, m.cy-v)
			case 1:
				m.setCur(m.cx, m.cy+v)
			case 2:
				m.setCur(m.cx+v, m.cy)
			case 3:
				m.setCur(m.cx-v, m.cy)
			case 4:
				m.setCur(v-1, m.cy)
			case 5:
				m.setCur(m.cx, v-1)
			}
			return
		}
		// CUP / HVP with 0, 1 or 2 parameters
		r, rv := num(tag + ".row")
		seq := append([]byte("\x1b["), r...)
		if len(r) == 0 {
			rv = 1
		}
		cv := 1
		if op != 6 {
			c, v := num(tag + ".col")
			seq = append(append(seq, ';'), c...)
			if len(c) > 0 {
				cv = v
			}
		}
		if op == 8 {
			seq = append(seq, 'f')
		} else {
			seq = append(seq, 'H')
		}
		p.feed(seq)
		m.setCur(cv-1, rv-1)
		return
	}
	switch op {
	case 9: // BS
		p.feeds("\b")
		m.setCur(m.cx-1, m.cy)
	case 10: // HT
		p.feeds("\t")
		m.setCur((m.cx/8+1)*8, m.cy)
	case 11: // CR
		p.feeds("\r")
		m.setCur(0, m.cy)
	case 12: // LF
		p.feeds("\n")
		m.setCur(0, m.cy)
		m.cy = vConc(m.cy)
		m.index()
	case 13: // FF
		p.feeds("\f")
		m.cy = vConc(m.cy)
		m.index()
	case 14: // IND
		p.feeds("\x1bD")
		m.cy = vConc(m.cy)
		m.index()
	case 15: // RI
		p.feeds("\x1bM")
		m.cy = vConc(m.cy)
		m.rindex()
	case 16: // save, move elsewhere, restore
		p.feeds("\x1b[s")
		m.sx, m.sy = m.cx, m.cy
		p.feeds("\x1b[3;2H")
		p.feeds("\x1b[u")
	}
}

// One motion control from every cursor position, scroll region and autowrap
// setting of a small screen with distinct content.
func vh_C04_step() {
	w, h := 4, 4
	p := vFilled(w, h, TextReadModeRune, vChoose("grid", 2) == 1, false, vChoose("layout", 2))
	p.chooseMargins("reg")
	p.setWrap(vChoose("wrap", 2) == 1)
	p.sgr("45")
	p.chooseCursor("cur")
	p.moveOp("a", 2)
	p.check("motion")
}

// The same with a symbolic position, big numbers and a wide screen (tab stops).
func vh_C04_wide() {
	w := 19
	p := vNewPair(w, 2, TextReadModeGrapheme, vChoose("grid", 2) == 1)
	p.setWrap(vChoose("wrap", 2) == 1)
	p.text("a", "b", "c")
	x, y := vChoose("x", w), vChoose("y", 2)
	b := []byte{27, '[', byte('1' + y), ';', byte('0' + (x+1)/10), byte('0' + (x+1)%10), 'H'}
	p.feed(b)
	p.m.cx, p.m.cy = x, y
	p.moveOp("a", 4)
	p.check("motion")
}

// Two motion controls in a row; save and restore may be apart.
func vh_C04_seq() {
	p := vFilled(5, 4, TextReadModeRune, vChoose("grid", 2) == 1, false, 0)
	top := vChoose("top", 2)
	p.margins(top, 2)
	p.cup(2, 1+vChoose("y", 3))
	save := vChoose("save", 2) == 1
	if save {
		p.feeds("\x1b[s")
		p.m.sx, p.m.sy = p.m.cx, p.m.cy
	}
	p.moveOp("a", 0)
	if save {
		p.feeds("\x1b[u")
		p.m.cx, p.m.cy = p.m.sx, p.m.sy
	} else {
		p.moveOp("b", 1)
	}
	p.check("motion")
	p.probeAt(p.m.cx)
}

func vt_C04_seq3() {
	p := vFilled(3, 4, TextReadModeGrapheme, vChoose("grid", 2) == 1, false, 0)
	p.chooseMargins("reg")
	p.chooseCursor("cur")
	p.moveOp("a", 0)
	p.moveOp("b", 0)
	p.moveOp("c", 1)
	p.check("motion")
}

// Numbers of three digits up to beyond 64 bits reach the edge.
func vh_C04_num() {
	p := vFilled(5, 4, TextReadModeRune, vChoose("grid", 2) == 1, false, 0)
	if vChoose("reg", 2) == 1 {
		p.margins(1, 2)
	}
	p.cup(vChoose("x", 2)*2, vChoose("y", 2)*2)
	m := p.m
	const big = 1 << 20
	n := vBigNum("n")
	seq := append([]byte("\x1b["), n...)
	switch op := vChoose("op", 8); op {
	case 6:
		p.feed(append(append(append([]byte("\x1b["), "2;"...), n...), 'H'))
		m.setCur(big, 1)
	case 7:
		p.feed(append(seq, ";3f"...))
		m.setCur(2, big)
	default:
		p.feed(append(seq, "ABCDGd"[op]))
		switch op {
		case 0:
			m.setCur(m.cx, m.cy-big)
		case 1:
			m.setCur(m.cx, m.cy+big)
		case 2:
			m.setCur(m.cx+big, m.cy)
		case 3:
			m.setCur(m.cx-big, m.cy)
		case 4:
			m.setCur(big, m.cy)
		case 5:
			m.setCur(m.cx, big)
		}
	}
	p.check("motion with a large number")
}
