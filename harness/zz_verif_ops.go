package termemu

// genOp is one operation out of a fixed list covering every kind of output, fed to
// the terminal and applied to the model.
const vNOps = 36

func (p *vPair) genOp(tag string) int {
	op := vChoose(tag, vNOps)
	p.doOp(op)
	return op
}

// pickOp chooses from a list.
func (p *vPair) pickOp(tag string, list []int) int {
	op := list[vChoose(tag, len(list))]
	p.doOp(op)
	return op
}

// vASCII is a symbolic printable ASCII character.
func vASCII(tag string) string { return string([]byte{vU8(tag, 0x20, 0x7e)}) }

func (p *vPair) syncCursor() {
	c := p.t.screen().CursorPos()
	p.m.cx, p.m.cy = c.X, c.Y
}

func (p *vPair) doOp(op int) {
	m := p.m
	switch op {
	case 0:
		p.text(vASCII("ch"))
	case 1:
		p.text("\u4e01")
	case 2:
		p.text(vASCII("ch"), "c", vASCII("ch"))
	case 3:
		if p.mode == TextReadModeGrapheme {
			p.text("e\u0301")
		} else {
			p.text("\u00e9")
		}
	case 4:
		p.feeds("\n")
		m.cx = 0
		m.index()
	case 5:
		p.feeds("\x1bD")
		m.index()
	case 6:
		p.feeds("\x1bM")
		m.rindex()
	case 7:
		p.feeds("\r")
		m.setCur(0, m.cy)
	case 8:
		p.feeds("\b")
		m.setCur(m.cx-1, m.cy)
	case 9:
		p.feeds("\t")
		m.setCur((m.cx/8+1)*8, m.cy)
	case 10:
		p.feeds("\x1b[A")
		m.setCur(m.cx, m.cy-1)
	case 11:
		p.feeds("\x1b[2B")
		m.setCur(m.cx, m.cy+2)
	case 12:
		p.feeds("\x1b[2C")
		m.setCur(m.cx+2, m.cy)
	case 13:
		p.feeds("\x1b[D")
		m.setCur(m.cx-1, m.cy)
	case 14:
		p.feeds("\x1b[2;2H")
		m.setCur(1, 1)
	case 15:
		p.feeds("\x1b[99;99f")
		m.setCur(98, 98)
	case 16:
		p.feeds("\x1b[K")
		m.blank(m.cy, m.cx, m.w)
	case 17:
		p.feeds("\x1b[1K")
		m.blank(m.cy, 0, m.cx+1)
	case 18:
		p.feeds("\x1b[J")
		m.blank(m.cy, m.cx, m.w)
		for y := m.cy + 1; y < m.h; y++ {
			m.blank(y, 0, m.w)
		}
	case 19:
		p.feeds("\x1b[1J")
		m.blank(m.cy, 0, m.cx+1)
		for y := 0; y < m.cy; y++ {
			m.blank(y, 0, m.w)
		}
	case 20:
		p.feeds("\x1b[2J")
		for y := 0; y < m.h; y++ {
			m.blank(y, 0, m.w)
		}
		p.syncCursor()
	case 21:
		p.feeds("\x1b[2X")
		m.blank(m.cy, m.cx, min(m.cx+2, m.w))
	case 22:
		p.feeds("\x1b[P")
		m.del(m.cy, m.cx, 1)
	case 23, 24, 25, 26:
		i := []int{2, 3, 0, 1}[op-23]
		n := 1
		if op == 26 {
			n = 2
		}
		p.scrollBy(i, vItoa(n), n)
		p.syncCursor()
	case 27:
		if m.h > 1 {
			p.feed(append(append([]byte("\x1b[2;"), vItoa(max(2, m.h-1))...), 'r'))
			m.top, m.bot = 1, max(1, m.h-2)
			p.syncCursor()
		}
	case 28:
		p.feeds("\x1b[r")
		m.top, m.bot = 0, m.h-1
		p.syncCursor()
	case 29:
		p.sgr("31;1")
	case 30:
		p.sgr("0")
	case 31:
		p.setWrap(true)
	case 32:
		p.setWrap(false)
	case 33:
		p.feeds("\x1b[s")
		m.sx, m.sy = m.cx, m.cy
	case 34:
		p.feeds("\x1b[u")
		m.cx, m.cy = m.sx, m.sy
	case 35:
		p.feeds("\f")
		m.index()
	}
}
