package termemu

// Screens with hundreds of columns or rows: coordinates, counts and runs that need
// more than two digits or more than a byte.

var vBigPos = [...]int{0, 9, 98, 99, 100, 127, 128, 198, 199, 254, 255, 256, 258, 259}

// vBigPair is a screen of 260x3 or 3x260 with content.
func vBigPair(tall, grid bool, mode TextReadMode) *vPair { return vBigTwin(tall, grid, mode, false) }

func vBigTwin(tall, grid bool, mode TextReadMode, twin bool) *vPair {
	w, h := 260, 3
	if tall {
		w, h = 3, 260
	}
	k := vKey("big", w, h, mode, grid)
	if twin {
		k += "t"
	}
	p := vMemoPair(k, func() *vPair {
		p := vNewPairRaw(w, h, mode, grid)
		if twin {
			p.twin = vNewRaw(w, h, mode, !grid)
		}
		p.fillBig(tall)
		return p
	})
	if twin {
		p.fe.rec, p.twin.fe.rec = true, true
		p.fe.ev, p.twin.fe.ev = nil, nil
	}
	return p
}

func (p *vPair) fillBig(tall bool) {
	if tall {
		for y := 0; y < p.m.h; y++ {
			p.cup(0, y)
			if y%64 == 0 {
				p.sgr(vFillStyles[y/64])
			}
			p.text(string(rune('A'+y%26)), string(rune('a'+y/26)))
		}
		p.cup(0, 0)
		return
	}
	var s []string
	for x := 0; x < p.m.w; x++ {
		s = append(s, string(rune('a'+x%26)))
	}
	p.text(s...)
	for i := 0; i < 5; i++ {
		p.cup(i*52, 1)
		p.sgr(vFillStyles[i])
		s = nil
		for x := 0; x < 52; x++ {
			switch {
			case i%2 == 1 || x < 40 || x == 51:
				s = append(s, string(rune('A'+(x+i)%26)))
			case x < 50 && x%2 == 0:
				s = append(s, string(rune(0x4e00+x+i)))
			case x == 50:
				s = append(s, "z")
			}
		}
		p.text(s...)
	}
	p.cup(0, 0)
}

// bigCursor puts the cursor somewhere interesting.
func (p *vPair) bigCursor(tag string) {
	if p.m.h > 3 {
		p.cup(1, vBigPos[vChoose(tag, len(vBigPos))])
	} else {
		p.cup(vBigPos[vChoose(tag, len(vBigPos))], vChoose(tag+".y", 2))
	}
}

// bigNum is a number of two or three digits.
func bigNum(tag string) ([]byte, int) {
	n := vBigPos[1+vChoose(tag, len(vBigPos)-1)] + 1
	return vItoa(n), n
}

func vh_C03_big() {
	p := vBigPair(vChoose("tall", 2) == 1, vChoose("grid", 2) == 1, vModes())
	p.setWrap(vChoose("wrap", 2) == 1)
	p.sgr("4;32")
	p.bigCursor("cur")
	if vChoose("wide", 2) == 1 {
		p.text("\u4e01", vASCII("c"))
	} else {
		p.text(vASCII("c"), "d", "\u4e02")
	}
	p.check("text")
}

// A run that is longer than the row, and than several rows.
func vh_C03_long() {
	grid := vChoose("grid", 2) == 1
	w := []int{3, 7, 260}[vChoose("w", 3)]
	p := vNewPair(w, 3, vModes(), grid)
	p.setWrap(vChoose("wrap", 2) == 1)
	p.cup(vChoose("x", 3), vChoose("y", 2))
	var s []string
	n := []int{20, 100, 300}[vChoose("n", 3)]
	wide := vChoose("wide", 3)
	for i := 0; i < n; i++ {
		if wide == 1 && i%5 == 3 || wide == 2 && i%128 == 127 {
			s = append(s, string(rune(0x4e00+i)))
		} else {
			s = append(s, string(rune('!'+i%90)))
		}
	}
	p.text(append(s, vASCII("c"))...)
	p.check("long text")
}

func vh_C04_big() {
	p := vBigPair(vChoose("tall", 2) == 1, vChoose("grid", 2) == 1, TextReadModeRune)
	p.setWrap(true)
	if p.m.h > 3 && vChoose("reg", 2) == 1 {
		p.margins(99, 255)
	}
	op := vChoose("op", 9)
	if op == 8 {
		c := vBigPos[1+3*vChoose("cur", 4)]
		p.cup(c, c)
		p.moveOp("a", 3)
		p.check("motion")
		return
	}
	p.bigCursor("cur")
	m := p.m
	b, n := bigNum("n")
	if op < 6 {
		p.feed(append(append([]byte("\x1b["), b...), "ABCDGd"[op]))
	}
	switch op {
	case 0:
		m.setCur(m.cx, m.cy-n)
	case 1:
		m.setCur(m.cx, m.cy+n)
	case 2:
		m.setCur(m.cx+n, m.cy)
	case 3:
		m.setCur(m.cx-n, m.cy)
	case 4:
		m.setCur(n-1, m.cy)
	case 5:
		m.setCur(m.cx, n-1)
	case 6:
		p.cup(n-1, n-1)
	case 7:
		x, y := m.cx, m.cy
		p.feeds("\x1b[s")
		p.cup(n, n)
		p.feeds("\x1b[u")
		m.setCur(x, y)
	}
	p.check("motion")
}

func vh_C05_wide() {
	p := vBigPair(vChoose("tall", 2) == 1, vChoose("grid", 2) == 1, vModes())
	p.sgr("3;42")
	p.bigCursor("cur")
	if vChoose("num", 2) == 0 {
		p.eraseOp("a", 0)
	} else {
		m := p.m
		b, n := bigNum("n")
		if vChoose("op", 2) == 0 {
			p.feed(append(append([]byte("\x1b["), b...), 'X'))
			m.blank(m.cy, m.cx, min(m.cx+n, m.w))
		} else {
			p.feed(append(append([]byte("\x1b["), b...), 'P'))
			m.del(m.cy, m.cx, min(n, m.w))
		}
	}
	p.check("erase")
}

func vh_C06_tall() {
	p := vBigPair(true, vChoose("grid", 2) == 1, TextReadModeRune)
	switch vChoose("reg", 4) {
	case 1:
		p.margins(0, 254)
	case 2:
		p.margins(100, 199)
	case 3:
		p.margins(128, 259)
	}
	p.sgr("4;45")
	p.bigCursor("cur")
	if vChoose("lf", 2) == 1 {
		p.pickOp("op", []int{4, 5, 6, 35})
	} else {
		b, n := bigNum("n")
		p.scrollBy(vChoose("op", 4), b, n)
	}
	p.check("scroll")
}

func vh_C14_tall() {
	p := vBigPair(vChoose("tall", 2) == 1, vChoose("grid", 2) == 1, TextReadModeRune)
	p.bigCursor("cur")
	var kb vKb
	p.replied(p.query(5, &kb, nil), "cursor report")
}

func vh_C18_big() {
	p := vFilled(4, 3, TextReadModeGrapheme, vChoose("grid", 2) == 1, false, vChoose("layout", 4))
	p.cup(3, 2)
	z := []Pos{{260, 2}, {2, 260}, {256, 1}, {1, 257}, {129, 3}, {4, 128}, {100, 100}}[vChoose("size", 7)]
	p.resize(z.X, z.Y)
	p.afterResize("resized")
	p.cup(z.X-1-vChoose("x", 2), z.Y-1)
	p.text("x", "y")
	p.check("text after a resize")
	p.resize(4, 3)
	p.afterResize("resized back")
}

// Big screens that become a little smaller or bigger.
func vh_C18_clip() {
	p := vBigPair(vChoose("tall", 2) == 1, vChoose("grid", 2) == 1, TextReadModeGrapheme)
	p.bigCursor("cur")
	p.feeds("\x1b[s")
	p.m.sx, p.m.sy = p.m.cx, p.m.cy
	n := []int{1, 99, 100, 128, 200, 201, 252, 253, 254, 255, 256, 259, 261, 300}[vChoose("n", 14)]
	if p.m.h > 3 {
		p.resize(3, n)
	} else {
		p.resize(n, 3)
	}
	p.afterResize("resized")
	p.feeds("\x1b[u")
	p.m.cx, p.m.cy = p.m.sx, p.m.sy
	p.text(vASCII("n"))
	p.check("text after a resize")
}

func vh_C20_big() {
	p := vBigTwin(vChoose("tall", 2) == 1, false, TextReadModeGrapheme, true)
	p.setWrap(true)
	p.bigCursor("cur")
	p.sgr("7;44")
	switch op := vChoose("op", 8); op {
	case 0:
		p.text(vASCII("c"), "\u4e00")
	case 1, 2, 3, 4, 5:
		b, n := bigNum("n")
		if op == 5 {
			p.feed(vCup(n-1, n-1))
		} else {
			if n > 1 && p.m.h > 3 && op == 3 {
				p.feeds("\x1b[101;200r\x1b[110;1H")
			}
			p.feed(append(append([]byte("\x1b["), b...), "XPSM"[op-1]))
		}
	case 6:
		p.feeds("\x1b[1J")
	case 7:
		p.feeds("\x1b[K\n\x1bM")
	}
	p.same("big screen")
}

func vh_C02_big() {
	p := vBigPair(vChoose("tall", 2) == 1, vChoose("grid", 2) == 1, TextReadModeGrapheme)
	p.setWrap(true)
	p.watchCursor()
	c := vBigPos[1+2*vChoose("cur", 7)]
	if p.m.h > 3 {
		p.cup(1, c)
	} else {
		p.cup(c, vChoose("cur.y", 2))
	}
	b := vItoa([]int{12, 100, 129, 256, 300}[vChoose("n", 5)])
	switch op := vChoose("op", 12); op {
	case 0:
		p.feeds("\u4e00" + vASCII("c"))
	case 11:
		n := vBigPos[vChoose("size", len(vBigPos))] + 1
		if p.m.h > 3 {
			_ = p.t.Resize(3, n)
		} else {
			_ = p.t.Resize(n, 3)
		}
	default:
		p.feed(append(append([]byte("\x1b["), b...), "ABCDGdXPSL"[op-1]))
	}
	p.invariant("big screen")
}

func vh_C10_big() {
	p := vBigPair(vChoose("tall", 2) == 1, vChoose("grid", 2) == 1, TextReadModeGrapheme)
	p.setWrap(true)
	p.bigCursor("cur")
	d := vNewShadow(p.vEnv)
	p.sgr("7;44")
	switch op := vChoose("op", 9); op {
	case 0:
		p.feeds(vASCII("c") + "\u4e00")
	case 1, 2, 3, 4, 5:
		b, n := bigNum("n")
		if op == 5 {
			p.feed(vCup(n-1, n-1))
		} else {
			p.feed(append(append([]byte("\x1b["), b...), "XPSL"[op-1]))
		}
	case 6:
		p.feeds("\x1b[1J")
	case 7:
		p.feeds("\x1b[K\n\x1bM")
	case 8:
		p.feeds("\x1b[2J")
	}
	d.check("big screen")
}
