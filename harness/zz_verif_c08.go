package termemu

// C08: the same stream in one read and in several.

// vSegs is a stream and the places where it may be cut.
type vSegs struct {
	b   []byte
	cut []bool // cut[i]: between b[i-1] and b[i]
	end bool   // what follows may join what is there
}

func (g *vSegs) add(it vItem, mode TextReadMode) {
	for i, c := range it.b {
		ok := len(g.b) > 0
		if mode == TextReadModeGrapheme {
			if i > 0 && it.uni {
				ok = false
			}
			if i == 0 && (it.frag || g.end) {
				ok = false
			}
		}
		g.b = append(g.b, c)
		g.cut = append(g.cut, ok)
	}
	g.end = it.join
}

func (g *vSegs) cuts() []int {
	var l []int
	for i, ok := range g.cut {
		if ok {
			l = append(l, i)
		}
	}
	return l
}

// split feeds the stream to the first terminal in one read and to the second in
// several, cut at the given places.
func (p *vPair) split(g *vSegs, cuts []int) {
	p.vEnv.feed(append([]byte(nil), g.b...))
	at := 0
	for _, c := range cuts {
		if p.mode == TextReadModeGrapheme {
			vAssume(vNot(vAnd(g.b[c-1] == '\r', g.b[c] == '\n')))
		}
		p.twin.be.in = append(p.twin.be.in, append([]byte(nil), g.b[at:c]...))
		at = c
	}
	p.twin.be.in = append(p.twin.be.in, append([]byte(nil), g.b[at:]...))
	p.twin.run()
	p.same("other reads")
}

// chooseCuts chooses one cut, two cuts, or all of them.
func (g *vSegs) chooseCuts(two bool) []int {
	l := g.cuts()
	if len(l) == 0 {
		vStop()
	}
	i := vChoose("cut", len(l)+1)
	if i == len(l) {
		return l
	}
	if two && i+1 < len(l) {
		j := i + vChoose("cut2", len(l)-i)
		if j > i {
			return []int{l[i], l[j]}
		}
	}
	return []int{l[i]}
}

// One item of raw input between two characters.
func vh_C08_item() {
	lay := vChoose("layout", 2) * 3
	l := vKindList(TextReadModeGrapheme)
	kind := l[vChoose("kind", len(l))]
	mode := TextReadModeGrapheme
	if kind != vKComb && kind != vKRI && kind != vKFrag && lay == 0 {
		mode = TextReadModeRune
	}
	grid := vChoose("grid", 2) == 1
	p := vTwins(4, 2, mode, grid, grid, false, lay)
	p.setWrap(true)
	p.cup(3-lay/3, 1)
	p.fe.ev, p.twin.fe.ev = nil, nil
	g := &vSegs{}
	g.add(vItem{b: []byte{vU8("p", 'a', 'z')}}, mode)
	switch kind {
	case vKCSI1, vKCSI2:
		b := []byte("\x1b[" + vSelect("par", "12", "2;31", "?25", ">1;2", "0038;5;9;1"))
		g.add(vItem{b: append(b, vFinal("f"))}, mode)
	default:
		g.add(vGenItem("i", kind), mode)
	}
	g.add(vItem{b: []byte{'z'}}, mode)
	p.split(g, g.chooseCuts(kind == vKOSC || kind == vKDCS || kind == vKSGR || kind == vKBad))
}

// Three items of text and short controls.
func vh_C08_text() {
	mode := vModes()
	grid := vChoose("grid", 2) == 1
	p := vTwins(4, 2, mode, grid, grid, false, -1)
	p.setWrap(vChoose("wrap", 2) == 1)
	p.cup(1, 1)
	p.fe.ev, p.twin.fe.ev = nil, nil
	kinds := []int{vKASCII, vKNarrow, vKWide, vKC0, vKESC, vKBad}
	if mode == TextReadModeGrapheme {
		kinds = []int{vKASCII, vKWide, vKEmoji, vKComb, vKFrag, vKRI, vKC0, vKESC}
	}
	g := &vSegs{}
	for _, t := range []string{"a", "b", "c"} {
		n := len(kinds)
		if t == "c" {
			n = 5
		}
		k := kinds[vChoose(t, n)]
		if k == vKC0 {
			g.add(vItem{b: []byte(vSelect(t+".c", "\b", "\r", "\n", "\a"))}, mode)
		} else if k == vKESC {
			g.add(vItem{b: []byte("\x1b[2C")}, mode)
		} else {
			g.add(vGenItem(t, k), mode)
		}
	}
	p.split(g, g.chooseCuts(false))
}

// Arbitrary bytes of UTF-8, valid or not, in rune mode.
func vh_C08_bytes() {
	n := 2 + vChoose("n", 2)
	grid := n == 2 && vChoose("grid", 2) == 1
	p := vTwins(4, 2, TextReadModeRune, grid, grid, false, -1)
	p.setWrap(true)
	p.cup(2, 1)
	p.fe.ev, p.twin.fe.ev = nil, nil
	g := &vSegs{}
	for i := 0; i < n; i++ {
		g.add(vItem{b: []byte{vU8("b"+string(rune('0'+i)), 0x80, 0xff)}}, p.mode)
	}
	g.add(vItem{b: []byte("z")}, p.mode)
	p.split(g, g.chooseCuts(n == 2))
}

// Arbitrary bytes after ESC or CSI.
func vh_C08_esc() {
	mode := vModes()
	grid := vChoose("grid", 2) == 1
	p := vTwins(4, 2, mode, grid, grid, false, 0)
	p.cup(1, 1)
	p.fe.ev, p.twin.fe.ev = nil, nil
	g := &vSegs{}
	if vChoose("csi", 2) == 1 {
		g.add(vItem{b: []byte("\x1b[")}, mode)
	} else {
		g.add(vItem{b: []byte("\x1b")}, mode)
	}
	for i := 0; i < 2; i++ {
		g.add(vItem{b: []byte{vU8("b"+string(rune('0'+i)), 0x20, 0x7e)}}, mode)
	}
	g.add(vItem{b: []byte("mz\x1b\\")}, mode)
	p.split(g, g.chooseCuts(false))
}

// Longer streams: every way of cutting a stream of a few items.
func vt_C08_all() {
	mode := vModes()
	grid := vChoose("grid", 2) == 1
	p := vTwins(4, 2, mode, grid, grid, false, 3)
	p.setWrap(true)
	p.cup(3, 1)
	p.fe.ev, p.twin.fe.ev = nil, nil
	g := &vSegs{}
	l := vKindList(mode)
	g.add(vGenItem("a", l[vChoose("ka", len(l))]), mode)
	k := []int{vKASCII, vKWide, vKC0, vKSGR, vKBad}
	g.add(vGenItem("b", k[vChoose("kb", len(k))]), mode)
	var cuts []int
	for _, c := range g.cuts() {
		if c > 5 || vChoose("c", 2) == 1 {
			cuts = append(cuts, c)
		}
	}
	p.split(g, cuts)
}
