package termemu

// C18: resize.

var vSizes = [...]Pos{{1, 1}, {2, 2}, {1, 5}, {5, 1}, {3, 4}, {4, 3}, {6, 6}, {7, 2}}

func (p *vPair) afterResize(what string) {
	s := p.t.screen()
	x, y := p.t.Size()
	vAssert(x == p.m.w && y == p.m.h, what+": Size")
	vAssert(p.t.mainScreen.Size() == s.Size(), what+": both screens resized")
	p.check(what)
	vAssert(vScreenEq(p.t.mainScreen, p.ms[0]), what+": main screen")
	vAssert(vScreenEq(p.t.altScreen, p.ms[1]), what+": alternate screen")
}

// A resize at any moment, and the state it leaves behind, observed by one more
// operation on the active screen and by the saved cursor of the other.
func vh_C18_step() {
	grid := vChoose("grid", 2) == 1
	alt := vChoose("alt", 2) == 1
	p := vFilled(4, 3, TextReadModeGrapheme, grid, alt, vChoose("layout", 3)+1)
	p.setWrap(true)
	top := vChoose("top", 3)
	bot := top + vChoose("bot", 3-top)
	p.margins(top, bot)
	p.cup(3, 2-vChoose("cy", 2))
	if vChoose("save", 2) == 1 {
		p.feeds("\x1b[s")
		p.m.sx, p.m.sy = p.m.cx, p.m.cy
		p.cup(0, 1)
	}
	z := vSizes[vChoose("size", len(vSizes))]
	p.resize(z.X, z.Y)
	vAssert(len(p.be.sizes) == 1 && p.be.sizes[0] == z, "size forwarded to the backend")
	p.afterResize("resized")
	p.pickOp("op", []int{0, 1, 2, 4, 6, 11, 15, 16, 19, 22, 23, 24, 25, 26, 34})
	p.check("operation after a resize")
	p.toAlt(!alt)
	p.feeds("\x1b[u")
	p.m.cx, p.m.cy = p.m.sx, p.m.sy
	p.text(vASCII("n"))
	p.check("other screen after a resize")
}

// Every pair of small sizes; rows with wide characters cut at every column.
func vh_C18_size() {
	grid := vChoose("grid", 2) == 1
	w, h := 1+vChoose("w", 5), 1+vChoose("h", 3)
	p := vFilled(w, h, vModes(), grid, false, vChoose("layout", 4))
	x, y := vConc(vInt("x", 0, w-1)), vConc(vInt("y", 0, h-1))
	p.cup(x, y)
	p.sgr("1;44")
	w2, h2 := vConc(vInt("w2", 1, 6)), vConc(vInt("h2", 1, 4))
	p.resize(w2, h2)
	p.afterResize("resized")
	p.sgr("45")
	p.text(vASCII("ch"))
	p.check("text after a resize")
	p.probeAt((x + 2*y + 1) % w2)
}

// Two resizes with an operation in between: nothing of the old size remains.
func vh_C18_twice() {
	grid := vChoose("grid", 2) == 1
	p := vFilled(4, 3, TextReadModeGrapheme, grid, false, 1)
	if vChoose("reg", 2) == 1 {
		p.margins(1, 2)
	}
	p.cup(3, 2)
	p.feeds("\x1b[s")
	p.m.sx, p.m.sy = 3, 2
	z := vSizes[vChoose("s1", len(vSizes))]
	p.resize(z.X, z.Y)
	p.pickOp("op", []int{0, 1, 4, 15, 16, 25, 29, 33, 34})
	z = vSizes[vChoose("s2", len(vSizes))]
	p.resize(z.X, z.Y)
	p.afterResize("resized twice")
	p.pickOp("op2", []int{1, 2, 4, 5, 6, 18, 22, 23, 24, 25, 34})
	p.check("operation after two resizes")
	p.probeAt((z.Y + z.X/2) % z.X)
}

// Bigger steps with every operation before and after.
func vt_C18_deep() {
	grid := vChoose("grid", 2) == 1
	p := vFilled(4, 3, vModes(), grid, vChoose("alt", 2) == 1, 3)
	p.setWrap(true)
	p.cup(2, 1)
	p.genOp("before")
	z := vSizes[vChoose("size", len(vSizes))]
	p.resize(z.X, z.Y)
	p.afterResize("resized")
	p.genOp("after")
	p.check("operation after a resize")
}
