package termemu

// C13: mouse reports.  The oracle decodes what was written.

type vMouse struct {
	be   *vBackend
	t    *terminal
	mode int // 0 off, 1 press, 2 press and release, 3 button motion, 4 any motion
	enc  int // 0 X10, 1 UTF-8, 2 SGR
}

var vMouseModes = [...]string{"", "9", "1000", "1002", "1003"}
var vMouseEncs = [...]string{"", "1005", "1006"}

func vNewMouse(mode, enc int) *vMouse {
	p := vNewPair(3, 2, TextReadModeRune, false)
	if mode > 0 {
		p.feeds("\x1b[?" + vMouseModes[mode] + "h")
	}
	if enc > 0 {
		p.feeds("\x1b[?" + vMouseEncs[enc] + "h")
	}
	p.be.out = nil
	return &vMouse{be: p.be, t: p.t, mode: mode, enc: enc}
}

// wants says whether the tracking mode reports the event.
func (m *vMouse) wants(btn byte, press bool, mods byte) bool {
	motion := mods&32 != 0
	switch m.mode {
	case 0:
		return false
	case 1:
		return vAnd(press, vNot(motion))
	case 2:
		return vNot(motion)
	case 3:
		return vNot(vAnd(motion, btn == 3))
	}
	return true
}

// decoded is what a report says.
type vReport struct {
	btn, x, y int
	release   bool // SGR only
	n         int  // bytes
}

func vDecodeMouse(b []byte, enc int) (r vReport, ok bool) {
	if enc == 2 {
		if len(b) < 3 || b[0] != 27 || b[1] != '[' || b[2] != '<' {
			return r, false
		}
		i := 3
		var v [3]int
		for k := range v {
			d := 0
			for ; i < len(b) && b[i] >= '0' && b[i] <= '9'; i++ {
				v[k] = v[k]*10 + int(b[i]-'0')
				d++
				if d > 1 && b[i-d+1] == '0' {
					return r, false
				}
			}
			if d == 0 || i >= len(b) {
				return r, false
			}
			if k < 2 {
				if b[i] != ';' {
					return r, false
				}
				i++
			}
		}
		if b[i] != 'M' && b[i] != 'm' {
			return r, false
		}
		return vReport{v[0], v[1], v[2], b[i] == 'm', i + 1}, true
	}
	if len(b) < 6 || b[0] != 27 || b[1] != '[' || b[2] != 'M' {
		return r, false
	}
	var v [3]int
	i := 3
	for k := range v {
		if i >= len(b) {
			return r, false
		}
		c := int(b[i])
		i++
		if enc == 1 && c >= 0x80 {
			// two bytes at most
			if c < 0xc2 || c > 0xdf || i >= len(b) || b[i]&0xc0 != 0x80 {
				return r, false
			}
			c = c&0x1f<<6 | int(b[i]&0x3f)
			i++
		}
		v[k] = c - 32
	}
	return vReport{v[0], v[1], v[2], false, i}, true
}

// event sends an event and checks the report.
func (m *vMouse) event(btn byte, press bool, mods byte, x, y int, what string) {
	m.be.out = nil
	err := m.t.SendMouseRaw(MouseBtn(btn), press, MouseFlag(mods), x, y)
	vAssert(err == nil, what+": error")
	vObsS("report", string(m.be.out))
	if !m.wants(btn, press, mods) {
		vAssert(len(m.be.out) == 0, what+": an event the mode excludes was reported")
		return
	}
	r, ok := vDecodeMouse(m.be.out, m.enc)
	if vNative() && !ok {
		println("report:", vEsc(m.be.out))
	}
	vAssert(ok, what+": no well-formed report")
	vAssert(r.n == len(m.be.out), what+": more than one report")
	wx, wy := x, y
	want := int(btn | mods)
	if m.enc == 0 {
		wx, wy = vClamp(x, 1, 223), vClamp(y, 1, 223)
	}
	if m.enc < 2 {
		want = vIte(press, want, want|3)
		vAssert(r.btn == want, what+": button")
	} else {
		vAssert(r.btn == want, what+": button")
		vAssert(r.release == vNot(press), what+": press or release")
	}
	vAssert(r.x == wx, what+": column")
	vAssert(r.y == wy, what+": row")
}

// vChooseEvent picks a button, press or release, and the modifiers.
func vChooseEvent() (btn byte, press bool, mods byte) {
	btn = vU8("btn", 0, 3)
	mods = vU8("mods", 0, 31) << 2
	press = vChoose("press", 2) == 1
	return
}

func vh_C13_event() {
	m := vNewMouse(vChoose("mode", 5), vChoose("enc", 3))
	btn, press, mods := vChooseEvent()
	c := vChoose("pos", 3)
	m.event(btn, press, mods, []int{1, 95, 200}[c], []int{1, 222, 96}[c], "event")
}

// Every column and row up to the limits of the encoding.
func vh_C13_coord() {
	enc := vChoose("enc", 3)
	m := vNewMouse(1+vChoose("mode", 4), enc)
	press := vChoose("press", 2) == 1
	if !press && m.mode == 1 {
		vStop()
	}
	var v int
	switch blk := vChoose("block", 10); {
	case blk < 8:
		v = blk*256 + int(vU8("lo", 0, 255))
	case blk == 8:
		v = 2048 + 997*int(vU8("lo", 0, 63))
	default:
		v = -int(vU8("lo", 0, 99)) // cut to 1
	}
	if enc == 1 {
		vAssume(vAnd(v >= 1, v <= 2015))
	} else if enc == 2 {
		vAssume(v >= 1)
	}
	o := []int{1, 95, 96, 127, 128, 223}[vChoose("other", 6)]
	btn := byte(vChoose("btn", 3))
	if vChoose("swap", 2) == 0 {
		m.event(btn, press, 4, v, o, "coordinates")
	} else {
		m.event(btn, press, 0, o, v, "coordinates")
	}
}

// Coordinates UTF-8 cannot express in two bytes, and others: one report or none,
// and no panic.
func vh_C13_far() {
	m := vNewMouse(1+vChoose("mode", 4), 1)
	v := []int{2016, 2047, 2048, 55296 - 32, 65535, 1 << 20, 1 << 30}[vChoose("v", 7)]
	x, y := v, 5
	if vChoose("swap", 2) == 1 {
		x, y = 5, v
	}
	err := m.t.SendMouseRaw(MBtn1, true, 0, x, y)
	vAssert(err == nil, "error")
	n := len(m.be.out)
	vAssert(n == 0 || n >= 6 && string(m.be.out[:4]) == "\x1b[M ", "report beyond the limit of the encoding")
}

// What the application selected: histories of modes set and reset.
func vh_C13_select() {
	m := vNewMouse(0, 0)
	p := &vEnv{t: m.t, be: m.be, gr: NewGraphemeReaderWithMode(m.be, TextReadModeRune)}
	for _, tag := range []string{"a", "b", "c"} {
		switch op := vChoose(tag, 9); {
		case op < 4: // choose a tracking mode
			p.feeds("\x1b[?" + vMouseModes[1+op] + "h")
			m.mode = 1 + op
		case op == 4:
			if m.mode > 0 {
				p.feeds("\x1b[?" + vMouseModes[m.mode] + "l")
				m.mode = 0
			}
		case op < 7:
			p.feeds("\x1b[?" + vMouseEncs[op-4] + "h")
			m.enc = op - 4
		case op == 7:
			if m.enc > 0 {
				p.feeds("\x1b[?" + vMouseEncs[m.enc] + "l")
				m.enc = 0
			}
		case op == 8:
			p.feeds("\x1b[?1049h\x1b[31mx\x1b[?25l")
		}
	}
	btn, press, mods := vChooseEvent()
	m.event(btn, press, mods, 7, 150, "selected mode")
}

// A sequence of events: each stands alone.
func vh_C13_twice() {
	m := vNewMouse(1+vChoose("mode", 4), vChoose("enc", 3))
	evs := []struct {
		btn  byte
		pr   bool
		mods byte
	}{{0, true, 0}, {2, false, 16}, {1, true, 32}, {3, true, 32}, {1, true, 64}, {0, true, 28}}
	a, b := evs[vChoose("a", 6)], evs[vChoose("b", 6)]
	m.event(a.btn, a.pr, a.mods, 3, 4, "first event")
	m.event(b.btn, b.pr, b.mods, 300, 100, "second event")
	if vChoose("c", 2) == 1 {
		m.event(a.btn, a.pr, a.mods, 3, 4, "third event")
	}
}

// The backend takes fewer bytes than offered, or fails.
func vh_C13_fault() {
	enc := vChoose("enc", 3)
	m := vNewMouse(2+vChoose("mode", 3), enc)
	fail := vChoose("fail", 6) // index of the write that fails; 5: none
	part := int(vU8("part", 0, 3))
	var short [5]int
	short[0] = 1 + vChoose("s0", 4)
	short[1] = vChoose("s1", 3) // 0: takes nothing and reports no error
	n := 0
	stuck := false
	var got []byte
	m.be.wr = func(b []byte) (int, error) {
		i := n
		n++
		k := len(b)
		if i == fail {
			k = vConc(vIte(part > k, k, part))
			got = append(got, b[:k]...)
			return k, vErrIn
		}
		if i < 2 {
			k = min(k, short[i])
		}
		if k == 0 && len(b) > 0 {
			stuck = true
		}
		vAssert(n < 100, "the write never ends")
		got = append(got, b[:k]...)
		return k, nil
	}
	err := m.t.SendMouseRaw(MBtn2, true, MShift, 100, 120)
	failed := n > fail
	if failed {
		vAssert(err != nil, "the failed write is not reported")
	}
	if err == nil {
		r, ok := vDecodeMouse(got, enc)
		vAssert(ok && r.n == len(got), "no error but not one whole report")
		vAssert(r.btn == 5 && r.x == 100 && r.y == 120, "report in pieces")
	} else {
		vAssert(failed || stuck, "error without a failed write")
	}
}

func vt_C13_event2() {
	m := vNewMouse(vChoose("mode", 5), vChoose("enc", 3))
	btn, press, mods := vChooseEvent()
	x, y := 1+int(vU8("x", 0, 254)), 1+int(vU8("y", 0, 254))
	if m.enc == 2 {
		y = vConc(y%16 + 1)
	}
	m.event(btn, press, mods, x, y, "event")
}
