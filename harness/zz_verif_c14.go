package termemu

// C14: queries and their replies.

const (
	vDA1 = "\x1b[?1;2c"
	vDA2 = "\x1b[>1;4402;0c"
)

// query appends a query to the input and the reply to it to want.
func (p *vPair) query(q int, kb *vKb, want []byte) []byte {
	switch q {
	case 0:
		p.feeds("\x1b[c")
		return append(want, vDA1...)
	case 1:
		p.feeds("\x1b[0c")
		return append(want, vDA1...)
	case 2:
		p.feeds("\x1b[>c")
		return append(want, vDA2...)
	case 3:
		p.feeds("\x1b[>0c")
		return append(want, vDA2...)
	case 4:
		p.feeds("\x1b[5n")
		return append(want, "\x1b[0n"...)
	case 5:
		p.feeds("\x1b[6n")
		want = append(want, 27, '[')
		want = append(want, vItoa(vConc(p.m.cy)+1)...)
		want = append(want, ';')
		want = append(want, vItoa(vConc(p.m.cx)+1)...)
		return append(want, 'R')
	case 6:
		p.feeds("\x1b[?u")
		want = append(want, 27, '[', '?')
		want = append(want, vItoa(vConc(kb.flags))...)
		return append(want, 'u')
	}
	return want
}

func (p *vPair) replied(want []byte, what string) {
	if vNative() && string(p.be.out) != string(want) {
		println("got ", vEsc(p.be.out), " want ", vEsc(want))
	}
	vAssert(len(p.be.out) == len(want), what+": replies")
	vAssert(string(p.be.out) == string(want), what+": replies")
}

func vEsc(b []byte) string {
	s := ""
	for _, c := range b {
		if c < 32 || c > 126 {
			s += "\\x" + string("0123456789abcdef"[c>>4]) + string("0123456789abcdef"[c&15])
		} else {
			s += string(rune(c))
		}
	}
	return s
}

// Four items, queries and changes of what they report, in one read.
func vh_C14_seq() {
	grid := vChoose("grid", 2) == 1
	mode := TextReadModeRune
	if grid {
		mode = TextReadModeGrapheme
	}
	p := vFilled(4, 3, mode, grid, false, 0)
	var kb [2]vKb
	p.setWrap(vChoose("wrap", 2) == 1)
	var want []byte
	p.holding = true
	for _, tag := range []string{"a", "b", "c", "d"} {
		k := &kb[vBtoI(p.alt)]
		// changes and queries alternate
		op := 0
		switch tag {
		case "a":
			op = 7 + vChoose(tag, 7)
		case "b":
			op = vChoose(tag, 7)
		case "c":
			op = []int{2, 5, 6, 10, 11, 13, 7}[vChoose(tag, 7)]
		case "d":
			op = []int{0, 5, 6}[vChoose(tag, 3)]
		}
		switch op {
		case 7:
			p.doOp([]int{0, 1, 2, 4, 6, 11, 15, 17, 22, 33, 34}[vChoose(tag+".op", 11)])
		case 8:
			x, y := vConc(vInt(tag+".x", 0, 3)), vConc(vInt(tag+".y", 0, 2))
			p.cup(x, y)
		case 9:
			f := vConc(vInt(tag+".f", 1, 31))
			b := append([]byte("\x1b[>"), vItoa(f)...)
			p.feed(append(b, 'u'))
			k.stack = append(k.stack, k.flags)
			k.flags = f
		case 10:
			p.feeds("\x1b[<u")
			if n := len(k.stack); n > 0 {
				k.flags, k.stack = k.stack[n-1], k.stack[:n-1]
			} else {
				k.flags = 0
			}
		case 11:
			p.toAlt(!p.alt)
		case 12:
			p.feed(append(append([]byte("\x1b]2;"), vU8(tag+".t", 0x20, 0x7e)), "[6n\a"...))
		case 13:
			p.feeds("\x1b[=3;2u")
			k.flags |= 3
		default:
			want = p.query(op, k, want)
		}
	}
	p.holding = false
	p.vEnv.feed(p.held)
	p.replied(want, "queries")
}

// Replies arrive whole when the backend takes a few bytes at a time.
func vh_C14_partial() {
	p := vNewPair(12, 12, TextReadModeRune, vChoose("grid", 2) == 1)
	p.cup(10, 9)
	var kb vKb
	if vChoose("kb", 2) == 1 {
		p.feeds("\x1b[>21u")
		kb.flags = 21
	}
	k := 1 + vChoose("k", 4)
	p.be.wr = func(b []byte) (int, error) {
		n := min(k, len(b))
		p.be.out = append(p.be.out, b[:n]...)
		return n, nil
	}
	want := p.query(vChoose("a", 7), &kb, nil)
	if vChoose("two", 2) == 1 {
		p.feeds("x")
		p.m.setCur(p.m.cx+1, p.m.cy)
		want = p.query(vChoose("b", 7), &kb, want)
	}
	p.replied(want, "reply in pieces")
}

// The cursor report on a big screen, and at the edges.
func vh_C14_cursor() {
	grid := vChoose("grid", 2) == 1
	p := vNewPair(120, 3, TextReadModeRune, grid)
	x := vConc(vInt("x", 0, 119))
	y := vConc(vInt("y", 0, 2))
	p.setWrap(vChoose("wrap", 2) == 1)
	if vChoose("alt", 2) == 1 {
		p.toAlt(true)
	}
	switch vChoose("region", 3) {
	case 1:
		p.margins(1, 1)
	case 2:
		p.margins(1, 2)
	}
	p.cup(x, y)
	if vChoose("text", 2) == 1 {
		p.text(vASCII("ch"))
	}
	var kb vKb
	p.replied(p.query(5, &kb, nil), "cursor report")
}

// Status reports and device attributes by number.
func vh_C14_num() {
	p := vNewPair(3, 2, TextReadModeRune, vChoose("grid", 2) == 1)
	p.cup(2, 1)
	b, v := vNum("n", 1+vChoose("d", 4))
	var want string
	if vChoose("kind", 2) == 0 {
		p.feed(append(append([]byte("\x1b["), b...), 'n'))
		if v == 5 {
			want = "\x1b[0n"
		} else if v == 6 {
			want = "\x1b[2;3R"
		}
	} else {
		p.feed(append(append([]byte("\x1b["), b...), 'c'))
		if v == 0 {
			want = vDA1
		}
	}
	p.replied([]byte(want), "numbered query")
	// again, in front of another one
	p.be.out = nil
	p.feeds("\x1b[5n")
	p.replied([]byte("\x1b[0n"), "status report")
}

// Nothing else causes a reply.
func vh_C14_silent() {
	kind := vChoose("kind", vNKinds)
	p := vStart(3, kind)
	it := vGenItem("i", kind)
	switch kind {
	case vKCSI0, vKCSI1, vKCSI2:
		f := it.b[len(it.b)-1]
		vAssume(vAnd(f != 'c', f != 'n'))
	case vKKitty:
		if string(it.b) == "\x1b[?u" {
			vStop()
		}
	case vKOdd:
		if vNot(string(it.b) == "\x1b[?6n") && (it.b[len(it.b)-1] == 'n' || it.b[len(it.b)-1] == 'c') {
			vStop()
		}
	}
	p.feed(it.b)
	p.feeds("z\n")
	vAssert(len(p.be.out) == 0, "bytes written without a query")
}

// Every final with a private marker.
func vh_C14_private() {
	p := vFilled(3, 2, TextReadModeRune, vChoose("grid", 2) == 1, false, 0)
	m := vSelect("m", "?", ">", "<", "=", "!", "$", " ")
	b := append([]byte("\x1b["+m), vSelect("n", "", "0", "1", "5", "6", "1;6", "15")...)
	f := vFinal("f")
	vAssume(vNot(vAnd(f == 'u', m == "?")))
	vAssume(vNot(vAnd(f == 'c', m == ">")))
	p.feed(append(b, f))
	p.feeds("z")
	vAssert(len(p.be.out) == 0, "bytes written without a query")
}

func vt_C14_raw() {
	p := vNewPair(2, 2, vModes(), vChoose("grid", 2) == 1)
	b := []byte{27}
	for i := 0; i < 3; i++ {
		b = append(b, vU8("b"+string(rune('0'+i)), 0x20, 0x7e))
	}
	// not a query
	q := vAnd(b[1] == '[', vOr(b[2] == 'c', vOr(vOr(b[3] == 'c', b[3] == 'n'), vOr(b[3] == 'u', b[2] == 'n'))))
	vAssume(vNot(q))
	p.feed(b)
	vAssert(len(p.be.out) == 0, "bytes written without a query")
}
