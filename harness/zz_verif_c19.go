package termemu

// C19: Kitty keyboard flags.  The model is vKb; flags may be symbolic.

func (k *vKb) push(f int) {
	k.stack = append(k.stack, k.flags)
	if len(k.stack) > 32 {
		k.stack = append([]int(nil), k.stack[1:]...)
	}
	k.flags = f
}

func (k *vKb) pop(n int) {
	for ; n > 0; n-- {
		l := len(k.stack)
		if l == 0 {
			k.flags = 0
			return
		}
		k.flags, k.stack = k.stack[l-1], k.stack[:l-1]
	}
}

// vFlagNum is a symbolic flag set and its digits.
func vFlagNum(name string, digits int) ([]byte, int) {
	hi := byte(31)
	if digits == 1 {
		hi = 9
	}
	v := int(vU8(name, 0, hi))
	return vDigits(v, digits), v
}

// flagOp performs one operation; small means less variation.
func (p *vPair) flagOp(tag string, kb *[2]vKb, small bool) {
	k := &kb[vBtoI(p.alt)]
	n := 8
	if small {
		n = 6
	}
	switch op := vChoose(tag, n); op {
	case 0, 1, 2, 6:
		b, f := vFlagNum(tag+".f", 2)
		s := append([]byte("\x1b[="), b...)
		if op != 6 {
			s = append(s, ';', '1'+byte(op))
		}
		p.feed(append(s, 'u'))
		switch op {
		case 0, 6:
			k.flags = f
		case 1:
			k.flags |= f
		case 2:
			k.flags &^= f
		}
	case 3:
		b, f := vFlagNum(tag+".f", 2)
		p.feed(append(append([]byte("\x1b[>"), b...), 'u'))
		k.push(f)
	case 4:
		c := 1 + vChoose(tag+".n", 3)
		p.feed(append(append([]byte("\x1b[<"), vItoa(c)...), 'u'))
		k.pop(c)
	case 5:
		p.toAlt(!p.alt)
	case 7:
		if vChoose(tag+".d", 2) == 0 {
			p.feeds("\x1b[<u")
			k.pop(1)
		} else {
			p.feeds("\x1b[>u")
			k.push(0)
		}
	}
}

// drain compares the current flags with the model's, then pops the whole stack.
func (p *vPair) drain(k *vKb, what string) {
	for {
		vAssert(p.t.keyboardFlags() == k.flags, what+": keyboard flags")
		if len(k.stack) == 0 {
			break
		}
		p.feeds("\x1b[<u")
		k.pop(1)
	}
	p.feeds("\x1b[<u")
	vAssert(p.t.keyboardFlags() == 0, what+": flags after the last pop")
}

// Four operations on both screens.
func vh_C19_seq() {
	p := vNewPair(2, 1, TextReadModeRune, false)
	var kb [2]vKb
	for i, tag := range []string{"a", "b", "c", "d"} {
		p.flagOp(tag, &kb, i > 1)
		vAssert(p.t.keyboardFlags() == kb[vBtoI(p.alt)].flags, "keyboard flags")
	}
	p.drain(&kb[vBtoI(p.alt)], "active screen")
	p.toAlt(!p.alt)
	p.drain(&kb[vBtoI(p.alt)], "other screen")
}

// The stack is bounded and the oldest entries go first.
func vh_C19_deep() {
	p := vNewPair(2, 1, TextReadModeRune, false)
	if vChoose("alt", 2) == 1 {
		p.toAlt(true)
	}
	var k vKb
	n := 30 + vChoose("n", 6)
	b, f := vFlagNum("f0", 2)
	p.feed(append(append([]byte("\x1b[="), b...), 'u'))
	k.flags = f
	for i := 0; i < n; i++ {
		b, f := vFlagNum("f", 2)
		p.feed(append(append([]byte("\x1b[>"), b...), 'u'))
		k.push(f)
	}
	vAssert(p.t.keyboardFlags() == k.flags, "flags after pushes")
	c := vConc(vInt("c", 1, 36))
	p.feed(append(append([]byte("\x1b[<"), vItoa(c)...), 'u'))
	k.pop(c)
	if vChoose("more", 2) == 1 {
		p.toAlt(!p.alt)
		p.feeds("\x1b[=9u\x1b[>1u\x1b[<2u")
		p.toAlt(!p.alt)
		p.feeds("\x1b[>7u")
		k.push(7)
	}
	p.drain(&k, "deep stack")
}

// Big pop counts.
func vh_C19_pop() {
	p := vNewPair(2, 1, TextReadModeRune, false)
	var k vKb
	n := vChoose("n", 4)
	for i := 0; i < n; i++ {
		b, f := vFlagNum("f", 2)
		p.feed(append(append([]byte("\x1b[>"), b...), 'u'))
		k.push(f)
	}
	b, v := vNum("c", 1+vChoose("d", 4))
	vAssume(v > 0)
	p.feed(append(append([]byte("\x1b[<"), b...), 'u'))
	k.pop(vConc(vIte(v > 5, 5, v)))
	p.drain(&k, "pop")
}

// The query reports the current flags of the active screen.
func vh_C19_query() {
	p := vNewPair(2, 1, TextReadModeRune, false)
	var kb [2]vKb
	if vChoose("alt", 2) == 1 {
		p.toAlt(true)
	}
	k := &kb[vBtoI(p.alt)]
	f := vConc(vInt("f", 0, 31))
	g := vConc(vInt("g", 0, 31))
	p.feed(append(append([]byte("\x1b[="), vItoa(f)...), ";1u"...))
	k.flags = f
	switch vChoose("op", 4) {
	case 0:
		p.feed(append(append([]byte("\x1b[>"), vItoa(g)...), 'u'))
		k.push(g)
	case 1:
		p.feed(append(append([]byte("\x1b[="), vItoa(g)...), ";2u"...))
		k.flags |= g
	case 2:
		p.feed(append(append([]byte("\x1b[="), vItoa(g)...), ";3u"...))
		k.flags &^= g
	case 3:
		p.toAlt(!p.alt)
		k = &kb[vBtoI(p.alt)]
	}
	p.replied(p.query(6, k, nil), "flags query")
}

func vt_C19_seq5() {
	p := vNewPair(2, 1, TextReadModeRune, false)
	var kb [2]vKb
	for i, tag := range []string{"a", "b", "c", "d", "e"} {
		p.flagOp(tag, &kb, i > 2)
	}
	p.drain(&kb[vBtoI(p.alt)], "active screen")
	p.toAlt(!p.alt)
	p.drain(&kb[vBtoI(p.alt)], "other screen")
}
