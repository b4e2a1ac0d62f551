package main

import (
	"sync"
	"unicode"
	"unicode/utf8"
	_ "unsafe"

	"github.com/rivo/uniseg"
)

// Static Unicode tables, regenerated from the installed uniseg / unicode packages on every run.

//go:linkname usPropertyGraphemes github.com/rivo/uniseg.propertyGraphemes
func usPropertyGraphemes(r rune) int

//go:linkname usRuneWidth github.com/rivo/uniseg.runeWidth
func usRuneWidth(r rune, prop int) int

const (
	usPrAny = 0
)

type rangeFn struct{ start, val []uint64 }

func buildRange(f func(r rune) uint64) rangeFn {
	var rf rangeFn
	for r := rune(0); r <= utf8.MaxRune; r++ {
		v := f(r)
		if len(rf.val) == 0 || rf.val[len(rf.val)-1] != v {
			rf.start = append(rf.start, uint64(r))
			rf.val = append(rf.val, v)
		}
	}
	return rf
}

var (
	uniOnce   sync.Once
	widthFn   rangeFn // uniseg.StringWidth of a single rune
	classFn   rangeFn
	classRep  []rune
	uniTabsMu sync.Mutex
	uniTabs   = map[string]rangeFn{}
)

type uclass struct {
	prop, w0, wExt int
	vs             int
}

func uniInit() {
	uniOnce.Do(func() {
		var extp int
		extp = usPropertyGraphemes(0x2764) // HEAVY BLACK HEART: Extended_Pictographic
		cls := map[uclass]int{}
		widthFn = buildRange(func(r rune) uint64 {
			if r >= 0xD800 && r <= 0xDFFF {
				r = 0xFFFD
			}
			return uint64(usRuneWidth(r, usPropertyGraphemes(r)))
		})
		classFn = buildRange(func(r rune) uint64 {
			rr := r
			if r >= 0xD800 && r <= 0xDFFF {
				rr = 0xFFFD
			}
			k := uclass{prop: usPropertyGraphemes(rr), w0: usRuneWidth(rr, usPrAny), wExt: usRuneWidth(rr, extp)}
			if rr == 0xFE0E {
				k.vs = 1
			} else if rr == 0xFE0F {
				k.vs = 2
			}
			i, ok := cls[k]
			if !ok {
				i = len(classRep)
				cls[k] = i
				classRep = append(classRep, rr)
			}
			return uint64(i)
		})
		// self-check: the single-rune width must be what the public API reports
		for i := 0; i < len(widthFn.start); i++ {
			r := rune(widthFn.start[i])
			if r >= 0xD800 && r <= 0xDFFF {
				continue
			}
			if uniseg.StringWidth(string(r)) != int(widthFn.val[i]) {
				panic(engErr("uniseg width self-check"))
			}
		}
	})
}

func uniTab(name string, f func(r rune) uint64) rangeFn {
	uniTabsMu.Lock()
	defer uniTabsMu.Unlock()
	if t, ok := uniTabs[name]; ok {
		return t
	}
	t := buildRange(f)
	uniTabs[name] = t
	return t
}

func (m *Machine) tabAt(rf rangeFn, outW uint8, r *Term) *Term {
	return m.ctx.TableAt(m.ctx.MakeTable(32, outW, rf.start, rf.val), r)
}

func isTab(name string) rangeFn {
	t := unicode.Categories[name]
	if t == nil {
		t = unicode.Scripts[name]
	}
	if t == nil {
		t = unicode.Properties[name]
	}
	if t == nil {
		panic(pathAbort{abEngine, "unicode table " + name})
	}
	return uniTab("is:"+name, func(r rune) uint64 {
		if unicode.Is(t, r) {
			return 1
		}
		return 0
	})
}

// stepSym models uniseg.Step on symbolic bytes.
func (m *Machine) stepSym(b []Value, state int) (clen, boundaries, newState int) {
	uniInit()
	conc := true
	buf := make([]byte, 0, len(b))
	for i := range b {
		if b[i].P != nil {
			conc = false
			break
		}
		buf = append(buf, byte(b[i].N))
	}
	if conc {
		c, _, bd, st := uniseg.Step(buf, state)
		return len(c), bd, st
	}
	var rep []byte
	var sizes []int // byte size of each rune in b
	var reps []int
	off := 0
	for {
		r, n := m.decodeRune(b[off:])
		var rr rune
		if t, ok := r.P.(*Term); ok {
			cl := m.concInt(m.fromTerm(m.tabAt(classFn, 8, t)))
			rr = classRep[cl]
		} else {
			rr = rune(r.N)
		}
		eb := []byte(string(rr))
		rep = append(rep, eb...)
		reps = append(reps, len(eb))
		sizes = append(sizes, n)
		off += n
		atEnd := off >= len(b)
		in := rep
		if len(sizes) == 1 && !atEnd {
			continue
		}
		c, _, bd, st := uniseg.Step(in, state)
		if len(c) < len(rep) || atEnd {
			// translate the cluster length
			cl, k := 0, 0
			for i := range reps {
				if k >= len(c) {
					break
				}
				k += reps[i]
				cl += sizes[i]
			}
			return cl, bd, st
		}
	}
}
