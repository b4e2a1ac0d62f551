package main

import (
	"fmt"
	"go/types"
	"sort"
	"unsafe"
)

// vMemo(key, f) runs f once per worker and afterwards instantiates a copy of the
// heap it produced.  It applies only when f is concrete: no branch on a symbolic
// value, no symbolic variable, no live lock or goroutine; otherwise f just runs.

type vdesc struct {
	k             byte // 0 as is, p pointer, a aggregate, s slice, m map, c chan, i interface, f func
	off, len, cap int
	t             types.Type
	in            []vdesc
	v             Value
}

type mfix struct {
	off int
	d   vdesc
}

type tmap struct {
	idx  map[string]int
	ents []mapEnt
	k, v []vdesc
	n    int
}

type tmpl struct {
	data  []Value
	fix   []mfix
	maps  []tmap
	chans []ChanV
	res   vdesc
	gl    map[int]int
	side  map[int]any
	steps int64
}

type tooHard string

const valSize = unsafe.Sizeof(Value{})

type blk struct {
	lo, hi uintptr
	off    int
	a      []Value // covers [lo,hi)
}

type capturer struct {
	m     *Machine
	seen  map[any]bool
	raw   []blk
	blks  []blk
	maps  []*MapV
	mapI  map[*MapV]int
	chans []*ChanV
	chI   map[*ChanV]int
	ext   *capturer
}

func addr(p *Value) uintptr { return uintptr(unsafe.Pointer(p)) }

func (c *capturer) add(a []Value) bool {
	if len(a) == 0 {
		return false
	}
	lo := addr(&a[0])
	hi := lo + uintptr(len(a))*valSize
	k := [2]uintptr{lo, hi}
	if c.seen[k] {
		return false
	}
	c.seen[k] = true
	c.raw = append(c.raw, blk{lo: lo, hi: hi, a: a})
	return true
}

func (c *capturer) external(p *Value) bool {
	return c.ext != nil && c.ext.find(p) != nil
}

// walk registers everything reachable from v.
func (c *capturer) walk(v Value) {
	switch p := v.P.(type) {
	case nil, string, *SStr, opaque, float64:
	case *Term:
		panic(tooHard("symbolic value"))
	case *Value:
		if c.external(p) {
			return
		}
		if c.seen[p] {
			return
		}
		c.seen[p] = true
		c.add(unsafe.Slice(p, 1))
		c.walk(*p)
	case *Agg:
		c.walkAll(p.f)
	case *SliceV:
		c.walkAll(p.a[:cap(p.a)])
	case *IfaceV:
		c.walk(p.v)
	case *FuncV:
		for _, e := range p.env {
			c.walk(e)
		}
	case *MapV:
		if c.seen[p] {
			return
		}
		c.seen[p] = true
		if c.ext != nil && c.ext.seen[p] {
			return
		}
		c.mapI[p] = len(c.maps)
		c.maps = append(c.maps, p)
		for _, e := range p.ents {
			if _, ok := e.k.P.(*Value); ok {
				panic(tooHard("pointer map key"))
			}
			c.walk(e.k)
			c.walk(e.v)
		}
	case *ChanV:
		if c.seen[p] {
			return
		}
		c.seen[p] = true
		if c.ext != nil && c.ext.seen[p] {
			return
		}
		if len(p.q) > 0 || len(p.sendq) > 0 || p.recvw > 0 {
			panic(tooHard("busy channel"))
		}
		c.chI[p] = len(c.chans)
		c.chans = append(c.chans, p)
	default:
		if c.ext != nil {
			panic(tooHard(fmt.Sprintf("value %T", v.P)))
		}
	}
}

func (c *capturer) walkAll(a []Value) {
	if len(a) == 0 || c.external(&a[0]) || !c.add(a) {
		return
	}
	for _, e := range a {
		c.walk(e)
	}
}

// layout merges overlapping ranges into blocks.
func (c *capturer) layout() int {
	sort.Slice(c.raw, func(i, j int) bool {
		if c.raw[i].lo != c.raw[j].lo {
			return c.raw[i].lo < c.raw[j].lo
		}
		return c.raw[i].hi > c.raw[j].hi
	})
	for _, r := range c.raw {
		if n := len(c.blks); n > 0 && r.lo < c.blks[n-1].hi {
			if r.hi > c.blks[n-1].hi {
				c.blks[n-1].hi = r.hi
			}
			continue
		}
		c.blks = append(c.blks, r)
	}
	off := 0
	for i := range c.blks {
		b := &c.blks[i]
		n := int((b.hi - b.lo) / valSize)
		b.a = unsafe.Slice(&b.a[0], n)
		b.off = off
		off += n
	}
	return off
}

func (c *capturer) find(p *Value) *blk {
	a := addr(p)
	i := sort.Search(len(c.blks), func(i int) bool { return c.blks[i].hi > a })
	if i < len(c.blks) && c.blks[i].lo <= a {
		return &c.blks[i]
	}
	return nil
}

func (c *capturer) offOf(p *Value) int {
	b := c.find(p)
	if b == nil {
		panic(tooHard("dangling"))
	}
	return b.off + int((addr(p)-b.lo)/valSize)
}

func (c *capturer) desc(v Value) vdesc {
	switch p := v.P.(type) {
	case *Value:
		if !c.external(p) {
			return vdesc{k: 'p', off: c.offOf(p)}
		}
	case *Agg:
		if len(p.f) > 0 && !c.external(&p.f[0]) {
			return vdesc{k: 'a', off: c.offOf(&p.f[0]), len: len(p.f)}
		}
	case *SliceV:
		if cap(p.a) > 0 && !c.external(&p.a[:1][0]) {
			return vdesc{k: 's', off: c.offOf(&p.a[:1][0]), len: len(p.a), cap: cap(p.a)}
		}
	case *MapV:
		if i, ok := c.mapI[p]; ok {
			return vdesc{k: 'm', off: i}
		}
	case *ChanV:
		if i, ok := c.chI[p]; ok {
			return vdesc{k: 'c', off: i}
		}
	case *IfaceV:
		if d := c.desc(p.v); d.k != 0 {
			return vdesc{k: 'i', t: p.t, in: []vdesc{d}}
		}
	case *FuncV:
		if len(p.env) > 0 {
			r := vdesc{k: 'f', v: v}
			for _, e := range p.env {
				r.in = append(r.in, c.desc(e))
			}
			return r
		}
	}
	return vdesc{v: v}
}

type inst2 struct {
	big   []Value
	maps  []*MapV
	chans []*ChanV
}

func (t *inst2) mk(d *vdesc) Value {
	switch d.k {
	case 'p':
		return Value{P: &t.big[d.off]}
	case 'a':
		return Value{P: &Agg{f: t.big[d.off : d.off+d.len : d.off+d.len]}}
	case 's':
		return Value{P: &SliceV{a: t.big[d.off : d.off+d.len : d.off+d.cap]}}
	case 'm':
		return Value{P: t.maps[d.off]}
	case 'c':
		return Value{P: t.chans[d.off]}
	case 'i':
		return Value{P: &IfaceV{t: d.t, v: t.mk(&d.in[0])}}
	case 'f':
		f := d.v.P.(*FuncV)
		env := make([]Value, len(d.in))
		for i := range d.in {
			env[i] = t.mk(&d.in[i])
		}
		return Value{P: &FuncV{fn: f.fn, blt: f.blt, env: env}}
	}
	return d.v
}

func (m *Machine) instantiate(t *tmpl) Value {
	in := &inst2{big: make([]Value, len(t.data))}
	copy(in.big, t.data)
	in.maps = make([]*MapV, len(t.maps))
	for i := range t.maps {
		in.maps[i] = &MapV{}
	}
	in.chans = make([]*ChanV, len(t.chans))
	for i := range t.chans {
		c := t.chans[i]
		in.chans[i] = &c
	}
	for i := range t.fix {
		f := &t.fix[i]
		in.big[f.off] = in.mk(&f.d)
	}
	for i := range t.maps {
		tm := &t.maps[i]
		mv := in.maps[i]
		mv.idx = make(map[string]int, len(tm.idx))
		for k, v := range tm.idx {
			mv.idx[k] = v
		}
		mv.n = tm.n
		mv.ents = append([]mapEnt(nil), tm.ents...)
		for j := range mv.ents {
			mv.ents[j].k = in.mk(&tm.k[j])
			mv.ents[j].v = in.mk(&tm.v[j])
		}
	}
	for g, off := range t.gl {
		m.gl[g] = &in.big[off]
	}
	for off, s := range t.side {
		m.side[&in.big[off]] = s
	}
	return in.mk(&t.res)
}

func (m *Machine) capture(res Value) (t *tmpl, err string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(tooHard); ok {
				t, err = nil, string(s)
				return
			}
			panic(r)
		}
	}()
	for _, l := range m.locks {
		if l.owner != nil || len(l.readers) > 0 {
			panic(tooHard("lock held"))
		}
	}
	ext := &capturer{m: m, seen: map[any]bool{}, mapI: map[*MapV]int{}, chI: map[*ChanV]int{}}
	c := &capturer{m: m, seen: map[any]bool{}, mapI: map[*MapV]int{}, chI: map[*ChanV]int{}, ext: ext}
	for i, g := range m.gl {
		if g != nil && m.glPkg[i].Pkg != m.eng.mainPkg {
			ext.walk(Value{P: g})
		}
	}
	ext.layout()
	for i, g := range m.gl {
		if g != nil && m.glPkg[i].Pkg == m.eng.mainPkg {
			c.walk(Value{P: g})
		}
	}
	c.walk(res)
	n := c.layout()
	t = &tmpl{data: make([]Value, n), gl: map[int]int{}, side: map[int]any{}}
	for i := range c.blks {
		b := &c.blks[i]
		for j, v := range b.a {
			d := c.desc(v)
			if d.k == 0 {
				t.data[b.off+j] = v
			} else {
				t.fix = append(t.fix, mfix{b.off + j, d})
			}
		}
	}
	for _, mv := range c.maps {
		tm := tmap{idx: map[string]int{}, n: mv.n, ents: append([]mapEnt(nil), mv.ents...)}
		for k, v := range mv.idx {
			tm.idx[k] = v
		}
		for _, e := range mv.ents {
			tm.k = append(tm.k, c.desc(e.k))
			tm.v = append(tm.v, c.desc(e.v))
		}
		t.maps = append(t.maps, tm)
	}
	for _, ch := range c.chans {
		t.chans = append(t.chans, ChanV{cap: ch.cap, closed: ch.closed})
	}
	for i, g := range m.gl {
		if g != nil && m.glPkg[i].Pkg == m.eng.mainPkg {
			t.gl[i] = c.offOf(g)
		}
	}
	for p, s := range m.side {
		if s != true {
			panic(tooHard("side state"))
		}
		if b := c.find(p); b != nil {
			t.side[c.offOf(p)] = s
		}
	}
	t.res = c.desc(res)
	return t, ""
}

func (m *Machine) memo(key string, fv *FuncV) Value {
	if m.memos == nil {
		m.memos = map[string]*tmpl{}
	}
	t, known := m.memos[key]
	if t != nil && m.trace == nil && len(m.threads) == 1 {
		m.steps += 1
		return m.instantiate(t)
	}
	nd, nv, nth := len(m.dec), len(m.vars), len(m.threads)
	res := m.callSync(fv.fn, nil, fv.env)
	if known || m.trace != nil {
		return res
	}
	m.memos[key] = nil
	if len(m.dec) != nd || len(m.vars) != nv || len(m.threads) != nth || nth != 1 {
		return res
	}
	t, err := m.capture(res)
	if t == nil {
		m.eng.noteBound("memo not applicable: " + err)
		return res
	}
	m.memos[key] = t
	return m.instantiate(t)
}
