package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type ctl int

const (
	ctlDone ctl = iota
	ctlBlock
	ctlCall // the intrinsic pushed a frame whose result is ours
	ctlNoRes
)

type intrinsic func(m *Machine, th *Thread, fr *frame, ci *inst, args []Value) (Value, ctl)

func (m *Machine) opv(fr *frame, o *operand) Value {
	switch o.k {
	case oReg:
		return fr.regs[o.idx]
	case oConst:
		return o.v
	}
	return Value{P: m.global(o.idx)}
}

func rtPanic(msg string) {
	panic(&targetPanic{msg: "runtime error: " + msg})
}

// runThread executes th until it blocks or finishes.
func (m *Machine) runThread(th *Thread) {
	for {
		if m.runProtected(th) {
			return
		}
	}
}

// runProtected returns true when the thread stopped; false after a target panic was dispatched.
func (m *Machine) runProtected(th *Thread) (stopped bool) {
	defer func() {
		if r := recover(); r != nil {
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			m.unwind(th, tp)
			stopped = false
		}
	}()
	m.loop(th)
	return true
}

// unwind starts or continues panicking in th.top.
func (m *Machine) unwind(th *Thread, tp *targetPanic) {
	fr := th.top
	if fr == nil {
		m.violate("panic", tp.String())
	}
	if fr.isDefer {
		// a panic inside a deferred call replaces the caller's panic
	}
	fr.panicking = true
	fr.panicVal = tp
	fr.recovered = false
	m.continuePanic(th)
}

func (tp *targetPanic) String() string {
	if tp.msg != "" {
		return tp.msg
	}
	if iv, ok := tp.v.P.(*IfaceV); ok {
		if s, ok := concStr(iv.v); ok && iv.v.P != nil {
			return s
		}
		return fmt.Sprintf("panic(%s)", iv.t)
	}
	return "panic"
}

func (m *Machine) continuePanic(th *Thread) {
	for {
		fr := th.top
		if fr == nil {
			panic(engErr("continuePanic"))
		}
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			if m.callDeferred(th, d) {
				return // frame pushed, continue executing
			}
			continue
		}
		if fr.recovered {
			fr.panicking = false
			fr.recovered = false
			if fr.cf.recov >= 0 {
				fr.blk = &fr.cf.blocks[fr.cf.recov]
				fr.pc = 0
				return
			}
			// return zero values
			var rv Value
			if n := len(fr.cf.resTi); n == 1 {
				rv = copyVal(fr.cf.resTi[0].zero)
			} else if n > 1 {
				a := &Agg{}
				for _, ti := range fr.cf.resTi {
					a.f = append(a.f, copyVal(ti.zero))
				}
				rv = Value{P: a}
			}
			m.doReturn(th, rv)
			return
		}
		// pop
		tp := fr.panicVal
		wasDefer := fr.isDefer
		th.top = fr.caller
		m.freeRegs(fr)
		if th.top == nil {
			m.violate("panic", fmt.Sprintf("%s (in goroutine %d, func %s)", tp.String(), th.id, fr.cf.name))
		}
		_ = wasDefer
		nf := th.top
		nf.panicking = true
		nf.panicVal = tp
		nf.recovered = false
	}
}

// callDeferred runs a deferred call; reports whether a frame was pushed.
func (m *Machine) callDeferred(th *Thread, d deferred) bool {
	if d.blt != "" {
		m.builtin(th, th.top, d.blt, d.args, d.bltType, nil)
		return false
	}
	cf := m.cfuncOf(d.fn.fn)
	if cf.nat != nil {
		_, c := cf.nat(m, th, th.top, nil, d.args)
		if c == ctlBlock {
			panic(pathAbort{abEngine, "deferred call blocks: " + cf.name})
		}
		if c == ctlCall {
			th.top.isDefer = true
			return true
		}
		return false
	}
	nf := m.pushCall(th, cf, d.args, d.fn.env, -1)
	nf.isDefer = true
	return true
}

func (m *Machine) doReturn(th *Thread, rv Value) {
	fr := th.top
	th.top = fr.caller
	dst := fr.dst
	isDefer := fr.isDefer
	onRet := fr.onRet
	m.freeRegs(fr)
	if onRet != nil {
		onRet(rv)
	}
	if th.top == nil {
		th.done = true
		return
	}
	if isDefer {
		if th.top.panicking {
			m.continuePanic(th)
		}
		// otherwise RunDefers instruction re-executes
		return
	}
	if dst >= 0 {
		th.top.regs[dst] = rv
	}
}

func (m *Machine) jump(fr *frame, to int) {
	from := fr.blk.idx
	nb := &fr.cf.blocks[to]
	if len(nb.phis) > 0 {
		e := -1
		for i, p := range nb.preds {
			if p == from {
				e = i
				break
			}
		}
		m.setPhis(fr, nb, e)
	}
	fr.blk = nb
	fr.pc = 0
}

func (m *Machine) setPhis(fr *frame, nb *cblock, e int) {
	if len(nb.phis) == 1 {
		fr.regs[nb.phis[0].dst] = m.opv(fr, &nb.phis[0].edges[e])
		return
	}
	var tmp [16]Value
	vals := tmp[:0]
	for i := range nb.phis {
		vals = append(vals, m.opv(fr, &nb.phis[i].edges[e]))
	}
	for i := range nb.phis {
		fr.regs[nb.phis[i].dst] = vals[i]
	}
}

// loop is the interpreter proper.
func (m *Machine) loop(th *Thread) {
	for {
		fr := th.top
		if fr == nil {
			th.done = true
			return
		}
		if m.runNext != nil && m.runNext != th {
			th.why = "preempted"
			th.blocked = true
			return
		}
		ci := &fr.blk.insts[fr.pc]
		m.steps++
		if prof != nil {
			prof(m, fr)
		}
		if m.steps > m.maxSteps {
			panic(pathAbort{abBound, "step bound"})
		}
		switch ci.op {
		case iJump:
			m.jump(fr, fr.blk.succs[0])
			continue
		case iIf:
			v := m.opv(fr, &ci.x)
			var t bool
			if c, ok := v.P.(*Term); ok {
				if m.symIf(th, fr, c) {
					continue
				}
				t = m.branch(c)
			} else {
				t = v.N != 0
			}
			if t {
				m.jump(fr, fr.blk.succs[0])
			} else {
				m.jump(fr, fr.blk.succs[1])
			}
			continue
		case iReturn:
			var rv Value
			switch len(ci.xs) {
			case 0:
			case 1:
				rv = m.opv(fr, &ci.xs[0])
			default:
				a := &Agg{f: make([]Value, len(ci.xs))}
				for i := range ci.xs {
					a.f[i] = m.opv(fr, &ci.xs[i])
				}
				rv = Value{P: a}
			}
			m.doReturn(th, rv)
			if th.done {
				return
			}
			continue
		case iCall:
			if m.doCall(th, fr, ci) {
				// blocked
				th.blocked = true
				return
			}
			continue
		case iRunDefers:
			if len(fr.defers) > 0 {
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				m.callDeferred(th, d)
				continue
			}
			fr.pc++
			continue
		case iSend, iRecv, iSelect:
			if m.chanOp(th, fr, ci) {
				th.blocked = true
				return
			}
			fr.pc++
			continue
		default:
			m.exec(th, fr, ci)
			fr.pc++
		}
	}
}

func (m *Machine) exec(th *Thread, fr *frame, ci *inst) {
	switch ci.op {
	case iNop:
	case iAlloc:
		p := new(Value)
		if ci.ti.k == kAgg {
			*p = copyVal(ci.ti.zero)
		}
		fr.regs[ci.dst] = Value{P: p}
	case iBinOp:
		fr.regs[ci.dst] = m.binop(ci, m.opv(fr, &ci.x), m.opv(fr, &ci.y))
	case iNot:
		v := m.opv(fr, &ci.x)
		if t, ok := v.P.(*Term); ok {
			fr.regs[ci.dst] = m.fromTerm(m.ctx.Not(t))
		} else {
			fr.regs[ci.dst] = Value{N: 1 - v.N}
		}
	case iNeg:
		v := m.opv(fr, &ci.x)
		if t, ok := v.P.(*Term); ok {
			fr.regs[ci.dst] = m.fromTerm(m.ctx.Neg(t))
		} else if ci.ti.k == kFloat {
			fr.regs[ci.dst] = Value{N: math.Float64bits(-math.Float64frombits(v.N))}
		} else {
			fr.regs[ci.dst] = Value{N: (-v.N) & mask(ci.ti.w)}
		}
	case iCompl:
		v := m.opv(fr, &ci.x)
		if t, ok := v.P.(*Term); ok {
			fr.regs[ci.dst] = m.fromTerm(m.ctx.Not(t))
		} else {
			fr.regs[ci.dst] = Value{N: (^v.N) & mask(ci.ti.w)}
		}
	case iDeref:
		p, ok := m.opv(fr, &ci.x).P.(*Value)
		if !ok || p == nil {
			m.nilDeref(m.opv(fr, &ci.x))
		}
		if m.trace != nil {
			m.trace.access(m, th, p, false, ci)
		}
		v := *p
		if ci.ti.k == kAgg {
			if v.P == nil {
				v = ci.ti.zero
			}
			v = copyVal(v)
		}
		fr.regs[ci.dst] = v
	case iStore:
		p, ok := m.opv(fr, &ci.x).P.(*Value)
		if !ok || p == nil {
			m.nilDeref(m.opv(fr, &ci.x))
		}
		if m.trace != nil {
			m.trace.access(m, th, p, true, ci)
		}
		storeInto(p, m.opv(fr, &ci.y))
	case iChangeType:
		fr.regs[ci.dst] = m.opv(fr, &ci.x)
	case iConvert:
		fr.regs[ci.dst] = m.convert(ci, m.opv(fr, &ci.x))
	case iDefer:
		fn, args, blt := m.callTarget(th, fr, ci.call)
		fr.defers = append(fr.defers, deferred{fn, args, blt, ci.call.bltType})
	case iGo:
		fn, args, _ := m.callTarget(th, fr, ci.call)
		nt := &Thread{id: len(m.threads)}
		m.threads = append(m.threads, nt)
		cf := m.cfuncOf(fn.fn)
		if cf.nat != nil {
			panic(pathAbort{abEngine, "go on intrinsic " + cf.name})
		}
		m.pushCall(nt, cf, args, fn.env, -1)
		if m.trace != nil {
			m.trace.spawn(m, th, nt)
		}
	case iExtract, iField:
		a, ok := m.opv(fr, &ci.x).P.(*Agg)
		if !ok {
			panic(engErr(fmt.Sprintf("extract from non-agg in %s: %s", fr.cf.name, ci.in)))
		}
		fr.regs[ci.dst] = a.f[ci.n]
	case iFieldAddr:
		p, ok := m.opv(fr, &ci.x).P.(*Value)
		if !ok || p == nil {
			m.nilDeref(m.opv(fr, &ci.x))
		}
		a, ok := p.P.(*Agg)
		if !ok {
			if p.P != nil {
				panic(engErr(fmt.Sprintf("fieldaddr on %T in %s: %s", p.P, fr.cf.name, ci.in)))
			}
			*p = copyVal(ci.ti.zero)
			a = p.P.(*Agg)
		}
		fr.regs[ci.dst] = Value{P: &a.f[ci.n]}
	case iIndex:
		fr.regs[ci.dst] = m.index(ci, m.opv(fr, &ci.x), m.opv(fr, &ci.y))
	case iIndexAddr:
		x := m.opv(fr, &ci.x)
		var el []Value
		switch p := x.P.(type) {
		case nil:
			if ci.ti.k == kPtr {
				rtPanic("nil pointer dereference")
			}
		case *SliceV:
			el = p.a
		case *Value:
			if p == nil {
				rtPanic("nil pointer dereference")
			}
			a, ok := p.P.(*Agg)
			if !ok {
				panic(engErr("indexaddr on array without storage in " + fr.cf.name))
			}
			el = a.f
		default:
			panic(engErr(fmt.Sprintf("indexaddr on %T in %s", x.P, fr.cf.name)))
		}
		iv := m.opv(fr, &ci.y)
		if t, ok := iv.P.(*Term); ok && ci.flag && m.trace == nil && concElems(el) {
			// a table looked up with a symbolic index; only the element's value is used
			if !m.idxOK(t, ci.ti2, len(el)) {
				rtPanic(fmt.Sprintf("index out of range with length %d", len(el)))
			}
			v := m.tableRead(el, t, uint8(ci.n))
			fr.regs[ci.dst] = Value{P: &v}
			break
		}
		i := m.checkIndex(iv, ci.ti2, len(el))
		fr.regs[ci.dst] = Value{P: &el[i]}
	case iLookup:
		mv, _ := m.opv(fr, &ci.x).P.(*MapV)
		k := m.opv(fr, &ci.y)
		var v Value
		found := false
		if mv != nil {
			if m.trace != nil {
				m.trace.obj(m, th, mv, false, ci)
			}
			if t, ok := k.P.(*Term); ok && m.symLookup(fr, ci, mv, t) {
				break
			}
			if i, ok := mv.idx[m.mapKey(k)]; ok {
				v = copyVal(mv.ents[i].v)
				found = true
			}
		} else {
			m.mapKey(k)
		}
		if !found {
			v = copyVal(zeroOf(ci.typ))
		}
		if ci.flag {
			fr.regs[ci.dst] = Value{P: &Agg{f: []Value{v, boolV(found)}}}
		} else {
			fr.regs[ci.dst] = v
		}
	case iMakeMap:
		fr.regs[ci.dst] = Value{P: &MapV{idx: map[string]int{}}}
	case iMapUpdate:
		mv, _ := m.opv(fr, &ci.x).P.(*MapV)
		if mv == nil {
			rtPanic("assignment to entry in nil map")
		}
		if m.trace != nil {
			m.trace.obj(m, th, mv, true, ci)
		}
		m.mapSet(mv, m.opv(fr, &ci.y), m.opv(fr, &ci.z))
	case iMakeChan:
		fr.regs[ci.dst] = Value{P: &ChanV{cap: int(m.concInt(m.opv(fr, &ci.x)))}}
	case iMakeClosure:
		fv := ci.x.v.P.(*FuncV)
		env := make([]Value, len(ci.xs))
		for i := range ci.xs {
			env[i] = m.opv(fr, &ci.xs[i])
		}
		fr.regs[ci.dst] = Value{P: &FuncV{fn: fv.fn, env: env}}
	case iMakeIface:
		fr.regs[ci.dst] = Value{P: &IfaceV{t: ci.typ, v: m.opv(fr, &ci.x)}}
	case iMakeSlice:
		n := m.concLen(m.opv(fr, &ci.x), "makeslice: len out of range")
		c := m.concLen(m.opv(fr, &ci.y), "makeslice: cap out of range")
		if c < n {
			rtPanic("makeslice: cap out of range")
		}
		a := make([]Value, c)
		if ci.ti.k == kAgg {
			for i := range a {
				a[i] = copyVal(ci.ti.zero)
			}
		}
		fr.regs[ci.dst] = Value{P: &SliceV{a: a[:n]}}
	case iRange:
		x := m.opv(fr, &ci.x)
		switch p := x.P.(type) {
		case *MapV:
			fr.regs[ci.dst] = Value{P: &RangeIter{m: p}}
		default:
			if ci.ti.k == kMap {
				fr.regs[ci.dst] = Value{P: &RangeIter{}}
			} else {
				fr.regs[ci.dst] = Value{P: &RangeIter{str: true, s: strBytes(x)}}
			}
		}
	case iNext:
		it := m.opv(fr, &ci.x).P.(*RangeIter)
		r := &Agg{f: make([]Value, 3)}
		if it.str {
			if it.i < len(it.s) {
				ru, n := m.decodeRune(it.s[it.i:])
				r.f[0] = boolV(true)
				r.f[1] = intV(int64(it.i))
				r.f[2] = ru
				it.i += n
			}
		} else if it.m != nil {
			for it.i < len(it.m.ents) && it.m.ents[it.i].dead {
				it.i++
			}
			if it.i < len(it.m.ents) {
				e := it.m.ents[it.i]
				it.i++
				r.f[0], r.f[1], r.f[2] = boolV(true), e.k, copyVal(e.v)
			}
		}
		fr.regs[ci.dst] = Value{P: r}
	case iPanic:
		v := m.opv(fr, &ci.x)
		panic(&targetPanic{v: v})
	case iSlice:
		fr.regs[ci.dst] = m.sliceOp(fr, ci)
	case iSliceToArr:
		sl, _ := m.opv(fr, &ci.x).P.(*SliceV)
		if sl == nil {
			if ci.n > 0 {
				rtPanic("cannot convert slice to array: length mismatch")
			}
			fr.regs[ci.dst] = Value{}
			break
		}
		if len(sl.a) < ci.n {
			rtPanic("cannot convert slice to array: length mismatch")
		}
		fr.regs[ci.dst] = Value{P: &Value{P: &Agg{f: sl.a[:ci.n:ci.n]}}}
	case iTypeAssert:
		m.typeAssert(fr, ci)
	default:
		panic(engErr(fmt.Sprintf("exec op %d", ci.op)))
	}
}

func (m *Machine) nilDeref(v Value) {
	if v.P == nil {
		rtPanic("invalid memory address or nil pointer dereference")
	}
	if o, ok := v.P.(opaque); ok {
		panic(pathAbort{abEngine, "use of unmodelled value: " + o.why})
	}
	if p, ok := v.P.(*Value); ok && p == nil {
		rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(engErr(fmt.Sprintf("deref of %T", v.P)))
}

func (m *Machine) concLen(v Value, msg string) int {
	if t, ok := v.P.(*Term); ok {
		big := m.ctx.Bin(OpUlt, m.ctx.Const(t.w, 1<<20), t)
		if m.branch(big) {
			rtPanic(msg)
		}
		return int(m.concInt(v))
	}
	if int64(v.N) < 0 {
		rtPanic(msg)
	}
	if v.N > 1<<24 {
		panic(pathAbort{abBound, "huge allocation"})
	}
	return int(v.N)
}

// idxOK decides (forking) whether a symbolic index is within [0,n).
func (m *Machine) idxOK(t *Term, ti tinfo, n int) bool {
	lim := uint64(n)
	top := mask(t.w)
	if ti.signed {
		top >>= 1
	}
	if lim > top {
		if !ti.signed {
			return true // the index type is too narrow to overflow
		}
		lim = top + 1
	}
	return m.branch(m.ctx.Bin(OpUlt, t, m.ctx.Const(t.w, lim)))
}

// checkIndex bounds-checks (forking) and concretises an index.
func (m *Machine) checkIndex(v Value, ti tinfo, n int) int {
	if t, ok := v.P.(*Term); ok {
		if !m.idxOK(t, ti, n) {
			rtPanic(fmt.Sprintf("index out of range with length %d", n))
		}
		return int(m.concInt(v))
	}
	i := sx(v.N, ti.w)
	if !ti.signed {
		i = int64(v.N)
	}
	if i < 0 || i >= int64(n) {
		rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return int(i)
}

// index reads an element by value (array or string).
func (m *Machine) index(ci *inst, x, iv Value) Value {
	if ci.ti.k == kString {
		n := strLen(x)
		if t, ok := iv.P.(*Term); ok {
			if !m.idxOK(t, ci.ti2, n) {
				rtPanic("index out of range")
			}
			return m.iteRead(strBytes(x), t, 8)
		}
		i := m.checkIndex(iv, ci.ti2, n)
		return strByte(x, i)
	}
	a := x.P.(*Agg)
	if t, ok := iv.P.(*Term); ok {
		if !m.idxOK(t, ci.ti2, len(a.f)) {
			rtPanic("index out of range")
		}
		if ci.flag && concElems(a.f) {
			return m.tableRead(a.f, t, uint8(ci.n))
		}
		return a.f[m.concInt(iv)]
	}
	return a.f[m.checkIndex(iv, ci.ti2, len(a.f))]
}

func (m *Machine) iteRead(b []Value, t *Term, w uint8) Value {
	conc := true
	for i := range b {
		if b[i].P != nil {
			conc = false
		}
	}
	if conc {
		var st, vl []uint64
		for i := range b {
			if i == 0 || b[i].N != vl[len(vl)-1] {
				st = append(st, uint64(i))
				vl = append(vl, b[i].N)
			}
		}
		return m.fromTerm(m.ctx.TableAt(m.ctx.MakeTable(t.w, w, st, vl), t))
	}
	return b[m.concInt(Value{P: t})]
}

func concElems(el []Value) bool {
	for i := range el {
		if el[i].P != nil {
			return false
		}
	}
	return len(el) <= 1<<16
}

// tableRead reads an element of a table of concrete scalars of width w (0: booleans).
func (m *Machine) tableRead(el []Value, t *Term, w uint8) Value {
	if n := mask(t.w); uint64(len(el)) > n && n < 1<<16 {
		el = el[:n+1]
	}
	if w != 0 {
		return m.iteRead(el, t, w)
	}
	v := m.iteRead(el, t, 8)
	if vt, ok := v.P.(*Term); ok {
		return m.fromTerm(m.ctx.Not(m.ctx.Bin(OpEq, vt, m.ctx.Const(8, 0))))
	}
	return v
}

func (m *Machine) sliceOp(fr *frame, ci *inst) Value {
	x := m.opv(fr, &ci.x)
	if ci.ti.k == kString {
		n := strLen(x)
		lo, hi := 0, n
		if ci.n&2 != 0 {
			hi = m.boundIdx(m.opv(fr, &ci.z), n)
		}
		if ci.n&1 != 0 {
			lo = m.boundIdx(m.opv(fr, &ci.y), hi)
		}
		return subStr(x, lo, hi)
	}
	var el []Value
	switch p := x.P.(type) {
	case nil:
		if ci.ti.k == kPtr {
			rtPanic("nil pointer dereference")
		}
	case *SliceV:
		el = p.a
	case *Value:
		a, ok := p.P.(*Agg)
		if !ok {
			panic(engErr("slice of array without storage"))
		}
		el = a.f
	}
	lo, hi, mx := 0, len(el), cap(el)
	if ci.n&4 != 0 {
		mx = m.boundIdx(m.opv(fr, &ci.c), cap(el))
	}
	if ci.n&2 != 0 {
		hi = m.boundIdx(m.opv(fr, &ci.z), mx)
	}
	if ci.n&1 != 0 {
		lo = m.boundIdx(m.opv(fr, &ci.y), hi)
	}
	if lo > hi {
		rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
	}
	if x.P == nil {
		return Value{}
	}
	return Value{P: &SliceV{a: el[lo:hi:mx]}}
}

func (m *Machine) boundIdx(v Value, max int) int {
	if t, ok := v.P.(*Term); ok {
		if !m.branch(m.ctx.Bin(OpUle, t, m.ctx.Const(t.w, uint64(max)))) {
			rtPanic(fmt.Sprintf("slice bounds out of range with capacity %d", max))
		}
		return int(m.concInt(v))
	}
	i := int64(v.N)
	if i < 0 || i > int64(max) {
		rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", i, max))
	}
	return int(i)
}

func (m *Machine) mapKey(v Value) string {
	switch p := v.P.(type) {
	case nil:
		return fmt.Sprintf("n%d", v.N)
	case *Term:
		return fmt.Sprintf("n%d", m.concInt(v))
	case string:
		return "s" + p
	case *SStr:
		// concretise every byte
		b := make([]byte, len(p.b))
		for i := range p.b {
			b[i] = byte(m.concInt(p.b[i]))
		}
		return "s" + string(b)
	case *Agg:
		s := "a("
		for i := range p.f {
			s += m.mapKey(p.f[i]) + ","
		}
		return s + ")"
	case *IfaceV:
		return "i" + p.t.String() + ":" + m.mapKey(p.v)
	case *Value:
		return fmt.Sprintf("p%p", p)
	}
	panic(pathAbort{abEngine, fmt.Sprintf("map key %T", v.P)})
}

// symLookup looks up a symbolic key without a case for each key of the map.
func (m *Machine) symLookup(fr *frame, ci *inst, mv *MapV, t *Term) bool {
	c := m.ctx
	any := c.fls
	ti := typeInfo(ci.typ)
	scalar := (ti.k == kInt || ti.k == kBool) && mv.n <= 256
	for i := range mv.ents {
		e := &mv.ents[i]
		if e.dead {
			continue
		}
		if e.k.P != nil {
			return false
		}
		any = c.Or(any, c.Bin(OpEq, t, c.Const(t.w, e.k.N)))
		if e.v.P != nil {
			scalar = false
		}
	}
	if !scalar {
		if m.branch(any) {
			return false // one of the keys
		}
		v := copyVal(zeroOf(ci.typ))
		if ci.flag {
			v = Value{P: &Agg{f: []Value{v, boolV(false)}}}
		}
		fr.regs[ci.dst] = v
		return true
	}
	w := ti.w
	if ti.k == kBool {
		w = 0
	}
	r := m.domTerm(Value{}, w)
	for i := range mv.ents {
		if e := &mv.ents[i]; !e.dead {
			r = c.Ite(c.Bin(OpEq, t, c.Const(t.w, e.k.N)), m.domTerm(e.v, w), r)
		}
	}
	v := m.fromTerm(r)
	if ci.flag {
		v = Value{P: &Agg{f: []Value{v, m.fromTerm(any)}}}
	}
	fr.regs[ci.dst] = v
	return true
}

func (m *Machine) mapSet(mv *MapV, k, v Value) {
	ks := m.mapKey(k)
	if t, ok := k.P.(*Term); ok {
		k = Value{N: m.concInt(Value{P: t})}
	}
	if i, ok := mv.idx[ks]; ok {
		mv.ents[i].v = copyVal(v)
		return
	}
	mv.idx[ks] = len(mv.ents)
	mv.ents = append(mv.ents, mapEnt{k: k, v: copyVal(v)})
	mv.n++
}

func (m *Machine) typeAssert(fr *frame, ci *inst) {
	x := m.opv(fr, &ci.x)
	iv, _ := x.P.(*IfaceV)
	ok := false
	var v Value
	if iv != nil {
		if it, isI := ci.typ.Underlying().(*types.Interface); isI {
			ok = m.eng.implements(iv.t, it)
			v = x
		} else {
			ok = types.Identical(iv.t, ci.typ)
			v = iv.v
		}
	} else if x.P != nil {
		panic(pathAbort{abEngine, fmt.Sprintf("type assert on %T", x.P)})
	}
	if !ok {
		v = copyVal(zeroOf(ci.typ))
		if !ci.flag {
			rtPanic("interface conversion")
		}
	}
	if ci.flag {
		fr.regs[ci.dst] = Value{P: &Agg{f: []Value{v, boolV(ok)}}}
	} else {
		fr.regs[ci.dst] = v
	}
}

// ---- operators ----

func (m *Machine) binop(ci *inst, x, y Value) Value {
	ti := ci.ti
	switch ti.k {
	case kInt:
		_, sxm := x.P.(*Term)
		_, sym := y.P.(*Term)
		if !sxm && !sym {
			return m.concBin(ci.tok, ti, ci.ti2, x.N, y.N)
		}
		return m.symBin(ci.tok, ti, ci.ti2, x, y)
	case kBool:
		a, b := m.domTerm(x, 0), m.domTerm(y, 0)
		switch ci.tok {
		case token.EQL:
			return m.fromTerm(m.ctx.Bin(OpEq, a, b))
		case token.NEQ:
			return m.fromTerm(m.ctx.Not(m.ctx.Bin(OpEq, a, b)))
		case token.AND:
			return m.fromTerm(m.ctx.And(a, b))
		case token.OR:
			return m.fromTerm(m.ctx.Or(a, b))
		}
	case kString:
		switch ci.tok {
		case token.ADD:
			xs, ok1 := concStr(x)
			ys, ok2 := concStr(y)
			if ok1 && ok2 {
				return strV(xs + ys)
			}
			xb, yb := strBytes(x), strBytes(y)
			n := make([]Value, 0, len(xb)+len(yb))
			n = append(append(n, xb...), yb...)
			return Value{P: &SStr{b: n}}
		case token.EQL:
			return m.fromTerm(m.strEq(x, y))
		case token.NEQ:
			return m.fromTerm(m.ctx.Not(m.strEq(x, y)))
		default:
			return m.strCmp(ci.tok, x, y)
		}
	case kFloat:
		a, b := math.Float64frombits(x.N), math.Float64frombits(y.N)
		switch ci.tok {
		case token.ADD:
			return Value{N: math.Float64bits(a + b)}
		case token.SUB:
			return Value{N: math.Float64bits(a - b)}
		case token.MUL:
			return Value{N: math.Float64bits(a * b)}
		case token.QUO:
			return Value{N: math.Float64bits(a / b)}
		case token.LSS:
			return boolV(a < b)
		case token.LEQ:
			return boolV(a <= b)
		case token.GTR:
			return boolV(a > b)
		case token.GEQ:
			return boolV(a >= b)
		case token.EQL:
			return boolV(a == b)
		case token.NEQ:
			return boolV(a != b)
		}
	default:
		e := m.valEq(x, y, ci.typ)
		if ci.tok == token.EQL {
			return m.fromTerm(e)
		}
		if ci.tok == token.NEQ {
			return m.fromTerm(m.ctx.Not(e))
		}
	}
	panic(engErr(fmt.Sprintf("binop %s on kind %d", ci.tok, ti.k)))
}

func (m *Machine) concBin(tok token.Token, ti, ti2 tinfo, a, b uint64) Value {
	w := ti.w
	mk := mask(w)
	switch tok {
	case token.ADD:
		return Value{N: (a + b) & mk}
	case token.SUB:
		return Value{N: (a - b) & mk}
	case token.MUL:
		return Value{N: (a * b) & mk}
	case token.QUO, token.REM:
		if b == 0 {
			rtPanic("integer divide by zero")
		}
		if ti.signed {
			x, y := sx(a, w), sx(b, w)
			if y == -1 {
				if tok == token.QUO {
					return Value{N: uint64(-x) & mk}
				}
				return Value{}
			}
			if tok == token.QUO {
				return Value{N: uint64(x/y) & mk}
			}
			return Value{N: uint64(x%y) & mk}
		}
		if tok == token.QUO {
			return Value{N: a / b}
		}
		return Value{N: a % b}
	case token.AND:
		return Value{N: a & b}
	case token.OR:
		return Value{N: a | b}
	case token.XOR:
		return Value{N: a ^ b}
	case token.AND_NOT:
		return Value{N: a &^ b}
	case token.SHL, token.SHR:
		if ti2.signed && sx(b, ti2.w) < 0 {
			rtPanic("negative shift amount")
		}
		if tok == token.SHL {
			return Value{N: evalOp(OpShl, w, w, 0, a, b)}
		}
		if ti.signed {
			return Value{N: evalOp(OpAshr, w, w, 0, a, b)}
		}
		return Value{N: evalOp(OpLshr, w, w, 0, a, b)}
	case token.EQL:
		return boolV(a == b)
	case token.NEQ:
		return boolV(a != b)
	}
	if ti.signed {
		x, y := sx(a, w), sx(b, w)
		switch tok {
		case token.LSS:
			return boolV(x < y)
		case token.LEQ:
			return boolV(x <= y)
		case token.GTR:
			return boolV(x > y)
		case token.GEQ:
			return boolV(x >= y)
		}
	}
	switch tok {
	case token.LSS:
		return boolV(a < b)
	case token.LEQ:
		return boolV(a <= b)
	case token.GTR:
		return boolV(a > b)
	case token.GEQ:
		return boolV(a >= b)
	}
	panic(engErr("concBin " + tok.String()))
}

func (m *Machine) symBin(tok token.Token, ti, ti2 tinfo, x, y Value) Value {
	c := m.ctx
	a := m.domTerm(x, ti.w)
	if tok == token.SHL || tok == token.SHR {
		b := m.domTerm(y, ti2.w)
		if ti2.signed && b.op != OpConst {
			if m.branch(c.Bin(OpSlt, b, c.Const(b.w, 0))) {
				rtPanic("negative shift amount")
			}
		} else if ti2.signed && sx(b.k, b.w) < 0 {
			rtPanic("negative shift amount")
		}
		// adapt width of the shift count, saturating
		if b.w < a.w {
			b = c.Zext(b, a.w)
		} else if b.w > a.w {
			b = c.Ite(c.Bin(OpUlt, b, c.Const(b.w, uint64(a.w))), c.Extract(b, 0, a.w), c.Const(a.w, uint64(a.w)))
		}
		op := OpShl
		if tok == token.SHR {
			op = OpLshr
			if ti.signed {
				op = OpAshr
			}
		}
		return m.fromTerm(c.Bin(op, a, b))
	}
	b := m.domTerm(y, ti.w)
	var r *Term
	switch tok {
	case token.ADD:
		r = c.Bin(OpAdd, a, b)
	case token.SUB:
		r = c.Bin(OpSub, a, b)
	case token.MUL:
		r = c.Bin(OpMul, a, b)
	case token.QUO, token.REM:
		if b.op == OpConst {
			if b.k == 0 {
				rtPanic("integer divide by zero")
			}
		} else if m.branch(c.Bin(OpEq, b, c.Const(b.w, 0))) {
			rtPanic("integer divide by zero")
		}
		half := uint64(1) << (ti.w - 1)
		if ti.signed && !(a.hi < half && b.hi < half) {
			if tok == token.QUO {
				r = c.Bin(OpSDiv, a, b)
			} else {
				r = c.Bin(OpSRem, a, b)
			}
		} else {
			if tok == token.QUO {
				r = c.Bin(OpUDiv, a, b)
			} else {
				r = c.Bin(OpURem, a, b)
			}
		}
	case token.AND:
		r = c.Bin(OpAnd, a, b)
	case token.OR:
		r = c.Bin(OpOr, a, b)
	case token.XOR:
		r = c.Bin(OpXor, a, b)
	case token.AND_NOT:
		r = c.Bin(OpAnd, a, c.Not(b))
	case token.EQL:
		r = c.Bin(OpEq, a, b)
	case token.NEQ:
		r = c.Not(c.Bin(OpEq, a, b))
	default:
		lt, le := OpUlt, OpUle
		if ti.signed {
			lt, le = OpSlt, OpSle
		}
		switch tok {
		case token.LSS:
			r = c.Bin(lt, a, b)
		case token.LEQ:
			r = c.Bin(le, a, b)
		case token.GTR:
			r = c.Bin(lt, b, a)
		case token.GEQ:
			r = c.Bin(le, b, a)
		default:
			panic(engErr("symBin " + tok.String()))
		}
	}
	return m.fromTerm(r)
}

func (m *Machine) strEq(x, y Value) *Term {
	xs, ok1 := concStr(x)
	ys, ok2 := concStr(y)
	if ok1 && ok2 {
		return m.ctx.Bool(xs == ys)
	}
	if strLen(x) != strLen(y) {
		return m.ctx.fls
	}
	xb, yb := strBytes(x), strBytes(y)
	r := m.ctx.tru
	for i := range xb {
		r = m.ctx.And(r, m.ctx.Bin(OpEq, m.domTerm(xb[i], 8), m.domTerm(yb[i], 8)))
		if r == m.ctx.fls {
			return r
		}
	}
	return r
}

func (m *Machine) strCmp(tok token.Token, x, y Value) Value {
	xs, ok1 := concStr(x)
	ys, ok2 := concStr(y)
	if ok1 && ok2 {
		switch tok {
		case token.LSS:
			return boolV(xs < ys)
		case token.LEQ:
			return boolV(xs <= ys)
		case token.GTR:
			return boolV(xs > ys)
		case token.GEQ:
			return boolV(xs >= ys)
		}
	}
	panic(pathAbort{abEngine, "ordered comparison of symbolic strings"})
}

func (m *Machine) valEq(x, y Value, t types.Type) *Term {
	c := m.ctx
	switch a := x.P.(type) {
	case *Agg:
		b, ok := y.P.(*Agg)
		if !ok {
			panic(engErr("valEq agg"))
		}
		r := c.tru
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := range a.f {
				if u.Field(i).Name() == "_" {
					continue
				}
				r = c.And(r, m.valEq(a.f[i], b.f[i], u.Field(i).Type()))
			}
		case *types.Array:
			for i := range a.f {
				r = c.And(r, m.valEq(a.f[i], b.f[i], u.Elem()))
			}
		default:
			panic(engErr("valEq agg type"))
		}
		return r
	case *IfaceV:
		b, ok := y.P.(*IfaceV)
		if !ok {
			return c.fls
		}
		if !types.Identical(a.t, b.t) {
			return c.fls
		}
		if !types.Comparable(a.t) {
			rtPanic("comparing uncomparable type " + a.t.String())
		}
		return m.valEq(a.v, b.v, a.t)
	}
	ti := typeInfo(t)
	switch ti.k {
	case kInt:
		return c.Bin(OpEq, m.domTerm(x, ti.w), m.domTerm(y, ti.w))
	case kBool:
		return c.Bin(OpEq, m.domTerm(x, 0), m.domTerm(y, 0))
	case kString:
		return m.strEq(x, y)
	case kFloat:
		return c.Bool(math.Float64frombits(x.N) == math.Float64frombits(y.N))
	case kIface, kPtr, kMap, kChan, kSlice, kFunc, kOther:
		if _, ok := x.P.(opaque); ok {
			if y.P == nil {
				return c.fls
			}
			panic(pathAbort{abEngine, "compare opaque"})
		}
		px, ok1 := x.P.(*Value)
		py, ok2 := y.P.(*Value)
		if ok1 || ok2 {
			return c.Bool(px == py)
		}
		if x.P == nil || y.P == nil {
			return c.Bool(x.P == nil && y.P == nil)
		}
		if ti.k == kIface {
			return c.fls
		}
		return c.Bool(x.P == y.P)
	}
	panic(engErr("valEq"))
}

func (m *Machine) convert(ci *inst, x Value) Value {
	to, from := ci.ti, ci.ti2
	switch {
	case to.k == kInt && from.k == kInt:
		return m.intConv(x, from, to)
	case to.k == kString && from.k == kInt: // string(rune)
		if t, ok := x.P.(*Term); ok {
			_ = t
			return m.mkRuneStr(m.intConvT(x, from, tinfo{k: kInt, w: 32, signed: true}))
		}
		v := sx(x.N, from.w)
		if !from.signed {
			v = int64(x.N)
		}
		if v < 0 || v > utf8.MaxRune {
			return strV("\uFFFD")
		}
		return strV(string(rune(v)))
	case to.k == kString && from.k == kSlice:
		el := sliceElems(x)
		if typeInfo(from.elem).w == 8 {
			return mkStr(el)
		}
		var b []Value
		for i := range el {
			b = append(b, strBytes(m.runeToStr(el[i]))...)
		}
		return mkStr(b)
	case to.k == kSlice && from.k == kString:
		if typeInfo(to.elem).w == 8 {
			b := strBytes(x)
			return Value{P: &SliceV{a: append(make([]Value, 0, len(b)), b...)}}
		}
		b := strBytes(x)
		out := []Value{}
		for i := 0; i < len(b); {
			r, n := m.decodeRune(b[i:])
			out = append(out, r)
			i += n
		}
		return Value{P: &SliceV{a: out}}
	case to.k == kString && from.k == kString, to.k == kSlice && from.k == kSlice, to.k == kPtr && from.k == kPtr, to.k == kFunc && from.k == kFunc:
		return x
	case to.k == kFloat && from.k == kInt:
		if x.P != nil {
			panic(pathAbort{abEngine, "symbolic int to float"})
		}
		if from.signed {
			return Value{N: math.Float64bits(float64(sx(x.N, from.w)))}
		}
		return Value{N: math.Float64bits(float64(x.N))}
	case to.k == kInt && from.k == kFloat:
		f := math.Float64frombits(x.N)
		if to.signed {
			return Value{N: uint64(int64(f)) & mask(to.w)}
		}
		return Value{N: uint64(f) & mask(to.w)}
	case to.k == kFloat && from.k == kFloat:
		return x
	}
	// unsafe pointers etc.
	return x
}

func (m *Machine) intConvT(x Value, from, to tinfo) Value { return m.intConv(x, from, to) }

func (m *Machine) intConv(x Value, from, to tinfo) Value {
	if t, ok := x.P.(*Term); ok {
		switch {
		case to.w == from.w:
			return x
		case to.w < from.w:
			return m.fromTerm(m.ctx.Extract(t, 0, to.w))
		case from.signed:
			return m.fromTerm(m.ctx.Sext(t, to.w))
		default:
			return m.fromTerm(m.ctx.Zext(t, to.w))
		}
	}
	if from.signed && to.w > from.w {
		return Value{N: uint64(sx(x.N, from.w)) & mask(to.w)}
	}
	return Value{N: x.N & mask(to.w)}
}

func (m *Machine) runeToStr(r Value) Value {
	if r.P == nil {
		v := int32(r.N)
		return strV(string(rune(v)))
	}
	return m.mkRuneStr(r)
}

// ---- calls ----

func (m *Machine) callTarget(th *Thread, fr *frame, c *callInfo) (*FuncV, []Value, string) {
	if c.method != nil {
		recv := m.opv(fr, &c.recv)
		iv, ok := recv.P.(*IfaceV)
		if !ok {
			if recv.P == nil {
				rtPanic("invalid memory address or nil pointer dereference")
			}
			if o, ok := recv.P.(opaque); ok {
				panic(pathAbort{abEngine, "invoke on opaque " + o.why})
			}
			panic(engErr(fmt.Sprintf("invoke on %T", recv.P)))
		}
		fn := m.lookupMethod(iv.t, c.method)
		args := make([]Value, len(c.args)+1)
		args[0] = iv.v
		for i := range c.args {
			args[i+1] = m.opv(fr, &c.args[i])
		}
		return &FuncV{fn: fn}, args, ""
	}
	args := make([]Value, len(c.args))
	for i := range c.args {
		args[i] = m.opv(fr, &c.args[i])
	}
	if c.fn != nil {
		return &FuncV{fn: c.fn}, args, ""
	}
	if c.blt != "" {
		return nil, args, c.blt
	}
	fv, _ := m.opv(fr, &c.fnOp).P.(*FuncV)
	if fv == nil {
		rtPanic("invalid memory address or nil pointer dereference (nil func)")
	}
	if fv.blt != nil {
		return nil, args, fv.blt.Name()
	}
	return fv, args, ""
}

func (m *Machine) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	k := mkey{t, meth}
	if f, ok := m.mcache[k]; ok {
		return f
	}
	f := m.eng.lookupMethod(t, meth)
	if f == nil {
		panic(engErr(fmt.Sprintf("method %s not found on %s", meth.Name(), t)))
	}
	m.mcache[k] = f
	return f
}

// doCall executes a call instruction; returns true if the thread blocked.
func (m *Machine) doCall(th *Thread, fr *frame, ci *inst) bool {
	c := ci.call
	if c.cf == nil && c.fn != nil {
		c.cf = m.cfuncOf(c.fn)
	}
	if c.cf != nil {
		cf := c.cf
		if cf.nat != nil {
			args := make([]Value, len(c.args))
			for i := range c.args {
				args[i] = m.opv(fr, &c.args[i])
			}
			return m.callNative(th, fr, ci, cf, args)
		}
		if cf.blocks == nil {
			m.noBody(cf)
		}
		// fast path: evaluate args straight into the callee registers
		nf := &frame{cf: cf, caller: fr, dst: ci.dst}
		if n := len(cf.pool); n > 0 {
			nf.regs = cf.pool[n-1]
			cf.pool = cf.pool[:n-1]
		} else {
			nf.regs = make([]Value, cf.nregs)
		}
		for i, p := range cf.params {
			nf.regs[p] = m.opv(fr, &c.args[i])
		}
		nf.blk = &cf.blocks[0]
		fr.pc++
		th.top = nf
		return false
	}
	fn, args, blt := m.callTarget(th, fr, c)
	if blt != "" {
		v := m.builtin(th, fr, blt, args, c.bltType, ci)
		if ci.dst >= 0 {
			fr.regs[ci.dst] = v
		}
		fr.pc++
		return false
	}
	cf := m.cfuncOf(fn.fn)
	if cf.nat != nil {
		return m.callNative(th, fr, ci, cf, args)
	}
	if cf.blocks == nil {
		m.noBody(cf)
	}
	fr.pc++
	m.pushCall(th, cf, args, fn.env, ci.dst)
	return false
}

func (m *Machine) noBody(cf *cfunc) {
	panic(pathAbort{abEngine, "call to external function " + cf.name})
}

func (m *Machine) callNative(th *Thread, fr *frame, ci *inst, cf *cfunc, args []Value) bool {
	v, c := cf.nat(m, th, fr, ci, args)
	switch c {
	case ctlBlock:
		if th.why == "" {
			th.why = cf.name
		}
		return true
	case ctlCall:
		fr.pc++
		return false
	}
	if ci.dst >= 0 {
		fr.regs[ci.dst] = v
	}
	fr.pc++
	return false
}

func (m *Machine) builtin(th *Thread, fr *frame, name string, args []Value, t types.Type, ci *inst) Value {
	switch name {
	case "len":
		switch p := args[0].P.(type) {
		case nil:
			return Value{}
		case string, *SStr:
			return intV(int64(strLen(args[0])))
		case *SliceV:
			return intV(int64(len(p.a)))
		case *MapV:
			return intV(int64(p.n))
		case *ChanV:
			return intV(int64(len(p.q)))
		case *Agg:
			return intV(int64(len(p.f)))
		case *Value:
			return intV(int64(len(p.P.(*Agg).f)))
		}
	case "cap":
		switch p := args[0].P.(type) {
		case nil:
			return Value{}
		case *SliceV:
			return intV(int64(cap(p.a)))
		case *ChanV:
			return intV(int64(p.cap))
		}
	case "append":
		var add []Value
		switch p := args[1].P.(type) {
		case nil:
		case *SliceV:
			add = p.a
		default:
			add = strBytes(args[1])
		}
		if len(add) == 0 {
			return args[0]
		}
		base := sliceElems(args[0])
		if m.trace != nil {
			for i := range add {
				m.trace.access(m, th, &add[i], false, ci)
			}
		}
		if len(base)+len(add) <= cap(base) {
			r := base[:len(base)+len(add)]
			tmp := make([]Value, len(add))
			for i := range add {
				tmp[i] = copyVal(add[i])
			}
			for i := range tmp {
				if m.trace != nil {
					m.trace.access(m, th, &r[len(base)+i], true, ci)
				}
				storeInto(&r[len(base)+i], tmp[i])
			}
			return Value{P: &SliceV{a: r}}
		}
		if m.trace != nil {
			for i := range base {
				m.trace.access(m, th, &base[i], false, ci)
			}
		}
		nc := growCap(cap(base), len(base)+len(add))
		n := make([]Value, len(base)+len(add), nc)
		for i := range base {
			n[i] = copyVal(base[i])
		}
		for i := range add {
			n[len(base)+i] = copyVal(add[i])
		}
		return Value{P: &SliceV{a: n}}
	case "copy":
		dst := sliceElems(args[0])
		var src []Value
		switch p := args[1].P.(type) {
		case nil:
		case *SliceV:
			src = p.a
		default:
			src = strBytes(args[1])
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			if m.trace != nil {
				m.trace.access(m, th, &src[i], false, ci)
			}
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			if m.trace != nil {
				m.trace.access(m, th, &dst[i], true, ci)
			}
			storeInto(&dst[i], tmp[i])
		}
		return intV(int64(n))
	case "delete":
		if mv, ok := args[0].P.(*MapV); ok && mv != nil {
			k := m.mapKey(args[1])
			if i, ok := mv.idx[k]; ok {
				mv.ents[i].dead = true
				delete(mv.idx, k)
				mv.n--
			}
		}
		return Value{}
	case "close":
		ch, _ := args[0].P.(*ChanV)
		if ch == nil {
			rtPanic("close of nil channel")
		}
		if ch.closed {
			rtPanic("close of closed channel")
		}
		ch.closed = true
		if m.trace != nil {
			m.trace.sync(m, th, ch)
		}
		return Value{}
	case "panic":
		panic(&targetPanic{v: args[0]})
	case "recover":
		// fr is the deferred function's frame
		c := fr.caller
		if fr.isDefer && c != nil && c.panicking && !c.recovered {
			c.recovered = true
			tp := c.panicVal
			if tp.v.P != nil {
				return tp.v
			}
			return Value{P: &IfaceV{t: types.Typ[types.String], v: strV(tp.msg)}}
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "min", "max":
		r := args[0]
		ti := typeInfo(t)
		for _, a := range args[1:] {
			tok := token.LSS
			if name == "max" {
				tok = token.GTR
			}
			var c Value
			if r.P == nil && a.P == nil {
				c = m.concBin(tok, ti, ti, r.N, a.N)
			} else {
				c = m.symBin(tok, ti, ti, r, a)
			}
			if ct, ok := c.P.(*Term); ok {
				r = m.fromTerm(m.ctx.Ite(ct, m.domTerm(r, ti.w), m.domTerm(a, ti.w)))
			} else if c.N == 0 {
				r = a
			}
		}
		return r
	case "clear":
		switch p := args[0].P.(type) {
		case *SliceV:
			z := zeroOf(t.Underlying().(*types.Slice).Elem())
			for i := range p.a {
				storeInto(&p.a[i], copyVal(z))
			}
		case *MapV:
			p.idx = map[string]int{}
			p.ents = nil
			p.n = 0
		}
		return Value{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].P.(*Value); !ok || p == nil {
			rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String", "Slice": // unsafe
		n := m.concLen(args[1], "unsafe."+name+": len out of range")
		p, _ := args[0].P.(*Value)
		if p == nil || n == 0 {
			if n > 0 {
				rtPanic("unsafe." + name + ": ptr is nil and len is not zero")
			}
			return Value{}
		}
		if name == "String" { // shares the bytes, as the real one does
			return Value{P: &SStr{b: unsafe.Slice(p, n)}}
		}
		return Value{P: &SliceV{a: unsafe.Slice(p, n)}}
	case "StringData":
		if b := strBytes(args[0]); len(b) > 0 {
			return Value{P: &b[0]}
		}
		return Value{}
	case "SliceData":
		if b := sliceElems(args[0]); cap(b) > 0 {
			return Value{P: &b[:1][0]}
		}
		return Value{}
	}
	panic(pathAbort{abEngine, "builtin " + name + " " + fmt.Sprint(len(args))})
}

func growCap(old, need int) int {
	nc := old
	if old == 0 {
		nc = need
	} else if old < 256 {
		nc = old * 2
	} else {
		nc = old + old/4
	}
	if nc < need {
		nc = need
	}
	if nc < 8 && need > 1 {
		// keep small
	}
	return nc
}

// ---- channels ----

func (m *Machine) chanOp(th *Thread, fr *frame, ci *inst) bool {
	switch ci.op {
	case iSend:
		ch, _ := m.opv(fr, &ci.x).P.(*ChanV)
		if ch == nil {
			th.why = "send on nil channel"
			return true
		}
		if !m.trySend(th, fr, ch, m.opv(fr, &ci.y)) {
			return true
		}
		if m.trace != nil {
			m.trace.sync(m, th, ch)
		}
		return false
	case iRecv:
		ch, _ := m.opv(fr, &ci.x).P.(*ChanV)
		if ch == nil {
			th.why = "recv on nil channel"
			return true
		}
		v, ok, ready := m.tryRecv(ch)
		if !ready {
			th.why = "chan receive"
			return true
		}
		if m.trace != nil {
			m.trace.sync(m, th, ch)
		}
		if !ok {
			v = copyVal(ci.ti.zero)
		}
		if ci.flag {
			fr.regs[ci.dst] = Value{P: &Agg{f: []Value{v, boolV(ok)}}}
		} else {
			fr.regs[ci.dst] = v
		}
		return false
	case iSelect:
		sel := ci.in.(*ssa.Select)
		nrecv := 0
		for _, st := range sel.States {
			if st.Dir == types.RecvOnly {
				nrecv++
			}
		}
		res := &Agg{f: make([]Value, 2+nrecv)}
		ri := 0
		for i, st := range sel.States {
			ch, _ := m.opv(fr, &ci.xs[2*i]).P.(*ChanV)
			if st.Dir == types.SendOnly {
				if ch != nil && (ch.closed || len(ch.q) < ch.cap) {
					if ch.closed {
						rtPanic("send on closed channel")
					}
					ch.q = append(ch.q, m.opv(fr, &ci.xs[2*i+1]))
					if m.trace != nil {
						m.trace.sync(m, th, ch)
					}
					res.f[0] = intV(int64(i))
					fr.regs[ci.dst] = Value{P: res}
					return false
				}
				continue
			}
			if ch != nil {
				if v, ok, ready := m.tryRecv(ch); ready {
					if m.trace != nil {
						m.trace.sync(m, th, ch)
					}
					res.f[0] = intV(int64(i))
					res.f[1] = boolV(ok)
					if !ok {
						v = copyVal(zeroOf(st.Chan.Type().Underlying().(*types.Chan).Elem()))
					}
					res.f[2+ri] = v
					fr.regs[ci.dst] = Value{P: res}
					return false
				}
			}
			ri++
		}
		if !ci.flag {
			res.f[0] = Value{N: ^uint64(0)}
			fr.regs[ci.dst] = Value{P: res}
			return false
		}
		th.why = "select"
		return true
	}
	return false
}

func (m *Machine) trySend(th *Thread, fr *frame, ch *ChanV, v Value) bool {
	if ch.closed {
		rtPanic("send on closed channel")
	}
	if ch.cap > 0 {
		if len(ch.q) < ch.cap {
			ch.q = append(ch.q, v)
			return true
		}
		th.why = "chan send"
		return false
	}
	key := fr
	for i, s := range ch.sendq {
		if s.v.P == any(key) {
			_ = i
		}
	}
	// unbuffered: first attempt enqueues, later attempts check whether it was taken
	if st, ok := m.side[&fr.regs[0]].(*chanSend); ok && st != nil {
		if st.taken {
			delete(m.side, &fr.regs[0])
			return true
		}
		th.why = "chan send"
		return false
	}
	s := &chanSend{v: v}
	ch.sendq = append(ch.sendq, s)
	m.side[&fr.regs[0]] = s
	th.why = "chan send"
	return false
}

func (m *Machine) tryRecv(ch *ChanV) (Value, bool, bool) {
	if len(ch.q) > 0 {
		v := ch.q[0]
		ch.q = ch.q[1:]
		return v, true, true
	}
	if len(ch.sendq) > 0 {
		s := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		s.taken = true
		return s.v, true, true
	}
	if ch.closed {
		return Value{}, false, true
	}
	return Value{}, false, false
}

// ---- utf8 ----

// decodeRune models utf8.DecodeRune on possibly symbolic bytes, forking on the byte classes.
func (m *Machine) decodeRune(b []Value) (Value, int) {
	c := m.ctx
	bad := Value{N: 0xFFFD}
	if len(b) == 0 {
		return bad, 0
	}
	conc := true
	n := len(b)
	if n > 4 {
		n = 4
	}
	for i := 0; i < n; i++ {
		if b[i].P != nil {
			conc = false
			break
		}
		if i == 0 && b[0].N < 0x80 {
			return Value{N: b[0].N}, 1
		}
	}
	if conc {
		var buf [4]byte
		for i := 0; i < n; i++ {
			buf[i] = byte(b[i].N)
		}
		r, s := utf8.DecodeRune(buf[:n])
		return Value{N: uint64(uint32(r))}, s
	}
	t := func(i int) *Term { return m.domTerm(b[i], 8) }
	k := func(v uint64) *Term { return c.Const(8, v) }
	in := func(x *Term, lo, hi uint64) *Term { return c.And(c.Bin(OpUle, k(lo), x), c.Bin(OpUle, x, k(hi))) }
	z := func(x *Term) *Term { return c.Zext(x, 32) }
	b0 := t(0)
	if m.branch(c.Bin(OpUlt, b0, k(0x80))) {
		return m.fromTerm(z(b0)), 1
	}
	if m.branch(c.Or(c.Bin(OpUlt, b0, k(0xC2)), c.Bin(OpUlt, k(0xF4), b0))) {
		return bad, 1
	}
	m6 := func(x *Term) *Term { return c.Bin(OpAnd, z(x), c.Const(32, 0x3F)) }
	shl := func(x *Term, s uint64) *Term { return c.Bin(OpShl, x, c.Const(32, s)) }
	or := func(x, y *Term) *Term { return c.Bin(OpOr, x, y) }
	if m.branch(c.Bin(OpUlt, b0, k(0xE0))) {
		if n < 2 || !m.branch(in(t(1), 0x80, 0xBF)) {
			return bad, 1
		}
		return m.fromTerm(or(shl(c.Bin(OpAnd, z(b0), c.Const(32, 0x1F)), 6), m6(t(1)))), 2
	}
	if m.branch(c.Bin(OpUlt, b0, k(0xF0))) {
		if n < 2 {
			return bad, 1
		}
		lo := c.Ite(c.Bin(OpEq, b0, k(0xE0)), k(0xA0), k(0x80))
		hi := c.Ite(c.Bin(OpEq, b0, k(0xED)), k(0x9F), k(0xBF))
		if !m.branch(c.And(c.Bin(OpUle, lo, t(1)), c.Bin(OpUle, t(1), hi))) {
			return bad, 1
		}
		if n < 3 || !m.branch(in(t(2), 0x80, 0xBF)) {
			return bad, 1
		}
		return m.fromTerm(or(or(shl(c.Bin(OpAnd, z(b0), c.Const(32, 0xF)), 12), shl(m6(t(1)), 6)), m6(t(2)))), 3
	}
	if n < 2 {
		return bad, 1
	}
	lo := c.Ite(c.Bin(OpEq, b0, k(0xF0)), k(0x90), k(0x80))
	hi := c.Ite(c.Bin(OpEq, b0, k(0xF4)), k(0x8F), k(0xBF))
	if !m.branch(c.And(c.Bin(OpUle, lo, t(1)), c.Bin(OpUle, t(1), hi))) {
		return bad, 1
	}
	if n < 3 || !m.branch(in(t(2), 0x80, 0xBF)) {
		return bad, 1
	}
	if n < 4 || !m.branch(in(t(3), 0x80, 0xBF)) {
		return bad, 1
	}
	return m.fromTerm(or(or(or(shl(c.Bin(OpAnd, z(b0), c.Const(32, 7)), 18), shl(m6(t(1)), 12)), shl(m6(t(2)), 6)), m6(t(3)))), 4
}

// fullRune models utf8.FullRune.
func (m *Machine) fullRune(b []Value) bool {
	if len(b) == 0 {
		return false
	}
	c := m.ctx
	n := len(b)
	conc := true
	for i := 0; i < n && i < 4; i++ {
		if b[i].P != nil {
			conc = false
			break
		}
		if i == 0 && b[0].N < 0x80 {
			return true
		}
	}
	if conc {
		var buf []byte
		for i := 0; i < n && i < 4; i++ {
			buf = append(buf, byte(b[i].N))
		}
		return utf8.FullRune(buf)
	}
	t := func(i int) *Term { return m.domTerm(b[i], 8) }
	k := func(v uint64) *Term { return c.Const(8, v) }
	b0 := t(0)
	if m.branch(c.Bin(OpUlt, b0, k(0x80))) {
		return true
	}
	if m.branch(c.Or(c.Bin(OpUlt, b0, k(0xC2)), c.Bin(OpUlt, k(0xF4), b0))) {
		return true
	}
	need := 4
	if m.branch(c.Bin(OpUlt, b0, k(0xE0))) {
		need = 2
	} else if m.branch(c.Bin(OpUlt, b0, k(0xF0))) {
		need = 3
	}
	if n >= need {
		return true
	}
	if n >= 2 {
		var lo, hi *Term
		if need == 3 {
			lo = c.Ite(c.Bin(OpEq, b0, k(0xE0)), k(0xA0), k(0x80))
			hi = c.Ite(c.Bin(OpEq, b0, k(0xED)), k(0x9F), k(0xBF))
		} else {
			lo = c.Ite(c.Bin(OpEq, b0, k(0xF0)), k(0x90), k(0x80))
			hi = c.Ite(c.Bin(OpEq, b0, k(0xF4)), k(0x8F), k(0xBF))
		}
		if !m.branch(c.And(c.Bin(OpUle, lo, t(1)), c.Bin(OpUle, t(1), hi))) {
			return true
		}
	}
	if n >= 3 {
		if !m.branch(c.And(c.Bin(OpUle, k(0x80), t(2)), c.Bin(OpUle, t(2), k(0xBF)))) {
			return true
		}
	}
	return false
}

// mkRuneStr encodes a symbolic rune, forking on its UTF-8 length.
func (m *Machine) mkRuneStr(r Value) Value {
	t, ok := r.P.(*Term)
	if !ok {
		return strV(string(rune(int32(r.N))))
	}
	c := m.ctx
	k := func(v uint64) *Term { return c.Const(32, v) }
	byt := func(x *Term, or uint64) Value {
		return m.fromTerm(c.Bin(OpOr, c.Extract(x, 0, 8), c.Const(8, or)))
	}
	shr := func(x *Term, s uint64) *Term { return c.Bin(OpLshr, x, k(s)) }
	m6 := func(x *Term) *Term { return c.Bin(OpAnd, x, k(0x3F)) }
	if m.branch(c.Bin(OpUlt, t, k(0x80))) {
		return Value{P: &SStr{b: []Value{m.fromTerm(c.Extract(t, 0, 8))}}}
	}
	if m.branch(c.Bin(OpUlt, t, k(0x800))) {
		return Value{P: &SStr{b: []Value{byt(shr(t, 6), 0xC0), byt(m6(t), 0x80)}}}
	}
	if m.branch(c.Or(c.Bin(OpUlt, k(0x10FFFF), t), c.And(c.Bin(OpUle, k(0xD800), t), c.Bin(OpUle, t, k(0xDFFF))))) {
		return strV("\uFFFD")
	}
	if m.branch(c.Bin(OpUlt, t, k(0x10000))) {
		return mkStr([]Value{byt(shr(t, 12), 0xE0), byt(m6(shr(t, 6)), 0x80), byt(m6(t), 0x80)})
	}
	return mkStr([]Value{byt(shr(t, 18), 0xF0), byt(m6(shr(t, 12)), 0x80), byt(m6(shr(t, 6)), 0x80), byt(m6(t), 0x80)})
}

// ---- if-conversion ----

type specStore struct {
	p *Value
	v Value
}

// symIf tries to execute the symbolic If at the end of fr.blk without forking.
func (m *Machine) symIf(th *Thread, fr *frame, c *Term) bool {
	if m.noMerge || m.trace != nil {
		return false
	}
	switch m.quick(c) {
	case 0, 1:
		return false
	}
	cf := fr.cf
	b := fr.blk
	for depth := 0; depth < 6; depth++ {
		T, F := &cf.blocks[b.succs[0]], &cf.blocks[b.succs[1]]
		// short-circuit: F (or T) is a pure block ending in an If sharing a target
		if nb, nc, ok := m.shortCircuit(fr, b, c, T, F); ok {
			b, c = nb, nc
			if c.op == OpConst {
				s := b.succs[1]
				if c.k == 1 {
					s = b.succs[0]
				}
				fr.blk = b
				m.jump(fr, s)
				return true
			}
			if depth == 0 || true {
				if m.tryDiamond(th, fr, b, c) {
					return true
				}
			}
			T, F = &cf.blocks[b.succs[0]], &cf.blocks[b.succs[1]]
			// keep combining
			if _, _, ok2 := m.peekShort(b, T, F); ok2 {
				continue
			}
			// fork once on the combined condition
			t := m.branch(c)
			fr.blk = b
			if t {
				m.jump(fr, b.succs[0])
			} else {
				m.jump(fr, b.succs[1])
			}
			return true
		}
		if depth == 0 && m.tryDiamond(th, fr, b, c) {
			return true
		}
		break
	}
	if b != fr.blk {
		t := m.branch(c)
		fr.blk = b
		if t {
			m.jump(fr, b.succs[0])
		} else {
			m.jump(fr, b.succs[1])
		}
		return true
	}
	return false
}

func (m *Machine) peekShort(b, T, F *cblock) (int, int, bool) {
	if F.pure && len(F.preds) == 1 && F.last.op == iIf && len(F.phis) == 0 && noStores(F) {
		if F.succs[0] == T.idx || F.succs[1] == T.idx {
			return 1, 0, true
		}
	}
	if T.pure && len(T.preds) == 1 && T.last.op == iIf && len(T.phis) == 0 && noStores(T) {
		if T.succs[0] == F.idx || T.succs[1] == F.idx {
			return 0, 0, true
		}
	}
	return 0, 0, false
}

func noStores(b *cblock) bool {
	for i := range b.insts {
		if b.insts[i].op == iStore {
			return false
		}
	}
	return true
}

func predEdge(nb *cblock, from int) int {
	for i, p := range nb.preds {
		if p == from {
			return i
		}
	}
	return -1
}

// shortCircuit folds "if c goto X else B2; B2: if c2 goto X/Y ..." into one condition evaluated at B2.
func (m *Machine) shortCircuit(fr *frame, b *cblock, c *Term, T, F *cblock) (*cblock, *Term, bool) {
	try := func(B2, X *cblock, cond *Term) (*cblock, *Term, bool) {
		// cond true -> X ; false -> B2
		if !(B2.pure && len(B2.preds) == 1 && B2.last.op == iIf && len(B2.phis) == 0 && noStores(B2)) {
			return nil, nil, false
		}
		var xi int
		switch X.idx {
		case B2.succs[0]:
			xi = 0
		case B2.succs[1]:
			xi = 1
		default:
			return nil, nil, false
		}
		if B2.succs[0] == B2.succs[1] {
			return nil, nil, false
		}
		// X must not distinguish the two edges
		if len(X.phis) > 0 {
			e1, e2 := predEdge(X, b.idx), predEdge(X, B2.idx)
			for i := range X.phis {
				o1, o2 := &X.phis[i].edges[e1], &X.phis[i].edges[e2]
				if o1.k == oReg && o2.k == oReg && o1.idx == o2.idx {
					continue
				}
				if o1.k == oConst && o2.k == oConst && o1.v.P == nil && o2.v.P == nil && o1.v.N == o2.v.N {
					continue
				}
				return nil, nil, false
			}
		}
		var st []specStore
		if !m.spec(fr, B2, &st) {
			return nil, nil, false
		}
		c2v := m.opv(fr, &B2.last.x)
		c2 := m.domTerm(c2v, 0)
		if xi == 0 {
			return B2, m.ctx.Or(cond, c2), true
		}
		return B2, m.ctx.And(m.ctx.Not(cond), c2), true
	}
	if nb, nc, ok := try(F, T, c); ok {
		return nb, nc, true
	}
	return try(T, F, m.ctx.Not(c))
}

// tryDiamond merges if/else arms that are pure and rejoin (or both return).
func (m *Machine) tryDiamond(th *Thread, fr *frame, b *cblock, c *Term) bool {
	cf := fr.cf
	T, F := &cf.blocks[b.succs[0]], &cf.blocks[b.succs[1]]
	if T == F {
		return false
	}
	arm := func(x *cblock) bool {
		return x.pure && len(x.preds) == 1 && len(x.phis) == 0 && x.last.op == iJump
	}
	var J *cblock
	var tArm, fArm *cblock
	switch {
	case arm(T) && arm(F) && T.succs[0] == F.succs[0]:
		J, tArm, fArm = &cf.blocks[T.succs[0]], T, F
	case arm(T) && T.succs[0] == F.idx:
		J, tArm = F, T
	case arm(F) && F.succs[0] == T.idx:
		J, fArm = T, F
	}
	if J != nil {
		var st1, st2 []specStore
		if tArm != nil && !m.spec(fr, tArm, &st1) {
			return false
		}
		if fArm != nil && !m.spec(fr, fArm, &st2) {
			return false
		}
		from := func(a *cblock) int {
			if a != nil {
				return predEdge(J, a.idx)
			}
			return predEdge(J, b.idx)
		}
		e1, e2 := from(tArm), from(fArm)
		vals := make([]Value, len(J.phis))
		for i := range J.phis {
			v1, v2 := m.opv(fr, &J.phis[i].edges[e1]), m.opv(fr, &J.phis[i].edges[e2])
			v, ok := m.mergeVal(c, v1, v2, J.phis[i].ti)
			if !ok {
				return false
			}
			vals[i] = v
		}
		if !m.mergeStores(c, st1, st2) {
			return false
		}
		for i := range J.phis {
			fr.regs[J.phis[i].dst] = vals[i]
		}
		fr.blk = J
		fr.pc = 0
		return true
	}
	// both arms return
	if T.pure && F.pure && T.last.op == iReturn && F.last.op == iReturn && len(T.preds) == 1 && len(F.preds) == 1 && len(T.phis) == 0 && len(F.phis) == 0 {
		var st1, st2 []specStore
		if !m.spec(fr, T, &st1) || !m.spec(fr, F, &st2) {
			return false
		}
		r1, r2 := T.last.xs, F.last.xs
		vals := make([]Value, len(r1))
		for i := range r1 {
			v, ok := m.mergeVal(c, m.opv(fr, &r1[i]), m.opv(fr, &r2[i]), cf.resTi[i])
			if !ok {
				return false
			}
			vals[i] = v
		}
		if !m.mergeStores(c, st1, st2) {
			return false
		}
		var rv Value
		switch len(vals) {
		case 0:
		case 1:
			rv = vals[0]
		default:
			rv = Value{P: &Agg{f: vals}}
		}
		m.doReturn(th, rv)
		return true
	}
	return false
}

func (m *Machine) mergeVal(c *Term, a, b Value, ti tinfo) (Value, bool) {
	switch ti.k {
	case kInt:
		return m.fromTerm(m.ctx.Ite(c, m.domTerm(a, ti.w), m.domTerm(b, ti.w))), true
	case kBool:
		return m.fromTerm(m.ctx.Ite(c, m.domTerm(a, 0), m.domTerm(b, 0))), true
	}
	return mergeSame(a, b)
}

func mergeSame(a, b Value) (Value, bool) {
	switch pa := a.P.(type) {
	case nil:
		if b.P == nil && a.N == b.N {
			return a, true
		}
	case string:
		if pb, ok := b.P.(string); ok && pa == pb {
			return a, true
		}
	case *Value:
		if pb, ok := b.P.(*Value); ok && pa == pb {
			return a, true
		}
	}
	return Value{}, false
}

func (m *Machine) mergeStores(c *Term, s1, s2 []specStore) bool {
	if len(s1) == 0 && len(s2) == 0 {
		return true
	}
	last := func(s []specStore, p *Value) (Value, bool) {
		for i := len(s) - 1; i >= 0; i-- {
			if s[i].p == p {
				return s[i].v, true
			}
		}
		return Value{}, false
	}
	type upd struct {
		p *Value
		v Value
	}
	var us []upd
	seen := map[*Value]bool{}
	for _, s := range append(append([]specStore(nil), s1...), s2...) {
		if seen[s.p] {
			continue
		}
		seen[s.p] = true
		v1, ok := last(s1, s.p)
		if !ok {
			v1 = *s.p
		}
		v2, ok := last(s2, s.p)
		if !ok {
			v2 = *s.p
		}
		w := -1
		for _, v := range []Value{v1, v2} {
			if t, ok := v.P.(*Term); ok {
				w = int(t.w)
			} else if v.P != nil {
				return false
			}
		}
		if w < 0 {
			w = m.specW[s.p]
			if w < 0 {
				return false
			}
		}
		us = append(us, upd{s.p, m.fromTerm(m.ctx.Ite(c, m.domTerm(v1, uint8(w)), m.domTerm(v2, uint8(w))))})
	}
	for _, u := range us {
		*u.p = u.v
	}
	return true
}

// spec executes a pure block speculatively (no side effects except registers);
// stores are collected.  It reports false when something non-trivial is met.
func (m *Machine) spec(fr *frame, b *cblock, st *[]specStore) bool {
	for i := range b.insts {
		ci := &b.insts[i]
		switch ci.op {
		case iJump, iIf, iReturn, iNop:
		case iNot, iNeg, iCompl, iChangeType:
			m.exec(nil, fr, ci)
		case iExtract, iField:
			if _, ok := m.opv(fr, &ci.x).P.(*Agg); !ok {
				return false
			}
			m.exec(nil, fr, ci)
		case iConvert:
			if ci.ti.k != kInt || ci.ti2.k != kInt {
				return false
			}
			m.exec(nil, fr, ci)
		case iBinOp:
			if ci.tok == token.QUO || ci.tok == token.REM {
				if ci.y.k != oConst || ci.y.v.N == 0 {
					return false
				}
			}
			if ci.ti.k != kInt && ci.ti.k != kBool {
				return false
			}
			if (ci.tok == token.SHL || ci.tok == token.SHR) && ci.ti2.signed && ci.y.k != oConst {
				return false
			}
			m.exec(nil, fr, ci)
		case iFieldAddr:
			p, ok := m.opv(fr, &ci.x).P.(*Value)
			if !ok || p == nil {
				return false
			}
			if _, ok := p.P.(*Agg); !ok {
				return false
			}
			m.exec(nil, fr, ci)
		case iIndexAddr, iIndex:
			iv := m.opv(fr, &ci.y)
			n := -1
			var el []Value
			switch p := m.opv(fr, &ci.x).P.(type) {
			case *SliceV:
				n, el = len(p.a), p.a
			case *Agg:
				n, el = len(p.f), p.f
			case string:
				n = len(p)
			case *SStr:
				n = len(p.b)
			case *Value:
				if p != nil {
					if a, ok := p.P.(*Agg); ok {
						n, el = len(a.f), a.f
					}
				}
			}
			if t, ok := iv.P.(*Term); ok {
				if !ci.flag || el == nil || t.hi >= uint64(n) || m.trace != nil || !concElems(el) {
					return false
				}
				fr.regs[ci.dst] = m.tableRead(el, t, uint8(ci.n))
				if ci.op == iIndexAddr {
					v := fr.regs[ci.dst]
					fr.regs[ci.dst] = Value{P: &v}
				}
				break
			}
			if n < 0 || iv.N >= uint64(n) {
				return false
			}
			m.exec(nil, fr, ci)
		case iDeref:
			p, ok := m.opv(fr, &ci.x).P.(*Value)
			if !ok || p == nil {
				return false
			}
			found := false
			for j := len(*st) - 1; j >= 0; j-- {
				if (*st)[j].p == p {
					fr.regs[ci.dst] = (*st)[j].v
					found = true
					break
				}
			}
			if found {
				break
			}
			if ci.ti.k == kAgg && len(*st) > 0 {
				return false
			}
			m.exec(nil, fr, ci)
		case iStore:
			p, ok := m.opv(fr, &ci.x).P.(*Value)
			if !ok || p == nil {
				return false
			}
			v := m.opv(fr, &ci.y)
			if v.P != nil {
				if _, ok := v.P.(*Term); !ok {
					return false
				}
			}
			sti := typeInfo(ci.in.(*ssa.Store).Val.Type())
			if sti.k != kInt && sti.k != kBool {
				return false
			}
			if m.specW == nil {
				m.specW = map[*Value]int{}
			}
			m.specW[p] = int(sti.w)
			*st = append(*st, specStore{p, v})
		default:
			return false
		}
	}
	return true
}

var _ = strings.Contains
