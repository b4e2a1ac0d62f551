package main

import (
	"fmt"
	"strings"
)

// Terms are hash-consed bit-vector (w>0) or boolean (w==0) expressions.

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpNot // bitwise not / boolean not
	OpNeg
	OpShl
	OpLshr
	OpAshr
	OpExtract // k = lo bit, w = width
	OpZext
	OpSext
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpBAnd // boolean
	OpBOr
	OpTable // table lookup: k = table id, a = index
)

var opNames = map[Op]string{OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem",
	OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpNeg: "bvneg", OpShl: "bvshl",
	OpLshr: "bvlshr", OpAshr: "bvashr", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpBAnd: "and", OpBOr: "or", OpIte: "ite"}

type varSet [6]uint64

func (s *varSet) has(i int) bool { return s[i>>6]&(1<<(uint(i)&63)) != 0 }
func (s *varSet) intersects(o *varSet) bool {
	for i := range s {
		if s[i]&o[i] != 0 {
			return true
		}
	}
	return false
}
func (s *varSet) union(o *varSet) {
	for i := range s {
		s[i] |= o[i]
	}
}
func (s *varSet) contains(o *varSet) bool {
	for i := range s {
		if o[i]&^s[i] != 0 {
			return false
		}
	}
	return true
}

const maxVars = 6 * 64

type Term struct {
	op      Op
	w       uint8
	id      int32
	k       uint64 // const value, extract lo, var index, table id
	a, b, c *Term
	lo, hi  uint64 // unsigned interval
	vars    varSet
	nvars   int32
	onlyVar int32 // if nvars==1
}

type termKey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c int32
	lo, hi  uint64 // only for vars
}

// Table is a constant function of an unsigned index, given as sorted ranges.
type Table struct {
	id    int
	inW   uint8
	outW  uint8
	start []uint64 // start[i] <= idx < start[i+1] -> val[i]
	val   []uint64
	def   uint64 // unused; ranges cover everything
}

func (t *Table) at(i uint64) uint64 {
	lo, hi := 0, len(t.start)-1
	for lo < hi {
		m := (lo + hi + 1) / 2
		if t.start[m] <= i {
			lo = m
		} else {
			hi = m - 1
		}
	}
	return t.val[lo]
}

type varInfo struct {
	name   string
	w      uint8
	lo, hi uint64
	t      *Term
}

// Ctx owns hash-consing for one worker.
type Ctx struct {
	m      map[termKey]*Term
	n      int32
	tru    *Term
	fls    *Term
	tables []*Table
	tblIdx map[string]*Table
}

func newCtx() *Ctx {
	c := &Ctx{m: map[termKey]*Term{}, tblIdx: map[string]*Table{}}
	c.tru = c.mk(Term{op: OpConst, w: 0, k: 1, lo: 1, hi: 1})
	c.fls = c.mk(Term{op: OpConst, w: 0, k: 0, lo: 0, hi: 0})
	return c
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (c *Ctx) mk(t Term) *Term {
	key := termKey{t.op, t.w, t.k, tid(t.a), tid(t.b), tid(t.c), 0, 0}
	if t.op == OpVar {
		key.lo, key.hi = t.lo, t.hi
	}
	if r, ok := c.m[key]; ok {
		return r
	}
	r := new(Term)
	*r = t
	c.n++
	r.id = c.n
	if t.op != OpVar {
		for _, x := range [3]*Term{t.a, t.b, t.c} {
			if x != nil {
				r.vars.union(&x.vars)
			}
		}
	} else {
		r.vars[t.k>>6] |= 1 << (t.k & 63)
	}
	cnt := int32(0)
	for i, w := range r.vars {
		for w != 0 {
			b := trailing(w)
			r.onlyVar = int32(i*64 + b)
			cnt++
			w &= w - 1
		}
	}
	r.nvars = cnt
	if t.op != OpConst && t.op != OpVar {
		r.lo, r.hi = c.interval(r)
	}
	c.m[key] = r
	return r
}

func trailing(w uint64) int {
	n := 0
	for w&1 == 0 {
		w >>= 1
		n++
	}
	return n
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

// interval computes a conservative unsigned interval of t from its children.
func (c *Ctx) interval(t *Term) (uint64, uint64) {
	return ivOp(c, t, func(x *Term) (uint64, uint64) { return x.lo, x.hi })
}

func ivOp(c *Ctx, t *Term, iv func(*Term) (uint64, uint64)) (uint64, uint64) {
	m := mask(t.w)
	full := func() (uint64, uint64) { return 0, m }
	switch t.op {
	case OpConst:
		return t.k, t.k
	case OpVar:
		return t.lo, t.hi
	case OpAdd:
		al, ah := iv(t.a)
		bl, bh := iv(t.b)
		// both halves wrap identically (e.g. x + (-1) with x>=1)
		lo := al + bl
		hi := ah + bh
		lw := lo < al || lo > m
		hw := hi < ah || hi > m
		if lw == hw {
			return lo & m, hi & m
		}
		return full()
	case OpSub:
		al, ah := iv(t.a)
		bl, bh := iv(t.b)
		if al >= bh {
			return al - bh, ah - bl
		}
		if ah < bl { // always wraps
			return (al - bh) & m, (ah - bl) & m
		}
		return full()
	case OpMul:
		_, ah := iv(t.a)
		_, bh := iv(t.b)
		al, _ := iv(t.a)
		bl, _ := iv(t.b)
		if ah != 0 && bh > m/ah {
			return full()
		}
		return al * bl, ah * bh
	case OpUDiv:
		al, ah := iv(t.a)
		bl, bh := iv(t.b)
		if bl == 0 {
			return full()
		}
		return al / bh, ah / bl
	case OpURem:
		_, ah := iv(t.a)
		bl, bh := iv(t.b)
		if bl == 0 {
			return full()
		}
		h := bh - 1
		if ah < h {
			h = ah
		}
		al, _ := iv(t.a)
		if ah < bl {
			return al, ah
		}
		return 0, h
	case OpAnd:
		_, ah := iv(t.a)
		_, bh := iv(t.b)
		h := ah
		if bh < h {
			h = bh
		}
		return 0, h
	case OpOr, OpXor:
		al, ah := iv(t.a)
		bl, bh := iv(t.b)
		h := ah | bh
		// smallest all-ones >= h
		for s := uint(1); s < 64; s <<= 1 {
			h |= h >> s
		}
		l := uint64(0)
		if t.op == OpOr {
			l = al
			if bl > l {
				l = bl
			}
		}
		return l, h & m
	case OpShl:
		if t.b.op == OpConst {
			al, ah := iv(t.a)
			s := t.b.k
			if s < uint64(t.w) && ah <= m>>s {
				return al << s, ah << s
			}
		}
		return full()
	case OpLshr:
		if t.b.op == OpConst {
			al, ah := iv(t.a)
			s := t.b.k
			if s < uint64(t.w) {
				return al >> s, ah >> s
			}
			return 0, 0
		}
		_, ah := iv(t.a)
		return 0, ah
	case OpAshr:
		_, ah := iv(t.a)
		al, _ := iv(t.a)
		if ah < uint64(1)<<(t.w-1) && t.b.op == OpConst && t.b.k < uint64(t.w) {
			return al >> t.b.k, ah >> t.b.k
		}
		return full()
	case OpExtract:
		al, ah := iv(t.a)
		if ah>>t.k <= m {
			return al >> t.k, ah >> t.k
		}
		return full()
	case OpZext:
		return iv(t.a)
	case OpSext:
		al, ah := iv(t.a)
		half := uint64(1) << (t.a.w - 1)
		if ah < half {
			return al, ah
		}
		if al >= half {
			return uint64(sx(al, t.a.w)) & m, uint64(sx(ah, t.a.w)) & m
		}
		return full()
	case OpIte:
		cl, ch := iv(t.a)
		if cl == ch {
			if cl == 1 {
				return iv(t.b)
			}
			return iv(t.c)
		}
		bl, bh := iv(t.b)
		xl, xh := iv(t.c)
		if xl < bl {
			bl = xl
		}
		if xh > bh {
			bh = xh
		}
		return bl, bh
	case OpTable:
		tb := c.tables[t.k]
		al, ah := iv(t.a)
		mn, mx := ^uint64(0), uint64(0)
		for i := range tb.start {
			s := tb.start[i]
			e := ^uint64(0)
			if i+1 < len(tb.start) {
				e = tb.start[i+1] - 1
			}
			if e < al || s > ah {
				continue
			}
			if tb.val[i] < mn {
				mn = tb.val[i]
			}
			if tb.val[i] > mx {
				mx = tb.val[i]
			}
		}
		if mn > mx {
			return full()
		}
		return mn, mx
	case OpNot:
		if t.w == 0 {
			al, ah := iv(t.a)
			return 1 - ah, 1 - al
		}
		al, ah := iv(t.a)
		return (^ah) & m, (^al) & m
	case OpNeg:
		al, ah := iv(t.a)
		if al > 0 {
			return (-ah) & m, (-al) & m
		}
		if ah == 0 {
			return 0, 0
		}
		return full()
	case OpEq:
		al, ah := iv(t.a)
		bl, bh := iv(t.b)
		if al == ah && bl == bh && al == bl {
			return 1, 1
		}
		if ah < bl || bh < al {
			return 0, 0
		}
		return 0, 1
	case OpUlt:
		al, ah := iv(t.a)
		bl, bh := iv(t.b)
		if ah < bl {
			return 1, 1
		}
		if al >= bh {
			return 0, 0
		}
		return 0, 1
	case OpUle:
		al, ah := iv(t.a)
		bl, bh := iv(t.b)
		if ah <= bl {
			return 1, 1
		}
		if al > bh {
			return 0, 0
		}
		return 0, 1
	case OpSlt, OpSle:
		al, ah := iv(t.a)
		bl, bh := iv(t.b)
		sal, sah, ok1 := sIv(al, ah, t.a.w)
		sbl, sbh, ok2 := sIv(bl, bh, t.b.w)
		if !ok1 {
			sal, sah = minS(t.a.w), maxS(t.a.w)
		}
		if !ok2 {
			sbl, sbh = minS(t.b.w), maxS(t.b.w)
		}
		if t.op == OpSlt {
			if sah < sbl {
				return 1, 1
			}
			if sal >= sbh {
				return 0, 0
			}
		} else {
			if sah <= sbl {
				return 1, 1
			}
			if sal > sbh {
				return 0, 0
			}
		}
		return 0, 1
	case OpBAnd:
		al, ah := iv(t.a)
		bl, bh := iv(t.b)
		return al & bl, ah & bh
	case OpBOr:
		al, ah := iv(t.a)
		bl, bh := iv(t.b)
		return al | bl, ah | bh
	}
	return full()
}

func minS(w uint8) int64 { return -(int64(1) << (w - 1)) }
func maxS(w uint8) int64 { return int64(mask(w) >> 1) }

func sIv(lo, hi uint64, w uint8) (int64, int64, bool) {
	half := uint64(1) << (w - 1)
	if hi < half || lo >= half {
		return sx(lo, w), sx(hi, w), true
	}
	return 0, 0, false
}

func (c *Ctx) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return c.tru
		}
		return c.fls
	}
	v &= mask(w)
	return c.mk(Term{op: OpConst, w: w, k: v, lo: v, hi: v})
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tru
	}
	return c.fls
}

func (c *Ctx) Var(idx int, w uint8, lo, hi uint64) *Term {
	if idx >= maxVars {
		panic(engErr("too many symbolic variables on one path"))
	}
	return c.mk(Term{op: OpVar, w: w, k: uint64(idx), lo: lo, hi: hi})
}

func evalOp(op Op, w, aw uint8, k, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (a + b) & m
	case OpSub:
		return (a - b) & m
	case OpMul:
		return (a * b) & m
	case OpUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpAnd:
		return a & b
	case OpOr:
		return a | b
	case OpXor:
		return a ^ b
	case OpNot:
		return (^a) & m
	case OpNeg:
		return (-a) & m
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OpLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAshr:
		s := b
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		return uint64(sx(a, w)>>s) & m
	case OpExtract:
		return (a >> k) & m
	case OpZext:
		return a
	case OpSext:
		return uint64(sx(a, aw)) & m
	case OpEq:
		return b2u(a == b)
	case OpUlt:
		return b2u(a < b)
	case OpUle:
		return b2u(a <= b)
	case OpSlt:
		return b2u(sx(a, aw) < sx(b, aw))
	case OpSle:
		return b2u(sx(a, aw) <= sx(b, aw))
	case OpBAnd:
		return a & b
	case OpBOr:
		return a | b
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func commutative(op Op) bool {
	switch op {
	case OpAdd, OpMul, OpAnd, OpOr, OpXor, OpEq, OpBAnd, OpBOr:
		return true
	}
	return false
}

func isC(t *Term, v uint64) bool { return t.op == OpConst && t.k == v }

// Bin builds a binary term with result width w (0 for predicates).
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	switch op {
	case OpEq, OpUlt, OpUle, OpSlt, OpSle, OpBAnd, OpBOr:
		w = 0
	}
	if a.w != b.w {
		panic(engErr(fmt.Sprintf("width mismatch op %d: %d vs %d", op, a.w, b.w)))
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Const(w, evalOp(op, w, a.w, 0, a.k, b.k))
	}
	if commutative(op) && (a.op == OpConst || (b.op != OpConst && a.id > b.id)) {
		a, b = b, a
	}
	m := mask(a.w)
	switch op {
	case OpAdd:
		if isC(b, 0) {
			return a
		}
		if b.op == OpConst && a.op == OpAdd && a.b.op == OpConst {
			return c.Bin(OpAdd, a.a, c.Const(w, a.b.k+b.k))
		}
	case OpSub:
		if isC(b, 0) {
			return a
		}
		if a == b {
			return c.Const(w, 0)
		}
		if b.op == OpConst {
			return c.Bin(OpAdd, a, c.Const(w, -b.k))
		}
		// (x+k)-x -> k
		if a.op == OpAdd && a.a == b {
			return a.b
		}
		if a.op == OpAdd && a.b == b {
			return a.a
		}
		// (x+k)-(x+j)
		if a.op == OpAdd && b.op == OpAdd && a.a == b.a && a.b.op == OpConst && b.b.op == OpConst {
			return c.Const(w, a.b.k-b.b.k)
		}
		// x-(x+k)
		if b.op == OpAdd && b.a == a {
			return c.Neg(b.b)
		}
		if b.op == OpAdd && b.b == a {
			return c.Neg(b.a)
		}
	case OpMul:
		if isC(b, 0) {
			return b
		}
		if isC(b, 1) {
			return a
		}
	case OpUDiv, OpSDiv:
		if isC(b, 1) {
			return a
		}
	case OpURem:
		if b.op == OpConst && b.k != 0 && b.k&(b.k-1) == 0 {
			return c.Bin(OpAnd, a, c.Const(w, b.k-1))
		}
		if b.op == OpConst && a.hi < b.k {
			return a
		}
	case OpAnd:
		if isC(b, 0) {
			return b
		}
		if isC(b, m) {
			return a
		}
		if a == b {
			return a
		}
		if b.op == OpConst && b.k&(b.k+1) == 0 && a.hi <= b.k {
			return a
		}
		if b.op == OpConst {
			if a.op == OpAnd && a.b.op == OpConst {
				return c.Bin(OpAnd, a.a, c.Const(w, a.b.k&b.k))
			}
			if a.op == OpOr {
				x, y := a.a, a.b
				// distribute if one side vanishes
				if topMask(x.hi)&b.k == 0 {
					return c.Bin(OpAnd, y, b)
				}
				if topMask(y.hi)&b.k == 0 {
					return c.Bin(OpAnd, x, b)
				}
				if y.op == OpConst {
					return c.Bin(OpOr, c.Bin(OpAnd, x, b), c.Const(w, y.k&b.k))
				}
			}
			if a.op == OpShl && a.b.op == OpConst {
				// all of b's bits below the shift
				if a.b.k < 64 && b.k < (uint64(1)<<a.b.k) {
					return c.Const(w, 0)
				}
			}
		}
	case OpOr:
		if isC(b, 0) {
			return a
		}
		if isC(b, m) {
			return b
		}
		if a == b {
			return a
		}
		if b.op == OpConst && a.op == OpOr && a.b.op == OpConst {
			return c.Bin(OpOr, a.a, c.Const(w, a.b.k|b.k))
		}
	case OpXor:
		if isC(b, 0) {
			return a
		}
		if a == b {
			return c.Const(w, 0)
		}
	case OpShl, OpLshr, OpAshr:
		if isC(b, 0) {
			return a
		}
		if b.op == OpConst && b.k >= uint64(w) && op != OpAshr {
			return c.Const(w, 0)
		}
		if op == OpLshr && b.op == OpConst {
			if a.hi>>b.k == 0 {
				return c.Const(w, 0)
			}
			// (x<<k)>>k when no overflow
			if a.op == OpShl && a.b == b && a.a.hi <= m>>b.k {
				return a.a
			}
			if a.op == OpOr {
				return c.Bin(OpOr, c.Bin(OpLshr, a.a, b), c.Bin(OpLshr, a.b, b))
			}
		}
		if op == OpAshr && a.hi < uint64(1)<<(w-1) {
			return c.Bin(OpLshr, a, b)
		}
	case OpEq:
		if a == b {
			return c.tru
		}
		if a.w == 0 {
			if isC(b, 1) {
				return a
			}
			if isC(b, 0) {
				return c.Not(a)
			}
		}
		if b.op == OpConst {
			switch a.op {
			case OpZext:
				if b.k > mask(a.a.w) {
					return c.fls
				}
				return c.Bin(OpEq, a.a, c.Const(a.a.w, b.k))
			case OpAdd:
				if a.b.op == OpConst {
					return c.Bin(OpEq, a.a, c.Const(a.w, b.k-a.b.k))
				}
			case OpIte:
				if a.b.op == OpConst && a.c.op == OpConst {
					e1, e2 := a.b.k == b.k, a.c.k == b.k
					switch {
					case e1 && e2:
						return c.tru
					case e1:
						return a.a
					case e2:
						return c.Not(a.a)
					default:
						return c.fls
					}
				}
				if a.c.op == OpConst && a.c.k != b.k {
					return c.And(a.a, c.Bin(OpEq, a.b, b))
				}
				if a.b.op == OpConst && a.b.k != b.k {
					return c.And(c.Not(a.a), c.Bin(OpEq, a.c, b))
				}
			}
		}
		if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
			return c.Bin(OpEq, a.a, b.a)
		}
		if a.op == OpAdd && b.op == OpAdd && a.b == b.b {
			return c.Bin(OpEq, a.a, b.a)
		}
		if a.op == OpAdd && b.op == OpAdd && a.a == b.a {
			return c.Bin(OpEq, a.b, b.b)
		}
	case OpUlt:
		if a == b || isC(b, 0) {
			return c.fls
		}
	case OpUle:
		if a == b || isC(a, 0) {
			return c.tru
		}
	case OpSlt:
		if a == b {
			return c.fls
		}
		if half := uint64(1) << (a.w - 1); a.hi < half && b.hi < half {
			return c.Bin(OpUlt, a, b)
		}
	case OpSle:
		if a == b {
			return c.tru
		}
		if half := uint64(1) << (a.w - 1); a.hi < half && b.hi < half {
			return c.Bin(OpUle, a, b)
		}
	case OpBAnd:
		if isC(b, 1) || a == b {
			return a
		}
		if isC(b, 0) {
			return b
		}
		if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
			return c.fls
		}
	case OpBOr:
		if isC(b, 0) || a == b {
			return a
		}
		if isC(b, 1) {
			return b
		}
		if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
			return c.tru
		}
	}
	if op == OpUlt || op == OpUle {
		// zext stripping
		if a.op == OpZext && b.op == OpConst {
			if b.k <= mask(a.a.w) {
				return c.Bin(op, a.a, c.Const(a.a.w, b.k))
			}
			return c.tru
		}
		if b.op == OpZext && a.op == OpConst {
			if a.k <= mask(b.a.w) {
				return c.Bin(op, c.Const(b.a.w, a.k), b.a)
			}
			return c.fls
		}
		if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
			return c.Bin(op, a.a, b.a)
		}
	}
	t := c.mk(Term{op: op, w: w, a: a, b: b})
	if t.lo == t.hi {
		return c.Const(w, t.lo)
	}
	return t
}

func topMask(h uint64) uint64 {
	for s := uint(1); s < 64; s <<= 1 {
		h |= h >> s
	}
	return h
}

func (c *Ctx) fold(t *Term) *Term {
	if t.lo == t.hi {
		return c.Const(t.w, t.lo)
	}
	return t
}

func (c *Ctx) Not(a *Term) *Term {
	if a.op == OpConst {
		return c.Const(a.w, ^a.k&mask(a.w))
	}
	if a.op == OpNot {
		return a.a
	}
	if a.w == 0 {
		switch a.op {
		case OpUlt:
			return c.Bin(OpUle, a.b, a.a)
		case OpUle:
			return c.Bin(OpUlt, a.b, a.a)
		case OpSlt:
			return c.Bin(OpSle, a.b, a.a)
		case OpSle:
			return c.Bin(OpSlt, a.b, a.a)
		}
	}
	return c.fold(c.mk(Term{op: OpNot, w: a.w, a: a}))
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.op == OpConst {
		return c.Const(a.w, -a.k)
	}
	if a.op == OpNeg {
		return a.a
	}
	return c.fold(c.mk(Term{op: OpNeg, w: a.w, a: a}))
}

func (c *Ctx) And(a, b *Term) *Term { return c.Bin(OpBAnd, a, b) }
func (c *Ctx) Or(a, b *Term) *Term  { return c.Bin(OpBOr, a, b) }

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.op == OpConst {
		if cond.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if isC(a, 1) && isC(b, 0) {
			return cond
		}
		if isC(a, 0) && isC(b, 1) {
			return c.Not(cond)
		}
		if isC(a, 1) {
			return c.Or(cond, b)
		}
		if isC(a, 0) {
			return c.And(c.Not(cond), b)
		}
		if isC(b, 0) {
			return c.And(cond, a)
		}
		if isC(b, 1) {
			return c.Or(c.Not(cond), a)
		}
	}
	if cond.op == OpNot {
		return c.Ite(cond.a, b, a)
	}
	return c.fold(c.mk(Term{op: OpIte, w: a.w, a: cond, b: a, c: b}))
}

func (c *Ctx) Extract(a *Term, lo uint8, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.op == OpConst {
		return c.Const(w, a.k>>lo)
	}
	switch a.op {
	case OpZext:
		if lo == 0 && w <= a.a.w {
			return c.Extract(a.a, 0, w)
		}
		if lo == 0 && w > a.a.w {
			return c.Zext(a.a, w)
		}
		if lo >= a.a.w {
			return c.Const(w, 0)
		}
		if lo+w <= a.a.w {
			return c.Extract(a.a, lo, w)
		}
	case OpSext:
		if lo == 0 && w <= a.a.w {
			return c.Extract(a.a, 0, w)
		}
	case OpExtract:
		return c.Extract(a.a, uint8(a.k)+lo, w)
	case OpAnd, OpOr, OpXor:
		return c.Bin(a.op, c.Extract(a.a, lo, w), c.Extract(a.b, lo, w))
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return c.Bin(a.op, c.Extract(a.a, 0, w), c.Extract(a.b, 0, w))
		}
	case OpIte:
		return c.Ite(a.a, c.Extract(a.b, lo, w), c.Extract(a.c, lo, w))
	case OpShl:
		if lo == 0 && a.b.op == OpConst {
			if a.b.k >= uint64(w) {
				return c.Const(w, 0)
			}
			return c.Bin(OpShl, c.Extract(a.a, 0, w), c.Const(w, a.b.k))
		}
	}
	return c.fold(c.mk(Term{op: OpExtract, w: w, k: uint64(lo), a: a}))
}

func (c *Ctx) Zext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.op == OpConst {
		return c.Const(w, a.k)
	}
	if a.op == OpZext {
		return c.Zext(a.a, w)
	}
	if a.op == OpIte && a.b.op == OpConst && a.c.op == OpConst {
		return c.Ite(a.a, c.Const(w, a.b.k), c.Const(w, a.c.k))
	}
	return c.mk(Term{op: OpZext, w: w, a: a})
}

func (c *Ctx) Sext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.op == OpConst {
		return c.Const(w, uint64(sx(a.k, a.w)))
	}
	if a.hi < uint64(1)<<(a.w-1) {
		return c.Zext(a, w)
	}
	return c.mk(Term{op: OpSext, w: w, a: a})
}

func (c *Ctx) TableAt(tb *Table, idx *Term) *Term {
	if idx.op == OpConst {
		return c.Const(tb.outW, tb.at(idx.k))
	}
	return c.fold(c.mk(Term{op: OpTable, w: tb.outW, k: uint64(tb.id), a: idx}))
}

// MakeTable registers (hash-consed by contents) a table over inW-bit indices.
func (c *Ctx) MakeTable(inW, outW uint8, start, val []uint64) *Table {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d,%d:", inW, outW)
	for i := range start {
		fmt.Fprintf(&sb, "%x=%x;", start[i], val[i])
	}
	k := sb.String()
	if t, ok := c.tblIdx[k]; ok {
		return t
	}
	t := &Table{id: len(c.tables), inW: inW, outW: outW, start: start, val: val}
	c.tables = append(c.tables, t)
	c.tblIdx[k] = t
	return t
}

// eval evaluates t under a model (var index -> value).
type evaluator struct {
	c    *Ctx
	val  func(i int) uint64
	memo map[*Term]uint64
}

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		return e.val(int(t.k))
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OpIte:
		if e.eval(t.a) == 1 {
			r = e.eval(t.b)
		} else {
			r = e.eval(t.c)
		}
	case OpTable:
		r = e.c.tables[t.k].at(e.eval(t.a))
	default:
		a := e.eval(t.a)
		var b uint64
		if t.b != nil {
			b = e.eval(t.b)
		}
		if t.w == 0 && t.op == OpNot {
			r = 1 - a
		} else {
			r = evalOp(t.op, t.w, t.a.w, t.k, a, b)
		}
	}
	e.memo[t] = r
	return r
}

func bvlit(w uint8, v uint64) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (c *Ctx) size() int { return len(c.m) }
