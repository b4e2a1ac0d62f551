package main

import (
	"cmp"
	"errors"
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
	"unsafe"

	"github.com/rivo/uniseg"
	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

const pkgPath = "github.com/ricochet1k/termemu"

type natFn = func(m *Machine, th *Thread, fr *frame, ci *inst, args []Value) (Value, ctl)

func reg(name string, f natFn) { intrinsics[name] = f }

// pure registers an intrinsic that only computes a value.
func pure(name string, f func(m *Machine, a []Value) Value) {
	intrinsics[name] = func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) { return f(m, a), ctlDone }
}

func tuple(vs ...Value) Value { return Value{P: &Agg{f: vs}} }

func mustStr(v Value) string {
	s, ok := concStr(v)
	if !ok {
		panic(pathAbort{abEngine, "symbolic string where a concrete one is needed"})
	}
	return s
}

func bytesToSlice(b []Value) Value {
	return Value{P: &SliceV{a: b}}
}

// errWalk visits an error's tree until f answers true.
func (m *Machine) errWalk(x Value, depth int, f func(iv *IfaceV) bool) bool {
	iv, _ := x.P.(*IfaceV)
	if iv == nil || depth > 8 {
		return false
	}
	if f(iv) {
		return true
	}
	u := m.ifaceMethod(iv, "Unwrap")
	if u == nil || u.Signature.Results().Len() != 1 {
		return false
	}
	r := m.callSync(u, []Value{iv.v}, nil)
	if typeInfo(u.Signature.Results().At(0).Type()).k == kIface {
		return m.errWalk(r, depth+1, f)
	}
	for _, e := range sliceElems(r) {
		if m.errWalk(e, depth+1, f) {
			return true
		}
	}
	return false
}

// appendBytes is append: in place when the capacity allows it.
func appendBytes(base Value, add []Value) Value {
	if len(add) == 0 {
		return base
	}
	b := sliceElems(base)
	if len(b)+len(add) <= cap(b) {
		r := b[:len(b)+len(add)]
		copy(r[len(b):], append([]Value(nil), add...))
		return Value{P: &SliceV{a: r}}
	}
	n := make([]Value, len(b)+len(add), growCap(cap(b), len(b)+len(add)))
	copy(n, b)
	copy(n[len(b):], add)
	return Value{P: &SliceV{a: n}}
}

func concBytes(b []Value) ([]byte, bool) {
	r := make([]byte, len(b))
	for i := range b {
		if b[i].P != nil {
			return nil, false
		}
		r[i] = byte(b[i].N)
	}
	return r, true
}

// callSync runs a function to completion on a private thread (it must not block).
func (m *Machine) callSync(fn *ssa.Function, args []Value, env []Value) Value {
	cf := m.cfuncOf(fn)
	if cf.nat != nil {
		v, c := cf.nat(m, m.cur, nil, nil, args)
		if c != ctlDone && c != ctlNoRes {
			panic(pathAbort{abEngine, "callSync of blocking " + cf.name})
		}
		return v
	}
	if cf.blocks == nil {
		m.noBody(cf)
	}
	th := &Thread{id: m.cur.id}
	save := m.cur
	m.cur = th
	var res Value
	f := m.pushCall(th, cf, args, env, -1)
	f.onRet = func(v Value) { res = v }
	m.runThread(th)
	m.cur = save
	if !th.done {
		panic(pathAbort{abEngine, "callSync blocked in " + cf.name})
	}
	return res
}

func (m *Machine) ifaceMethod(iv *IfaceV, name string) *ssa.Function {
	ms := m.eng.methodSet(iv.t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return m.eng.methodValue(sel)
}

func (m *Machine) newError(msg Value) Value {
	et := m.eng.errType
	p := new(Value)
	*p = Value{P: &Agg{f: []Value{msg}}}
	return Value{P: &IfaceV{t: et, v: Value{P: p}}}
}

// numError is a conversion error that wraps strconv.ErrSyntax or strconv.ErrRange.
func (m *Machine) numError(msg string, rng bool) Value {
	if p := m.eng.prog.ImportedPackage("strconv"); p != nil && m.eng.wrapErrType != nil {
		n := "ErrSyntax"
		if rng {
			n = "ErrRange"
		}
		w := *m.global(m.globalIdx(p.Var(n)))
		q := new(Value)
		*q = Value{P: &Agg{f: []Value{strV(msg), w}}}
		return Value{P: &IfaceV{t: m.eng.wrapErrType, v: Value{P: q}}}
	}
	return m.newError(strV(msg))
}

// ---- number formatting ----

func pow10(k int) uint64 {
	r := uint64(1)
	for i := 0; i < k; i++ {
		r *= 10
	}
	return r
}

// fmtInt renders an integer in decimal; symbolic values use fresh digit variables.
func (m *Machine) fmtInt(v Value, ti tinfo) []Value {
	if v.P == nil {
		var s string
		if ti.signed {
			s = strconv.FormatInt(sx(v.N, ti.w), 10)
		} else {
			s = strconv.FormatUint(v.N, 10)
		}
		return strBytes(strV(s))
	}
	c := m.ctx
	t := v.P.(*Term)
	if t.nvars <= 1 && m.quickFixed(t) {
		return m.fmtInt(Value{N: m.evalModel(t)}, ti)
	}
	var out []Value
	if ti.signed && m.branch(c.Bin(OpSlt, t, c.Const(t.w, 0))) {
		out = append(out, Value{N: '-'})
		t = c.Neg(t)
	}
	if t.w < 64 {
		t = c.Zext(t, 64)
	}
	nd := 1
	for nd < 20 {
		if m.branch(c.Bin(OpUlt, t, c.Const(64, pow10(nd)))) {
			break
		}
		nd++
	}
	if nd == 1 {
		return append(out, m.fromTerm(c.Bin(OpAdd, c.Extract(t, 0, 8), c.Const(8, '0'))))
	}
	if t.op == OpConst {
		return append(out, strBytes(strV(strconv.FormatUint(t.k, 10)))...)
	}
	if ds, ok := m.digits[t]; ok && len(ds) == nd {
		return append(out, ds...)
	}
	val := m.evalModel(t)
	w := uint8(64)
	if nd <= 4 {
		w = 16
	} else if nd <= 9 {
		w = 32
	}
	tn := t
	if w < 64 {
		tn = c.Extract(t, 0, w)
	}
	var sum *Term
	var ds []Value
	for i := nd - 1; i >= 0; i-- {
		p := pow10(i)
		lo := uint64(0)
		if i == nd-1 {
			lo = 1
		}
		d := m.newVar("~digit", 8, lo, 9)
		m.model[len(m.vars)-1] = (val / p) % 10
		m.ev = nil
		ds = append(ds, m.fromTerm(c.Bin(OpAdd, d, c.Const(8, '0'))))
		x := c.Zext(d, w)
		if p != 1 {
			x = c.Bin(OpMul, x, c.Const(w, p))
		}
		if sum == nil {
			sum = x
		} else {
			sum = c.Bin(OpAdd, sum, x)
		}
	}
	m.addPC(c.Bin(OpEq, sum, tn))
	m.digits[t] = ds
	return append(out, ds...)
}

func (m *Machine) quickFixed(t *Term) bool {
	for i, w := range t.vars {
		for w != 0 {
			b := trailing(w)
			w &= w - 1
			d := m.dom[i*64+b]
			if d == nil || d.cnt != 1 {
				return false
			}
		}
	}
	return true
}

// ---- fmt ----

func (m *Machine) fmtValue(verb byte, plus, sharp bool, a Value, depth int) []Value {
	iv, _ := a.P.(*IfaceV)
	if iv == nil {
		if verb == 'd' {
			return strBytes(strV("%!d(<nil>)"))
		}
		return strBytes(strV("<nil>"))
	}
	return m.fmtTyped(verb, plus, sharp, iv.v, iv.t, iv, depth)
}

func (m *Machine) fmtTyped(verb byte, plus, sharp bool, v Value, t types.Type, iv *IfaceV, depth int) []Value {
	if depth < 4 && iv != nil && (verb == 'v' || verb == 's' || verb == 'q') && !sharp {
		for _, name := range []string{"Error", "String"} {
			if f := m.ifaceMethod(iv, name); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && typeInfo(f.Signature.Results().At(0).Type()).k == kString {
				r := strBytes(m.callSync(f, []Value{iv.v}, nil))
				if verb == 'q' {
					q, ok := concBytes(r)
					if !ok {
						panic(pathAbort{abEngine, "%q of symbolic"})
					}
					return strBytes(strV(strconv.Quote(string(q))))
				}
				return r
			}
		}
	}
	ti := typeInfo(t)
	switch ti.k {
	case kInt:
		switch verb {
		case 'd', 'v':
			r := m.fmtInt(v, ti)
			if plus && verb == 'd' {
				if len(r) > 0 && !(r[0].P == nil && r[0].N == '-') {
					r = append([]Value{{N: '+'}}, r...)
				}
			}
			return r
		case 'c':
			vv := m.intConv(v, ti, tinfo{k: kInt, w: 32, signed: true})
			return strBytes(m.runeToStr(vv))
		case 'x', 'X', 'o', 'b', 'U', 'q':
			if v.P == nil {
				f := "%" + string(verb)
				if ti.signed {
					return strBytes(strV(fmt.Sprintf(f, sx(v.N, ti.w))))
				}
				return strBytes(strV(fmt.Sprintf(f, v.N)))
			}
			if verb == 'x' || verb == 'X' {
				n := m.concInt(v)
				return strBytes(strV(fmt.Sprintf("%"+string(verb), n)))
			}
			panic(pathAbort{abEngine, "format verb on symbolic int"})
		}
	case kBool:
		if v.P != nil {
			if m.branch(v.P.(*Term)) {
				return strBytes(strV("true"))
			}
			return strBytes(strV("false"))
		}
		return strBytes(strV(fmt.Sprint(v.N != 0)))
	case kString:
		switch verb {
		case 'v', 's':
			return strBytes(v)
		case 'q':
			return strBytes(strV(strconv.Quote(mustStr(v))))
		case 'x':
			return strBytes(strV(fmt.Sprintf("%x", mustStr(v))))
		}
	case kSlice:
		if ti.elem != nil && typeInfo(ti.elem).w == 8 && (verb == 's') {
			return append([]Value(nil), sliceElems(v)...)
		}
		out := []Value{{N: '['}}
		for i, e := range sliceElems(v) {
			if i > 0 {
				out = append(out, Value{N: ' '})
			}
			out = append(out, m.fmtTyped(verb, plus, sharp, e, ti.elem, &IfaceV{t: ti.elem, v: e}, depth+1)...)
		}
		return append(out, Value{N: ']'})
	case kAgg:
		if st, ok := t.Underlying().(*types.Struct); ok {
			out := []Value{{N: '{'}}
			for i := 0; i < st.NumFields(); i++ {
				if i > 0 {
					out = append(out, Value{N: ' '})
				}
				f := v.P.(*Agg).f[i]
				ft := st.Field(i).Type()
				out = append(out, m.fmtTyped(verb, plus, sharp, f, ft, &IfaceV{t: ft, v: f}, depth+1)...)
			}
			return append(out, Value{N: '}'})
		}
		return strBytes(strV("{...}"))
	case kIface:
		return m.fmtValue(verb, plus, sharp, v, depth+1)
	case kFloat:
		return strBytes(strV(fmt.Sprintf("%"+string(verb), math.Float64frombits(v.N))))
	}
	if v.P == nil {
		return strBytes(strV("<nil>"))
	}
	return strBytes(strV("0xc000000000"))
}

func (m *Machine) sprintf(format string, args []Value) []Value {
	var out []Value
	ai, indexed := 0, false
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			out = append(out, Value{N: uint64(format[i])})
			continue
		}
		i++
		plus, sharp, zero, minus := false, false, false, false
		for i < len(format) && strings.IndexByte("+#0- ", format[i]) >= 0 {
			switch format[i] {
			case '+':
				plus = true
			case '#':
				sharp = true
			case '0':
				zero = true
			case '-':
				minus = true
			}
			i++
		}
		argIdx := func() {
			if i < len(format) && format[i] == '[' {
				if j := strings.IndexByte(format[i:], ']'); j > 0 {
					if k, err := strconv.Atoi(format[i+1 : i+j]); err == nil {
						ai, indexed = k-1, true
						i += j + 1
						return
					}
				}
				panic(pathAbort{abEngine, "format argument index"})
			}
		}
		num := func() int {
			n := 0
			argIdx()
			if i < len(format) && format[i] == '*' {
				if ai >= len(args) {
					panic(pathAbort{abEngine, "format width"})
				}
				i++
				if iv, ok := args[ai].P.(*IfaceV); ok {
					n = int(int64(m.concInt(iv.v)))
				}
				ai++
				argIdx()
				return n
			}
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				n = n*10 + int(format[i]-'0')
				i++
			}
			return n
		}
		width, prec := num(), -1
		if width < 0 {
			minus, width = true, -width
		}
		if i < len(format) && format[i] == '.' {
			i++
			prec = num()
			argIdx()
		}
		if i >= len(format) {
			out = append(out, strBytes(strV("%!(NOVERB)"))...)
			break
		}
		verb := format[i]
		if verb == '%' {
			out = append(out, Value{N: '%'})
			continue
		}
		if ai >= len(args) {
			out = append(out, strBytes(strV("%!"+string(verb)+"(MISSING)"))...)
			continue
		}
		vv := verb
		if verb == 'w' {
			vv = 'v'
		}
		var r []Value
		if verb == 'T' {
			if iv, ok := args[ai].P.(*IfaceV); ok {
				r = strBytes(strV(iv.t.String()))
			} else {
				r = strBytes(strV("<nil>"))
			}
		} else {
			r = m.fmtValue(vv, plus, sharp, args[ai], 0)
		}
		ai++
		sign := func() int { // the number of leading bytes zeros go after
			if len(r) > 0 && verb != 's' && verb != 'v' && verb != 'q' && m.branch(m.ctx.Or(m.ctx.Bin(OpEq, m.domTerm(r[0], 8), m.ctx.Const(8, '-')),
				m.ctx.Bin(OpEq, m.domTerm(r[0], 8), m.ctx.Const(8, '+')))) {
				return 1
			}
			return 0
		}
		zeros := func(n int) {
			if k := sign(); len(r)-k < n {
				pad := make([]Value, n-len(r)+k)
				for x := range pad {
					pad[x] = Value{N: '0'}
				}
				r = append(append(append([]Value(nil), r[:k]...), pad...), r[k:]...)
			}
		}
		if prec >= 0 {
			switch verb {
			case 'd':
				zeros(prec)
				zero = false
			case 's':
				if len(r) > prec {
					if _, ok := concBytes(r); !ok {
						panic(pathAbort{abEngine, "format precision"})
					}
					b, _ := concBytes(r)
					if q := []rune(string(b)); len(q) > prec {
						r = strBytes(strV(string(q[:prec])))
					}
				}
			default:
				panic(pathAbort{abEngine, "format precision"})
			}
		}
		if zero && !minus && len(r) < width {
			zeros(width - sign())
		}
		for len(r) < width {
			if minus {
				r = append(r, Value{N: ' '})
			} else {
				r = append([]Value{{N: ' '}}, r...)
			}
		}
		out = append(out, r...)
	}
	if ai < len(args) && !indexed {
		out = append(out, strBytes(strV("%!(EXTRA)"))...)
	}
	return out
}

func (m *Machine) sprint(args []Value, ln bool) []Value {
	var out []Value
	for i, a := range args {
		iv, _ := a.P.(*IfaceV)
		isS := iv != nil && typeInfo(iv.t).k == kString
		if i > 0 {
			pv, _ := args[i-1].P.(*IfaceV)
			ps := pv != nil && typeInfo(pv.t).k == kString
			if ln || (!isS && !ps) {
				out = append(out, Value{N: ' '})
			}
		}
		out = append(out, m.fmtValue('v', false, false, a, 0)...)
	}
	if ln {
		out = append(out, Value{N: '\n'})
	}
	return out
}

// writeTo performs w.Write(b) as a tail call of the current instruction.
func (m *Machine) writeTo(th *Thread, fr *frame, ci *inst, w Value, b []Value) (Value, ctl) {
	iv, _ := w.P.(*IfaceV)
	if iv == nil {
		if w.P == nil {
			rtPanic("invalid memory address or nil pointer dereference")
		}
		return tuple(intV(int64(len(b))), Value{}), ctlDone
	}
	if strings.HasSuffix(iv.t.String(), "os.File") {
		return tuple(intV(int64(len(b))), Value{}), ctlDone
	}
	fn := m.ifaceMethod(iv, "Write")
	cf := m.cfuncOf(fn)
	args := []Value{iv.v, bytesToSlice(append([]Value(nil), b...))}
	if cf.nat != nil {
		return cf.nat(m, th, fr, ci, args)
	}
	dst := -1
	if ci != nil {
		dst = ci.dst
	}
	m.pushCall(th, cf, args, nil, dst)
	return Value{}, ctlCall
}

// ---- locks ----

func (m *Machine) lockOf(p *Value) *lockSt {
	l := m.locks[p]
	if l == nil {
		l = &lockSt{name: fmt.Sprintf("lock%d", len(m.locks)), readers: map[*Thread]int{}}
		m.locks[p] = l
	}
	return l
}

func ptrArg(v Value) *Value {
	p, ok := v.P.(*Value)
	if !ok || p == nil {
		rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func (m *Machine) mustBool(t *Term) bool {
	return m.branch(t)
}

func (m *Machine) builderBuf(p *Value) *Value {
	a, ok := p.P.(*Agg)
	if !ok {
		panic(engErr("builder without storage"))
	}
	return &a.f[1]
}

func (m *Machine) builderAdd(v Value, b []Value) {
	s := m.builderBuf(ptrArg(v))
	old := sliceElems(*s)
	*s = Value{P: &SliceV{a: append(old, b...)}}
}

// symDecode decodes the first rune of v bytes.
func (m *Machine) decodeTuple(b []Value) Value {
	r, n := m.decodeRune(b)
	return tuple(r, intV(int64(n)))
}

func (m *Machine) runeLenOf(r Value) int {
	if r.P == nil {
		return utf8.RuneLen(rune(int32(r.N)))
	}
	t := r.P.(*Term)
	c := m.ctx
	k := func(v uint64) *Term { return c.Const(32, v) }
	if m.branch(c.Bin(OpUlt, t, k(0x80))) {
		return 1
	}
	if m.branch(c.Bin(OpUlt, t, k(0x800))) {
		return 2
	}
	if m.branch(c.Or(c.Bin(OpUlt, k(0x10FFFF), t), c.And(c.Bin(OpUle, k(0xD800), t), c.Bin(OpUle, t, k(0xDFFF))))) {
		return -1
	}
	if m.branch(c.Bin(OpUlt, t, k(0x10000))) {
		return 3
	}
	return 4
}

func (m *Machine) indexOf(hay []Value, needle []Value) int {
	for i := 0; i+len(needle) <= len(hay); i++ {
		t := m.ctx.tru
		for j := range needle {
			t = m.ctx.And(t, m.ctx.Bin(OpEq, m.domTerm(hay[i+j], 8), m.domTerm(needle[j], 8)))
			if t == m.ctx.fls {
				break
			}
		}
		if m.branch(t) {
			return i
		}
	}
	return -1
}

// indexOfByte is the position of a byte; without a case for each position if only the byte is unknown.
func (m *Machine) indexOfByte(hay []Value, b Value) Value {
	t, ok := b.P.(*Term)
	if !ok || !concElems(hay) {
		return intV(int64(m.indexOf(hay, []Value{b})))
	}
	c := m.ctx
	r := c.Const(64, ^uint64(0))
	for i := len(hay) - 1; i >= 0; i-- {
		r = c.Ite(c.Bin(OpEq, t, c.Const(t.w, hay[i].N)), c.Const(64, uint64(i)), r)
	}
	return m.fromTerm(r)
}

// indexRune is strings.IndexRune; without a case for each position if only the rune is unknown.
func (m *Machine) indexRune(hay []Value, r Value) Value {
	c := m.ctx
	t, sym := r.P.(*Term)
	if concElems(hay) {
		b := make([]byte, len(hay))
		for i := range hay {
			b[i] = byte(hay[i].N)
		}
		if !sym {
			return intV(int64(strings.IndexRune(string(b), rune(int32(r.N)))))
		}
		type at struct {
			i int
			r rune
		}
		var l []at
		for i, x := range string(b) {
			l = append(l, at{i, x})
		}
		res := c.Const(64, ^uint64(0))
		for k := len(l) - 1; k >= 0; k-- {
			res = c.Ite(c.Bin(OpEq, t, c.Const(t.w, uint64(l[k].r))), c.Const(64, uint64(l[k].i)), res)
		}
		return m.fromTerm(res)
	}
	if x := rune(int32(r.N)); !sym && x != utf8.RuneError {
		if !utf8.ValidRune(x) {
			return intV(-1)
		}
		return intV(int64(m.indexOf(hay, strBytes(m.runeToStr(r)))))
	}
	for i := 0; i < len(hay); {
		x, n := m.decodeRune(hay[i:])
		if m.branch(c.Bin(OpEq, m.domTerm(x, 32), m.domTerm(r, 32))) {
			return intV(int64(i))
		}
		i += n
	}
	return intV(-1)
}

func (m *Machine) bytesEq(a, b []Value) *Term {
	if len(a) != len(b) {
		return m.ctx.fls
	}
	t := m.ctx.tru
	for j := range a {
		t = m.ctx.And(t, m.ctx.Bin(OpEq, m.domTerm(a[j], 8), m.domTerm(b[j], 8)))
	}
	return t
}

func (m *Machine) runeWidthOf(r Value) Value {
	uniInit()
	if r.P == nil {
		v := r.N
		if v > utf8.MaxRune {
			v = 0xFFFD
		}
		return Value{N: uint64(usRuneWidth(rune(v), usPropertyGraphemes(rune(v))))}
	}
	t := m.tabAt(widthFn, 64, r.P.(*Term))
	return Value{N: m.concInt(m.fromTerm(t))}
}

func regUnicode(name string, f func(r rune) bool) {
	pure("unicode."+name, func(m *Machine, a []Value) Value {
		if a[0].P == nil {
			return boolV(f(rune(int32(a[0].N))))
		}
		tb := uniTab(name, func(r rune) uint64 { return b2u(f(r)) })
		// outside 0..MaxRune: treat as false through an extra range
		t := a[0].P.(*Term)
		c := m.ctx
		return m.fromTerm(c.And(c.Bin(OpUle, t, c.Const(32, utf8.MaxRune)), c.Bin(OpEq, m.tabAt(tb, 8, t), c.Const(8, 1))))
	})
}

func regUniMap(name string, f func(r rune) rune) {
	pure("unicode."+name, func(m *Machine, a []Value) Value {
		if a[0].P == nil {
			return Value{N: uint64(uint32(f(rune(int32(a[0].N)))))}
		}
		tb := uniTab(name, func(r rune) uint64 { return uint64(uint32(f(r) - r)) })
		t := a[0].P.(*Term)
		c := m.ctx
		return m.fromTerm(c.Ite(c.Bin(OpUle, t, c.Const(32, utf8.MaxRune)), c.Bin(OpAdd, t, m.tabAt(tb, 32, t)), t))
	})
}

func init() {
	H := func(n string) string { return pkgPath + "." + n }
	// ---- harness API ----
	mk := func(w uint8) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			name := mustStr(a[0])
			lo, hi := a[1].N, a[2].N
			if a[1].P != nil || a[2].P != nil {
				panic(engErr("symbolic variable bounds"))
			}
			if w == 64 || w == 32 {
				slo, shi := sx(lo, w), sx(hi, w)
				if slo < 0 && shi >= 0 {
					// signed range straddling zero: offset representation
					span := uint64(shi - slo)
					t := m.newVar(name, w, 0, span)
					m.vars[len(m.vars)-1].off = slo
					return m.fromTerm(m.ctx.Bin(OpAdd, t, m.ctx.Const(w, uint64(slo))))
				}
			}
			if lo > hi {
				panic(pathAbort{abInfeasible, "empty range for " + name})
			}
			return m.fromTerm(m.newVar(name, w, lo, hi))
		}
	}
	pure(H("vInt"), mk(64))
	pure(H("vU8"), mk(8))
	pure(H("vRune"), mk(32))
	pure(H("vU32"), mk(32))
	pure(H("vBool"), func(m *Machine, a []Value) Value {
		t := m.newVar(mustStr(a[0]), 8, 0, 1)
		return m.fromTerm(m.ctx.Bin(OpEq, t, m.ctx.Const(8, 1)))
	})
	pure(H("vChoose"), func(m *Machine, a []Value) Value {
		n := a[1].N
		if n == 1 {
			m.newVar(mustStr(a[0]), 64, 0, 0)
			return Value{}
		}
		t := m.newVar(mustStr(a[0]), 64, 0, n-1)
		return Value{N: m.concretize(t)}
	})
	memo := func(m *Machine, a []Value) Value { return m.memo(mustStr(a[0]), a[1].P.(*FuncV)) }
	pure(H("vMemoEnv"), memo)
	pure(H("vMemoPair"), memo)
	pure(H("vConc"), func(m *Machine, a []Value) Value { return Value{N: m.concInt(a[0])} })
	pure(H("vAssume"), func(m *Machine, a []Value) Value { m.assume(m.domTerm(a[0], 0)); return Value{} })
	pure(H("vAssert"), func(m *Machine, a []Value) Value { m.assertT(m.domTerm(a[0], 0), mustStr(a[1])); return Value{} })
	pure(H("vAnd"), func(m *Machine, a []Value) Value {
		return m.fromTerm(m.ctx.And(m.domTerm(a[0], 0), m.domTerm(a[1], 0)))
	})
	pure(H("vOr"), func(m *Machine, a []Value) Value { return m.fromTerm(m.ctx.Or(m.domTerm(a[0], 0), m.domTerm(a[1], 0))) })
	pure(H("vNot"), func(m *Machine, a []Value) Value { return m.fromTerm(m.ctx.Not(m.domTerm(a[0], 0))) })
	pure(H("vIte"), func(m *Machine, a []Value) Value {
		return m.fromTerm(m.ctx.Ite(m.domTerm(a[0], 0), m.domTerm(a[1], 64), m.domTerm(a[2], 64)))
	})
	pure(H("vIte8"), func(m *Machine, a []Value) Value {
		return m.fromTerm(m.ctx.Ite(m.domTerm(a[0], 0), m.domTerm(a[1], 8), m.domTerm(a[2], 8)))
	})
	pure(H("vReach"), func(m *Machine, a []Value) Value { m.reached[mustStr(a[0])] = true; return Value{} })
	pure(H("vStop"), func(m *Machine, a []Value) Value { panic(pathAbort{abStop, ""}) })
	pure(H("vTier"), func(m *Machine, a []Value) Value { return intV(int64(m.eng.tier)) })
	pure(H("vNative"), func(m *Machine, a []Value) Value { return Value{} })
	pure(H("vObsI"), func(m *Machine, a []Value) Value {
		m.obs = append(m.obs, obsRec{mustStr(a[0]), a[1], true})
		return Value{}
	})
	pure(H("vObsS"), func(m *Machine, a []Value) Value {
		m.obs = append(m.obs, obsRec{mustStr(a[0]), a[1], false})
		return Value{}
	})
	pure(H("vSym"), func(m *Machine, a []Value) Value { // is the int symbolic (not fixed)?
		t, ok := a[0].P.(*Term)
		return boolV(ok && !m.quickFixed(t))
	})
	reg(H("vYield"), func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
		if th.yielded {
			th.yielded = false
			return Value{}, ctlDone
		}
		th.yielded = true
		th.why = "yield"
		return Value{}, ctlBlock
	})
	// quiesce: block until no other goroutine can run
	reg(H("vQuiesce"), func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
		if th.quiet {
			th.quiet = false
			return Value{}, ctlDone
		}
		th.wantQuiet = true
		th.why = "quiesce"
		return Value{}, ctlBlock
	})
	// another goroutine runs f after the k-th release of a mutex (every one if k<0)
	pure(H("vAtUnlock"), func(m *Machine, a []Value) Value {
		m.atUnlock, _ = a[1].P.(*FuncV)
		m.unlockAt, m.nUnlock = int(m.concInt(a[0])), 0
		return Value{}
	})
	pure(H("vAtUnlockEnd"), func(m *Machine, a []Value) Value {
		m.atUnlock = nil
		for _, t := range m.threads {
			if t.noHook && !t.done {
				return boolV(false)
			}
		}
		return boolV(true)
	})
	pure(H("vTraceOn"), func(m *Machine, a []Value) Value { m.traceStart(); return Value{} })
	pure(H("vTraceOff"), func(m *Machine, a []Value) Value { m.traceStop(); return Value{} })
	reg(H("vTraceMark"), func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
		if m.trace != nil {
			m.trace.mark(m, th, mustStr(a[0]))
		}
		return Value{}, ctlDone
	})

	// ---- sync ----
	for _, ty := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		reg(ty+".Lock", func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
			p := ptrArg(a[0])
			l := m.lockOf(p)
			if l.owner != nil || len(l.readers) > 0 {
				if l.owner == th {
					th.why = "self-deadlock on mutex"
				} else {
					th.why = "mutex lock"
				}
				if m.trace != nil {
					m.trace.lockReq(m, th, p)
				}
				return Value{}, ctlBlock
			}
			l.owner = th
			if m.trace != nil {
				m.trace.lock(m, th, p, true, false)
			}
			return Value{}, ctlDone
		})
		reg(ty+".Unlock", func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
			p := ptrArg(a[0])
			l := m.lockOf(p)
			if l.owner == nil {
				m.violate("panic", "fatal error: sync: unlock of unlocked mutex")
			}
			l.owner = nil
			if m.trace != nil {
				m.trace.lock(m, th, p, false, false)
			}
			if m.atUnlock != nil && !th.noHook {
				m.nUnlock++
				if m.unlockAt < 0 || m.unlockAt == m.nUnlock-1 {
					nt := &Thread{id: len(m.threads), noHook: true}
					m.threads = append(m.threads, nt)
					m.pushCall(nt, m.cfuncOf(m.atUnlock.fn), nil, m.atUnlock.env, -1)
					if m.trace != nil {
						m.trace.spawn(m, th, nt)
					}
					m.runNext = nt
				}
			}
			return Value{}, ctlDone
		})
		reg(ty+".TryLock", func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
			p := ptrArg(a[0])
			l := m.lockOf(p)
			if l.owner != nil || len(l.readers) > 0 {
				return boolV(false), ctlDone
			}
			l.owner = th
			if m.trace != nil {
				m.trace.lock(m, th, p, true, false)
			}
			return boolV(true), ctlDone
		})
	}
	reg("(*sync.RWMutex).RLock", func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
		l := m.lockOf(ptrArg(a[0]))
		if l.owner != nil {
			th.why = "rwmutex rlock"
			return Value{}, ctlBlock
		}
		l.readers[th]++
		if m.trace != nil {
			m.trace.lock(m, th, ptrArg(a[0]), true, true)
		}
		return Value{}, ctlDone
	})
	reg("(*sync.RWMutex).RUnlock", func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
		l := m.lockOf(ptrArg(a[0]))
		if len(l.readers) == 0 {
			m.violate("panic", "fatal error: sync: RUnlock of unlocked RWMutex")
		}
		if l.readers[th]--; l.readers[th] <= 0 {
			delete(l.readers, th)
		}
		if m.trace != nil {
			m.trace.lock(m, th, ptrArg(a[0]), false, true)
		}
		return Value{}, ctlDone
	})
	type wg struct{ n int64 }
	wgOf := func(m *Machine, v Value) *wg {
		p := ptrArg(v)
		w, ok := m.side[p].(*wg)
		if !ok {
			w = &wg{}
			m.side[p] = w
		}
		return w
	}
	pure("(*sync.WaitGroup).Add", func(m *Machine, a []Value) Value {
		w := wgOf(m, a[0])
		w.n += int64(m.concInt(a[1]))
		if w.n < 0 {
			rtPanic("sync: negative WaitGroup counter")
		}
		return Value{}
	})
	pure("(*sync.WaitGroup).Done", func(m *Machine, a []Value) Value {
		w := wgOf(m, a[0])
		w.n--
		if w.n < 0 {
			rtPanic("sync: negative WaitGroup counter")
		}
		return Value{}
	})
	reg("(*sync.WaitGroup).Wait", func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
		if wgOf(m, a[0]).n > 0 {
			th.why = "waitgroup"
			return Value{}, ctlBlock
		}
		return Value{}, ctlDone
	})
	reg("(*sync.Once).Do", func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
		p := ptrArg(a[0])
		if m.side[p] != nil {
			return Value{}, ctlDone
		}
		m.side[p] = true
		fv, _ := a[1].P.(*FuncV)
		if fv == nil {
			rtPanic("nil func in Once.Do")
		}
		m.pushCall(th, m.cfuncOf(fv.fn), nil, fv.env, -1)
		return Value{}, ctlCall
	})
	reg("(*sync.Pool).Get", func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
		p := ptrArg(a[0])
		ag := p.P.(*Agg)
		fv, _ := ag.f[len(ag.f)-1].P.(*FuncV)
		if fv == nil {
			return Value{}, ctlDone
		}
		dst := -1
		if ci != nil {
			dst = ci.dst
		}
		m.pushCall(th, m.cfuncOf(fv.fn), nil, fv.env, dst)
		return Value{}, ctlCall
	})
	type cnd struct{ waiting, woken []*Thread }
	cndOf := func(m *Machine, v Value) *cnd {
		p := ptrArg(v)
		w, ok := m.side[p].(*cnd)
		if !ok {
			w = &cnd{}
			m.side[p] = w
		}
		return w
	}
	has := func(l []*Thread, th *Thread) int {
		for i, x := range l {
			if x == th {
				return i
			}
		}
		return -1
	}
	reg("(*sync.Cond).Wait", func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
		c := cndOf(m, a[0])
		iv, _ := ptrArg(a[0]).P.(*Agg).f[1].P.(*IfaceV)
		if iv == nil {
			rtPanic("nil Locker in Cond.Wait")
		}
		lock := func(n string) ctl {
			f := intrinsics["("+iv.t.String()+")."+n]
			if f == nil {
				panic(pathAbort{abEngine, "Cond with " + iv.t.String()})
			}
			_, k := f(m, th, fr, ci, []Value{iv.v})
			return k
		}
		if i := has(c.woken, th); i >= 0 {
			if lock("Lock") == ctlBlock {
				return Value{}, ctlBlock
			}
			c.woken = append(c.woken[:i:i], c.woken[i+1:]...)
			if m.trace != nil {
				m.trace.sync(m, th, ptrArg(a[0]))
			}
			return Value{}, ctlDone
		}
		if has(c.waiting, th) < 0 {
			lock("Unlock")
			c.waiting = append(c.waiting, th)
		}
		th.why = "cond wait"
		return Value{}, ctlBlock
	})
	wake := func(all bool) natFn {
		return func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
			c := cndOf(m, a[0])
			if m.trace != nil {
				m.trace.sync(m, th, ptrArg(a[0]))
			}
			for len(c.waiting) > 0 {
				c.woken = append(c.woken, c.waiting[0])
				c.waiting = c.waiting[1:]
				if !all {
					break
				}
			}
			return Value{}, ctlDone
		}
	}
	reg("(*sync.Cond).Signal", wake(false))
	reg("(*sync.Cond).Broadcast", wake(true))
	smOf := func(m *Machine, v Value) *MapV {
		p := ptrArg(v)
		w, ok := m.side[p].(*MapV)
		if !ok {
			w = &MapV{idx: map[string]int{}}
			m.side[p] = w
		}
		return w
	}
	smGet := func(m *Machine, mv *MapV, k Value) (Value, bool) {
		if i, ok := mv.idx[m.mapKey(k)]; ok {
			return mv.ents[i].v, true
		}
		return Value{}, false
	}
	smDel := func(m *Machine, mv *MapV, k Value) {
		ks := m.mapKey(k)
		if i, ok := mv.idx[ks]; ok {
			mv.ents[i].dead = true
			delete(mv.idx, ks)
			mv.n--
		}
	}
	smap := func(n string, f func(m *Machine, mv *MapV, a []Value) Value) {
		reg("(*sync.Map)."+n, func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
			if m.trace != nil {
				m.trace.sync(m, th, ptrArg(a[0]))
			}
			return f(m, smOf(m, a[0]), a[1:]), ctlDone
		})
	}
	smap("Load", func(m *Machine, mv *MapV, a []Value) Value {
		v, ok := smGet(m, mv, a[0])
		return tuple(v, boolV(ok))
	})
	smap("Store", func(m *Machine, mv *MapV, a []Value) Value { m.mapSet(mv, a[0], a[1]); return Value{} })
	smap("LoadOrStore", func(m *Machine, mv *MapV, a []Value) Value {
		if v, ok := smGet(m, mv, a[0]); ok {
			return tuple(v, boolV(true))
		}
		m.mapSet(mv, a[0], a[1])
		return tuple(a[1], boolV(false))
	})
	smap("Delete", func(m *Machine, mv *MapV, a []Value) Value { smDel(m, mv, a[0]); return Value{} })
	smap("LoadAndDelete", func(m *Machine, mv *MapV, a []Value) Value {
		v, ok := smGet(m, mv, a[0])
		smDel(m, mv, a[0])
		return tuple(v, boolV(ok))
	})
	smap("Range", func(m *Machine, mv *MapV, a []Value) Value {
		f := a[0].P.(*FuncV)
		for i := 0; i < len(mv.ents); i++ {
			if e := mv.ents[i]; !e.dead && !m.branch(m.domTerm(m.callSync(f.fn, []Value{e.k, e.v}, f.env), 0)) {
				break
			}
		}
		return Value{}
	})
	pure("(*sync.Pool).Put", func(m *Machine, a []Value) Value { return Value{} })
	regAtomics()

	// ---- fmt ----
	pure("fmt.Sprintf", func(m *Machine, a []Value) Value { return mkStr(m.sprintf(mustStr(a[0]), sliceElems(a[1]))) })
	pure("fmt.Sprint", func(m *Machine, a []Value) Value { return mkStr(m.sprint(sliceElems(a[0]), false)) })
	pure("fmt.Sprintln", func(m *Machine, a []Value) Value { return mkStr(m.sprint(sliceElems(a[0]), true)) })
	pure("fmt.Appendf", func(m *Machine, a []Value) Value {
		return appendBytes(a[0], m.sprintf(mustStr(a[1]), sliceElems(a[2])))
	})
	pure("fmt.Append", func(m *Machine, a []Value) Value {
		return appendBytes(a[0], m.sprint(sliceElems(a[1]), false))
	})
	pure("fmt.Errorf", func(m *Machine, a []Value) Value {
		f := mustStr(a[0])
		var wrapped Value
		if strings.Contains(f, "%w") {
			for _, x := range sliceElems(a[1]) {
				if iv, ok := x.P.(*IfaceV); ok && m.ifaceMethod(iv, "Error") != nil {
					wrapped = x
				}
			}
		}
		msg := mkStr(m.sprintf(f, sliceElems(a[1])))
		if wrapped.P != nil && m.eng.wrapErrType != nil {
			p := new(Value)
			*p = Value{P: &Agg{f: []Value{msg, wrapped}}}
			return Value{P: &IfaceV{t: m.eng.wrapErrType, v: Value{P: p}}}
		}
		return m.newError(msg)
	})
	reg("fmt.Fprintf", func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
		return m.writeTo(th, fr, ci, a[0], m.sprintf(mustStr(a[1]), sliceElems(a[2])))
	})
	reg("fmt.Fprint", func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
		return m.writeTo(th, fr, ci, a[0], m.sprint(sliceElems(a[1]), false))
	})
	reg("fmt.Fprintln", func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
		return m.writeTo(th, fr, ci, a[0], m.sprint(sliceElems(a[1]), true))
	})
	for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf", "log.Print", "log.Println", "log.Printf"} {
		pure(n, func(m *Machine, a []Value) Value { return tuple(Value{}, Value{}) })
	}
	reg("io.WriteString", func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
		return m.writeTo(th, fr, ci, a[0], strBytes(a[1]))
	})

	// ---- strconv ----
	i64 := tinfo{k: kInt, w: 64, signed: true}
	pure("strconv.Itoa", func(m *Machine, a []Value) Value { return mkStr(m.fmtInt(a[0], i64)) })
	pure("strconv.FormatInt", func(m *Machine, a []Value) Value {
		if a[1].N != 10 {
			return strV(strconv.FormatInt(int64(m.concInt(a[0])), int(a[1].N)))
		}
		return mkStr(m.fmtInt(a[0], i64))
	})
	pure("strconv.FormatUint", func(m *Machine, a []Value) Value {
		if a[1].N != 10 {
			return strV(strconv.FormatUint(m.concInt(a[0]), int(a[1].N)))
		}
		return mkStr(m.fmtInt(a[0], tinfo{k: kInt, w: 64}))
	})
	pure("strconv.AppendInt", func(m *Machine, a []Value) Value {
		if a[2].N != 10 {
			return appendBytes(a[0], strBytes(strV(strconv.FormatInt(int64(m.concInt(a[1])), int(a[2].N)))))
		}
		return appendBytes(a[0], m.fmtInt(a[1], i64))
	})
	pure("strconv.AppendUint", func(m *Machine, a []Value) Value {
		return appendBytes(a[0], m.fmtInt(a[1], tinfo{k: kInt, w: 64}))
	})
	pure("strconv.Quote", func(m *Machine, a []Value) Value {
		s, ok := concStr(a[0])
		if !ok {
			return strV("\"?\"")
		}
		return strV(strconv.Quote(s))
	})
	pure("strconv.Atoi", func(m *Machine, a []Value) Value {
		b := strBytes(a[0])
		if s, ok := concStr(a[0]); ok {
			n, err := strconv.Atoi(s)
			if err != nil {
				return tuple(intV(int64(n)), m.numError(err.Error(), errors.Is(err, strconv.ErrRange)))
			}
			return tuple(intV(int64(n)), Value{})
		}
		c := m.ctx
		neg := false
		i := 0
		bad := func() Value { return tuple(Value{}, m.numError("strconv.Atoi: parsing: invalid syntax", false)) }
		if len(b) > 0 {
			b0 := m.domTerm(b[0], 8)
			if m.branch(c.Bin(OpEq, b0, c.Const(8, '-'))) {
				neg = true
				i = 1
			} else if m.branch(c.Bin(OpEq, b0, c.Const(8, '+'))) {
				i = 1
			}
		}
		if i >= len(b) {
			return bad()
		}
		n := c.Const(64, 0)
		over := c.fls
		for ; i < len(b); i++ {
			d := m.domTerm(b[i], 8)
			if !m.branch(c.And(c.Bin(OpUle, c.Const(8, '0'), d), c.Bin(OpUle, d, c.Const(8, '9')))) {
				return bad()
			}
			over = c.Or(over, c.Bin(OpUlt, c.Const(64, (math.MaxInt64-9)/10), n))
			n = c.Bin(OpAdd, c.Bin(OpMul, n, c.Const(64, 10)), c.Zext(c.Bin(OpSub, d, c.Const(8, '0')), 64))
		}
		if m.branch(over) {
			v := int64(math.MaxInt64)
			if neg {
				v = math.MinInt64
			}
			return tuple(intV(v), m.numError("strconv.Atoi: parsing: value out of range", true))
		}
		if neg {
			n = c.Neg(n)
		}
		return tuple(m.fromTerm(n), Value{})
	})

	// ---- strings ----
	pure("(*strings.Builder).WriteString", func(m *Machine, a []Value) Value {
		b := strBytes(a[1])
		m.builderAdd(a[0], b)
		return tuple(intV(int64(len(b))), Value{})
	})
	pure("(*strings.Builder).Write", func(m *Machine, a []Value) Value {
		b := sliceElems(a[1])
		m.builderAdd(a[0], b)
		return tuple(intV(int64(len(b))), Value{})
	})
	pure("(*strings.Builder).WriteByte", func(m *Machine, a []Value) Value {
		m.builderAdd(a[0], []Value{a[1]})
		return Value{}
	})
	pure("(*strings.Builder).WriteRune", func(m *Machine, a []Value) Value {
		b := strBytes(m.runeToStr(a[1]))
		m.builderAdd(a[0], b)
		return tuple(intV(int64(len(b))), Value{})
	})
	pure("(*strings.Builder).String", func(m *Machine, a []Value) Value {
		return mkStr(sliceElems(*m.builderBuf(ptrArg(a[0]))))
	})
	pure("(*strings.Builder).Len", func(m *Machine, a []Value) Value {
		return intV(int64(len(sliceElems(*m.builderBuf(ptrArg(a[0]))))))
	})
	pure("(*strings.Builder).Cap", func(m *Machine, a []Value) Value {
		return intV(int64(cap(sliceElems(*m.builderBuf(ptrArg(a[0]))))))
	})
	pure("(*strings.Builder).Grow", func(m *Machine, a []Value) Value { return Value{} })
	pure("(*strings.Builder).Reset", func(m *Machine, a []Value) Value {
		*m.builderBuf(ptrArg(a[0])) = Value{}
		return Value{}
	})
	pure("strings.Repeat", func(m *Machine, a []Value) Value {
		n := int64(m.concLen(a[1], "strings: negative Repeat count"))
		b := strBytes(a[0])
		if n*int64(len(b)) > 1<<20 {
			panic(pathAbort{abBound, "huge Repeat"})
		}
		if s, ok := concStr(a[0]); ok {
			return strV(strings.Repeat(s, int(n)))
		}
		var out []Value
		for i := int64(0); i < n; i++ {
			out = append(out, b...)
		}
		return mkStr(out)
	})
	pure("bytes.Repeat", func(m *Machine, a []Value) Value {
		n := int64(m.concLen(a[1], "bytes: negative Repeat count"))
		b := sliceElems(a[0])
		var out []Value
		for i := int64(0); i < n; i++ {
			out = append(out, b...)
		}
		return bytesToSlice(out)
	})
	pure("strings.Join", func(m *Machine, a []Value) Value {
		var out []Value
		for i, e := range sliceElems(a[0]) {
			if i > 0 {
				out = append(out, strBytes(a[1])...)
			}
			out = append(out, strBytes(e)...)
		}
		return mkStr(out)
	})
	pure("strings.HasPrefix", func(m *Machine, a []Value) Value {
		n := strLen(a[1])
		if strLen(a[0]) < n {
			return boolV(false)
		}
		return m.fromTerm(m.bytesEq(strBytes(a[0])[:n], strBytes(a[1])))
	})
	pure("strings.HasSuffix", func(m *Machine, a []Value) Value {
		n, l := strLen(a[1]), strLen(a[0])
		if l < n {
			return boolV(false)
		}
		return m.fromTerm(m.bytesEq(strBytes(a[0])[l-n:], strBytes(a[1])))
	})
	pure("bytes.HasPrefix", func(m *Machine, a []Value) Value {
		x, y := sliceElems(a[0]), sliceElems(a[1])
		if len(x) < len(y) {
			return boolV(false)
		}
		return m.fromTerm(m.bytesEq(x[:len(y)], y))
	})
	pure("bytes.Equal", func(m *Machine, a []Value) Value { return m.fromTerm(m.bytesEq(sliceElems(a[0]), sliceElems(a[1]))) })
	pure("strings.Index", func(m *Machine, a []Value) Value { return intV(int64(m.indexOf(strBytes(a[0]), strBytes(a[1])))) })
	pure("strings.Contains", func(m *Machine, a []Value) Value {
		if x := strBytes(a[1]); len(x) == 1 {
			i := m.indexOfByte(strBytes(a[0]), x[0])
			if t, ok := i.P.(*Term); ok {
				return m.fromTerm(m.ctx.Not(m.ctx.Bin(OpEq, t, m.ctx.Const(64, ^uint64(0)))))
			}
			return boolV(int64(i.N) >= 0)
		}
		return boolV(m.indexOf(strBytes(a[0]), strBytes(a[1])) >= 0)
	})
	pure("bytes.Index", func(m *Machine, a []Value) Value {
		return intV(int64(m.indexOf(sliceElems(a[0]), sliceElems(a[1]))))
	})
	pure("bytes.Contains", func(m *Machine, a []Value) Value { return boolV(m.indexOf(sliceElems(a[0]), sliceElems(a[1])) >= 0) })
	for _, x := range []struct {
		pkg string
		f   func(v Value) []Value
	}{{"strings.", strBytes}, {"bytes.", sliceElems}} {
		pure(x.pkg+"IndexRune", func(m *Machine, a []Value) Value { return m.indexRune(x.f(a[0]), a[1]) })
		pure(x.pkg+"ContainsRune", func(m *Machine, a []Value) Value {
			i := m.indexRune(x.f(a[0]), a[1])
			if t, ok := i.P.(*Term); ok {
				return m.fromTerm(m.ctx.Not(m.ctx.Bin(OpEq, t, m.ctx.Const(64, ^uint64(0)))))
			}
			return boolV(int64(i.N) >= 0)
		})
	}
	ib := func(f func(v Value) []Value) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value { return m.indexOfByte(f(a[0]), a[1]) }
	}
	for _, n := range []string{"strings.IndexByte", "internal/bytealg.IndexByteString"} {
		pure(n, ib(strBytes))
	}
	for _, n := range []string{"bytes.IndexByte", "internal/bytealg.IndexByte"} {
		pure(n, ib(sliceElems))
	}
	pure("internal/bytealg.Equal", func(m *Machine, a []Value) Value { return m.fromTerm(m.bytesEq(sliceElems(a[0]), sliceElems(a[1]))) })
	pure("internal/bytealg.MakeNoZero", func(m *Machine, a []Value) Value {
		return bytesToSlice(make([]Value, m.concLen(a[0], "makeslice: len out of range")))
	})
	cnt := func(f func(v Value) []Value) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			n := 0
			for _, b := range f(a[0]) {
				if m.branch(m.ctx.Bin(OpEq, m.domTerm(b, 8), m.domTerm(a[1], 8))) {
					n++
				}
			}
			return intV(int64(n))
		}
	}
	pure("internal/bytealg.Count", cnt(sliceElems))
	pure("internal/bytealg.CountString", cnt(strBytes))
	replace := func(m *Machine, a []Value, n int) Value {
		s, o1 := concStr(a[0])
		x, o2 := concStr(a[1])
		y, o3 := concStr(a[2])
		if o1 && o2 && o3 {
			return strV(strings.Replace(s, x, y, n))
		}
		sb, xb, yb := strBytes(a[0]), strBytes(a[1]), strBytes(a[2])
		if len(xb) == 0 {
			panic(pathAbort{abEngine, "strings.Replace of an empty string in a symbolic one"})
		}
		var out []Value
		for n != 0 {
			i := m.indexOf(sb, xb)
			if i < 0 {
				break
			}
			out = append(append(out, sb[:i]...), yb...)
			sb = sb[i+len(xb):]
			n--
		}
		return mkStr(append(out, sb...))
	}
	pure("strings.Replace", func(m *Machine, a []Value) Value { return replace(m, a, int(int64(m.concInt(a[3])))) })
	pure("strings.ReplaceAll", func(m *Machine, a []Value) Value { return replace(m, a, -1) })
	cmpB := func(m *Machine, x, y []Value) Value {
		c := m.ctx
		for i := 0; i < len(x) && i < len(y); i++ {
			p, q := m.domTerm(x[i], 8), m.domTerm(y[i], 8)
			if m.branch(c.Bin(OpEq, p, q)) {
				continue
			}
			if m.branch(c.Bin(OpUlt, p, q)) {
				return intV(-1)
			}
			return intV(1)
		}
		return intV(int64(cmp.Compare(len(x), len(y))))
	}
	pure("internal/bytealg.CompareString", func(m *Machine, a []Value) Value { return cmpB(m, strBytes(a[0]), strBytes(a[1])) })
	pure("internal/bytealg.Compare", func(m *Machine, a []Value) Value { return cmpB(m, sliceElems(a[0]), sliceElems(a[1])) })
	pure("runtime.cmpstring", func(m *Machine, a []Value) Value { return cmpB(m, strBytes(a[0]), strBytes(a[1])) })
	sortSlice := func(m *Machine, a []Value) Value {
		iv, _ := a[0].P.(*IfaceV)
		if iv == nil {
			return Value{}
		}
		el := sliceElems(iv.v)
		f := a[1].P.(*FuncV)
		// insertion sort: less is called on indices, so elements move in place
		for i := 1; i < len(el); i++ {
			for j := i; j > 0; j-- {
				if !m.branch(m.domTerm(m.callSync(f.fn, []Value{intV(int64(j)), intV(int64(j - 1))}, f.env), 0)) {
					break
				}
				t := copyVal(el[j])
				storeInto(&el[j], copyVal(el[j-1]))
				storeInto(&el[j-1], t)
			}
		}
		return Value{}
	}
	pure("sort.Slice", sortSlice)
	pure("sort.SliceStable", sortSlice)
	pure("maps.clone", func(m *Machine, a []Value) Value {
		iv, _ := a[0].P.(*IfaceV)
		if iv == nil {
			return Value{}
		}
		mv, _ := iv.v.P.(*MapV)
		if mv == nil {
			return a[0]
		}
		n := &MapV{idx: map[string]int{}}
		for _, e := range mv.ents {
			if !e.dead {
				m.mapSet(n, e.k, e.v)
			}
		}
		return Value{P: &IfaceV{t: iv.t, v: Value{P: n}}}
	})
	pure("slices.overlaps", func(m *Machine, a []Value) Value {
		x, y := sliceElems(a[0]), sliceElems(a[1])
		if len(x) == 0 || len(y) == 0 {
			return boolV(false)
		}
		ad := func(p *Value) uintptr { return uintptr(unsafe.Pointer(p)) }
		return boolV(ad(&x[0]) <= ad(&y[len(y)-1]) && ad(&y[0]) <= ad(&x[len(x)-1]))
	})
	pure("strings.Clone", func(m *Machine, a []Value) Value { return a[0] })
	fold := func(f func(string) string, lo, hi, d uint64) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			if s, ok := concStr(a[0]); ok {
				return strV(f(s))
			}
			c := m.ctx
			var out []Value
			for _, b := range strBytes(a[0]) {
				t := m.domTerm(b, 8)
				if !m.branch(c.Bin(OpUlt, t, c.Const(8, 0x80))) {
					panic(pathAbort{abEngine, "case mapping of a symbolic non-ASCII string"})
				}
				if m.branch(c.And(c.Bin(OpUle, c.Const(8, lo), t), c.Bin(OpUle, t, c.Const(8, hi)))) {
					t = c.Bin(OpXor, t, c.Const(8, d))
				}
				out = append(out, m.fromTerm(t))
			}
			return mkStr(out)
		}
	}
	pure("strings.ToUpper", fold(strings.ToUpper, 'a', 'z', 0x20))
	pure("strings.ToLower", fold(strings.ToLower, 'A', 'Z', 0x20))
	pure("bytes.Clone", func(m *Machine, a []Value) Value {
		if a[0].P == nil {
			return Value{}
		}
		return bytesToSlice(append([]Value(nil), sliceElems(a[0])...))
	})

	// ---- utf8 ----
	pure("unicode/utf8.DecodeRune", func(m *Machine, a []Value) Value { return m.decodeTuple(sliceElems(a[0])) })
	pure("unicode/utf8.DecodeRuneInString", func(m *Machine, a []Value) Value { return m.decodeTuple(strBytes(a[0])) })
	pure("unicode/utf8.FullRune", func(m *Machine, a []Value) Value { return boolV(m.fullRune(sliceElems(a[0]))) })
	pure("unicode/utf8.FullRuneInString", func(m *Machine, a []Value) Value { return boolV(m.fullRune(strBytes(a[0]))) })
	pure("unicode/utf8.RuneLen", func(m *Machine, a []Value) Value { return intV(int64(m.runeLenOf(a[0]))) })
	pure("unicode/utf8.ValidRune", func(m *Machine, a []Value) Value {
		if a[0].P == nil {
			return boolV(utf8.ValidRune(rune(int32(a[0].N))))
		}
		c := m.ctx
		t := a[0].P.(*Term)
		k := func(v uint64) *Term { return c.Const(32, v) }
		return m.fromTerm(c.Or(c.Bin(OpUlt, t, k(0xD800)), c.And(c.Bin(OpUle, k(0xE000), t), c.Bin(OpUle, t, k(0x10FFFF)))))
	})
	pure("unicode/utf8.AppendRune", func(m *Machine, a []Value) Value {
		return appendBytes(a[0], strBytes(m.runeToStr(a[1])))
	})
	pure("unicode/utf8.EncodeRune", func(m *Machine, a []Value) Value {
		b := strBytes(m.runeToStr(a[1]))
		d := sliceElems(a[0])
		if len(d) < len(b) {
			rtPanic("index out of range in EncodeRune")
		}
		for i := range b {
			d[i] = b[i]
		}
		return intV(int64(len(b)))
	})
	rc := func(f func(v Value) []Value) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			b := f(a[0])
			n := 0
			for len(b) > 0 {
				_, k := m.decodeRune(b)
				b = b[k:]
				n++
			}
			return intV(int64(n))
		}
	}
	pure("unicode/utf8.RuneCount", rc(sliceElems))
	pure("unicode/utf8.RuneCountInString", rc(strBytes))
	vd := func(f func(v Value) []Value) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			b := f(a[0])
			for len(b) > 0 {
				r, k := m.decodeRune(b)
				if k == 1 && r.P == nil && r.N == 0xFFFD {
					return boolV(false)
				}
				b = b[k:]
			}
			return boolV(true)
		}
	}
	pure("unicode/utf8.Valid", vd(sliceElems))
	pure("unicode/utf8.ValidString", vd(strBytes))
	pure("unicode/utf8.RuneStart", func(m *Machine, a []Value) Value {
		c := m.ctx
		return m.fromTerm(c.Not(c.Bin(OpEq, c.Bin(OpAnd, m.domTerm(a[0], 8), c.Const(8, 0xC0)), c.Const(8, 0x80))))
	})
	tv := func(f func(v Value) []Value) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			b := f(a[0])
			var out []Value
			i := 0
			bad := false
			for i < len(b) {
				r, k := m.decodeRune(b[i:])
				if k == 1 && r.P == nil && r.N == 0xFFFD {
					if !bad {
						out = append(out, strOrBytes(a[1])...)
					}
					bad = true
				} else {
					bad = false
					out = append(out, b[i:i+k]...)
				}
				i += k
			}
			return Value{P: out}
		}
	}
	pure("strings.ToValidUTF8", func(m *Machine, a []Value) Value {
		return mkStr(tv(strBytes)(m, a).P.([]Value))
	})
	pure("bytes.ToValidUTF8", func(m *Machine, a []Value) Value {
		return bytesToSlice(tv(sliceElems)(m, a).P.([]Value))
	})

	// ---- unicode ----
	isIn := func(m *Machine, r, tab Value) Value {
		p, ok := tab.P.(*Value)
		if !ok || p == nil {
			panic(pathAbort{abEngine, "unicode.Is on unknown table"})
		}
		o, ok := p.P.(opaque)
		if !ok {
			panic(pathAbort{abEngine, "unicode.Is on unknown table"})
		}
		tb := isTab(o.why)
		if r.P == nil {
			if r.N > utf8.MaxRune {
				return boolV(false)
			}
			t := Table{start: tb.start, val: tb.val}
			return Value{N: t.at(r.N)}
		}
		t := r.P.(*Term)
		c := m.ctx
		return m.fromTerm(c.And(c.Bin(OpUle, t, c.Const(32, utf8.MaxRune)), c.Bin(OpEq, m.tabAt(tb, 8, t), c.Const(8, 1))))
	}
	pure("unicode.Is", func(m *Machine, a []Value) Value { return isIn(m, a[1], a[0]) })
	anyOf := func(m *Machine, r, tabs Value) Value {
		res := m.ctx.fls
		for _, tab := range sliceElems(tabs) {
			res = m.ctx.Or(res, m.domTerm(isIn(m, r, tab), 0))
		}
		return m.fromTerm(res)
	}
	pure("unicode.In", func(m *Machine, a []Value) Value { return anyOf(m, a[0], a[1]) })
	pure("unicode.IsOneOf", func(m *Machine, a []Value) Value { return anyOf(m, a[1], a[0]) })
	regUnicode("IsUpper", unicode.IsUpper)
	regUnicode("IsLower", unicode.IsLower)
	regUnicode("IsLetter", unicode.IsLetter)
	regUnicode("IsDigit", unicode.IsDigit)
	regUnicode("IsNumber", unicode.IsNumber)
	regUnicode("IsControl", unicode.IsControl)
	regUnicode("IsPrint", unicode.IsPrint)
	regUnicode("IsGraphic", unicode.IsGraphic)
	regUnicode("IsSpace", unicode.IsSpace)
	regUnicode("IsPunct", unicode.IsPunct)
	regUnicode("IsMark", unicode.IsMark)
	regUniMap("ToUpper", unicode.ToUpper)
	regUniMap("ToLower", unicode.ToLower)
	regUniMap("SimpleFold", unicode.SimpleFold)

	// ---- uniseg ----
	pure("github.com/rivo/uniseg.StringWidth", func(m *Machine, a []Value) Value {
		if s, ok := concStr(a[0]); ok {
			return intV(int64(uniseg.StringWidth(s)))
		}
		b := strBytes(a[0])
		r, n := m.decodeRune(b)
		if n == len(b) {
			return m.runeWidthOf(r)
		}
		// several runes: segment by classes
		w, st := 0, -1
		for len(b) > 0 {
			cl, bd, ns := m.stepSym(b, st)
			w += bd >> uniseg.ShiftWidth
			st = ns
			b = b[cl:]
		}
		return intV(int64(w))
	})
	step := func(isStr bool) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			var b []Value
			if isStr {
				b = strBytes(a[0])
			} else {
				b = sliceElems(a[0])
			}
			if len(b) == 0 {
				return tuple(Value{}, Value{}, Value{}, Value{})
			}
			cl, bd, ns := m.stepSym(b, int(int64(m.concInt(a[1]))))
			var c1, c2 Value
			if isStr {
				c1, c2 = subStr(a[0], 0, cl), subStr(a[0], cl, len(b))
			} else {
				c1 = bytesToSlice(b[:cl])
				if cl < len(b) {
					c2 = bytesToSlice(b[cl:])
				}
			}
			return tuple(c1, c2, intV(int64(bd)), intV(int64(ns)))
		}
	}
	pure("github.com/rivo/uniseg.Step", step(false))
	pure("github.com/rivo/uniseg.StepString", step(true))
	fgc := func(isStr bool) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			var b []Value
			if isStr {
				b = strBytes(a[0])
			} else {
				b = sliceElems(a[0])
			}
			if len(b) == 0 {
				return tuple(Value{}, Value{}, Value{}, Value{})
			}
			st := int(int64(m.concInt(a[1])))
			if st >= 0 {
				panic(pathAbort{abEngine, "FirstGraphemeCluster with carried state"})
			}
			cl, bd, _ := m.stepSym(b, st)
			var c1, c2 Value
			if isStr {
				c1, c2 = subStr(a[0], 0, cl), subStr(a[0], cl, len(b))
			} else {
				c1 = bytesToSlice(b[:cl])
				if cl < len(b) {
					c2 = bytesToSlice(b[cl:])
				}
			}
			return tuple(c1, c2, intV(int64(bd>>uniseg.ShiftWidth)), Value{N: ^uint64(0)})
		}
	}
	pure("github.com/rivo/uniseg.FirstGraphemeCluster", fgc(false))
	pure("github.com/rivo/uniseg.FirstGraphemeClusterInString", fgc(true))
	pure("github.com/rivo/uniseg.GraphemeClusterCount", func(m *Machine, a []Value) Value {
		b := strBytes(a[0])
		n, st := 0, -1
		for len(b) > 0 {
			cl, _, ns := m.stepSym(b, st)
			st = ns
			n++
			b = b[cl:]
		}
		return intV(int64(n))
	})

	// ---- misc environment ----
	pure("errors.Is", func(m *Machine, a []Value) Value {
		if a[0].P == nil {
			return boolV(a[1].P == nil)
		}
		return boolV(m.errWalk(a[0], 0, func(iv *IfaceV) bool {
			if m.valEq(Value{P: iv}, a[1], m.eng.errorIface) == m.ctx.tru {
				return true
			}
			if f := m.ifaceMethod(iv, "Is"); f != nil && len(f.Params) == 2 {
				return m.branch(m.domTerm(m.callSync(f, []Value{iv.v, a[1]}, nil), 0))
			}
			return false
		}))
	})
	pure("errors.As", func(m *Machine, a []Value) Value {
		tv, _ := a[1].P.(*IfaceV)
		if tv == nil {
			rtPanic("errors: target cannot be nil")
		}
		pt, ok := tv.t.Underlying().(*types.Pointer)
		dst, _ := tv.v.P.(*Value)
		if !ok || dst == nil {
			rtPanic("errors: target must be a non-nil pointer")
		}
		if a[0].P == nil {
			return boolV(false)
		}
		return boolV(m.errWalk(a[0], 0, func(iv *IfaceV) bool {
			if it, isI := pt.Elem().Underlying().(*types.Interface); isI {
				if m.eng.implements(iv.t, it) {
					*dst = Value{P: iv}
					return true
				}
			} else if types.Identical(iv.t, pt.Elem()) {
				storeInto(dst, copyVal(iv.v))
				return true
			}
			return false
		}))
	})
	pure("flag.BoolVar", func(m *Machine, a []Value) Value { *ptrArg(a[0]) = a[2]; return Value{} })
	pure("flag.StringVar", func(m *Machine, a []Value) Value { *ptrArg(a[0]) = a[2]; return Value{} })
	pure("flag.IntVar", func(m *Machine, a []Value) Value { *ptrArg(a[0]) = a[2]; return Value{} })
	mkp := func(m *Machine, a []Value) Value {
		p := new(Value)
		*p = a[1]
		return Value{P: p}
	}
	pure("flag.String", mkp)
	pure("flag.Bool", mkp)
	pure("flag.Int", mkp)
	pure("time.Now", func(m *Machine, a []Value) Value { return tuple(Value{}, Value{}, Value{}) })
	pure("time.Since", func(m *Machine, a []Value) Value { return Value{} })
	pure("time.Sleep", func(m *Machine, a []Value) Value { return Value{} })
	pure("os.Getenv", func(m *Machine, a []Value) Value { return Value{} })
	pure("os.Environ", func(m *Machine, a []Value) Value { return Value{} })
	pure("runtime.Gosched", func(m *Machine, a []Value) Value { return Value{} })
	pure("(*testing.common).Helper", func(m *Machine, a []Value) Value { return Value{} })
	reg("github.com/creack/pty.Setsize", func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
		m.ptySize = copyVal(*ptrArg(a[1]))
		m.ptyCalls++
		return Value{}, ctlDone
	})
	pure(H("vPtySize"), func(m *Machine, a []Value) Value {
		// rows, cols, calls of the last pty.Setsize (engine stand-in)
		if m.ptyCalls == 0 {
			return tuple(Value{N: ^uint64(0)}, Value{N: ^uint64(0)}, Value{})
		}
		ag := m.ptySize.P.(*Agg)
		u16 := tinfo{k: kInt, w: 16}
		return tuple(m.intConv(ag.f[0], u16, i64), m.intConv(ag.f[1], u16, i64), intV(int64(m.ptyCalls)))
	})
}

func strOrBytes(v Value) []Value {
	if s, ok := v.P.(*SliceV); ok {
		return s.a
	}
	return strBytes(v)
}

func regAtomics() {
	type opf func(m *Machine, p *Value, a []Value) Value
	defs := map[string]opf{
		"Load":  func(m *Machine, p *Value, a []Value) Value { return *p },
		"Store": func(m *Machine, p *Value, a []Value) Value { *p = a[0]; return Value{} },
		"Swap":  func(m *Machine, p *Value, a []Value) Value { o := *p; *p = a[0]; return o },
	}
	// functions
	for _, t := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}} {
		w := t.w
		add := func(m *Machine, p *Value, a []Value) Value {
			*p = m.fromTerm(m.ctx.Bin(OpAdd, m.domTerm(*p, w), m.domTerm(a[0], w)))
			return *p
		}
		cas := func(m *Machine, p *Value, a []Value) Value {
			if m.branch(m.ctx.Bin(OpEq, m.domTerm(*p, w), m.domTerm(a[0], w))) {
				*p = a[1]
				return boolV(true)
			}
			return boolV(false)
		}
		for k, f := range map[string]opf{"Load": defs["Load"], "Store": defs["Store"], "Swap": defs["Swap"], "Add": add, "CompareAndSwap": cas} {
			k, f := k, f
			intrinsics["sync/atomic."+k+t.n] = func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
				p := ptrArg(a[0])
				if m.trace != nil {
					m.trace.sync(m, th, p)
				}
				return f(m, p, a[1:]), ctlDone
			}
			intrinsics["(*sync/atomic."+t.n+")."+k] = func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
				p := ptrArg(a[0])
				ag := p.P.(*Agg)
				q := &ag.f[len(ag.f)-1]
				if m.trace != nil {
					m.trace.sync(m, th, q)
				}
				return f(m, q, a[1:]), ctlDone
			}
		}
	}
	for k, f := range defs {
		k, f := k, f
		g := func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
			p := ptrArg(a[0])
			ag := p.P.(*Agg)
			q := &ag.f[len(ag.f)-1]
			if m.trace != nil {
				m.trace.sync(m, th, q)
			}
			return f(m, q, a[1:]), ctlDone
		}
		intrinsics["(*sync/atomic.Value)."+k] = g
		intrinsics["(*sync/atomic.Pointer[T])."+k] = g
		intrinsics["(*sync/atomic.Bool)."+k] = g
	}
	intrinsics["(*sync/atomic.Bool).CompareAndSwap"] = func(m *Machine, th *Thread, fr *frame, ci *inst, a []Value) (Value, ctl) {
		ag := ptrArg(a[0]).P.(*Agg)
		q := &ag.f[len(ag.f)-1]
		if m.trace != nil {
			m.trace.sync(m, th, q)
		}
		if m.branch(m.ctx.Bin(OpEq, m.domTerm(*q, 0), m.domTerm(a[1], 0))) {
			*q = a[2]
			return boolV(true), ctlDone
		}
		return boolV(false), ctlDone
	}
}
