package main

import (
	"fmt"
	"go/types"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- path control ----

type abortKind int

const (
	abInfeasible abortKind = iota
	abBound                // step / decision / unwinding bound
	abUnknown              // solver unknown, cannot continue
	abEngine               // unsupported construct
	abViolation
	abStop // harness asked to end the path
)

type pathAbort struct {
	kind abortKind
	msg  string
}

type targetPanic struct {
	v   Value // interface value passed to panic, or runtime error
	msg string
}

type workItem struct {
	prefix []int64
	model  []uint64
}

type Violation struct {
	Harness string
	Msg     string
	Kind    string // assert, panic, deadlock, bound
	Model   []VarVal
	Obs     []string
	Choices []int64
	Stack   string
}

type VarVal struct {
	Name string `json:"name"`
	W    int    `json:"w"`
	Val  uint64 `json:"val"`
}

type obsRec struct {
	label string
	v     Value
	isInt bool
}

type varRec struct {
	name string
	t    *Term
	off  int64
}

type Machine struct {
	prog     *ssa.Program
	eng      *Engine
	ctx      *Ctx
	sol      *Solver
	funcs    map[*ssa.Function]*cfunc
	encoded  map[string]bool
	gidx     map[*ssa.Global]int
	gl       []*Value
	glPkg    []*ssa.Global
	depInit  map[*ssa.Package]bool
	memos    map[string]*tmpl
	satSets  map[*Term]*[4]uint64
	certT    time.Duration
	domTerms map[domKey]*Term
	mcache   map[mkey]*ssa.Function

	// per path
	prefix     []int64
	dec        []int64
	pc         []*Term
	pcVars     varSet
	multi      varSet
	model      []uint64
	vars       []varRec
	dom        []*domain
	steps      int64
	maxSteps   int64
	threads    []*Thread
	cur        *Thread
	locks      map[*Value]*lockSt
	side       map[*Value]any
	obs        []obsRec
	reached    map[string]bool
	out        []workItem // new alternatives
	asserts    int64
	assertsSMT int64
	ev         *evaluator
	trace      *Trace
	trSol      *trSolver

	atUnlock          *FuncV // run by another goroutine after unlocking a mutex
	unlockAt, nUnlock int
	runNext           *Thread
	noMerge           bool
	specW             map[*Value]int
	harness           string
	imprecise         string
	digits            map[*Term][]Value
	ptySize           Value
	ptyCalls          int
	mainInitCF        *cfunc
	transitions       int64
}

type mkey struct {
	t types.Type
	m *types.Func
}

type domain struct {
	lo   uint64
	n    int
	bits [4]uint64
	cnt  int
}

type lockSt struct {
	owner   *Thread
	readers map[*Thread]int
	name    string
}

type frame struct {
	cf        *cfunc
	regs      []Value
	blk       *cblock
	pc        int
	caller    *frame
	dst       int // register in caller, -1 none
	defers    []deferred
	panicking bool
	panicVal  *targetPanic
	recovered bool
	isDefer   bool // this frame runs a deferred call of caller
	runDefer  bool
	onRet     func(Value)
}

type deferred struct {
	fn      *FuncV
	args    []Value
	blt     string
	bltType types.Type
}

type Thread struct {
	id               int
	top              *frame
	done             bool
	blocked          bool
	why              string
	yielded          bool
	quiet, wantQuiet bool
	noHook           bool
}

func (m *Machine) globalIdx(g *ssa.Global) int {
	if i, ok := m.gidx[g]; ok {
		return i
	}
	i := len(m.gl)
	m.gidx[g] = i
	m.gl = append(m.gl, nil)
	m.glPkg = append(m.glPkg, g)
	return i
}

func (m *Machine) global(i int) *Value {
	if p := m.gl[i]; p != nil {
		return p
	}
	g := m.glPkg[i]
	t := g.Type().Underlying().(*types.Pointer).Elem()
	p := new(Value)
	*p = copyVal(zeroOf(t))
	m.gl[i] = p
	if g.Pkg != m.eng.mainPkg && !m.depInit[g.Pkg] {
		m.runDepInit(g.Pkg)
		return m.gl[i]
	}
	return p
}

var initAllow = map[string]bool{"errors": true, "io": true, "bytes": true, "bufio": true, "strings": true, "strconv": true,
	"unicode/utf8": true, "internal/bytealg": true, "sort": true, "slices": true, "math/bits": true, "cmp": true,
	"context": true, "container/list": true, "maps": true, "iter": true, "unicode/utf16": true, "math": true}

func (m *Machine) runDepInit(p *ssa.Package) {
	if p == nil || m.depInit[p] {
		return
	}
	m.depInit[p] = true
	if p.Pkg.Path() == "unicode" {
		// range tables are modelled natively: each table global holds its name
		for name, mem := range p.Members {
			if g, ok := mem.(*ssa.Global); ok {
				if pt, ok := g.Type().Underlying().(*types.Pointer).Elem().(*types.Pointer); ok && pt.Elem().String() == "unicode.RangeTable" {
					q := new(Value)
					*q = Value{P: opaque{name}}
					slot := new(Value)
					*slot = Value{P: q}
					m.gl[m.globalIdx(g)] = slot
				}
			}
		}
		return
	}
	if !initAllow[p.Pkg.Path()] {
		return
	}
	init := p.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	// run on a private thread
	save, saveCur, sT := m.threads, m.cur, m.trace
	m.trace = nil
	th := &Thread{id: 1000}
	m.threads = []*Thread{th}
	m.cur = th
	m.pushCall(th, m.cfuncOf(init), nil, nil, -1)
	m.runThread(th)
	m.threads, m.cur, m.trace = save, saveCur, sT
}

// ---- symbolic values ----

func (m *Machine) newVar(name string, w uint8, lo, hi uint64) *Term {
	idx := len(m.vars)
	if idx >= maxVars {
		panic(pathAbort{abBound, "variable bound"})
	}
	t := m.ctx.Var(idx, w, lo, hi)
	m.vars = append(m.vars, varRec{name, t, 0})
	var d *domain
	if hi-lo < 256 {
		d = &domain{lo: lo, n: int(hi-lo) + 1}
		for i := 0; i < d.n; i++ {
			d.bits[i>>6] |= 1 << (uint(i) & 63)
		}
		d.cnt = d.n
	}
	m.dom = append(m.dom, d)
	if len(m.model) <= idx {
		m.model = append(m.model, lo)
		m.ev = nil
	} else if m.model[idx] < lo || m.model[idx] > hi {
		m.model[idx] = lo
		m.ev = nil
	}
	return t
}

func (m *Machine) evalModel(t *Term) uint64 {
	if t.op == OpConst {
		return t.k
	}
	if m.ev == nil {
		m.ev = &evaluator{c: m.ctx, val: func(i int) uint64 { return m.model[i] }, memo: map[*Term]uint64{}}
	}
	return m.ev.eval(t)
}

func (m *Machine) setModel(r map[int]uint64) {
	for i, v := range r {
		m.model[i] = v
	}
	m.ev = nil
}

// satSet returns, for a boolean term over one small-domain variable, the set of satisfying values.
func (m *Machine) satSet(c *Term, d *domain) *[4]uint64 {
	if s, ok := m.satSets[c]; ok {
		return s
	}
	s := new([4]uint64)
	var cur uint64
	ev := &evaluator{c: m.ctx, val: func(int) uint64 { return cur }}
	for i := 0; i < d.n; i++ {
		cur = d.lo + uint64(i)
		ev.memo = map[*Term]uint64{}
		if ev.eval(c) == 1 {
			s[i>>6] |= 1 << (uint(i) & 63)
		}
	}
	m.satSets[c] = s
	m.certify(c, d, s)
	return s
}

// cheapTerm reports whether a term has few nodes and none of them a table.
func cheapTerm(t *Term, n *int) bool {
	if t == nil {
		return true
	}
	*n--
	if *n < 0 || t.op == OpTable || t.op == OpUDiv || t.op == OpURem || t.op == OpSDiv || t.op == OpSRem {
		return false
	}
	return cheapTerm(t.a, n) && cheapTerm(t.b, n) && cheapTerm(t.c, n)
}

// certify has the solver confirm that c holds exactly for the values in s, so that
// the branches decided from s rest on a solver verdict over the whole domain.  It
// skips big terms, and stops after a few seconds per worker.
func (m *Machine) certify(c *Term, d *domain, s *[4]uint64) {
	v := m.vars[c.onlyVar].t
	if n := 60; v.w == 1 || m.certT > 3*time.Second || !cheapTerm(c, &n) {
		return
	}
	t0 := time.Now()
	defer func() { m.certT += time.Since(t0) }()
	full := &domain{lo: d.lo, n: d.n}
	set := &domain{lo: d.lo, n: d.n, bits: *s}
	for i := 0; i < d.n; i++ {
		full.bits[i>>6] |= 1 << (uint(i) & 63)
	}
	x := m.ctx
	in := m.domTermOf(v, set)
	q := x.And(m.domTermOf(v, full), x.Or(x.And(c, x.Not(in)), x.And(x.Not(c), in)))
	r := m.sol.Check([]*Term{q}, func(i int) *Term { return m.vars[i].t })
	m.sol.st.Certified++
	if r.sat == 1 {
		panic(pathAbort{abEngine, "domain of a condition disagrees with the solver"})
	}
	if r.sat < 0 {
		m.eng.noteUnknown()
	}
}

// quick decides c under single-variable domains: 0 false, 1 true, 2 both possible and exact, -1 don't know.
func (m *Machine) quick(c *Term) int {
	if c.op == OpConst {
		return int(c.k)
	}
	if c.nvars == 1 {
		d := m.dom[c.onlyVar]
		if d != nil {
			s := m.satSet(c, d)
			any, all := false, true
			for i := range s {
				if s[i]&d.bits[i] != 0 {
					any = true
				}
				if d.bits[i]&^s[i] != 0 {
					all = false
				}
			}
			if !any {
				return 0
			}
			if all {
				return 1
			}
			if !m.multi.has(int(c.onlyVar)) {
				return 2
			}
		}
		return -1
	}
	// all variables fixed?
	for i, w := range c.vars {
		for w != 0 {
			b := trailing(w)
			w &= w - 1
			d := m.dom[i*64+b]
			if d == nil || d.cnt != 1 {
				return -1
			}
		}
	}
	return int(m.evalModel(c))
}

func (m *Machine) addPC(c *Term) {
	if c.op == OpConst {
		if c.k == 0 {
			panic(pathAbort{abInfeasible, "false pc"})
		}
		return
	}
	if c.op == OpBAnd {
		m.addPC(c.a)
		m.addPC(c.b)
		return
	}
	m.pc = append(m.pc, c)
	m.pcVars.union(&c.vars)
	if c.nvars == 1 {
		if d := m.dom[c.onlyVar]; d != nil {
			s := m.satSet(c, d)
			nd := *d
			nd.cnt = 0
			for i := range s {
				nd.bits[i] &= s[i]
				x := nd.bits[i]
				for x != 0 {
					x &= x - 1
					nd.cnt++
				}
			}
			m.dom[c.onlyVar] = &nd
			if nd.cnt == 0 {
				panic(pathAbort{abInfeasible, "empty domain"})
			}
		} else {
			m.multi.union(&c.vars)
		}
	} else {
		m.multi.union(&c.vars)
	}
}

// slice returns the path constraints connected to c.
func (m *Machine) slice(c *Term) []*Term {
	vs := c.vars
	res := []*Term{c}
	used := make([]bool, len(m.pc))
	for changed := true; changed; {
		changed = false
		for i, p := range m.pc {
			if !used[i] && p.nvars == 1 && m.dom[p.onlyVar] != nil {
				used[i] = true // covered by the domain of its variable, added below
			}
			if !used[i] && p.vars.intersects(&vs) {
				used[i] = true
				res = append(res, p)
				if !vs.contains(&p.vars) {
					vs.union(&p.vars)
					changed = true
				}
			}
		}
	}
	for i, w := range vs {
		for w != 0 {
			b := trailing(w)
			w &= w - 1
			if d := m.dom[i*64+b]; d != nil && d.cnt < d.n {
				res = append(res, m.domTermOf(m.vars[i*64+b].t, d))
			}
		}
	}
	return res
}

// domTermOf states membership of a variable in its current domain: the exact
// solution set of the path conditions that mention only this variable.
func (m *Machine) domTermOf(v *Term, d *domain) *Term {
	k := domKey{v, d.bits}
	if t, ok := m.domTerms[k]; ok {
		return t
	}
	c := m.ctx
	t := c.Bool(false)
	for i := 0; i < d.n; {
		if d.bits[i>>6]&(1<<(uint(i)&63)) == 0 {
			i++
			continue
		}
		j := i
		for j+1 < d.n && d.bits[(j+1)>>6]&(1<<(uint(j+1)&63)) != 0 {
			j++
		}
		lo, hi := c.Const(v.w, d.lo+uint64(i)), c.Const(v.w, d.lo+uint64(j))
		var x *Term
		if i == j {
			x = c.Bin(OpEq, v, lo)
		} else {
			x = c.And(c.Bin(OpUle, lo, v), c.Bin(OpUle, v, hi))
		}
		t = c.Or(t, x)
		i = j + 1
	}
	m.domTerms[k] = t
	return t
}

type domKey struct {
	v    *Term
	bits [4]uint64
}

func (m *Machine) check(c *Term) *qres {
	switch m.quick(c) {
	case 0:
		return &qres{sat: 0}
	case 2:
		d := m.dom[c.onlyVar]
		s := m.satSet(c, d)
		for i := 0; i < d.n; i++ {
			if s[i>>6]&d.bits[i>>6]&(1<<(uint(i)&63)) != 0 {
				return &qres{sat: 1, model: map[int]uint64{int(c.onlyVar): d.lo + uint64(i)}}
			}
		}
	}
	if qlog != nil {
		qlog(m, c)
	}
	return m.sol.Check(m.slice(c), func(i int) *Term { return m.vars[i].t })
}

func (m *Machine) pushAlt(d int64, r map[int]uint64) {
	pf := make([]int64, len(m.dec)+1)
	copy(pf, m.dec)
	pf[len(m.dec)] = d
	md := append([]uint64(nil), m.model...)
	for i, v := range r {
		md[i] = v
	}
	m.out = append(m.out, workItem{pf, md})
	if forkLog != nil {
		forkLog(m)
	}
}

var forkLog func(m *Machine) // debugging

func (m *Machine) decide() (int64, bool) {
	if len(m.dec) < len(m.prefix) {
		d := m.prefix[len(m.dec)]
		m.dec = append(m.dec, d)
		return d, true
	}
	if len(m.dec) > m.eng.maxDecisions {
		panic(pathAbort{abBound, "decision bound"})
	}
	return 0, false
}

// branch decides a symbolic condition.
func (m *Machine) branch(c *Term) bool {
	switch m.quick(c) {
	case 0:
		return false
	case 1:
		return true
	}
	if d, ok := m.decide(); ok {
		if d == 1 {
			m.addPC(c)
		} else {
			m.addPC(m.ctx.Not(c))
		}
		return d == 1
	}
	m.transitions++
	mv := m.evalModel(c) == 1
	other := c
	this := c
	if mv {
		other = m.ctx.Not(c)
	} else {
		this = m.ctx.Not(c)
	}
	r := m.check(other)
	if r.sat == 1 {
		m.pushAlt(int64(b2u(!mv)), r.model)
	} else if r.sat < 0 {
		m.eng.noteUnknown()
	}
	m.dec = append(m.dec, int64(b2u(mv)))
	m.addPC(this)
	return mv
}

// concretize enumerates feasible values of t with the solver and forks.
func (m *Machine) concretize(t *Term) uint64 {
	if t.op == OpConst {
		return t.k
	}
	if d, ok := m.decide(); ok {
		v := uint64(d)
		m.addPC(m.ctx.Bin(OpEq, t, m.ctx.Const(t.w, v)))
		return v
	}
	m.transitions++
	v0 := m.evalModel(t)
	seen := []uint64{v0}
	if t.op == OpVar && m.dom[t.k] != nil && !m.multi.has(int(t.k)) {
		d := m.dom[t.k]
		for i := 0; i < d.n; i++ {
			if v := d.lo + uint64(i); d.bits[i>>6]&(1<<(uint(i)&63)) != 0 && v != v0 {
				m.pushAlt(int64(v), map[int]uint64{int(t.k): v})
			}
		}
	} else {
		excl := m.ctx.Not(m.ctx.Bin(OpEq, t, m.ctx.Const(t.w, v0)))
		for {
			r := m.check(excl)
			if r.sat == 0 {
				break
			}
			if r.sat < 0 {
				m.eng.noteUnknown()
				break
			}
			if len(seen) > m.eng.maxConc {
				m.eng.noteBound("concretisation bound")
				break
			}
			// evaluate t under merged model
			md := append([]uint64(nil), m.model...)
			for i, v := range r.model {
				md[i] = v
			}
			ev := &evaluator{c: m.ctx, val: func(i int) uint64 { return md[i] }, memo: map[*Term]uint64{}}
			v := ev.eval(t)
			seen = append(seen, v)
			m.pushAlt(int64(v), r.model)
			excl = m.ctx.And(excl, m.ctx.Not(m.ctx.Bin(OpEq, t, m.ctx.Const(t.w, v))))
		}
	}
	m.dec = append(m.dec, int64(v0))
	m.addPC(m.ctx.Bin(OpEq, t, m.ctx.Const(t.w, v0)))
	return v0
}

// choose forks over n alternatives with no constraint attached to a bit-vector.
func (m *Machine) assume(c *Term) {
	switch m.quick(c) {
	case 0:
		panic(pathAbort{abInfeasible, "assume"})
	case 1:
		return
	}
	if m.evalModel(c) == 1 {
		m.addPC(c)
		return
	}
	r := m.check(c)
	if r.sat == 0 {
		panic(pathAbort{abInfeasible, "assume"})
	}
	if r.sat < 0 {
		m.eng.noteUnknown()
		panic(pathAbort{abUnknown, "assume unknown"})
	}
	m.setModel(r.model)
	m.addPC(c)
}

func (m *Machine) assertT(c *Term, msg string) {
	m.asserts++
	if c.op == OpConst {
		if c.k == 1 {
			return
		}
		m.violate("assert", msg)
	}
	m.assertsSMT++
	n := m.ctx.Not(c)
	r := m.sol.Check(m.slice(n), func(i int) *Term { return m.vars[i].t })
	if r.sat == 1 {
		m.setModel(r.model)
		m.violate("assert", msg)
	}
	if r.sat < 0 {
		m.eng.noteUnknown()
	}
	m.addPC(c)
}

func (m *Machine) violate(kind, msg string) {
	panic(pathAbort{abViolation, kind + "\x00" + msg})
}

// ---- threads ----

func (m *Machine) pushCall(th *Thread, cf *cfunc, args []Value, env []Value, dst int) *frame {
	fr := &frame{cf: cf, caller: th.top, dst: dst}
	if n := len(cf.pool); n > 0 {
		fr.regs = cf.pool[n-1]
		cf.pool = cf.pool[:n-1]
	} else {
		fr.regs = make([]Value, cf.nregs)
	}
	if cf.blocks == nil {
		panic(pathAbort{abEngine, "call to function without body: " + cf.name})
	}
	for i, p := range cf.params {
		fr.regs[p] = args[i]
	}
	for i, p := range cf.fvs {
		fr.regs[p] = env[i]
	}
	fr.blk = &cf.blocks[0]
	th.top = fr
	return fr
}

func (m *Machine) freeRegs(fr *frame) {
	if len(fr.cf.pool) < 8 {
		r := fr.regs
		for i := range r {
			r[i] = Value{}
		}
		fr.cf.pool = append(fr.cf.pool, r)
	}
	fr.regs = nil
}

// runAll schedules threads deterministically until main (threads[0]) is done.
func (m *Machine) runAll() {
	cur := 0
	for {
		main := m.threads[0]
		if main.done {
			return
		}
		// run current thread until it blocks
		th := m.threads[cur]
		if !th.done && !th.blocked {
			m.cur = th
			m.runThread(th)
			if main.done {
				return
			}
		}
		// choose the next thread that can progress: unblock everybody and poll round robin
		progressed := false
		if t := m.runNext; t != nil {
			cur = t.id
			m.runNext = nil
			continue
		}
		for i := 1; i <= len(m.threads); i++ {
			t := m.threads[(cur+i)%len(m.threads)]
			if t.done || t.wantQuiet {
				continue
			}
			t.blocked = false
			m.cur = t
			before := m.steps
			m.runThread(t)
			if main.done {
				return
			}
			if !t.blocked || m.steps-before > 1 {
				progressed = true
				cur = t.id
				break
			}
		}
		if !progressed {
			for _, t := range m.threads {
				if !t.done && t.wantQuiet {
					t.wantQuiet, t.quiet, t.blocked = false, true, false
					cur = t.id
					progressed = true
					break
				}
			}
			if progressed {
				continue
			}
			why := ""
			for _, t := range m.threads {
				if !t.done {
					why += fmt.Sprintf("[thread %d blocked: %s]", t.id, t.why)
				}
			}
			m.violate("deadlock", "all goroutines blocked "+why)
		}
	}
}

func (m *Machine) domTerm(v Value, w uint8) *Term {
	if t, ok := v.P.(*Term); ok {
		return t
	}
	return m.ctx.Const(w, v.N)
}

func (m *Machine) fromTerm(t *Term) Value {
	if t.op == OpConst {
		return Value{N: t.k}
	}
	return Value{P: t}
}

// concInt yields a concrete value of an int Value, forking if needed.
func (m *Machine) concInt(v Value) uint64 {
	if t, ok := v.P.(*Term); ok {
		if t.nvars >= 1 {
			// fixed already?
			fixed := true
			for i, w := range t.vars {
				for w != 0 {
					b := trailing(w)
					w &= w - 1
					d := m.dom[i*64+b]
					if d == nil || d.cnt != 1 {
						fixed = false
					}
				}
			}
			if fixed {
				return m.evalModel(t)
			}
		}
		return m.concretize(t)
	}
	return v.N
}

func sortedKeys(mp map[string]bool) []string {
	var r []string
	for k := range mp {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// qlog, when set, is called before every branch query (profiling).
var qlog func(m *Machine, c *Term)

var prof func(m *Machine, fr *frame)
