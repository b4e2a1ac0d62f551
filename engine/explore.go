package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Harness struct {
	name  string
	fn    *ssa.Function
	queue []workItem
	busy  int

	paths, infeasible, boundCut, stopped, engineErr int64
	asserts, smtAsserts, branches, steps, maxPath   int64
	unknown                                         int64
	reached                                         map[string]bool
	errs                                            map[string]int
	samples                                         []Sample
	nSampled                                        int64
	done                                            bool
	wall                                            time.Duration
	boundItems                                      []Violation // step-bound paths for native confirmation
	unconfirmed                                     []Violation
	lastDone                                        time.Time
}

type Sample struct {
	Harness string   `json:"harness"`
	Vals    []VarVal `json:"vals"`
	Obs     []string `json:"obs"`
	Fail    string   `json:"-"`
}

type Engine struct {
	prog         *ssa.Program
	mainPkg      *ssa.Package
	tier         int
	seed         int64
	maxDecisions int
	maxConc      int
	maxSteps     int64
	solverBin    string
	nworkers     int
	deadline     time.Time

	errType, wrapErrType types.Type
	errorIface           types.Type

	mu          sync.Mutex
	cond        *sync.Cond
	hs          []*Harness
	rr          int
	stop        bool
	violations  []Violation
	onViolation func(v Violation) bool // returns true to stop everything
	implMu      sync.Mutex
	implCache   map[[2]types.Type]bool
	unknowns    int64
	bounds      map[string]int
	encoded     map[string]bool
	st          SolverStats
	verbose     bool
	rng         *rand.Rand
	maxSamples  int
	timedOut    bool
}

func (e *Engine) noteUnknown() { atomic.AddInt64(&e.unknowns, 1) }
func (e *Engine) noteBound(s string) {
	e.mu.Lock()
	e.bounds[s]++
	e.mu.Unlock()
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	e.implMu.Lock()
	defer e.implMu.Unlock()
	k := [2]types.Type{t, it}
	if r, ok := e.implCache[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	e.implCache[k] = r
	return r
}

func (e *Engine) methodSet(t types.Type) *types.MethodSet {
	e.implMu.Lock()
	defer e.implMu.Unlock()
	return e.prog.MethodSets.MethodSet(t)
}

func (e *Engine) methodValue(sel *types.Selection) *ssa.Function {
	e.implMu.Lock()
	defer e.implMu.Unlock()
	return e.prog.MethodValue(sel)
}

func (e *Engine) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	e.implMu.Lock()
	defer e.implMu.Unlock()
	sel := e.prog.MethodSets.MethodSet(t).Lookup(meth.Pkg(), meth.Name())
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

func (e *Engine) load(repo string, overlay map[string][]byte) error {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: os.Environ(), Overlay: overlay}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, x := range p.Errors {
			errs = append(errs, x.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	e.mainPkg = pkgs[0]
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == "errors" {
			if t := p.Type("errorString"); t != nil {
				e.errType = types.NewPointer(t.Type())
			}
		}
		if p.Pkg.Path() == "fmt" {
			if t := p.Type("wrapError"); t != nil {
				e.wrapErrType = types.NewPointer(t.Type())
			}
		}
	}
	e.errorIface = types.Universe.Lookup("error").Type()
	if e.errType == nil {
		return fmt.Errorf("errors.errorString not found")
	}
	return nil
}

func (e *Engine) harnesses(prefixes []string) []string {
	var r []string
	for n, mem := range e.mainPkg.Members {
		if f, ok := mem.(*ssa.Function); ok && f.Blocks != nil {
			for _, p := range prefixes {
				if strings.HasPrefix(n, p) {
					r = append(r, n)
				}
			}
		}
	}
	sort.Strings(r)
	return r
}

func (e *Engine) newMachine() *Machine {
	ctx := newCtx()
	m := &Machine{prog: e.prog, eng: e, ctx: ctx, funcs: map[*ssa.Function]*cfunc{}, encoded: map[string]bool{},
		gidx: map[*ssa.Global]int{}, depInit: map[*ssa.Package]bool{}, domTerms: map[domKey]*Term{}, satSets: map[*Term]*[4]uint64{}, mcache: map[mkey]*ssa.Function{}}
	m.sol = newSolver(ctx, e.solverBin, 20000)
	return m
}

func (m *Machine) resetCtx() {
	st := m.sol.st
	m.sol.close()
	m.ctx = newCtx()
	m.satSets = map[*Term]*[4]uint64{}
	m.domTerms = map[domKey]*Term{}
	m.sol = newSolver(m.ctx, m.eng.solverBin, 20000)
	m.sol.st = st
}

type pathResult struct {
	kind abortKind
	msg  string
	ok   bool
}

func (m *Machine) runPath(h *Harness, it workItem) (res pathResult) {
	// reset per-path state
	m.prefix = it.prefix
	m.dec = m.dec[:0]
	m.pc = m.pc[:0]
	m.pcVars = varSet{}
	m.multi = varSet{}
	m.model = append(m.model[:0], it.model...)
	m.vars = m.vars[:0]
	m.dom = m.dom[:0]
	m.steps = 0
	m.maxSteps = m.eng.maxSteps
	m.locks = map[*Value]*lockSt{}
	m.side = map[*Value]any{}
	m.obs = m.obs[:0]
	m.reached = map[string]bool{}
	m.out = nil
	m.asserts, m.assertsSMT, m.transitions = 0, 0, 0
	m.ev = nil
	m.trace = nil
	m.atUnlock, m.runNext = nil, nil
	m.noMerge = false
	m.specW = nil
	m.digits = map[*Term][]Value{}
	m.ptyCalls = 0
	m.ptySize = Value{}
	m.harness = h.name
	for i, g := range m.glPkg {
		if g.Pkg == m.eng.mainPkg {
			m.gl[i] = nil
		}
	}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathAbort:
				res = pathResult{kind: x.kind, msg: x.msg}
			case engErr:
				res = pathResult{kind: abEngine, msg: "engine: " + string(x)}
				if m.eng.verbose {
					fmt.Fprintf(os.Stderr, "engine error: %s\n%s\n", string(x), m.stack())
				}
			default:
				res = pathResult{kind: abEngine, msg: fmt.Sprintf("engine panic: %v", r)}
				if m.eng.verbose {
					fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n%s\n", r, m.stack(), debug.Stack())
				}
			}
		}
	}()
	th := &Thread{id: 0}
	m.threads = []*Thread{th}
	m.cur = th
	if init := m.eng.mainPkg.Func("init"); init != nil {
		m.pushCall(th, m.cfuncOf(init), nil, nil, -1)
		m.runThread(th)
		if !th.done {
			panic(engErr("package init blocked"))
		}
		th.done = false
	}
	m.pushCall(th, m.cfuncOf(h.fn), nil, nil, -1)
	m.runAll()
	return pathResult{ok: true}
}

func (m *Machine) stack() string {
	var b strings.Builder
	if m.cur == nil {
		return ""
	}
	for f := m.cur.top; f != nil; f = f.caller {
		pos := ""
		if f.pc < len(f.blk.insts) {
			in := f.blk.insts[f.pc].in
			pos = m.prog.Fset.Position(in.Pos()).String() + "  " + in.String()
		}
		fmt.Fprintf(&b, "  %s  %s\n", f.cf.name, pos)
	}
	return b.String()
}

func (m *Machine) values() []VarVal {
	var r []VarVal
	for i, v := range m.vars {
		if strings.HasPrefix(v.name, "~") {
			continue
		}
		x := int64(m.model[i])
		if v.t.w < 64 && v.off == 0 {
			x = int64(m.model[i])
		}
		x += v.off
		r = append(r, VarVal{Name: v.name, W: int(v.t.w), Val: uint64(x)})
	}
	return r
}

func (m *Machine) evalVal(v Value) uint64 {
	if t, ok := v.P.(*Term); ok {
		return m.evalModel(t)
	}
	return v.N
}

func (m *Machine) obsStrings() []string {
	var r []string
	for _, o := range m.obs {
		if o.isInt {
			r = append(r, fmt.Sprintf("%s=%d", o.label, int64(m.evalVal(o.v))))
		} else {
			b := strBytes(o.v)
			bs := make([]byte, len(b))
			for i := range b {
				bs[i] = byte(m.evalVal(b[i]))
			}
			r = append(r, fmt.Sprintf("%s=%q", o.label, bs))
		}
	}
	return r
}

func (e *Engine) take(w int) (*Harness, workItem, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return nil, workItem{}, false
		}
		if time.Now().After(e.deadline) {
			e.stop = true
			e.timedOut = true
			e.cond.Broadcast()
			return nil, workItem{}, false
		}
		busy := false
		// least-served harness first
		var best *Harness
		for _, h := range e.hs {
			if h.busy > 0 {
				busy = true
			}
			if len(h.queue) > 0 && (best == nil || h.wall+time.Duration(h.busy)*5*time.Millisecond < best.wall+time.Duration(best.busy)*5*time.Millisecond) {
				best = h
			}
		}
		if best != nil {
			n := len(best.queue)
			i := n - 1
			if e.rng.Intn(4) == 0 {
				i = e.rng.Intn(n)
			}
			it := best.queue[i]
			best.queue[i] = best.queue[n-1]
			best.queue = best.queue[:n-1]
			best.busy++
			return best, it, true
		}
		if !busy {
			e.stop = true
			e.cond.Broadcast()
			return nil, workItem{}, false
		}
		e.cond.Wait()
	}
}

func (e *Engine) worker(w int) {
	m := e.newMachine()
	defer m.sol.close()
	for {
		h, it, ok := e.take(w)
		if !ok {
			break
		}
		t0 := time.Now()
		res := m.runPath(h, it)
		dt := time.Since(t0)
		var sample *Sample
		if res.ok || (res.kind == abStop) {
			n := atomic.AddInt64(&h.nSampled, 1)
			take := false
			e.mu.Lock()
			if len(h.samples) < e.maxSamples {
				take = true
			} else if e.rng.Int63n(n) < int64(e.maxSamples) {
				take = true
			}
			e.mu.Unlock()
			if take {
				sample = &Sample{Harness: h.name, Vals: m.values(), Obs: m.obsStrings()}
			}
		}
		var viol *Violation
		if !res.ok && (res.kind == abViolation || res.kind == abBound) {
			kind, msg := "bound", res.msg
			if res.kind == abViolation {
				kind, msg, _ = strings.Cut(res.msg, "\x00")
			}
			viol = &Violation{Harness: h.name, Msg: msg, Kind: kind, Model: m.values(), Obs: m.obsStrings(), Choices: append([]int64(nil), m.dec...), Stack: m.stack()}
		}
		if e.verbose && !res.ok && res.kind == abEngine {
			e.mu.Lock()
			first := h.errs[res.msg] == 0
			e.mu.Unlock()
			if first {
				fmt.Fprintf(os.Stderr, "[%s] %s\n%s", h.name, res.msg, m.stack())
			}
		}
		e.mu.Lock()
		h.busy--
		h.wall += dt
		h.steps += m.steps
		if m.steps > h.maxPath {
			h.maxPath = m.steps
		}
		h.asserts += m.asserts
		h.smtAsserts += m.assertsSMT
		h.branches += m.transitions
		for k := range m.reached {
			h.reached[k] = true
		}
		h.queue = append(h.queue, m.out...)
		switch {
		case res.ok:
			h.paths++
		case res.kind == abInfeasible:
			h.infeasible++
		case res.kind == abStop:
			h.stopped++
		case res.kind == abBound:
			h.boundCut++
			h.errs[res.msg]++
			if len(h.boundItems) < 8 {
				h.boundItems = append(h.boundItems, *viol)
			}
		case res.kind == abUnknown:
			h.unknown++
		case res.kind == abEngine:
			h.engineErr++
			h.errs[res.msg]++
		}
		if sample != nil {
			if len(h.samples) < e.maxSamples {
				h.samples = append(h.samples, *sample)
			} else {
				h.samples[e.rng.Intn(len(h.samples))] = *sample
			}
		}
		if len(h.queue) == 0 && h.busy == 0 {
			h.lastDone = time.Now()
		}
		e.cond.Broadcast()
		e.mu.Unlock()
		if viol != nil && viol.Kind != "bound" {
			if e.onViolation(*viol) {
				e.mu.Lock()
				e.stop = true
				e.cond.Broadcast()
				e.mu.Unlock()
			}
		}
		if m.ctx.size() > 1500000 {
			m.resetCtx()
		}
	}
	e.mu.Lock()
	for k := range m.encoded {
		e.encoded[k] = true
	}
	e.st.Queries += m.sol.st.Queries
	e.st.Sat += m.sol.st.Sat
	e.st.Unsat += m.sol.st.Unsat
	e.st.Unknown += m.sol.st.Unknown
	e.st.CacheHits += m.sol.st.CacheHits
	e.st.Certified += m.sol.st.Certified
	e.st.Time += m.sol.st.Time
	e.mu.Unlock()
}

func (e *Engine) run() {
	var wg sync.WaitGroup
	for i := 0; i < e.nworkers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			e.worker(i)
		}(i)
	}
	// periodic wakeup for the deadline
	tick := time.NewTicker(200 * time.Millisecond)
	stopTick := make(chan struct{})
	go func() {
		for {
			select {
			case <-tick.C:
				e.cond.Broadcast()
			case <-stopTick:
				return
			}
		}
	}()
	wg.Wait()
	close(stopTick)
	tick.Stop()
}
