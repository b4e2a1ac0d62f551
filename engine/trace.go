package main

import (
	"bufio"
	"fmt"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// Trace records the synchronisation and memory events of one execution of a
// concurrent harness.  Whether another interleaving of the same events has a data
// race or a deadlock is put to the solver: every event gets an integer position,
// constrained by program order, goroutine creation, mutual exclusion and the
// observed order of channel and atomic operations.
type Trace struct {
	th   map[*Thread]*trThread
	list []*trThread
	n    int
	syn  map[any][]trRef // channel and atomic operations per object, as observed
}

type trRef struct{ t, e int }

type trThread struct {
	id   int
	th   *Thread
	from trRef // the event that created it
	evs  []trEvent
}

type trEvent struct {
	kind byte // 'b' begin, 'a' acquire, 'r' release, 's' spawn, 'y' channel or atomic
	obj  any
	rd   bool // shared acquisition
	pair int  // matching release / acquire, -1 if none
	acc  map[any]*trAcc
	fn   string
}

type trAcc struct {
	r, w *inst
	rf   string
	wf   string
}

func (m *Machine) traceStart() {
	m.trace = &Trace{th: map[*Thread]*trThread{}, syn: map[any][]trRef{}}
	m.trace.thread(m.cur)
}

func (tr *Trace) thread(th *Thread) *trThread {
	t := tr.th[th]
	if t == nil {
		t = &trThread{id: len(tr.list), th: th, from: trRef{-1, -1}}
		t.evs = []trEvent{{kind: 'b', pair: -1}}
		tr.th[th] = t
		tr.list = append(tr.list, t)
	}
	return t
}

func (tr *Trace) event(m *Machine, th *Thread, e trEvent) *trThread {
	t := tr.thread(th)
	e.pair = -1
	if th.top != nil {
		e.fn = trWhere(th.top)
	}
	t.evs = append(t.evs, e)
	return t
}

// trWhere is the innermost function of the package that is not part of the harness.
func trWhere(fr *frame) string {
	for f := fr; f != nil; f = f.caller {
		if n := f.cf.name; strings.Contains(n, pkgPath) {
			n = strings.ReplaceAll(n, pkgPath+".", "")
			if !strings.HasPrefix(n, "v") && !strings.Contains(n, "*v") {
				return n
			}
		}
	}
	if fr == nil {
		return "?"
	}
	return fr.cf.name
}

func (tr *Trace) rec(m *Machine, th *Thread, key any, write bool, ci *inst) {
	t := tr.thread(th)
	e := &t.evs[len(t.evs)-1]
	if e.acc == nil {
		e.acc = map[any]*trAcc{}
	}
	a := e.acc[key]
	if a == nil {
		a = &trAcc{}
		e.acc[key] = a
	}
	if write {
		if a.w == nil {
			a.w, a.wf = ci, trWhere(th.top)
		}
	} else if a.r == nil {
		a.r, a.rf = ci, trWhere(th.top)
	}
}

func (tr *Trace) access(m *Machine, th *Thread, p *Value, write bool, ci *inst) {
	tr.rec(m, th, p, write, ci)
	if ag, ok := p.P.(*Agg); ok {
		for i := range ag.f {
			tr.access(m, th, &ag.f[i], write, ci)
		}
	}
}

func (tr *Trace) obj(m *Machine, th *Thread, o any, write bool, ci *inst) {
	tr.rec(m, th, o, write, ci)
}

func (tr *Trace) spawn(m *Machine, th, nt *Thread) {
	t := tr.event(m, th, trEvent{kind: 's'})
	n := tr.thread(nt)
	n.from = trRef{t.id, len(t.evs) - 1}
}

func (tr *Trace) lock(m *Machine, th *Thread, p *Value, acq, shared bool) {
	k := byte('r')
	if acq {
		k = 'a'
	}
	t := tr.event(m, th, trEvent{kind: k, obj: p, rd: shared})
	if !acq {
		for i := len(t.evs) - 2; i >= 0; i-- {
			if e := &t.evs[i]; e.kind == 'a' && e.obj == any(p) && e.pair < 0 {
				e.pair = len(t.evs) - 1
				t.evs[len(t.evs)-1].pair = i
				break
			}
		}
	}
}

func (tr *Trace) lockReq(m *Machine, th *Thread, p *Value) {}

func (tr *Trace) sync(m *Machine, th *Thread, obj any) {
	t := tr.event(m, th, trEvent{kind: 'y', obj: obj})
	tr.syn[obj] = append(tr.syn[obj], trRef{t.id, len(t.evs) - 1})
}

func (tr *Trace) mark(m *Machine, th *Thread, name string) {}

type trCand struct {
	a, b trRef // segments: after event a.e of thread a.t
	what string
}

// candidates lists the pairs of segments with conflicting accesses.
func (tr *Trace) candidates() []trCand {
	type site struct {
		ref trRef
		a   *trAcc
	}
	byLoc := map[any][]site{}
	for _, t := range tr.list {
		for i := range t.evs {
			for k, a := range t.evs[i].acc {
				byLoc[k] = append(byLoc[k], site{trRef{t.id, i}, a})
			}
		}
	}
	best := map[[4]int]string{}
	for _, ss := range byLoc {
		for i, x := range ss {
			for _, y := range ss[i+1:] {
				if x.ref.t == y.ref.t {
					continue
				}
				if x.ref.t > y.ref.t {
					x, y = y, x
				}
				var w string
				switch {
				case x.a.w != nil && y.a.w != nil:
					w = "write in " + x.a.wf + " and write in " + y.a.wf
				case x.a.w != nil && y.a.r != nil:
					w = "write in " + x.a.wf + " and read in " + y.a.rf
				case x.a.r != nil && y.a.w != nil:
					w = "read in " + x.a.rf + " and write in " + y.a.wf
				default:
					continue
				}
				k := [4]int{x.ref.t, x.ref.e, y.ref.t, y.ref.e}
				if o, ok := best[k]; !ok || w < o {
					best[k] = w
				}
			}
		}
	}
	var r []trCand
	for k, w := range best {
		r = append(r, trCand{trRef{k[0], k[1]}, trRef{k[2], k[3]}, w})
	}
	sort.Slice(r, func(i, j int) bool {
		a, b := r[i], r[j]
		if a.a != b.a {
			return a.a.t < b.a.t || a.a.t == b.a.t && a.a.e < b.a.e
		}
		return a.b.t < b.b.t || a.b.t == b.b.t && a.b.e < b.b.e
	})
	return r
}

func (r trRef) v() string { return fmt.Sprintf("o%d_%d", r.t, r.e) }

// order writes the constraints on the positions of events.  With cuts, only the
// events before c<thread> take place.
func (tr *Trace) order(w *strings.Builder, cuts bool) {
	done := func(r trRef) string { return fmt.Sprintf("(< %d c%d)", r.e, r.t) }
	imp := func(conc string, rs ...trRef) {
		if !cuts {
			fmt.Fprintf(w, "(assert %s)\n", conc)
			return
		}
		fmt.Fprintf(w, "(assert (=> (and")
		for _, r := range rs {
			fmt.Fprintf(w, " %s", done(r))
		}
		fmt.Fprintf(w, ") %s))\n", conc)
	}
	for _, t := range tr.list {
		for i := range t.evs {
			fmt.Fprintf(w, "(declare-const %s Int)\n", trRef{t.id, i}.v())
			if i > 0 {
				fmt.Fprintf(w, "(assert (< %s %s))\n", trRef{t.id, i - 1}.v(), trRef{t.id, i}.v())
			}
		}
	}
	for _, t := range tr.list {
		if t.from.t >= 0 {
			b := trRef{t.id, 0}
			if cuts {
				fmt.Fprintf(w, "(assert (=> (< 0 c%d) (and %s (< %s %s))))\n", t.id, done(t.from), t.from.v(), b.v())
			} else {
				fmt.Fprintf(w, "(assert (< %s %s))\n", t.from.v(), b.v())
			}
		}
	}
	for _, l := range tr.syn {
		for i := 1; i < len(l); i++ {
			if cuts {
				fmt.Fprintf(w, "(assert (=> %s (and %s (< %s %s))))\n", done(l[i]), done(l[i-1]), l[i-1].v(), l[i].v())
			} else {
				fmt.Fprintf(w, "(assert (< %s %s))\n", l[i-1].v(), l[i].v())
			}
		}
	}
	type sec struct {
		a, r trRef
		rd   bool
	}
	secs := map[any][]sec{}
	var objs []any
	for _, t := range tr.list {
		for i, e := range t.evs {
			if e.kind != 'a' {
				continue
			}
			if secs[e.obj] == nil {
				objs = append(objs, e.obj)
			}
			secs[e.obj] = append(secs[e.obj], sec{trRef{t.id, i}, trRef{t.id, e.pair}, e.rd})
		}
	}
	for _, o := range objs {
		l := secs[o]
		for i, x := range l {
			for _, y := range l[i+1:] {
				if x.a.t == y.a.t || x.rd && y.rd {
					continue
				}
				var alt []string
				for _, p := range [2][2]sec{{x, y}, {y, x}} {
					if p[0].r.e >= 0 {
						s := fmt.Sprintf("(< %s %s)", p[0].r.v(), p[1].a.v())
						if cuts {
							s = fmt.Sprintf("(and %s %s)", done(p[0].r), s)
						}
						alt = append(alt, s)
					}
				}
				c := "false"
				if len(alt) == 1 {
					c = alt[0]
				} else if len(alt) == 2 {
					c = "(or " + alt[0] + " " + alt[1] + ")"
				}
				imp(c, x.a, y.a)
			}
		}
	}
}

func (tr *Trace) raceQuery(cs []trCand) string {
	var w strings.Builder
	tr.order(&w, false)
	w.WriteString("(declare-const x Int)\n")
	for i, c := range cs {
		fmt.Fprintf(&w, "(declare-const r%d Bool)\n(assert (=> r%d (and", i, i)
		for _, s := range []trRef{c.a, c.b} {
			fmt.Fprintf(&w, " (< %s x)", s.v())
			if n := (trRef{s.t, s.e + 1}); n.e < len(tr.list[s.t].evs) {
				fmt.Fprintf(&w, " (< x %s)", n.v())
			}
		}
		w.WriteString(")))\n")
	}
	w.WriteString("(assert (or false")
	for i := range cs {
		fmt.Fprintf(&w, " r%d", i)
	}
	w.WriteString("))\n")
	return w.String()
}

// deadQuery asks for an execution of a prefix of every goroutine after which some
// wait for locks that others of them hold.  It is "" if nobody asks for a lock while
// holding one.
func (tr *Trace) deadQuery() string {
	type want struct {
		ref  trRef
		held []int // acquisitions not released before
	}
	var ws []want
	th := map[int]bool{}
	for _, t := range tr.list {
		var held []int
		for i, e := range t.evs {
			switch e.kind {
			case 'a':
				if len(held) > 0 {
					ws = append(ws, want{trRef{t.id, i}, append([]int(nil), held...)})
					th[t.id] = true
				}
				held = append(held, i)
			case 'r':
				for j, h := range held {
					if h == e.pair {
						held = append(held[:j:j], held[j+1:]...)
						break
					}
				}
			}
		}
	}
	if len(th) < 2 {
		return ""
	}
	var w strings.Builder
	for _, t := range tr.list {
		fmt.Fprintf(&w, "(declare-const c%d Int)\n(declare-const d%d Bool)\n(assert (and (<= 0 c%d) (<= c%d %d)))\n", t.id, t.id, t.id, t.id, len(t.evs))
	}
	tr.order(&w, true)
	w.WriteString("(assert (or false")
	for _, t := range tr.list {
		fmt.Fprintf(&w, " d%d", t.id)
	}
	w.WriteString("))\n")
	for _, t := range tr.list {
		fmt.Fprintf(&w, "(assert (=> d%d (or false", t.id)
		for _, x := range ws {
			if x.ref.t != t.id {
				continue
			}
			e := t.evs[x.ref.e]
			fmt.Fprintf(&w, " (and (= c%d %d) (or false", t.id, x.ref.e)
			for _, y := range ws {
				if y.ref.t == t.id {
					continue
				}
				for _, h := range y.held {
					g := tr.list[y.ref.t].evs[h]
					if g.obj == e.obj && !(g.rd && e.rd) {
						fmt.Fprintf(&w, " (and d%d (= c%d %d))", y.ref.t, y.ref.t, y.ref.e)
						break
					}
				}
			}
			w.WriteString("))")
		}
		w.WriteString(")))\n")
	}
	return w.String()
}

// smt runs one query on a fresh assertion stack.
func (m *Machine) smt(q string, get []string) (string, map[string]bool) {
	if m.trSol == nil {
		c := exec.Command(m.eng.solverBin, "-in")
		in, err := c.StdinPipe()
		if err != nil {
			panic(engErr(err.Error()))
		}
		out, err := c.StdoutPipe()
		if err != nil {
			panic(engErr(err.Error()))
		}
		if err := c.Start(); err != nil {
			panic(engErr(err.Error()))
		}
		m.trSol = &trSolver{c, bufio.NewWriter(in), bufio.NewReader(out)}
		fmt.Fprint(m.trSol.in, "(set-option :timeout 20000)\n")
	}
	s := m.trSol
	t0 := time.Now()
	fmt.Fprintf(s.in, "(push)\n%s(check-sat)\n", q)
	s.in.Flush()
	line, err := s.out.ReadString('\n')
	if err != nil {
		panic(engErr("trace solver: " + err.Error()))
	}
	res := strings.TrimSpace(line)
	if strings.HasPrefix(res, "(error") {
		panic(engErr("trace solver: " + res))
	}
	m.sol.st.Queries++
	switch res {
	case "sat":
		m.sol.st.Sat++
	case "unsat":
		m.sol.st.Unsat++
	default:
		m.sol.st.Unknown++
	}
	got := map[string]bool{}
	if res == "sat" {
		for _, g := range get {
			fmt.Fprintf(s.in, "(eval %s)\n", g)
			s.in.Flush()
			l, _ := s.out.ReadString('\n')
			if strings.TrimSpace(l) == "true" {
				got[g] = true
			}
		}
	}
	fmt.Fprint(s.in, "(pop)\n")
	s.in.Flush()
	m.sol.st.Time += time.Since(t0)
	return res, got
}

type trSolver struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
}

func (m *Machine) traceStop() {
	tr := m.trace
	if tr == nil {
		return
	}
	m.trace = nil
	m.asserts++
	if cs := tr.candidates(); len(cs) > 0 {
		var get []string
		for i := range cs {
			get = append(get, fmt.Sprintf("r%d", i))
		}
		res, got := m.smt(tr.raceQuery(cs), get)
		m.assertsSMT++
		switch res {
		case "sat":
			for i, g := range get {
				if got[g] {
					m.violate("race", "data race: "+cs[i].what)
				}
			}
		case "unsat":
		default:
			panic(pathAbort{abBound, "race query undecided"})
		}
	}
	m.asserts++
	if q := tr.deadQuery(); q != "" {
		res, _ := m.smt(q, nil)
		m.assertsSMT++
		switch res {
		case "sat":
			m.violate("deadlock", "goroutines can wait for each other's locks: "+tr.nesting())
		case "unsat":
		default:
			panic(pathAbort{abBound, "deadlock query undecided"})
		}
	}
}

// nesting lists the functions that ask for a lock while holding another.
func (tr *Trace) nesting() string {
	set := map[string]bool{}
	for _, t := range tr.list {
		n := 0
		for _, e := range t.evs {
			switch e.kind {
			case 'a':
				if n > 0 {
					set[e.fn] = true
				}
				n++
			case 'r':
				n--
			}
		}
	}
	return strings.Join(sortedKeys(set), ", ")
}
