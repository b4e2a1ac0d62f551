package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type engErr string

type SolverStats struct {
	Queries, Sat, Unsat, Unknown, CacheHits, Certified int64
	Time                                               time.Duration
}

// Solver drives one persistent z3 process. Terms are defined once, globally,
// as macros; each query is push / assert... / check-sat / pop.
type Solver struct {
	ctx     *Ctx
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	defined map[*Term]bool
	tdef    map[uint64]bool
	ndef    int
	cache   map[string]*qres
	st      SolverStats
	timeout int // ms
}

type qres struct {
	sat   int // 1 sat, 0 unsat, -1 unknown
	model map[int]uint64
}

func newSolver(ctx *Ctx, bin string, timeoutMs int) *Solver {
	s := &Solver{ctx: ctx, bin: bin, timeout: timeoutMs, cache: map[string]*qres{}}
	return s
}

func (s *Solver) start() error {
	s.close()
	s.cmd = exec.Command(s.bin, "-in")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[*Term]bool{}
	s.tdef = map[uint64]bool{}
	s.ndef = 0
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeout)
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func varName(t *Term) string { return fmt.Sprintf("v%d_%d_%x_%x", t.k, t.w, t.lo, t.hi) }

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OpConst:
		return bvlit(t.w, t.k)
	case OpVar:
		return varName(t)
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) define(t *Term) {
	if t.op == OpConst || s.defined[t] {
		return
	}
	if t.op == OpVar {
		fmt.Fprintf(s.in, "(declare-const %s %s)\n", varName(t), sortName(t.w))
		s.defined[t] = true
		s.ndef++
		return
	}
	// iterative post-order for deep DAGs
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			s.define(x)
		}
	}
	w := s.in
	if t.op == OpTable {
		s.defineTable(t.k)
	}
	fmt.Fprintf(w, "(define-fun t%d () %s ", t.id, sortName(t.w))
	switch t.op {
	case OpNot:
		if t.w == 0 {
			fmt.Fprintf(w, "(not %s)", s.ref(t.a))
		} else {
			fmt.Fprintf(w, "(bvnot %s)", s.ref(t.a))
		}
	case OpExtract:
		fmt.Fprintf(w, "((_ extract %d %d) %s)", int(t.k)+int(t.w)-1, t.k, s.ref(t.a))
	case OpZext:
		fmt.Fprintf(w, "((_ zero_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OpSext:
		fmt.Fprintf(w, "((_ sign_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OpIte:
		fmt.Fprintf(w, "(ite %s %s %s)", s.ref(t.a), s.ref(t.b), s.ref(t.c))
	case OpNeg:
		fmt.Fprintf(w, "(bvneg %s)", s.ref(t.a))
	case OpTable:
		tb := s.ctx.tables[t.k]
		fmt.Fprintf(w, "(tab%d %s)", tb.id, s.ref(t.a))
	default:
		fmt.Fprintf(w, "(%s %s %s)", opNames[t.op], s.ref(t.a), s.ref(t.b))
	}
	fmt.Fprintf(w, ")\n")
	s.defined[t] = true
	s.ndef++
}

func (s *Solver) defineTable(i uint64) {
	tb := s.ctx.tables[i]
	if !s.tdef[i] {
		s.tdef[i] = true
		var b strings.Builder
		var rec func(lo, hi int)
		rec = func(lo, hi int) {
			if lo == hi {
				b.WriteString(bvlit(tb.outW, tb.val[lo]))
				return
			}
			m := (lo + hi + 1) / 2
			fmt.Fprintf(&b, "(ite (bvult x %s) ", bvlit(tb.inW, tb.start[m]))
			rec(lo, m-1)
			b.WriteByte(' ')
			rec(m, hi)
			b.WriteByte(')')
		}
		rec(0, len(tb.start)-1)
		fmt.Fprintf(s.in, "(define-fun tab%d ((x %s)) %s %s)\n", tb.id, sortName(tb.inW), sortName(tb.outW), b.String())
	}
}

// Check decides the conjunction of cs. vars lists the variable terms that occur.
func (s *Solver) Check(cs []*Term, varTerms func(i int) *Term) *qres {
	ids := make([]int, 0, len(cs))
	var vs varSet
	for _, c := range cs {
		if c.op == OpConst {
			if c.k == 0 {
				return &qres{sat: 0}
			}
			continue
		}
		ids = append(ids, int(c.id))
		vs.union(&c.vars)
	}
	if len(ids) == 0 {
		return &qres{sat: 1, model: map[int]uint64{}}
	}
	sort.Ints(ids)
	var kb []byte
	for i, x := range ids {
		if i > 0 && ids[i-1] == x {
			continue
		}
		kb = append(kb, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
	}
	key := string(kb)
	if r, ok := s.cache[key]; ok {
		s.st.CacheHits++
		return r
	}
	t0 := time.Now()
	var r *qres
	for attempt := 0; attempt < 2; attempt++ {
		var err error
		r, err = s.query(cs, vs, varTerms)
		if err == nil {
			break
		}
		r = &qres{sat: -1}
		s.close() // restart
	}
	s.st.Time += time.Since(t0)
	s.st.Queries++
	switch r.sat {
	case 1:
		s.st.Sat++
	case 0:
		s.st.Unsat++
	default:
		s.st.Unknown++
	}
	s.cache[key] = r
	return r
}

func (s *Solver) query(cs []*Term, vs varSet, varTerms func(i int) *Term) (*qres, error) {
	if s.cmd == nil || s.ndef > 60000 {
		if err := s.start(); err != nil {
			return nil, err
		}
	}
	for _, c := range cs {
		s.define(c)
	}
	w := s.in
	var vl []*Term
	for i, word := range vs {
		for word != 0 {
			b := trailing(word)
			word &= word - 1
			vl = append(vl, varTerms(i*64+b))
		}
	}
	for _, v := range vl {
		s.define(v)
	}
	w.WriteString("(push)\n")
	for _, v := range vl {
		if v.lo > 0 {
			fmt.Fprintf(w, "(assert (bvule %s %s))\n", bvlit(v.w, v.lo), varName(v))
		}
		if v.hi < mask(v.w) {
			fmt.Fprintf(w, "(assert (bvule %s %s))\n", varName(v), bvlit(v.w, v.hi))
		}
	}
	for _, c := range cs {
		fmt.Fprintf(w, "(assert %s)\n", s.ref(c))
	}
	w.WriteString("(check-sat)\n")
	if err := w.Flush(); err != nil {
		return nil, err
	}
	line, err := s.readLine()
	if err != nil {
		return nil, err
	}
	r := &qres{sat: -1}
	switch line {
	case "sat":
		r.sat = 1
		r.model = map[int]uint64{}
		if len(vl) > 0 {
			w.WriteString("(get-value (")
			for _, v := range vl {
				w.WriteString(varName(v))
				w.WriteByte(' ')
			}
			w.WriteString("))\n")
			if err := w.Flush(); err != nil {
				return nil, err
			}
			txt, err := s.readSexp()
			if err != nil {
				return nil, err
			}
			if strings.Contains(txt, "(error") {
				return nil, fmt.Errorf("z3: %s", txt)
			}
			f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
			for i := 0; i+1 < len(f); i += 2 {
				name, val := f[i], f[i+1]
				us := strings.IndexByte(name, '_')
				idx, err := strconv.Atoi(name[1:us])
				if err != nil {
					return nil, err
				}
				var u uint64
				switch {
				case strings.HasPrefix(val, "#x"):
					u, err = strconv.ParseUint(val[2:], 16, 64)
				case strings.HasPrefix(val, "#b"):
					u, err = strconv.ParseUint(val[2:], 2, 64)
				case val == "true":
					u = 1
				case val == "false":
					u = 0
				default:
					err = fmt.Errorf("bad value %q", val)
				}
				if err != nil {
					return nil, err
				}
				r.model[idx] = u
			}
		}
	case "unsat":
		r.sat = 0
	case "unknown", "timeout":
	default:
		return nil, fmt.Errorf("z3: %q", line)
	}
	w.WriteString("(pop)\n")
	return r, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	depth := 0
	started := false
	for {
		ch, err := s.out.ReadByte()
		if err != nil {
			if err == io.EOF {
				return "", err
			}
			return "", err
		}
		b.WriteByte(ch)
		if ch == '(' {
			depth++
			started = true
		} else if ch == ')' {
			depth--
		}
		if started && depth == 0 {
			return b.String(), nil
		}
	}
}
