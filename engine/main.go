package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

type nativeBin struct {
	dir  string
	bin  string
	err  error
	out  string
	done chan struct{}

	stress int // seconds of repetition per case
}

func overlayFiles(repo string) (map[string]string, error) {
	m := map[string]string{}
	fs, err := filepath.Glob(filepath.Join(verifDir, "harness", "zz_verif_*.go"))
	if err != nil {
		return nil, err
	}
	for _, f := range fs {
		m[filepath.Join(repo, filepath.Base(f))] = f
	}
	return m, nil
}

// buildNative compiles the replay test binary of the real code plus the harnesses.
func buildNative(scratch string, names []string, ov map[string]string, race bool) *nativeBin {
	nb := &nativeBin{dir: scratch, done: make(chan struct{})}
	go func() {
		defer close(nb.done)
		tmpl, err := os.ReadFile(filepath.Join(verifDir, "harness", "replay_test.go.tmpl"))
		if err != nil {
			nb.err = err
			return
		}
		var b strings.Builder
		b.WriteString("package termemu\n\nvar vRegistry = map[string]func(){\n")
		for _, n := range names {
			fmt.Fprintf(&b, "\t%q: %s,\n", n, n)
		}
		b.WriteString("}\n")
		rt := filepath.Join(scratch, "zz_verif_replay_test.go")
		rg := filepath.Join(scratch, "zz_verif_registry_test.go")
		os.WriteFile(rt, tmpl, 0o644)
		os.WriteFile(rg, []byte(b.String()), 0o644)
		rep := map[string]string{}
		for k, v := range ov {
			rep[k] = v
		}
		rep[filepath.Join(repoDir, "zz_verif_replay_test.go")] = rt
		rep[filepath.Join(repoDir, "zz_verif_registry_test.go")] = rg
		js, _ := json.Marshal(map[string]any{"Replace": rep})
		ovf := filepath.Join(scratch, "overlay.json")
		os.WriteFile(ovf, js, 0o644)
		nb.bin = filepath.Join(scratch, "replay.test")
		if race {
			nb.bin = filepath.Join(scratch, "replay-race.test")
		}
		args := []string{"test", "-c", "-vet=off", "-overlay", ovf, "-o", nb.bin}
		if race {
			args = append(args, "-race")
		}
		args = append(args, ".")
		cmd := exec.Command("go", args...)
		cmd.Dir = repoDir
		out, err := cmd.CombinedOutput()
		nb.out = string(out)
		nb.err = err
	}()
	return nb
}

type natRes struct {
	I    int      `json:"i"`
	Fail string   `json:"fail"`
	Obs  []string `json:"obs"`
}

// runNative executes the cases in one process.  crash is set when the process itself died.
func (nb *nativeBin) runNative(tier int, cases []Sample, timeout time.Duration, tag string) (res []natRes, crash string, err error) {
	<-nb.done
	if nb.err != nil {
		return nil, "", fmt.Errorf("native build: %v\n%s", nb.err, nb.out)
	}
	type cs struct {
		Harness string   `json:"harness"`
		Vals    []VarVal `json:"vals"`
	}
	var in struct {
		Tier  int  `json:"tier"`
		Cases []cs `json:"cases"`
	}
	in.Tier = tier
	for _, c := range cases {
		in.Cases = append(in.Cases, cs{c.Harness, c.Vals})
	}
	js, _ := json.Marshal(in)
	cf := filepath.Join(nb.dir, "cases-"+tag+".json")
	of := filepath.Join(nb.dir, "out-"+tag+".json")
	os.WriteFile(cf, js, 0o644)
	os.Remove(of)
	cmd := exec.Command(nb.bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "0", "-test.v")
	cmd.Dir = nb.dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Env = append(os.Environ(), "VERIF_CASES="+cf, "VERIF_OUT="+of, "GOMEMLIMIT=2GiB", "GOTRACEBACK=single", "VERIF_STRESS="+strconv.Itoa(nb.stress), "GORACE=halt_on_error=1")
	var sb strings.Builder
	lw := &limWriter{b: &sb, n: 1 << 20}
	cmd.Stdout, cmd.Stderr = lw, lw
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	timed := false
	deadline := time.After(timeout)
	memTick := time.NewTicker(300 * time.Millisecond)
	defer memTick.Stop()
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-deadline:
			timed = true
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			werr = <-done
			break loop
		case <-memTick.C:
			if rssKB(cmd.Process.Pid) > 6<<20 {
				timed = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				werr = <-done
				break loop
			}
		}
	}
	if tag == "r" {
		os.Stderr.WriteString(sb.String())
	}
	b, _ := os.ReadFile(of)
	dec := json.NewDecoder(strings.NewReader(string(b)))
	for {
		var r natRes
		if dec.Decode(&r) != nil {
			break
		}
		res = append(res, r)
	}
	if timed {
		return res, "hang: native run exceeded time or memory", nil
	}
	hung := len(res) > 0 && strings.HasPrefix(res[len(res)-1].Fail, "hang:")
	if len(res) < len(cases) && !hung {
		crash = fmt.Sprintf("process died: %v\n%s", werr, tail(sb.String(), 4000))
	}
	return res, crash, nil
}

func rssKB(pid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * 4
}

type limWriter struct {
	b *strings.Builder
	n int
}

func (l *limWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type propCfg struct {
	Harness  []string // prefixes
	Quick    int      // seconds of exploration
	Thorough int
	Level    string
}

func knownFindings() []map[string]string {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var r []map[string]string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		m := map[string]string{}
		rest := strings.TrimPrefix(l, "known:")
		for _, part := range strings.Split(rest, "|") {
			k, v, ok := strings.Cut(strings.TrimSpace(part), "=")
			if ok {
				m[k] = v
			}
		}
		r = append(r, m)
	}
	return r
}

func newEngine(tier int, seed int64, workers int) *Engine {
	e := &Engine{tier: tier, seed: seed, maxDecisions: 6000, maxConc: 512, maxSteps: 24_000_000, solverBin: "z3", nworkers: workers,
		implCache: map[[2]types.Type]bool{}, bounds: map[string]int{}, encoded: map[string]bool{}, rng: rand.New(rand.NewSource(seed)), maxSamples: 24}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func loadOverlay(ov map[string]string) (map[string][]byte, error) {
	r := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		r[k] = b
	}
	return r, nil
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verif check|run|list|replay ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tierS := fs.String("tier", "quick", "quick|thorough")
	hpat := fs.String("h", "", "harness prefix list (comma separated)")
	secs := fs.Int("t", 0, "exploration seconds")
	verbose := fs.Bool("v", false, "verbose")
	workers := fs.Int("j", runtime.NumCPU(), "workers")
	keep := fs.Bool("keep", false, "continue after violations")
	noNative := fs.Bool("nonative", false, "skip native validation")
	solver := fs.String("solver", "z3", "solver binary")
	file := fs.String("f", "", "replay file")
	fs.StringVar(&repoDir, "repo", repoDir, "repository")
	fs.StringVar(&verifDir, "verif", verifDir, "verif dir")
	fs.Parse(os.Args[2:])
	t0 := time.Now()
	if os.Getenv("VERIF_QLOG") != "" {
		var mu sync.Mutex
		cnt := map[string]int{}
		qlog = func(m *Machine, c *Term) {
			k := fmt.Sprintf("vars %d op %v %s", c.nvars, c.op, firstLines(m.stack(), 3))
			mu.Lock()
			if cnt[k]++; cnt[k] == 1 || cnt[k] == 100 || cnt[k] == 1000 {
				fmt.Fprintln(os.Stderr, cnt[k], k)
			}
			mu.Unlock()
		}
	}
	if os.Getenv("VERIF_FORKS") != "" {
		var mu sync.Mutex
		cnt := map[string]int{}
		forkLog = func(m *Machine) {
			k := firstLines(m.stack(), 4)
			mu.Lock()
			cnt[k]++
			mu.Unlock()
		}
		defer func() {
			for _, k := range sortedKeysBy(cnt) {
				fmt.Fprintln(os.Stderr, cnt[k], k)
			}
		}()
	}
	if os.Getenv("VERIF_PROF") != "" {
		var mu sync.Mutex
		cnt := map[string]int{}
		prof = func(m *Machine, fr *frame) {
			mu.Lock()
			for f := fr; f != nil; f = f.caller {
				if n := f.cf.name; strings.Contains(n, "termemu") || f == fr {
					if f == fr {
						n += " (self)"
					}
					cnt[n]++
				}
			}
			mu.Unlock()
		}
		defer func() {
			for _, k := range sortedKeysBy(cnt) {
				fmt.Fprintln(os.Stderr, cnt[k], k)
			}
		}()
	}
	tier := 0
	if *tierS == "thorough" {
		tier = 1
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = n
		}
	}
	ov, err := overlayFiles(repoDir)
	if err != nil {
		fatal(err)
	}
	ovb, err := loadOverlay(ov)
	if err != nil {
		fatal(err)
	}
	e := newEngine(tier, seed, *workers)
	e.solverBin = *solver
	e.verbose = *verbose
	scratch, err := os.MkdirTemp("", "verif-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(scratch)
	if err := e.load(repoDir, ovb); err != nil {
		os.RemoveAll(scratch)
		fatal(err)
	}
	loadT := time.Since(t0)
	var prefixes []string
	cfg := propCfg{Quick: defQuick, Thorough: defThorough}
	if *prop != "" {
		prefixes = []string{"vh_" + *prop + "_"}
		if tier == 1 {
			prefixes = append(prefixes, "vt_"+*prop+"_")
		}
		if c, ok := propCfgs[*prop]; ok {
			cfg = c
		}
	}
	if *hpat != "" {
		prefixes = strings.Split(*hpat, ",")
	}
	all := e.harnesses([]string{"vh_", "vt_"})
	if cmd == "list" {
		for _, n := range all {
			fmt.Println(n)
		}
		return
	}
	if cmd == "replay" {
		var s Sample
		b, err := os.ReadFile(*file)
		if err != nil {
			fatal(err)
		}
		var rf replayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			fatal(err)
		}
		s = Sample{Harness: rf.Harness, Vals: rf.Vals}
		nb := buildNative(scratch, all, ov, rf.Kind == "race")
		if concurrent(rf.Harness) {
			nb.stress = 25
		}
		res, crash, err := nb.runNative(rf.Tier, []Sample{s}, 60*time.Second, "r")
		fmt.Println("crash:", crash, "err:", err)
		for _, r := range res {
			fmt.Println("fail:", r.Fail)
			for _, o := range r.Obs {
				fmt.Println("  ", o)
			}
		}
		return
	}
	names := e.harnesses(prefixes)
	if len(names) == 0 {
		fatal(fmt.Errorf("no harness for %v", prefixes))
	}
	var nb *nativeBin
	if !*noNative {
		nb = buildNative(scratch, all, ov, false)
	}
	limit := time.Duration(cfg.Quick) * time.Second
	if tier == 1 {
		limit = time.Duration(cfg.Thorough) * time.Second
	}
	if *secs > 0 {
		limit = time.Duration(*secs) * time.Second
	}
	for _, n := range names {
		h := &Harness{name: n, fn: e.mainPkg.Func(n), reached: map[string]bool{}, errs: map[string]int{}}
		h.queue = []workItem{{}}
		e.hs = append(e.hs, h)
	}
	e.deadline = time.Now().Add(limit)
	kf := knownFindings()
	var confirmMu sync.Mutex
	var confirmed *Violation
	var confirmedWhy string
	var replayPath string
	known := map[string]bool{}
	var unconfirmed []Violation
	nviol := 0
	var nbRace *nativeBin
	confirm := func(v Violation) (string, bool) {
		if nb == nil {
			return "(native replay disabled)", true
		}
		if v.Kind == "race" {
			// the counterexample is run again and again under the race detector
			if nbRace == nil {
				nbRace = buildNative(scratch, all, ov, true)
			}
			nbRace.stress = 25
			_, crash, err := nbRace.runNative(tier, []Sample{{Harness: v.Harness, Vals: v.Model}}, 90*time.Second, "r"+strconv.Itoa(nviol))
			if err != nil {
				return err.Error(), false
			}
			return crash, strings.Contains(crash, "DATA RACE")
		}
		to := 30 * time.Second
		res, crash, err := nb.runNative(tier, []Sample{{Harness: v.Harness, Vals: v.Model}}, to, "v"+strconv.Itoa(nviol))
		if err != nil {
			return err.Error(), false
		}
		if crash != "" {
			return crash, true
		}
		if len(res) == 1 && res[0].Fail != "" && !strings.HasPrefix(res[0].Fail, "diverge:") && res[0].Fail != "no-harness" {
			return res[0].Fail, true
		}
		if concurrent(v.Harness) {
			nb.stress = 20
			res, crash, err := nb.runNative(tier, []Sample{{Harness: v.Harness, Vals: v.Model}}, 60*time.Second, "s"+strconv.Itoa(nviol))
			nb.stress = 0
			switch {
			case err != nil:
				return err.Error(), false
			case crash != "":
				return crash, true
			case len(res) == 1 && res[0].Fail != "" && !strings.HasPrefix(res[0].Fail, "diverge:"):
				return res[0].Fail, true
			}
			if v.Kind == "deadlock" {
				return "the schedule was not met in 20 s of native runs", true
			}
		}
		if len(res) == 1 {
			return res[0].Fail, false
		}
		return "no result", false
	}
	seen := map[string]int{}
	e.onViolation = func(v Violation) bool {
		confirmMu.Lock()
		defer confirmMu.Unlock()
		if confirmed != nil && !*keep {
			return true
		}
		key := v.Harness + "|" + v.Kind + "|" + v.Msg
		seen[key]++
		if seen[key] > 3 {
			return false
		}
		nviol++
		why, ok := confirm(v)
		if *verbose || *keep {
			fmt.Fprintf(os.Stderr, "--- violation in %s: %s: %s\n    native: %v %s\n    vals: %s\n%s", v.Harness, v.Kind, v.Msg, ok, firstLines(why, 12), valStr(v.Model), v.Stack)
			if len(v.Obs) > 0 {
				fmt.Fprintf(os.Stderr, "    obs: %v\n", v.Obs)
			}
		}
		if !ok {
			unconfirmed = append(unconfirmed, v)
			return len(unconfirmed) > 40
		}
		for _, k := range kf {
			if k["property"] == *prop && strings.Contains(key, k["match"]) && k["match"] != "" {
				if !known[k["match"]] {
					known[k["match"]] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k["what"])
				}
				return false
			}
		}
		if *keep {
			return false
		}
		confirmed = &v
		confirmedWhy = why
		replayPath = writeReplay(*prop, tier, v, why)
		return true
	}
	e.run()
	exploreT := time.Since(t0) - loadT

	// step/decision bound paths: does the real code terminate on them?
	boundChecked := 0
	if confirmed == nil && nb != nil {
		for _, h := range e.hs {
			for _, v := range h.boundItems {
				if v.Msg != "step bound" && v.Msg != "huge allocation" && v.Msg != "huge Repeat" {
					continue
				}
				if boundChecked >= 12 {
					break
				}
				boundChecked++
				v.Kind = "wedge"
				why, ok := confirm(v)
				if *verbose || *keep {
					fmt.Fprintf(os.Stderr, "--- bound path in %s: native %v %s vals %s\n", v.Harness, ok, firstLines(why, 6), valStr(v.Model))
				}
				if ok && confirmed == nil {
					vv := v
					confirmed, confirmedWhy = &vv, why
					replayPath = writeReplay(*prop, tier, v, why)
				}
			}
		}
	}
	// translation validation: sampled completed paths against the native build
	validated, mismatches := 0, 0
	var mmsg []string
	if confirmed == nil && nb != nil {
		var cases []Sample
		for _, h := range e.hs {
			cases = append(cases, h.samples...)
		}
		for len(cases) > 0 {
			res, crash, err := nb.runNative(tier, cases, 200*time.Second, "s")
			if err != nil {
				fmt.Fprintln(os.Stderr, "native validation:", err)
				if *cmdIsCheck(cmd) {
					os.RemoveAll(scratch)
					os.Exit(2)
				}
				break
			}
			adv := 0
			for _, r := range res {
				c := cases[r.I]
				adv = r.I + 1
				switch {
				case r.Fail != "" && !strings.HasPrefix(r.Fail, "diverge:"):
					mismatches++
					mmsg = append(mmsg, fmt.Sprintf("%s: native %s", c.Harness, firstLines(r.Fail, 3)))
					v := Violation{Harness: c.Harness, Kind: "native", Msg: firstLines(r.Fail, 1), Model: c.Vals}
					// a concrete failure of the real code on a path the engine thought safe
					if why, ok := confirm(v); ok && confirmed == nil {
						confirmed, confirmedWhy = &v, why
						replayPath = writeReplay(*prop, tier, v, why)
					}
				case r.Fail != "" || !eqStrs(r.Obs, c.Obs):
					mismatches++
					mmsg = append(mmsg, fmt.Sprintf("%s: %s obs native %v engine %v vals %s", c.Harness, r.Fail, diffObs(r.Obs, c.Obs), "", valStr(c.Vals)))
				default:
					validated++
				}
			}
			if crash != "" || adv < len(cases) {
				if adv < len(cases) {
					c := cases[adv]
					mismatches++
					mmsg = append(mmsg, fmt.Sprintf("%s: native crash/hang: %s", c.Harness, firstLines(crash, 6)))
					v := Violation{Harness: c.Harness, Kind: "native", Msg: firstLines(crash, 1), Model: c.Vals}
					if why, ok := confirm(v); ok && confirmed == nil {
						confirmed, confirmedWhy = &v, why
						replayPath = writeReplay(*prop, tier, v, why)
					}
				}
				adv++
			}
			if adv > len(cases) {
				break
			}
			cases = cases[adv:]
		}
	}

	// report
	fmt.Fprintf(os.Stderr, "load %.1fs explore %.1fs total %.1fs timedout=%v solver: %d queries (%d sat %d unsat %d unknown, %d cache hits) %.1fs; validated %d mismatches %d\n",
		loadT.Seconds(), exploreT.Seconds(), time.Since(t0).Seconds(), e.timedOut, e.st.Queries, e.st.Sat, e.st.Unsat, e.st.Unknown, e.st.CacheHits, e.st.Time.Seconds(), validated, mismatches)
	for _, h := range e.hs {
		fmt.Fprintf(os.Stderr, "  %-40s paths %d stop %d infeas %d bound %d engine %d pending %d asserts %d/%d steps %d max %d cpu %.1fs reach %v\n", h.name, h.paths, h.stopped, h.infeasible, h.boundCut, h.engineErr, len(h.queue), h.asserts, h.smtAsserts, h.steps, h.maxPath, h.wall.Seconds(), sortedKeys(h.reached))
		for k, n := range h.errs {
			fmt.Fprintf(os.Stderr, "      %dx %s\n", n, k)
		}
	}
	for i, s := range mmsg {
		if i < 10 {
			fmt.Fprintf(os.Stderr, "  MISMATCH %s\n", s)
		}
	}
	for i, v := range unconfirmed {
		if i < 10 {
			fmt.Fprintf(os.Stderr, "  UNCONFIRMED %s %s %s %s\n", v.Harness, v.Kind, v.Msg, valStr(v.Model))
		}
	}
	if *prop != "" && cmd == "check" {
		writeEvidence(e, *prop, *tierS, seed, time.Since(t0), validated, mismatches, mmsg, unconfirmed, confirmed, boundChecked, limit)
	}
	code := 0
	if confirmed != nil {
		fmt.Printf("violated: %s %s: %s\n%s\nvalues: %s\n", confirmed.Harness, confirmed.Kind, confirmed.Msg, firstLines(confirmedWhy, 20), valStr(confirmed.Model))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replayPath)
		code = 1
	} else {
		var tot int64
		for _, h := range e.hs {
			tot += h.paths + h.stopped
		}
		if tot == 0 {
			fmt.Fprintln(os.Stderr, "no path completed: inconclusive")
			code = 2
		}
	}
	os.RemoveAll(scratch)
	if code != 0 {
		os.Exit(code)
	}
}

// concurrent tells whether the real code runs goroutines in a harness, so that one
// native run need not meet the schedule of the counterexample.
func concurrent(h string) bool { return strings.Contains(h, "_C15_") }

func cmdIsCheck(c string) *bool { b := c == "check"; return &b }

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func diffObs(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "<none>", "<none>"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("#%d native %s / engine %s", i, x, y)
		}
	}
	return ""
}

func valStr(vs []VarVal) string {
	var b strings.Builder
	for i, v := range vs {
		if i > 0 {
			b.WriteByte(' ')
		}
		if v.W == 64 {
			fmt.Fprintf(&b, "%s=%d", v.Name, int64(v.Val))
		} else {
			fmt.Fprintf(&b, "%s=%#x", v.Name, v.Val)
		}
	}
	return b.String()
}

type replayFile struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Tier     int      `json:"tier"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"msg"`
	Native   string   `json:"native"`
	Vals     []VarVal `json:"vals"`
	Obs      []string `json:"obs"`
}

func writeReplay(prop string, tier int, v Violation, why string) string {
	if prop == "" {
		prop = "dev"
	}
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, prop+"-"+v.Harness+".json")
	js, _ := json.MarshalIndent(replayFile{prop, v.Harness, tier, v.Kind, v.Msg, why, v.Model, v.Obs}, "", " ")
	os.WriteFile(p, js, 0o644)
	return p
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "verif:", err)
	os.Exit(2)
}

func writeEvidence(e *Engine, prop, tier string, seed int64, wall time.Duration, validated, mism int, mmsg []string, unconf []Violation, conf *Violation, boundChecked int, limit time.Duration) {
	var paths, asserts, smt, branches, steps, pending, bcut, eng, infeas int64
	var hs []map[string]any
	var samples []any
	for _, h := range e.hs {
		paths += h.paths + h.stopped
		asserts += h.asserts
		smt += h.smtAsserts
		branches += h.branches
		steps += h.steps
		pending += int64(len(h.queue))
		bcut += h.boundCut
		eng += h.engineErr
		infeas += h.infeasible
		hs = append(hs, map[string]any{"harness": h.name, "paths": h.paths + h.stopped, "infeasible": h.infeasible, "bound_cut": h.boundCut, "unsupported": h.engineErr,
			"pending_at_deadline": len(h.queue), "complete": len(h.queue) == 0 && h.boundCut == 0 && h.engineErr == 0 && h.unknown == 0, "assertions": h.asserts, "assertions_decided_by_solver": h.smtAsserts,
			"symbolic_branches": h.branches, "instructions": h.steps, "longest_path_instructions": h.maxPath, "reached": sortedKeys(h.reached), "cut_reasons": h.errs})
		for i, s := range h.samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": s.Harness, "values": valStr(s.Vals), "observed": s.Obs})
			}
		}
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	fns := sortedKeys(e.encoded)
	var own []string
	for _, f := range fns {
		if strings.Contains(f, pkgPath) && !strings.Contains(f, ".vh_") && !strings.Contains(f, ".vt_") && !strings.Contains(f, pkgPath+".v") {
			own = append(own, strings.ReplaceAll(f, pkgPath+".", ""))
		}
	}
	sort.Strings(own)
	level := "model_checking"
	if c, ok := propCfgs[prop]; ok && c.Level != "" {
		level = c.Level
	}
	cov := map[string]any{
		"states": paths + 1, "transitions": branches, "traces_validated_against_impl": validated, "samples": samples,
		"functions_encoded": own, "harnesses": hs, "bounds": propBounds[prop],
		"assertions": asserts, "assertions_decided_by_solver": smt, "instructions_executed_symbolically": steps, "infeasible_paths": infeas,
		"solver":                       map[string]any{"name": e.solverBin, "queries": e.st.Queries, "sat": e.st.Sat, "unsat": e.st.Unsat, "unknown": e.st.Unknown, "cache_hits": e.st.CacheHits, "conditions_certified_over_their_domain": e.st.Certified, "seconds": e.st.Time.Seconds()},
		"pending_prefixes_at_deadline": pending, "bound_cut_paths": bcut, "unsupported_paths": eng, "step_bound_paths_replayed_natively": boundChecked,
		"translation_validation_mismatches": mism, "mismatch_examples": firstN(mmsg, 5), "unconfirmed_counterexamples": len(unconf), "exploration_time_limit_s": limit.Seconds(),
		"concretisation_bounds_hit": e.bounds,
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": wall.Seconds(), "violations": b2u(conf != nil)}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), js, 0o644)
}

func firstN(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func sortedKeysBy(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return m[r[i]] > m[r[j]] })
	if len(r) > 50 {
		r = r[:50]
	}
	return r
}
