package termemu

import (
	"io"
	"sync"
)

// C15: the terminal lock, and concurrent use.

// vProbe tells whether somebody holds the terminal lock.
func vProbe(t *terminal) bool {
	l, ok := any(t).(interface{ TryLock() bool })
	if !ok {
		return true
	}
	if l.TryLock() {
		t.Unlock()
		return false
	}
	return true
}

// vCFront is a frontend that reads the terminal in every callback.
type vCFront struct {
	t     *terminal
	calls int
}

func (f *vCFront) probe(what string) {
	if f.t == nil {
		return
	}
	vAssert(vProbe(f.t), what+" called with the terminal lock held")
	f.calls++
	w, h := f.t.Size()
	vSink(f.t.Line(h-1), f.t.ANSILine(0))
	for _, l := range f.t.StyledLines(Region{X: 0, Y: 0, X2: w, Y2: h}) {
		n := 0
		for _, sp := range l.Spans {
			n += sp.Width
		}
		vAssert(n == w, what+": rows readable")
	}
}

func vSink(a ...string) {}

func (f *vCFront) Bell()                                { f.probe("Bell") }
func (f *vCFront) RegionChanged(Region, ChangeReason)   { f.probe("RegionChanged") }
func (f *vCFront) ScrollLines(int)                      { f.probe("ScrollLines") }
func (f *vCFront) CursorMoved(x, y int)                 { f.probe("CursorMoved") }
func (f *vCFront) StyleChanged(Style)                   { f.probe("StyleChanged") }
func (f *vCFront) ViewFlagChanged(ViewFlag, bool)       { f.probe("ViewFlagChanged") }
func (f *vCFront) ViewIntChanged(ViewInt, int)          { f.probe("ViewIntChanged") }
func (f *vCFront) ViewStringChanged(ViewString, string) { f.probe("ViewStringChanged") }

// vCBackend hands out its input in chunks; it keeps nothing that is written.
type vCBackend struct {
	data  []byte
	n     int // bytes per read
	pos   int
	reads int
	at    func(i int) // called by the i-th read
	sum   int         // of everything written
}

func (b *vCBackend) Read(p []byte) (int, error) {
	if b.at != nil {
		b.at(b.reads)
	}
	b.reads++
	if b.pos == len(b.data) {
		return 0, io.EOF
	}
	e := min(len(b.data), b.pos+b.n)
	n := copy(p, b.data[b.pos:e])
	b.pos += n
	return n, nil
}

func (b *vCBackend) Write(p []byte) (int, error) {
	for _, c := range p {
		b.sum += int(c)
	}
	return len(p), nil
}

func (b *vCBackend) SetSize(w, h int) error { return nil }

// vCNew is a terminal with content, not yet reading.
func vCNew(w, h int, mode TextReadMode, grid bool, be Backend, f Frontend) *vEnv {
	e := &vEnv{be: &vBackend{}, fe: &vFrontend{}, mode: mode, grid: grid}
	e.t = newTerminal(e.fe, e.be, mode)
	e.fe.t = e.t
	if grid {
		e.t.mainScreen = newGridScreen(e.fe)
		e.t.altScreen = newGridScreen(e.fe)
		e.t.SetFrontend(e.fe)
	}
	e.t.Resize(w, h)
	e.gr = NewGraphemeReaderWithMode(e.be, mode)
	return e
}

var vC15Pre = [...]string{
	"ab\u4e00\x1b[31mcd",
	"\x1b[?1003;1006h\x1b[>5u\x1b[?1hx",
	"\x1b[?1000;1005h\x1b[>4;2m\x1b[?1049h\x1b[2;3rzz",
	"\x1b[?7l\x1b[?66h\x1b[=9;1uqq\x1b]2;t\a",
}

var vC15Items = [...]string{
	"hi\u4e01\r\nx\ty\b\a",
	"\x1b[2;2H\x1b[1;4mw\x1b[K\x1b[1J\x1b[X\x1b[P\x1b[@",
	"\x1b[L\x1b[M\x1b[S\x1b[T\x1bM\x1bD\n\n\n\n",
	"\x1b[2;3r\x1b[A\x1b[B\x1b[C\x1b[D\x1b[3G\x1b[2d\x1b[r",
	"\x1b[?1049hq\x1b[2J\x1b[?1049lp",
	"\x1b[?1000h\x1b[?1006h\x1b[?1002l\x1b[?1005h",
	"\x1b[?1h\x1b[?25l\x1b[?12h\x1b[?2004h\x1b[?1004h\x1b[?66h\x1b=\x1b>",
	"\x1b[>5u\x1b[=3;2u\x1b[<u\x1b[>4;1m\x1b[>4m\x1b[?u",
	"\x1b[c\x1b[>c\x1b[5n\x1b[6n",
	"\x1b]0;title\a\x1b]7;dir\x1b\\\x1b]2;x\a\x1bP1$r\x1b\\",
	"\x1b[s\x1b[u\x1b7\x1b8\x1b[?7hlong text that wraps around",
	"e\u0301\u200d\U0001f600\x80\xff\x1b[38;5;9mz",
}

// vAPI runs the documented operations one after the other, starting with the k-th.
type vAPI struct {
	t   *terminal
	tee *TeeBackend
	tf  *TTYFrontend
}

const vNAPI = 8

func (a *vAPI) run(from, n int) {
	for i := 0; i < n; i++ {
		a.op((from + i) % vNAPI)
	}
}

func (a *vAPI) op(i int) {
	t := a.t
	switch i {
	case 0:
		t.WithLock(func() {
			w, h := t.Size()
			for y := 0; y < h; y++ {
				vSink(t.Line(y), t.ANSILine(y))
				t.StyledLine(0, w, y)
			}
			t.StyledLines(Region{X: 0, Y: 0, X2: w, Y2: h})
		})
	case 1:
		t.Write([]byte("input"))
	case 2:
		t.SendKey(KeyEvent{Code: KeyUp})
		t.SendKey(KeyEvent{Code: KeyRune, Rune: 'a', Mod: ModCtrl})
	case 3:
		t.SendMouseRaw(MBtn1, true, 0, 1, 1)
	case 4:
		t.Resize(7, 3)
	case 5:
		if a.tee != nil {
			a.tee.SetTee(io.Discard)
		}
	case 6:
		t.SendKey(KeyEvent{Code: KeyF5, Event: KeyRelease})
		t.SendMouseRaw(MBtn1, false, 0, 2, 1)
	case 7:
		t.Resize(5, 4)
	}
}

// vRace runs the read loop on data next to goroutines; the trace of the run is
// analysed for races and deadlocks.
func vRace(e *vEnv, be Backend, order int, fs ...func()) {
	t := e.t
	t.backend = be
	loop := func() { t.ptyReadLoop() }
	var wg sync.WaitGroup
	start := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	vTraceOn()
	if order == 0 {
		start(loop)
		vGate()
	}
	for _, f := range fs {
		start(f)
	}
	if order != 0 {
		vGate()
		start(loop)
	}
	wg.Wait()
	vTraceOff()
}

// vGate lets the goroutines started so far run first.
func vGate() { vYield() }

// The read loop next to every documented operation.
func vh_C15_race() {
	mode := TextReadModeRune
	grid := vChoose("grid", 2) == 1
	if grid {
		mode = TextReadModeGrapheme
	}
	e := vCNew(6, 4, mode, grid, nil, nil)
	e.feeds(vC15Pre[vChoose("pre", len(vC15Pre))])
	f := &vCFront{t: e.t}
	e.t.SetFrontend(f)
	tee := NewTeeBackend(&vCBackend{data: []byte(vC15Items[vChoose("item", len(vC15Items))]), n: 64})
	a := &vAPI{t: e.t, tee: tee}
	from := vChoose("from", 2) * 4
	vRace(e, tee, vChoose("order", 2), func() { a.run(from, vNAPI) })
}

// Two goroutines besides the loop.
func vh_C15_two() {
	grid := vChoose("grid", 2) == 1
	e := vCNew(5, 3, TextReadModeRune, grid, nil, nil)
	e.feeds(vC15Pre[1+vChoose("pre", 2)])
	f := &vCFront{t: e.t}
	e.t.SetFrontend(f)
	tee := NewTeeBackend(&vCBackend{data: []byte("a\x1b[6n\x1b[?1000l"), n: 64})
	a := &vAPI{t: e.t, tee: tee}
	from := vChoose("from", vNAPI)
	vRace(e, tee, vChoose("order", 2), func() { a.run(from, 4) }, func() { a.run(0, vNAPI) })
}

// Any control sequence of the item kinds next to every documented operation.
func vh_C15_any() {
	grid := vChoose("grid", 2) == 1
	e := vCNew(5, 3, TextReadModeGrapheme, grid, nil, nil)
	e.feeds(vC15Pre[vChoose("pre", 2)])
	it := vGenItem("i", []int{vKC0, vKESC, vKCSI0, vKMode, vKKitty, vKOSC, vKCSI1, vKSGR}[vChoose("kind", 8)])
	f := &vCFront{t: e.t}
	e.t.SetFrontend(f)
	tee := NewTeeBackend(&vCBackend{data: append([]byte("a"), it.b...), n: 64})
	a := &vAPI{t: e.t, tee: tee}
	vRace(e, tee, 0, func() { a.run(0, vNAPI) })
}

// A TTYFrontend used from another goroutine.
func vh_C15_tty() {
	grid := vChoose("grid", 2) == 1
	e := vCNew(5, 3, TextReadModeRune, grid, nil, nil)
	tf := NewTTYFrontend(e.t, io.Discard)
	e.t.SetFrontend(tf)
	if vChoose("attached", 2) == 1 {
		tf.Attach(Region{X: 0, Y: 0, X2: 3, Y2: 3})
	}
	be := &vCBackend{data: []byte(vC15Items[vChoose("item", len(vC15Items))]), n: 64}
	a := &vAPI{t: e.t}
	vRace(e, be, vChoose("order", 2), func() {
		tf.Attach(Region{X: 0, Y: 0, X2: 5, Y2: 3})
		tf.Blur()
		tf.SetTerminal(e.t)
		tf.Focus()
		tf.Detach()
	}, func() { a.run(4, 5) })
}

// The read loop started by the constructor.
func vh_C15_new() {
	f := &vCFront{}
	tee := NewTeeBackend(&vCBackend{data: []byte(vC15Items[vChoose("item", len(vC15Items))]), n: 64})
	mode := TextReadMode(vChoose("mode", 2))
	var t *terminal
	var wg sync.WaitGroup
	wg.Add(1)
	vTraceOn()
	t = NewWithMode(f, tee, mode).(*terminal)
	if vChoose("order", 2) == 0 {
		vGate()
	}
	a := &vAPI{t: t, tee: tee}
	go func() {
		defer wg.Done()
		a.run(0, vNAPI)
	}()
	a.run(4, 5)
	wg.Wait()
	vTraceOff()
	vQuiesce()
}

// Callbacks run with the lock held, and nobody holds it while the loop reads: any
// input, in reads of one byte or more.
func vh_C15_locked() {
	mode := TextReadMode(vChoose("mode", 2))
	grid := vChoose("grid", 2) == 1
	e := vCNew(5, 3, mode, grid, nil, nil)
	e.feeds("ab\u4e00\x1b[31;44mcd\u4e01")
	f := &vCFront{t: e.t}
	e.t.SetFrontend(f)
	k := vChoose("kind", vNKinds)
	it := vGenItem("i", k)
	b := append(append([]byte("q"), it.b...), 'r', '\a')
	be := &vCBackend{data: b, n: []int{1, 2, 99}[vChoose("size", 3)]}
	be.at = func(int) { vAssert(!vProbe(e.t), "terminal lock free while the loop waits for input") }
	e.t.backend = be
	e.t.ptyReadLoop()
	vAssert(be.pos == len(b), "input read")
	vAssert(f.calls > 0, "callbacks")
	vAssert(!vProbe(e.t), "terminal lock free at the end")
}

// Callbacks from the other operations.
func vh_C15_calls() {
	grid := vChoose("grid", 2) == 1
	e := vCNew(5, 3, TextReadMode(vChoose("mode", 2)), grid, nil, nil)
	f := &vCFront{t: e.t}
	e.t.SetFrontend(f)
	e.feeds(vC15Pre[vChoose("pre", len(vC15Pre))])
	a := &vAPI{t: e.t}
	for i := 0; i < vNAPI; i++ {
		a.op(i)
		vAssert(!vProbe(e.t), "terminal lock free after a call")
	}
}

// ---- half-applied updates ----

var vC15Steps = [...][]string{
	{"x", "y"},
	{"\u4e05", "z"},
	{"\n", "w"},
	{"\x1b[2;2H", "\x1b[1J"},
	{"\x1b[?1049h", "u"},
	{"\x1b[L", "\x1b[31;7m"},
	{"\x1b[2;3r", "\x1b[S"},
	{"\x1b[?7h", "q", "\r"},
	{"\t", "\b", "\x1bM"},
	{"\x1b[?25l", "\x1b[@", "\x1b[P"},
	{"\x1b[?1000;1006h", "\x1b]2;new title\a"},
	{"\x1b[>5u", "\x1b[2J", "\x1b[u"},
}

// vState is what a reader can see.
type vState struct {
	w, h, cx, cy int
	rows, ansi   []string
	flags        []bool
	ints         []int
	strs         []string
	top, bot     int
	kb           int
}

func (e *vEnv) state() *vState {
	t := e.t
	s := &vState{}
	s.w, s.h = t.Size()
	for y := 0; y < s.h; y++ {
		s.rows = append(s.rows, t.Line(y))
		s.ansi = append(s.ansi, t.ANSILine(y))
	}
	p := t.screen().CursorPos()
	s.cx, s.cy = p.X, p.Y
	s.top, s.bot = t.screen().TopMargin(), t.screen().BottomMargin()
	for i := 0; i < int(viewFlagCount); i++ {
		s.flags = append(s.flags, t.GetViewFlag(ViewFlag(i)))
	}
	for i := 0; i < int(viewIntCount); i++ {
		s.ints = append(s.ints, t.GetViewInt(ViewInt(i)))
	}
	for i := 0; i < int(viewStringCount); i++ {
		s.strs = append(s.strs, t.GetViewString(ViewString(i)))
	}
	s.kb = int(t.keyboardFlags())
	return s
}

func (a *vState) eq(b *vState) bool {
	if a.w != b.w || a.h != b.h || a.cx != b.cx || a.cy != b.cy || a.top != b.top || a.bot != b.bot || a.kb != b.kb {
		return false
	}
	for i := range a.rows {
		if a.rows[i] != b.rows[i] || a.ansi[i] != b.ansi[i] {
			return false
		}
	}
	for i := range a.flags {
		if a.flags[i] != b.flags[i] {
			return false
		}
	}
	for i := range a.ints {
		if a.ints[i] != b.ints[i] {
			return false
		}
	}
	for i := range a.strs {
		if a.strs[i] != b.strs[i] {
			return false
		}
	}
	return true
}

func (e *vEnv) isOneOf(l []*vState) bool {
	s := e.state()
	for _, x := range l {
		if s.eq(x) {
			return true
		}
	}
	return false
}

func vCPair(grid bool, pre string) (e, twin *vEnv) {
	e = vCNew(6, 3, TextReadModeRune, grid, nil, nil)
	twin = vCNew(6, 3, TextReadModeRune, grid, nil, nil)
	e.feeds(pre)
	twin.feeds(pre)
	return e, twin
}

var vC15Fill = [...]string{
	"\x1b[?7labcdef\x1b[2;1Hgh\u4e00ij\x1b[3;1H\x1b[44mklmnop\x1b[2;4H",
	"\x1b[?7habcdef\x1b[42mghi\x1b[3;6H",
}

// A reader takes the lock whenever it is free.
func vh_C15_atomic() {
	grid := vChoose("grid", 2) == 1
	pre := vC15Fill[vChoose("fill", 2)]
	e, twin := vCPair(grid, pre)
	steps := vC15Steps[vChoose("steps", len(vC15Steps))]
	var in []byte
	seen := []*vState{twin.state()}
	for _, s := range steps {
		twin.feeds(s)
		seen = append(seen, twin.state())
		in = append(in, s...)
	}
	be := &vCBackend{data: in, n: []int{1, 99}[vChoose("size", 2)]}
	e.t.backend = be
	vAtUnlock(-1, func() {
		ok := false
		e.t.WithLock(func() { ok = e.isOneOf(seen) })
		vAssert(ok, "a reader sees whole updates only")
	})
	e.t.ptyReadLoop()
	vAssert(vAtUnlockEnd(), "readers end")
	vAssert(e.isOneOf(seen[len(seen)-1:]), "final state")
}

// A resize seen by a reader, or between two steps of the loop.
func vh_C15_resize() {
	grid := vChoose("grid", 2) == 1
	pre := vC15Fill[vChoose("fill", 2)] + vSelect("alt", "", "\x1b[?1049hpqr")
	e, twin := vCPair(grid, pre)
	seen := []*vState{twin.state()}
	w, h := 4, 2
	if vChoose("grow", 2) == 1 {
		w, h = 8, 5
	}
	twin.t.Resize(w, h)
	seen = append(seen, twin.state())
	// the other screen has to be resized by then, too
	flip := "\x1b[?1049h"
	if e.t.screen() != e.t.mainScreen {
		flip = "\x1b[?1049l"
	}
	twin.feeds(flip)
	after := twin.state()
	vAtUnlock(-1, func() {
		ok := false
		e.t.WithLock(func() { ok = e.isOneOf(seen) && e.t.mainScreen.Size() == e.t.altScreen.Size() })
		vAssert(ok, "a reader sees whole updates only")
	})
	e.t.Resize(w, h)
	vAssert(vAtUnlockEnd(), "readers end")
	e.feeds(flip)
	vAssert(e.isOneOf([]*vState{after}), "the other screen")
}

// An operation of another goroutine at any read of the loop, or after any release of a
// lock: the outcome is that of some order of whole steps.
func vh_C15_between() {
	grid := vChoose("grid", 2) == 1
	pre := vC15Fill[vChoose("fill", 2)]
	steps := vC15Steps[vChoose("steps", len(vC15Steps))]
	op := vChoose("op", 3)
	do := func(e *vEnv) {
		switch op {
		case 0:
			e.t.Resize(4, 2)
		case 1:
			e.t.Resize(8, 5)
		case 2:
			e.t.SetFrontend(&vFrontend{})
		}
	}
	var ends []*vState
	for i := 0; i <= len(steps); i++ {
		r := vCNew(6, 3, TextReadModeRune, grid, nil, nil)
		r.feeds(pre)
		for k, s := range steps {
			if k == i {
				do(r)
			}
			r.feeds(s)
		}
		if i == len(steps) {
			do(r)
		}
		ends = append(ends, r.state())
	}
	e := vCNew(6, 3, TextReadModeRune, grid, nil, nil)
	e.feeds(pre)
	var in []byte
	for _, s := range steps {
		in = append(in, s...)
	}
	be := &vCBackend{data: in, n: []int{1, 99}[vChoose("size", 2)]}
	e.t.backend = be
	if vChoose("where", 2) == 0 {
		k := vChoose("read", 6)
		if be.n > 1 && k > 1 {
			vStop()
		}
		be.at = func(i int) {
			if i == k {
				do(e)
			}
		}
		e.t.ptyReadLoop()
		if be.reads <= k {
			vStop()
		}
	} else {
		k := vChoose("unlock", 8)
		done := false
		vAtUnlock(k, func() { do(e); done = true })
		e.t.ptyReadLoop()
		vAssert(vAtUnlockEnd(), "operation ends")
		if !done {
			vStop()
		}
	}
	vAssert(e.isOneOf(ends), "the outcome of some order of whole steps")
}
