package termemu

import (
	"errors"
	"io"
	"unicode"
	"unicode/utf8"

	"github.com/rivo/uniseg"
)

// ---- scripted backend ----

var vErrIn = errors.New("injected read error")

type vBackend struct {
	in    [][]byte // one element per Read
	out   []byte   // everything written to the application
	nWr   int
	sizes []Pos
	wr    func(p []byte) (int, error) // replaces Write
	rd    func(p []byte) (int, error) // replaces Read
}

func (b *vBackend) Read(p []byte) (int, error) {
	if b.rd != nil {
		return b.rd(p)
	}
	if len(b.in) == 0 {
		return 0, io.EOF
	}
	n := copy(p, b.in[0])
	if n < len(b.in[0]) {
		b.in[0] = b.in[0][n:]
	} else {
		b.in = b.in[1:]
	}
	return n, nil
}

func (b *vBackend) Write(p []byte) (int, error) {
	b.nWr++
	if b.wr != nil {
		return b.wr(p)
	}
	b.out = append(b.out, p...)
	return len(p), nil
}

func (b *vBackend) SetSize(w, h int) error {
	b.sizes = append(b.sizes, Pos{w, h})
	return nil
}

// ---- recording frontend ----

type vEvent struct {
	kind byte // R region, C cursor, S style, F flag, I int, T string, B bell, L scroll
	r    Region
	why  ChangeReason
	a, b int
	st   Style
	s    string
}

type vFrontend struct {
	t       *terminal
	rec     bool
	ev      []vEvent
	bells   int
	cur     Pos
	curSet  bool
	style   Style
	stySet  bool
	flags   [viewFlagCount]bool
	flagSet [viewFlagCount]bool
	ints    [viewIntCount]int
	strs    [viewStringCount]string
	nCur    int
	hook    func(e vEvent)
}

func (f *vFrontend) note(e vEvent) {
	if f.rec {
		f.ev = append(f.ev, e)
	}
	if f.hook != nil {
		f.hook(e)
	}
}
func (f *vFrontend) Bell() { f.bells++; f.note(vEvent{kind: 'B'}) }
func (f *vFrontend) RegionChanged(r Region, c ChangeReason) {
	f.note(vEvent{kind: 'R', r: r, why: c})
}
func (f *vFrontend) ScrollLines(y int) { f.note(vEvent{kind: 'L', a: y}) }
func (f *vFrontend) CursorMoved(x, y int) {
	f.cur = Pos{x, y}
	f.curSet = true
	f.nCur++
	f.note(vEvent{kind: 'C', a: x, b: y})
}
func (f *vFrontend) StyleChanged(s Style) {
	f.style = s
	f.stySet = true
	f.note(vEvent{kind: 'S', st: s})
}
func (f *vFrontend) ViewFlagChanged(v ViewFlag, value bool) {
	f.flags[v] = value
	f.flagSet[v] = true
	f.note(vEvent{kind: 'F', a: int(v), b: vBtoI(value)})
}
func (f *vFrontend) ViewIntChanged(v ViewInt, value int) {
	f.ints[v] = value
	f.note(vEvent{kind: 'I', a: int(v), b: value})
}
func (f *vFrontend) ViewStringChanged(v ViewString, value string) {
	f.strs[v] = value
	f.note(vEvent{kind: 'T', a: int(v), s: value})
}

func vBtoI(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- terminal under test ----

type vEnv struct {
	t    *terminal
	be   *vBackend
	fe   *vFrontend
	gr   *GraphemeReader
	mode TextReadMode
	grid bool

	loose bool // fragments of characters may stand next to each other
}

func vKey(tag string, w, h int, mode TextReadMode, grid bool) string {
	k := tag + string(vItoa(w)) + "x" + string(vItoa(h)) + "." + string(vItoa(int(mode)))
	if grid {
		k += "g"
	}
	return k
}

func vNew(w, h int, mode TextReadMode, grid bool) *vEnv {
	return vMemoEnv(vKey("env", w, h, mode, grid), func() *vEnv { return vNewRaw(w, h, mode, grid) })
}

func vNewRaw(w, h int, mode TextReadMode, grid bool) *vEnv {
	e := &vEnv{be: &vBackend{}, fe: &vFrontend{}, mode: mode, grid: grid}
	e.t = newTerminal(e.fe, e.be, mode)
	e.fe.t = e.t
	if grid {
		e.t.mainScreen = newGridScreen(e.fe)
		e.t.altScreen = newGridScreen(e.fe)
		e.t.SetFrontend(e.fe)
	}
	e.t.Resize(w, h)
	e.be.sizes = nil
	e.gr = NewGraphemeReaderWithMode(e.be, mode)
	return e
}

// feed delivers b as one read and runs the parser until it is consumed.
func (e *vEnv) feed(b []byte) {
	if len(b) == 0 {
		return
	}
	e.be.in = append(e.be.in, b)
	e.run()
}

func (e *vEnv) feeds(s string) { e.feed([]byte(s)) }

func (e *vEnv) run() {
	n := 0
	for len(e.be.in) > 0 || e.gr.Buffered() > 0 {
		if err := e.t.ptyReadOne(e.gr); err != nil {
			return
		}
		n++
		vAssert(n < 4096, "parser did not consume its input")
	}
}

// ---- byte builders ----

func vItoa(n int) []byte {
	if n == 0 {
		return []byte{'0'}
	}
	var r []byte
	neg := n < 0
	if neg {
		n = -n
	}
	for n > 0 {
		r = append(r, byte('0'+n%10))
		n /= 10
	}
	if neg {
		r = append(r, '-')
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func vCup(x, y int) []byte { // 0-based, concrete
	b := []byte("\x1b[")
	b = append(b, vItoa(y+1)...)
	b = append(b, ';')
	b = append(b, vItoa(x+1)...)
	return append(b, 'H')
}

// vNum is a symbolic decimal parameter of n digits (0 = absent), possibly with
// leading zeros, and its value.  All numbers of one or two digits are covered,
// those of three digits up to 255 and the multiples of 39 among those of four.
func vNum(name string, n int) ([]byte, int) {
	if n == 0 {
		return nil, 0
	}
	hi := byte(255)
	if n == 1 {
		hi = 9
	} else if n == 2 {
		hi = 99
	}
	v := int(vU8(name, 0, hi))
	if n == 4 {
		v *= 39
	}
	return vDigits(v, n), v
}

func vDigits(v, n int) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte('0' + v%10)
		v /= 10
	}
	return b
}

// ---- reference model of one screen ----

const (
	vLax   = 1
	vFresh = 2
)

type vCell struct {
	s   string // text of the character starting here ("" on a continuation cell)
	w   int    // its width in cells; 0 on a continuation cell
	st  Style
	lax byte // vLax: the style is not checked (half of a cut wide character); vFresh: it is st or the default
}

type vScreen struct {
	w, h     int
	c        [][]vCell
	cx, cy   int
	sx, sy   int
	top, bot int
	wrap     bool
	st       Style
	lost     [][]vCell // rows scrolled off the top of the screen
	odd      bool      // a write started inside a wide character
}

func vNewScreen(w, h int, st Style) *vScreen {
	m := &vScreen{w: w, h: h, bot: h - 1, st: st}
	for y := 0; y < h; y++ {
		m.c = append(m.c, vBlankRow(w, st))
	}
	return m
}

func vBlankRow(w int, st Style) []vCell {
	r := make([]vCell, w)
	for i := range r {
		r[i] = vCell{" ", 1, st, 0}
	}
	return r
}

func vStyleEq(a, b Style) bool { return a == b }

func vRuneW(r rune) int {
	w := uniseg.StringWidth(string(r))
	if w < 1 {
		w = 1
	}
	return w
}

// vRowEq compares a row of the real terminal with expected cells.
func (c vCell) styleOK(st Style) bool {
	switch c.lax {
	case 0:
		return vStyleEq(c.st, st)
	case vFresh:
		return vOr(vStyleEq(c.st, st), vStyleEq(NewStyle(), st))
	}
	return true
}

func vRowEq(l Line, want []vCell) bool {
	ok := true
	x := 0
	for _, sp := range l.Spans {
		if sp.Width <= 0 || x+sp.Width > len(want) {
			return false
		}
		end := x + sp.Width
		if sp.Text == "" {
			for ; x < end; x++ {
				if want[x].w != 1 || len(want[x].s) != utf8.RuneLen(sp.Rune) {
					return false
				}
				ok = vAnd(ok, want[x].s == string(sp.Rune))
				ok = vAnd(ok, want[x].styleOK(sp.Style))
			}
			continue
		}
		i := 0
		for x < end {
			c := want[x]
			if c.w == 0 || x+c.w > end || i+len(c.s) > len(sp.Text) {
				return false
			}
			ok = vAnd(ok, sp.Text[i:i+len(c.s)] == c.s)
			ok = vAnd(ok, c.styleOK(sp.Style))
			i += len(c.s)
			x += c.w
		}
		if i != len(sp.Text) {
			return false
		}
	}
	return vAnd(ok, x == len(want))
}

func vRowText(row []vCell) string {
	s := ""
	for _, c := range row {
		s += c.s
	}
	return s
}

// vScreenEq compares the size, every row, and the plain text of every row.
func vScreenEq(s screen, m *vScreen) bool {
	sz := s.Size()
	if sz.X != m.w || sz.Y != m.h {
		return false
	}
	ok := true
	for y := 0; y < m.h; y++ {
		ok = vAnd(ok, vRowEq(s.StyledLine(0, m.w, y), m.c[y]))
		t := s.Line(y)
		want := vRowText(m.c[y])
		if len(t) != len(want) {
			return false
		}
		ok = vAnd(ok, t == want)
	}
	return ok
}

func vCursorEq(s screen, m *vScreen) bool {
	p := s.CursorPos()
	return vAnd(p.X == m.cx, p.Y == m.cy)
}

func vMarginsEq(s screen, m *vScreen) bool {
	return vAnd(s.TopMargin() == m.top, s.BottomMargin() == m.bot)
}

func (m *vScreen) setCur(x, y int) {
	m.cx = vClamp(x, 0, m.w-1)
	m.cy = vClamp(y, 0, m.h-1)
}

func vClamp(v, lo, hi int) int {
	v = vIte(v < lo, lo, v)
	return vIte(v > hi, hi, v)
}

// cut blanks the character that covers both sides of the left edge of cell x.
func (m *vScreen) cut(y, x int) {
	if x <= 0 || x >= m.w || m.c[y][x].w != 0 {
		return
	}
	row := m.c[y]
	b := x
	for row[b].w == 0 {
		b--
	}
	for i, n := 0, row[b].w; i < n; i++ {
		row[b+i] = vCell{" ", 1, m.st, vLax}
	}
}

// blank blanks the cells [x1,x2) of row y in the current style.
func (m *vScreen) blank(y, x1, x2 int) {
	if x1 >= x2 {
		return
	}
	m.cut(y, x1)
	m.cut(y, x2)
	for x := x1; x < x2; x++ {
		m.c[y][x] = vCell{" ", 1, m.st, 0}
	}
}

// del removes n cells at x of row y.
func (m *vScreen) del(y, x, n int) {
	if n > m.w-x {
		n = m.w - x
	}
	if n <= 0 {
		return
	}
	m.cut(y, x)
	m.cut(y, x+n)
	row := append([]vCell(nil), m.c[y][:x]...)
	row = append(row, m.c[y][x+n:]...)
	m.c[y] = append(row, vBlankRow(n, m.st)...)
}

// scroll shifts rows y1..y2 by n (n>0 down, n<0 up).
func (m *vScreen) scroll(y1, y2, n int) {
	if y1 > y2 || n == 0 {
		return
	}
	hgt := y2 - y1 + 1
	if n < 0 && y1 == 0 {
		m.lost = append(m.lost, m.c[:min(-n, hgt)]...)
	}
	old := append([][]vCell(nil), m.c...)
	for i := 0; i < hgt; i++ {
		src := i - n
		if src >= 0 && src < hgt {
			m.c[y1+i] = old[y1+src]
		} else {
			m.c[y1+i] = vBlankRow(m.w, m.st)
		}
	}
}

// index moves down one row, scrolling at the bottom margin.
func (m *vScreen) index() {
	if m.cy == m.bot {
		m.scroll(m.top, m.bot, -1)
	} else if m.cy < m.h-1 {
		m.cy++
	}
}

func (m *vScreen) rindex() {
	if m.cy == m.top {
		m.scroll(m.top, m.bot, 1)
	} else if m.cy > 0 {
		m.cy--
	}
}

// put writes one character of width w at the cursor.
func (m *vScreen) put(s string, w int) {
	if w > m.w {
		s, w = "\ufffd", 1
	}
	if m.cx+w > m.w {
		if m.wrap {
			m.cx = 0
			m.index()
		} else {
			m.cx = m.w - w
		}
	}
	if m.c[m.cy][m.cx].w == 0 {
		m.odd = true
	}
	m.cut(m.cy, m.cx)
	m.cut(m.cy, m.cx+w)
	row := m.c[m.cy]
	row[m.cx] = vCell{s, w, m.st, 0}
	for i := 1; i < w; i++ {
		row[m.cx+i] = vCell{"", 0, m.st, 0}
	}
	m.cx += w
	if m.cx >= m.w {
		if m.wrap {
			m.cx = 0
			m.index()
		} else {
			m.cx = m.w - 1
		}
	}
}

// resize keeps the top left of the screen; new cells have an unspecified style.
func (m *vScreen) resize(w, h int) {
	var rows [][]vCell
	for y := 0; y < h; y++ {
		row := make([]vCell, 0, w)
		if y < m.h {
			if w < m.w {
				m.cut(y, w)
			}
			for x := 0; x < w && x < m.w; x++ {
				row = append(row, m.c[y][x])
			}
		}
		for len(row) < w {
			row = append(row, vCell{" ", 1, m.st, vFresh})
		}
		rows = append(rows, row)
	}
	m.c = rows
	m.bot = vClamp(h-(m.h-m.bot), 0, h-1)
	m.top = vClamp(m.top, 0, m.bot)
	m.w, m.h = w, h
	m.cx, m.cy = vClamp(m.cx, 0, w-1), vClamp(m.cy, 0, h-1)
	m.sx, m.sy = vClamp(m.sx, 0, w-1), vClamp(m.sy, 0, h-1)
}

// ---- terminal and model side by side ----

type vPair struct {
	*vEnv
	m   *vScreen // the active screen
	ms  [2]*vScreen
	alt bool

	twin    *vEnv // gets the same input, if present
	holding bool  // input is kept in held
	held    []byte
}

func (p *vPair) feed(b []byte) {
	if p.holding {
		p.held = append(p.held, b...)
		return
	}
	p.vEnv.feed(b)
	if p.twin != nil {
		p.twin.feed(b)
	}
}

func (p *vPair) feeds(s string) { p.feed([]byte(s)) }

func vNewPair(w, h int, mode TextReadMode, grid bool) *vPair {
	return vMemoPair(vKey("pair", w, h, mode, grid), func() *vPair { return vNewPairRaw(w, h, mode, grid) })
}

// vFilled is a terminal whose active screen, main or alternate, has content.
func vFilled(w, h int, mode TextReadMode, grid, alt bool, layout int) *vPair {
	k := vKey("fill", w, h, mode, grid) + "." + string(vItoa(layout))
	if alt {
		k += "a"
	}
	return vMemoPair(k, func() *vPair {
		p := vNewPairRaw(w, h, mode, grid)
		if alt {
			p.toAlt(true)
		}
		p.fill(layout)
		return p
	})
}

func vNewPairRaw(w, h int, mode TextReadMode, grid bool) *vPair {
	p := &vPair{vEnv: vNewRaw(w, h, mode, grid)}
	p.ms[0] = vNewScreen(w, h, p.t.mainScreen.Style())
	p.ms[1] = vNewScreen(w, h, p.t.altScreen.Style())
	p.m = p.ms[0]
	return p
}

func (p *vPair) cup(x, y int) {
	p.feed(vCup(x, y))
	p.m.setCur(x, y)
}

// symCup moves the cursor to a symbolic position (screens up to 9x9).
func (p *vPair) symCup(xn, yn string) {
	x, y := vU8(xn, 0, byte(p.m.w-1)), vU8(yn, 0, byte(p.m.h-1))
	p.feed([]byte{27, '[', '1' + y, ';', '1' + x, 'H'})
	p.m.cx, p.m.cy = int(x), int(y)
}

func (p *vPair) sgr(s string) {
	p.feeds("\x1b[" + s + "m")
	p.m.st = p.t.screen().Style()
}

func (p *vPair) setWrap(on bool) {
	if on {
		p.feeds("\x1b[?7h")
	} else {
		p.feeds("\x1b[?7l")
	}
	p.m.wrap = on
}

func (p *vPair) margins(top, bot int) {
	b := append([]byte("\x1b["), vItoa(top+1)...)
	b = append(b, ';')
	b = append(b, vItoa(bot+1)...)
	p.feed(append(b, 'r'))
	p.m.top, p.m.bot = top, bot
	p.cup(0, 0)
}

// text writes characters given as strings of one character each.
func (p *vPair) text(chars ...string) {
	s := ""
	for _, c := range chars {
		s += c
		p.m.put(c, uniseg.StringWidth(c))
	}
	if p.m.odd && !p.grid {
		vStop()
	}
	p.feeds(s)
}

// probe shows what cannot be seen on the screen: rows that share their cells, halves
// of wide characters, the saved cursor.  It writes on every row.
func (p *vPair) probe() {
	x := 0
	if p.grid {
		x = vChoose("probe", p.m.w)
	} else {
		x = vChoose("probe", 2) * (p.m.w / 2)
	}
	p.probeAt(x)
}

func (p *vPair) probeAt(x int) {
	m := p.m
	p.feeds("\x1b[u")
	m.cx, m.cy = m.sx, m.sy
	vAssert(vCursorEq(p.t.screen(), m), "saved cursor afterwards")
	if m.wrap {
		p.setWrap(false)
	}
	p.sgr("7;36")
	for y := 0; y < m.h; y++ {
		if m.c[y][x].w == 0 && !p.grid {
			continue
		}
		p.cup(x, y)
		m.put(".", 1)
		p.feeds(".")
	}
	p.check("text afterwards")
}

var vFillStyles = [...]string{"", "31", "1;44", "38;5;100;4", "48;2;1;2;3", "97;9"}

// fill gives every cell of the active screen a distinct content; two styles per row.
// layout 0: narrow characters; 1: some wide ones, starting at even columns;
// 2: wide ones starting at odd columns; 3: every character in a run of its own,
// some wide and, in grapheme mode, some of more than one rune.
func (p *vPair) fill(layout int) {
	p.setWrap(false)
	n := 0
	for y := 0; y < p.m.h; y++ {
		p.cup(0, y)
		if layout == 3 {
			for x := 0; x < p.m.w; x++ {
				p.sgr(vFillStyles[(x+y)%len(vFillStyles)])
				switch {
				case (x+y)%4 == 2 && x+1 < p.m.w:
					p.text(string(rune(0x4e00 + n)))
					x++
				case p.mode == TextReadModeGrapheme && (x+y)%2 == 1:
					p.text(string(rune('A'+n%58)) + "\u0301")
				default:
					p.text(string(rune('A' + n%58)))
				}
				n++
			}
			continue
		}
		for half := 0; half < 2; half++ {
			p.sgr(vFillStyles[(2*y+half)%len(vFillStyles)])
			lo, hi := 0, p.m.w/2
			if half == 1 {
				lo, hi = p.m.w/2, p.m.w
			}
			var cs []string
			for x := lo; x < hi; x++ {
				wide := false
				if x+1 < hi {
					wide = layout == 1 && x%4 == 0 || layout == 2 && x%4 == 1
				}
				if wide {
					cs = append(cs, string(rune(0x4e00+n)))
					x++
				} else {
					cs = append(cs, string(rune('A'+n%58)))
				}
				n++
			}
			if len(cs) > 0 {
				p.text(cs...)
			}
		}
	}
	p.sgr("0")
	p.cup(0, 0)
}

// check compares the active screen with the model.
func (p *vPair) check(what string) {
	s := p.t.screen()
	q := s.CursorPos()
	vObsI("cx", q.X)
	vObsI("cy", q.Y)
	vAssert(vCursorEq(s, p.m), what+": cursor")
	vAssert(vMarginsEq(s, p.m), what+": scroll region")
	vAssert(vStyleEq(s.Style(), p.m.st), what+": current attributes")
	vAssert(s.AutoWrap() == p.m.wrap, what+": autowrap")
	ok := vScreenEq(s, p.m)
	if vNative() && !ok {
		vDump(s, p.m)
	}
	vAssert(ok, what+": content")
}

func vObsScreen(s screen) {
	for y := 0; y < s.Size().Y; y++ {
		vObsS("row", s.Line(y))
	}
}

func (p *vPair) resize(w, h int) {
	_ = p.t.Resize(w, h)
	p.ms[0].resize(w, h)
	p.ms[1].resize(w, h)
}

func (p *vPair) toAlt(on bool) {
	if on {
		p.feeds("\x1b[?1049h")
		p.alt = true
		p.m = p.ms[1]
	} else {
		p.feeds("\x1b[?1049l")
		p.alt = false
		p.m = p.ms[0]
	}
}

// vMargins chooses a scroll region out of all there are.
func (p *vPair) chooseMargins(tag string) {
	top := vChoose(tag+".top", p.m.h)
	bot := top + vChoose(tag+".bot", p.m.h-top)
	p.margins(top, bot)
}

func (p *vPair) chooseCursor(tag string) {
	p.cup(vChoose(tag+".x", p.m.w), vChoose(tag+".y", p.m.h))
}

func vClusterU(b []byte, mode TextReadMode) (int, int) {
	if mode != TextReadModeGrapheme {
		r, n := utf8.DecodeRune(b)
		return n, vRuneW(r)
	}
	c, _, w, state := uniseg.FirstGraphemeCluster(b, -1)
	n := len(c)
	if w < 1 {
		w = 1
	}
	for n < len(b) {
		c, _, _, st := uniseg.FirstGraphemeCluster(b[n:], state)
		r, sz := utf8.DecodeRune(c)
		if sz != len(c) || !(unicode.Is(unicode.Mn, r) || unicode.Is(unicode.Me, r) || r == 0x200d || r >= 0xfe00 && r <= 0xfe0f) {
			break
		}
		n += len(c)
		state = st
	}
	return n, w
}

// vDump prints a screen and its model when a counterexample is replayed natively.
func vDump(s screen, m *vScreen) {
	for y := 0; y < m.h && y < s.Size().Y; y++ {
		print("row ", y, ": ")
		for _, sp := range s.StyledLine(0, s.Size().X, y).Spans {
			t := sp.Text
			if t == "" {
				t = string(sp.Rune)
			}
			print("[", t, " w", sp.Width, " ", vStyleStr(sp.Style), "]")
		}
		print("\n  want ")
		for _, c := range m.c[y] {
			print("[", c.s, " w", c.w, " ", vStyleStr(c.st), " ", c.lax, "]")
		}
		println()
	}
}

func vStyleStr(s Style) string {
	t := string(s.ANSIEscape())
	r := ""
	for i := 0; i < len(t); i++ {
		if t[i] != 27 && t[i] != '[' {
			r += t[i : i+1]
		}
	}
	return r
}
