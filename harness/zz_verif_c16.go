package termemu

import (
	"errors"
	"io"
	"os"

	"github.com/creack/pty"
)

// C16: what the backend returns, in whatever pieces, and what it is given.

// vScript is what a backend's reads return.
type vScript struct {
	data  []byte
	sizes []int // bytes returned by each read; the last is repeated; 0: nothing, no error
	stop  int   // offset at which the error comes
	err   error
	with  bool   // the error comes together with the last bytes
	after []byte // what a further read would return
	fixed bool   // the error has been returned alone; there must be no further read
	n     int
	pos   int
	tee   []byte
	onRd  func(n int)
}

func (s *vScript) read(p []byte) (int, error) {
	i := s.n
	s.n++
	vAssert(i < 20000, "the loop does not stop")
	if s.onRd != nil {
		s.onRd(i)
	}
	if s.fixed {
		return copy(p, s.after), nil
	}
	if s.pos >= s.stop {
		s.fixed = len(s.after) > 0
		return 0, s.err
	}
	k := s.sizes[min(i, len(s.sizes)-1)]
	k = min(k, min(len(p), s.stop-s.pos))
	copy(p[:k], s.data[s.pos:s.pos+k])
	s.pos += k
	if s.with && s.pos == s.stop {
		s.fixed = len(s.after) > 0
		return k, s.err
	}
	return k, nil
}

// vLoop is a terminal whose read loop runs over a script, through one of the
// kinds of backend.
func vLoop(s *vScript, w, h int, mode TextReadMode, grid bool, chain int) *vPair {
	p := vNewPair(w, h, mode, grid)
	p.be.rd = s.read
	var b Backend = p.be
	switch chain {
	case 1:
		b = NewNoPTYBackend(vRdWr{p.be}, vRdWr{p.be})
	case 2:
		tb := NewTeeBackend(p.be)
		tb.SetTee(vTeeW{s})
		b = tb
	case 3:
		tb := NewTeeBackend(NewNoPTYBackend(vRdWr{p.be}, vRdWr{p.be}))
		tb.SetTee(vTeeW{s})
		b = tb
	}
	p.t.backend = b
	return p
}

type vRdWr struct{ b *vBackend }

func (v vRdWr) Read(p []byte) (int, error)  { return v.b.Read(p) }
func (v vRdWr) Write(p []byte) (int, error) { return v.b.Write(p) }

type vTeeW struct{ s *vScript }

func (v vTeeW) Write(p []byte) (int, error) {
	v.s.tee = append(v.s.tee, p...)
	return len(p), nil
}

func vErrKind(name string) error {
	if vChoose(name, 2) == 0 {
		return io.EOF
	}
	return vErrIn
}

// Twelve bytes, every way of returning them in reads of 0 to 3 bytes, an error
// anywhere.
func vh_C16_read() {
	mode := TextReadModeRune
	grid := vChoose("grid", 2) == 1
	if grid {
		mode = TextReadModeGrapheme
	}
	a, b, c := vU8("a", 0x20, 0x7e), vU8("b", 0x20, 0x7e), vU8("c", 0x21, 0x7e)
	n := vU8("n", '1', '2')
	s := &vScript{data: []byte{a, b, 27, '[', n, 'D', c, '\r', '\n', a, 8, c}}
	s.err = vErrKind("err")
	s.stop = vChoose("stop", 13)
	s.with = vChoose("with", 2) == 1
	if vChoose("more", 2) == 1 {
		s.after = []byte("ZZ")
	}
	s.sizes = []int{vChoose("s0", 4), vChoose("s1", 3), 1 + vChoose("s2", 3)}
	p := vLoop(s, 4, 2, mode, grid, vChoose("chain", 2)*3)
	p.setWrap0()
	p.t.ptyReadLoop()
	// the complete items of what was delivered
	end := 0
	at := func(k int) bool { end += k; return end <= s.stop }
	if at(1) {
		p.m.put(string(rune(a)), 1)
	}
	if at(1) {
		p.m.put(string(rune(b)), 1)
	}
	if at(4) {
		p.m.setCur(p.m.cx-vIte(n == '1', 1, 2), 0)
		p.m.cx = vConc(p.m.cx)
	}
	if at(1) {
		p.m.put(string(rune(c)), 1)
	}
	if at(1) {
		p.m.setCur(0, 0)
	}
	if at(1) {
		p.m.setCur(0, 1)
	}
	if at(1) {
		p.m.put(string(rune(a)), 1)
	}
	if at(1) {
		p.m.setCur(p.m.cx-1, p.m.cy)
	}
	if at(1) {
		p.m.put(string(rune(c)), 1)
	}
	p.check("delivered bytes")
	if p.t.backend != Backend(p.be) {
		vAssert(string(s.tee) == string(s.data[:s.stop]), "tee")
	}
}

// setWrap0 is for terminals whose input does not come from feed.
func (p *vPair) setWrap0() {
	p.m.wrap = p.t.screen().AutoWrap()
}

// The same with multi-byte text and control strings, cut in three.
func vh_C16_cut() {
	mode := TextReadModeRune
	grid := vChoose("grid", 2) == 1
	if vChoose("graph", 2) == 1 {
		mode = TextReadModeGrapheme
	}
	x := vU8("x", 0x20, 0x7e)
	wide := string(rune(0x4e00 + vChoose("w", 2)))
	data := append([]byte(wide), 27, ']', '2', ';', x)
	data = append(data, "\u00e9\x1b\\\x1b[48;5;17m"...)
	data = append(data, x, 0xc3, 0xa9)
	data = append(data, "\U0001f600\x1bP$q\x1b\\"...)
	data = append(data, x)
	s := &vScript{data: data, stop: len(data), err: vErrKind("err"), with: vChoose("with", 2) == 1}
	i := vChoose("i", len(data))
	j := vChoose("j", 4)
	s.sizes = []int{i, []int{0, 1, 2, 7}[j], 4096}
	p := vLoop(s, 9, 1, mode, grid, vChoose("chain", 4))
	p.t.ptyReadLoop()
	p.m.put(wide, 2)
	p.m.st = p.t.screen().Style()
	p.m.put(string(rune(x)), 1)
	p.m.put("\u00e9", 1)
	p.m.put("\U0001f600", 2)
	p.m.put(string(rune(x)), 1)
	for i := 0; i < 2; i++ {
		p.m.c[0][i].lax = vLax
	}
	for i := 7; i < 9; i++ {
		p.m.c[0][i].lax = vLax
	}
	p.check("delivered bytes")
	vAssert(p.t.GetViewString(VSWindowTitle) == string(rune(x))+"\u00e9", "title")
}

// Long control strings and parameters across the boundaries of the buffers.
func vh_C16_long() {
	n := []int{4080, 8176}[vChoose("len", 2)] + vChoose("off", 20)
	x := vU8("x", 0x20, 0x7e)
	var data []byte
	kind := vChoose("kind", 3)
	switch kind {
	case 0: // title
		data = append(data, "\x1b]2;"...)
		for i := 0; i < n; i++ {
			data = append(data, byte('a'+i%26))
		}
		data = append(data, x, 7)
	case 1: // a parameter with many leading zeros
		data = append(data, "\x1b["...)
		for i := 0; i < n; i++ {
			data = append(data, '0')
		}
		data = append(data, '3', 'C')
	case 2: // controls without effect
		for i := 0; i < n; i++ {
			data = append(data, 0x11)
		}
	}
	data = append(data, x, '!')
	s := &vScript{data: data, stop: len(data), err: vErrKind("err"), with: vChoose("with", 2) == 1}
	s.sizes = [][]int{{1 << 20}, {4095, 1, 1 << 20}, {1, 4097, 1 << 20}}[vChoose("size", 3)]
	p := vLoop(s, 6, 1, TextReadModeRune, false, 0)
	p.t.ptyReadLoop()
	if kind == 1 {
		p.m.setCur(3, 0)
	}
	p.m.put(string(rune(x)), 1)
	p.m.put("!", 1)
	p.check("long input")
	if kind == 0 {
		title := p.t.GetViewString(VSWindowTitle)
		vAssert(len(title) == n+1, "long title: length")
		vAssert(title == string(data[4:4+n+1]), "long title")
	}
}

// Text longer than the buffers.
func vh_C16_text() {
	n := []int{4090, 8186}[vChoose("len", 2)] + vChoose("off", 4)*3
	x := vU8("x", 0x21, 0x7e)
	grid := vChoose("grid", 2) == 1
	var data []byte
	wrap := vChoose("wrap", 2) == 1
	data = append(data, "\x1b[?7l"...)
	if wrap {
		data[len(data)-1] = 'h'
	}
	k := len(data)
	for i := 0; i < n; i++ {
		data = append(data, byte('a'+i%23))
	}
	data = append(data, x, '\n', x)
	s := &vScript{data: data, stop: len(data), err: io.EOF}
	s.sizes = [][]int{{1 << 20}, {4095, 1 << 20}, {4097, 1 << 20}}[vChoose("size", 3)]
	p := vLoop(s, 30, 2, TextReadModeRune, grid, 0)
	p.m.wrap = wrap
	p.t.ptyReadLoop()
	for _, c := range data[k : len(data)-2] {
		p.m.put(string(rune(c)), 1)
	}
	p.m.index()
	p.m.cx = 0
	p.m.put(string(rune(x)), 1)
	p.check("long text")
}

// One character of more bytes than the buffer holds.
func vh_C16_cluster() {
	n := []int{2046, 2047, 2048, 4100}[vChoose("n", 4)]
	data := []byte{vU8("x", 'a', 'z')}
	for i := 0; i < n; i++ {
		data = append(data, "\u0301"...)
	}
	want := string(data)
	data = append(data, "yz"...)
	s := &vScript{data: data, stop: len(data), err: vErrKind("err"), with: vChoose("with", 2) == 1}
	s.sizes = [][]int{{1 << 20}, {4096, 1 << 20}}[vChoose("size", 2)]
	p := vLoop(s, 5, 1, TextReadModeGrapheme, vChoose("grid", 2) == 1, 0)
	p.t.ptyReadLoop()
	p.m.put(want, 1)
	p.m.put("y", 1)
	p.m.put("z", 1)
	p.check("long character")
}

// Reads that return nothing, between the others.
func vh_C16_empty() {
	s := &vScript{data: []byte("a\x1b[1;4Hb"), err: vErrKind("err")}
	s.stop = len(s.data)
	k := 1 + vChoose("n", 40)
	at := vChoose("at", len(s.data))
	s.sizes = nil
	for i := 0; i < at; i++ {
		s.sizes = append(s.sizes, 1)
	}
	for i := 0; i < k; i++ {
		s.sizes = append(s.sizes, 0)
	}
	s.sizes = append(s.sizes, 1+2*vChoose("then", 2))
	p := vLoop(s, 5, 1, TextReadModeRune, vChoose("grid", 2) == 1, vChoose("chain", 4))
	p.t.ptyReadLoop()
	p.m.put("a", 1)
	p.m.setCur(3, 0)
	p.m.put("b", 1)
	p.check("empty reads")
}

// ---- writes ----

// Terminal.Write over a backend that takes any part of what it is offered and
// may fail at any write.
func vh_C16_write() {
	p := vNewPair(2, 1, TextReadModeRune, false)
	data := []byte{vU8("a", 0, 255), vU8("b", 0, 255), vU8("c", 0, 255), 'd', 'e', 'f', 'g'}
	data = data[:vChoose("len", 8)]
	orig := string(data)
	fail := vChoose("fail", 5)
	ferr := vErrIn
	if vChoose("kind", 2) == 1 {
		ferr = io.ErrShortWrite
	}
	var got []byte
	n, failed, zero := 0, false, false
	p.be.wr = func(b []byte) (int, error) {
		i := n
		n++
		vAssert(n < 200, "the write never ends")
		vAssert(!failed, "a write after the one that failed")
		k := len(b)
		if i < 4 {
			k = vConc(vInt("k", 0, min(k, 3)))
		}
		got = append(got, b[:k]...)
		if i == fail {
			failed = true
			return k, ferr
		}
		zero = zero || k == 0
		return k, nil
	}
	chain := vChoose("chain", 3)
	switch chain {
	case 1:
		p.t.backend = NewTeeBackend(p.be)
	case 2:
		p.t.backend = NewNoPTYBackend(vRdWr{p.be}, vRdWr{p.be})
	}
	k, err := p.t.Write(data)
	vAssert(k == len(got), "count of bytes written")
	vAssert(k <= len(orig) && string(got) == orig[:k], "bytes written")
	if err == nil {
		vAssert(k == len(orig), "no error, but not everything was written")
	} else {
		vAssert(failed || zero, "error without a failed write")
	}
	if failed {
		vAssert(err != nil, "the error is lost")
		vAssert(errors.Is(err, ferr), "another error")
	}
}

// Replies and events use the same path.
func vh_C16_reply() {
	p := vNewPair(2, 1, TextReadModeRune, false)
	var got []byte
	n := 0
	p.be.wr = func(b []byte) (int, error) {
		n++
		vAssert(n < 100, "the write never ends")
		k := min(len(b), vConc(vInt("k", 1, 3)))
		if n > 4 {
			k = len(b)
		}
		got = append(got, b[:k]...)
		return k, nil
	}
	want := "\x1b[0n"
	switch vChoose("what", 4) {
	case 0:
		p.feeds("\x1b[5n")
	case 1:
		p.feeds("\x1b[c")
		want = "\x1b[?1;2c"
	case 2:
		want = "\x1b[15~"
		_, err := p.t.SendKey(KeyEvent{Code: KeyF5, Event: KeyPress})
		vAssert(err == nil, "error")
	case 3:
		want = "\x1b[1;1R"
		p.feeds("\x1b[6n")
	}
	vAssert(string(got) == want, "short writes")
}

// ---- tee ----

type vTeeBad struct{ n int }

func (v *vTeeBad) Write(p []byte) (int, error) {
	v.n++
	return 0, vErrIn
}

// A TeeBackend passes reads through and copies them.
func vh_C16_tee() {
	be := &vBackend{}
	tb := NewTeeBackend(be)
	var want [2][]byte
	var sc [2]vScript
	sel := -1 // tee in use
	bad := &vTeeBad{}
	for i, tag := range []string{"a", "b", "c"} {
		switch vChoose(tag+".tee", 5) {
		case 0:
			tb.SetTee(vTeeW{&sc[0]})
			sel = 0
		case 1:
			tb.SetTee(vTeeW{&sc[1]})
			sel = 1
		case 2:
			tb.SetTee(nil)
			sel = -1
		case 3:
			tb.SetTee(bad)
			sel = -1
		}
		d := []byte{vU8(tag+".x", 0, 255), vU8(tag+".y", 0, 255), byte(i)}
		k := vChoose(tag+".k", 4)
		var rerr error
		if vChoose(tag+".err", 2) == 1 {
			rerr = vErrIn
		}
		be.rd = func(p []byte) (int, error) { return copy(p, d[:k]), rerr }
		buf := []byte{1, 2, 3, 4, 5}
		n, err := tb.Read(buf)
		vAssert(n == k, "tee read: count")
		vAssert(err == rerr, "tee read: error")
		vAssert(string(buf[:n]) == string(d[:k]), "tee read: bytes")
		if sel >= 0 {
			want[sel] = append(want[sel], d[:k]...)
		}
		for j := range want {
			vAssert(string(sc[j].tee) == string(want[j]), "tee")
		}
	}
	vAssert(NewTeeBackend(tb) == tb, "a tee over a tee")
	n, err := tb.Write([]byte("xyz"))
	vAssert(n == 3 && err == nil && string(be.out) == "xyz", "write through the tee")
	_ = tb.SetSize(vChoose("w", 3), 7)
	vAssert(len(be.sizes) == 1 && be.sizes[0].Y == 7, "size through the tee")
}

// ---- sizes ----

func vh_C16_size() {
	p := vNewPair(3, 2, TextReadModeRune, vChoose("grid", 2) == 1)
	if vChoose("alt", 2) == 1 {
		p.toAlt(true)
	}
	if vChoose("tee", 2) == 1 {
		p.t.backend = NewTeeBackend(p.be)
	}
	for _, tag := range []string{"a", "b"} {
		p.be.sizes = nil
		w, h := 1+vChoose(tag+".w", 5), 1+vChoose(tag+".h", 4)
		err := p.t.Resize(w, h)
		vAssert(err == nil, "resize: error")
		vAssert(len(p.be.sizes) > 0, "resize: the backend is not told")
		for _, s := range p.be.sizes {
			vAssert(s.X == w && s.Y == h, "resize: the size the backend is told")
		}
	}
}

// A PTY has h rows and w columns.
func vh_C16_pty() {
	w, h := vInt("w", 1, 4000), vInt("h", 1, 4000)
	if vNative() {
		m, s, err := pty.Open()
		if err != nil {
			vStop()
		}
		defer s.Close()
		defer m.Close()
		pb := &PTYBackend{master: m}
		vAssert(pb.SetSize(w, h) == nil, "pty size: error")
		rows, cols, err := pty.Getsize(s)
		vAssert(err == nil, "pty size: error")
		vAssert(rows == h, "pty rows")
		vAssert(cols == w, "pty columns")
		return
	}
	pb := &PTYBackend{master: new(os.File)}
	var b Backend = pb
	if vChoose("tee", 2) == 1 {
		b = NewTeeBackend(pb)
	}
	vAssert(b.SetSize(w, h) == nil, "pty size: error")
	rows, cols, calls := vPtySize()
	vAssert(calls >= 1, "pty size: not set")
	vAssert(rows == h, "pty rows")
	vAssert(cols == w, "pty columns")
	// without a PTY there is nothing to tell
	vAssert((&PTYBackend{}).SetSize(w, h) == nil, "no pty: error")
}
