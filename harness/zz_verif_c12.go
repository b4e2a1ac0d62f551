package termemu

// C12: key encodings, against keyboard-protocol.rst.

// vKeyTab says how a functional key is reported: CSI num u, CSI num ~ or CSI 1 final.
type vKeyForm struct {
	num   int
	final byte
}

const vFirstFn, vLastFn = KeyUp, KeyISOLevel5Shift

var vKeyForms = map[KeyCode]vKeyForm{
	KeyEscape: {27, 'u'}, KeyEnter: {13, 'u'}, KeyTab: {9, 'u'}, KeyBackspace: {127, 'u'},
	KeyInsert: {2, '~'}, KeyDelete: {3, '~'}, KeyLeft: {1, 'D'}, KeyRight: {1, 'C'},
	KeyUp: {1, 'A'}, KeyDown: {1, 'B'}, KeyPageUp: {5, '~'}, KeyPageDown: {6, '~'},
	KeyHome: {1, 'H'}, KeyEnd: {1, 'F'},
	KeyCapsLock: {57358, 'u'}, KeyScrollLock: {57359, 'u'}, KeyNumLock: {57360, 'u'},
	KeyPrintScreen: {57361, 'u'}, KeyPause: {57362, 'u'}, KeyMenu: {57363, 'u'},
	KeyF1: {1, 'P'}, KeyF2: {1, 'Q'}, KeyF3: {13, '~'}, KeyF4: {1, 'S'},
	KeyF5: {15, '~'}, KeyF6: {17, '~'}, KeyF7: {18, '~'}, KeyF8: {19, '~'},
	KeyF9: {20, '~'}, KeyF10: {21, '~'}, KeyF11: {23, '~'}, KeyF12: {24, '~'},
	KeyF13: {57376, 'u'}, KeyF14: {57377, 'u'}, KeyF15: {57378, 'u'}, KeyF16: {57379, 'u'},
	KeyF17: {57380, 'u'}, KeyF18: {57381, 'u'}, KeyF19: {57382, 'u'}, KeyF20: {57383, 'u'},
	KeyF21: {57384, 'u'}, KeyF22: {57385, 'u'}, KeyF23: {57386, 'u'}, KeyF24: {57387, 'u'},
	KeyF25: {57388, 'u'}, KeyF26: {57389, 'u'}, KeyF27: {57390, 'u'}, KeyF28: {57391, 'u'},
	KeyF29: {57392, 'u'}, KeyF30: {57393, 'u'}, KeyF31: {57394, 'u'}, KeyF32: {57395, 'u'},
	KeyF33: {57396, 'u'}, KeyF34: {57397, 'u'}, KeyF35: {57398, 'u'},
	KeyKP0: {57399, 'u'}, KeyKP1: {57400, 'u'}, KeyKP2: {57401, 'u'}, KeyKP3: {57402, 'u'},
	KeyKP4: {57403, 'u'}, KeyKP5: {57404, 'u'}, KeyKP6: {57405, 'u'}, KeyKP7: {57406, 'u'},
	KeyKP8: {57407, 'u'}, KeyKP9: {57408, 'u'}, KeyKPDecimal: {57409, 'u'},
	KeyKPDivide: {57410, 'u'}, KeyKPMultiply: {57411, 'u'}, KeyKPSubtract: {57412, 'u'},
	KeyKPAdd: {57413, 'u'}, KeyKPEnter: {57414, 'u'}, KeyKPEqual: {57415, 'u'},
	KeyKPSeparator: {57416, 'u'}, KeyKPLeft: {57417, 'u'}, KeyKPRight: {57418, 'u'},
	KeyKPUp: {57419, 'u'}, KeyKPDown: {57420, 'u'}, KeyKPPageUp: {57421, 'u'},
	KeyKPPageDown: {57422, 'u'}, KeyKPHome: {57423, 'u'}, KeyKPEnd: {57424, 'u'},
	KeyKPInsert: {57425, 'u'}, KeyKPDelete: {57426, 'u'}, KeyKPBegin: {1, 'E'},
	KeyMediaPlay: {57428, 'u'}, KeyMediaPause: {57429, 'u'}, KeyMediaPlayPause: {57430, 'u'},
	KeyMediaReverse: {57431, 'u'}, KeyMediaStop: {57432, 'u'}, KeyMediaFastForward: {57433, 'u'},
	KeyMediaRewind: {57434, 'u'}, KeyMediaTrackNext: {57435, 'u'}, KeyMediaTrackPrev: {57436, 'u'},
	KeyMediaRecord: {57437, 'u'}, KeyVolumeDown: {57438, 'u'}, KeyVolumeUp: {57439, 'u'},
	KeyVolumeMute: {57440, 'u'},
	KeyLeftShift:  {57441, 'u'}, KeyLeftControl: {57442, 'u'}, KeyLeftAlt: {57443, 'u'},
	KeyLeftSuper: {57444, 'u'}, KeyLeftHyper: {57445, 'u'}, KeyLeftMeta: {57446, 'u'},
	KeyRightShift: {57447, 'u'}, KeyRightControl: {57448, 'u'}, KeyRightAlt: {57449, 'u'},
	KeyRightSuper: {57450, 'u'}, KeyRightHyper: {57451, 'u'}, KeyRightMeta: {57452, 'u'},
	KeyISOLevel3Shift: {57453, 'u'}, KeyISOLevel5Shift: {57454, 'u'},
}

// vPadText is what the keypad keys that produce text produce.
const vPadText = "0123456789./*-+?=,"

var vPadPlain = map[KeyCode]KeyCode{
	KeyKPEnter: KeyEnter, KeyKPLeft: KeyLeft, KeyKPRight: KeyRight, KeyKPUp: KeyUp,
	KeyKPDown: KeyDown, KeyKPPageUp: KeyPageUp, KeyKPPageDown: KeyPageDown,
	KeyKPHome: KeyHome, KeyKPEnd: KeyEnd, KeyKPInsert: KeyInsert, KeyKPDelete: KeyDelete,
}

func vIsPad(c KeyCode) bool { return c >= KeyKP0 && c <= KeyKPBegin }
func vPadRune(c KeyCode) rune {
	if c < KeyKP0 || c > KeyKPSeparator || c == KeyKPEnter {
		return 0
	}
	return rune(vPadText[c-KeyKP0])
}
func vIsModKey(c KeyCode) bool { return c >= KeyLeftShift }

// ---- decoding ----

// vSeq is a decoded key report.
type vSeq struct {
	csi, ss3 bool
	final    byte
	f        [4][4]int // fields and subfields; -1: empty
	nf       int
	ns       [4]int
	ok       bool
}

func vDecodeKey(b []byte) (s vSeq) {
	if len(b) == 3 && b[0] == 27 && b[1] == 'O' {
		s.ss3, s.final, s.ok = true, b[2], true
		return
	}
	if len(b) < 3 || b[0] != 27 || b[1] != '[' {
		return
	}
	s.csi = true
	i := 2
	if b[i] < '0' || b[i] > ';' {
		s.final = b[i]
		s.ok = len(b) == 3
		return
	}
	for {
		if s.nf == 4 {
			return
		}
		k := s.nf
		s.nf++
		for {
			if s.ns[k] == 4 {
				return
			}
			v, d := 0, 0
			for ; i < len(b) && b[i] >= '0' && b[i] <= '9'; i++ {
				if d == 1 && v == 0 {
					return // leading zero
				}
				v = v*10 + int(b[i]-'0')
				d++
			}
			if d == 0 {
				v = -1
			}
			s.f[k][s.ns[k]] = v
			s.ns[k]++
			if i < len(b) && b[i] == ':' {
				i++
				continue
			}
			break
		}
		if i >= len(b) {
			return
		}
		if b[i] != ';' {
			break
		}
		i++
	}
	s.final = b[i]
	s.ok = i == len(b)-1
	return
}

// is says whether s is the report of a key, in the canonical form.
func (s *vSeq) is(k vKeyForm, sh, base int, mods, ev int, text []int) bool {
	if !s.ok || !s.csi || s.final != k.final {
		return false
	}
	ok := true
	plain := vAnd(mods == 0, ev == 1)
	// key field
	if s.nf == 0 {
		return vAnd(plain, k.final != 'u' && k.final != '~')
	}
	ok = vAnd(ok, s.f[0][0] == k.num)
	want := 1
	if base != 0 {
		want = 3
	} else if sh != 0 {
		want = 2
	}
	if s.ns[0] != want {
		return false
	}
	if want > 1 {
		if sh == 0 {
			sh = -1
		}
		ok = vAnd(ok, s.f[0][1] == sh)
	}
	if want > 2 {
		ok = vAnd(ok, s.f[0][2] == base)
	}
	// modifiers and event
	if s.nf == 1 {
		return vAnd(ok, vAnd(plain, vAnd(len(text) == 0, k.final == 'u' || k.final == '~')))
	}
	if len(text) == 0 {
		ok = vAnd(ok, vNot(plain)) // no needless field
	}
	ok = vAnd(ok, s.f[1][0] == mods+1)
	switch s.ns[1] {
	case 1:
		ok = vAnd(ok, ev == 1)
	case 2:
		ok = vAnd(ok, s.f[1][1] == ev)
	default:
		return false
	}
	// text
	if s.nf == 2 {
		return vAnd(ok, len(text) == 0)
	}
	if s.nf > 3 || s.ns[2] != len(text) {
		return false
	}
	for i, c := range text {
		ok = vAnd(ok, s.f[2][i] == c)
	}
	return ok
}

// ---- terminal in a keyboard mode ----

type vKeyEnv struct {
	*vPair
	flags int
	mok   int
	app   bool
	pad   bool
}

func vNewKeys(flags, mok int, app, pad bool) *vKeyEnv {
	e := &vKeyEnv{vPair: vNewPair(2, 1, TextReadModeRune, false), flags: flags, mok: mok, app: app, pad: pad}
	if mok > 0 {
		e.feed(append(append([]byte("\x1b[>4;"), vItoa(mok)...), 'm'))
	}
	if app {
		e.feeds("\x1b[?1h")
	}
	if pad {
		e.feeds("\x1b=")
	}
	if flags > 0 {
		e.feed(append(append([]byte("\x1b[="), vItoa(flags)...), 'u'))
	}
	vAssert(e.t.keyboardFlags() == flags, "keyboard flags")
	return e
}

func (e *vKeyEnv) send(ev KeyEvent) []byte {
	e.be.out = nil
	n, err := e.t.SendKey(ev)
	vAssert(err == nil, "SendKey: error")
	vAssert(n == len(e.be.out), "SendKey: count")
	vObsS("key", string(e.be.out))
	return e.be.out
}

const (
	vMShift = 1
	vMAlt   = 2
	vMCtrl  = 4
	vMOther = 8 | 16 | 32
	vMLock  = 64 | 128
)

// legacyC0 is what Enter, Escape, Backspace and Tab send.
func vLegacyC0(c KeyCode, mods byte) string {
	esc := ""
	if mods&vMAlt != 0 {
		esc = "\x1b"
	}
	switch c {
	case KeyEnter:
		return esc + "\r"
	case KeyEscape:
		return esc + "\x1b"
	case KeyBackspace:
		if mods&vMCtrl != 0 {
			return esc + "\x08"
		}
		return esc + "\x7f"
	}
	if mods&vMShift != 0 {
		return esc + "\x1b[Z"
	}
	return esc + "\t"
}

var vCtrlTab = map[byte]byte{' ': 0, '/': 31, '2': 0, '3': 27, '4': 28, '5': 29, '6': 30, '7': 31,
	'8': 127, '?': 127, '@': 0, '[': 27, '\\': 28, ']': 29, '^': 30, '_': 31, '~': 30}

// vCtrl is the byte a printable ASCII key sends together with control.
func vCtrl(r rune) byte {
	if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' {
		return byte(r) & 31
	}
	if b, ok := vCtrlTab[byte(vConc(int(r)))]; ok {
		return b
	}
	return byte(r)
}

// fn checks the report of a functional key.
func (e *vKeyEnv) fn(c KeyCode, mods byte, evt KeyEventType, text []rune) {
	out := e.send(KeyEvent{Code: c, Mod: KeyMod(mods), Event: evt, Text: text})
	e.fnCheck(c, mods, evt, text, out)
}

func (e *vKeyEnv) fnCheck(c KeyCode, mods byte, evt KeyEventType, text []rune, out []byte) {
	if vNative() {
		defer func() {
			if r := recover(); r != nil {
				println("key", int(c), "mods", mods, "event", int(evt), "flags", e.flags, "mok", e.mok, "app", e.app, "pad", e.pad, "sent", vEsc(out))
				panic(r)
			}
		}()
	}
	all, dis, events := e.flags&8 != 0, e.flags&1 != 0, e.flags&2 != 0
	release := evt == KeyRelease
	if release && !events || vIsModKey(c) && !all {
		vAssert(len(out) == 0, "bytes for an event that is not reported")
		return
	}
	ev := 1
	if events && evt != 0 {
		ev = int(evt)
	}
	if (c == KeyCapsLock || c == KeyNumLock) && !all && len(out) == 0 {
		return // either way
	}
	s := vDecodeKey(out)
	form, known := vKeyForms[c]
	vAssert(known, "an unknown key")

	if e.flags == 0 {
		m := mods &^ vMLock
		c0 := c
		if p, ok := vPadPlain[c]; ok {
			if e.pad && s.ss3 {
				return // application keypad
			}
			c0, form = p, vKeyForms[p]
		}
		if r := vPadRune(c); r != 0 {
			if !(e.pad && s.ss3) {
				e.legacyText(r, 0, m, out, &s)
			}
			return
		}
		switch c0 {
		case KeyEnter, KeyEscape, KeyBackspace, KeyTab:
			other := m&vMOther != 0
			if e.mok > 0 && m != 0 {
				ok := s.ok && s.csi && s.final == '~' && s.nf == 3 && s.ns[0]+s.ns[1]+s.ns[2] == 3
				seq := vAnd(ok, vAnd(vAnd(s.f[0][0] == 27, s.f[1][0] == int(m)+1), s.f[2][0] == form.num))
				if seq {
					return
				}
				vAssert(e.mok == 1 || m&vMShift != 0 && m&^vMShift == 0, "modifyOtherKeys sequence")
			}
			if other {
				m &^= vMOther
			}
			vAssert(string(out) == vLegacyC0(c0, m), "legacy bytes")
			return
		case KeyF1, KeyF2, KeyF4, KeyF3:
			fin := []byte{'P', 'Q', 'R', 'S'}[c0-KeyF1]
			if m == 0 {
				vAssert(s.ok && s.ss3 && s.final == fin, "legacy function key")
				return
			}
			vAssert(vOr(s.is(vKeyForm{1, fin}, 0, 0, int(m), 1, nil), c0 == KeyF3 && s.is(form, 0, 0, int(m), 1, nil)), "legacy function key with modifiers")
			return
		case KeyUp, KeyDown, KeyLeft, KeyRight, KeyHome, KeyEnd, KeyKPBegin:
			if m == 0 && e.app {
				vAssert(s.ok && s.ss3 && s.final == form.final, "cursor key in application mode")
				return
			}
		case KeyMenu:
			form = vKeyForm{29, '~'}
		default:
			if form.final == 'u' && len(out) == 0 {
				return // no legacy encoding
			}
		}
		vAssert(s.is(form, 0, 0, int(m), 1, nil), "legacy functional key")
		return
	}

	// Kitty
	var txt []int
	if all && e.flags&16 != 0 && !release {
		txt = vText(text)
	}
	if !all {
		if r := vPadRune(c); r != 0 && (mods&(vMAlt|vMCtrl|vMOther) == 0 || !dis) {
			if !dis {
				e.kittyText(r, mods, evt, KeyEvent{}, out, &s)
				return
			}
			if release {
				vAssert(len(out) == 0, "the release of a key that sends text")
				return
			}
			vAssert(string(out) == string(r), "keypad key that sends text")
			return
		}
		if p, ok := vPadPlain[c]; ok && !dis {
			c, form = p, vKeyForms[p]
		}
		switch c {
		case KeyEnter, KeyTab, KeyBackspace:
			if release {
				vAssert(len(out) == 0, "the release of Enter, Tab or Backspace")
				return
			}
			m := mods &^ (vMLock | vMOther)
			leg := string(out) == vLegacyC0(c, m)
			if mods&^vMLock == 0 {
				vAssert(leg, "legacy bytes of Enter, Tab or Backspace")
				return
			}
			vAssert(vOr(leg, s.is(form, 0, 0, int(mods), ev, nil)), "Enter, Tab or Backspace with modifiers")
			return
		case KeyEscape:
			if !dis {
				m := mods &^ (vMLock | vMOther)
				leg := vAnd(!release, string(out) == vLegacyC0(c, m))
				vAssert(vOr(leg, s.is(form, 0, 0, int(mods), ev, nil)), "Escape")
				return
			}
		}
		if !dis && s.ss3 {
			// as in legacy mode
			vAssert(mods&^vMLock == 0 && ev == 1, "SS3 with modifiers")
			fin := form.final
			if c == KeyF3 {
				fin = 'R'
			}
			vAssert(s.final == fin, "SS3 form")
			return
		}
	}
	if form.final != 'u' {
		txt = nil
	}
	ok := s.is(form, 0, 0, int(mods), ev, txt)
	if r := vPadRune(c); r != 0 && all && e.flags&16 != 0 && !release && len(txt) == 0 {
		ok = vOr(ok, s.is(form, 0, 0, int(mods), ev, []int{int(r)}))
	}
	vAssert(ok, "Kitty form of a functional key")
}

// vText is the text field for a text.
func vText(text []rune) (r []int) {
	for _, c := range text {
		if c >= 0x20 && c < 0x7f || c >= 0xa0 {
			r = append(r, int(c))
		}
	}
	return
}

// legacyText checks what a text key sends in legacy mode; m is without locks.
func (e *vKeyEnv) legacyText(r, shifted rune, m byte, out []byte, s *vSeq) {
	u := r
	if m&vMShift != 0 && m&vMCtrl == 0 && shifted != 0 {
		u = shifted
	}
	text := string(u)
	if m&vMAlt != 0 {
		text = "\x1b" + text
	}
	if m == 0 {
		vAssert(string(out) == text, "plain text")
		return
	}
	seq := false
	if s.ok && s.csi && s.final == '~' && s.nf == 3 && s.ns[0]+s.ns[1]+s.ns[2] == 3 {
		seq = vAnd(s.f[0][0] == 27, s.f[1][0] == int(m)+1)
		seq = vAnd(seq, vOr(s.f[2][0] == int(u), s.f[2][0] == int(r)))
	}
	csiu := s.is(vKeyForm{int(r), 'u'}, 0, 0, int(m), 1, nil)
	if e.mok > 0 && e.flags == 0 {
		if e.mok == 2 && m&(vMAlt|vMCtrl) != 0 {
			vAssert(seq, "modifyOtherKeys sequence")
			return
		}
		if seq {
			return
		}
	}
	if m&vMOther != 0 {
		// no legacy form
		if csiu {
			return
		}
		m &^= vMOther
	}
	if m&vMCtrl == 0 {
		vAssert(string(out) == text, "text")
		return
	}
	if m&vMShift != 0 && csiu {
		return
	}
	if r > 0x7e {
		vAssert(vOr(string(out) == text, csiu), "control with a character beyond ASCII")
		return
	}
	want := []byte{vCtrl(r)}
	if m&vMAlt != 0 {
		want = []byte{27, want[0]}
	}
	if m&vMShift != 0 && shifted != 0 && shifted < 0x7f {
		w2 := []byte{vCtrl(shifted)}
		if m&vMAlt != 0 {
			w2 = []byte{27, w2[0]}
		}
		vAssert(vOr(string(out) == string(want), string(out) == string(w2)), "control and shift")
		return
	}
	vAssert(string(out) == string(want), "control")
}

// kittyText checks what a text key sends while Kitty flags are set.
func (e *vKeyEnv) kittyText(r rune, mods byte, evt KeyEventType, k KeyEvent, out []byte, s *vSeq) {
	all, dis, events, alts := e.flags&8 != 0, e.flags&1 != 0, e.flags&2 != 0, e.flags&4 != 0
	release := evt == KeyRelease
	ev := 1
	if events && evt != 0 {
		ev = int(evt)
	}
	sh, base := 0, 0
	if alts {
		base = int(k.BaseLayout)
		if mods&vMShift != 0 {
			sh = int(k.Shifted)
		}
	}
	form := vKeyForm{int(r), 'u'}
	strong := mods&(vMAlt|vMCtrl|vMOther) != 0
	if all {
		var txt []int
		if e.flags&16 != 0 && !release {
			if len(k.Text) > 0 {
				txt = vText(k.Text)
			} else if !strong {
				txt = []int{int(r)}
				if mods&vMShift != 0 && k.Shifted != 0 {
					txt[0] = int(k.Shifted)
				}
			}
		}
		vAssert(s.is(form, sh, base, int(mods), ev, txt), "Kitty form of a text key")
		return
	}
	if dis && strong {
		// locks are not reported for keys that produce text; these may be or not
		ok := s.is(form, sh, base, int(mods), ev, nil)
		if mods&vMLock != 0 {
			ok = vOr(ok, s.is(form, sh, base, int(mods&^vMLock), ev, nil))
		}
		vAssert(ok, "Kitty form of a text key with modifiers")
		return
	}
	if !strong {
		if release {
			vAssert(len(out) == 0, "the release of a key that sends text")
			return
		}
		u := r
		if mods&vMShift != 0 && k.Shifted != 0 {
			u = k.Shifted
		}
		vAssert(string(out) == string(u), "text")
		return
	}
	// modifiers, but not disambiguated: legacy bytes, or an escape code for the
	// events legacy has none for
	if s.is(form, sh, base, int(mods), ev, nil) {
		return
	}
	if release {
		vAssert(len(out) == 0, "the release of a key that keeps its legacy encoding")
		return
	}
	e.legacyText(r, k.Shifted, mods&^vMLock, out, s)
}

func (e *vKeyEnv) text(k KeyEvent) {
	out := e.send(k)
	mods := byte(k.Mod)
	if vNative() {
		defer func() {
			if r := recover(); r != nil {
				println("rune", k.Rune, "shifted", k.Shifted, "base", k.BaseLayout, "mods", mods, "event", int(k.Event), "flags", e.flags, "mok", e.mok, "sent", vEsc(out))
				panic(r)
			}
		}()
	}
	s := vDecodeKey(out)
	if k.Event == KeyRelease && e.flags&2 == 0 {
		vAssert(len(out) == 0, "a release without event reporting")
		return
	}
	if e.flags == 0 {
		e.legacyText(k.Rune, k.Shifted, mods&^vMLock, out, &s)
		return
	}
	e.kittyText(k.Rune, mods, k.Event, k, out, &s)
}

// ---- harnesses ----

func vEvType(name string) KeyEventType { return KeyEventType(vChoose(name, 4)) }

func vFlagSet(name string) int { return vChoose(name, 32) }

// Every functional key, every set of flags, every set of modifiers.
func vh_C12_fn() {
	c := vFirstFn + KeyCode(vChoose("key", int(vLastFn-vFirstFn)+1))
	e := vNewKeys(vFlagSet("flags"), 0, false, false)
	e.fn(c, vU8("mods", 0, 255), vEvType("ev"), nil)
}

// Legacy modes.
func vh_C12_legacyfn() {
	c := vFirstFn + KeyCode(vChoose("key", int(vLastFn-vFirstFn)+1))
	e := vNewKeys(0, vChoose("mok", 3), vChoose("app", 2) == 1, vChoose("pad", 2) == 1)
	e.fn(c, vU8("mods", 0, 255), vEvType("ev"), nil)
}

// Kitty flags take precedence over the xterm modes.
func vh_C12_both() {
	c := []KeyCode{KeyUp, KeyF1, KeyF3, KeyEnter, KeyTab, KeyEscape, KeyKP5, KeyKPLeft, KeyDelete, KeyMenu}[vChoose("key", 10)]
	f := []int{1, 2, 4, 8, 9, 15, 16, 31}[vChoose("flags", 8)]
	e := vNewKeys(f, vChoose("mok", 3), vChoose("app", 2) == 1, vChoose("pad", 2) == 1)
	e.fn(c, vU8("mods", 0, 255), vEvType("ev"), nil)
}

// Explicit text for a functional key.
func vh_C12_fntext() {
	c := []KeyCode{KeyTab, KeyEnter, KeyKP1, KeyKPAdd, KeyF5, KeyF13, KeyUp, KeyLeftShift}[vChoose("key", 8)]
	e := vNewKeys(vFlagSet("flags"), 0, false, false)
	e.fn(c, vU8("mods", 0, 255), vEvType("ev"), vTextList("text"))
}

func vTextList(name string) []rune {
	switch vChoose(name, 5) {
	case 1:
		return []rune{'x'}
	case 2:
		return []rune{0xe5, 0x301}
	case 3:
		return []rune{3, 'y', 0x7f, 0x85, 0x1f600}
	case 4:
		return []rune{27}
	}
	return nil
}

func vRuneBlock(name string) rune {
	switch vChoose(name+".b", 5) {
	case 0:
		r := rune(vU8(name, 0x20, 0x7e))
		vAssume(vNot(vAnd(r >= 'A', r <= 'Z')))
		return r
	case 1:
		return vRune(name, 0xa1, 0x17f)
	case 2:
		return vRune(name, 0x420, 0x4ff)
	case 3:
		return vRune(name, 0x4e00, 0x4eff)
	}
	return vRune(name, 0x1f600, 0x1f64f)
}

// Text keys in legacy mode.
func vh_C12_legacytext() {
	e := vNewKeys(0, vChoose("mok", 3), vChoose("app", 2) == 1, false)
	k := KeyEvent{Code: KeyRune, Rune: vRuneBlock("r"), Event: vEvType("ev")}
	m := []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 32, 12, 9, 63}[vChoose("mods", 14)] | byte(vChoose("lock", 4))<<6
	k.Mod = KeyMod(m)
	if vChoose("sh", 2) == 1 {
		k.Shifted = vRune("s", 'A', '_')
	}
	e.text(k)
}

// Text keys under Kitty flags.
func vh_C12_text() {
	e := vNewKeys(vFlagSet("flags"), 0, false, false)
	k := KeyEvent{Code: KeyRune, Event: vEvType("ev"), Mod: KeyMod(vU8("mods", 0, 255))}
	k.Rune = []rune{'a', ';', 0x43e, 0x1f600}[vChoose("r", 4)]
	k.Shifted = []rune{0, 'A', 0x41e}[vChoose("sh", 3)]
	k.BaseLayout = []rune{0, 'j'}[vChoose("base", 2)]
	e.text(k)
}

// Every rune.
func vh_C12_rune() {
	e := vNewKeys([]int{1, 3, 8, 10, 13, 15, 24, 31}[vChoose("flags", 8)], 0, false, false)
	k := KeyEvent{Code: KeyRune, Event: vEvType("ev"), Mod: KeyMod([]byte{0, 1, 2, 5, 65, 128, 255}[vChoose("mods", 7)])}
	k.Rune = vRuneBlock("r")
	e.text(k)
}

// Alternates and text as runes of any kind.
func vh_C12_alt() {
	e := vNewKeys([]int{4, 5, 7, 12, 20, 28, 29, 31}[vChoose("flags", 8)], 0, false, false)
	k := KeyEvent{Code: KeyRune, Rune: 'q', Event: vEvType("ev"), Mod: KeyMod(vSelect("mods", "\x00", "\x01", "\x02", "\x05", "\x40", "\xff")[0])}
	switch vChoose("what", 4) {
	case 3: // equal to the key, to each other, or neither
		k.Shifted, k.BaseLayout = rune(vU8("sa", 'o', 't')), rune(vU8("ba", 'o', 't'))
	case 0:
		k.Shifted = vRuneBlock("s")
	case 1:
		k.BaseLayout = vRuneBlock("s")
	case 2:
		k.Text = []rune{vRuneBlock("s"), 'z'}
	}
	if k.Text == nil {
		k.Text = vTextList("text")
	}
	e.text(k)
}

// The flags of the active screen count.
func vh_C12_screen() {
	fs := []int{0, 1, 2, 8, 11, 31}
	f, g := fs[vChoose("f", 6)], fs[vChoose("g", 6)]
	e := vNewKeys(f, 0, false, false)
	e.toAlt(true)
	e.flags = 0
	e.feed(append(append([]byte("\x1b[>"), vItoa(g)...), 'u'))
	e.flags = g
	if vChoose("back", 2) == 1 {
		e.toAlt(false)
		e.flags = f
	}
	c := []KeyCode{KeyUp, KeyEnter, KeyEscape, KeyKP3, KeyLeftAlt}[vChoose("key", 5)]
	if vChoose("t", 2) == 0 {
		e.fn(c, vU8("mods", 0, 255), vEvType("ev"), nil)
	}
	e.text(KeyEvent{Code: KeyRune, Rune: 'w', Mod: KeyMod(vSelect("m2", "\x00", "\x01", "\x04")[0]), Event: vEvType("ev2")})
}

// Two different events never share an encoding while keys are disambiguated.
func vt_C12_unique() {
	f := []int{1, 9, 11}[vChoose("flags", 3)]
	e := vNewKeys(f, 0, false, false)
	n := int(vLastFn-vFirstFn) + 1
	a, b := vFirstFn+KeyCode(vChoose("a", n)), vFirstFn+KeyCode(vChoose("b", n))
	if a >= b || f == 1 && (vIsModKey(a) || vIsModKey(b)) {
		vStop()
	}
	ma, mb := vU8("ma", 0, 7), vU8("mb", 0, 7)
	x := string(e.send(KeyEvent{Code: a, Mod: KeyMod(ma)}))
	y := string(e.send(KeyEvent{Code: b, Mod: KeyMod(mb)}))
	if f == 1 && (len(x) == 1 || len(y) == 1) {
		vStop() // text, Enter, Tab, Backspace
	}
	vAssert(x != y, "two keys with the same encoding")
}
