package termemu

// Harness API.  Under the symbolic engine every function here is intercepted
// (the bodies are never encoded); natively they replay a recorded assignment.

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

type vVal struct {
	Name string `json:"name"`
	W    int    `json:"w"`
	Val  uint64 `json:"val"`
}

type vStopT struct{}
type vFailT struct{ msg string }
type vDivergeT struct{ msg string }

var vN struct {
	mu   sync.Mutex
	vals []vVal
	pos  int
	obs  []string
	tier int
}

func vNext(name string) uint64 {
	vN.mu.Lock()
	defer vN.mu.Unlock()
	if vN.pos >= len(vN.vals) {
		panic(vDivergeT{"ran out of recorded values at " + name})
	}
	v := vN.vals[vN.pos]
	if v.Name != name {
		panic(vDivergeT{fmt.Sprintf("value %d: recorded %q, asked %q", vN.pos, v.Name, name)})
	}
	vN.pos++
	return v.Val
}

func vInt(name string, lo, hi int) int       { return int(vNext(name)) }
func vU8(name string, lo, hi byte) byte      { return byte(vNext(name)) }
func vRune(name string, lo, hi rune) rune    { return rune(vNext(name)) }
func vU32(name string, lo, hi uint32) uint32 { return uint32(vNext(name)) }
func vBool(name string) bool                 { return vNext(name) != 0 }

// vChoose forks over 0..n-1 and returns a concrete value.
func vChoose(name string, n int) int { return int(vNext(name)) }

// vConc forks over the feasible values of x.
func vConc(x int) int { return x }
func vAssume(b bool) {
	if !b {
		panic(vDivergeT{"assumption does not hold natively"})
	}
}
func vAssert(b bool, msg string) {
	if !b {
		panic(vFailT{msg})
	}
}
func vAnd(a, b bool) bool { return a && b }
func vOr(a, b bool) bool  { return a || b }
func vNot(a bool) bool    { return !a }
func vIte(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func vIte8(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}
func vReach(label string) {}
func vStop()              { panic(vStopT{}) }
func vTier() int          { return vN.tier }
func vNative() bool       { return true }
func vSym(x int) bool     { return false }
func vObsI(label string, v int) {
	vN.mu.Lock()
	vN.obs = append(vN.obs, fmt.Sprintf("%s=%d", label, v))
	vN.mu.Unlock()
}
func vObsS(label string, v string) {
	vN.mu.Lock()
	vN.obs = append(vN.obs, fmt.Sprintf("%s=%q", label, []byte(v)))
	vN.mu.Unlock()
}
func vYield() { runtime.Gosched() }

// vQuiesce waits until every other goroutine is blocked (natively: long enough).
func vQuiesce() {
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
	time.Sleep(20 * time.Millisecond)
}
func vTraceOn()              {}
func vTraceOff()             {}
func vTraceMark(name string) {}

// vAtUnlock lets another goroutine run f after the k-th time a mutex is released, or
// after every one if k is negative (natively: at any time).
func vAtUnlock(k int, f func()) {
	vBg.stop.Store(false)
	vBg.wg.Add(1)
	go func() {
		defer vBg.wg.Done()
		if k >= 0 {
			for i := rand.IntN(3000); i > 0; i-- {
				vBg.spin.Add(1)
			}
			f()
			return
		}
		for !vBg.stop.Load() {
			f()
			runtime.Gosched()
		}
	}()
}

// vAtUnlockEnd tells whether everything started by vAtUnlock has ended.
func vAtUnlockEnd() bool {
	vBg.stop.Store(true)
	vBg.wg.Wait()
	return true
}

var vBg struct {
	stop atomic.Bool
	spin atomic.Int64
	wg   sync.WaitGroup
}

// vPtySize reports the arguments of the last pty.Setsize; engine only.
func vPtySize() (rows, cols, calls int) { return -1, -1, 0 }

// vMemoEnv and vMemoPair run f; the engine reuses a copy of the heap it built the
// first time when f depends on nothing but the key.
func vMemoEnv(key string, f func() *vEnv) *vEnv    { return f() }
func vMemoPair(key string, f func() *vPair) *vPair { return f() }
