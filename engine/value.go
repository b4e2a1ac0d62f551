package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is the universal runtime value.  Integers/bools: N when concrete, P=*Term when symbolic.
// Everything else lives in P (nil = zero value of the type).
type Value struct {
	N uint64
	P any
}

type Agg struct{ f []Value }    // struct, array, tuple
type SliceV struct{ a []Value } // slice (len/cap native)
type SStr struct{ b []Value }   // string with symbolic bytes
type FuncV struct {
	fn  *ssa.Function
	env []Value
	blt *ssa.Builtin
}
type IfaceV struct {
	t types.Type
	v Value
}
type mapEnt struct {
	k, v Value
	dead bool
}
type MapV struct {
	idx  map[string]int
	ents []mapEnt
	n    int
}
type ChanV struct {
	cap    int
	q      []Value
	sendq  []*chanSend
	recvw  int // receivers currently blocked
	closed bool
}
type chanSend struct {
	v     Value
	taken bool
}
type RangeIter struct {
	m    *MapV
	i    int
	s    []Value // string bytes
	str  bool
	keys []int
}

func (v Value) T() *Term {
	t, _ := v.P.(*Term)
	return t
}

func boolV(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}
func intV(i int64) Value { return Value{N: uint64(i)} }
func strV(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{P: s}
}

func strLen(v Value) int {
	switch p := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(p)
	case *SStr:
		return len(p.b)
	}
	panic(engErr(fmt.Sprintf("strLen of %T", v.P)))
}

func strBytes(v Value) []Value {
	switch p := v.P.(type) {
	case nil:
		return nil
	case string:
		r := make([]Value, len(p))
		for i := 0; i < len(p); i++ {
			r[i].N = uint64(p[i])
		}
		return r
	case *SStr:
		return p.b
	}
	panic(engErr(fmt.Sprintf("strBytes of %T", v.P)))
}

func strByte(v Value, i int) Value {
	switch p := v.P.(type) {
	case string:
		return Value{N: uint64(p[i])}
	case *SStr:
		return p.b[i]
	}
	panic(engErr("strByte"))
}

// mkStr builds a string value from bytes (copying).
func mkStr(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	conc := true
	for i := range b {
		if b[i].P != nil {
			conc = false
			break
		}
	}
	if conc {
		r := make([]byte, len(b))
		for i := range b {
			r[i] = byte(b[i].N)
		}
		return Value{P: string(r)}
	}
	return Value{P: &SStr{b: append([]Value(nil), b...)}}
}

func subStr(v Value, i, j int) Value {
	if i == j {
		return Value{}
	}
	switch p := v.P.(type) {
	case string:
		return Value{P: p[i:j]}
	case *SStr:
		return mkStr(p.b[i:j])
	}
	panic(engErr("subStr"))
}

func concStr(v Value) (string, bool) {
	switch p := v.P.(type) {
	case nil:
		return "", true
	case string:
		return p, true
	}
	return "", false
}

func sliceElems(v Value) []Value {
	if v.P == nil {
		return nil
	}
	return v.P.(*SliceV).a
}

func copyVal(v Value) Value {
	if a, ok := v.P.(*Agg); ok {
		n := &Agg{f: make([]Value, len(a.f))}
		for i := range a.f {
			if _, ok := a.f[i].P.(*Agg); ok {
				n.f[i] = copyVal(a.f[i])
			} else {
				n.f[i] = a.f[i]
			}
		}
		return Value{P: n}
	}
	return v
}

// storeInto keeps the identity of an aggregate's slots.
func storeInto(slot *Value, v Value) {
	if src, ok := v.P.(*Agg); ok {
		if dst, ok := slot.P.(*Agg); ok {
			if dst == src {
				return
			}
			for i := range src.f {
				storeInto(&dst.f[i], src.f[i])
			}
			return
		}
		*slot = copyVal(v)
		return
	}
	*slot = v
}

type kind uint8

const (
	kInt kind = iota
	kBool
	kString
	kFloat
	kPtr
	kAgg
	kSlice
	kMap
	kChan
	kIface
	kFunc
	kOther
)

type tinfo struct {
	k      kind
	w      uint8
	signed bool
	zero   Value // template (copy if agg)
	elem   types.Type
}

func typeInfo(t types.Type) tinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tinfo{k: kBool}
		case types.Int, types.Int64, types.UntypedInt:
			return tinfo{k: kInt, w: 64, signed: true}
		case types.Int8:
			return tinfo{k: kInt, w: 8, signed: true}
		case types.Int16:
			return tinfo{k: kInt, w: 16, signed: true}
		case types.Int32, types.UntypedRune:
			return tinfo{k: kInt, w: 32, signed: true}
		case types.Uint, types.Uint64, types.Uintptr:
			return tinfo{k: kInt, w: 64}
		case types.Uint8:
			return tinfo{k: kInt, w: 8}
		case types.Uint16:
			return tinfo{k: kInt, w: 16}
		case types.Uint32:
			return tinfo{k: kInt, w: 32}
		case types.String, types.UntypedString:
			return tinfo{k: kString}
		case types.Float32, types.Float64, types.UntypedFloat:
			return tinfo{k: kFloat, w: 64}
		}
		return tinfo{k: kOther}
	case *types.Pointer:
		return tinfo{k: kPtr}
	case *types.Struct:
		a := &Agg{f: make([]Value, u.NumFields())}
		for i := range a.f {
			a.f[i] = zeroOf(u.Field(i).Type())
		}
		return tinfo{k: kAgg, zero: Value{P: a}}
	case *types.Array:
		a := &Agg{f: make([]Value, u.Len())}
		for i := range a.f {
			a.f[i] = zeroOf(u.Elem())
		}
		return tinfo{k: kAgg, zero: Value{P: a}}
	case *types.Tuple:
		a := &Agg{f: make([]Value, u.Len())}
		for i := range a.f {
			a.f[i] = zeroOf(u.At(i).Type())
		}
		return tinfo{k: kAgg, zero: Value{P: a}}
	case *types.Slice:
		return tinfo{k: kSlice, elem: u.Elem()}
	case *types.Map:
		return tinfo{k: kMap}
	case *types.Chan:
		return tinfo{k: kChan}
	case *types.Interface:
		return tinfo{k: kIface}
	case *types.Signature:
		return tinfo{k: kFunc}
	}
	return tinfo{k: kOther}
}

func zeroOf(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct, *types.Array, *types.Tuple:
		return typeInfo(u.(types.Type)).zero
	}
	return Value{}
}
