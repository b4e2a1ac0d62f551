package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	oReg opKind = iota
	oConst
	oGlobal
)

type operand struct {
	k   opKind
	idx int
	v   Value
}

type icode uint8

const (
	iAlloc icode = iota
	iBinOp
	iCall
	iChangeType
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iMakeClosure
	iMakeIface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSelect
	iSend
	iSlice
	iSliceToArr
	iStore
	iTypeAssert
	iDeref
	iRecv
	iNot
	iNeg
	iCompl
	iChangeIface
	iNop
)

type inst struct {
	op   icode
	dst  int
	x, y operand
	z, c operand
	xs   []operand
	ti   tinfo // type info of the result or of the operand, op dependent
	ti2  tinfo
	n    int
	tok  token.Token
	typ  types.Type
	flag bool
	in   ssa.Instruction
	call *callInfo
}

type callInfo struct {
	fn      *ssa.Function // static
	cf      *cfunc
	blt     string
	bltType types.Type
	method  *types.Func // invoke
	recv    operand
	fnOp    operand
	args    []operand
	hasRes  bool
}

type phi struct {
	dst   int
	edges []operand
	ti    tinfo
}

type cblock struct {
	idx     int
	phis    []phi
	insts   []inst
	succs   []int
	preds   []int
	pure    bool // only speculatable instructions followed by jump/return/if
	last    *inst
	bigSucc bool
}

type cfunc struct {
	fn     *ssa.Function
	name   string
	nregs  int
	params []int
	fvs    []int
	blocks []cblock
	nat    intrinsic
	recov  int // recover block index or -1
	pool   [][]Value
	isVf   bool
	resTi  []tinfo
}

func (m *Machine) cfuncOf(fn *ssa.Function) *cfunc {
	if cf, ok := m.funcs[fn]; ok {
		return cf
	}
	cf := &cfunc{fn: fn, recov: -1}
	m.funcs[fn] = cf
	cf.name = fn.String()
	if org := fn.Origin(); org != nil && org != fn {
		cf.name = org.String()
	}
	if h, ok := intrinsics[cf.name]; ok {
		cf.nat = h
		return cf
	}
	if fn.Pkg != nil && (fn.Pkg.Pkg.Path() == "fmt" || fn.Pkg.Pkg.Path() == "log") {
		cf.nat = nil
	}
	if fn.Blocks == nil {
		return cf
	}
	m.encoded[cf.name] = true
	reg := map[ssa.Value]int{}
	newReg := func(v ssa.Value) int {
		i := cf.nregs
		reg[v] = i
		cf.nregs++
		return i
	}
	for _, p := range fn.Params {
		cf.params = append(cf.params, newReg(p))
	}
	for _, p := range fn.FreeVars {
		cf.fvs = append(cf.fvs, newReg(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				newReg(v)
			}
		}
	}
	opd := func(v ssa.Value) operand {
		if v == nil {
			return operand{k: oConst}
		}
		switch v := v.(type) {
		case *ssa.Const:
			return operand{k: oConst, v: constVal(v)}
		case *ssa.Global:
			return operand{k: oGlobal, idx: m.globalIdx(v)}
		case *ssa.Function:
			return operand{k: oConst, v: Value{P: &FuncV{fn: v}}}
		case *ssa.Builtin:
			return operand{k: oConst, v: Value{P: &FuncV{blt: v}}}
		}
		r, ok := reg[v]
		if !ok {
			panic(engErr("no register for " + v.String()))
		}
		return operand{k: oReg, idx: r}
	}
	cf.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &cf.blocks[bi]
		cb.idx = bi
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		pure := true
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				ph := phi{dst: reg[p], ti: typeInfo(p.Type())}
				for _, e := range p.Edges {
					ph.edges = append(ph.edges, opd(e))
				}
				cb.phis = append(cb.phis, ph)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := m.compileInst(in, opd, reg)
			switch ci.op {
			case iBinOp, iNot, iNeg, iCompl, iDeref, iFieldAddr, iField, iExtract, iConvert, iChangeType, iIndexAddr, iIndex, iStore, iJump, iIf, iReturn, iNop:
			default:
				pure = false
			}
			cb.insts = append(cb.insts, ci)
		}
		if len(cb.insts) > 16 {
			pure = false
		}
		cb.pure = pure
		if len(cb.insts) > 0 {
			cb.last = &cb.insts[len(cb.insts)-1]
		}
	}
	if fn.Recover != nil {
		cf.recov = fn.Recover.Index
	}
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		cf.resTi = append(cf.resTi, typeInfo(res.At(i).Type()))
	}
	return cf
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		z := zeroOf(c.Type())
		return z
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return boolV(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			return strV(constant.StringVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			ti := typeInfo(t)
			v := constant.ToInt(c.Value)
			if u, ok := constant.Uint64Val(v); ok {
				return Value{N: u & mask(ti.w)}
			}
			i, _ := constant.Int64Val(v)
			return Value{N: uint64(i) & mask(ti.w)}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return Value{N: math.Float64bits(f)}
		}
	}
	if _, ok := t.(*types.Interface); ok {
		return Value{}
	}
	return Value{P: opaque{"const " + c.String()}}
}

type opaque struct{ why string }

func (m *Machine) compileInst(in ssa.Instruction, opd func(ssa.Value) operand, reg map[ssa.Value]int) inst {
	ci := inst{in: in, dst: -1}
	if v, ok := in.(ssa.Value); ok {
		ci.dst = reg[v]
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		ci.op = iAlloc
		ci.ti = typeInfo(in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		ci.op = iBinOp
		ci.tok = in.Op
		ci.x, ci.y = opd(in.X), opd(in.Y)
		ci.ti = typeInfo(in.X.Type())
		ci.ti2 = typeInfo(in.Y.Type())
		ci.typ = in.X.Type()
	case *ssa.UnOp:
		ci.x = opd(in.X)
		ci.ti = typeInfo(in.X.Type())
		switch in.Op {
		case token.MUL:
			ci.op = iDeref
			ci.ti = typeInfo(in.Type())
		case token.ARROW:
			ci.op = iRecv
			ci.flag = in.CommaOk
			ci.ti = typeInfo(in.X.Type().Underlying().(*types.Chan).Elem())
		case token.NOT:
			ci.op = iNot
		case token.SUB:
			ci.op = iNeg
		case token.XOR:
			ci.op = iCompl
		default:
			panic(engErr("unop " + in.String()))
		}
	case *ssa.Call:
		if f, ok := in.Call.Value.(*ssa.Function); ok && f.Synthetic == "package initializer" {
			ci.op = iNop
			return ci
		}
		ci.op = iCall
		ci.call = m.compileCall(&in.Call, opd)
	case *ssa.Go:
		ci.op = iGo
		ci.call = m.compileCall(&in.Call, opd)
	case *ssa.Defer:
		ci.op = iDefer
		ci.call = m.compileCall(&in.Call, opd)
	case *ssa.ChangeType:
		ci.op = iChangeType
		ci.x = opd(in.X)
	case *ssa.ChangeInterface:
		ci.op = iChangeType
		ci.x = opd(in.X)
	case *ssa.Convert:
		ci.op = iConvert
		ci.x = opd(in.X)
		ci.ti = typeInfo(in.Type())
		ci.ti2 = typeInfo(in.X.Type())
		ci.typ = in.X.Type()
	case *ssa.MultiConvert:
		ci.op = iConvert
		ci.x = opd(in.X)
		ci.ti = typeInfo(in.Type())
		ci.ti2 = typeInfo(in.X.Type())
		ci.typ = in.X.Type()
	case *ssa.Extract:
		ci.op = iExtract
		ci.x = opd(in.Tuple)
		ci.n = in.Index
	case *ssa.Field:
		ci.op = iField
		ci.x = opd(in.X)
		ci.n = in.Field
	case *ssa.FieldAddr:
		ci.op = iFieldAddr
		ci.x = opd(in.X)
		ci.n = in.Field
		ci.ti = typeInfo(in.X.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.If:
		ci.op = iIf
		ci.x = opd(in.Cond)
	case *ssa.Jump:
		ci.op = iJump
	case *ssa.Index:
		ci.op = iIndex
		ci.x, ci.y = opd(in.X), opd(in.Index)
		ci.ti = typeInfo(in.X.Type())
		ci.ti2 = typeInfo(in.Index.Type())
		if t := typeInfo(in.Type()); t.k == kInt || t.k == kBool {
			ci.flag = true
			ci.n = int(t.w)
		}
	case *ssa.IndexAddr:
		ci.op = iIndexAddr
		ci.x, ci.y = opd(in.X), opd(in.Index)
		ci.ti = typeInfo(in.X.Type())
		ci.ti2 = typeInfo(in.Index.Type())
		// only read, by the next instruction?
		et := in.Type().Underlying().(*types.Pointer).Elem()
		if et := typeInfo(et); et.k == kInt || et.k == kBool {
			ci.n = int(et.w)
			if rs := *in.Referrers(); len(rs) == 1 {
				if u, ok := rs[0].(*ssa.UnOp); ok && u.Op == token.MUL && u.Block() == in.Block() {
					for i, x := range in.Block().Instrs {
						if x == ssa.Instruction(in) && i+1 < len(in.Block().Instrs) && in.Block().Instrs[i+1] == ssa.Instruction(u) {
							ci.flag = true
						}
					}
				}
			}
		}
	case *ssa.Lookup:
		ci.op = iLookup
		ci.x, ci.y = opd(in.X), opd(in.Index)
		ci.ti = typeInfo(in.X.Type())
		ci.flag = in.CommaOk
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			ci.typ = mt.Elem()
			ci.ti2 = typeInfo(mt.Key())
		} else {
			ci.op = iIndex
			ci.ti2 = typeInfo(in.Index.Type())
		}
	case *ssa.MakeChan:
		ci.op = iMakeChan
		ci.x = opd(in.Size)
	case *ssa.MakeClosure:
		ci.op = iMakeClosure
		ci.x = operand{k: oConst, v: Value{P: &FuncV{fn: in.Fn.(*ssa.Function)}}}
		for _, b := range in.Bindings {
			ci.xs = append(ci.xs, opd(b))
		}
	case *ssa.MakeInterface:
		ci.op = iMakeIface
		ci.x = opd(in.X)
		ci.typ = in.X.Type()
	case *ssa.MakeMap:
		ci.op = iMakeMap
	case *ssa.MakeSlice:
		ci.op = iMakeSlice
		ci.x, ci.y = opd(in.Len), opd(in.Cap)
		ci.ti = typeInfo(in.Type().Underlying().(*types.Slice).Elem())
	case *ssa.MapUpdate:
		ci.op = iMapUpdate
		ci.x, ci.y, ci.z = opd(in.Map), opd(in.Key), opd(in.Value)
	case *ssa.Next:
		ci.op = iNext
		ci.x = opd(in.Iter)
		ci.flag = in.IsString
	case *ssa.Panic:
		ci.op = iPanic
		ci.x = opd(in.X)
	case *ssa.Range:
		ci.op = iRange
		ci.x = opd(in.X)
		ci.ti = typeInfo(in.X.Type())
	case *ssa.Return:
		ci.op = iReturn
		for _, r := range in.Results {
			ci.xs = append(ci.xs, opd(r))
		}
	case *ssa.RunDefers:
		ci.op = iRunDefers
	case *ssa.Select:
		ci.op = iSelect
		ci.flag = in.Blocking
		for _, st := range in.States {
			ci.xs = append(ci.xs, opd(st.Chan))
			if st.Send != nil {
				ci.xs = append(ci.xs, opd(st.Send))
			} else {
				ci.xs = append(ci.xs, operand{k: oConst})
			}
		}
	case *ssa.Send:
		ci.op = iSend
		ci.x, ci.y = opd(in.Chan), opd(in.X)
	case *ssa.Slice:
		ci.op = iSlice
		ci.x, ci.y, ci.z, ci.c = opd(in.X), opd(in.Low), opd(in.High), opd(in.Max)
		ci.ti = typeInfo(in.X.Type())
		n := 0
		if in.Low != nil {
			n |= 1
		}
		if in.High != nil {
			n |= 2
		}
		if in.Max != nil {
			n |= 4
		}
		ci.n = n
	case *ssa.SliceToArrayPointer:
		ci.op = iSliceToArr
		ci.x = opd(in.X)
		ci.n = int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	case *ssa.Store:
		ci.op = iStore
		ci.x, ci.y = opd(in.Addr), opd(in.Val)
	case *ssa.TypeAssert:
		ci.op = iTypeAssert
		ci.x = opd(in.X)
		ci.typ = in.AssertedType
		ci.flag = in.CommaOk
	case *ssa.DebugRef:
		ci.op = iNop
	default:
		panic(engErr(fmt.Sprintf("unsupported SSA instruction %T in %s", in, in.Parent())))
	}
	return ci
}

func (m *Machine) compileCall(c *ssa.CallCommon, opd func(ssa.Value) operand) *callInfo {
	ci := &callInfo{}
	for _, a := range c.Args {
		ci.args = append(ci.args, opd(a))
	}
	if c.IsInvoke() {
		ci.method = c.Method
		ci.recv = opd(c.Value)
		return ci
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		ci.fn = f
	case *ssa.Builtin:
		ci.blt = f.Name()
		if len(c.Args) > 0 {
			ci.bltType = c.Args[0].Type()
		}
	default:
		ci.fnOp = opd(c.Value)
	}
	return ci
}
