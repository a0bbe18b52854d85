package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Opc uint8

const (
	iBin Opc = iota
	iBinStr
	iEq // generic ==, with t
	iNe
	iNot
	iNeg
	iXorUn
	iLoad
	iStore
	iAlloc
	iFieldAddr
	iField
	iIndexAddr
	iIndex
	iIndexStr
	iLookup
	iLookupStr
	iMakeIface
	iMakeClosure
	iMakeMap
	iMakeSlice
	iSlice
	iConvert
	iMove
	iChangeIface
	iTypeAssert
	iExtract
	iRange
	iNext
	iJump
	iIf
	iReturn
	iRunDefers
	iPanic
	iDefer
	iCall
	iCallDyn
	iInvoke
	iBuiltin
	iMapUpdate
	iUnsupported
	iSliceToArr
	iFloatBin
)

type move struct{ dst, src int32 }

type edge struct {
	pc    int32
	moves []move
	tmp   bool
}

type Ins struct {
	op      Opc
	w       uint8
	sg      bool
	commaOk bool
	tok     token.Token
	dst     int32
	a, b, c int32
	d       int32
	n       int
	t, t2   *RType
	fn      *Func
	args    []int32
	e1, e2  edge
	name    string
	pos     token.Pos
	meth    *types.Func
	cache   *sync.Map
	src     ssa.Instruction
	merge   *mergeInfo
}

type Func struct {
	eng      *Engine
	f        *ssa.Function
	name     string
	once     sync.Once
	code     []Ins
	consts   []V
	nregs    int
	nparams  int
	nfv      int
	hasDef   bool
	recPC    int // pc of recover block, -1 if none
	intr     func(m *M, args []V) V
	clIntr   func(m *M, c *Closure, args []V) (V, bool)
	bad      string
	pkg      string
	id       int
	isTarget bool
	ninstr   int
}

func (e *Engine) fnOf(f *ssa.Function) *Func {
	e.fmu.Lock()
	defer e.fmu.Unlock()
	if x, ok := e.fns[f]; ok {
		return x
	}
	x := &Func{eng: e, f: f, name: f.String(), recPC: -1, id: len(e.fnList)}
	if f.Pkg != nil {
		x.pkg = f.Pkg.Pkg.Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		x.pkg = o.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		x.pkg = f.Object().Pkg().Path()
	}
	x.isTarget = strings.HasPrefix(x.pkg, targetPrefix)
	if in, ok := intrinsics[x.name]; ok {
		x.intr = in
	} else if o := f.Origin(); o != nil {
		if in, ok := intrinsics[o.String()]; ok {
			x.intr = in
		}
	}
	if f.Synthetic == "package initializer" && !allowInit(x.pkg) {
		x.intr = func(m *M, args []V) V { return V{} }
	}
	x.clIntr = closureIntrinsic(x.name)
	e.fns[f] = x
	e.fnList = append(e.fnList, x)
	return x
}

func (f *Func) ensure() {
	f.once.Do(func() { f.compile() })
}

type compiler struct {
	f       *Func
	eng     *Engine
	regs    map[ssa.Value]int32
	cidx    map[string]int32
	blkPC   map[*ssa.BasicBlock]int
	fix     []func()
	scratch int32
}

func (f *Func) compile() {
	sf := f.f
	f.nparams = len(sf.Params)
	f.nfv = len(sf.FreeVars)
	if sf.Blocks == nil {
		f.bad = "no body: " + f.name
		return
	}
	c := &compiler{f: f, eng: f.eng, regs: map[ssa.Value]int32{}, cidx: map[string]int32{}, blkPC: map[*ssa.BasicBlock]int{}}
	n := int32(0)
	for _, p := range sf.Params {
		c.regs[p] = n
		n++
	}
	for _, p := range sf.FreeVars {
		c.regs[p] = n
		n++
	}
	for _, b := range sf.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.regs[v] = n
				n++
			}
			switch in.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				f.hasDef = true
			}
			f.ninstr++
		}
	}
	f.nregs = int(n)
	var edges []struct {
		e        *edge
		from, to *ssa.BasicBlock
		pc       int
		which    int
	}
	for _, b := range sf.Blocks {
		c.blkPC[b] = len(f.code)
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			i := c.ins(in)
			f.code = append(f.code, i)
			pc := len(f.code) - 1
			switch in.(type) {
			case *ssa.Jump:
				edges = append(edges, struct {
					e        *edge
					from, to *ssa.BasicBlock
					pc       int
					which    int
				}{nil, b, b.Succs[0], pc, 0})
			case *ssa.If:
				for k := 0; k < 2; k++ {
					edges = append(edges, struct {
						e        *edge
						from, to *ssa.BasicBlock
						pc       int
						which    int
					}{nil, b, b.Succs[k], pc, k})
				}
			}
		}
	}
	for _, e := range edges {
		ed := edge{pc: int32(c.blkPC[e.to])}
		// which predecessor index? with duplicate preds pick matching occurrence
		pi := -1
		occ := 0
		if e.which == 1 && e.from.Succs[0] == e.to {
			occ = 1
		}
		for k, p := range e.to.Preds {
			if p == e.from {
				if occ == 0 {
					pi = k
					break
				}
				occ--
			}
		}
		for _, in := range e.to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			src := c.opd(ph.Edges[pi])
			dst := c.regs[ph]
			if src != dst {
				ed.moves = append(ed.moves, move{dst, src})
			}
		}
		for i, mv := range ed.moves {
			for j := 0; j < i; j++ {
				if ed.moves[j].dst == mv.src {
					ed.tmp = true
				}
			}
		}
		if e.which == 0 {
			f.code[e.pc].e1 = ed
		} else {
			f.code[e.pc].e2 = ed
		}
	}
	if sf.Recover != nil {
		f.recPC = c.blkPC[sf.Recover]
	}
	findMerges(f, c)
}

func (c *compiler) addConst(key string, v V) int32 {
	if i, ok := c.cidx[key]; ok {
		return ^i
	}
	i := int32(len(c.f.consts))
	c.f.consts = append(c.f.consts, v)
	c.cidx[key] = i
	return ^i
}

func (c *compiler) opd(v ssa.Value) int32 {
	if r, ok := c.regs[v]; ok {
		return r
	}
	switch x := v.(type) {
	case *ssa.Const:
		rt := c.eng.types.get(x.Type())
		cv := constV(x, rt)
		return c.addConst(fmt.Sprintf("c%d:%v", rt.id, x.Value), cv)
	case *ssa.Function:
		fn := c.eng.fnOf(x)
		return c.addConst("f"+fmt.Sprint(fn.id), V{p: &Closure{f: fn}})
	case *ssa.Global:
		gi := c.eng.globalIdx(x)
		return c.addConst(fmt.Sprintf("g%d", gi), V{n: uint64(gi), p: globalRef{}})
	case *ssa.Builtin:
		return c.addConst("b"+x.Name(), V{})
	}
	panic(fmt.Sprintf("operand %T in %s", v, c.f.name))
}

type globalRef struct{}

func constV(x *ssa.Const, rt *RType) V {
	if x.Value == nil {
		return V{}
	}
	switch rt.kind {
	case KBool:
		return boolV(constant.BoolVal(x.Value))
	case KInt:
		v := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(v); ok {
			return V{n: uint64(i) & mask(rt.w)}
		}
		u, _ := constant.Uint64Val(v)
		return V{n: u & mask(rt.w)}
	case KFloat:
		f, _ := constant.Float64Val(constant.ToFloat(x.Value))
		if rt.w == 32 {
			f = float64(float32(f))
		}
		return V{n: math.Float64bits(f)}
	case KString:
		return str(constant.StringVal(x.Value))
	case KPtr:
		if x.Value != nil {
			i, _ := constant.Int64Val(constant.ToInt(x.Value))
			return V{n: uint64(i)}
		}
	case KIface, KComplex:
		return V{p: poison{"const of kind"}}
	}
	return V{}
}

type poison struct{ why string }

func (c *compiler) rt(t types.Type) *RType { return c.eng.types.get(t) }

func (c *compiler) ins(in ssa.Instruction) Ins {
	o := Ins{pos: in.Pos(), src: in, dst: -1}
	if v, ok := in.(ssa.Value); ok {
		o.dst = c.regs[v]
	}
	switch x := in.(type) {
	case *ssa.BinOp:
		o.a, o.b = c.opd(x.X), c.opd(x.Y)
		t := c.rt(x.X.Type())
		o.t = t
		o.tok = x.Op
		o.w, o.sg = t.w, t.signed
		switch t.kind {
		case KInt:
			o.op = iBin
			if x.Op == token.SHL || x.Op == token.SHR {
				t2 := c.rt(x.Y.Type())
				o.t2 = t2
			}
		case KString:
			o.op = iBinStr
		case KFloat:
			o.op = iFloatBin
		case KBool:
			switch x.Op {
			case token.EQL:
				o.op = iEq
			case token.NEQ:
				o.op = iNe
			default:
				o.op = iBin
			}
		default:
			switch x.Op {
			case token.EQL:
				o.op = iEq
			case token.NEQ:
				o.op = iNe
			default:
				o.op, o.name = iUnsupported, "binop on "+t.String()
			}
			// comparison of interface with concrete: both sides same static type in SSA
		}
	case *ssa.UnOp:
		o.a = c.opd(x.X)
		t := c.rt(x.X.Type())
		o.t = t
		switch x.Op {
		case token.MUL:
			o.op = iLoad
			o.t = c.rt(x.Type())
		case token.NOT:
			o.op = iNot
		case token.SUB:
			o.op, o.w = iNeg, t.w
		case token.XOR:
			o.op, o.w = iXorUn, t.w
		default:
			o.op, o.name = iUnsupported, "unop "+x.Op.String()
		}
	case *ssa.Alloc:
		o.op = iAlloc
		o.t = c.rt(x.Type().Underlying().(*types.Pointer).Elem())
		o.name = x.Comment
	case *ssa.Store:
		o.op = iStore
		o.a, o.b = c.opd(x.Addr), c.opd(x.Val)
		o.t = c.rt(x.Val.Type())
	case *ssa.FieldAddr:
		o.op = iFieldAddr
		o.a = c.opd(x.X)
		st := c.rt(x.X.Type().Underlying().(*types.Pointer).Elem())
		o.n = st.fields[x.Field].off
	case *ssa.Field:
		o.op = iField
		o.a = c.opd(x.X)
		st := c.rt(x.X.Type())
		o.n = st.fields[x.Field].off
		o.t = st.fields[x.Field].t
		o.t2 = st
	case *ssa.IndexAddr:
		o.op = iIndexAddr
		o.a, o.b = c.opd(x.X), c.opd(x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			o.t = c.rt(u.Elem())
			o.n = -1
		case *types.Pointer:
			at := c.rt(u.Elem())
			o.t = at.elem
			o.n = at.n
		}
		o.t2 = c.rt(x.Index.Type())
	case *ssa.Index:
		o.a, o.b = c.opd(x.X), c.opd(x.Index)
		t := c.rt(x.X.Type())
		if t.kind == KString {
			o.op = iIndexStr
		} else {
			o.op = iIndex
		}
		o.t = t
		o.t2 = c.rt(x.Index.Type())
	case *ssa.Lookup:
		o.a, o.b = c.opd(x.X), c.opd(x.Index)
		t := c.rt(x.X.Type())
		o.t = t
		o.t2 = c.rt(x.Index.Type())
		o.commaOk = x.CommaOk
		if t.kind == KString {
			o.op = iIndexStr
		} else {
			o.op = iLookup
		}
	case *ssa.MakeInterface:
		o.op = iMakeIface
		o.a = c.opd(x.X)
		o.t = c.rt(x.X.Type())
	case *ssa.MakeClosure:
		o.op = iMakeClosure
		o.fn = c.eng.fnOf(x.Fn.(*ssa.Function))
		for _, b := range x.Bindings {
			o.args = append(o.args, c.opd(b))
		}
	case *ssa.MakeMap:
		o.op = iMakeMap
		o.t = c.rt(x.Type())
	case *ssa.MakeSlice:
		o.op = iMakeSlice
		o.a, o.b = c.opd(x.Len), c.opd(x.Cap)
		o.t = c.rt(x.Type())
		o.t = c.rt(x.Type().Underlying().(*types.Slice).Elem())
	case *ssa.Slice:
		o.op = iSlice
		o.a = c.opd(x.X)
		o.b, o.c, o.d = noReg, noReg, noReg
		if x.Low != nil {
			o.b = c.opd(x.Low)
		}
		if x.High != nil {
			o.c = c.opd(x.High)
		}
		if x.Max != nil {
			o.d = c.opd(x.Max)
		}
		o.t = c.rt(x.X.Type())
		switch u := x.X.Type().Underlying().(type) {
		case *types.Pointer:
			o.t2 = c.rt(u.Elem()) // array
		case *types.Slice:
			o.t2 = c.rt(u.Elem())
		}
	case *ssa.Convert:
		o.op = iConvert
		o.a = c.opd(x.X)
		o.t, o.t2 = c.rt(x.X.Type()), c.rt(x.Type())
	case *ssa.MultiConvert:
		o.op = iConvert
		o.a = c.opd(x.X)
		o.t, o.t2 = c.rt(x.X.Type()), c.rt(x.Type())
	case *ssa.ChangeType:
		o.op = iMove
		o.a = c.opd(x.X)
	case *ssa.ChangeInterface:
		o.op = iMove
		o.a = c.opd(x.X)
	case *ssa.TypeAssert:
		o.op = iTypeAssert
		o.a = c.opd(x.X)
		o.t = c.rt(x.AssertedType)
		o.commaOk = x.CommaOk
		o.cache = &sync.Map{}
		o.n = 0
		if isIfaceType(x.AssertedType) {
			o.n = 1
		}
		o.name = c.rt(x.X.Type()).String()
	case *ssa.Extract:
		o.op = iExtract
		o.a = c.opd(x.Tuple)
		o.n = x.Index
	case *ssa.Range:
		o.op = iRange
		o.a = c.opd(x.X)
		o.t = c.rt(x.X.Type())
	case *ssa.Next:
		o.op = iNext
		o.a = c.opd(x.Iter)
	case *ssa.Jump:
		o.op = iJump
	case *ssa.If:
		o.op = iIf
		o.a = c.opd(x.Cond)
	case *ssa.Return:
		o.op = iReturn
		for _, r := range x.Results {
			o.args = append(o.args, c.opd(r))
		}
	case *ssa.RunDefers:
		o.op = iRunDefers
	case *ssa.Panic:
		o.op = iPanic
		o.a = c.opd(x.X)
	case *ssa.Defer:
		c.call(&o, &x.Call)
		k := o.op
		o.op = iDefer
		o.n = int(k)
	case *ssa.Call:
		c.call(&o, &x.Call)
	case *ssa.MapUpdate:
		o.op = iMapUpdate
		o.a, o.b, o.c = c.opd(x.Map), c.opd(x.Key), c.opd(x.Value)
	case *ssa.SliceToArrayPointer:
		o.op = iSliceToArr
		o.a = c.opd(x.X)
		o.t = c.rt(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Phi, *ssa.DebugRef:
	default:
		o.op, o.name = iUnsupported, fmt.Sprintf("%T", in)
	}
	return o
}

const noReg = int32(1 << 30)

func (c *compiler) call(o *Ins, cc *ssa.CallCommon) {
	for _, a := range cc.Args {
		o.args = append(o.args, c.opd(a))
	}
	if cc.IsInvoke() {
		o.op = iInvoke
		o.a = c.opd(cc.Value)
		o.meth = cc.Method
		o.name = cc.Method.Name()
		o.cache = &sync.Map{}
		return
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		o.op = iBuiltin
		o.name = f.Name()
		if len(cc.Args) > 0 {
			o.t = c.rt(cc.Args[0].Type())
		}
		if len(cc.Args) > 1 {
			o.t2 = c.rt(cc.Args[1].Type())
		}
		return
	case *ssa.Function:
		o.op = iCall
		o.fn = c.eng.fnOf(f)
		return
	}
	o.op = iCallDyn
	o.a = c.opd(cc.Value)
}
