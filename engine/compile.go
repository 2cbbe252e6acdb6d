package main

import (
	"go/constant"
	"go/types"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	kReg opKind = iota
	kConst
	kNone
	kGlobal
)

type operand struct {
	kind opKind
	reg  int
	val  Value
}

type instr struct {
	in  ssa.Instruction
	dst int
	ops []operand
	t   types.Type // type of the result or of the accessed data
	x   interface{}
}

type Func struct {
	body   sync.Once
	fn     *ssa.Function
	blocks [][]instr
	nregs  int
	params []int
	fvs    []int
	used   int32
	intr   intrinsic
	name   string
	once   sync.Once
}

type Shared struct {
	prog    *ssa.Program
	funcs   sync.Map // *ssa.Function -> *Func
	globals map[*ssa.Global]Ptr
	cfg     *RunCfg
	q       *workQueue
	stats   Stats
	used    sync.Map
	convMu  sync.Mutex
	errStr  types.Type // *errors.errorString
	initSt  *State
	harnPkg *ssa.Package
}

type Stats struct {
	instrs, forks, decisions, paths, asserts, assumeKilled int64
	unsupported, limit, violations, unknown                int64
}

func (sh *Shared) fn(f *ssa.Function) *Func {
	if v, ok := sh.funcs.Load(f); ok {
		cf := v.(*Func)
		cf.once.Do(func() { sh.compile(cf) })
		return cf
	}
	v, _ := sh.funcs.LoadOrStore(f, &Func{fn: f})
	cf := v.(*Func)
	cf.once.Do(func() { sh.compile(cf) })
	return cf
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func (sh *Shared) compile(cf *Func) {
	f := cf.fn
	cf.name = fnName(f)
	if in, ok := intrinsics[cf.name]; ok {
		cf.intr = in
		return
	}
	if sh.harnPkg != nil && f.Pkg == sh.harnPkg {
		if in, ok := intrinsics["@"+f.Name()]; ok && f.Signature.Recv() == nil {
			cf.intr = in
			return
		}
	}
	if in := genericIntrinsic(f, cf.name); in != nil {
		cf.intr = in
		return
	}
	if f.Blocks == nil {
		return
	}
	sh.compileBody(cf)
}

func (sh *Shared) compileBody(cf *Func) {
	f := cf.fn
	regs := map[ssa.Value]int{}
	n := 0
	alloc := func(v ssa.Value) int {
		r := n
		regs[v] = r
		n++
		return r
	}
	for _, p := range f.Params {
		cf.params = append(cf.params, alloc(p))
	}
	for _, p := range f.FreeVars {
		cf.fvs = append(cf.fvs, alloc(p))
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	cf.blocks = make([][]instr, len(f.Blocks))
	for bi, b := range f.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			ins := instr{in: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				ins.dst = regs[v]
				ins.t = v.Type()
			}
			var buf [8]*ssa.Value
			for _, op := range i.Operands(buf[:0]) {
				ins.ops = append(ins.ops, sh.operand(*op, regs))
			}
			cf.blocks[bi] = append(cf.blocks[bi], ins)
		}
	}
	cf.nregs = n
}

func (sh *Shared) operand(v ssa.Value, regs map[ssa.Value]int) operand {
	switch v := v.(type) {
	case nil:
		return operand{kind: kNone}
	case *ssa.Const:
		return operand{kind: kConst, val: constVal(v)}
	case *ssa.Global:
		p, ok := sh.globals[v]
		if !ok {
			return operand{kind: kNone, val: Opaque{"global " + v.String()}}
		}
		return operand{kind: kConst, val: p}
	case *ssa.Function:
		return operand{kind: kConst, val: &FuncV{fn: v}}
	case *ssa.Builtin:
		return operand{kind: kConst, val: &FuncV{bi: v}}
	}
	r, ok := regs[v]
	if !ok {
		unsup("no register for %v", v)
	}
	return operand{kind: kReg, reg: r}
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return safeZero(c.Type())
	}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			if v, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
				return mkConst(intWidth(u), v)
			}
			v, _ := constant.Int64Val(constant.ToInt(c.Value))
			return mkConst(intWidth(u), uint64(v))
		case u.Info()&types.IsString != 0:
			return StrV{s: constant.StringVal(c.Value)}
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return FloatV(f)
		}
	}
	return Opaque{"const " + c.String()}
}

func safeZero(t types.Type) (v Value) {
	defer func() {
		if r := recover(); r != nil {
			v = Opaque{"zero of " + t.String()}
		}
	}()
	return zeroOf(t)
}

func (f *Frame) get(o *operand) Value {
	if o.kind == kReg {
		v := f.regs[o.reg]
		return v
	}
	if o.kind == kNone {
		if o.val != nil {
			unsup("%v", o.val)
		}
		return nil
	}
	return o.val
}

func (sh *Shared) touch(cf *Func) {
	if atomic.LoadInt32(&cf.used) == 0 {
		atomic.StoreInt32(&cf.used, 1)
		sh.used.Store(cf.name, true)
	}
}
