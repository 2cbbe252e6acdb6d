package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Interp is one worker: it executes states of a shared exploration.
type Interp struct {
	*Shared
	solver *Solver
	id     int
	local  Stats

	locs     *locTable
	locCache map[locKey]*locInfo
}

type goPanicSig struct{ v Value }

type endKind int

const (
	endDone endKind = iota
	endAssume
	endViolation
	endUnsupported
	endLimit
	endStop
	endMerged
)

type pathEnd struct {
	kind endKind
	msg  string
}

func rtPanic(f string, a ...interface{}) {
	panic(goPanicSig{Iface{types.Typ[types.String], StrV{s: "runtime error: " + fmt.Sprintf(f, a...)}}})
}

// ---- decisions ----

// query decides whether pc ∧ c is satisfiable.
func (in *Interp) query(st *State, c *Term) (SatRes, map[int32]uint64) {
	if c.isConst() {
		if c.k == 0 {
			return Unsat, nil
		}
		return Sat, map[int32]uint64{}
	}
	return in.queryDom(st, c, false)
}

func (in *Interp) decide(st *State, c *Term) bool {
	if c.isConst() {
		return c.k == 1
	}
	if v, ok := st.lit(c); ok {
		return v
	}
	in.local.decisions++
	v := evalTerm(c, st.model) == 1
	cc, nc := c, mkNot(c)
	if !v {
		cc, nc = nc, cc
	}
	res, mod := in.query(st, nc)
	if res == Unsat {
		st.setLit(cc)
		return v
	}
	if res == Unknown {
		in.local.unknown++
		in.cfg.note("solver returned unknown on a branch: the other side was not explored")
		st.addPC(cc)
		return v
	}
	in.local.forks++
	st.forks++
	ns := st.clone()
	ns.model = ns.model.with(mod)
	ns.addPC(nc)
	st.addPC(cc)
	in.q.push(ns)
	return v
}

// assume restricts the path.
func (in *Interp) assume(st *State, c *Term) {
	if c.isConst() {
		if c.k == 0 {
			panic(pathEnd{endAssume, ""})
		}
		return
	}
	if v, ok := st.lit(c); ok {
		if !v {
			panic(pathEnd{endAssume, ""})
		}
		return
	}
	if evalTerm(c, st.model) == 1 {
		st.addPC(c)
		return
	}
	res, mod := in.query(st, c)
	switch res {
	case Sat:
		st.model = st.model.with(mod)
		st.addPC(c)
	case Unknown:
		in.local.unknown++
		in.cfg.note("solver returned unknown on an assumption")
		panic(pathEnd{endAssume, ""})
	default:
		panic(pathEnd{endAssume, ""})
	}
}

// concretize forks over the feasible values of t.
func (in *Interp) concretize(st *State, t *Term) uint64 {
	for n := 0; ; n++ {
		if t.isConst() {
			return t.k
		}
		v := evalTerm(t, st.model)
		if in.decide(st, mkEq(t, mkConst(t.w, v))) {
			return v
		}
		if n > 70000 {
			unsup("concretize diverges")
		}
	}
}

func (in *Interp) concInt(st *State, v Value, signed bool) int64 {
	t, ok := v.(*Term)
	if !ok {
		unsup("integer expected, got %T", v)
	}
	k := in.concretize(st, t)
	if signed {
		return sx(k, t.w)
	}
	return int64(k)
}

func ext64(t *Term, signed bool) *Term {
	if t.w == 64 {
		return t
	}
	if signed {
		return mkSext(t, 64)
	}
	return mkZext(t, 64)
}

// checkIndex panics (in the interpreted program) when idx is out of range.
func (in *Interp) checkIndex(st *State, idx *Term, signed bool, n int64) *Term {
	i64 := ext64(idx, signed)
	if !in.decide(st, mkUlt(i64, mkConst(64, uint64(n)))) {
		if i64.isConst() {
			rtPanic("index out of range [%d] with length %d", int64(i64.k), n)
		}
		rtPanic("index out of range with length %d", n)
	}
	return i64
}

func isScalarT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

func hasScalarOnly(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsBoolean) != 0
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !hasScalarOnly(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return hasScalarOnly(u.Elem())
	}
	return false
}

func (in *Interp) indexPtr(st *State, obj int, off int64, elem types.Type, n int64, idx *Term) Ptr {
	es := sizeofT(elem)
	if idx.isConst() {
		return Ptr{Obj: obj, Off: off + int64(idx.k)*es}
	}
	if n > 4096 || !hasScalarOnly(elem) {
		k := in.concretize(st, idx)
		return Ptr{Obj: obj, Off: off + int64(k)*es}
	}
	return Ptr{Obj: obj, Off: off, Idx: idx, Str: es, N: n}
}

func (in *Interp) concPtr(st *State, p Ptr) Ptr {
	if p.Idx == nil {
		return p
	}
	k := in.concretize(st, p.Idx)
	return Ptr{Obj: p.Obj, Off: p.Off + int64(k)*p.Str}
}

func asPtr(v Value) Ptr {
	switch p := v.(type) {
	case Ptr:
		return p
	case *Term:
		if p.isConst() && p.k == 0 {
			return Ptr{}
		}
	}
	unsup("pointer expected, got %T", v)
	return Ptr{}
}

// ---- equality ----

func (in *Interp) eq(st *State, a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		switch y := b.(type) {
		case *Term:
			if x.w != y.w {
				if x.w == 0 || y.w == 0 {
					unsup("eq width mismatch")
				}
				unsup("eq width mismatch %d %d", x.w, y.w)
			}
			return mkEq(x, y)
		case TokenV:
			return tFalse
		case Ptr: // uintptr
			if x.isConst() {
				return mkBool(x.k == 0 && isNilPtr(y))
			}
		}
	case TokenV:
		switch y := b.(type) {
		case *Term:
			return tFalse
		case TokenV:
			if x.kind == y.kind && x.t != nil && y.t != nil {
				return mkEq(x.t, y.t)
			}
			return mkBool(x == y)
		}
	case Ptr:
		if y, ok := b.(*Term); ok {
			return in.eq(st, y, x)
		}
		if y, ok := b.(*FuncV); ok {
			return mkBool(isNilPtr(x) && y == nil)
		}
		y, ok := b.(Ptr)
		if !ok {
			break
		}
		if x.Obj != y.Obj {
			return tFalse
		}
		x, y = in.concPtr(st, x), in.concPtr(st, y)
		return mkBool(x.Off == y.Off)
	case Slice:
		y := b.(Slice)
		if x.Obj == 0 || y.Obj == 0 {
			return mkBool(x.Obj == y.Obj)
		}
		unsup("slice comparison")
	case StrV:
		y := b.(StrV)
		if x.b == nil && y.b == nil {
			return mkBool(x.s == y.s)
		}
		if x.Len() != y.Len() {
			return tFalse
		}
		r := tTrue
		for i := 0; i < x.Len(); i++ {
			r = mkAnd(r, in.eq(st, x.at(i), y.at(i)))
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if x.T == nil || y.T == nil {
			return mkBool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return tFalse
		}
		return in.eq(st, x.V, y.V)
	case StructV:
		y := b.(StructV)
		r := tTrue
		for i := range x {
			r = mkAnd(r, in.eq(st, x[i], y[i]))
		}
		return r
	case ArrV:
		y := b.(ArrV)
		r := tTrue
		for i := range x {
			r = mkAnd(r, in.eq(st, x[i], y[i]))
		}
		return r
	case *FuncV:
		if p, ok := b.(Ptr); ok {
			return mkBool(x == nil && isNilPtr(p))
		}
		y := b.(*FuncV)
		if x == nil || y == nil {
			return mkBool(x == y)
		}
	case MapV:
		return mkBool(x == b.(MapV))
	case ChanV:
		return mkBool(x == b.(ChanV))
	case FloatV:
		return mkBool(x == b.(FloatV))
	}
	unsup("eq %T %T", a, b)
	return nil
}

func (in *Interp) strLess(a, b StrV) *Term {
	if a.b == nil && b.b == nil {
		return mkBool(a.s < b.s)
	}
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	r := mkBool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, ok1 := a.at(i).(*Term)
		y, ok2 := b.at(i).(*Term)
		if !ok1 || !ok2 {
			unsup("string order on tokens")
		}
		r = mkOr(mkUlt(x, y), mkAnd(mkEq(x, y), r))
	}
	return r
}

func (in *Interp) binop(st *State, op token.Token, x, y Value, xt, yt types.Type) Value {
	switch op {
	case token.EQL:
		return in.eq(st, x, y)
	case token.NEQ:
		return mkNot(in.eq(st, x, y))
	}
	switch a := x.(type) {
	case StrV:
		b := y.(StrV)
		switch op {
		case token.ADD:
			return concatStr(a, b)
		case token.LSS:
			return in.strLess(a, b)
		case token.GTR:
			return in.strLess(b, a)
		case token.LEQ:
			return mkNot(in.strLess(b, a))
		case token.GEQ:
			return mkNot(in.strLess(a, b))
		}
	case FloatV:
		b, ok := y.(FloatV)
		if !ok {
			unsup("float op")
		}
		f32 := false
		if bt, ok := xt.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			f32 = true
		}
		rd := func(f FloatV) Value {
			if f32 {
				return FloatV(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return rd(a + b)
		case token.SUB:
			return rd(a - b)
		case token.MUL:
			return rd(a * b)
		case token.QUO:
			return rd(a / b)
		case token.LSS:
			return mkBool(a < b)
		case token.GTR:
			return mkBool(a > b)
		case token.LEQ:
			return mkBool(a <= b)
		case token.GEQ:
			return mkBool(a >= b)
		}
	case Ptr: // uintptr arithmetic
		if b, ok := y.(*Term); ok && b.isConst() && a.Idx == nil {
			switch op {
			case token.ADD:
				return Ptr{Obj: a.Obj, Off: a.Off + int64(b.k)}
			case token.SUB:
				return Ptr{Obj: a.Obj, Off: a.Off - int64(b.k)}
			case token.AND:
				if b.k < 8 && a.Off >= 0 {
					return mkConst(64, uint64(a.Off)&b.k)
				}
			case token.REM:
				if b.k <= 8 && b.k > 0 {
					return mkConst(64, uint64(a.Off)%b.k)
				}
			}
		}
		if b, ok := y.(Ptr); ok && a.Obj == b.Obj && op == token.SUB {
			a, b = in.concPtr(st, a), in.concPtr(st, b)
			return mkConst(64, uint64(a.Off-b.Off))
		}
	case *Term:
		if b, ok := y.(Ptr); ok && op == token.ADD {
			return in.binop(st, op, y, x, yt, xt)
			_ = b
		}
		b, ok := y.(*Term)
		if !ok {
			if _, isTok := y.(TokenV); isTok {
				return in.tokCmp(op, false)
			}
			break
		}
		if op == token.SHL || op == token.SHR {
			return in.shift(st, op, a, b, isSigned(xt), isSigned(yt))
		}
		s := isSigned(xt)
		switch op {
		case token.ADD:
			return mkAdd(a, b)
		case token.SUB:
			return mkSub(a, b)
		case token.MUL:
			return mkMul(a, b)
		case token.QUO, token.REM:
			if !in.decide(st, mkNot(mkEq(b, mkConst(b.w, 0)))) {
				rtPanic("integer divide by zero")
			}
			o := OUDiv
			switch {
			case s && op == token.QUO:
				o = OSDiv
			case s:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			return mkDiv(o, a, b)
		case token.AND:
			if a.w == 0 {
				return mkAnd(a, b)
			}
			return mkBitop(OBAnd, a, b)
		case token.OR:
			if a.w == 0 {
				return mkOr(a, b)
			}
			return mkBitop(OBOr, a, b)
		case token.XOR:
			return mkBitop(OBXor, a, b)
		case token.AND_NOT:
			return mkBitop(OBAnd, a, mkBNot(b))
		case token.LSS:
			if s {
				return mkSlt(a, b)
			}
			return mkUlt(a, b)
		case token.GTR:
			if s {
				return mkSlt(b, a)
			}
			return mkUlt(b, a)
		case token.LEQ:
			if s {
				return mkSle(a, b)
			}
			return mkUle(a, b)
		case token.GEQ:
			if s {
				return mkSle(b, a)
			}
			return mkUle(b, a)
		}
	case TokenV:
		return in.tokCmp(op, true)
	}
	unsup("binop %v on %T %T", op, x, y)
	return nil
}

// tokCmp orders opaque token bytes: they never decide anything.
func (in *Interp) tokCmp(op token.Token, left bool) Value {
	unsup("ordering of an opaque byte")
	return nil
}

func (in *Interp) shift(st *State, op token.Token, a, s *Term, aSigned, sSigned bool) Value {
	if sSigned && !s.isConst() && s.umax > mask(s.w)>>1 {
		if !in.decide(st, mkSle(mkConst(s.w, 0), s)) {
			rtPanic("negative shift amount")
		}
	}
	if sSigned && s.isConst() && sx(s.k, s.w) < 0 {
		rtPanic("negative shift amount")
	}
	// bring the shift count to the width of a, saturating
	var cnt *Term
	if s.w <= a.w {
		cnt = mkZext(s, a.w)
	} else {
		lim := mkConst(s.w, uint64(a.w))
		cnt = mkIte(mkUlt(s, lim), mkExtract(s, a.w-1, 0), mkConst(a.w, uint64(a.w)))
		if s.isConst() {
			k := s.k
			if k > uint64(a.w) {
				k = uint64(a.w)
			}
			cnt = mkConst(a.w, k)
		}
	}
	switch {
	case op == token.SHL:
		return mkShl(a, cnt)
	case aSigned:
		return mkAshr(a, cnt)
	}
	return mkLshr(a, cnt)
}

// ---- conversion ----

func (in *Interp) bytesOf(st *State, s Slice) []Value {
	r := make([]Value, s.Len)
	if s.Len == 0 {
		return r
	}
	o := st.obj(s.Obj)
	for i := range r {
		r[i] = o.loadScalar(s.Off+int64(i), 1)
	}
	return r
}

func (in *Interp) bytesToSlice(st *State, b StrV) Slice {
	n := int64(b.Len())
	o := st.newObj(n, 1, "bytes")
	for i := int64(0); i < n; i++ {
		o.cells.set(st.tok, int(i), b.at(int(i)))
	}
	return Slice{Obj: o.id, Len: n, Cap: n}
}

func (in *Interp) convert(st *State, v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		fb, _ := fu.(*types.Basic)
		switch {
		case tb.Info()&types.IsInteger != 0:
			switch x := v.(type) {
			case *Term:
				w := intWidth(to)
				if isSigned(from) {
					return mkSext(x, w)
				}
				return mkZext(x, w)
			case FloatV:
				return mkConst(intWidth(to), uint64(int64(x)))
			case Ptr:
				if intWidth(to) == 64 {
					if isNilPtr(x) {
						return mkConst(64, 0)
					}
					return x
				}
			case TokenV:
				// kept opaque whatever its width: every use of it as a
				// number is reported as unsupported
				x.sz = int64(intWidth(to)) / 8
				return x
			}
		case tb.Info()&types.IsFloat != 0:
			switch x := v.(type) {
			case FloatV:
				if tb.Kind() == types.Float32 {
					return FloatV(float32(x))
				}
				return x
			case *Term:
				k := in.concInt(st, x, isSigned(from))
				if isSigned(from) {
					return FloatV(float64(k))
				}
				return FloatV(float64(uint64(k)))
			}
		case tb.Info()&types.IsString != 0:
			switch x := v.(type) {
			case StrV:
				return x
			case Slice:
				if el, ok := fu.(*types.Slice); ok && sizeofT(el.Elem()) == 1 {
					return normStr(in.bytesOf(st, x))
				}
				var sb strings.Builder
				o := st.obj(max0(x.Obj))
				for i := int64(0); i < x.Len; i++ {
					sb.WriteRune(rune(in.concInt(st, o.loadScalar(x.Off+i*4, 4), true)))
				}
				return StrV{s: sb.String()}
			case *Term:
				if fb != nil && fb.Info()&types.IsInteger != 0 {
					if x.w >= 8 && !x.isConst() && x.umax < 128 {
						return StrV{b: []Value{mkExtract(x, 7, 0)}}
					}
					return StrV{s: string(rune(in.concInt(st, x, isSigned(from))))}
				}
			}
		case tb.Kind() == types.UnsafePointer:
			if t, ok := v.(*Term); ok {
				if t.isConst() && t.k == 0 {
					return Ptr{}
				}
				unsup("integer to pointer conversion")
			}
			return v
		}
	}
	switch t := tu.(type) {
	case *types.Slice:
		if s, ok := v.(StrV); ok {
			if sizeofT(t.Elem()) == 1 {
				return in.bytesToSlice(st, s)
			}
			if s.b != nil {
				unsup("[]rune of symbolic string")
			}
			rs := []rune(s.s)
			o := st.newObj(int64(len(rs))*4, 4, "runes")
			for i, r := range rs {
				o.cells.set(st.tok, i, mkConst(32, uint64(uint32(r))))
			}
			return Slice{Obj: o.id, Len: int64(len(rs)), Cap: int64(len(rs))}
		}
		return v
	case *types.Pointer:
		if tt, ok := v.(*Term); ok && tt.isConst() && tt.k == 0 {
			return Ptr{}
		}
		return v
	}
	unsup("convert %v -> %v (%T)", from, to, v)
	return nil
}

func max0(i int) int {
	if i <= 0 {
		return 0
	}
	return i
}

// ---- execution ----

func (in *Interp) newFrame(st *State, cf *Func, args []Value, env []Value, dst int) *Frame {
	f := &Frame{fn: cf, regs: make([]Value, cf.nregs), dst: dst}
	if len(args) != len(cf.params) {
		unsup("arity of %s: %d args for %d params", cf.name, len(args), len(cf.params))
	}
	for i, r := range cf.params {
		f.regs[r] = args[i]
	}
	for i, r := range cf.fvs {
		f.regs[r] = env[i]
	}
	in.touch(cf)
	return f
}

// run executes st until its path ends.
func (in *Interp) run(st *State) (end pathEnd) {
	for {
		e, again := in.runChunk(st)
		if !again {
			return e
		}
	}
}

func (in *Interp) runChunk(st *State) (end pathEnd, again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case goPanicSig:
				th := st.threads[st.cur]
				f := th.top()
				f.panicking = true
				f.recovered = false
				f.pval = r.v
				func() {
					defer func() {
						if r := recover(); r != nil {
							if pe, ok := r.(pathEnd); ok {
								end = pe
								return
							}
							if u, ok := r.(unsupported); ok {
								end = pathEnd{endUnsupported, u.msg}
								return
							}
							panic(r)
						}
					}()
					in.unwind(st, th)
					again = true
				}()
			case pathEnd:
				end = r
			case unsupported:
				end = pathEnd{endUnsupported, r.msg + " in " + in.where(st)}
			default:
				end = pathEnd{endUnsupported, fmt.Sprintf("engine: %v in %s", r, in.where(st))}
				if debugEngine {
					panic(r)
				}
			}
		}
	}()
	n := 0
	for {
		th := st.threads[st.cur]
		if th.status != tRun {
			in.pick(st, "")
			continue
		}
		f := th.frames[len(th.frames)-1]
		ins := &f.fn.blocks[f.blk][f.pc]
		st.steps++
		in.local.instrs++
		n++
		if n&1023 == 0 && in.q.stopped() {
			return pathEnd{endStop, ""}, false
		}
		if st.steps > in.cfg.MaxSteps {
			return pathEnd{endLimit, "step limit in " + in.where(st)}, false
		}
		in.exec(st, th, f, ins)
	}
}

var debugEngine = false

func (in *Interp) where(st *State) string {
	if st.cur >= len(st.threads) {
		return "?"
	}
	th := st.threads[st.cur]
	var parts []string
	for i := len(th.frames) - 1; i >= 0 && len(parts) < 6; i-- {
		f := th.frames[i]
		pos := ""
		if f.blk < len(f.fn.blocks) && f.pc < len(f.fn.blocks[f.blk]) {
			if p := f.fn.blocks[f.blk][f.pc].in.Pos(); p.IsValid() {
				pp := in.prog.Fset.Position(p)
				pos = fmt.Sprintf("(%s:%d)", base(pp.Filename), pp.Line)
			}
		}
		parts = append(parts, shortName(f.fn.name)+pos)
	}
	return strings.Join(parts, " < ")
}

func base(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

func shortName(s string) string {
	return strings.Replace(s, "github.com/jayloop/", "", -1)
}

func (in *Interp) panicText(st *State, v Value) string {
	if i, ok := v.(Iface); ok {
		if s, ok := i.V.(StrV); ok && s.b == nil {
			return s.s
		}
		if p, ok := i.V.(Ptr); ok && p.Obj != 0 {
			// maybe an error with a string at offset 0
			if s, ok := st.obj(p.Obj).cells.get(int(p.Off / st.obj(p.Obj).stride)).(StrV); ok {
				return s.s
			}
		}
		return fmt.Sprintf("%v", i.T)
	}
	return fmt.Sprintf("%T", v)
}

// unwind continues panicking in th: its top frame is panicking.
func (in *Interp) unwind(st *State, th *Thread) {
	for {
		f := th.top()
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			n := len(th.frames)
			in.callValue(st, th, f, d.fn, d.args, -1, true, d.call)
			if len(th.frames) > n {
				th.top().deferOf = 1
				return
			}
			continue // builtin or intrinsic: done
		}
		v := f.pval
		th.frames = th.frames[:len(th.frames)-1]
		if len(th.frames) == 0 {
			in.violation(st, "panic: "+in.panicText(st, v))
		}
		g := th.top()
		g.panicking = true
		g.recovered = false
		g.pval = v
	}
}

func (in *Interp) violation(st *State, msg string) {
	panic(pathEnd{endViolation, msg})
}

func (in *Interp) ret(st *State, th *Thread, v Value) {
	f := th.top()
	th.frames = th.frames[:len(th.frames)-1]
	if f.onRet != nil {
		f.onRet(in, st, th, v)
		return
	}
	if len(th.frames) == 0 {
		in.threadDone(st, th)
		return
	}
	g := th.top()
	if f.deferOf != 0 {
		if g.panicking {
			if g.recovered {
				g.panicking = false
				g.recovered = false
				if rb := g.fn.fn.Recover; rb != nil {
					// remaining defers still run
					g.prev = g.blk
					g.blk = rb.Index
					g.pc = 0
					in.runRemainingDefers(st, th, g)
					return
				}
				in.ret(st, th, zeroResult(g.fn.fn))
				return
			}
			in.unwind(st, th)
		}
		return
	}
	if f.dst >= 0 {
		g.regs[f.dst] = v
	}
}

// runRemainingDefers: the recover block contains its own RunDefers? In go/ssa
// the recover block only loads the results, so remaining defers must run here.
func (in *Interp) runRemainingDefers(st *State, th *Thread, g *Frame) {
	if len(g.defers) == 0 {
		return
	}
	d := g.defers[len(g.defers)-1]
	g.defers = g.defers[:len(g.defers)-1]
	n := len(th.frames)
	in.callValue(st, th, g, d.fn, d.args, -1, true, d.call)
	if len(th.frames) > n {
		th.top().onRet = contDefers
		return
	}
	in.runRemainingDefers(st, th, g)
}

func contDefers(in *Interp, st *State, th *Thread, v Value) {
	in.runRemainingDefers(st, th, th.top())
}

func zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zeroOf(r.At(0).Type())
	}
	return zeroOf(r)
}

func (in *Interp) jump(f *Frame, to *ssa.BasicBlock) {
	f.prev = f.blk
	f.blk = to.Index
	f.pc = 0
	// phis
	ins := f.fn.blocks[f.blk]
	if len(ins) == 0 {
		return
	}
	if _, ok := ins[0].in.(*ssa.Phi); !ok {
		return
	}
	edge := -1
	for i, p := range to.Preds {
		if p.Index == f.prev {
			edge = i
			break
		}
	}
	var vals [16]Value
	vs := vals[:0]
	n := 0
	for n < len(ins) {
		if _, ok := ins[n].in.(*ssa.Phi); !ok {
			break
		}
		vs = append(vs, f.get(&ins[n].ops[edge]))
		n++
	}
	for i := 0; i < n; i++ {
		f.regs[ins[i].dst] = vs[i]
	}
	f.pc = n
}

func (in *Interp) deref(st *State, v Value) Ptr {
	p := asPtr(v)
	if p.Obj == 0 {
		rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func (in *Interp) exec(st *State, th *Thread, f *Frame, ins *instr) {
	switch i := ins.in.(type) {
	case *ssa.UnOp:
		x := f.get(&ins.ops[0])
		switch i.Op {
		case token.MUL:
			p := in.deref(st, x)
			f.regs[ins.dst] = in.load(st, p, ins.t)
		case token.NOT:
			f.regs[ins.dst] = mkNot(x.(*Term))
		case token.SUB:
			if fl, ok := x.(FloatV); ok {
				f.regs[ins.dst] = -fl
			} else {
				f.regs[ins.dst] = mkNeg(x.(*Term))
			}
		case token.XOR:
			f.regs[ins.dst] = mkBNot(x.(*Term))
		case token.ARROW:
			in.chanRecv(st, th, f, ins, x.(ChanV), i.CommaOk)
			return
		default:
			unsup("unop %v", i.Op)
		}
		f.pc++
	case *ssa.BinOp:
		f.regs[ins.dst] = in.binop(st, i.Op, f.get(&ins.ops[0]), f.get(&ins.ops[1]), i.X.Type(), i.Y.Type())
		f.pc++
	case *ssa.If:
		c, ok := f.get(&ins.ops[0]).(*Term)
		if !ok {
			unsup("branch on %T", f.get(&ins.ops[0]))
		}
		b := in.decide(st, c)
		blk := f.fn.fn.Blocks[f.blk]
		if b {
			in.jump(f, blk.Succs[0])
		} else {
			in.jump(f, blk.Succs[1])
		}
	case *ssa.Jump:
		in.jump(f, f.fn.fn.Blocks[f.blk].Succs[0])
	case *ssa.Store:
		p := in.deref(st, f.get(&ins.ops[0]))
		in.store(st, p, i.Val.Type(), f.get(&ins.ops[1]))
		f.pc++
	case *ssa.FieldAddr:
		p := in.deref(st, f.get(&ins.ops[0]))
		stt := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		p.Off += fieldOffsets(stt)[i.Field]
		f.regs[ins.dst] = p
		f.pc++
	case *ssa.IndexAddr:
		x := f.get(&ins.ops[0])
		idx, ok := f.get(&ins.ops[1]).(*Term)
		if !ok {
			unsup("index %T", f.get(&ins.ops[1]))
		}
		signed := isSigned(i.Index.Type())
		switch t := i.X.Type().Underlying().(type) {
		case *types.Slice:
			s, ok := x.(Slice)
			if !ok {
				unsup("index of %T", x)
			}
			i64 := in.checkIndex(st, idx, signed, s.Len)
			f.regs[ins.dst] = in.indexPtr(st, s.Obj, s.Off, t.Elem(), s.Len, i64)
		case *types.Pointer:
			at := t.Elem().Underlying().(*types.Array)
			p := in.deref(st, x)
			p = in.concPtr(st, p)
			i64 := in.checkIndex(st, idx, signed, at.Len())
			f.regs[ins.dst] = in.indexPtr(st, p.Obj, p.Off, at.Elem(), at.Len(), i64)
		default:
			unsup("IndexAddr %v", t)
		}
		f.pc++
	case *ssa.Field:
		f.regs[ins.dst] = f.get(&ins.ops[0]).(StructV)[i.Field]
		f.pc++
	case *ssa.Index:
		x := f.get(&ins.ops[0])
		idx := f.get(&ins.ops[1]).(*Term)
		f.regs[ins.dst] = in.indexVal(st, x, idx, isSigned(i.Index.Type()))
		f.pc++
	case *ssa.Lookup:
		x := f.get(&ins.ops[0])
		if s, ok := x.(StrV); ok {
			f.regs[ins.dst] = in.indexVal(st, s, f.get(&ins.ops[1]).(*Term), isSigned(i.Index.Type()))
			f.pc++
			return
		}
		m := x.(MapV)
		vt := i.X.Type().Underlying().(*types.Map).Elem()
		v, ok := in.mapGet(st, m, f.get(&ins.ops[1]))
		if !ok {
			v = zeroOf(vt)
		}
		if i.CommaOk {
			f.regs[ins.dst] = TupleV{v, mkBool(ok)}
		} else {
			f.regs[ins.dst] = v
		}
		f.pc++
	case *ssa.MapUpdate:
		m := f.get(&ins.ops[0]).(MapV)
		if m.Obj == 0 {
			rtPanic("assignment to entry in nil map")
		}
		in.mapSet(st, m, f.get(&ins.ops[1]), f.get(&ins.ops[2]))
		f.pc++
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		o := st.newTyped(t, 1, siteName(i, f))
		f.regs[ins.dst] = Ptr{Obj: o.id}
		f.pc++
	case *ssa.MakeSlice:
		et := i.Type().Underlying().(*types.Slice).Elem()
		ln := in.concInt(st, f.get(&ins.ops[0]), true)
		cp := in.concInt(st, f.get(&ins.ops[1]), true)
		if ln < 0 || ln > 1<<46 {
			rtPanic("makeslice: len out of range")
		}
		if cp < ln || cp > 1<<46 {
			rtPanic("makeslice: cap out of range")
		}
		if cp*sizeofT(et) > 1<<36 {
			// the real program would be killed or panic
			in.violation(st, "fatal: allocation of an absurd amount of memory")
		}
		o := st.newTyped(et, cp, siteName(i, f))
		f.regs[ins.dst] = Slice{Obj: o.id, Len: ln, Cap: cp}
		f.pc++
	case *ssa.MakeChan:
		n := in.concInt(st, f.get(&ins.ops[0]), true)
		o := st.newObj(8, 8, "chan")
		o.extra = &ChanData{capn: int(n), et: i.Type().Underlying().(*types.Chan).Elem()}
		f.regs[ins.dst] = ChanV{o.id}
		f.pc++
	case *ssa.MakeMap:
		mt := i.Type().Underlying().(*types.Map)
		o := st.newObj(8, 8, "map")
		o.extra = &MapData{kt: mt.Key(), vt: mt.Elem(), idx: map[string]int{}}
		f.regs[ins.dst] = MapV{o.id}
		f.pc++
	case *ssa.MakeClosure:
		fv := &FuncV{fn: i.Fn.(*ssa.Function)}
		for k := range i.Bindings {
			fv.env = append(fv.env, f.get(&ins.ops[k+1]))
		}
		f.regs[ins.dst] = fv
		f.pc++
	case *ssa.MakeInterface:
		f.regs[ins.dst] = Iface{i.X.Type(), f.get(&ins.ops[0])}
		f.pc++
	case *ssa.ChangeInterface, *ssa.ChangeType:
		f.regs[ins.dst] = f.get(&ins.ops[0])
		f.pc++
	case *ssa.Convert:
		f.regs[ins.dst] = in.convert(st, f.get(&ins.ops[0]), i.X.Type(), i.Type())
		f.pc++
	case *ssa.SliceToArrayPointer:
		s := f.get(&ins.ops[0]).(Slice)
		at := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if s.Len < at.Len() {
			rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", s.Len, at.Len())
		}
		f.regs[ins.dst] = Ptr{Obj: s.Obj, Off: s.Off}
		f.pc++
	case *ssa.Extract:
		f.regs[ins.dst] = f.get(&ins.ops[0]).(TupleV)[i.Index]
		f.pc++
	case *ssa.Slice:
		f.regs[ins.dst] = in.sliceOp(st, f, i, ins)
		f.pc++
	case *ssa.TypeAssert:
		f.regs[ins.dst] = in.typeAssert(st, i, f.get(&ins.ops[0]))
		f.pc++
	case *ssa.Phi:
		unsup("phi reached")
	case *ssa.Call:
		in.doCall(st, th, f, ins, &i.Call)
	case *ssa.Return:
		var v Value
		switch len(ins.ops) {
		case 0:
		case 1:
			v = f.get(&ins.ops[0])
		default:
			t := make(TupleV, len(ins.ops))
			for k := range ins.ops {
				t[k] = f.get(&ins.ops[k])
			}
			v = t
		}
		in.ret(st, th, v)
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.pc++
			return
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		n := len(th.frames)
		in.callValue(st, th, f, d.fn, d.args, -1, true, d.call)
		if len(th.frames) > n {
			th.top().deferOf = 1
		}
	case *ssa.Defer:
		fv, args := in.callTarget(st, f, ins, &i.Call)
		f.defers = append(f.defers[:len(f.defers):len(f.defers)], deferRec{fv, args, &i.Call})
		f.pc++
	case *ssa.Go:
		fv, args := in.callTarget(st, f, ins, &i.Call)
		f.pc++
		in.spawn(st, fv, args, false)
	case *ssa.Panic:
		panic(goPanicSig{f.get(&ins.ops[0])})
	case *ssa.Send:
		in.chanSend(st, th, f, ins, f.get(&ins.ops[0]).(ChanV), f.get(&ins.ops[1]))
	case *ssa.Select:
		in.selectOp(st, th, f, ins, i)
	case *ssa.Range:
		f.regs[ins.dst] = in.rangeStart(st, f.get(&ins.ops[0]))
		f.pc++
	case *ssa.Next:
		f.regs[ins.dst] = in.rangeNext(st, f.get(&ins.ops[0]).(*rangeIter), i)
		f.pc++
	default:
		unsup("instruction %T", i)
	}
}

func siteName(i ssa.Instruction, f *Frame) string {
	return fmt.Sprintf("%s@%d", f.fn.name, i.Pos())
}

func (in *Interp) indexVal(st *State, x Value, idx *Term, signed bool) Value {
	switch s := x.(type) {
	case StrV:
		i64 := in.checkIndex(st, idx, signed, int64(s.Len()))
		if i64.isConst() {
			return s.at(int(i64.k))
		}
		var r *Term
		for k := s.Len() - 1; k >= 0; k-- {
			t, ok := s.at(k).(*Term)
			if !ok {
				unsup("symbolic index into token string")
			}
			if r == nil {
				r = t
			} else {
				r = mkIte(mkEq(i64, mkConst(64, uint64(k))), t, r)
			}
		}
		return r
	case ArrV:
		i64 := in.checkIndex(st, idx, signed, int64(len(s)))
		return s[in.concretize(st, i64)]
	}
	unsup("index of %T", x)
	return nil
}

type rangeIter struct {
	s    StrV
	m    *MapData
	next int
	mv   bool
	id   int
}

func (in *Interp) rangeStart(st *State, x Value) Value {
	switch v := x.(type) {
	case StrV:
		return &rangeIter{s: v}
	case MapV:
		if v.Obj == 0 {
			return &rangeIter{m: &MapData{}, mv: true}
		}
		return &rangeIter{m: st.obj(v.Obj).extra.(*MapData), mv: true, id: v.Obj}
	}
	unsup("range over %T", x)
	return nil
}

// rangeNext keeps its position in an auxiliary heap-free way: iterators are
// immutable and the register is replaced, so forked states do not share them.
func (in *Interp) rangeNext(st *State, it *rangeIter, i *ssa.Next) Value {
	th := st.threads[st.cur]
	f := th.top()
	upd := func(n int) {
		c := *it
		c.next = n
		// replace the register holding the iterator
		for r := range f.regs {
			if f.regs[r] == Value(it) {
				f.regs[r] = &c
			}
		}
	}
	if it.mv {
		cur := it.m
		if it.id != 0 {
			cur = st.obj(it.id).extra.(*MapData)
		}
		tt := i.Type().(*types.Tuple)
		for n := it.next; n < len(it.m.keys); n++ {
			k := it.m.keys[n]
			if k == nil {
				continue
			}
			// still present?
			p, ok := cur.idx[in.keyStr(st, k)]
			if !ok {
				continue
			}
			upd(n + 1)
			return TupleV{tTrue, k, cur.vals[p]}
		}
		z := func(j int) Value {
			if b, ok := tt.At(j).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return zeroOf(tt.At(j).Type())
		}
		return TupleV{tFalse, z(1), z(2)}
	}
	s := it.s
	if it.next >= s.Len() {
		return TupleV{tFalse, mkConst(64, 0), mkConst(32, 0)}
	}
	if s.b != nil {
		t, ok := s.at(it.next).(*Term)
		if !ok {
			upd(it.next + 1)
			return TupleV{tTrue, mkConst(64, uint64(it.next)), mkConst(32, 0xfffd)}
		}
		if t.isConst() && t.k < 128 {
			upd(it.next + 1)
			return TupleV{tTrue, mkConst(64, uint64(it.next)), mkZext(t, 32)}
		}
		if in.decide(st, mkUlt(t, mkConst(8, 128))) {
			upd(it.next + 1)
			return TupleV{tTrue, mkConst(64, uint64(it.next)), mkZext(t, 32)}
		}
		unsup("range over symbolic non-ascii string")
	}
	r, n := utf8.DecodeRuneInString(s.s[it.next:])
	upd(it.next + n)
	return TupleV{tTrue, mkConst(64, uint64(it.next)), mkConst(32, uint64(uint32(r)))}
}

// ---- maps ----

func (in *Interp) keyStr(st *State, k Value) string {
	switch v := k.(type) {
	case *Term:
		return fmt.Sprintf("i%d", in.concretize(st, v))
	case StrV:
		if v.b != nil {
			var sb strings.Builder
			sb.WriteByte('s')
			for i := 0; i < v.Len(); i++ {
				if tk, ok := v.at(i).(TokenV); ok && strings.HasPrefix(tk.kind, "snap") {
					// opaque compressed content: taken to differ from every
					// text the program compares it with
					fmt.Fprintf(&sb, "\x00%s:%p\x00", tk.kind, tk.data)
					continue
				}
				if tk, ok := v.at(i).(TokenV); ok && tk.kind == "dec" {
					sb.WriteString(strconv.FormatUint(in.concretize(st, tk.t), 10))
					continue
				}
				t, ok := v.at(i).(*Term)
				if !ok {
					unsup("map key with token")
				}
				sb.WriteByte(byte(in.concretize(st, t)))
			}
			return sb.String()
		}
		return "s" + v.s
	case Ptr:
		v = in.concPtr(st, v)
		return fmt.Sprintf("p%d.%d", v.Obj, v.Off)
	case Iface:
		if v.T == nil {
			return "nil"
		}
		return "I" + v.T.String() + in.keyStr(st, v.V)
	case StructV:
		s := "{"
		for _, x := range v {
			s += in.keyStr(st, x) + ","
		}
		return s
	case ArrV:
		s := "["
		for _, x := range v {
			s += in.keyStr(st, x) + ","
		}
		return s
	case ChanV:
		return fmt.Sprintf("c%d", v.Obj)
	case FloatV:
		return strconv.FormatFloat(float64(v), 'g', -1, 64)
	}
	unsup("map key %T", k)
	return ""
}

func (in *Interp) mapGet(st *State, m MapV, k Value) (Value, bool) {
	if m.Obj == 0 {
		return nil, false
	}
	d := st.obj(m.Obj).extra.(*MapData)
	p, ok := d.idx[in.keyStr(st, k)]
	if !ok {
		return nil, false
	}
	return d.vals[p], true
}

func (d *MapData) clone() *MapData {
	c := &MapData{kt: d.kt, vt: d.vt, idx: make(map[string]int, len(d.idx)+1)}
	for i, k := range d.keys {
		if k != nil {
			c.keys = append(c.keys, k)
			c.vals = append(c.vals, d.vals[i])
		}
	}
	for k, v := range d.idx {
		// recompute positions after compaction
		n := 0
		for j := 0; j < v; j++ {
			if d.keys[j] != nil {
				n++
			}
		}
		c.idx[k] = n
	}
	return c
}

func (in *Interp) mapSet(st *State, m MapV, k, v Value) {
	ks := in.keyStr(st, k)
	o := st.wobj(m.Obj)
	d := o.extra.(*MapData).clone()
	if p, ok := d.idx[ks]; ok {
		d.vals[p] = v
	} else {
		d.idx[ks] = len(d.keys)
		d.keys = append(d.keys, k)
		d.vals = append(d.vals, v)
	}
	o.extra = d
}

func (in *Interp) mapDelete(st *State, m MapV, k Value) {
	if m.Obj == 0 {
		return
	}
	ks := in.keyStr(st, k)
	d := st.obj(m.Obj).extra.(*MapData)
	p, ok := d.idx[ks]
	if !ok {
		return
	}
	o := st.wobj(m.Obj)
	c := &MapData{kt: d.kt, vt: d.vt, idx: map[string]int{}}
	for s, q := range d.idx {
		if s != ks {
			c.idx[s] = q
		}
	}
	c.keys = append([]Value(nil), d.keys...)
	c.vals = append([]Value(nil), d.vals...)
	c.keys[p] = nil
	c.vals[p] = nil
	o.extra = c
}

// ---- slicing, type assertions ----

func (in *Interp) sliceOp(st *State, f *Frame, i *ssa.Slice, ins *instr) Value {
	x := f.get(&ins.ops[0])
	bound := func(k int, def int64) (int64, bool) {
		v := f.get(&ins.ops[k])
		if v == nil {
			return def, false
		}
		var tt types.Type
		switch k {
		case 1:
			tt = i.Low.Type()
		case 2:
			tt = i.High.Type()
		case 3:
			tt = i.Max.Type()
		}
		t, ok := v.(*Term)
		if !ok {
			unsup("slice bound %T", v)
		}
		return int64(in.concretize(st, ext64(t, isSigned(tt)))), true
	}
	switch s := x.(type) {
	case StrV:
		n := int64(s.Len())
		lo, _ := bound(1, 0)
		hi, _ := bound(2, n)
		if hi < 0 || hi > n {
			rtPanic("slice bounds out of range [:%d] with length %d", hi, n)
		}
		if lo < 0 || lo > hi {
			rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		return s.sub(int(lo), int(hi))
	case Slice:
		lo, _ := bound(1, 0)
		hi, _ := bound(2, s.Len)
		mx, has := bound(3, s.Cap)
		if has && (mx < 0 || mx > s.Cap) {
			rtPanic("slice bounds out of range [::%d] with capacity %d", mx, s.Cap)
		}
		if hi < 0 || hi > mx {
			rtPanic("slice bounds out of range [:%d] with capacity %d", hi, mx)
		}
		if lo < 0 || lo > hi {
			rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		es := sizeofT(i.X.Type().Underlying().(*types.Slice).Elem())
		if s.Obj == 0 {
			return s
		}
		return Slice{s.Obj, s.Off + lo*es, hi - lo, mx - lo}
	case Ptr:
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if s.Obj == 0 {
			rtPanic("invalid memory address or nil pointer dereference")
		}
		s = in.concPtr(st, s)
		n := at.Len()
		lo, _ := bound(1, 0)
		hi, _ := bound(2, n)
		mx, _ := bound(3, n)
		if mx < 0 || mx > n || hi < 0 || hi > mx || lo < 0 || lo > hi {
			rtPanic("slice bounds out of range [%d:%d:%d] of array of %d", lo, hi, mx, n)
		}
		return Slice{s.Obj, s.Off + lo*sizeofT(at.Elem()), hi - lo, mx - lo}
	}
	unsup("slice of %T", x)
	return nil
}

func (in *Interp) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (in *Interp) typeAssert(st *State, i *ssa.TypeAssert, x Value) Value {
	v, ok := x.(Iface)
	if !ok {
		unsup("type assert on %T", x)
	}
	match := false
	var res Value
	if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
		match = v.T != nil && in.implements(v.T, it)
		res = v
	} else {
		match = v.T != nil && types.Identical(v.T, i.AssertedType)
		res = v.V
	}
	if !match {
		if !i.CommaOk {
			rtPanic("interface conversion: interface is %v, not %v", v.T, i.AssertedType)
		}
		return TupleV{zeroOf(i.AssertedType), tFalse}
	}
	if i.CommaOk {
		return TupleV{res, tTrue}
	}
	return res
}

// ---- calls ----

func (in *Interp) callTarget(st *State, f *Frame, ins *instr, call *ssa.CallCommon) (Value, []Value) {
	// operands: call.Value, then args
	if call.IsInvoke() {
		r, ok := f.get(&ins.ops[0]).(Iface)
		if !ok {
			unsup("invoke on %T", f.get(&ins.ops[0]))
		}
		if r.T == nil {
			rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := in.lookupMethod(r.T, call.Method)
		args := make([]Value, 0, len(call.Args)+1)
		args = append(args, r.V)
		for k := range call.Args {
			args = append(args, f.get(&ins.ops[k+1]))
		}
		return &FuncV{fn: fn}, args
	}
	args := make([]Value, len(call.Args))
	for k := range call.Args {
		args[k] = f.get(&ins.ops[k+1])
	}
	return f.get(&ins.ops[0]), args
}

func (in *Interp) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	in.convMu.Lock()
	defer in.convMu.Unlock()
	sel := in.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		unsup("no method %s on %v", m.Name(), t)
	}
	fn := in.prog.MethodValue(sel)
	if fn == nil {
		unsup("abstract method %s on %v", m.Name(), t)
	}
	return fn
}

func (in *Interp) doCall(st *State, th *Thread, f *Frame, ins *instr, call *ssa.CallCommon) {
	fv, args := in.callTarget(st, f, ins, call)
	in.callValue(st, th, f, fv, args, ins.dst, false, call)
}

// ictx is the context of an intrinsic call.
type ictx struct {
	in   *Interp
	st   *State
	th   *Thread
	f    *Frame
	cf   *Func
	args []Value
	dst  int
	stay bool
	call *ssa.CallCommon
	// set by the intrinsic
	done bool // it arranged control flow itself
}

type intrinsic func(c *ictx) Value

func (in *Interp) callValue(st *State, th *Thread, f *Frame, fvv Value, args []Value, dst int, stay bool, call *ssa.CallCommon) {
	fv, ok := fvv.(*FuncV)
	if !ok {
		if isNilPtr(fvv) {
			rtPanic("invalid memory address or nil pointer dereference")
		}
		unsup("call of %T", fvv)
	}
	if fv == nil {
		rtPanic("invalid memory address or nil pointer dereference")
	}
	if fv.bi != nil {
		v := in.builtin(st, th, f, fv.bi.Name(), args, call)
		if dst >= 0 {
			f.regs[dst] = v
		}
		if !stay {
			f.pc++
		}
		return
	}
	cf := in.fn(fv.fn)
	if cf.intr != nil {
		c := ictx{in: in, st: st, th: th, f: f, cf: cf, args: args, dst: dst, stay: stay, call: call}
		v := cf.intr(&c)
		if c.done {
			return
		}
		if dst >= 0 {
			f.regs[dst] = v
		}
		if !stay {
			f.pc++
		}
		return
	}
	if cf.blocks == nil {
		unsup("external function %s", cf.name)
	}
	if len(th.frames) > 400 {
		in.violation(st, "stack overflow (recursion deeper than 400 frames)")
	}
	nf := in.newFrame(st, cf, args, fv.env, dst)
	nf.stay = stay
	if !stay {
		f.pc++
	}
	th.frames = append(th.frames, nf)
}

func (in *Interp) builtin(st *State, th *Thread, f *Frame, name string, args []Value, call *ssa.CallCommon) Value {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return mkConst(64, uint64(x.Len))
		case StrV:
			return mkConst(64, uint64(x.Len()))
		case MapV:
			if x.Obj == 0 {
				return mkConst(64, 0)
			}
			return mkConst(64, uint64(len(st.obj(x.Obj).extra.(*MapData).idx)))
		case ChanV:
			if x.Obj == 0 {
				return mkConst(64, 0)
			}
			return mkConst(64, uint64(len(st.obj(x.Obj).extra.(*ChanData).buf)))
		case ArrV:
			return mkConst(64, uint64(len(x)))
		case Ptr:
			at := call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return mkConst(64, uint64(at.Len()))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return mkConst(64, uint64(x.Cap))
		case ChanV:
			return mkConst(64, uint64(st.obj(x.Obj).extra.(*ChanData).capn))
		case Ptr:
			at := call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return mkConst(64, uint64(at.Len()))
		case ArrV:
			return mkConst(64, uint64(len(x)))
		}
	case "append":
		et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
		s := args[0].(Slice)
		if str, ok := args[1].(StrV); ok {
			args[1] = in.bytesToSlice(st, str)
		}
		add := args[1].(Slice)
		if add.Len == 0 {
			return s
		}
		return in.appendSlice(st, s, add, et)
	case "copy":
		d := args[0].(Slice)
		et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
		if str, ok := args[1].(StrV); ok {
			args[1] = in.bytesToSlice(st, str)
		}
		s := args[1].(Slice)
		n := d.Len
		if s.Len < n {
			n = s.Len
		}
		in.copyMem(st, d.Obj, d.Off, s.Obj, s.Off, n, et)
		return mkConst(64, uint64(n))
	case "close":
		in.chanClose(st, args[0].(ChanV))
		return nil
	case "delete":
		in.mapDelete(st, args[0].(MapV), args[1])
		return nil
	case "print", "println":
		return nil
	case "recover":
		if f.deferOf != 0 && len(th.frames) >= 2 {
			g := th.frames[len(th.frames)-2]
			if g.panicking && !g.recovered {
				g.recovered = true
				return g.pval
			}
		}
		return Iface{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			t := call.Args[0].Type()
			var lt *Term
			if name == "min" {
				lt = in.binop(st, token.LSS, a, r, t, t).(*Term)
			} else {
				lt = in.binop(st, token.LSS, r, a, t, t).(*Term)
			}
			if rt, ok := r.(*Term); ok {
				r = mkIte(lt, a.(*Term), rt)
			} else if in.decide(st, lt) {
				r = a
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case Slice:
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			if x.Obj == 0 {
				return nil
			}
			o := st.wobj(x.Obj)
			for k := int64(0); k < x.Len; k++ {
				storeT(st, o, x.Off+k*sizeofT(et), et, zeroOf(et))
			}
			return nil
		case MapV:
			if x.Obj != 0 {
				o := st.wobj(x.Obj)
				d := o.extra.(*MapData)
				o.extra = &MapData{kt: d.kt, vt: d.vt, idx: map[string]int{}}
			}
			return nil
		}
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		p := in.concPtr(st, asPtr(args[0]))
		n := in.concInt(st, args[1], true)
		return normStr(in.bytesOf(st, Slice{p.Obj, p.Off, n, n}))
	case "StringData":
		s := in.bytesToSlice(st, args[0].(StrV))
		return Ptr{Obj: s.Obj, Off: s.Off}
	case "Slice":
		p := in.concPtr(st, asPtr(args[0]))
		n := in.concInt(st, args[1], isSigned(call.Args[1].Type()))
		if n < 0 {
			rtPanic("unsafe.Slice: len out of range")
		}
		if p.Obj == 0 {
			return Slice{}
		}
		return Slice{p.Obj, p.Off, n, n}
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{Obj: s.Obj, Off: s.Off}
	case "Add":
		p := in.concPtr(st, asPtr(args[0]))
		p.Off += in.concInt(st, args[1], isSigned(call.Args[1].Type()))
		return p
	}
	unsup("builtin %s", name)
	return nil
}

func growCap(old, need int64) int64 {
	if need > 2*old {
		return need
	}
	if old < 256 {
		return 2 * old
	}
	c := old
	for c < need {
		c += (c + 3*256) / 4
	}
	return c
}

func (in *Interp) appendSlice(st *State, s, add Slice, et types.Type) Slice {
	es := sizeofT(et)
	n := s.Len + add.Len
	if n <= s.Cap {
		in.copyMem(st, s.Obj, s.Off+s.Len*es, add.Obj, add.Off, add.Len, et)
		return Slice{s.Obj, s.Off, n, s.Cap}
	}
	c := growCap(s.Cap, n)
	if es == 1 && c < 8 {
		c = 8
	}
	o := st.newTyped(et, c, "append")
	if s.Len > 0 {
		in.copyMem(st, o.id, 0, s.Obj, s.Off, s.Len, et)
	}
	in.copyMem(st, o.id, s.Len*es, add.Obj, add.Off, add.Len, et)
	return Slice{o.id, 0, n, c}
}

// copyMem copies n elements of type et (memmove semantics).
func (in *Interp) copyMem(st *State, dObj int, dOff int64, sObj int, sOff int64, n int64, et types.Type) {
	if n == 0 {
		return
	}
	es := sizeofT(et)
	so := st.obj(sObj)
	if sOff < 0 || sOff+n*es > so.size {
		unsup("copy source out of object %s", so.name)
	}
	d := st.wobj(dObj)
	so = st.obj(sObj)
	if dOff < 0 || dOff+n*es > d.size {
		unsup("copy target out of object %s", d.name)
	}
	if n*es > 1<<16 && so.stride == d.stride && sObj != dObj && sOff%so.stride == 0 && dOff%d.stride == 0 {
		// sparse copy
		in.sparseCopy(st, d, dOff, so, sOff, n*es)
		return
	}
	vals := make([]Value, n)
	for i := int64(0); i < n; i++ {
		vals[i] = loadT(so, sOff+i*es, et)
	}
	for i := int64(0); i < n; i++ {
		storeT(st, d, dOff+i*es, et, vals[i])
	}
}

func (in *Interp) sparseCopy(st *State, d *Obj, dOff int64, s *Obj, sOff, n int64) {
	// clear then copy the populated cells
	lo, hi := int(dOff/d.stride), int((dOff+n)/d.stride)
	for _, i := range d.cells.populated(lo, hi) {
		d.cells.set(st.tok, i, nil)
	}
	slo, shi := int(sOff/s.stride), int((sOff+n)/s.stride)
	for _, i := range s.cells.populated(slo, shi) {
		d.cells.set(st.tok, i-slo+lo, s.cells.get(i))
	}
	if s.wide {
		d.wide = true
	}
}

func (v *PVec) populated(lo, hi int) []int {
	var r []int
	var walk func(n *pnode, shift uint, base int)
	walk = func(n *pnode, shift uint, base int) {
		for j, k := range n.kids {
			if k == nil {
				continue
			}
			b := base + j<<shift
			if b >= hi || b+(1<<shift) <= lo {
				continue
			}
			if shift == 0 {
				r = append(r, b)
			} else {
				walk(k.(*pnode), shift-pvBits, b)
			}
		}
	}
	if v.root != nil {
		walk(v.root, v.shift, 0)
	}
	sort.Ints(r)
	return r
}

var _ = math.MaxInt64
