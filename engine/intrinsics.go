package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func noop(c *ictx) Value { return nil }

// fallback lets the interpreter execute the Go body instead.
func (c *ictx) fallback() Value {
	cf := c.cf
	if cf.fn.Blocks != nil {
		cf.body.Do(func() { c.in.compileBody(cf) })
	}
	if cf.blocks == nil {
		unsup("no body for %s", cf.name)
	}
	nf := c.in.newFrame(c.st, cf, c.args, nil, c.dst)
	nf.stay = c.stay
	if !c.stay {
		c.f.pc++
	}
	c.th.frames = append(c.th.frames, nf)
	c.done = true
	return nil
}

// tail calls fv in place of the intrinsic.
func (c *ictx) tail(fv Value, args []Value) Value {
	c.in.callValue(c.st, c.th, c.f, fv, args, c.dst, c.stay, c.call)
	c.done = true
	return nil
}

func (c *ictx) ptr(i int) Ptr { return c.in.deref(c.st, c.args[i]) }

func (c *ictx) blockRetry(why string) Value {
	c.done = true
	c.in.block(c.st, c.th, why, nil, true)
	return nil
}

func genericIntrinsic(f *ssa.Function, name string) intrinsic {
	if f.Synthetic == "package initializer" {
		return noop
	}
	if f.Blocks == nil && f.Name() == "memmove" {
		return iMemmove
	}
	if strings.HasPrefix(name, "sync/atomic.") && f.Signature.Recv() == nil {
		return atomicIntrinsic(f.Name())
	}
	return nil
}

var u8T = types.Typ[types.Uint8]
var i32T = types.Typ[types.Int32]
var u32T = types.Typ[types.Uint32]
var i64T = types.Typ[types.Int64]
var u64T = types.Typ[types.Uint64]
var upT = types.Typ[types.UnsafePointer]
var strT = types.Typ[types.String]

func atomicIntrinsic(name string) intrinsic {
	var t types.Type
	switch {
	case strings.HasSuffix(name, "Uint32"):
		t = u32T
	case strings.HasSuffix(name, "Int32"):
		t = i32T
	case strings.HasSuffix(name, "Uint64"):
		t = u64T
	case strings.HasSuffix(name, "Int64"):
		t = i64T
	case strings.HasSuffix(name, "Uintptr"):
		t = types.Typ[types.Uintptr]
	case strings.HasSuffix(name, "Pointer"):
		t = upT
	default:
		return nil
	}
	switch {
	case strings.HasPrefix(name, "Load"):
		return func(c *ictx) Value { return c.in.load(c.st, c.ptr(0), t) }
	case strings.HasPrefix(name, "Store"):
		return func(c *ictx) Value { c.in.store(c.st, c.ptr(0), t, c.args[1]); return nil }
	case strings.HasPrefix(name, "Add"):
		return func(c *ictx) Value {
			p := c.ptr(0)
			v := mkAdd(c.in.load(c.st, p, t).(*Term), c.args[1].(*Term))
			c.in.store(c.st, p, t, v)
			return v
		}
	case strings.HasPrefix(name, "Swap"):
		return func(c *ictx) Value {
			p := c.ptr(0)
			v := c.in.load(c.st, p, t)
			c.in.store(c.st, p, t, c.args[1])
			return v
		}
	case strings.HasPrefix(name, "CompareAndSwap"):
		return func(c *ictx) Value {
			p := c.ptr(0)
			v := c.in.load(c.st, p, t)
			if c.in.decide(c.st, c.in.eq(c.st, v, c.args[1])) {
				c.in.store(c.st, p, t, c.args[2])
				return tTrue
			}
			return tFalse
		}
	case strings.HasPrefix(name, "And"), strings.HasPrefix(name, "Or"):
		return func(c *ictx) Value {
			p := c.ptr(0)
			v := c.in.load(c.st, p, t).(*Term)
			op := OBAnd
			if strings.HasPrefix(name, "Or") {
				op = OBOr
			}
			c.in.store(c.st, p, t, mkBitop(op, v, c.args[1].(*Term)))
			return v
		}
	}
	return nil
}

func iMemmove(c *ictx) Value {
	n := c.in.concInt(c.st, c.args[2], false)
	if n == 0 {
		return nil
	}
	d, s := c.in.concPtr(c.st, c.ptr(0)), c.in.concPtr(c.st, c.ptr(1))
	c.in.moveBytes(c.st, d.Obj, d.Off, s.Obj, s.Off, n)
	return nil
}

func (in *Interp) moveBytes(st *State, dObj int, dOff int64, sObj int, sOff, n int64) {
	so := st.obj(sObj)
	do := st.obj(dObj)
	if sOff < 0 || sOff+n > so.size {
		in.violation(st, fmt.Sprintf("memory safety: memmove of %d bytes reads outside object %s (offset %d, size %d)", n, so.name, sOff, so.size))
	}
	if dOff < 0 || dOff+n > do.size {
		in.violation(st, fmt.Sprintf("memory safety: memmove of %d bytes writes outside object %s (offset %d, size %d)", n, do.name, dOff, do.size))
	}
	vals := make([]Value, n)
	for i := int64(0); i < n; i++ {
		vals[i] = so.loadByte(sOff + i)
	}
	o := st.wobj(dObj)
	for i := int64(0); i < n; {
		a := dOff + i
		if o.stride == 8 && a%8 == 0 && i+8 <= n {
			var r *Term
			ok := true
			for k := int64(0); k < 8; k++ {
				t, isT := vals[i+k].(*Term)
				if !isT {
					ok = false
					break
				}
				r = mkConcat(t, r)
			}
			if ok {
				o.storeCell(st.tok, a, r)
				i += 8
				continue
			}
		}
		o.storeCell(st.tok, a, vals[i])
		i++
	}
}

// small helpers on memory words used by the sync stubs
func (c *ictx) word(p Ptr, off int64, t types.Type) *Term {
	p = c.in.concPtr(c.st, p)
	p.Off += off
	v, ok := c.in.load(c.st, p, t).(*Term)
	if !ok {
		unsup("sync word")
	}
	return v
}

func (c *ictx) setWord(p Ptr, off int64, t types.Type, v uint64) {
	p.Off += off
	c.in.store(c.st, p, t, mkConst(intWidth(t), v))
}

func init() {
	// ---- runtime, time ----
	reg(func(c *ictx) Value {
		if c.th.ctl && c.st.lastSync != 0 {
			unsup("uncontrolled Gosched in a controlled thread")
		}
		return c.seqGosched()
	}, "runtime.Gosched")
	reg(func(c *ictx) Value { return mkConst(64, uint64(c.in.cfg.NumCPU)) }, "runtime.NumCPU", "runtime.GOMAXPROCS")
	reg(noop, "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.LockOSThread", "runtime.UnlockOSThread", "internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable", "runtime.procyield")
	reg(func(c *ictx) Value { return zeroResult(c.cf.fn) }, "time.Now", "time.Since", "time.runtimeNano", "(time.Time).Sub", "time.Until")
	reg(func(c *ictx) Value { return mkConst(64, 0) }, "(time.Time).UnixNano", "(time.Time).Unix")
	reg(func(c *ictx) Value { return c.quiesce() }, "time.Sleep")

	// ---- sync ----
	lock := func(c *ictx) Value {
		p := c.ptr(0)
		w := c.word(p, 0, i32T)
		if !c.in.decide(c.st, mkEq(w, mkConst(32, 0))) {
			return c.blockRetry("Mutex.Lock")
		}
		c.setWord(p, 0, i32T, 1)
		return nil
	}
	unlock := func(c *ictx) Value {
		p := c.ptr(0)
		w := c.word(p, 0, i32T)
		if !c.in.decide(c.st, mkNot(mkEq(w, mkConst(32, 0)))) {
			c.in.violation(c.st, "fatal error: sync: unlock of unlocked mutex")
		}
		c.setWord(p, 0, i32T, 0)
		c.in.wakeRetry(c.st)
		return nil
	}
	try := func(c *ictx) Value {
		p := c.ptr(0)
		w := c.word(p, 0, i32T)
		if !c.in.decide(c.st, mkEq(w, mkConst(32, 0))) {
			return tFalse
		}
		c.setWord(p, 0, i32T, 1)
		return tTrue
	}
	reg(lock, "(*sync.Mutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(unlock, "(*sync.Mutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(try, "(*sync.Mutex).TryLock", "(*internal/sync.Mutex).TryLock")
	// RWMutex: word 0 writer, word 4 readers
	reg(func(c *ictx) Value {
		p := c.ptr(0)
		if !c.word(p, 0, i32T).isZero() || !c.word(p, 4, i32T).isZero() {
			return c.blockRetry("RWMutex.Lock")
		}
		c.setWord(p, 0, i32T, 1)
		return nil
	}, "(*sync.RWMutex).Lock")
	reg(func(c *ictx) Value {
		p := c.ptr(0)
		if c.word(p, 0, i32T).isZero() {
			c.in.violation(c.st, "fatal error: sync: Unlock of unlocked RWMutex")
		}
		c.setWord(p, 0, i32T, 0)
		c.in.wakeRetry(c.st)
		return nil
	}, "(*sync.RWMutex).Unlock")
	reg(func(c *ictx) Value {
		p := c.ptr(0)
		if !c.word(p, 0, i32T).isZero() {
			return c.blockRetry("RWMutex.RLock")
		}
		c.setWord(p, 4, i32T, c.word(p, 4, i32T).k+1)
		return nil
	}, "(*sync.RWMutex).RLock")
	reg(func(c *ictx) Value {
		p := c.ptr(0)
		n := c.word(p, 4, i32T).k
		if n == 0 {
			c.in.violation(c.st, "fatal error: sync: RUnlock of unlocked RWMutex")
		}
		c.setWord(p, 4, i32T, n-1)
		c.in.wakeRetry(c.st)
		return nil
	}, "(*sync.RWMutex).RUnlock")
	// WaitGroup: 4-byte counter at offset 0
	wgAdd := func(c *ictx, d int64) Value {
		p := c.ptr(0)
		n := sx(c.word(p, 0, i32T).k, 32) + d
		if n < 0 {
			panic(goPanicSig{Iface{strT, StrV{s: "sync: negative WaitGroup counter"}}})
		}
		c.setWord(p, 0, i32T, uint64(n))
		if n == 0 {
			c.in.wakeRetry(c.st)
		}
		return nil
	}
	reg(func(c *ictx) Value { return wgAdd(c, c.in.concInt(c.st, c.args[1], true)) }, "(*sync.WaitGroup).Add")
	reg(func(c *ictx) Value { return wgAdd(c, -1) }, "(*sync.WaitGroup).Done")
	reg(func(c *ictx) Value {
		if !c.word(c.ptr(0), 0, i32T).isZero() {
			return c.blockRetry("WaitGroup.Wait")
		}
		return nil
	}, "(*sync.WaitGroup).Wait")
	reg(func(c *ictx) Value {
		p := c.ptr(0)
		if !c.word(p, 0, i32T).isZero() {
			return nil
		}
		c.setWord(p, 0, i32T, 1)
		return c.tail(c.args[1], nil)
	}, "(*sync.Once).Do")
	// Pool: LIFO reuse
	reg(func(c *ictx) Value {
		p := c.in.concPtr(c.st, c.ptr(0))
		l := c.poolList(p)
		if n := len(l); n > 0 {
			v := l[n-1]
			c.setPool(p, l[:n-1:n-1])
			return v
		}
		t := c.cf.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Name() == "New" {
				q := p
				q.Off += fieldOffsets(t)[i]
				fv := c.in.load(c.st, q, t.Field(i).Type())
				if f, ok := fv.(*FuncV); ok && f != nil {
					return c.tail(f, nil)
				}
			}
		}
		return Iface{}
	}, "(*sync.Pool).Get")
	reg(func(c *ictx) Value {
		p := c.in.concPtr(c.st, c.ptr(0))
		l := c.poolList(p)
		c.setPool(p, append(l[:len(l):len(l)], c.args[1]))
		return nil
	}, "(*sync.Pool).Put")
	reg(func(c *ictx) Value {
		p := c.ptr(0)
		return c.in.load(c.st, p, types.NewInterfaceType(nil, nil))
	}, "(*sync/atomic.Value).Load")
	reg(func(c *ictx) Value {
		c.in.store(c.st, c.ptr(0), types.NewInterfaceType(nil, nil), c.args[1])
		return nil
	}, "(*sync/atomic.Value).Store")

	// ---- bytealg ----
	indexByte := func(c *ictx, n int, at func(i int) Value, b Value) Value {
		for i := 0; i < n; i++ {
			if c.in.decide(c.st, c.in.eq(c.st, at(i), b)) {
				return mkConst(64, uint64(i))
			}
		}
		return mkConst(64, ^uint64(0))
	}
	reg(func(c *ictx) Value {
		bs := c.in.bytesOf(c.st, c.args[0].(Slice))
		return indexByte(c, len(bs), func(i int) Value { return bs[i] }, c.args[1])
	}, "internal/bytealg.IndexByte", "bytes.IndexByte")
	reg(func(c *ictx) Value {
		s := c.args[0].(StrV)
		return indexByte(c, s.Len(), s.at, c.args[1])
	}, "internal/bytealg.IndexByteString", "strings.IndexByte")
	reg(func(c *ictx) Value {
		a, b := c.strArg(0), c.strArg(1)
		return c.in.cmpTerm(c.st, a, b)
	}, "internal/bytealg.Compare", "bytes.Compare", "strings.Compare", "internal/bytealg.CompareString")
	reg(func(c *ictx) Value { return c.in.eq(c.st, c.strArg(0), c.strArg(1)) }, "bytes.Equal", "internal/bytealg.Equal")
	reg(func(c *ictx) Value {
		a, b := c.strArg(0), c.strArg(1)
		if b.Len() > a.Len() {
			return tFalse
		}
		return c.in.eq(c.st, a.sub(0, b.Len()), b)
	}, "bytes.HasPrefix", "strings.HasPrefix")
	reg(func(c *ictx) Value {
		n := c.in.concInt(c.st, c.args[0], true)
		o := c.st.newObj(n, 1, "nozero")
		return Slice{o.id, 0, n, n}
	}, "internal/bytealg.MakeNoZero", "strings.Clone")
	delete(intrinsics, "strings.Clone")

	// ---- strconv on opaque or symbolic decimal text ----
	parse := func(bits int, signed bool) intrinsic {
		return func(c *ictx) Value {
			s, ok := c.args[0].(StrV)
			if !ok || s.b == nil {
				return c.fallback()
			}
			if s.Len() == 1 {
				if tk, ok := s.b[0].(TokenV); ok && tk.kind == "dec" {
					return TupleV{tk.t, Iface{}}
				}
			}
			for _, v := range s.b {
				if _, ok := v.(TokenV); ok {
					// mixed text with an opaque number is never a number here
					unsup("parse of mixed opaque text")
				}
			}
			return c.fallback()
		}
	}
	reg(parse(64, false), "strconv.ParseUint")
	reg(parse(64, true), "strconv.ParseInt", "strconv.Atoi")
	format := func(c *ictx) Value {
		if t, ok := c.args[0].(*Term); ok && t.isConst() {
			return c.fallback()
		}
		return StrV{b: []Value{TokenV{kind: "dec", t: c.args[0].(*Term)}}}
	}
	reg(format, "strconv.Itoa", "strconv.FormatUint", "strconv.FormatInt")
	reg(func(c *ictx) Value {
		f, ok := c.args[0].(FloatV)
		if !ok {
			unsup("FormatFloat")
		}
		return StrV{s: strconv.FormatFloat(float64(f), byte(c.in.concInt(c.st, c.args[1], false)), int(c.in.concInt(c.st, c.args[2], true)), int(c.in.concInt(c.st, c.args[3], true)))}
	}, "strconv.FormatFloat")

	// ---- errors ----
	reg(func(c *ictx) Value {
		e := c.args[0].(Iface)
		target := c.args[1].(Iface)
		for n := 0; n < 20 && e.T != nil; n++ {
			if c.in.eq(c.st, e, target) == tTrue {
				return tTrue
			}
			p, ok := e.V.(Ptr)
			if !ok || p.Obj == 0 {
				return tFalse
			}
			w, ok := c.st.obj(p.Obj).extra.(Iface)
			if !ok {
				return tFalse
			}
			e = w
		}
		return tFalse
	}, "errors.Is")
	reg(func(c *ictx) Value {
		e := c.args[0].(Iface)
		if p, ok := e.V.(Ptr); ok && p.Obj != 0 {
			if w, ok := c.st.obj(p.Obj).extra.(Iface); ok {
				return w
			}
		}
		return Iface{}
	}, "errors.Unwrap")

	// ---- fmt ----
	reg(func(c *ictx) Value { return c.in.format(c.st, c.args[0].(StrV), c.args[1].(Slice), nil) }, "fmt.Sprintf")
	reg(func(c *ictx) Value {
		var wrapped Iface
		s := c.in.format(c.st, c.args[0].(StrV), c.args[1].(Slice), &wrapped)
		return c.newError(s, wrapped)
	}, "fmt.Errorf")
	reg(func(c *ictx) Value { return c.in.sprint(c.st, c.args[0].(Slice), false) }, "fmt.Sprint")
	reg(func(c *ictx) Value { return c.in.sprint(c.st, c.args[0].(Slice), true) }, "fmt.Sprintln")
	fprint := func(c *ictx, s StrV) Value {
		w := c.args[0].(Iface)
		if w.T == nil {
			rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := c.in.writeMethod(w.T)
		b := c.in.bytesToSlice(c.st, s)
		return c.tail(&FuncV{fn: fn}, []Value{w.V, b})
	}
	reg(func(c *ictx) Value {
		return fprint(c, c.in.format(c.st, c.args[1].(StrV), c.args[2].(Slice), nil))
	}, "fmt.Fprintf")
	reg(func(c *ictx) Value { return fprint(c, c.in.sprint(c.st, c.args[1].(Slice), false)) }, "fmt.Fprint")
	reg(func(c *ictx) Value { return fprint(c, c.in.sprint(c.st, c.args[1].(Slice), true)) }, "fmt.Fprintln")
	reg(func(c *ictx) Value { return TupleV{mkConst(64, 0), Iface{}} }, "fmt.Println", "fmt.Printf", "fmt.Print")
	reg(func(c *ictx) Value { return StrV{s: "?"} }, "(time.Duration).String")

	// ---- snappy ----
	reg(iSnappyEncode, "github.com/golang/snappy.Encode")
	reg(iSnappyDecode, "github.com/golang/snappy.Decode")
	reg(func(c *ictx) Value {
		if !c.stubSnappy() {
			return c.fallback()
		}
		src := c.in.bytesOf(c.st, c.args[0].(Slice))
		if snap := snapOf(src); snap != nil {
			return TupleV{mkConst(64, uint64(snap.n)), Iface{}}
		}
		return TupleV{mkConst(64, 0), c.snapErr()}
	}, "github.com/golang/snappy.DecodedLen")

	// ---- sort ----
	_ = sort.Ints
}

func (t *Term) isZero() bool {
	if !t.isConst() {
		unsup("symbolic synchronisation word")
	}
	return t.k == 0
}

func (c *ictx) strArg(i int) StrV {
	switch x := c.args[i].(type) {
	case StrV:
		return x
	case Slice:
		return normStr(c.in.bytesOf(c.st, x))
	}
	unsup("string argument %T", c.args[i])
	return StrV{}
}

func (in *Interp) cmpTerm(st *State, a, b StrV) Value {
	lt := in.strLess(a, b)
	eq := in.eq(st, a, b)
	return mkIte(lt, mkConst(64, ^uint64(0)), mkIte(eq, mkConst(64, 0), mkConst(64, 1)))
}

func (c *ictx) poolList(p Ptr) []Value {
	q, ok := c.in.load(c.st, p, upT).(Ptr)
	if !ok || q.Obj == 0 {
		return nil
	}
	return c.st.obj(q.Obj).extra.([]Value)
}

func (c *ictx) setPool(p Ptr, l []Value) {
	q, ok := c.in.load(c.st, p, upT).(Ptr)
	if !ok || q.Obj == 0 {
		o := c.st.newObj(8, 8, "pool")
		q = Ptr{Obj: o.id}
		c.in.store(c.st, p, upT, q)
	}
	c.st.wobj(q.Obj).extra = l
}

func (c *ictx) seqGosched() Value {
	st, th := c.st, c.th
	other := false
	for j, t := range st.threads {
		if j != st.cur && t.status == tRun && !t.quies {
			other = true
		}
	}
	st.gos++
	if st.gos > 400 || (!other && st.gos > 40) {
		c.in.violation(st, "hang: a goroutine retries forever ("+c.in.where(st)+")")
	}
	if c.dst >= 0 {
		c.f.regs[c.dst] = nil
	}
	if !c.stay {
		c.f.pc++
	}
	c.done = true
	_ = th
	c.in.pick(st, "")
	return nil
}

// quiesce runs every other goroutine until it blocks.
func (c *ictx) quiesce() Value {
	if !c.stay {
		c.f.pc++
	}
	c.done = true
	c.th.quies = true
	c.in.pick(c.st, "")
	return nil
}

func (c *ictx) newError(s StrV, wrapped Iface) Value {
	if c.in.errStr == nil {
		unsup("errors.errorString not loaded")
	}
	t := c.in.errStr.(*types.Pointer).Elem()
	o := c.st.newTyped(t, 1, "error")
	c.in.store(c.st, Ptr{Obj: o.id}, strT, s)
	if wrapped.T != nil {
		c.st.wobj(o.id).extra = wrapped
	}
	return Iface{c.in.errStr, Ptr{Obj: o.id}}
}

func (in *Interp) writeMethod(t types.Type) *ssa.Function {
	in.convMu.Lock()
	defer in.convMu.Unlock()
	sel := in.prog.MethodSets.MethodSet(t).Lookup(nil, "Write")
	if sel == nil {
		unsup("no Write on %v", t)
	}
	return in.prog.MethodValue(sel)
}

// ---- formatting ----

func (in *Interp) sprint(st *State, args Slice, ln bool) StrV {
	ifT := types.NewInterfaceType(nil, nil)
	var out []Value
	prevStr := true
	for i := int64(0); i < args.Len; i++ {
		v := loadT(st.obj(args.Obj), args.Off+i*16, ifT).(Iface)
		_, isStr := v.V.(StrV)
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = append(out, mkConst(8, ' '))
		}
		prevStr = isStr
		out = in.fmtArg(st, out, "%v", 'v', v)
	}
	if ln {
		out = append(out, mkConst(8, '\n'))
	}
	return normStr(out)
}

func appendStr(out []Value, s StrV) []Value {
	for i := 0; i < s.Len(); i++ {
		out = append(out, s.at(i))
	}
	return out
}

func (in *Interp) format(st *State, fs StrV, args Slice, wrapped *Iface) StrV {
	if fs.b != nil {
		unsup("symbolic format string")
	}
	ifT := types.NewInterfaceType(nil, nil)
	var out []Value
	argi := int64(0)
	s := fs.s
	for i := 0; i < len(s); {
		if s[i] != '%' {
			out = append(out, mkConst(8, uint64(s[i])))
			i++
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			break
		}
		verb := s[j]
		spec := s[i : j+1]
		i = j + 1
		if verb == '%' {
			out = append(out, mkConst(8, '%'))
			continue
		}
		if argi >= args.Len {
			out = appendStr(out, StrV{s: "%!" + string(verb) + "(MISSING)"})
			continue
		}
		v := loadT(st.obj(args.Obj), args.Off+argi*16, ifT).(Iface)
		argi++
		if verb == 'w' && wrapped != nil {
			*wrapped = v
			verb, spec = 'v', "%v"
		}
		out = in.fmtArg(st, out, spec, verb, v)
	}
	return normStr(out)
}

func (in *Interp) fmtArg(st *State, out []Value, spec string, verb byte, v Iface) []Value {
	if v.T == nil {
		return appendStr(out, StrV{s: "<nil>"})
	}
	put := func(x interface{}) []Value { return appendStr(out, StrV{s: fmt.Sprintf(spec, x)}) }
	isErr := false
	if ms := in.methodNamed(v.T, "Error"); ms {
		isErr = true
	}
	switch x := v.V.(type) {
	case *Term:
		if x.w == 0 {
			if x.isConst() {
				return put(x.k == 1)
			}
			return append(out, TokenV{kind: "bool", t: x})
		}
		if !x.isConst() {
			if verb == 'c' {
				return append(out, mkExtract(x, 7, 0))
			}
			k := "dec"
			if verb != 'd' && verb != 'v' {
				k = "fmt" + spec
			}
			return append(out, TokenV{kind: k, t: ext64(x, isSigned(v.T))})
		}
		if isSigned(v.T) {
			return put(sx(x.k, x.w))
		}
		if x.w == 8 {
			return put(byte(x.k))
		}
		return put(x.k)
	case StrV:
		if x.b == nil {
			return put(x.s)
		}
		return appendStr(out, x)
	case Slice:
		if sl, ok := v.T.Underlying().(*types.Slice); ok && sizeofT(sl.Elem()) == 1 {
			b := normStr(in.bytesOf(st, x))
			if b.b == nil {
				return put([]byte(b.s))
			}
			return appendStr(out, b)
		}
		return appendStr(out, StrV{s: "[?]"})
	case FloatV:
		return put(float64(x))
	case Ptr:
		if isErr && x.Obj != 0 {
			o := st.obj(x.Obj)
			if s, ok := o.cells.get(0).(StrV); ok {
				return appendStr(out, s)
			}
			return appendStr(out, StrV{s: "?error"})
		}
		return appendStr(out, StrV{s: "0xPTR"})
	}
	return appendStr(out, StrV{s: "?"})
}

func (in *Interp) methodNamed(t types.Type, name string) bool {
	in.convMu.Lock()
	defer in.convMu.Unlock()
	ms := in.prog.MethodSets.MethodSet(t)
	return ms.Lookup(nil, name) != nil
}

// ---- snappy stub: Encode yields opaque bytes naming a snapshot of the input ----

const snapLen = 6

type snapshot struct {
	id   int
	n    int64
	vals PVec
	str  int64
	wide bool
	lo   int64
}

func (c *ictx) stubSnappy() bool { return true }

func snapOf(src []Value) *snapshot {
	if len(src) != snapLen {
		return nil
	}
	var s *snapshot
	for i, v := range src {
		t, ok := v.(TokenV)
		if !ok || t.kind != "snap"+strconv.Itoa(i) {
			return nil
		}
		x := t.data.(*snapshot)
		if s != nil && x != s {
			return nil
		}
		s = x
	}
	return s
}

func iSnappyEncode(c *ictx) Value {
	dst, src := c.args[0].(Slice), c.args[1].(Slice)
	var o *Obj
	snap := &snapshot{n: src.Len, str: 8}
	if src.Len > 0 {
		o = c.st.obj(src.Obj)
		// share the cells copy-on-write: later writes by this state copy them
		snap.vals = o.cells
		snap.str = o.stride
		snap.wide = o.wide
		snap.lo = src.Off
		c.st.tok = new(Token)
	}
	r := dst
	if dst.Len < 32+src.Len+src.Len/6 {
		n := 32 + src.Len + src.Len/6
		no := c.st.newObj(n, 1, "snappy")
		r = Slice{no.id, 0, n, n}
	}
	ro := c.st.wobj(r.Obj)
	for i := int64(0); i < snapLen; i++ {
		ro.storeCell(c.st.tok, r.Off+i, TokenV{kind: "snap" + strconv.Itoa(int(i)), data: snap})
	}
	return Slice{r.Obj, r.Off, snapLen, r.Cap}
}

func (c *ictx) snapErr() Value {
	return c.newError(StrV{s: "snappy: corrupt input"}, Iface{})
}

func iSnappyDecode(c *ictx) Value {
	dst, src := c.args[0].(Slice), c.args[1].(Slice)
	snap := snapOf(c.in.bytesOf(c.st, src))
	if snap == nil {
		return TupleV{Slice{}, c.snapErr()}
	}
	r := dst
	if dst.Len < snap.n {
		o := c.st.newObj(snap.n, snap.str, "snappydec")
		r = Slice{o.id, 0, snap.n, snap.n}
	}
	o := c.st.wobj(r.Obj)
	if o.stride != snap.str || snap.lo%snap.str != 0 || r.Off%o.stride != 0 {
		// byte-wise
		tmp := &Obj{size: snap.lo + snap.n, stride: snap.str, wide: snap.wide, cells: snap.vals}
		for i := int64(0); i < snap.n; i++ {
			o.storeCell(c.st.tok, r.Off+i, tmp.loadByte(snap.lo+i))
		}
	} else {
		lo := int(r.Off / o.stride)
		for _, i := range o.cells.populated(lo, lo+int(snap.n/o.stride)) {
			o.cells.set(c.st.tok, i, nil)
		}
		slo := int(snap.lo / snap.str)
		for _, i := range snap.vals.populated(slo, slo+int(snap.n/snap.str)) {
			o.cells.set(c.st.tok, i-slo+lo, snap.vals.get(i))
		}
	}
	return TupleV{Slice{r.Obj, r.Off, snap.n, r.Cap}, Iface{}}
}
