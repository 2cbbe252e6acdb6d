package main

import (
	"go/types"
	"sync"
	"sync/atomic"
)

type Obj struct {
	tok    *Token
	id     int
	size   int64
	stride int64
	wide   bool // some cell may span several slots
	cells  PVec
	extra  Value // *MapData, *ChanData
	name   string
	shared bool
}

// ---- heap ----

func (st *State) obj(id int) *Obj {
	o, _ := st.heap.get(id).(*Obj)
	if o == nil {
		unsup("dangling object %d", id)
	}
	return o
}

func (st *State) wobj(id int) *Obj {
	o := st.obj(id)
	if o.tok != st.tok {
		c := *o
		c.tok = st.tok
		o = &c
		st.heap.set(st.tok, id, o)
	}
	return o
}

func (st *State) newObj(size, stride int64, name string) *Obj {
	var id int
	if st.base == nil {
		st.nobj++
		id = st.nobj
	} else {
		// numbered per goroutine: independent of the interleaving
		th := st.threads[st.cur]
		if th.id >= 16 {
			unsup("more than 16 goroutines")
		}
		id = st.base.nobj + 1 + th.nobj*16 + th.id
		th.nobj++
	}
	if stride <= 0 {
		stride = 8
	}
	o := &Obj{tok: st.tok, id: id, size: size, stride: stride, name: name}
	st.heap.set(st.tok, o.id, o)
	return o
}

func (st *State) newTyped(t types.Type, n int64, name string) *Obj {
	return st.newObj(sizeofT(t)*n, minPrim(t), name)
}

// findCell returns the slot index of the cell covering byte off, or -1.
func (o *Obj) findCell(off int64) (int64, Value) {
	i := off / o.stride
	if v := o.cells.get(int(i)); v != nil {
		return i, v
	}
	if o.wide {
		for j := i - 1; j >= 0 && (i-j)*o.stride < 24; j-- {
			if v := o.cells.get(int(j)); v != nil {
				if j*o.stride+valSize(v) > off {
					return j, v
				}
				return -1, nil
			}
		}
	}
	return -1, nil
}

func (o *Obj) loadByte(off int64) Value {
	i, v := o.findCell(off)
	if v == nil {
		return mkConst(8, 0)
	}
	d := off - i*o.stride
	switch v := v.(type) {
	case TokenV:
		return v
	case *Term:
		if v.w == 0 {
			return boolToBV(v, 8)
		}
		if int64(v.w) <= d*8 {
			return mkConst(8, 0)
		}
		return mkExtract(v, uint8(d*8+7), uint8(d*8))
	case Ptr:
		if v.Obj == 0 && v.Idx == nil {
			return mkConst(8, 0)
		}
	}
	unsup("byte access into %T cell", v)
	return nil
}

// loadScalar loads an integer of the given byte size.
func (o *Obj) loadScalar(off, size int64) Value {
	if off%o.stride == 0 {
		v := o.cells.get(int(off / o.stride))
		if v != nil {
			switch t := v.(type) {
			case *Term:
				if t.w == 0 && size == 1 {
					return boolToBV(t, 8)
				}
				if int64(t.w) == size*8 {
					return t
				}
				if int64(t.w) > size*8 {
					return mkExtract(t, uint8(size*8-1), 0)
				}
			case TokenV:
				if size == valSize(t) {
					return t
				}
			case Ptr:
				if size == 8 {
					if t.Obj == 0 && t.Idx == nil {
						return mkConst(64, 0)
					}
					return t
				}
			case Slice:
				if size == 8 {
					return Ptr{Obj: t.Obj, Off: t.Off}
				}
			}
		} else if !o.wide && size <= o.stride {
			return mkConst(uint8(size*8), 0)
		}
	}
	if i, v := o.findCell(off); v != nil {
		if s, ok := v.(Slice); ok && size == 8 {
			switch off - i*o.stride {
			case 8:
				return mkConst(64, uint64(s.Len))
			case 16:
				return mkConst(64, uint64(s.Cap))
			}
		}
		if t, ok := v.(*Term); ok && t.w > 0 {
			d := off - i*o.stride
			if d*8+size*8 <= int64(t.w) {
				return mkExtract(t, uint8(d*8+size*8-1), uint8(d*8))
			}
		}
	}
	var r *Term
	for k := int64(0); k < size; k++ {
		b, ok := o.loadByte(off + k).(*Term)
		if !ok {
			unsup("multi-byte access to token")
		}
		r = mkConcat(b, r)
	}
	return r
}

// storeCell stores a primitive value at off. o must be writable.
func (o *Obj) storeCell(tok *Token, off int64, v Value) {
	size := valSize(v)
	if off%o.stride == 0 && size >= o.stride {
		i := off / o.stride
		old := o.cells.get(int(i))
		if size == o.stride {
			if old == nil {
				if o.wide {
					if _, c := o.findCell(off); c != nil {
						o.storeBytes(tok, off, size, v)
						return
					}
				}
				o.cells.set(tok, int(i), v)
				return
			}
			if valSize(old) == size {
				o.cells.set(tok, int(i), v)
				return
			}
			// old is larger
			if _, ok := old.(*Term); ok {
				o.storeBytes(tok, off, size, v)
				return
			}
			o.cells.set(tok, int(i), v)
			return
		}
		// spans several slots
		if old == nil && o.wide {
			if j, c := o.findCell(off); c != nil && j != i {
				o.storeBytes(tok, off, size, v)
				return
			}
		}
		if old == nil || valSize(old) != size {
			n := size / o.stride
			for j := int64(1); j < n; j++ {
				if w := o.cells.get(int(i + j)); w != nil {
					if valSize(w) > size-j*o.stride {
						unsup("partial overwrite of a wide cell")
					}
					o.cells.set(tok, int(i+j), nil)
				}
			}
		}
		o.wide = true
		o.cells.set(tok, int(i), v)
		return
	}
	o.storeBytes(tok, off, size, v)
}

// storeBytes is the slow path: read-modify-write of overlapping cells.
func (o *Obj) storeBytes(tok *Token, off, size int64, v Value) {
	t, ok := v.(*Term)
	if !ok {
		if _, isTok := v.(TokenV); isTok && size == 1 && o.stride == 1 {
			o.splitCell(tok, off)
			o.cells.set(tok, int(off), v)
			return
		}
		unsup("unaligned store of %T", v)
	}
	if t.w == 0 {
		t = boolToBV(t, 8)
	}
	for k := int64(0); k < size; k++ {
		b := mkExtract(t, uint8(k*8+7), uint8(k*8))
		a := off + k
		i, c := o.findCell(a)
		if c == nil {
			i = a / o.stride
			c = mkConst(uint8(o.stride*8), 0)
		}
		ct, ok := c.(*Term)
		if !ok {
			if p, isP := c.(Ptr); isP && p.Obj == 0 {
				ct = mkConst(64, 0)
			} else if _, isT := c.(TokenV); isT {
				ct = mkConst(8, 0)
			} else {
				unsup("byte store into %T cell", c)
			}
		}
		if ct.w == 0 {
			ct = boolToBV(ct, 8)
		}
		d := uint8(a - i*o.stride)
		var r *Term
		if d > 0 {
			r = mkExtract(ct, d*8-1, 0)
		}
		r = mkConcat(b, r)
		if (d+1)*8 < ct.w {
			r = mkConcat(mkExtract(ct, ct.w-1, (d+1)*8), r)
		}
		o.cells.set(tok, int(i), r)
	}
}

func (o *Obj) splitCell(tok *Token, off int64) {
	i, c := o.findCell(off)
	if c == nil {
		return
	}
	n := valSize(c)
	if n == 1 {
		return
	}
	bs := make([]Value, n)
	for k := int64(0); k < n; k++ {
		bs[k] = o.loadByte(i*o.stride + k)
	}
	for k := int64(0); k < n; k++ {
		o.cells.set(tok, int(i+k), bs[k])
	}
}

// ---- typed access ----

func (in *Interp) load(st *State, p Ptr, t types.Type) Value {
	o := st.obj(p.Obj)
	if p.Idx != nil {
		return in.loadSym(st, o, p, t)
	}
	if p.Off < 0 || p.Off+sizeofT(t) > o.size {
		unsup("wild load at %s+%d size %d of %d", o.name, p.Off, sizeofT(t), o.size)
	}
	return loadT(o, p.Off, t)
}

func loadT(o *Obj, off int64, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if off%o.stride == 0 {
				if v, ok := o.cells.get(int(off / o.stride)).(*Term); ok && v.w == 0 {
					return v
				}
			}
			v := o.loadScalar(off, 1).(*Term)
			return mkNot(mkEq(v, mkConst(8, 0)))
		case u.Info()&types.IsInteger != 0:
			return o.loadScalar(off, sizeofT(t))
		}
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i, fo := range fieldOffsets(u) {
			s[i] = loadT(o, off+fo, u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := u.Len()
		if n > 1<<14 {
			unsup("load of array of length %d", n)
		}
		s := make(ArrV, n)
		es := sizeofT(u.Elem())
		for i := range s {
			s[i] = loadT(o, off+int64(i)*es, u.Elem())
		}
		return s
	}
	var v Value
	if off%o.stride == 0 {
		v = o.cells.get(int(off / o.stride))
	}
	if v == nil {
		if o.wide {
			if i, c := o.findCell(off); c != nil {
				if _, isT := c.(*Term); !isT {
					// interior word of a slice/string header
					_ = i
					return o.loadScalar(off, sizeofT(t))
				}
			}
		}
		return zeroOf(t)
	}
	switch t.Underlying().(type) {
	case *types.Slice:
		switch h := v.(type) {
		case Slice:
			return h
		case Ptr, *Term:
			// slice header assembled from words
			l, ok1 := o.loadScalar(off+8, 8).(*Term)
			c, ok2 := o.loadScalar(off+16, 8).(*Term)
			if !ok1 || !ok2 || !l.isConst() || !c.isConst() {
				unsup("symbolic slice header")
			}
			p, ok := h.(Ptr)
			if !ok {
				unsup("slice header with integer data pointer")
			}
			return Slice{p.Obj, p.Off, int64(l.k), int64(c.k)}
		}
	case *types.Pointer:
		if tt, ok := v.(*Term); ok && tt.isConst() && tt.k == 0 {
			return Ptr{}
		}
		if s, ok := v.(Slice); ok {
			return Ptr{Obj: s.Obj, Off: s.Off}
		}
	case *types.Basic:
		if tt, ok := v.(*Term); ok && tt.isConst() && tt.k == 0 {
			return zeroOf(t)
		}
	}
	return v
}

// Caches which are read far more often than changed.
var (
	foMu    sync.Mutex
	foCache atomic.Pointer[map[*types.Struct][]int64]
	szCache atomic.Pointer[map[types.Type]int64]
)

func cachePut[K comparable, V any](p *atomic.Pointer[map[K]V], k K, v V) {
	foMu.Lock()
	defer foMu.Unlock()
	n := map[K]V{k: v}
	if m := p.Load(); m != nil {
		for k, v := range *m {
			n[k] = v
		}
	}
	p.Store(&n)
}

func fieldOffsets(u *types.Struct) []int64 {
	if m := foCache.Load(); m != nil {
		if r, ok := (*m)[u]; ok {
			return r
		}
	}
	fs := make([]*types.Var, u.NumFields())
	for i := range fs {
		fs[i] = u.Field(i)
	}
	r := sizes.Offsetsof(fs)
	cachePut(&foCache, u, r)
	return r
}

func sizeofT(t types.Type) int64 {
	switch t := t.(type) {
	case *types.Basic:
		return sizes.Sizeof(t)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return 8
	case *types.Slice:
		return 24
	}
	if m := szCache.Load(); m != nil {
		if r, ok := (*m)[t]; ok {
			return r
		}
	}
	r := sizes.Sizeof(t)
	cachePut(&szCache, t, r)
	return r
}

func (in *Interp) store(st *State, p Ptr, t types.Type, v Value) {
	if p.Idx != nil {
		in.storeSym(st, p, t, v)
		return
	}
	o := st.wobj(p.Obj)
	if p.Off < 0 || p.Off+sizeofT(t) > o.size {
		unsup("wild store at %s+%d size %d of %d", o.name, p.Off, sizeofT(t), o.size)
	}
	storeT(st, o, p.Off, t, v)
}

func storeT(st *State, o *Obj, off int64, t types.Type, v Value) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := v.(StructV)
		for i, fo := range fieldOffsets(u) {
			storeT(st, o, off+fo, u.Field(i).Type(), s[i])
		}
		return
	case *types.Array:
		s := v.(ArrV)
		es := sizeofT(u.Elem())
		for i := range s {
			storeT(st, o, off+int64(i)*es, u.Elem(), s[i])
		}
		return
	}
	if f, ok := v.(*FuncV); ok && f == nil {
		v = Ptr{} // nil func
	}
	if f, ok := v.(FloatV); ok {
		_ = f
		unsup("float in memory")
	}
	o.storeCell(st.tok, off, v)
}

// loadSym loads through a pointer with a symbolic index.
func (in *Interp) loadSym(st *State, o *Obj, p Ptr, t types.Type) Value {
	n := p.N
	if p.Idx.umax+1 < uint64(n) {
		n = int64(p.Idx.umax) + 1
	}
	counts := map[*Term]int{}
	vals := make([]*Term, n)
	var def *Term
	best := 0
	canon := map[uint64]*Term{}
	for i := int64(0); i < n; i++ {
		v, ok := loadT(o, p.Off+i*p.Str, t).(*Term)
		if !ok {
			unsup("symbolic index into non-scalar data")
		}
		if v.isConst() {
			if c, ok := canon[v.k]; ok {
				v = c
			} else {
				canon[v.k] = v
			}
		}
		vals[i] = v
		counts[v]++
		if counts[v] > best {
			best, def = counts[v], v
		}
	}
	r := def
	for i := n - 1; i >= 0; i-- {
		if vals[i] != def {
			r = mkIte(mkEq(p.Idx, mkConst(p.Idx.w, uint64(i))), vals[i], r)
		}
	}
	return r
}

func (in *Interp) storeSym(st *State, p Ptr, t types.Type, v Value) {
	o := st.wobj(p.Obj)
	n := p.N
	if p.Idx.umax+1 < uint64(n) {
		n = int64(p.Idx.umax) + 1
	}
	nv, ok := v.(*Term)
	if !ok {
		unsup("symbolic store of non-scalar")
	}
	for i := int64(0); i < n; i++ {
		c := mkEq(p.Idx, mkConst(p.Idx.w, uint64(i)))
		if c == tFalse {
			continue
		}
		old := loadT(o, p.Off+i*p.Str, t).(*Term)
		storeT(st, o, p.Off+i*p.Str, t, mkIte(c, nv, old))
	}
}
