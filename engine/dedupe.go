package main

import (
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"unsafe"
)

// Different interleavings of the controlled goroutines often reach the same
// state. When a controlled goroutine ends, the state is compared with those
// seen before (a 128-bit hash of everything that changed since vvJoin: heap
// cells, frames of the remaining goroutines, path condition apart from the
// scheduling variables, inputs and outputs). A path that reaches a state seen
// before ends there as merged: what follows is the same for every value.

type baseSnap struct {
	heap PVec
	nobj int
	pcs  *pcNode
	nd   int
}

type hash128 struct{ a, b uint64 }

func (h *hash128) add(x uint64) {
	h.a = (h.a ^ x) * 0x9fb21c651e98df25
	h.a ^= h.a >> 32
	h.b = (h.b + x*0xc2b2ae3d27d4eb4f) * 0x9e3779b97f4a7c15
	h.b ^= h.b >> 29
}

type stateKey struct {
	base *baseSnap
	h    hash128
}

// seenTable: stateKey -> *int32 (1: a violation was found behind it)
type seenTable struct {
	m      sync.Map
	merged int64
}

type cannotHash struct{}

func (h *hash128) addStr(s string) {
	h.add(uint64(len(s)))
	for i := 0; i < len(s); i++ {
		h.add(uint64(s[i]))
	}
}

// term: constants are not interned, everything else is.
func (h *hash128) term(t *Term) {
	if t.isConst() {
		h.add(15)
		h.add(uint64(t.w))
		h.add(t.k)
		return
	}
	h.add(2)
	h.add(t.id)
}

func (h *hash128) val(v Value) {
	switch x := v.(type) {
	case nil:
		h.add(1)
	case *Term:
		h.term(x)
	case Ptr:
		h.add(3)
		h.add(uint64(x.Obj))
		h.add(uint64(x.Off))
		if x.Idx != nil {
			h.term(x.Idx)
			h.add(uint64(x.Str))
			h.add(uint64(x.N))
		}
	case Slice:
		h.add(4)
		h.add(uint64(x.Obj))
		h.add(uint64(x.Off))
		h.add(uint64(x.Len))
		h.add(uint64(x.Cap))
	case StrV:
		h.add(5)
		if x.b == nil {
			h.addStr(x.s)
		} else {
			h.vals(x.b)
		}
	case Iface:
		h.add(6)
		if x.T != nil {
			h.addStr(x.T.String())
		}
		h.val(x.V)
	case StructV:
		h.add(7)
		h.vals(x)
	case ArrV:
		h.add(8)
		h.vals(x)
	case TupleV:
		h.add(9)
		h.vals(x)
	case *FuncV:
		h.add(10)
		if x != nil {
			if x.nat != nil {
				panic(cannotHash{})
			}
			if x.fn != nil {
				h.add(uint64(uintptr(unsafe.Pointer(x.fn))))
			}
			if x.bi != nil {
				h.add(uint64(uintptr(unsafe.Pointer(x.bi))))
			}
			h.vals(x.env)
		}
	case MapV:
		h.add(11)
		h.add(uint64(x.Obj))
	case ChanV:
		h.add(12)
		h.add(uint64(x.Obj))
	case TokenV:
		if x.data != nil {
			panic(cannotHash{})
		}
		h.add(13)
		h.addStr(x.kind)
		if x.t != nil {
			h.term(x.t)
		}
		h.add(uint64(x.sz))
	case Opaque:
		h.add(14)
		h.addStr(x.what)
	case FloatV:
		h.add(16)
		h.add(math.Float64bits(float64(x)))
	default:
		panic(cannotHash{})
	}
}

func (h *hash128) vals(vs []Value) {
	h.add(uint64(len(vs)))
	for _, v := range vs {
		h.val(v)
	}
}

func sameVal(a, b Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	var x, y hash128
	x.val(a)
	y.val(b)
	return x == y
}

// diff calls f for every index whose element differs from the base's.
func (v *PVec) diff(base *PVec, f func(i int, x, old interface{})) {
	if v.root == base.root {
		return
	}
	a, sa := v.root, v.shift
	b, sb := base.root, base.shift
	// bring both to the same height
	var walk func(a, b *pnode, shift uint, pre int)
	walk = func(a, b *pnode, shift uint, pre int) {
		if a == b {
			return
		}
		for k := 0; k < pvFan; k++ {
			var x, y interface{}
			if a != nil {
				x = a.kids[k]
			}
			if b != nil {
				y = b.kids[k]
			}
			i := pre | k<<shift
			if shift == 0 {
				if x != nil || y != nil {
					f(i, x, y)
				}
				continue
			}
			if x == nil && y == nil {
				continue
			}
			var an, bn *pnode
			if x != nil {
				an = x.(*pnode)
			}
			if y != nil {
				bn = y.(*pnode)
			}
			walk(an, bn, shift-pvBits, i)
		}
	}
	for sa > sb {
		nb := &pnode{}
		if b != nil {
			nb.kids[0] = b
		}
		b = nb
		sb += pvBits
	}
	for sb > sa {
		na := &pnode{}
		if a != nil {
			na.kids[0] = a
		}
		a = na
		sa += pvBits
	}
	walk(a, b, sa, 0)
}

func isSchedTerm(t *Term) bool {
	if len(t.vs) == 0 {
		return false
	}
	for _, v := range t.vs {
		if !isSchedVar(v) {
			return false
		}
	}
	return true
}

func isSchedVar(v int32) bool {
	n := varInfoOf(v).name
	return strings.HasPrefix(n, "preempt") || strings.HasPrefix(n, "next")
}

// stateHash computes the key of the state; ok is false if it holds a value
// that cannot be compared.
func (st *State) stateHash() (k stateKey, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(cannotHash); !is {
				panic(r)
			}
			ok = false
		}
	}()
	b := st.base
	if b == nil {
		return
	}
	var h hash128
	// path condition: a set
	var s, p uint64
	n := 0
	seen := map[uint64]bool{}
	for c := st.pcs; c != nil && c != b.pcs; c = c.next {
		if isSchedTerm(c.t) || seen[c.t.id] {
			continue
		}
		seen[c.t.id] = true
		var x hash128
		x.add(c.t.id)
		s += x.a
		p += x.b
		n++
	}
	h.add(s)
	h.add(p)
	h.add(uint64(n))
	h.add(uint64(len(st.nd)))
	for _, r := range st.nd[b.nd:] {
		h.term(r.t)
	}
	h.add(uint64(len(st.outs)))
	for _, o := range st.outs {
		h.addStr(o.label)
		h.val(o.v)
	}
	alive := false
	for _, t := range st.threads {
		h.add(uint64(t.status))
		if t.status == tDone {
			continue
		}
		if t.ctl {
			alive = true
		}
		h.add(uint64(t.nobj))
		h.addStr(t.why)
		h.add(bu(t.retry) | bu(t.spin)<<1 | bu(t.quies)<<2)
		h.add(uint64(t.gosched))
		for _, c := range t.cases {
			h.add(uint64(c.ch))
			h.add(bu(c.send))
			h.val(c.val)
			h.add(uint64(c.idx))
		}
		h.add(uint64(len(t.frames)))
		for _, f := range t.frames {
			h.add(uint64(uintptr(unsafe.Pointer(f.fn))))
			h.add(uint64(f.blk))
			h.add(uint64(f.prev))
			h.add(uint64(f.pc))
			h.add(uint64(f.dst))
			h.add(bu(f.stay) | bu(f.panicking)<<1 | bu(f.recovered)<<2)
			h.add(uint64(f.deferOf))
			if f.onRet != nil {
				panic(cannotHash{})
			}
			if f.panicking {
				h.val(f.pval)
			}
			h.vals(f.regs)
			for _, d := range f.defers {
				h.val(d.fn)
				h.vals(d.args)
				h.add(uint64(uintptr(unsafe.Pointer(d.call))))
			}
		}
	}
	if alive {
		h.add(uint64(st.preempt))
		if !st.hashed {
			h.add(uint64(st.lastSync) + 100) // at a switch: the goroutine to run
		}
		h.add(uint64(st.gos))
	}
	h.add(uint64(len(st.claims)))
	for _, c := range st.claims {
		h.term(c)
	}
	st.heap.diff(&b.heap, func(i int, x, old interface{}) {
		o := x.(*Obj)
		var bo *Obj
		if old != nil {
			bo = old.(*Obj)
		}
		if o == bo {
			return
		}
		first := true
		mark := func() {
			if first {
				first = false
				h.add(uint64(i))
				h.add(uint64(o.size))
				h.add(uint64(o.stride))
			}
		}
		if bo == nil {
			mark()
		}
		var bc PVec
		if bo != nil {
			bc = bo.cells
		}
		o.cells.diff(&bc, func(j int, x, y interface{}) {
			if sameVal(x, y) {
				return
			}
			mark()
			h.add(uint64(j))
			h.val(x)
		})
		if o.extra != nil {
			e := extraHash(o.extra)
			if bo == nil || bo.extra == nil || extraHash(bo.extra) != e {
				mark()
				h.add(e.a)
				h.add(e.b)
			}
		}
	})
	return stateKey{b, h}, true
}

func bu(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// mergeOrGo ends the path if the state was seen before.
func (in *Interp) mergeOrGo(st *State) {
	t := in.cfg.seen
	if t == nil || st.base == nil {
		return
	}
	k, ok := st.stateHash()
	if !ok {
		atomic.AddInt64(&unhashable, 1)
		return
	}
	bad := new(int32)
	if x, dup := t.m.LoadOrStore(k, bad); dup {
		if atomic.LoadInt32(x.(*int32)) == 0 {
			panic(pathEnd{endMerged, ""})
		}
		bad = x.(*int32)
	}
	st.marks = append(st.marks[:len(st.marks):len(st.marks)], bad)
}

var unhashable int64

func extraHash(x Value) (h hash128) {
	switch e := x.(type) {
	case *MapData:
		h.add(21)
		h.vals(e.keys)
		h.vals(e.vals)
	case *ChanData:
		h.add(22)
		h.add(uint64(e.capn))
		h.add(bu(e.closed))
		h.vals(e.buf)
	case []Value:
		h.add(23)
		h.vals(e)
	default:
		h.val(x)
	}
	return
}
