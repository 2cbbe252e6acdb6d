package main

// Terms: hash-consed bit-vector / boolean expressions with a strong local
// simplifier. Width 0 is Bool. All bit-vectors are 1..64 bits wide.

import (
	"fmt"
	"math/bits"
	"sync"
	"sync/atomic"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OSlt
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OSext
)

type Term struct {
	op      Op
	w       uint8
	k       uint64 // constant value, extract low bit, var index
	a, b, c *Term
	id      uint64
	umax    uint64
	vs      []int32 // sorted var ids
	size    int32
}

func (t *Term) isConst() bool { return t.op == OConst }

type termKey struct {
	op         Op
	w          uint8
	fl         uint8
	k, a, b, c uint64
}

const nshard = 64

type internShard struct {
	mu sync.Mutex
	m  map[termKey]*Term
}

var interns [nshard]internShard
var simpCache [nshard]internShard
var termID uint64

func init() {
	for i := range interns {
		interns[i].m = make(map[termKey]*Term)
		simpCache[i].m = make(map[termKey]*Term)
	}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func keyOf(op Op, w uint8, k uint64, a, b, c *Term) termKey {
	key := termKey{op: op, w: w, k: k}
	f := func(t *Term, bit uint8) uint64 {
		if t == nil {
			return 0
		}
		if t.op == OConst {
			key.fl |= bit
			return t.k ^ uint64(t.w)<<57
		}
		return t.id
	}
	key.a = f(a, 1)
	key.b = f(b, 2)
	key.c = f(c, 4)
	return key
}

func (k *termKey) shard() uint64 {
	h := uint64(k.op)*0x9e3779b97f4a7c15 ^ k.k*0xff51afd7ed558ccd ^ k.a*0xc4ceb9fe1a85ec53 ^ k.b*0x165667b19e3779f9 ^ k.c*0x27d4eb2f165667c5
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	return (h >> 40) % nshard
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset fast path
	i, j := 0, 0
	r := make([]int32, 0, len(a)+len(b))
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			r = append(r, a[i])
			i++
			j++
		} else if a[i] < b[j] {
			r = append(r, a[i])
			i++
		} else {
			r = append(r, b[j])
			j++
		}
	}
	r = append(r, a[i:]...)
	r = append(r, b[j:]...)
	if len(r) == len(a) {
		return a
	}
	if len(r) == len(b) {
		return b
	}
	return r
}

func intern(op Op, w uint8, k uint64, a, b, c *Term) *Term {
	key := keyOf(op, w, k, a, b, c)
	s := &interns[key.shard()]
	s.mu.Lock()
	if t, ok := s.m[key]; ok {
		s.mu.Unlock()
		return t
	}
	t := &Term{op: op, w: w, k: k, a: a, b: b, c: c}
	t.id = atomic.AddUint64(&termID, 1)
	t.size = 1
	for _, x := range []*Term{a, b, c} {
		if x != nil {
			t.vs = mergeVars(t.vs, x.vs)
			t.size += x.size
			if t.size > 1<<20 {
				t.size = 1 << 20
			}
		}
	}
	if op == OVar {
		t.vs = []int32{int32(k)}
	}
	t.umax = umaxOf(t)
	s.m[key] = t
	s.mu.Unlock()
	return t
}

func umaxOf(t *Term) uint64 {
	m := mask(t.w)
	switch t.op {
	case OConst:
		return t.k
	case OIte:
		x, y := t.b.umax, t.c.umax
		if x < y {
			x = y
		}
		return x
	case OConcat:
		return t.a.umax<<t.b.w | t.b.umax
	case OExtract:
		if t.k == 0 && t.a.umax < m {
			return t.a.umax
		}
		return m
	case OAdd:
		s := t.a.umax + t.b.umax
		if s >= t.a.umax && s <= m {
			return s
		}
		return m
	case OBAnd:
		x, y := t.a.umax, t.b.umax
		if x > y {
			x = y
		}
		return x
	case OBOr, OBXor:
		x := t.a.umax | t.b.umax
		if x == 0 {
			return 0
		}
		return mask(uint8(bits.Len64(x)))
	case OLshr:
		return t.a.umax
	case OURem:
		if t.b.isConst() && t.b.k > 0 {
			return t.b.k - 1
		}
	case OUDiv:
		if t.b.isConst() && t.b.k > 0 {
			return t.a.umax / t.b.k
		}
	}
	return m
}

// cached wraps a simplifying constructor with a result cache.
func cached(op Op, w uint8, k uint64, a, b, c *Term, f func() *Term) *Term {
	key := keyOf(op, w, k, a, b, c)
	s := &simpCache[key.shard()]
	s.mu.Lock()
	t, ok := s.m[key]
	s.mu.Unlock()
	if ok {
		return t
	}
	t = f()
	s.mu.Lock()
	s.m[key] = t
	s.mu.Unlock()
	return t
}

var smallConsts [65][]*Term
var tTrue = &Term{op: OConst, w: 0, k: 1, size: 1, umax: 1}
var tFalse = &Term{op: OConst, w: 0, k: 0, size: 1}

func init() {
	for _, w := range []uint8{1, 8, 16, 32, 64} {
		n := 1024
		if w < 10 {
			n = 1 << w
		}
		smallConsts[w] = make([]*Term, n)
		for i := range smallConsts[w] {
			smallConsts[w][i] = &Term{op: OConst, w: w, k: uint64(i), size: 1, umax: uint64(i)}
		}
	}
}

func mkConst(w uint8, k uint64) *Term {
	if w == 0 {
		return mkBool(k != 0)
	}
	k &= mask(w)
	if sc := smallConsts[w]; k < uint64(len(sc)) {
		return sc[k]
	}
	return &Term{op: OConst, w: w, k: k, size: 1, umax: k}
}

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// variables
type varInfo struct {
	name string
	w    uint8
	t    *Term
}

var varMu sync.RWMutex
var varByName = map[string]*Term{}
var varTable []varInfo

func mkVar(name string, w uint8) *Term {
	varMu.Lock()
	defer varMu.Unlock()
	if t, ok := varByName[name]; ok {
		if t.w != w {
			panic("var width mismatch " + name)
		}
		return t
	}
	id := len(varTable)
	t := intern(OVar, w, uint64(id), nil, nil, nil)
	varTable = append(varTable, varInfo{name, w, t})
	varByName[name] = t
	return t
}

func varInfoOf(id int32) varInfo {
	varMu.RLock()
	defer varMu.RUnlock()
	return varTable[id]
}

func same(a, b *Term) bool {
	if a == b {
		return true
	}
	return a.op == OConst && b.op == OConst && a.k == b.k && a.w == b.w
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

// ---- boolean ----

func mkNot(a *Term) *Term {
	if a.isConst() {
		return mkBool(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return intern(ONot, 0, 0, a, nil, nil)
}

func order(a, b *Term) (*Term, *Term) {
	if a.isConst() || (!b.isConst() && a.id <= b.id) {
		return a, b
	}
	return b, a
}

func mkAnd(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return tFalse
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return tFalse
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tFalse
	}
	a, b = order(a, b)
	return intern(OAnd, 0, 0, a, b, nil)
}

func mkOr(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 1 {
			return tTrue
		}
		return b
	}
	if b.isConst() {
		if b.k == 1 {
			return tTrue
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tTrue
	}
	a, b = order(a, b)
	return intern(OOr, 0, 0, a, b, nil)
}

func mkIte(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	if c.op == ONot {
		return mkIte(c.a, b, a)
	}
	if a.w == 0 {
		if a.isConst() {
			if a.k == 1 {
				return mkOr(c, b)
			}
			return mkAnd(mkNot(c), b)
		}
		if b.isConst() {
			if b.k == 1 {
				return mkOr(mkNot(c), a)
			}
			return mkAnd(c, a)
		}
	}
	if b.op == OIte && b.a == c {
		b = b.c
		if same(a, b) {
			return a
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
		if same(a, b) {
			return a
		}
	}
	// share common suffix segments (keeps tag bits concrete)
	return intern(OIte, a.w, 0, c, a, b)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.k == b.k)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 1 {
				return a
			}
			return mkNot(a)
		}
	}
	a, b = order(a, b)
	return cached(OEq, 0, 0, a, b, nil, func() *Term { return simpEq(a, b) })
}

func simpEq(a, b *Term) *Term {
	// a is const if any
	if a.isConst() {
		if a.k > b.umax {
			return tFalse
		}
		switch b.op {
		case OIte:
			if b.b.isConst() || b.c.isConst() || b.size < 4000 {
				return mkIte(b.a, mkEq(a, b.b), mkEq(a, b.c))
			}
		case OConcat:
			lw := b.b.w
			return mkAnd(mkEq(mkConst(b.a.w, a.k>>lw), b.a), mkEq(mkConst(lw, a.k), b.b))
		case OAdd:
			if b.a.isConst() {
				return mkEq(mkConst(a.w, a.k-b.a.k), b.b)
			}
		case OBXor:
			if b.a.isConst() {
				return mkEq(mkConst(a.w, a.k^b.a.k), b.b)
			}
		case OSext:
			sw := b.a.w
			if uint64(sx(a.k&mask(sw), sw))&mask(a.w) != a.k {
				return tFalse
			}
			return mkEq(mkConst(sw, a.k), b.a)
		}
		return intern(OEq, 0, 0, a, b, nil)
	}
	if a.op == OConcat || b.op == OConcat {
		// split at a boundary
		var lw uint8
		if a.op == OConcat {
			lw = a.b.w
		} else {
			lw = b.b.w
		}
		ah, al := mkExtract(a, a.w-1, lw), mkExtract(a, lw-1, 0)
		bh, bl := mkExtract(b, a.w-1, lw), mkExtract(b, lw-1, 0)
		// only split if it simplifies (avoid breaking vars needlessly)
		if a.op == OConcat && b.op == OConcat || ah.isConst() || bh.isConst() || al.isConst() || bl.isConst() {
			return mkAnd(mkEq(ah, bh), mkEq(al, bl))
		}
	}
	return intern(OEq, 0, 0, a, b, nil)
}

func mkUlt(a, b *Term) *Term {
	if same(a, b) {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.k < b.k)
	}
	if b.isConst() && b.k == 0 {
		return tFalse
	}
	if a.isConst() && a.k == mask(a.w) {
		return tFalse
	}
	if b.isConst() && a.umax < b.k {
		return tTrue
	}
	if a.isConst() && a.k >= b.umax {
		return tFalse
	}
	return cached(OUlt, 0, 0, a, b, nil, func() *Term {
		// narrow common leading zeros
		n := uint8(bits.Len64(a.umax | b.umax))
		if n == 0 {
			n = 1
		}
		if n < a.w && (a.op == OConcat || b.op == OConcat) {
			return mkUlt(mkExtract(a, n-1, 0), mkExtract(b, n-1, 0))
		}
		if b.isConst() && b.k == 1 {
			return mkEq(a, mkConst(a.w, 0))
		}
		if a.isConst() && a.k == 0 {
			return mkNot(mkEq(b, a))
		}
		if a.op == OIte && a.b.isConst() && a.c.isConst() || (a.op == OIte && b.isConst()) {
			return mkIte(a.a, mkUlt(a.b, b), mkUlt(a.c, b))
		}
		if b.op == OIte && a.isConst() {
			return mkIte(b.a, mkUlt(a, b.b), mkUlt(a, b.c))
		}
		return intern(OUlt, 0, 0, a, b, nil)
	})
}

func mkUle(a, b *Term) *Term { return mkNot(mkUlt(b, a)) }

func mkSlt(a, b *Term) *Term {
	if same(a, b) {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return mkBool(sx(a.k, a.w) < sx(b.k, b.w))
	}
	h := mask(a.w) >> 1
	if a.umax <= h && b.umax <= h {
		return mkUlt(a, b)
	}
	return cached(OSlt, 0, 0, a, b, nil, func() *Term {
		if a.op == OIte && b.isConst() {
			return mkIte(a.a, mkSlt(a.b, b), mkSlt(a.c, b))
		}
		if b.op == OIte && a.isConst() {
			return mkIte(b.a, mkSlt(a, b.b), mkSlt(a, b.c))
		}
		return intern(OSlt, 0, 0, a, b, nil)
	})
}

func mkSle(a, b *Term) *Term { return mkNot(mkSlt(b, a)) }

// ---- structure ----

func mkConcat(a, b *Term) *Term { // a high, b low
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	w := a.w + b.w
	if w > 64 {
		panic("concat too wide")
	}
	if a.isConst() && b.isConst() {
		return mkConst(w, a.k<<b.w|b.k)
	}
	// right-nested normal form: concat(concat(x,y),z) -> concat(x,concat(y,z))
	if a.op == OConcat {
		return mkConcat(a.a, mkConcat(a.b, b))
	}
	// merge with the head of b
	hd := b
	var tl *Term
	if b.op == OConcat {
		hd, tl = b.a, b.b
	}
	if a.isConst() && hd.isConst() {
		return mkConcat(mkConst(a.w+hd.w, a.k<<hd.w|hd.k), tl)
	}
	if a.op == OExtract && hd.op == OExtract && a.a == hd.a && a.k == hd.k+uint64(hd.w) {
		return mkConcat(mkExtract(a.a, uint8(a.k)+a.w-1, uint8(hd.k)), tl)
	}
	if a.op == OExtract && a.a == hd && a.k == uint64(hd.w) {
		// extract above a full... cannot happen (widths)
		_ = hd
	}
	return intern(OConcat, w, 0, a, b, nil)
}

func mkExtract(t *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if lo == 0 && w == t.w {
		return t
	}
	if hi < lo || hi >= t.w {
		panic(fmt.Sprintf("bad extract %d %d of width %d", hi, lo, t.w))
	}
	switch t.op {
	case OConst:
		return mkConst(w, t.k>>lo)
	case OExtract:
		return mkExtract(t.a, uint8(t.k)+hi, uint8(t.k)+lo)
	case OConcat:
		lw := t.b.w
		if hi < lw {
			return mkExtract(t.b, hi, lo)
		}
		if lo >= lw {
			return mkExtract(t.a, hi-lw, lo-lw)
		}
		return mkConcat(mkExtract(t.a, hi-lw, 0), mkExtract(t.b, lw-1, lo))
	}
	if t.umax>>lo == 0 {
		return mkConst(w, 0)
	}
	return cached(OExtract, w, uint64(lo), t, nil, nil, func() *Term {
		switch t.op {
		case OIte:
			return mkIte(t.a, mkExtract(t.b, hi, lo), mkExtract(t.c, hi, lo))
		case OBAnd, OBOr, OBXor:
			return mkBitop(t.op, mkExtract(t.a, hi, lo), mkExtract(t.b, hi, lo))
		case OAdd, OSub, OMul:
			if lo == 0 {
				x, y := mkExtract(t.a, hi, 0), mkExtract(t.b, hi, 0)
				switch t.op {
				case OAdd:
					return mkAdd(x, y)
				case OSub:
					return mkSub(x, y)
				}
				return mkMul(x, y)
			}
		case OSext:
			if hi < t.a.w {
				return mkExtract(t.a, hi, lo)
			}
		}
		return intern(OExtract, w, uint64(lo), t, nil, nil)
	})
}

func mkZext(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return mkExtract(t, w-1, 0)
	}
	return mkConcat(mkConst(w-t.w, 0), t)
}

func mkSext(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return mkExtract(t, w-1, 0)
	}
	if t.isConst() {
		return mkConst(w, uint64(sx(t.k, t.w)))
	}
	if t.umax <= mask(t.w)>>1 {
		return mkZext(t, w)
	}
	return intern(OSext, w, 0, t, nil, nil)
}

func boolToBV(t *Term, w uint8) *Term { return mkIte(t, mkConst(w, 1), mkConst(w, 0)) }

// ---- bitwise ----

func mkBitop(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		switch op {
		case OBAnd:
			return mkConst(a.w, a.k&b.k)
		case OBOr:
			return mkConst(a.w, a.k|b.k)
		default:
			return mkConst(a.w, a.k^b.k)
		}
	}
	a, b = order(a, b)
	m := mask(a.w)
	if a.isConst() {
		switch {
		case op == OBAnd && a.k == 0:
			return a
		case op == OBAnd && a.k == m:
			return b
		case op == OBOr && a.k == 0, op == OBXor && a.k == 0:
			return b
		case op == OBOr && a.k == m:
			return a
		}
	}
	if a == b {
		if op == OBXor {
			return mkConst(a.w, 0)
		}
		return a
	}
	return cached(op, a.w, 0, a, b, nil, func() *Term {
		// split at concat boundaries or at constant runs
		if a.op == OConcat || b.op == OConcat {
			var lw uint8
			if a.op == OConcat {
				lw = lowWidth(a)
			}
			if b.op == OConcat {
				l2 := lowWidth(b)
				if lw == 0 || l2 < lw {
					lw = l2
				}
			}
			return mkConcat(
				mkBitop(op, mkExtract(a, a.w-1, lw), mkExtract(b, a.w-1, lw)),
				mkBitop(op, mkExtract(a, lw-1, 0), mkExtract(b, lw-1, 0)))
		}
		if a.isConst() && op != OBXor {
			// split at the first run boundary of the constant
			var run uint8
			if a.k&1 == 1 {
				run = uint8(bits.TrailingZeros64(^a.k))
			} else {
				run = uint8(bits.TrailingZeros64(a.k))
			}
			if run < a.w {
				if b.op != OIte || true {
					return mkConcat(
						mkBitop(op, mkExtract(a, a.w-1, run), mkExtract(b, a.w-1, run)),
						mkBitop(op, mkExtract(a, run-1, 0), mkExtract(b, run-1, 0)))
				}
			}
		}
		if a.isConst() && b.op == OIte {
			return mkIte(b.a, mkBitop(op, a, b.b), mkBitop(op, a, b.c))
		}
		return intern(op, a.w, 0, a, b, nil)
	})
}

// lowWidth is the width of the lowest segment of a right-nested concat.
func lowWidth(t *Term) uint8 {
	for t.op == OConcat {
		t = t.b
	}
	return t.w
}

func mkBNot(a *Term) *Term { return mkBitop(OBXor, a, mkConst(a.w, mask(a.w))) }

// ---- arithmetic ----

func mkAdd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return mkConst(a.w, a.k+b.k)
	}
	a, b = order(a, b)
	if a.isConst() {
		if a.k == 0 {
			return b
		}
		if b.op == OAdd && b.a.isConst() {
			return mkAdd(mkConst(a.w, a.k+b.a.k), b.b)
		}
		if b.op == OIte && (b.b.isConst() || b.c.isConst()) {
			return cached(OAdd, a.w, 0, a, b, nil, func() *Term { return mkIte(b.a, mkAdd(a, b.b), mkAdd(a, b.c)) })
		}
	} else if a.op == OAdd && a.a.isConst() {
		return mkAdd(a.a, mkAdd(a.b, b))
	} else if b.op == OAdd && b.a.isConst() {
		return mkAdd(b.a, mkAdd(a, b.b))
	}
	// disjoint low zero bits: x<<k + y (y < 2^k) -> or
	if !a.isConst() && (a.op == OConcat || b.op == OConcat) {
		x, y := a, b
		if lowZeros(x) == 0 {
			x, y = y, x
		}
		if z := lowZeros(x); z > 0 && y.umax <= mask(z) {
			return mkBitop(OBOr, x, y)
		}
	} else if a.isConst() && b.op == OConcat {
		if z := lowZeros(b); z > 0 && a.k <= mask(z) {
			return mkBitop(OBOr, a, b)
		}
		if z := uint8(bits.TrailingZeros64(a.k)); z > 0 && b.umax <= mask(z) {
			return mkBitop(OBOr, a, b)
		}
	}
	return intern(OAdd, a.w, 0, a, b, nil)
}

func lowZeros(t *Term) uint8 {
	n := uint8(0)
	for t.op == OConcat {
		t = t.b
	}
	if t.isConst() && t.k == 0 {
		n = t.w
	}
	return n
}

func mkNeg(a *Term) *Term { return mkSub(mkConst(a.w, 0), a) }

func mkSub(a, b *Term) *Term {
	if b.isConst() {
		return mkAdd(a, mkConst(a.w, -b.k))
	}
	if a == b {
		return mkConst(a.w, 0)
	}
	if a.op == OAdd && a.b == b {
		return a.a
	}
	if a.op == OAdd && a.a == b {
		return a.b
	}
	if b.op == OAdd && b.a.isConst() {
		return mkAdd(mkConst(a.w, -b.a.k), mkSub(a, b.b))
	}
	if a.op == OAdd && a.a.isConst() {
		return mkAdd(a.a, mkSub(a.b, b))
	}
	return intern(OSub, a.w, 0, a, b, nil)
}

func mkMul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return mkConst(a.w, a.k*b.k)
	}
	a, b = order(a, b)
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		if a.k == 1 {
			return b
		}
		if bits.OnesCount64(a.k) == 1 {
			return mkShl(b, mkConst(b.w, uint64(bits.TrailingZeros64(a.k))))
		}
	}
	return intern(OMul, a.w, 0, a, b, nil)
}

func mkShl(a, s *Term) *Term {
	if s.isConst() {
		if s.k >= uint64(a.w) {
			return mkConst(a.w, 0)
		}
		if s.k == 0 {
			return a
		}
		return mkConcat(mkExtract(a, a.w-1-uint8(s.k), 0), mkConst(uint8(s.k), 0))
	}
	return intern(OShl, a.w, 0, a, s, nil)
}

func mkLshr(a, s *Term) *Term {
	if s.isConst() {
		if s.k >= uint64(a.w) {
			return mkConst(a.w, 0)
		}
		if s.k == 0 {
			return a
		}
		return mkConcat(mkConst(uint8(s.k), 0), mkExtract(a, a.w-1, uint8(s.k)))
	}
	return intern(OLshr, a.w, 0, a, s, nil)
}

func mkAshr(a, s *Term) *Term {
	if s.isConst() {
		k := s.k
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		if k == 0 {
			return a
		}
		return mkSext(mkExtract(a, a.w-1, uint8(k)), a.w)
	}
	return intern(OAshr, a.w, 0, a, s, nil)
}

func mkDiv(op Op, a, b *Term) *Term {
	if b.isConst() && b.k != 0 && a.isConst() {
		switch op {
		case OUDiv:
			return mkConst(a.w, a.k/b.k)
		case OURem:
			return mkConst(a.w, a.k%b.k)
		case OSDiv:
			x, y := sx(a.k, a.w), sx(b.k, b.w)
			if y == -1 {
				return mkConst(a.w, uint64(-x))
			}
			return mkConst(a.w, uint64(x/y))
		case OSRem:
			x, y := sx(a.k, a.w), sx(b.k, b.w)
			if y == -1 {
				return mkConst(a.w, 0)
			}
			return mkConst(a.w, uint64(x%y))
		}
	}
	h := mask(a.w) >> 1
	if (op == OSDiv || op == OSRem) && a.umax <= h && b.umax <= h {
		if op == OSDiv {
			op = OUDiv
		} else {
			op = OURem
		}
	}
	if b.isConst() && bits.OnesCount64(b.k) == 1 {
		z := uint8(bits.TrailingZeros64(b.k))
		if op == OUDiv {
			return mkLshr(a, mkConst(a.w, uint64(z)))
		}
		if op == OURem {
			if z == 0 {
				return mkConst(a.w, 0)
			}
			return mkZext(mkExtract(a, z-1, 0), a.w)
		}
	}
	return intern(op, a.w, 0, a, b, nil)
}

// ---- evaluation under a model ----

type Model struct{ v []uint64 }

func (m *Model) get(id uint64) uint64 {
	if m != nil && id < uint64(len(m.v)) {
		return m.v[id]
	}
	return 0
}

func evalTerm(t *Term, m *Model) uint64 {
	if t.size > 64 {
		return evalMemo(t, m, make(map[*Term]uint64))
	}
	return evalMemo(t, m, nil)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalMemo(t *Term, m *Model, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return m.get(t.k) & maskB(t.w)
	}
	if memo != nil {
		if v, ok := memo[t]; ok {
			return v
		}
	}
	var r uint64
	ev := func(x *Term) uint64 { return evalMemo(x, m, memo) }
	switch t.op {
	case ONot:
		r = 1 - ev(t.a)
	case OAnd:
		r = ev(t.a)
		if r == 1 {
			r = ev(t.b)
		}
	case OOr:
		r = ev(t.a)
		if r == 0 {
			r = ev(t.b)
		}
	case OIte:
		if ev(t.a) == 1 {
			r = ev(t.b)
		} else {
			r = ev(t.c)
		}
	case OEq:
		r = b2u(ev(t.a) == ev(t.b))
	case OUlt:
		r = b2u(ev(t.a) < ev(t.b))
	case OSlt:
		r = b2u(sx(ev(t.a), t.a.w) < sx(ev(t.b), t.a.w))
	case OAdd:
		r = ev(t.a) + ev(t.b)
	case OSub:
		r = ev(t.a) - ev(t.b)
	case OMul:
		r = ev(t.a) * ev(t.b)
	case OUDiv:
		if y := ev(t.b); y == 0 {
			r = mask(t.w)
		} else {
			r = ev(t.a) / y
		}
	case OURem:
		if y := ev(t.b); y == 0 {
			r = ev(t.a)
		} else {
			r = ev(t.a) % y
		}
	case OSDiv:
		x, y := sx(ev(t.a), t.w), sx(ev(t.b), t.w)
		switch {
		case y == 0 && x >= 0:
			r = mask(t.w)
		case y == 0:
			r = 1
		case y == -1:
			r = uint64(-x)
		default:
			r = uint64(x / y)
		}
	case OSRem:
		x, y := sx(ev(t.a), t.w), sx(ev(t.b), t.w)
		switch {
		case y == 0:
			r = uint64(x)
		case y == -1:
			r = 0
		default:
			r = uint64(x % y)
		}
	case OBAnd:
		r = ev(t.a) & ev(t.b)
	case OBOr:
		r = ev(t.a) | ev(t.b)
	case OBXor:
		r = ev(t.a) ^ ev(t.b)
	case OShl:
		if s := ev(t.b); s >= uint64(t.w) {
			r = 0
		} else {
			r = ev(t.a) << s
		}
	case OLshr:
		if s := ev(t.b); s >= uint64(t.w) {
			r = 0
		} else {
			r = ev(t.a) >> s
		}
	case OAshr:
		s := ev(t.b)
		if s >= uint64(t.w) {
			s = uint64(t.w) - 1
		}
		r = uint64(sx(ev(t.a), t.w) >> s)
	case OConcat:
		r = ev(t.a)<<t.b.w | ev(t.b)
	case OExtract:
		r = ev(t.a) >> t.k
	case OSext:
		r = uint64(sx(ev(t.a), t.a.w))
	default:
		panic("eval op")
	}
	r &= maskB(t.w)
	if memo != nil {
		memo[t] = r
	}
	return r
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}
