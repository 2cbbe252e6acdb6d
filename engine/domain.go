package main

import (
	"math/bits"
	"sync"
	"sync/atomic"
	"time"
)

// Byte domains: constraints over a single byte variable are summarised by the
// set of values satisfying them. Branch conditions over such a variable alone
// are decided on the set; all other queries (and all assertions) go to the SMT
// solver with the summarised constraints.

type mask256 [4]uint64

func (m *mask256) and(o *mask256) {
	for i := range m {
		m[i] &= o[i]
	}
}

func (m *mask256) empty() bool { return m[0]|m[1]|m[2]|m[3] == 0 }
func (m *mask256) first() uint64 {
	for i, w := range m {
		if w != 0 {
			return uint64(i*64 + bits.TrailingZeros64(w))
		}
	}
	return 0
}
func (m *mask256) has(v int) bool { return m[v>>6]>>uint(v&63)&1 == 1 }

var maskMemo [64]struct {
	mu sync.RWMutex
	m  map[*Term]*mask256
}

// unaryByte returns the variable when t is a condition over one byte only.
func unaryByte(t *Term) (int32, bool) {
	if t.w != 0 || len(t.vs) != 1 || varInfoOf(t.vs[0]).w != 8 {
		return 0, false
	}
	return t.vs[0], true
}

func maskOf(t *Term) *mask256 {
	sh := &maskMemo[t.id&63]
	sh.mu.RLock()
	r := sh.m[t]
	sh.mu.RUnlock()
	if r != nil {
		return r
	}
	r = new(mask256)
	switch t.op {
	case OConst:
		if t.k == 1 {
			*r = mask256{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
		}
	case ONot:
		a := maskOf(t.a)
		for i := range r {
			r[i] = ^a[i]
		}
	case OAnd:
		*r = *maskOf(t.a)
		r.and(maskOf(t.b))
	case OOr:
		a, b := maskOf(t.a), maskOf(t.b)
		for i := range r {
			r[i] = a[i] | b[i]
		}
	default:
		if t.op == OEq && t.a.op == OVar && t.b.op == OConst && t.a.w == 8 {
			r[t.b.k>>6] |= 1 << (t.b.k & 63)
		} else if t.op == OEq && t.b.op == OVar && t.a.op == OConst && t.b.w == 8 {
			r[t.a.k>>6] |= 1 << (t.a.k & 63)
		} else {
			v := t.vs[0]
			for i := 0; i < 256; i++ {
				m := &Model{v: make([]uint64, int(v)+1)}
				m.v[v] = uint64(i)
				if evalTerm(t, m) == 1 {
					r[i>>6] |= 1 << uint(i&63)
				}
			}
		}
	}
	sh.mu.Lock()
	if sh.m == nil || len(sh.m) > 60000 {
		sh.m = map[*Term]*mask256{}
	}
	sh.m[t] = r
	sh.mu.Unlock()
	return r
}

// maskTerm is the condition that v lies in m.
func maskTerm(v *Term, m *mask256) *Term {
	type iv struct{ lo, hi int }
	ranges := func(want bool) (out []iv) {
		for i := 0; i < 256; i++ {
			if m.has(i) == want {
				j := i
				for j+1 < 256 && m.has(j+1) == want {
					j++
				}
				out = append(out, iv{i, j})
				i = j
			}
		}
		return
	}
	build := func(rs []iv) *Term {
		t := tFalse
		for _, r := range rs {
			var c *Term
			switch {
			case r.lo == r.hi:
				c = mkEq(v, mkConst(8, uint64(r.lo)))
			default:
				c = tTrue
				if r.lo > 0 {
					c = mkAnd(c, mkNot(mkUlt(v, mkConst(8, uint64(r.lo)))))
				}
				if r.hi < 255 {
					c = mkAnd(c, mkUlt(v, mkConst(8, uint64(r.hi+1))))
				}
			}
			t = mkOr(t, c)
		}
		return t
	}
	in, out := ranges(true), ranges(false)
	if len(in) <= len(out) {
		return build(in)
	}
	return mkNot(build(out))
}

var domainDecided, simplified int64

var fullMask = mask256{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

func (st *State) dom(v int32) *mask256 {
	if d := st.doms.get(int(v)); d != nil {
		return d.(*mask256)
	}
	return &fullMask
}

func (m *mask256) single() bool {
	return bits.OnesCount64(m[0])+bits.OnesCount64(m[1])+bits.OnesCount64(m[2])+bits.OnesCount64(m[3]) == 1
}

// absorb records what a new path condition says about single bytes.
func (st *State) absorb(t *Term, depth int) {
	if t.op == OAnd {
		st.absorb(t.a, depth)
		st.absorb(t.b, depth)
		return
	}
	v, ok := unaryByte(t)
	if !ok {
		return
	}
	d := st.dom(v)
	nd := *d
	nd.and(maskOf(t))
	if nd == *d {
		return
	}
	st.doms.set(st.tok, int(v), &nd)
	if nd.single() && !d.single() && depth < 3 {
		// conditions over several bytes may now speak about one
		for n := st.pcs; n != nil; n = n.next {
			if len(n.t.vs) < 2 || len(n.t.vs) > 4 || !hasVar(n.t.vs, v) {
				continue
			}
			if r := (&simplifier{st: st, nolit: true}).simp(n.t); !r.isConst() {
				st.absorb(r, depth+1)
			}
		}
	}
}

func hasVar(vs []int32, v int32) bool {
	for _, x := range vs {
		if x == v {
			return true
		}
	}
	return false
}

// simplifier rewrites a term under the byte domains and known literals.
type simplifier struct {
	st    *State
	nolit bool
	memo  map[*Term]*Term
}

func (st *State) simplify(t *Term) *Term {
	if t.isConst() || len(t.vs) == 0 {
		return t
	}
	s := &simplifier{st: st}
	if t.size > 24 {
		s.memo = map[*Term]*Term{}
	}
	return s.simp(t)
}

func (s *simplifier) simp(t *Term) *Term {
	if t.op == OConst {
		return t
	}
	if t.op == OVar {
		if t.w == 8 {
			if d := s.st.dom(int32(t.k)); d.single() {
				return mkConst(8, d.first())
			}
		}
		if t.w == 0 && !s.nolit {
			if v, ok := s.st.lit(t); ok {
				return mkBool(v)
			}
		}
		return t
	}
	if t.w == 0 {
		if v, ok := unaryByte(t); ok {
			d := s.st.dom(v)
			m := maskOf(t)
			x := *d
			x.and(m)
			if x.empty() {
				return tFalse
			}
			if x == *d {
				return tTrue
			}
		}
		if !s.nolit {
			if v, ok := s.st.lit(t); ok {
				return mkBool(v)
			}
		}
	}
	if s.memo != nil {
		if r, ok := s.memo[t]; ok {
			return r
		}
	}
	var r *Term
	switch t.op {
	case ONot:
		r = mkNot(s.simp(t.a))
	case OAnd:
		a := s.simp(t.a)
		if a == tFalse {
			r = a
		} else {
			r = mkAnd(a, s.simp(t.b))
		}
	case OOr:
		a := s.simp(t.a)
		if a == tTrue {
			r = a
		} else {
			r = mkOr(a, s.simp(t.b))
		}
	case OIte:
		switch c := s.simp(t.a); c {
		case tTrue:
			r = s.simp(t.b)
		case tFalse:
			r = s.simp(t.c)
		default:
			r = mkIte(c, s.simp(t.b), s.simp(t.c))
		}
	case OExtract:
		r = mkExtract(s.simp(t.a), uint8(t.k)+t.w-1, uint8(t.k))
	case OSext:
		r = mkSext(s.simp(t.a), t.w)
	default:
		a, b := s.simp(t.a), s.simp(t.b)
		if a == t.a && b == t.b {
			r = t
			break
		}
		switch t.op {
		case OEq:
			r = mkEq(a, b)
		case OUlt:
			r = mkUlt(a, b)
		case OSlt:
			r = mkSlt(a, b)
		case OAdd:
			r = mkAdd(a, b)
		case OSub:
			r = mkSub(a, b)
		case OMul:
			r = mkMul(a, b)
		case OBAnd, OBOr, OBXor:
			r = mkBitop(t.op, a, b)
		case OShl:
			r = mkShl(a, b)
		case OLshr:
			r = mkLshr(a, b)
		case OAshr:
			r = mkAshr(a, b)
		case OUDiv, OURem, OSDiv, OSRem:
			r = mkDiv(t.op, a, b)
		case OConcat:
			r = mkConcat(a, b)
		default:
			r = t
		}
	}
	if s.memo != nil {
		s.memo[t] = r
	}
	return r
}

// queryDom decides whether c is possible on the path.
func (in *Interp) queryDom(st *State, c0 *Term, assertion bool) (SatRes, map[int32]uint64) {
	c := st.simplify(c0)
	if c.isConst() {
		atomic.AddInt64(&simplified, 1)
		if c.k == 0 {
			st.claim(c0)
			return Unsat, nil
		}
		return Sat, map[int32]uint64{}
	}
	// the connected path conditions; conditions over one byte are in the domain
	vars := map[int32]bool{}
	var order []int32
	addVars := func(t *Term) {
		for _, v := range t.vs {
			if !vars[v] {
				vars[v] = true
				order = append(order, v)
			}
		}
	}
	addVars(c)
	var all []*Term
	for n := st.pcs; n != nil; n = n.next {
		if _, ok := unaryByte(n.t); ok {
			continue
		}
		all = append(all, n.t)
	}
	used := make([]bool, len(all))
	var out []*Term
	s := &simplifier{st: st, nolit: true}
	for changed := true; changed; {
		changed = false
		for i, t := range all {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range t.vs {
				if vars[v] {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			used[i] = true
			if t.size > 24 {
				s.memo = map[*Term]*Term{}
			} else {
				s.memo = nil
			}
			r := s.simp(t)
			if r.isConst() {
				if r.k == 0 {
					st.claim(c0)
					return Unsat, nil
				}
				continue
			}
			if _, ok := unaryByte(r); ok {
				// not in the domain yet (several bytes were fixed one by one)
				out = append(out, r)
				if !vars[r.vs[0]] {
					changed = true
					addVars(r)
				}
				continue
			}
			changed = true
			out = append(out, r)
			addVars(r)
		}
	}
	if len(out) == 0 && !assertion {
		if v, ok := unaryByte(c); ok {
			x := *st.dom(v)
			x.and(maskOf(c))
			atomic.AddInt64(&domainDecided, 1)
			if x.empty() {
				st.claim(c0)
				return Unsat, nil
			}
			return Sat, map[int32]uint64{v: x.first()}
		}
	}
	for _, v := range order {
		vi := varInfoOf(v)
		if vi.w != 8 {
			continue
		}
		if t := maskTerm(vi.t, st.dom(v)); !t.isConst() {
			out = append(out, t)
		}
	}
	return in.solver.check(append(out, c))
}

// claim records a condition found impossible without the solver.
func (st *State) claim(c *Term) {
	if len(st.claims) < 400 && c.size < 20000 {
		st.claims = append(st.claims, c)
	}
}

var certNanos, certPaths, certClaims, certBad, certSkipped int64

// certify lets the solver confirm, on the whole path, everything which the
// simplifier and the byte domains decided: path condition and any of the
// claims must be unsatisfiable.
func (in *Interp) certify(st *State, elapsed time.Duration) {
	if len(st.claims) == 0 {
		return
	}
	if n := atomic.LoadInt64(&certNanos); n > int64(elapsed)*int64(workers())*3/10+int64(2*time.Second) {
		atomic.AddInt64(&certSkipped, 1)
		return
	}
	t0 := time.Now()
	ts := st.allPC()
	any := tFalse
	seen := map[*Term]bool{}
	for _, c := range st.claims {
		if !seen[c] {
			seen[c] = true
			any = mkOr(any, c)
		}
	}
	if any == tFalse {
		return
	}
	r, _ := in.solver.raw(append(ts, any))
	atomic.AddInt64(&certNanos, int64(time.Since(t0)))
	switch r {
	case Unsat:
		atomic.AddInt64(&certPaths, 1)
		atomic.AddInt64(&certClaims, int64(len(seen)))
	case Sat:
		atomic.AddInt64(&certBad, 1)
		in.cfg.note("the solver contradicts a simplification")
	default:
		atomic.AddInt64(&certSkipped, 1)
	}
}
