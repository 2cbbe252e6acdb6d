package radix

import "bytes"

func init() {
	vvHarnesses["vvH_len"] = vvH_len
	vvHarnesses["vvH_values"] = vvH_values
	vvHarnesses["vvH_prefix"] = vvH_prefix
	vvHarnesses["vvH_any"] = vvH_any
	vvHarnesses["vvH_two"] = vvH_two
}

// vvH_len (C07, C12): operations through arbitrary allocators or the tree
// itself, with aborts and failing Finalize calls in between; Len and Count
// follow the model after each of them.
func vvH_len() {
	s := vvInt(vvParam("s0", 0), vvParam("s1", vvParam("s0", 0)))
	na := vvParam("allocs", 2)
	t := NewTree(&Options{NumAllocators: na + 1})
	vvQuiesce()
	m := &vvModel{}
	vvBulk(t, m, vvScaffoldC(s))
	// near the point where the counters of an allocator are flushed
	if w := vvParam("warm", 0); w > 0 {
		vvWarmSeq(t, m, vvInt(w, w+vvParam("warmn", 2)))
	}
	as := make([]*Allocator, na)
	if vvParam("pre", 0) != 0 {
		// the allocators are reserved from the beginning
		for i := range as {
			as[i] = t.GetAllocator()
		}
	}
	kinds := vvParam("kinds", 15)
	for i := 0; i < vvParam("ops", 2); i++ {
		who := vvInt(0, na)
		var a *Allocator
		if who > 0 {
			if as[who-1] == nil {
				as[who-1] = t.GetAllocator()
			}
			a = as[who-1]
		}
		kind := vvPickBit(kinds)
		k := vvPickStored(m, s)
		switch kind {
		case 0:
			if a == nil {
				vvPutKey(t, m, k, vvVal(len(m.h)))
			} else {
				vvPutKeyA(a, m, k, vvVal(len(m.h)))
			}
		case 1:
			if a == nil {
				vvDelKey(t, m, k)
			} else {
				vvDelKeyA(a, m, k)
			}
		case 2:
			var op *UpdateOperation
			if a == nil {
				_, op = t.PrepareUpdate(k)
			} else {
				_, op = a.PrepareUpdate(k)
			}
			op.Abort()
		case 3:
			var op *DeleteOperation
			var found bool
			if a == nil {
				found, op = t.PrepareDelete(k)
			} else {
				found, op = a.PrepareDelete(k)
			}
			vvAssert(found == (op != nil), "PrepareDelete returns no operation exactly when nothing is found")
			if found {
				op.Abort()
			}
		case 4:
			if a != nil {
				a.FlushStats()
			}
		}
		if vvParam("each", 0) != 0 && a == nil {
			for j := range as {
				if as[j] != nil {
					t.ReleaseAllocator(as[j])
					as[j] = nil
				}
			}
			vvCheckLen(t, m)
		}
	}
	for j := range as {
		if as[j] != nil {
			t.ReleaseAllocator(as[j])
		}
	}
	vvCheckLen(t, m)
	vvCheckCount(t, m, nil)
	// everything proceeds and Stop obtains all allocators
	vvCheckKeys(t, m)
	t.Stop()
	vvAssert(m.count(nil) == uint64(t.Len()), "Len of a stopped tree equals the number of stored keys")
	t.Start()
	for j := 0; j <= na; j++ {
		a := t.GetAllocator()
		if j < len(as) {
			as[j] = a
		}
		k := m.h
		if len(k) > 0 {
			vvPutKeyA(a, m, k[0].key, vvVal(len(m.h)))
		}
		defer t.ReleaseAllocator(a)
	}
	vvCover("end")
}

// vvPickStored chooses a stored key (at most 6 spread ones) or an absent one.
func vvPickStored(m *vvModel, s int) []byte {
	var cand [][]byte
	n := m.stable
	st := 1
	if n > 6 {
		st = n/6 + 1
	}
	for i := 0; i < n; i += st {
		cand = append(cand, m.h[i].key)
	}
	cand = append(cand, vvFresh(s)...)
	return cand[vvInt(0, len(cand)-1)]
}

// vvWarmSeq recycles nodes n times through one allocator.
func vvWarmSeq(t *Tree, m *vvModel, n int) {
	a := t.GetAllocator()
	k := []byte("az")
	i := 0
	for ; i < n; i++ {
		found, op := a.PrepareUpdate(k)
		if found {
			j := m.hint(op.Value)
			op.FetchedKey = append(op.FetchedKey[:0], m.h[j].key...)
		}
		vvAssert(op.Finalize(77), "warm-up insert")
		found, dop := a.PrepareDelete(k)
		vvAssert(vvAnd(found, dop.Value == 77), "warm-up key found")
		vvAssert(dop.Finalize(), "warm-up delete")
	}
	t.ReleaseAllocator(a)
}

// ---- values (C08) ----

// vvShadow performs the same operations on a tree with known values, to learn
// which key a candidate belongs to.
type vvShadow struct {
	t, s *Tree
	m    *vvModel // of the shadow
	vals []uint64 // record -> value stored in t
}

func (c *vvShadow) put(k []byte, v uint64) {
	f1, o1 := c.t.PrepareUpdate(k)
	f2, o2 := c.s.PrepareUpdate(k)
	vvAssert(f1 == f2, "the search does not depend on values")
	if f2 {
		i := c.m.keyOf(o2.Value)
		vvAssert(i >= 0, "a stored value")
		vvAssert(o1.Value == c.vals[i], "PrepareUpdate reports the 55 bits stored")
		o1.FetchedKey = append(o1.FetchedKey[:0], c.m.h[i].key...)
		o2.FetchedKey = append(o2.FetchedKey[:0], c.m.h[i].key...)
		if vvEqB(c.m.h[i].key, k) {
			o1.Match, o2.Match = true, true
		}
	}
	id := vvVal(len(c.m.h))
	vvAssert(vvAnd(o1.Finalize(v), o2.Finalize(id)), "Finalize succeeds without concurrent writers")
	c.m.put(k, id)
	c.vals = append(c.vals, v&(1<<55-1))
}

func (c *vvShadow) del(k []byte) {
	f1, o1 := c.t.PrepareDelete(k)
	f2, o2 := c.s.PrepareDelete(k)
	vvAssert(f1 == f2, "the search does not depend on values")
	if !f2 {
		return
	}
	i := c.m.keyOf(o2.Value)
	vvAssert(o1.Value == c.vals[i], "PrepareDelete reports the 55 bits stored")
	if !vvEqB(c.m.h[i].key, k) {
		o1.Abort()
		o2.Abort()
		return
	}
	vvAssert(vvAnd(o1.Finalize(), o2.Finalize()), "Finalize succeeds without concurrent writers")
	c.m.remove(k)
	c.vals = append(c.vals, 0)
}

func (c *vvShadow) check() {
	n := len(c.m.h)
	for i := 0; i < n; i++ {
		k := c.m.h[i].key
		v1, ok1 := c.t.Lookup(k)
		v2, ok2 := c.s.Lookup(k)
		vvAssert(ok1 == ok2, "lookups do not depend on values")
		if ok2 {
			vvAssert(v1 == c.vals[c.m.keyOf(v2)], "Lookup returns the 55 bits stored")
		}
		f, op := c.t.PrepareUpdate(k)
		if f && ok2 {
			vvAssert(op.Value == c.vals[c.m.keyOf(v2)], "PrepareUpdate returns the 55 bits stored")
		}
		op.Abort()
	}
	i1, i2 := c.t.NewIterator(nil), c.s.NewIterator(nil)
	for i2.Next() {
		vvAssert(i1.Next(), "iteration does not depend on values")
		vvAssert(i1.Value() == c.vals[c.m.keyOf(i2.Value())], "iteration returns the 55 bits stored")
	}
	vvAssert(vvNot(i1.Next()), "iteration does not depend on values")
	i1.Close()
	i2.Close()
	v1, ok1 := c.t.MinKey(nil)
	v2, ok2 := c.s.MinKey(nil)
	vvAssert(ok1 == ok2, "MinKey does not depend on values")
	if ok2 {
		vvAssert(v1 == c.vals[c.m.keyOf(v2)], "MinKey returns the 55 bits stored")
	}
	v1, ok1 = c.t.MaxKey(nil)
	v2, ok2 = c.s.MaxKey(nil)
	vvAssert(ok1 == ok2, "MaxKey does not depend on values")
	if ok2 {
		vvAssert(v1 == c.vals[c.m.keyOf(v2)], "MaxKey returns the 55 bits stored")
	}
	vvAssert(c.t.Len() == c.s.Len(), "Len does not depend on values")
	_, n1 := c.t.Count(nil)
	_, n2 := c.s.Count(nil)
	vvAssert(n1 == n2, "Count does not depend on values")
}

// vvH_values (C08): every stored value is an arbitrary 64-bit number; after
// arbitrary updates, inserts and deletes each key has the low 55 bits.
func vvH_values() {
	s := vvInt(vvParam("s0", 0), vvParam("s1", vvParam("s0", 0)))
	c := &vvShadow{t: vvNewTree(1, true), s: vvNewTree(1, true), m: &vvModel{}}
	vvQuiesce()
	n := 0
	for _, k := range vvScaffoldC(s) {
		v := vvVal(500 + n)
		if n%vvParam("stride", 1) == 0 {
			v = vvU64()
		}
		c.put(k, v)
		n++
	}
	c.m.stable = len(c.m.h)
	for i := 0; i < vvParam("ops", 2); i++ {
		k := vvPickStored(c.m, s)
		switch vvPickBit(vvParam("kinds", 3)) {
		case 0:
			c.put(k, vvU64())
		case 1:
			c.del(k)
		}
	}
	c.check()
	vvCover("end")
}

// ---- long prefixes (C09) ----

// vvH_prefix: two keys share a prefix of pl bytes, a third one (nk=3) splits
// it anywhere; all are found, ordered, prefix-searched and deleted again.
func vvH_prefix() {
	l := vvInt(vvParam("l0", 0), vvParam("l1", 8))
	pre := vvPre(l)
	// arbitrary bytes where the stored form may go wrong
	if vvParam("symall", 0) != 0 {
		pre = vvBytes(l)
	} else {
		for _, i := range []int{0, 7, 8, 15, 247, 248, 254, 255, 256, l - 1} {
			if i >= 0 && i < l && vvParam("sym", 1) != 0 {
				pre[i] = vvByte()
			}
		}
	}
	above := vvParam("above", 0) // the shared prefix starts below another node
	mk := func(b ...[]byte) []byte {
		var r []byte
		if above != 0 {
			r = append(r, 'r')
		}
		for _, x := range b {
			r = append(r, x...)
		}
		return r
	}
	t := vvNewTree(1, true)
	m := &vvModel{}
	if above != 0 {
		vvPutKey(t, m, []byte("a"), vvVal(0))
		if above > 1 {
			vvPutKey(t, m, []byte("z"), vvVal(1))
		}
	}
	x, y := vvByte(), vvByte()
	vvAssume(x != y)
	vvPutKey(t, m, mk(pre, []byte{x}), vvVal(len(m.h)))
	vvPutKey(t, m, mk(pre, []byte{y}), vvVal(len(m.h)))
	if vvParam("third", 1) != 0 && l > 0 {
		// where the third key leaves the prefix
		cut := 0
		if vvParam("cuts", 0) == 0 {
			cut = vvInt(vvParam("c0", 0), vvParam("c1", l-1))
			vvAssume(cut < l)
		} else {
			cs := []int{0, 1, 7, 8, 9, l / 2, l - 9, l - 8, l - 2, l - 1}
			cut = cs[vvInt(0, len(cs)-1)]
			vvAssume(cut >= 0)
			vvAssume(cut < l)
		}
		b := vvByte()
		vvAssume(b != pre[cut])
		vvPutKey(t, m, mk(pre[:cut], []byte{b, 'w'}), vvVal(len(m.h)))
		vvCover("split")
	}
	check := func() {
		vvCheckKeys(t, m)
		vvCheckIter(t, m, nil)
		vvCheckMinMax(t, m, nil)
		for _, q := range []int{0, 1, 8, l / 2, l - 1, l} {
			if q >= 0 && q <= l {
				p := mk(pre[:q])
				vvCheckIter(t, m, p)
				vvCheckCount(t, m, p)
				vvCheckMinMax(t, m, p)
				if len(p) > 0 {
					vvCheckLookup(t, m, p)
				}
			}
		}
		vvCheckLen(t, m)
	}
	check()
	if vvParam("del", 1) != 0 {
		n := len(m.h)
		lo := 0
		if above != 0 {
			lo = above
		}
		i := vvInt(lo, n-1)
		vvAssert(vvDelKey(t, m, m.h[i].key), "a stored key is deleted")
		vvCover("merged")
		check()
		// and back
		vvPutKey(t, m, m.h[i].key, vvVal(len(m.h)))
		vvCheckKeys(t, m)
	}
	vvCover("end")
}

// ---- arbitrary arguments (C25) ----

// vvH_any: reads and deletes with arbitrary arguments on a tree which was just
// created (mode 0), emptied (1) or filled (2).
func vvH_any() {
	mode := vvInt(vvParam("m0", 0), vvParam("m1", 3))
	s := vvInt(vvParam("s0", 0), vvParam("s1", vvParam("s0", 0)))
	t := vvNewTree(vvParam("allocs", 1), mode != 0)
	m := &vvModel{}
	if mode >= 1 {
		vvBulk(t, m, vvScaffoldC(s))
	}
	if mode == 2 {
		n := len(m.h)
		for i := 0; i < n; i++ {
			vvDelKey(t, m, m.h[i].key)
		}
		m = &vvModel{}
	}
	if mode == 3 {
		t2, err := NewTreeFromState(bytes.NewReader(vvSave(t)))
		vvAssert(err == nil, "a saved state can be restored")
		if err != nil {
			return
		}
		t = t2
	}
	k := vvKey(vvParam("klo", 0), vvParam("khi", 3))
	if vvParam("stored", 0) != 0 && len(m.h) > 0 {
		// an extension or a part of a stored key
		x := m.h[vvInt(0, len(m.h)-1)].key
		cut := vvInt(0, len(x))
		k = append(append([]byte(nil), x[:cut]...), k...)
	}
	switch vvPickBit(vvParam("ops", 63)) {
	case 0:
		if len(k) > 0 {
			vvCheckLookup(t, m, k)
		}
	case 1:
		if len(k) > 0 {
			f, op := t.PrepareDelete(k)
			ef, _ := m.get(k)
			vvAssert(vvOr(f, vvNot(ef)), "PrepareDelete finds a stored key")
			vvAssert(f == (op != nil), "PrepareDelete returns no operation exactly when nothing is found")
			if f {
				vvAssert(m.has(op.Value), "PrepareDelete reports the value of a stored key")
				op.Abort()
			}
		}
	case 2:
		vvCheckMinMax(t, m, k)
	case 3:
		vvCheckCount(t, m, k)
	case 4:
		vvCheckIter(t, m, k)
	case 5:
		if len(k) > 0 {
			a := t.GetAllocator()
			v, ok := a.Lookup(k)
			if ok {
				vvAssert(m.has(v), "Lookup returns the value of some stored key")
			}
			f, op := a.PrepareDelete(k)
			if f {
				vvAssert(m.has(op.Value), "PrepareDelete reports the value of a stored key")
				op.Abort()
			}
			t.ReleaseAllocator(a)
		}
	}
	// nothing changed
	vvCheckLen(t, m)
	vvCheckKeys(t, m)
	vvCheckIter(t, m, nil)
	vvCover("end")
}

// ---- reused objects, two trees (C27) ----

// vvH_two: operations alternate between two trees (and iterators are reused
// for other trees and prefixes); each tree follows its own model.
func vvH_two() {
	var t [2]*Tree
	var m [2]*vvModel
	var sh [2]int
	for i := range t {
		t[i] = vvNewTree(1+i, true)
		m[i] = &vvModel{}
		if i == 0 {
			sh[i] = vvInt(vvParam("s0", 0), vvParam("s1", 0))
		} else {
			sh[i] = vvInt(vvParam("t0", 0), vvParam("t1", 0))
		}
		vvBulk(t[i], m[i], vvScaffoldC(sh[i]))
	}
	kinds := vvParam("kinds", 31)
	for i := 0; i < vvParam("ops", 3); i++ {
		w := vvInt(0, 1)
		kind := vvPickBit(kinds)
		k := vvPickStored(m[w], sh[w])
		switch kind {
		case 0:
			vvPutKey(t[w], m[w], k, vvVal(len(m[w].h)))
		case 1:
			vvDelKey(t[w], m[w], k)
		case 2:
			f, op := t[w].PrepareUpdate(k)
			if f {
				op.FetchedKey = append(op.FetchedKey, k...)
				op.Match = true
			}
			op.Abort()
		case 3:
			if f, op := t[w].PrepareDelete(k); f {
				op.FetchedKey = append(op.FetchedKey, 'q')
				op.Abort()
			}
		case 4:
			// an iterator abandoned half-way
			it := t[w].NewIterator(k[:vvInt(0, 1)])
			for j := vvInt(1, vvParam("nexts", 2)); j > 0; j-- {
				it.Next()
			}
			it.Close()
		case 5:
			// an operation reserved for later, on its own allocator
			a := t[w].GetAllocator()
			vvPutKeyA(a, m[w], k, vvVal(len(m[w].h)))
			a.Lookup(k)
			t[w].ReleaseAllocator(a)
		case 6:
			it := t[w].NewIterator(nil)
			for j := vvInt(1, vvParam("nexts", 1)); j > 0; j-- {
				it.Next()
			}
			it.Reset(k)
			vvDrainIter(it, m[w], k)
			it.Reset(nil)
			vvDrainIter(it, m[w], nil)
			it.Close()
		}
	}
	for i := range t {
		vvCheckKeys(t[i], m[i])
		vvCheckLen(t[i], m[i])
		vvCheckIter(t[i], m[i], nil)
		vvCheckCount(t[i], m[i], nil)
		vvCheckMinMax(t[i], m[i], nil)
	}
	vvCover("end")
}
