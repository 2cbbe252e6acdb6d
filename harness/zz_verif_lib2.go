package radix

import "encoding/binary"

// ---- key shapes ----

func vvS(ss ...string) [][]byte {
	var r [][]byte
	for _, s := range ss {
		r = append(r, []byte(s))
	}
	return r
}

// vvScaffold returns a concrete prefix-free key set building a certain tree
// shape.
func vvScaffold(s int) [][]byte {
	switch s {
	case 0: // empty
		return nil
	case 1: // single leaf
		return vvS("bb")
	case 2: // node of two leaves
		return vvS("bb", "d")
	case 3: // root with prefix
		return vvS("bcd", "bce")
	case 4: // leaf and node without prefix below a root without prefix
		return vvS("b", "da", "dc")
	case 5: // leaf and node with prefix below a prefix
		return vvS("bbc", "bbddc", "bbddb")
	case 6: // three levels
		return vvS("aa", "ab", "bcda", "bcdb", "bce")
	case 7: // two nodes below one
		return vvS("ab", "ac", "bb", "bc")
	case 8: // wider node
		return vvS("ba", "bc", "be", "bg", "d")
	case 9: // chain of two-child nodes
		return vvS("b", "da", "dcb", "dcdc", "dcdd")
	case 10: // prefix of exactly 8 bytes below a leaf sibling
		return vvS("b12345678x", "b12345678z", "d")
	case 11: // prefixes of 7 and 9 bytes
		return vvS("1234567ax", "1234567b123456789x", "1234567b123456789y")
	case 12: // bytes 0 and 255
		return [][]byte{{0, 0}, {0, 255}, {255, 0, 0}, {255, 0, 255}}
	}
	return nil
}

const vvNScaffolds = 13

// vvVal gives pairwise distinct values, half of them near the upper end.
func vvVal(i int) uint64 {
	if i&1 == 0 {
		return 1<<55 - 1 - uint64(i)
	}
	return uint64(i)
}

// vvBuild inserts the keys in order.
func vvBuild(t *Tree, m *vvModel, keys [][]byte) {
	for _, k := range keys {
		vvPutKey(t, m, k, vvVal(len(m.h)))
	}
}

// vvWide returns n sibling keys: pre, a branching byte chosen by order, suf.
func vvWide(pre string, n int, order int, suf string) [][]byte {
	var r [][]byte
	for i := 0; i < n; i++ {
		r = append(r, append(append([]byte(pre), vvNth(i, order)), suf...))
	}
	return r
}

// vvNth enumerates all byte values in some order.
func vvNth(i, order int) byte {
	switch order {
	case 0:
		return byte(i)
	case 1:
		return byte(255 - i)
	}
	return byte(i*37 + 11)
}

func vvBE16(i int) []byte {
	var b [2]byte
	binary.BigEndian.PutUint16(b[:], uint16(i))
	return b[:]
}

// ---- whole-tree checks against the model ----

// vvModelKeys lists the distinct insertion keys (by record index).
func (m *vvModel) inserts() (r []int) {
	for i := range m.h {
		if !m.h[i].del {
			r = append(r, i)
		}
	}
	return
}

// vvCheckKeys looks every key of the history up.
func vvCheckKeys(t *Tree, m *vvModel) {
	for i := range m.h {
		vvCheckLookupRec(t, m, i)
	}
}

// vvCheckIter iterates with prefix p and compares with the model: every
// stored key with the prefix, once, ascending. Without any, one candidate may
// be reported.
func vvCheckIter(t *Tree, m *vvModel, p []byte) int {
	it := t.NewIterator(p)
	n := vvDrainIter(it, m, p)
	it.Close()
	return n
}

func vvDrainIter(it *Iterator, m *vvModel, p []byte) int {
	n := 0
	last := -1
	limit := len(m.h) + 2
	var sum uint64
	for it.Next() {
		v := it.Value()
		i := m.keyOf(v)
		vvAssert(i >= 0, "iteration yields values of stored keys")
		k := m.h[i].key
		if vvPrefixB(k, p) {
			if last >= 0 {
				vvAssert(vvLessB(m.h[last].key, k), "iteration is strictly ascending")
			}
			last = i
			n++
		} else {
			vvAssert(m.count(p) == 0, "iteration yields keys outside the prefix only when no key has it")
			n++
			vvAssert(n == 1, "at most one candidate outside the prefix")
		}
		sum = sum*31 + v
		limit--
		vvAssert(limit > 0, "iteration ends")
	}
	vvAssert(vvNot(it.Next()), "an iterator that ended stays ended")
	c := m.count(p)
	vvAssert(vvOr(c == uint64(n), vvAnd(c == 0, n == 1)), "iteration yields every stored key with the prefix")
	vvOut("iter", sum)
	return n
}

// vvCheckCount compares counting with the model.
func vvCheckCount(t *Tree, m *vvModel, p []byte) {
	_, leaves := t.Count(p)
	c := m.count(p)
	if len(p) == 0 {
		vvAssert(c == uint64(leaves), "Count reports exactly the stored keys")
	} else {
		vvAssert(vvOr(c == uint64(leaves), vvAnd(c == 0, leaves == 1)), "Count reports the keys with the prefix")
	}
	vvOut("count", uint64(leaves))
}

// vvCheckLen compares Len with the model.
func vvCheckLen(t *Tree, m *vvModel) {
	n := t.Len()
	vvAssert(m.count(nil) == uint64(n), "Len equals the number of stored keys")
	vvOut("len", uint64(n))
}

// vvCheckMinMax compares MinKey and MaxKey with the model.
func vvCheckMinMax(t *Tree, m *vvModel, p []byte) {
	for side := 0; side < 2; side++ {
		var v uint64
		var ok bool
		if side == 0 {
			v, ok = t.MinKey(p)
		} else {
			v, ok = t.MaxKey(p)
		}
		c := m.count(p)
		if !ok {
			vvAssert(c == 0, "MinKey and MaxKey find a stored key with the prefix")
			vvOut("minmax", 0)
			continue
		}
		vvOut("minmax", v+1)
		i := m.keyOf(v)
		vvAssert(i >= 0, "MinKey and MaxKey return the value of a stored key")
		k := m.h[i].key
		vvAssert(vvOr(vvPrefixB(k, p), c == 0), "MinKey and MaxKey return a key with the prefix")
		for j := range m.h {
			if m.h[j].del || j == i {
				continue
			}
			l := vvAnd(m.live(j), vvPrefixB(m.h[j].key, p))
			if side == 0 {
				vvAssert(vvOr(vvNot(l), vvNot(vvLessB(m.h[j].key, k))), "MinKey returns the first key")
			} else {
				vvAssert(vvOr(vvNot(l), vvNot(vvLessB(k, m.h[j].key))), "MaxKey returns the last key")
			}
		}
	}
}

// vvKeysOf returns the keys of all records.
func (m *vvModel) keys() (r [][]byte) {
	for i := range m.h {
		r = append(r, m.h[i].key)
	}
	return
}

// vvCheckUsable deletes every key, checks that the tree behaves like an empty
// one and accepts keys again.
func vvCheckEmptied(t *Tree, m *vvModel) {
	for i := range m.h {
		if !m.h[i].del {
			vvDelKey(t, m, m.h[i].key)
		}
	}
	for i, n := 0, len(m.h); i < n; i++ {
		_, ok := t.Lookup(m.h[i].key)
		vvAssert(vvNot(ok), "an emptied tree finds nothing")
	}
	vvCheckLen(t, m)
	vvCheckCount(t, m, nil)
	vvCheckIter(t, m, nil)
	vvCheckMinMax(t, m, nil)
	m2 := &vvModel{}
	for i := range m.h {
		if !m.h[i].del && i < 3 {
			if vvIsPrefixFree(m2.keys(), m.h[i].key) {
				vvPutKey(t, m2, m.h[i].key, vvVal(100+i))
			}
		}
	}
	vvCheckKeys(t, m2)
	vvCheckLen(t, m2)
}

const (
	vvCkKeys = 1 << iota
	vvCkProbe
	vvCkLen
	vvCkIter
	vvCkMinMax
	vvCkPrefix
	vvCkEmpty
	vvCkStop
	vvCkCanon
)

func vvFinalChecks(t *Tree, m *vvModel, mask, plo, phi int) {
	if mask&vvCkKeys != 0 {
		vvCheckKeys(t, m)
	}
	if mask&vvCkLen != 0 {
		vvCheckLen(t, m)
		vvCheckCount(t, m, nil)
	}
	if mask&vvCkIter != 0 {
		vvCheckIter(t, m, nil)
	}
	if mask&vvCkMinMax != 0 {
		vvCheckMinMax(t, m, nil)
	}
	if mask&vvCkProbe != 0 {
		vvCheckLookup(t, m, vvKey(plo, phi))
	}
	if mask&vvCkPrefix != 0 {
		p := vvKey(plo, phi)
		vvCheckIter(t, m, p)
		vvCheckCount(t, m, p)
		vvCheckMinMax(t, m, p)
	}
	if mask&vvCkEmpty != 0 {
		vvCheckEmptied(t, m)
	}
	if mask&vvCkStop != 0 {
		t.Stop()
		vvAssert(m.count(nil) == uint64(t.Len()), "Len of a stopped tree equals the number of stored keys")
		t.Start()
		for i, n := 0, len(m.h); i < n; i++ {
			if !m.h[i].del {
				f, op := t.PrepareUpdate(m.h[i].key)
				_ = f
				op.Abort()
			}
		}
	}
	if mask&vvCkCanon != 0 && vvCanonHook != nil {
		vvCanonHook(t, m)
	}
	vvCover("end")
}

// vvCanonHook compares the numbers reported by a Counter with the keys.
var vvCanonHook func(t *Tree, m *vvModel)

func init() { vvHarnesses["vvH_ops"] = vvH_ops }

// vvH_ops: a tree of a certain shape (s0..s1), then nops arbitrary operations
// (kinds: bit 0 put, bit 1 delete, bit 2 put+abort, bit 3 delete+abort) on
// arbitrary keys of klo..khi bytes, then the checks in ck.
func vvH_ops() {
	s := vvInt(vvParam("s0", 0), vvParam("s1", vvParam("s0", 0)))
	nops := vvParam("ops", 1)
	kinds := vvParam("kinds", 3)
	klo, khi := vvParam("klo", 1), vvParam("khi", 3)
	t := vvNewTree(vvParam("allocs", 1), true)
	m := &vvModel{}
	vvBuild(t, m, vvScaffold(s))
	var ks [4]int
	nk := 0
	for b := 0; b < 4; b++ {
		if kinds>>uint(b)&1 != 0 {
			ks[nk] = b
			nk++
		}
	}
	for i := 0; i < nops; i++ {
		kind := ks[vvInt(0, nk-1)]
		k := vvKey(klo, khi)
		switch kind {
		case 0, 2:
			vvPrefixFreeM(m, k)
			if kind == 0 {
				vvPutKey(t, m, k, vvVal(len(m.h)))
				vvCover("put")
			} else {
				_, op := t.PrepareUpdate(k)
				op.Abort()
				vvCover("put aborted")
			}
		case 1:
			if vvDelKey(t, m, k) {
				vvCover("deleted")
			}
		case 3:
			found, op := t.PrepareDelete(k)
			if found {
				op.Abort()
				vvCover("delete aborted")
			}
		}
	}
	vvFinalChecks(t, m, vvParam("ck", 3), vvParam("plo", 1), vvParam("phi", 2))
}
