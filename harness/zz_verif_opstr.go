package radix

import "bytes"

func init() { vvHarnesses["vvH_opstr"] = vvH_opstr }

// vvPrepared describes the operation a prepare call on key returns, and
// aborts it.
func vvPrepared(t *Tree, key []byte, del bool) (s string, found bool, value uint64) {
	if del {
		f, op := t.PrepareDelete(key)
		if !f {
			vvAssert(op == nil, "a delete which found nothing comes without an operation")
			return "", false, 0
		}
		vvAssert(len(op.FetchedKey) == 0, "a new delete operation has no fetched key")
		s, value = op.String(), op.Value
		op.Abort()
		return s, true, value
	}
	f, op := t.PrepareUpdate(key)
	vvAssert(!op.Match, "a new update operation is not marked as matching")
	vvAssert(len(op.FetchedKey) == 0, "a new update operation has no fetched key")
	s, value = op.String(), op.Value
	op.Abort()
	return s, f, value
}

// vvH_opstr: what a prepared operation shows of itself does not depend on
// what was done before with another tree, and showing it changes nothing.
func vvH_opstr() {
	t, m := vvNewTree(1, true), &vvModel{}
	s := vvInt(vvParam("s0", 0), vvParam("s1", 0))
	vvBulk(t, m, vvScaffoldC(s))
	if vvParam("emptied", 0) > 0 && vvInt(0, 1) == 1 {
		for i := m.stable - 1; i >= 0; i-- {
			vvDelKey(t, m, m.h[i].key)
		}
	}
	k := vvPickStored(m, s)
	// the first time
	del := vvInt(0, 1) == 1
	if vvParam("arb", 0) > 0 {
		k = vvKey(1, vvParam("arb", 0))
		if !del {
			vvPrefixFreeM(m, k)
		}
	}
	s1, f1, v1 := vvPrepared(t, k, del)
	// something else in between, elsewhere
	u, n := vvNewTree(2, true), &vvModel{}
	r := vvInt(vvParam("t0", 0), vvParam("t1", 0))
	vvBulk(u, n, vvScaffoldC(r))
	k2 := vvPickStored(n, r)
	kind := vvInt(0, 3)
	switch kind {
	case 0, 1:
		f, op := u.PrepareUpdate(k2)
		if f {
			op.FetchedKey = append(op.FetchedKey, n.h[n.hint(op.Value)].key...)
			op.Match = bytes.Equal(op.FetchedKey, k2)
		}
		if kind == 0 {
			op.Abort()
		} else {
			op.Finalize(5)
		}
	case 2, 3:
		if f, op := u.PrepareDelete(k2); f {
			op.FetchedKey = append(op.FetchedKey, n.h[n.hint(op.Value)].key...)
			if kind == 2 || !bytes.Equal(op.FetchedKey, k2) {
				op.Abort()
			} else {
				op.Finalize()
			}
		}
	}
	s2, f2, v2 := vvPrepared(t, k, del)
	vvAssert(f1 == f2 && v1 == v2, "preparing an operation again finds the same")
	vvAssert(s1 == s2, "a prepared operation shows nothing of earlier ones")
	vvCheckKeys(t, m)
	vvCheckLen(t, m)
	vvCover("end")
}
