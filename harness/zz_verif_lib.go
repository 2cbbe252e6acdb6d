package radix

// Shared parts of the harnesses: a reference model kept as terms (no path
// split), and drivers for the public API.

type vvRec struct {
	del bool
	key []byte
	val uint64
}

// vvModel is the history of effective operations.
type vvModel struct {
	h []vvRec
	// the first stable records are insertions of mutually distinct keys
	stable int
	nohint bool
	// finds constant keys among the stable records
	idx map[string]int
}

func vvNot(a bool) bool { return !a }

// get returns whether key is stored after the first n records, and its value.
func (m *vvModel) getAt(key []byte, n int) (found bool, val uint64) {
	i := 0
	if m.stable > 16 && m.stable <= n && vvConstB(key) {
		if m.idx == nil {
			m.idx = map[string]int{}
			for j, r := range m.h[:m.stable] {
				m.idx[string(r.key)] = j
			}
		}
		if j, ok := m.idx[string(key)]; ok {
			found, val = true, m.h[j].val
		}
		i = m.stable
	}
	for ; i < n; i++ {
		r := m.h[i]
		if len(r.key) != len(key) {
			continue
		}
		e := vvEqB(r.key, key)
		if r.del {
			found = vvAnd(found, vvNot(e))
		} else {
			found = vvOr(found, e)
			val = vvIte(e, r.val, val)
		}
	}
	return
}

// vvConstB: all bytes are constants.
func vvConstB(k []byte) bool {
	for _, b := range k {
		if !vvIsConst(uint64(b)) {
			return false
		}
	}
	return true
}

func (m *vvModel) get(key []byte) (bool, uint64) { return m.getAt(key, len(m.h)) }

func (m *vvModel) put(key []byte, val uint64) { m.h = append(m.h, vvRec{false, key, val}) }
func (m *vvModel) remove(key []byte)          { m.h = append(m.h, vvRec{true, key, 0}) }

// live tells whether record i is an insertion still in effect.
func (m *vvModel) live(i int) bool {
	if m.h[i].del {
		return false
	}
	l := true
	from := i + 1
	if from < m.stable {
		from = m.stable
	}
	for j := from; j < len(m.h); j++ {
		if len(m.h[j].key) == len(m.h[i].key) {
			l = vvAnd(l, vvNot(vvEqB(m.h[j].key, m.h[i].key)))
		}
	}
	return l
}

// hint returns the record holding a constant v made by vvVal, or -1.
func (m *vvModel) hint(v uint64) int {
	if m.nohint || !vvIsConst(v) {
		return -1
	}
	i := -1
	if v&1 == 1 && v < 1<<20 {
		i = int(v)
	} else if d := 1<<55 - 1 - v; d < 1<<20 {
		i = int(d)
	}
	if i >= 0 && i < len(m.h) && !m.h[i].del && m.h[i].val == v {
		return i
	}
	return -1
}

// has tells whether v is the value of some stored key.
func (m *vvModel) has(v uint64) bool {
	if i := m.hint(v); i >= 0 {
		return m.live(i)
	}
	r := false
	for i := range m.h {
		if !m.h[i].del {
			if e := m.h[i].val == v; vvMaybe(e) {
				r = vvOr(r, vvAnd(m.live(i), e))
			}
		}
	}
	return r
}

// hasOther: v is the value of some stored key other than key.
func (m *vvModel) hasOther(v uint64, key []byte) bool {
	if i := m.hint(v); i >= 0 {
		return vvAnd(m.live(i), vvNot(vvEqB(m.h[i].key, key)))
	}
	r := false
	for i := range m.h {
		if !m.h[i].del {
			if e := m.h[i].val == v; vvMaybe(e) {
				r = vvOr(r, vvAnd(vvAnd(m.live(i), e), vvNot(vvEqB(m.h[i].key, key))))
			}
		}
	}
	return r
}

// count is the number of stored keys, those with the prefix p.
func (m *vvModel) count(p []byte) uint64 {
	n := uint64(0)
	for i := range m.h {
		if !m.h[i].del {
			n += vvIte(vvAnd(m.live(i), vvPrefixB(m.h[i].key, p)), 1, 0)
		}
	}
	return n
}

// keyOf returns the index of the live record holding v, by asking the solver
// for one (values are pairwise distinct); -1 when there is none.
func (m *vvModel) keyOf(v uint64) int {
	if i := m.hint(v); i >= 0 {
		if m.live(i) {
			return i
		}
		return -1
	}
	for i := range m.h {
		if m.h[i].del {
			continue
		}
		if e := m.h[i].val == v; vvMaybe(e) {
			if vvAnd(m.live(i), e) {
				return i
			}
		}
	}
	return -1
}

// vvPrefixFree assumes that key is neither a proper prefix nor a proper
// extension of any of keys.
func vvPrefixFree(keys [][]byte, key []byte) {
	for _, k := range keys {
		switch {
		case len(k) < len(key):
			vvAssume(vvNot(vvPrefixB(key, k)))
		case len(k) > len(key):
			vvAssume(vvNot(vvPrefixB(k, key)))
		}
	}
}

// vvPrefixFreeM assumes that key is neither a proper prefix nor a proper
// extension of any stored key.
func vvPrefixFreeM(m *vvModel, key []byte) {
	for i, r := range m.h {
		if r.del {
			continue
		}
		k := r.key
		if len(k) < len(key) {
			vvAssume(vvNot(vvAnd(m.live(i), vvPrefixB(key, k))))
		} else if len(k) > len(key) {
			vvAssume(vvNot(vvAnd(m.live(i), vvPrefixB(k, key))))
		}
	}
}

// vvPrefixable: key together with keys is prefix-free (as a term).
func vvIsPrefixFree(keys [][]byte, key []byte) bool {
	r := true
	for _, k := range keys {
		switch {
		case len(k) < len(key):
			r = vvAnd(r, vvNot(vvPrefixB(key, k)))
		case len(k) > len(key):
			r = vvAnd(r, vvNot(vvPrefixB(k, key)))
		}
	}
	return r
}

// vvNewTree makes a tree; when settle is set its background goroutine has
// provided the first block.
func vvNewTree(n int, settle bool) *Tree {
	t := NewTree(&Options{NumAllocators: n})
	if settle {
		vvQuiesce()
	}
	if vvParam("dirty", 0) != 0 && vvDirtyHook != nil {
		vvDirtyHook(t)
		vvQuiesce()
	}
	return t
}

// vvDirtyHook fills the free lists of a new tree (set by a file which knows
// the internals).
var vvDirtyHook func(t *Tree)

// vvPutKey stores key=val the documented way; fetched keys come from the
// model. It returns the candidate reported by PrepareUpdate.
func vvPutKey(t *Tree, m *vvModel, key []byte, val uint64) (found bool, cand uint64) {
	found, op := t.PrepareUpdate(key)
	cand = op.Value
	vvFinishPut(op, m, key, val, found)
	return
}

func vvPutKeyA(a *Allocator, m *vvModel, key []byte, val uint64) (found bool, cand uint64) {
	found, op := a.PrepareUpdate(key)
	cand = op.Value
	vvFinishPut(op, m, key, val, found)
	return
}

func vvFinishPut(op *UpdateOperation, m *vvModel, key []byte, val uint64, found bool) {
	ef, ev := m.get(key)
	vvAssert(vvOr(vvNot(ef), vvAnd(found, op.Value == ev)), "PrepareUpdate finds a stored key and its value")
	if found {
		i := m.keyOf(op.Value)
		vvAssert(i >= 0, "PrepareUpdate reports the value of a stored key")
		op.FetchedKey = append(op.FetchedKey[:0], m.h[i].key...)
		if vvEqB(m.h[i].key, key) {
			op.Match = true
		}
	}
	ok := op.Finalize(val)
	vvAssert(ok, "Finalize of an update succeeds without concurrent writers")
	m.put(key, val)
}

// vvDelKey deletes key the documented way.
func vvDelKey(t *Tree, m *vvModel, key []byte) (deleted bool) {
	found, op := t.PrepareDelete(key)
	return vvFinishDel(op, m, key, found)
}

func vvDelKeyA(a *Allocator, m *vvModel, key []byte) (deleted bool) {
	found, op := a.PrepareDelete(key)
	return vvFinishDel(op, m, key, found)
}

func vvFinishDel(op *DeleteOperation, m *vvModel, key []byte, found bool) bool {
	ef, ev := m.get(key)
	if !found {
		vvAssert(vvNot(ef), "PrepareDelete finds a stored key")
		return false
	}
	vvAssert(vvOr(vvNot(ef), op.Value == ev), "PrepareDelete reports the stored value")
	i := m.keyOf(op.Value)
	vvAssert(i >= 0, "PrepareDelete reports the value of a stored key")
	op.FetchedKey = append(op.FetchedKey[:0], m.h[i].key...)
	if !vvEqB(m.h[i].key, key) {
		op.Abort()
		return false
	}
	ok := op.Finalize()
	vvAssert(ok, "Finalize of a delete succeeds without concurrent writers")
	m.remove(key)
	return true
}

// vvCheckLookup compares Lookup(key) with the model.
func vvCheckLookup(t *Tree, m *vvModel, key []byte) {
	ef, ev := m.get(key)
	vvCheckLookupIs(t, m, key, ef, ev)
}

// vvCheckLookupRec does it for the key of record i.
func vvCheckLookupRec(t *Tree, m *vvModel, i int) {
	if i >= m.stable {
		vvCheckLookup(t, m, m.h[i].key)
		return
	}
	// no other stable record has this key
	key := m.h[i].key
	ef, ev := true, m.h[i].val
	for _, r := range m.h[m.stable:] {
		if len(r.key) != len(key) {
			continue
		}
		e := vvEqB(r.key, key)
		if r.del {
			ef = vvAnd(ef, vvNot(e))
		} else {
			ef = vvOr(ef, e)
			ev = vvIte(e, r.val, ev)
		}
	}
	vvCheckLookupIs(t, m, key, ef, ev)
}

func vvCheckLookupIs(t *Tree, m *vvModel, key []byte, ef bool, ev uint64) {
	v, ok := t.Lookup(key)
	if ok {
		vvAssert(vvOr(vvNot(ef), v == ev), "Lookup returns the value stored for the key")
		vvAssert(m.has(v), "Lookup returns the value of some stored key")
	} else {
		vvAssert(vvNot(ef), "Lookup finds a stored key")
	}
	vvOut("lookup", vvIte(ok, v+1, 0))
}

// vvKey returns an arbitrary key of length lo..hi.
func vvKey(lo, hi int) []byte {
	return vvBytes(vvInt(lo, hi))
}
