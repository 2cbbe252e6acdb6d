package radix

func init() {
	vvHarnesses["vvH_iter"] = vvH_iter
	vvHarnesses["vvH_C24_collapse"] = vvH_C24_collapse
}

// vvValIndex tells which record got value v (see vvVal), or -1.
func vvValIndex(m *vvModel, v uint64) int {
	i := -1
	if v&1 == 1 && v < 1<<20 {
		i = int(v)
	} else if d := 1<<55 - 1 - v; d < 1<<20 {
		i = int(d)
	}
	if i < 0 || i >= len(m.h) || m.h[i].del || m.h[i].val != v {
		return -1
	}
	return i
}

// vvWatch follows an iteration of a tree which is modified meanwhile.
type vvWatch struct {
	m     *vvModel
	p     []byte
	n0    int   // records at the start
	ret   []int // records returned with the prefix
	out   int   // values returned without the prefix
	limit int
}

// collapsed: the subtree the iteration was about to continue in has become a
// single leaf, that of k (the known limit of resuming by position: what is
// left of the place does not tell the key).
func (w *vvWatch) collapsed(k []byte) bool {
	r := false
	for j := w.n0; j < len(w.m.h); j++ {
		if !w.m.h[j].del {
			continue
		}
		d := w.m.h[j].key
		for l := 1; l < len(d) && l < len(k); l++ {
			c := vvAnd(vvLessB(k, d), vvEqB(k[:l], d[:l]))
			if !vvMaybe(c) {
				continue
			}
			for i := range w.m.h {
				o := w.m.h[i]
				if !o.del && len(o.key) >= l {
					c = vvAnd(c, vvNot(vvAnd(w.m.live(i), vvAnd(vvEqB(o.key[:l], k[:l]), vvNot(vvEqB(o.key, k))))))
				}
			}
			r = vvOr(r, c)
		}
	}
	return r
}

// step calls Next once and checks what it returns. It tells if there was
// anything.
func (w *vvWatch) step(it *Iterator) bool {
	if !it.Next() {
		return false
	}
	w.limit--
	vvAssert(w.limit > 0, "iteration ends")
	i := vvValIndex(w.m, it.Value())
	vvAssert(i >= 0, "iteration yields values of stored keys")
	k := w.m.h[i].key
	if !vvPrefixB(k, w.p) {
		w.out++
		vvAssert(w.out == 1, "at most one candidate outside the prefix")
		return true
	}
	if n := len(w.ret); n > 0 {
		last := w.m.h[w.ret[n-1]].key
		if !vvLessB(last, k) {
			if vvParam("exempt", 1) != 0 && w.collapsed(k) {
				vvCover("known: repeated after a collapse")
				return true
			}
			vvAssert(false, "iteration of a changing tree is strictly ascending")
		}
	}
	w.ret = append(w.ret, i)
	return true
}

// end checks that every key present throughout was returned.
func (w *vvWatch) end(it *Iterator) {
	vvAssert(vvNot(it.Next()), "an iterator that ended stays ended")
	m := w.m
	j := 0
	for i := 0; i < w.n0; i++ {
		k := m.h[i].key
		if m.h[i].del || !vvPrefixB(k, w.p) {
			continue
		}
		gone := false
		for x := w.n0; x < len(m.h); x++ {
			if m.h[x].del {
				gone = vvOr(gone, vvEqB(m.h[x].key, k))
			}
		}
		for x := i + 1; x < w.n0; x++ {
			// not the last record of the key before the iteration
			if x >= m.stable {
				gone = vvOr(gone, vvEqB(m.h[x].key, k))
			}
		}
		got := false
		for ; j < len(w.ret); j++ {
			// records of the bulk usually come in some fixed order
			if w.ret[j] == i {
				got = true
			}
			break
		}
		if got {
			j++
			continue
		}
		for _, x := range w.ret {
			if e := vvEqB(m.h[x].key, k); vvMaybe(e) {
				got = vvOr(got, e)
			}
		}
		vvAssert(vvOr(got, gone), "a key present during the whole iteration is returned")
	}
}

// vvH_iter (C24): an iteration interrupted several times by operations on
// chosen or arbitrary keys. Parameters: s0..s1 shapes (wide ones with shape=,
// n0..), pm prefix mode (1 none, 2 a byte or two of a stored key, 4
// arbitrary), rounds, jmax steps before each interruption (or jl: the batch
// boundaries), ops operations each, kinds (0 put, 1 delete, 2 delete all keys
// sharing a chosen key's first byte(s) except one), opk key modes.
func vvH_iter() {
	t := vvNewTree(1, true)
	m := &vvModel{}
	s := 0
	if sh := vvParam("shape", -1); sh >= 0 {
		vvBulk(t, m, vvShape(vvInt(sh, vvParam("shape1", sh)), vvPickN(), vvParam("o0", 0), vvParam("pl", 0)))
	} else {
		s = vvInt(vvParam("s0", 2), vvParam("s1", vvParam("s0", 2)))
		vvBulk(t, m, vvScaffoldC(s))
	}
	w := &vvWatch{m: m, n0: len(m.h), limit: 2*len(m.h) + 8}
	switch vvPickBit(vvParam("pm", 1)) {
	case 1:
		k := vvPickStored(m, s)
		w.p = k[:vvInt(1, vvMinInt(2, len(k)))]
	case 2:
		w.p = vvKey(1, 2)
	}
	it := t.NewIterator(w.p)
	more := true
	for r := 0; r < vvParam("rounds", 1); r++ {
		j := 0
		if l := vvParam("jl", 0); l > 0 {
			j = []int{1, l - 1, l, l + 1, l + 2}[vvInt(0, 4)]
		} else {
			j = vvInt(vvParam("jmin", 1), vvParam("jmax", 3))
		}
		for ; j > 0 && more; j-- {
			more = w.step(it)
		}
		for i := 0; i < vvParam("ops", 1); i++ {
			kind := vvPickBit(vvParam("kinds", 3))
			var k []byte
			switch vvPickBit(vvParam("opk", 1)) {
			case 0:
				if s > 0 {
					k = vvPickStored(m, s)
				} else {
					st := w.n0/vvParam("spread", 8) + 1
					k = m.h[vvInt(0, (w.n0-1)/st)*st].key
				}
			case 1:
				k = vvKey(vvParam("klo", 1), vvParam("khi", 3))
			case 2: // around the place the iteration has reached
				if len(w.ret) == 0 {
					return
				}
				l := m.h[w.ret[len(w.ret)-1]].key
				k = append(append([]byte(nil), l[:vvInt(0, len(l)-1)]...), vvKey(1, 2)...)
			}
			switch kind {
			case 0:
				vvPrefixFreeM(m, k)
				vvPutKey(t, m, k, vvVal(len(m.h)))
				vvCover("put")
			case 1:
				if vvDelKey(t, m, k) {
					vvCover("deleted")
				}
			case 2:
				c := vvInt(1, len(k)-1)
				keep := vvInt(0, 3)
				for x := 0; x < w.n0; x++ {
					y := m.h[x].key
					if vvPrefixB(y, k[:c]) {
						if keep == 0 {
							keep--
							continue
						}
						keep--
						vvDelKey(t, m, y)
					}
				}
				vvCover("thinned")
			}
		}
	}
	for more {
		more = w.step(it)
	}
	w.end(it)
	it.Close()
	if vvParam("after", 1) != 0 {
		vvCheckIter(t, m, nil)
	}
	vvCover("end")
}

// vvH_C24_collapse: a subtree the iteration is to continue in collapses into
// one leaf whose key was returned before.
func vvH_C24_collapse() {
	t := vvNewTree(1, true)
	m := &vvModel{}
	var keys [][]byte
	for i := 0; i < 256; i++ {
		keys = append(keys, []byte{1, byte(i)})
	}
	keys = append(keys, vvS("zaa", "zab", "zb")...)
	vvBulk(t, m, keys)
	w := &vvWatch{m: m, n0: len(m.h), limit: 2*len(m.h) + 8}
	it := t.NewIterator(nil)
	for i := 0; i < 258; i++ {
		w.step(it)
	}
	// what is left is the leaf of zaa, with another value
	vvPutKey(t, m, []byte("zaa"), vvVal(len(m.h)))
	vvDelKey(t, m, []byte("zab"))
	vvDelKey(t, m, []byte("zb"))
	for w.step(it) {
	}
	w.end(it)
	it.Close()
}
