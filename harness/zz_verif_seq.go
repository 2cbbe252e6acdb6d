package radix

// Trees with many keys.

// vvShape lists distinct prefix-free concrete keys. n is the number of keys
// (about), order the order of insertion, pl the length of a common prefix.
func vvShape(s, n, order, pl int) (r [][]byte) {
	pre := vvPre(pl)
	add := func(b ...byte) { r = append(r, append(append([]byte(nil), pre...), b...)) }
	switch s {
	case 0: // n leaves
		for i := 0; i < n; i++ {
			add(vvNth(i, order))
		}
	case 1: // n leaves with one more byte
		for i := 0; i < n; i++ {
			add(vvNth(i, order), 'q')
		}
	case 2: // two levels, 256 per node
		for i := 0; i < n; i++ {
			add(byte(i>>8), vvNth(i&255, order))
		}
	case 3: // three levels: 12 leaves per lowest node, 5 nodes per node
		for i := 0; i < n; i++ {
			add(byte(i/60), byte(i/12%5), vvNth(i%12, order))
		}
	case 4: // every third child is a node of two leaves
		for i := 0; len(r) < n && i < 256; i++ {
			b := vvNth(i, order)
			if i%3 == 1 {
				add(b, 'x')
				add(b, 'y')
			} else {
				add(b)
			}
		}
	case 5: // many nodes of three leaves
		for i := 0; i < n/3; i++ {
			b := vvNth(i, order)
			add(b, 0)
			add(b, 7)
			add(b, 255)
		}
	case 6: // as 2, then a node behind a long prefix
		for i := 0; i < n-3; i++ {
			add(byte(i>>8), vvNth(i&255, order))
		}
		long := append([]byte{200}, vvPre(300)...)
		add(append(append([]byte(nil), long...), 'x')...)
		add(append(append([]byte(nil), long...), 'y', 'a')...)
		add(append(append([]byte(nil), long...), 'y', 'b')...)
	case 7: // a leaf first, then two wide nodes
		add(0)
		for i := 0; i < n-1; i++ {
			add(byte(1+i/150), 'k', vvNth(i%150, order))
		}
	case 8: // prefixes of growing length between the levels
		for i := 0; i < n; i++ {
			b := []byte{byte(i % 7)}
			for j := 0; j < i%7*4; j++ {
				b = append(b, 'm')
			}
			add(append(b, byte(i/7), 'z')...)
		}
	case 9: // a long prefix between two levels, leaves and nodes on both
		in := vvPre(vvShapeIn)
		add('a')
		cin := append([]byte{'c'}, in...)
		add(append(cin, 'x', '1')...)
		add(append(cin, 'y', '1')...)
		add(append(cin, 'y', '2')...)
		for i := 4; i < n; i++ {
			add(append(cin, 'z', byte(i))...)
		}
	case 10: // a leaf beside a node behind a long prefix
		in := vvPre(vvShapeIn)
		add('a', 'a')
		cin := append([]byte{'c'}, in...)
		for i := 1; i < n; i++ {
			add(append(cin, byte(3*i), '1')...)
		}
	}
	return
}

// vvShapeIn is the length of the inner prefix of shapes 9 and 10.
var vvShapeIn = 8

// vvPre is a common prefix of n bytes without repetition of 8-byte groups.
func vvPre(n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, byte('A'+(i*7+i/8)%50))
	}
	return b
}

// vvBulk inserts distinct concrete keys into a tree which only holds bulk
// keys so far.
func vvBulk(t *Tree, m *vvModel, keys [][]byte) {
	a := t.GetAllocator()
	for _, k := range keys {
		found, op := a.PrepareUpdate(k)
		if found {
			i := m.hint(op.Value)
			vvAssert(i >= 0, "PrepareUpdate reports a stored value")
			op.FetchedKey = append(op.FetchedKey[:0], m.h[i].key...)
		}
		vvAssert(op.Finalize(vvVal(len(m.h))), "Finalize of an insert succeeds without concurrent writers")
		m.put(k, vvVal(len(m.h)))
	}
	m.stable = len(m.h)
	t.ReleaseAllocator(a)
}

func init() {
	vvHarnesses["vvH_shape"] = vvH_shape
	vvHarnesses["vvH_drain"] = vvH_drain
}

// vvListN: the sizes selected by params n0..n1 or, with nl, from a list of
// interesting ones.
func vvPickN() int {
	if l := vvParam("nl", 0); l > 0 {
		var ns []int
		switch l {
		case 1: // around the change of representation
			ns = []int{125, 126, 127, 128, 129}
		case 2:
			ns = []int{1, 2, 3, 4, 5}
		case 3:
			ns = []int{200, 254, 255, 256}
		case 4:
			ns = []int{7, 15, 16, 17}
		case 5: // around the batch size of iterators
			ns = []int{255, 256, 257, 258, 259}
		}
		return ns[vvInt(0, len(ns)-1)]
	}
	return vvInt(vvParam("n0", 8), vvParam("n1", vvParam("n0", 8)))
}

// vvCut chooses where to cut a key of n bytes.
func vvCut(n int) int {
	if n <= 14 {
		return vvInt(0, n-1)
	}
	cs := []int{0, 1, 2, 8, 9, 10, n / 2, n - 11, n - 10, n - 9, n - 4, n - 3, n - 2, n - 1}
	return cs[vvInt(0, len(cs)-1)]
}

// vvH_shape: a tree of many concrete keys, then ops operations, then checks.
// opk: 1 keys chosen among the stored ones (at most 24 spread ones), 2 common
// prefix + arbitrary byte + suffix of arbitrary length, 4 arbitrary keys, 8
// stored keys cut somewhere and followed by arbitrary bytes.
func vvH_shape() {
	s := vvInt(vvParam("s0", 0), vvParam("s1", vvParam("s0", 0)))
	n := vvPickN()
	order := vvInt(vvParam("o0", 0), vvParam("o1", vvParam("o0", 0)))
	pl := vvInt(vvParam("p0", 0), vvParam("p1", vvParam("p0", 0)))
	vvShapeIn = vvInt(vvParam("in0", 8), vvParam("in1", vvParam("in0", 8)))
	t := vvNewTree(1, true)
	m := &vvModel{}
	vvBulk(t, m, vvShape(s, n, order, pl))
	nops := vvParam("ops", 0)
	for i := 0; i < nops; i++ {
		kind := vvPickBit(vvParam("kinds", 3))
		var k []byte
		switch vvPickBit(vvParam("opk", 2)) {
		case 0:
			st := 1
			if m.stable > 24 {
				st = m.stable/24 + 1
			}
			k = m.h[vvInt(0, (m.stable-1)/st)*st].key
		case 1:
			k = append(append([]byte(nil), vvPre(pl)...), vvKey(vvParam("klo", 1), vvParam("khi", 2))...)
		case 2:
			k = vvKey(vvParam("klo", 1), vvParam("khi", 2))
		case 3:
			// a stored key cut somewhere, followed by arbitrary bytes
			x := m.h[vvInt(0, m.stable-1)].key
			k = append(append([]byte(nil), x[:vvCut(len(x))]...), vvKey(vvParam("klo", 1), vvParam("khi", 2))...)
		}
		switch kind {
		case 0:
			vvPrefixFreeM(m, k)
			vvPutKey(t, m, k, vvVal(len(m.h)))
			vvCover("put")
		case 1:
			if vvDelKey(t, m, k) {
				vvCover("deleted")
			}
		case 2:
			vvPrefixFreeM(m, k)
			_, op := t.PrepareUpdate(k)
			op.Abort()
			vvCover("put aborted")
		case 3:
			if found, op := t.PrepareDelete(k); found {
				op.Abort()
				vvCover("delete aborted")
			}
		}
	}
	mask := vvParam("ck", vvCkIter|vvCkLen)
	if mask&(vvCkPrefix|vvCkProbe) != 0 && vvParam("pp", 0) != 0 {
		p := append(append([]byte(nil), vvPre(pl)...), vvKey(vvParam("plo", 0), vvParam("phi", 1))...)
		if vvParam("pp", 0) == 2 {
			x := m.h[vvInt(0, m.stable-1)].key
			p = append(append([]byte(nil), x[:vvCut(len(x))]...), vvKey(vvParam("plo", 0), vvParam("phi", 1))...)
		}
		if mask&vvCkPrefix != 0 {
			vvCheckIter(t, m, p)
			vvCheckCount(t, m, p)
			vvCheckMinMax(t, m, p)
		}
		if mask&vvCkProbe != 0 && len(p) > 0 {
			vvCheckLookup(t, m, p)
		}
		mask &^= vvCkPrefix | vvCkProbe
	}
	vvFinalChecks(t, m, mask, vvParam("plo", 1), vvParam("phi", 2))
}

// vvH_drain: all keys of a shape except some, chosen by the solver, are
// deleted; the rest must be intact; then some are put back.
func vvH_drain() {
	s := vvInt(vvParam("s0", 0), vvParam("s1", vvParam("s0", 0)))
	n := vvPickN()
	order := vvInt(vvParam("o0", 0), vvParam("o1", vvParam("o0", 0)))
	pl := vvInt(vvParam("p0", 0), vvParam("p1", vvParam("p0", 0)))
	t := vvNewTree(1, true)
	m := &vvModel{}
	vvShapeIn = vvInt(vvParam("in0", 8), vvParam("in1", vvParam("in0", 8)))
	keys := vvShape(s, n, order, pl)
	vvBulk(t, m, keys)
	nk := len(keys)
	// the survivors: one arbitrary byte value, or none
	keep := vvParam("keep", 1)
	var kb []byte
	for i := 0; i < keep; i++ {
		kb = append(kb, vvByte())
	}
	step := 7
	if nk%7 == 0 {
		step = 11
	}
	dord := vvInt(0, vvParam("dord", 1))
	a := t.GetAllocator()
	var rest, gone []int
	for j := 0; j < nk; j++ {
		i := j
		if dord == 1 {
			i = nk - 1 - j
		}
		if dord == 2 {
			i = (j*step + 3) % nk
		}
		kept := false
		for _, b := range kb {
			if keys[i][len(keys[i])-1-vvParam("tail", 0)] == b {
				kept = true
				break
			}
		}
		if kept {
			rest = append(rest, i)
			continue
		}
		found, op := a.PrepareDelete(keys[i])
		vvAssert(found, "PrepareDelete finds a stored key")
		vvAssert(op.Value == vvVal(i), "PrepareDelete reports the stored value")
		vvAssert(op.Finalize(), "Finalize of a delete succeeds without concurrent writers")
		gone = append(gone, i)
	}
	t.ReleaseAllocator(a)
	m2 := &vvModel{}
	for _, i := range rest {
		m2.put(keys[i], vvVal(i))
	}
	m2.stable = len(m2.h)
	if len(rest) > 0 {
		vvCover("some left")
	} else {
		vvCover("none left")
	}
	vvFinalChecks(t, m2, vvParam("ck", vvCkKeys|vvCkLen|vvCkIter|vvCkMinMax), vvParam("plo", 1), vvParam("phi", 2))
	for j, i := range gone {
		if j%7 == 0 {
			v, ok := t.Lookup(keys[i])
			vvAssert(vvOr(vvNot(ok), m2.has(v)), "a deleted key is not found")
		}
	}
	for j, i := range gone {
		if j < 3 || j == len(gone)-1 {
			vvPutKey(t, m2, keys[i], vvVal(1000+2*i))
		}
	}
	vvCheckKeys(t, m2)
	vvCheckLen(t, m2)
	vvCheckIter(t, m2, nil)
	vvCheckMinMax(t, m2, nil)
	vvCover("end")
}
