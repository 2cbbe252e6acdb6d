package radix

// Controlled concurrency: threads executing operations under a symbolic
// schedule, checked for linearizability.

type vvOp struct {
	kind       int
	key        []byte
	val        uint64
	done       bool // had an effect or an answer
	found      bool // put: replaced, del: deleted, lookup: found
	old        uint64
	start, end int
	pre        *UpdateOperation // prepared before the threads started
	preFound   bool
}

const (
	vvKPut = iota
	vvKDel
	vvKLookup
	vvKMin
	vvKMax
	vvKCount
	vvKIter
	vvKPut1 // a single attempt
	vvKDel1
	vvKPutAbort
	vvKDelAbort
	vvKLen
	vvKFlush
	vvNKinds
)

type vvCC struct {
	t     *Tree
	m     *vvModel // before the concurrent phase
	byVal [][]byte // value -> key
	ops   []*vvOp
	clock int
	sameA bool
	pfx   []byte // of the reads by prefix
}

// in: key is in the range of the reads.
func (c *vvCC) in(key []byte) bool {
	return len(c.pfx) == 0 || vvConcB(vvPrefixB(key, c.pfx))
}

// vvFetch is the caller's storage: the key stored under a value.
func (c *vvCC) fetch(v uint64) []byte {
	v = vvConc(v)
	vvAssert(v > 0 && v < uint64(len(c.byVal)) && c.byVal[v] != nil, "a value that was stored at some time")
	return c.byVal[v]
}

func (c *vvCC) run(o *vvOp) {
	c.clock++
	o.start = c.clock
	switch o.kind {
	case vvKPut, vvKPut1, vvKPutAbort:
		for try := 0; ; try++ {
			vvAssert(try < 6, "an update is not refused forever")
			found, op := o.preFound, o.pre
			if op == nil {
				found, op = c.t.PrepareUpdate(o.key)
			}
			o.pre = nil
			if o.kind == vvKPutAbort {
				if found {
					c.fetch(op.Value)
				}
				op.Abort()
				break
			}
			match := false
			old := op.Value
			if found {
				k := c.fetch(op.Value)
				op.FetchedKey = append(op.FetchedKey[:0], k...)
				match = vvConcB(vvEqB(k, o.key))
				op.Match = match
			}
			if op.Finalize(o.val) {
				o.done = true
				o.found = match
				o.old = old
				break
			}
			if o.kind == vvKPut1 {
				break
			}
			vvGosched()
		}
	case vvKDel, vvKDel1, vvKDelAbort:
		for try := 0; ; try++ {
			vvAssert(try < 6, "a delete is not refused forever")
			found, op := c.t.PrepareDelete(o.key)
			if !found {
				o.done = o.kind != vvKDelAbort
				break
			}
			old := op.Value
			if o.kind == vvKDelAbort {
				c.fetch(old)
				op.Abort()
				break
			}
			k := c.fetch(old)
			if !vvEqB(k, o.key) {
				op.Abort()
				o.done = true
				break
			}
			if op.Finalize() {
				o.done = true
				o.found = true
				o.old = old
				break
			}
			if o.kind == vvKDel1 {
				break
			}
			vvGosched()
		}
	case vvKLookup:
		v, ok := c.t.Lookup(o.key)
		o.done = true
		if ok {
			if vvEqB(c.fetch(v), o.key) {
				o.found = true
				o.old = v
			}
		}
	case vvKMin, vvKMax:
		var v uint64
		var ok bool
		if o.kind == vvKMin {
			v, ok = c.t.MinKey(c.pfx)
		} else {
			v, ok = c.t.MaxKey(c.pfx)
		}
		if ok {
			k := c.fetch(v)
			if c.anyUntouched() {
				vvAssert(c.in(k), "MinKey and MaxKey report a key with the prefix while undisturbed ones are stored")
			}
			for i := range c.m.h {
				x := c.m.h[i].key
				if c.m.h[i].del || !c.in(x) || c.touched(x) || !vvConcB(c.m.live(i)) {
					continue
				}
				if o.kind == vvKMin {
					vvAssert(vvNot(vvLessB(x, k)), "MinKey is not behind an undisturbed key")
				} else {
					vvAssert(vvNot(vvLessB(k, x)), "MaxKey is not before an undisturbed key")
				}
			}
		} else {
			vvAssert(!c.anyUntouched(), "MinKey and MaxKey find a key while undisturbed keys are stored")
		}
	case vvKCount:
		_, n := c.t.Count(c.pfx)
		vvAssert(n <= len(c.byVal)+1 && n >= 0, "Count reports a possible number of keys")
		lo, hi := c.untouched()
		if lo > 0 || len(c.pfx) == 0 {
			vvAssert(n >= lo && n <= hi, "Count includes all undisturbed keys and no others than stored ones")
		}
	case vvKIter:
		it := c.t.NewIterator(c.pfx)
		n := 0
		var last []byte
		seen := make([]bool, len(c.byVal)+1)
		any := c.anyUntouched()
		for it.Next() {
			v := vvConc(it.Value())
			k := c.fetch(v)
			vvAssert(!seen[v], "iteration yields no value twice")
			seen[v] = true
			if any {
				vvAssert(c.in(k), "iteration yields keys with the prefix while undisturbed ones are stored")
			}
			if n > 0 {
				vvAssert(vvLessB(last, k), "iteration ascends")
			}
			last = k
			n++
			vvAssert(n <= len(c.byVal)+2, "iteration ends")
		}
		it.Close()
		for i := range c.m.h {
			if !c.m.h[i].del && c.in(c.m.h[i].key) && !c.touched(c.m.h[i].key) {
				vvAssert(vvOr(vvNot(c.m.live(i)), seen[c.m.h[i].val]), "iteration yields every undisturbed key")
			}
		}
	case vvKFlush:
		a := c.t.GetAllocator()
		a.FlushStats()
		c.t.ReleaseAllocator(a)
	case vvKLen:
		n := c.t.Len()
		p := c.pfx
		c.pfx = nil
		lo, hi := c.untouched()
		c.pfx = p
		vvAssert(n >= lo && n <= hi, "Len is a possible number of keys")
	}
	c.clock++
	o.end = c.clock
}

// touched: some concurrent writer may change key.
func (c *vvCC) touched(key []byte) bool {
	for _, o := range c.ops {
		if o.kind == vvKPut || o.kind == vvKDel || o.kind == vvKPut1 || o.kind == vvKDel1 {
			if len(o.key) == len(key) && vvEqB(o.key, key) {
				return true
			}
		}
	}
	return false
}

// untouched returns bounds for the number of keys in range at any time.
func (c *vvCC) untouched() (lo, hi int) {
	for i := range c.m.h {
		if !c.m.h[i].del && c.in(c.m.h[i].key) && vvConcB(c.m.live(i)) {
			hi++
			if !c.touched(c.m.h[i].key) {
				lo++
			}
		}
	}
	for _, o := range c.ops {
		if (o.kind == vvKPut || o.kind == vvKPut1) && c.in(o.key) {
			hi++
		}
	}
	return
}

func (c *vvCC) anyUntouched() bool {
	lo, _ := c.untouched()
	return lo > 0
}

func vvConcB(b bool) bool {
	if b {
		return true
	}
	return false
}

// linear: is there an order of the completed operations, consistent with real
// time, explaining all results and the final contents?
func (c *vvCC) linear(keys [][]byte, fin []bool, finv []uint64) bool {
	var ops []*vvOp
	for _, o := range c.ops {
		if o.done {
			ops = append(ops, o)
		}
	}
	used := make([]bool, len(ops))
	m := &vvModel{h: append([]vvRec(nil), c.m.h...), stable: c.m.stable, idx: c.m.idx}
	return c.perm(ops, used, 0, m, true, keys, fin, finv)
}

func (c *vvCC) perm(ops []*vvOp, used []bool, n int, m *vvModel, cond bool, keys [][]byte, fin []bool, finv []uint64) bool {
	if n == len(ops) {
		for i, k := range keys {
			f, v := m.get(k)
			cond = vvAnd(cond, vvOr(vvAnd(vvNot(f), vvNot(fin[i])), vvAnd(vvAnd(f, fin[i]), v == finv[i])))
		}
		return cond
	}
	r := false
	for i, o := range ops {
		if used[i] {
			continue
		}
		// no other pending operation ended before o started
		first := true
		for j, p := range ops {
			if !used[j] && j != i && p.end < o.start {
				first = false
			}
		}
		if !first {
			continue
		}
		f, v := m.get(o.key)
		ok := vvOr(vvAnd(vvNot(f), vvNot(o.found)), vvAnd(vvAnd(f, o.found), v == o.old))
		m2 := &vvModel{h: append([]vvRec(nil), m.h...), stable: m.stable, idx: m.idx}
		switch o.kind {
		case vvKPut, vvKPut1:
			m2.put(o.key, o.val)
		case vvKDel, vvKDel1:
			if o.found {
				m2.remove(o.key)
			}
		}
		used[i] = true
		r = vvOr(r, c.perm(ops, used, n+1, m2, vvAnd(cond, ok), keys, fin, finv))
		used[i] = false
	}
	return r
}

// vvPickKey chooses a key: stored ones (mode bit 0), fresh concrete ones
// (bit 1), arbitrary ones of klo..khi bytes (bit 2).
func (c *vvCC) pickKey(mode int, all [][]byte, s int) []byte {
	var cand [][]byte
	if mode&1 != 0 {
		for i := range c.m.h {
			if !c.m.h[i].del {
				cand = append(cand, c.m.h[i].key)
			}
		}
		if len(cand) > 6 {
			cand = [][]byte{cand[0], cand[1], cand[len(cand)/2], cand[len(cand)-1]}
		}
	}
	if mode&2 != 0 {
		cand = append(cand, vvFresh(s)...)
	}
	if mode&8 != 0 {
		cand = append(cand, vvS("ba", "bg", "bb", "bh")...)
	}
	if mode&16 != 0 {
		cand = append(cand, vvS("bc", "be", "bg")...)
	}
	if mode&32 != 0 {
		cand = append(cand, vvDeep(len(c.ops))...)
	}
	if mode&64 != 0 {
		// of shape 28: a change of the wide node, then a split of the long leaf
		if len(c.ops) == 0 {
			if s == 29 {
				cand = append(cand, vvS("b", "gg")...)
			} else {
				cand = append(cand, vvS("ba", "bb")...)
			}
		} else if s == 29 {
			cand = append(cand, append(vvLong29(), 'X'))
		} else {
			// four slots of prefix and two children: the size of the wide node
			cand = append(cand, vvS("c123456789abcdefghijklmnoprX")...)
		}
	}
	hi := len(cand) - 1
	if mode&4 != 0 {
		hi++
	}
	i := vvInt(0, hi)
	if i < len(cand) {
		return cand[i]
	}
	k := vvKey(vvParam("klo", 1), vvParam("khi", 2))
	vvPrefixFree(all, k)
	return k
}

// vvFresh lists keys absent from a scaffold which reach its different places.
func vvFresh(s int) [][]byte {
	switch s {
	case 0:
		return vvS("bb", "bc", "d")
	case 1:
		return vvS("bc", "d")
	case 2:
		return vvS("bc", "e")
	case 3:
		return vvS("bcf", "bd", "d")
	case 4:
		return vvS("db", "e")
	case 5:
		return vvS("bba", "bbdx", "bbddd", "c")
	case 6:
		return vvS("ac", "bd", "bcdc")
	case 7:
		return vvS("ad", "c")
	case 8:
		return vvS("bb", "a")
	case 9:
		return vvS("dcdz", "dd")
	case 10:
		return vvS("b12345678y", "b1234x")
	case 11:
		return vvS("1234567b12x", "1234567c")
	case 12:
		return [][]byte{{1}, {255, 1}}
	case 20:
		return [][]byte{{'x', 'y', 200, 'q'}, {'x', 'a'}}
	case 21, 22:
		return [][]byte{{'x', 'y', 200, 'q'}, {'x', 'a'}, {'x', 'y', 3, 'r'}}
	case 23:
		return [][]byte{{200, 'a'}, {201}, {255, 'b'}}
	case 24:
		return [][]byte{vvLong(255, "z"), vvLong(100, "!"), vvLong(255, "yb")}
	case 25:
		return [][]byte{vvLong(257, "z"), vvLong(1, "!"), vvLong(256, "!"), []byte("8")}
	case 26:
		return [][]byte{{'x', 255, 'r'}, {'x', 0, 'r'}, {'z'}}
	case 30:
		return vvS("bdc", "be")
	case 31:
		return vvS("xbdc", "xbe")
	}
	return nil
}

// vvDeep lists keys of shape 27 changing its root, the node below and the one
// below that.
func vvDeep(level int) [][]byte {
	switch level {
	case 0:
		return vvS("c")
	case 1:
		return vvS("ac", "ab")
	}
	return vvS("aad", "aab")
}

// vvLong is a key of n bytes of a common prefix and a suffix.
func vvLong(n int, suf string) []byte { return append(vvPre(n), suf...) }

// vvLong29 is the long common prefix of shape 29.
func vvLong29() []byte { return append([]byte("c"), vvPre(42)...) }

// vvScaffoldC adds wide shapes to vvScaffold.
func vvScaffoldC(s int) [][]byte {
	switch s {
	case 20: // 127 children below a prefix: one more switches the representation
		return vvWide("xy", 127, 0, "q")
	case 21: // node-256 below a prefix as root
		return vvWide("xy", 129, 0, "q")
	case 22: // node-256 with prefix next to a single leaf
		return append(vvWide("xy", 128, 0, "q"), []byte("zz"))
	case 23: // node-256 without prefix as root
		return append(vvWide("", 128, 0, "q"), []byte{200, 'q'})
	case 24: // root behind a prefix of 255 bytes
		return [][]byte{vvLong(255, "x"), vvLong(255, "y1"), vvLong(255, "y2")}
	case 25: // a leaf beside a node behind a prefix of 256 bytes
		return [][]byte{[]byte("9"), vvLong(257, "x"), vvLong(257, "y")}
	case 26: // all 256 children
		return append(vvWide("x", 256, 0, "q"), []byte("y"))
	}
	if s == 27 { // three nodes below each other
		return vvS("b", "ab", "aab", "aac", "aae")
	}
	if s == 28 { // a node of six leaves, and a leaf with a long key
		return vvS("ba", "bc", "be", "bg", "bi", "bk", "c123456789abcdefghijklmnoprsuv", "d")
	}
	if s == 29 { // the same with the wide node as root
		return append(vvS("aa", "ab", "b", "d", "e", "f"), append(vvLong29(), 'v'))
	}
	if s == 30 { // the root and the node below it merge when a is deleted
		return vvS("a", "bb", "bc", "bda", "bdb")
	}
	if s == 31 { // the same further down
		return vvS("0", "xa", "xbb", "xbc", "xbda", "xbdb")
	}
	return vvScaffold(s)
}

func init() { vvHarnesses["vvH_conc"] = vvH_conc }

// vvH_conc: a tree of a certain shape, then threads A, B (and C) executing one
// or more operations each under an arbitrary schedule.
// Parameters: s0..s1 shapes; A, B, C masks of operation kinds; na, nb
// operations per thread; ka, kb, kc key modes; same: B and C use A's key.
func vvH_conc() {
	s := vvInt(vvParam("s0", 0), vvParam("s1", vvParam("s0", 0)))
	masks := [3]int{vvParam("A", 1), vvParam("B", 1), vvParam("C", 0)}
	cnt := [3]int{vvParam("na", 1), vvParam("nb", 1), vvParam("nc", 1)}
	kmode := [3]int{vvParam("ka", 3), vvParam("kb", 3), vvParam("kc", 3)}
	same := vvParam("same", 0)
	nth := 2
	if masks[2] != 0 {
		nth = 3
	}
	t := vvNewTree(vvParam("allocs", nth), true)
	c := &vvCC{t: t, m: &vvModel{}}
	if p := vvParam("pfx", 0); p != 0 { // the prefix of reads: one or two bytes
		if p > 255 {
			c.pfx = append(c.pfx, byte(p>>8))
		}
		c.pfx = append(c.pfx, byte(p))
	}
	c.byVal = append(c.byVal, nil)
	add := func(k []byte) uint64 {
		c.byVal = append(c.byVal, k)
		return uint64(len(c.byVal) - 1)
	}
	for _, k := range vvScaffoldC(s) {
		vvPutKey(t, c.m, k, add(k))
	}
	c.m.stable = len(c.m.h)
	if c.m.stable > 16 {
		c.m.get([]byte("?")) // builds the index
	}
	if n := vvParam("warm", 0); n+vvParam("warmx", 0) > 0 {
		c.warm(n, nth)
	}
	all := c.m.keys()
	var per [3][]*vvOp
	for th := 0; th < nth; th++ {
		for i := 0; i < cnt[th]; i++ {
			o := &vvOp{kind: vvPickBit(masks[th])}
			switch {
			case same != 0 && len(c.ops) > 0:
				o.key = c.ops[0].key
			case o.kind == vvKMin || o.kind == vvKMax || o.kind == vvKCount || o.kind == vvKIter || o.kind == vvKLen || o.kind == vvKFlush:
			default:
				o.key = c.pickKey(kmode[th], all, s)
				all = append(all, o.key)
			}
			if o.kind == vvKPut || o.kind == vvKPut1 {
				o.val = add(o.key)
			}
			c.ops = append(c.ops, o)
			per[th] = append(per[th], o)
		}
	}
	if vvParam("held", 0) != 0 {
		// the first operation is already prepared
		o := c.ops[0]
		o.preFound, o.pre = t.PrepareUpdate(o.key)
		vvCover("held")
	}
	for th := 0; th < nth; th++ {
		ops := per[th]
		vvGo(func() {
			for _, o := range ops {
				c.run(o)
			}
		})
	}
	vvJoin()
	vvCover("joined")
	c.finish()
}

// vvInspectHook looks at locks, reservations and the pool (1), at the use of
// all memory (2).
var vvInspectHook func(t *Tree, what int)

// vvPickBit chooses one set bit of mask.
func vvPickBit(mask int) int {
	var ks []int
	for b := 0; b < vvNKinds; b++ {
		if mask>>uint(b)&1 != 0 {
			ks = append(ks, b)
		}
	}
	return ks[vvInt(0, len(ks)-1)]
}

// finish compares results and contents with the sequential orders, and checks
// that nothing is left locked.
func (c *vvCC) finish() {
	var keys [][]byte
	var fin []bool
	var finv []uint64
	probe := func(k []byte) {
		v, ok := c.t.Lookup(k)
		f := false
		if ok {
			f = vvConcB(vvEqB(c.fetch(v), k))
			if !f {
				v = 0
			}
		}
		keys = append(keys, k)
		fin = append(fin, f)
		finv = append(finv, v)
		vvOut("fin", vvIte(f, v, 0))
	}
	stride := 1
	if len(c.m.h) > 12 {
		stride = 23
	}
	for i := 0; i < len(c.m.h); i += stride {
		probe(c.m.h[i].key)
	}
	for _, o := range c.ops {
		if o.key != nil {
			probe(o.key)
		}
	}
	vvAssert(c.linear(keys, fin, finv), "the results and the final contents are those of some sequential order")
	// the number of keys follows from the operations
	want := c.m.count(nil)
	for _, o := range c.ops {
		if !o.done {
			continue
		}
		switch o.kind {
		case vvKPut, vvKPut1:
			want += vvIte(o.found, 0, 1)
		case vvKDel, vvKDel1:
			want -= vvIte(o.found, 1, 0)
		}
	}
	vvAssert(want == uint64(c.t.Len()), "Len equals insertions minus deletions")
	if vvParam("canon", 0) != 0 && vvCanonHook != nil && stride == 1 {
		m2 := &vvModel{}
		for i, k := range keys {
			known := false
			for _, r := range m2.h {
				if len(r.key) == len(k) && vvConcB(vvEqB(r.key, k)) {
					known = true
				}
			}
			if !known && vvConcB(fin[i]) {
				m2.put(k, finv[i])
			}
		}
		vvCanonHook(c.t, m2)
	}
	if i := vvParam("inspect", 0); i != 0 && vvInspectHook != nil {
		vvInspectHook(c.t, i)
	}
	_, leaves := c.t.Count(nil)
	vvAssert(want == uint64(leaves), "the number of leaves equals insertions minus deletions")
	// everything is usable again
	for _, o := range c.ops {
		if o.key == nil {
			continue
		}
		d := &vvOp{kind: vvKDel, key: o.key}
		c.run(d)
		c.byVal = append(c.byVal, o.key)
		p := &vvOp{kind: vvKPut, key: o.key, val: uint64(len(c.byVal) - 1)}
		c.run(p)
		v, ok := c.t.Lookup(o.key)
		vvAssert(vvAnd(ok, v == p.val), "keys can be stored again afterwards")
	}
	vvCover("end")
}

// vvWarm recycles 2-slot nodes n times on every allocator, so that an epoch
// change is near. It needs a leaf "a?" below a node and a byte not used there.
func (c *vvCC) warm(n, allocs int) {
	var as []*Allocator
	for i := 0; i < allocs; i++ {
		as = append(as, c.t.GetAllocator())
	}
	k := []byte("az")
	v := uint64(len(c.byVal))
	c.byVal = append(c.byVal, k)
	for _, a := range as {
		for i := 0; i < n; i++ {
			found, op := a.PrepareUpdate(k)
			if found {
				op.FetchedKey = append(op.FetchedKey[:0], c.fetch(op.Value)...)
			}
			vvAssert(op.Finalize(v), "warm-up insert")
			found, dop := a.PrepareDelete(k)
			vvAssert(found && dop.Value == v, "warm-up key found")
			vvAssert(dop.Finalize(), "warm-up delete")
		}
	}
	// one release less than a multiple of two
	if vvParam("warmx", 0) != 0 {
		for j, a := range as {
			k := []byte{'p' + byte(j)}
			_, op := a.PrepareUpdate(k)
			v := uint64(len(c.byVal))
			c.byVal = append(c.byVal, k)
			vvAssert(op.Finalize(v), "warm-up insert")
			c.m.put(k, v)
		}
	}
	for _, a := range as {
		c.t.ReleaseAllocator(a)
	}
}
