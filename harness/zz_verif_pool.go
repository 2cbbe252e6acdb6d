package radix

import (
	"bytes"
	"unsafe"
)

func init() {
	vvHarnesses["vvH_pool"] = vvH_pool
	vvHarnesses["vvH_cycle"] = vvH_cycle
}

// vvH_pool (C20): threads which use allocators, stop and start the index, ask
// for its length or its allocators. kinds: bit 0 reserve an allocator, 1 stop
// and start (only one thread does), 2 Len, 3 Admin allocators, 4 an insert and
// a delete of an own key, 5 a lookup, 6 a scan.
func vvH_pool() {
	na := vvInt(vvParam("a0", 1), vvParam("a1", 2))
	nth := 2
	masks := [3]int{vvParam("A", 1), vvParam("B", 2), vvParam("C", 0)}
	if masks[2] != 0 {
		nth = 3
	}
	t := vvNewTree(na, true)
	m := &vvModel{}
	for _, k := range vvScaffold(vvParam("s", 3)) {
		vvPutKey(t, m, k, vvVal(len(m.h)))
	}
	if vvParam("stopped", 0) != 0 {
		t.Stop()
	}
	var holder [3]*Allocator
	stopped := vvParam("stopped", 0) != 0
	lo, hi := len(m.h), len(m.h)
	var kind [3]int
	for th := 0; th < nth; th++ {
		kind[th] = vvPickBit(masks[th])
		if kind[th] == 4 {
			hi++
		}
	}
	mark := new(int64) // makes the places below schedule points
	point := func() { vvYield(unsafe.Pointer(mark), true) }
	use := func(th int, a *Allocator) {
		vvAssert(!stopped, "no allocator is handed out while the index is stopped")
		for j := range holder {
			vvAssert(j == th || holder[j] != a, "an allocator has one user")
		}
		holder[th] = a
		point()
		vvAssert(holder[th] == a, "an allocator has one user")
		vvAssert(!stopped, "Stop waits for allocators in use")
		holder[th] = nil
	}
	for th := 0; th < nth; th++ {
		th := th
		vvGo(func() {
			switch kind[th] {
			case 0:
				a := t.GetAllocator()
				use(th, a)
				t.ReleaseAllocator(a)
			case 1:
				t.Stop()
				for j := range holder {
					vvAssert(holder[j] == nil, "Stop returns only when no allocator is in use")
				}
				stopped = true
				if vvParam("nest", 0) != 0 {
					n := t.Len()
					vvAssert(n >= lo && n <= hi, "Len of a stopped tree")
					t.Stop()
				}
				point()
				for j := range holder {
					vvAssert(holder[j] == nil, "nobody uses an allocator while the index is stopped")
				}
				stopped = false
				t.Start()
			case 2:
				n := t.Len()
				vvAssert(n >= lo && n <= hi, "Len is exact while others read, stop or start")
			case 3:
				var b bytes.Buffer
				t.Admin(&b, []string{"allocators"})
			case 4:
				k := []byte{'K', byte(th)}
				_, op := t.PrepareUpdate(k)
				vvAssert(!stopped, "no operation starts while the index is stopped")
				op.Abort()
			case 5:
				_, ok := t.Lookup(m.h[0].key)
				vvAssert(ok, "a stored key is found")
			case 6:
				it := t.NewIterator(nil)
				n := 0
				for it.Next() {
					n++
				}
				it.Close()
				vvAssert(n == lo, "a scan is complete")
			}
		})
	}
	vvJoin()
	vvCover("joined")
	if stopped {
		// still stopped: nothing is available
		t.Start()
	}
	// all allocators are available again, each once
	var got []*Allocator
	for i := 0; i < na; i++ {
		a := t.GetAllocator()
		for _, b := range got {
			vvAssert(a != b, "an allocator has one user")
		}
		got = append(got, a)
	}
	for _, a := range got {
		t.ReleaseAllocator(a)
	}
	t.Stop()
	vvAssert(t.Len() == lo, "Len of the stopped tree equals the number of stored keys")
	t.Start()
	vvAssert(t.Len() == lo, "Len equals the number of stored keys")
	vvCheckKeys(t, m)
	vvCover("end")
}

// vvH_cycle (C18): a cycle of operations which returns to the same keys, many
// times; after a warm-up no more blocks are needed.
func vvH_cycle() {
	t := vvNewTree(1, true)
	m := &vvModel{}
	var cyc [][]byte // keys inserted and deleted again
	var upd []byte
	switch vvInt(vvParam("c0", 0), vvParam("c1", 5)) {
	case 0: // grow and shrink
		vvBulk(t, m, vvS("ba", "bb", "bc"))
		cyc = vvS("bd")
	case 1: // leaf to node and back
		vvBulk(t, m, vvS("baa", "c"))
		cyc = vvS("bab")
	case 2: // splitting and merging a prefix
		vvBulk(t, m, vvS("b12345678x", "b12345678z", "d"))
		cyc = vvS("b1234y")
	case 3: // the root leaf
		vvBulk(t, m, vvS("b"))
		cyc = vvS("c", "d")
	case 4: // empty
		cyc = vvS("bcd", "bce", "bd")
	case 5: // several sizes
		vvBulk(t, m, vvS("aa", "ab", "c"))
		cyc = vvS("ac", "ad", "ae", "xaa", "xab", "xac")
		upd = []byte("aa")
	}
	back := vvInt(0, 1) == 1
	a := t.GetAllocator()
	blocks := func() int {
		st := map[string]interface{}{}
		t.Stats(st)
		return st["blocks_allocated"].(int)
	}
	n := 0
	half := vvParam("half", 2500)
	var first int
	for n < 2*half {
		for i := range cyc {
			vvRawPut(a, m, cyc, cyc[i], uint64(5000+i))
			n++
		}
		if upd != nil {
			vvRawPut(a, m, cyc, upd, uint64(4000))
		}
		for i := range cyc {
			j := i
			if back {
				j = len(cyc) - 1 - i
			}
			f, op := a.PrepareDelete(cyc[j])
			vvAssert(vvAnd(f, op.Value == uint64(5000+j)), "a stored key is found")
			vvAssert(op.Finalize(), "a delete succeeds")
			n++
		}
		if n >= half && first == 0 {
			first = blocks()
		}
	}
	last := blocks()
	vvAssert(last <= first+vvParam("grow", 1), "a repeated cycle of operations does not use up more and more memory")
	vvOut("blocks", uint64(last))
	vvCover("end")
}

// vvRawPut inserts or updates without recording.
func vvRawPut(a *Allocator, m *vvModel, cyc [][]byte, k []byte, v uint64) {
	f, op := a.PrepareUpdate(k)
	if f {
		var x []byte
		switch {
		case op.Value >= 5000 && op.Value < 6000:
			x = cyc[op.Value-5000]
		case op.Value == 4000:
			x = []byte("aa")
		default:
			x = m.h[m.hint(op.Value)].key
		}
		op.FetchedKey = append(op.FetchedKey[:0], x...)
		op.Match = string(x) == string(k)
	}
	vvAssert(op.Finalize(v), "an insert succeeds")
}
