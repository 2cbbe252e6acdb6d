package radix

import "sync/atomic"

func init() {
	vvHarnesses["vvH_held"] = vvH_held
	vvHarnesses["vvH_prefixio"] = vvH_prefixio
}

// vvNothingHeld inspects locks, reservations and the pool of allocators.
func vvNothingHeld(t *Tree, reserved int) {
	vvAssert(atomic.LoadInt32(&t.rootLeafLock) == 0, "the root lock is free")
	for _, b := range t.blocks[:] {
		if b == nil {
			break
		}
		for i := range b.locks {
			vvAssert(atomic.LoadInt32(&b.locks[i])&1 == 0, "no node lock is held")
		}
	}
	for _, r := range t.manager.reservations {
		vvAssert(atomic.LoadUint64(r) == maxUint64, "no epoch is reserved")
	}
	vvAssert(t.allocatorQueue.available() == len(t.allocators)-reserved, "exactly the explicitly reserved allocators are withheld")
}

// vvH_held (C12): an operation of each kind on each shape, through the tree or
// a reserved allocator; afterwards nothing is held.
func vvH_held() {
	s := vvInt(vvParam("s0", 0), vvParam("s1", vvParam("s0", 0)))
	t := NewTree(&Options{NumAllocators: 2})
	vvQuiesce()
	m := &vvModel{}
	vvBulk(t, m, vvScaffoldC(s))
	vvNothingHeld(t, 0)
	for i := 0; i < vvParam("ops", 1); i++ {
		kind := vvPickBit(vvParam("kinds", 1023))
		res := 0
		var a *Allocator
		if kind < 7 && vvInt(0, 1) == 1 {
			a = t.GetAllocator()
			res = 1
		}
		var k []byte
		if vvParam("any", 0) != 0 {
			k = vvKey(vvParam("klo", 1), vvParam("khi", 3))
			vvPrefixFreeM(m, k)
		} else {
			k = vvPickStored(m, s)
		}
		up := func(k []byte) (bool, *UpdateOperation) {
			if a != nil {
				return a.PrepareUpdate(k)
			}
			return t.PrepareUpdate(k)
		}
		del := func(k []byte) (bool, *DeleteOperation) {
			if a != nil {
				return a.PrepareDelete(k)
			}
			return t.PrepareDelete(k)
		}
		switch kind {
		case 0:
			f, op := up(k)
			vvFinishPut(op, m, k, vvVal(len(m.h)), f)
		case 1:
			if f, op := del(k); f {
				vvFinishDel(op, m, k, f)
			}
		case 2:
			_, op := up(k)
			op.Abort()
		case 3:
			if f, op := del(k); f {
				op.Abort()
			}
		case 4: // a delete prepared without a lock, invalidated before Finalize
			vvOverlap(t, a, m, k)
			if a != nil {
				// one allocator serves one operation at a time
				break
			}
		case 5:
			// a candidate with another key: deletes give up, updates insert
			if f, op := del(append(append([]byte(nil), k...), 'z')); f {
				op.Abort()
			}
		case 6:
			if a != nil {
				a.Lookup(k)
			} else {
				t.Lookup(k)
			}
		case 7:
			p := k[:vvInt(0, len(k))]
			it := t.NewIterator(p)
			n := 0
			for it.Next() {
				vvNothingHeld(t, res)
				n++
				if n > 2 && vvParam("s0", 0) < 20 {
					break
				}
				if n > 300 {
					break
				}
			}
			it.Close()
		case 8:
			p := k[:vvInt(0, len(k))]
			t.Count(p)
			t.MinKey(p)
			vvNothingHeld(t, res)
			t.MaxKey(p)
		case 9:
			t.Len()
			vvNothingHeld(t, res)
			t.Stop()
			t.Start()
		}
		vvNothingHeld(t, res)
		if a != nil {
			t.ReleaseAllocator(a)
			vvNothingHeld(t, 0)
		}
	}
	vvCheckKeys(t, m)
	vvCheckLen(t, m)
	vvCover("end")
}

// vvOverlap prepares a delete on one allocator and, where it holds no lock,
// completes another operation before finalizing it.
func vvOverlap(t *Tree, a *Allocator, m *vvModel, k []byte) {
	// only deletes of a child of a full node hold no lock while prepared
	f, op := t.PrepareDelete(k)
	if !f {
		return
	}
	held := atomic.LoadInt32(&t.rootLeafLock) != 0
	for _, b := range t.blocks[:] {
		if b == nil {
			break
		}
		for i := range b.locks {
			if atomic.LoadInt32(&b.locks[i])&1 != 0 {
				held = true
			}
		}
	}
	if held || a != nil {
		op.Abort()
		return
	}
	vvCover("overlap")
	i := m.keyOf(op.Value)
	match := vvEqB(m.h[i].key, k)
	switch vvInt(0, 2) {
	case 0:
		vvDelKey(t, m, k)
	case 1:
		vvPutKey(t, m, k, vvVal(len(m.h)))
	case 2:
		// nothing in between
	}
	if !match {
		op.Abort()
		return
	}
	ok, _ := m.get(k)
	if op.Finalize() {
		vvAssert(ok, "a delete only succeeds for a stored key")
		m.remove(k)
	}
}

// vvH_prefixio (C09): a prefix stored and read back, of every length in
// l0..l1, with arbitrary bytes, into buffers of different capacities.
func vvH_prefixio() {
	l := vvInt(vvParam("l0", 1), vvParam("l1", 24))
	p := vvBytes(l)
	slots := (l + 7) / 8
	if l >= 255 {
		slots++
	}
	// guard words around
	buf := make([]uint64, slots+3)
	for i := range buf {
		buf[i] = 0xa5a5a5a5a5a5a5a5
	}
	storePrefix(buf[1:], p)
	vvAssert(buf[0] == 0xa5a5a5a5a5a5a5a5, "storing a prefix stays inside its slots")
	vvAssert(vvAnd(buf[slots+1] == 0xa5a5a5a5a5a5a5a5, buf[slots+2] == 0xa5a5a5a5a5a5a5a5), "storing a prefix stays inside its slots")
	pl := l
	if pl > 255 {
		pl = 255
	}
	var dst []byte
	n := vvInt(0, 2)
	switch n {
	case 1:
		dst = make([]byte, 0, l+3)
	case 2:
		dst = append(make([]byte, 0, 4), 'x', 'y')
	}
	before := len(dst)
	got, ns := appendPrefix(dst, buf[1:], pl)
	vvAssert(ns == slots, "a prefix uses the slots computed for it")
	vvAssert(len(got) == before+l, "a prefix read back has its length")
	vvAssert(vvEqB(got[before:], p), "a prefix read back equals the bytes stored")
	if n == 2 {
		vvAssert(vvAnd(got[0] == 'x', got[1] == 'y'), "a prefix is appended")
	}
	vvCover("end")
}
