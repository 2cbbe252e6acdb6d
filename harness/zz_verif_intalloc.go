package radix

import "sync/atomic"

func init() {
	vvHarnesses["vvH_reuse"] = vvH_reuse
	vvHarnesses["vvH_extent"] = vvH_extent
	vvHarnesses["vvH_balance"] = vvH_balance
	vvHarnesses["vvH_stamp"] = vvH_stamp
}

type vvExt struct {
	n     uint64
	slots int
}

// vvFree lists the free areas of an allocator.
func vvFree(a *Allocator) (r []vvExt) {
	for t := range a.recycler {
		for _, it := range a.recycler[t] {
			r = append(r, vvExt{it.n, t})
		}
	}
	return
}

// vvH_reuse (C16): newNode with arbitrary epochs on the free areas and
// arbitrary reservations of the other allocators: whatever is handed out from
// the free list was released before every reservation, and so was what remains.
func vvH_reuse() {
	na := vvParam("allocs", 3)
	t := vvNewTree(na, true)
	vvQuiesce()
	a := t.allocators[0]
	a.allocateNode(40)
	base := a.allocateNode(200)
	for i := 0; i < na; i++ {
		*t.manager.reservations[i] = vvU64()
	}
	*a.globalEpoch = vvU64()
	n := vvInt(1, vvParam("items", 2))
	var e [4]uint64
	var ext [4]vvExt
	at := base
	for i := 0; i < n; i++ {
		sz := vvInt(2, vvParam("size", 6))
		e[i] = vvU64()
		ext[i] = vvExt{at, sz}
		at += uint64(sz)
		a.recycler[sz] = append(a.recycler[sz], recycledItem{ext[i].n, e[i]})
	}
	for round := 0; round < vvParam("rounds", 2); round++ {
		req := vvInt(2, vvParam("req", 6))
		got := a.newNode(req)
		for i := 0; i < n; i++ {
			if got >= ext[i].n && got < ext[i].n+uint64(ext[i].slots) {
				vvCover("reused")
				for j := 0; j < na; j++ {
					vvAssert(e[i] < *t.manager.reservations[j], "memory is only reused if it was released before every operation in progress started")
				}
			}
		}
	}
	// parts which remain free keep the time of their release
	for sz := range a.recycler {
		for _, it := range a.recycler[sz] {
			for i := 0; i < n; i++ {
				if it.n >= ext[i].n && it.n < ext[i].n+uint64(ext[i].slots) {
					vvAssert(it.e >= e[i], "memory which stays free is not dated back")
				}
			}
		}
	}
	vvCover("end")
}

// vvH_stamp (C16): a release is stamped with an epoch no older than the
// reservation of any operation in progress; the epoch never goes back.
func vvH_stamp() {
	t := vvNewTree(2, true)
	vvQuiesce()
	a, b := t.allocators[0], t.allocators[1]
	n := a.allocateNode(40)
	g := vvU64()
	vvAssume(g < 1<<62)
	*a.globalEpoch = g
	a.counter = uint64(vvInt(997, 1001))
	k := vvInt(1, 4)
	for i := 0; i < k; i++ {
		g0 := *a.globalEpoch
		r := b
		if vvInt(0, 1) == 1 {
			r = a
		}
		r.startOp()
		res := *r.reserveSlot
		vvAssert(res <= g0, "an operation reserves the current epoch")
		sz := vvInt(2, 5)
		a.recycle(n+uint64(8*i), sz)
		l := a.recycler[sz]
		vvAssert(len(l) > 0, "a release is recorded")
		if len(l) > 0 {
			it := l[len(l)-1]
			vvAssert(it.n == n+uint64(8*i), "a release is recorded")
			vvAssert(it.e >= res, "a release during an operation is stamped no earlier than its reservation")
		}
		vvAssert(*a.globalEpoch >= g0, "the epoch never goes back")
		// the area is not handed out before the operation ends
		got := a.newNode(sz)
		vvAssert(got != n+uint64(8*i), "memory released during an operation is not reused before it ends")
		r.endOp()
		vvAssert(*r.reserveSlot == maxUint64, "a finished operation pins nothing")
	}
	vvCover("end")
}

// vvH_extent (C17): one allocation of an arbitrary size in an arbitrary state:
// arbitrary free areas, bump position and block.
func vvH_extent() {
	t := vvNewTree(2, true)
	vvQuiesce()
	a := t.allocators[0]
	// the position: a fresh allocator, block 0, or a later one
	blk := vvInt(0, 2)
	for i := 0; i < blk; i++ {
		// the first two blocks go to the other allocator or to this one
		if vvInt(0, 1) == 0 {
			t.allocators[1].nextFree = blockSize
			t.allocators[1].allocateNode(2)
		} else {
			a.nextFree = blockSize
			a.allocateNode(2)
		}
	}
	first := uint64(1)
	if !a.empty {
		first = uint64(a.block) << blockSlotsShift
		if a.block == 0 {
			first = 1
		}
		nf := vvU64()
		vvAssume(nf >= 8*64)
		vvAssume(nf < blockSize)
		vvAssume(nf&7 == 0)
		// the position either fits or the block is used up
		a.nextFree = nf
		vvCover("inside a block")
	}
	wasEmpty := a.empty
	bump := first + a.nextFree/8
	if a.empty {
		bump = 0
	}
	oldBlock := a.block
	// free areas in the used part of the block, in any order
	items := 0
	if !wasEmpty {
		items = vvInt(0, vvParam("items", 2))
	}
	var free [4]vvExt
	*a.globalEpoch = 5
	for i := 0; i < items; i++ {
		sz := vvInt(2, vvParam("size", 7))
		p := vvU64()
		vvAssume(p >= first)
		vvAssume(p <= bump)
		vvAssume(p+uint64(sz) <= bump)
		for j := 0; j < i; j++ {
			vvAssume(vvOr(p+uint64(sz) <= free[j].n, free[j].n+uint64(free[j].slots) <= p))
		}
		free[i] = vvExt{p, sz}
		a.recycler[sz] = append(a.recycler[sz], recycledItem{p, uint64(vvInt(0, 1) * 9)})
	}
	*t.manager.reservations[1] = 5
	for round := 0; round < vvParam("rounds", 2); round++ {
		prevFree := vvFree(a)
		pb, pblk, pe := first+a.nextFree/8, a.block, a.empty
		_ = pe
		if round > 0 && a.block != oldBlock {
			first = uint64(a.block) << blockSlotsShift
			if a.block == 0 {
				first = 1
			}
			pb = first + a.nextFree/8
		}
		var req int
		switch vvInt(0, 2) {
		case 0:
			req = vvInt(2, vvParam("req", 8))
		case 1:
			req = vvInt(257, 258)
		case 2:
			req = 300
		}
		got := a.newNode(req)
		end := got + uint64(req)
		vvAssert(got != 0, "the reserved first word is never handed out")
		// wholly inside one allocated block
		blkNo := got >> blockSlotsShift
		vvAssert(blkNo == (end-1)>>blockSlotsShift, "a node lies inside one block")
		vvAssert(vvConc(blkNo) <= atomic.LoadUint64(&t.nextFreeBlock), "a node lies in an allocated block")
		vvAssert(t.blocks[vvConc(blkNo)] != nil, "a node lies in an allocated block")
		vvAssert(uint64(len(t.blocks[vvConc(blkNo)].data)) >= end&blockSlotsOffsetMask || end&blockSlotsOffsetMask == 0, "a node lies inside the block's memory")
		// no overlap with live storage: either inside an area which was free, or
		// beyond everything handed out so far
		inFree := false
		for _, f := range prevFree {
			in := vvAnd(got >= f.n, end <= f.n+uint64(f.slots))
			inFree = vvOr(inFree, in)
		}
		fresh := vvAnd(blkNo == uint64(pblk), got >= pb)
		if wasEmpty || vvConc(uint64(a.block)) != uint64(pblk) {
			// a block nobody used before
			other := t.allocators[1]
			nb := blkNo == uint64(a.block)
			if blk > 0 {
				nb = vvAnd(nb, blkNo >= uint64(blk))
			}
			fresh = vvOr(fresh, nb)
			if !other.empty {
				vvAssert(vvOr(inFree, blkNo != uint64(other.block)), "allocators do not share blocks")
			}
			wasEmpty = false
		}
		vvAssert(vvOr(inFree, fresh), "a node never overlaps storage in use")
		// nor with what is still recorded as free
		now := vvFree(a)
		for i, f := range now {
			fe := f.n + uint64(f.slots)
			vvAssert(vvOr(end <= f.n, fe <= got), "a node never overlaps storage recorded as free")
			inOld := false
			for _, g := range prevFree {
				inOld = vvOr(inOld, vvAnd(f.n >= g.n, fe <= g.n+uint64(g.slots)))
			}
			vvAssert(inOld, "only free storage is recorded as free")
			for j := 0; j < i; j++ {
				vvAssert(vvOr(fe <= now[j].n, now[j].n+uint64(now[j].slots) <= f.n), "free areas do not overlap")
			}
		}
		// the bump position is behind everything handed out
		if vvConc(blkNo) == uint64(a.block) {
			f2 := uint64(a.block) << blockSlotsShift
			if a.block == 0 {
				f2 = 1
			}
			vvAssert(end <= f2+a.nextFree/8, "the unused part of a block starts behind the nodes in it")
		}
	}
	vvCover("end")
}

// vvMark marks the slots of the nodes at and below raw.
func vvMark(t *Tree, raw uint64, used []byte) {
	if raw == 0 || isLeaf(raw) {
		return
	}
	_, node, count, prefixLen := explodeNode(raw)
	data := t.getNodeData(node)
	slots := (prefixLen + 7) >> 3
	if prefixLen == 255 {
		slots = (int(data[0]) + 15) >> 3
	}
	vvMarkExt(used, node, slots+count, "nodes share no storage")
	for i := 0; i < count; i++ {
		vvMark(t, data[slots+i], used)
	}
}

func vvMarkExt(used []byte, n uint64, slots int, msg string) {
	for i := uint64(0); i < uint64(slots); i++ {
		vvAssert(n+i > 0 && n+i < uint64(len(used)), "storage lies inside the allocated blocks")
		vvAssert(used[n+i] == 0, msg)
		used[n+i] = 1
	}
}

// vvBalance: every slot handed out so far is either part of a reachable node or
// recorded as free, exactly once.
func vvBalance(t *Tree, lost int) {
	nb := int(atomic.LoadUint64(&t.nextFreeBlock)) + 1
	used := make([]byte, nb<<blockSlotsShift)
	vvMark(t, atomic.LoadUint64(&t.root), used)
	for _, a := range t.allocators {
		for _, f := range vvFree(a) {
			vvMarkExt(used, f.n, f.slots, "free storage is recorded once and not in use")
		}
	}
	for _, a := range t.allocators {
		if a.empty {
			continue
		}
		lo := uint64(a.block) << blockSlotsShift
		hi := lo + a.nextFree/8
		if lo == 0 {
			lo, hi = 1, hi+1
		}
		for i := lo; i < hi; i++ {
			if used[i] == 0 {
				lost--
			}
		}
	}
	vvAssert(lost >= 0, "storage which is not reachable is recorded as free")
}

// vvH_balance (C18): after arbitrary operations on any shape, with epochs
// advancing arbitrarily so that areas are reused and split, all storage is
// accounted for.
func vvH_balance() {
	s := vvInt(vvParam("s0", 0), vvParam("s1", vvParam("s0", 0)))
	t := NewTree(&Options{NumAllocators: vvParam("allocs", 1)})
	vvQuiesce()
	m := &vvModel{}
	keys := vvScaffoldC(s)
	if n := vvParam("wide", 0); n > 0 {
		n = vvInt(n, n+vvParam("widen", 0))
		keys = vvShape(vvParam("shape", 1), n, 0, vvParam("pl", 0))
	}
	vvBulk(t, m, keys)
	vvBalance(t, vvParam("lost0", 0))
	for i := 0; i < vvParam("ops", 2); i++ {
		if vvInt(0, 1) == 1 {
			// everything released so far becomes reusable
			*t.manager.globalEpoch++
		}
		var k []byte
		if vvParam("any", 0) != 0 {
			k = vvKey(vvParam("klo", 1), vvParam("khi", 3))
			vvPrefixFreeM(m, k)
		} else {
			k = vvPickStored(m, s)
		}
		switch vvPickBit(vvParam("kinds", 15)) {
		case 0:
			vvPutKey(t, m, k, vvVal(len(m.h)))
		case 1:
			vvDelKey(t, m, k)
		case 2:
			_, op := t.PrepareUpdate(k)
			op.Abort()
		case 3:
			if f, op := t.PrepareDelete(k); f {
				op.Abort()
			}
		}
		vvBalance(t, vvParam("lost", 0))
	}
	vvCover("end")
}
