package radix

import "unsafe"

func init() {
	vvHarnesses["vvH_locks"] = vvH_locks
	vvHarnesses["vvH_lockrace"] = vvH_lockrace
	vvHarnesses["vvH_rootlock"] = vvH_rootlock
}

// vvLockTree is a tree with two empty blocks.
func vvLockTree() *Tree {
	t := &Tree{}
	for i := 0; i < 2; i++ {
		t.blocks[i] = &nodeBlock{}
	}
	return t
}

// vvAddr is a node address using lock word w (of 2 blocks with 2 words each).
// row tells nodes with the same lock apart.
func vvAddr(w, row int) uint64 {
	return uint64(w>>1)<<blockSlotsShift | uint64(row+1)<<locksShift | uint64(w&1)
}

func vvWord(t *Tree, w int) *int32 { return &t.blocks[w>>1].locks[w&1] }

// vvH_locks (C19): lockNodes2/3 and the matching unlock with arbitrary lock
// words and generations, for all ways nodes may share lock words.
func vvH_locks() {
	t := vvLockTree()
	var pre [4]int32
	for w := range pre {
		pre[w] = int32(vvU64())
		*vvWord(t, w) = pre[w]
	}
	n := vvInt(1, 3) // nodes to lock
	noParent := n > 1 && vvInt(0, 1) == 1
	var ws [3]int
	var ad [3]uint64
	var gen [3]int32
	for i := 0; i < n; i++ {
		ws[i] = vvInt(0, 3)
		ad[i] = vvAddr(ws[i], i)
		gen[i] = int32(vvU64())
	}
	k := n
	if noParent {
		k = n - 1
		ad[k] = 0
	}
	var ok bool
	switch n {
	case 1:
		ok = t.lockNode(ad[0], gen[0])
	case 2:
		ok = t.lockNodes2(ad[0], gen[0], ad[1], gen[1])
	case 3:
		ok = t.lockNodes3(ad[0], gen[0], ad[1], gen[1], ad[2], gen[2])
	}
	var used [4]bool
	for i := 0; i < k; i++ {
		used[ws[i]] = true
	}
	if ok {
		vvCover("locked")
		for i := 0; i < k; i++ {
			vvAssert(gen[i]&1 == 0, "no node was locked when its generation was read")
			vvAssert(pre[ws[i]] == gen[i], "no node changed since its generation was read")
			vvAssert(t.isLocked(ad[i]), "a locked node counts as locked")
		}
		for w := range used {
			if used[w] {
				vvAssert(*vvWord(t, w)&1 == 1, "every lock word is taken")
			} else {
				vvAssert(*vvWord(t, w) == pre[w], "other lock words stay as they were")
			}
		}
		switch n {
		case 1:
			t.unlockNode(ad[0])
		case 2:
			t.unlockNodes2(ad[0], ad[1])
		case 3:
			t.unlockNodes3(ad[0], ad[1], ad[2])
		}
		for w := range used {
			if used[w] {
				vvAssert(vvAnd(*vvWord(t, w)&1 == 0, *vvWord(t, w) != pre[w]), "releasing leaves every lock free with a new generation")
			} else {
				vvAssert(*vvWord(t, w) == pre[w], "releasing leaves other lock words alone")
			}
		}
		for i := 0; i < k; i++ {
			vvAssert(t.generation(ad[i]) != gen[i], "the change is visible in the generation")
		}
	} else {
		vvCover("refused")
		for w := range used {
			vvAssert(*vvWord(t, w) == pre[w], "a failed acquisition changes no lock word")
		}
	}
	vvCover("end")
}

// vvH_rootlock (C19): the lock of an empty or leaf root.
func vvH_rootlock() {
	t := vvLockTree()
	t.root = vvU64()
	was := vvInt(0, 1)
	t.rootLeafLock = int32(was)
	exp := vvU64()
	if t.lockLeafRoot(exp) {
		vvAssert(was == 0, "the root lock is taken only when free")
		vvAssert(t.root == exp, "the root is the expected one")
		vvAssert(t.rootLeafLock == 1, "the root lock is taken")
		vvAssert(vvNot(t.lockLeafRoot(exp)), "the root lock is taken only once")
		t.unlockRoot()
		vvAssert(t.rootLeafLock == 0, "the root lock is free again")
	} else {
		vvAssert(t.rootLeafLock == int32(was), "a failed acquisition leaves the root lock as it was")
	}
	vvCover("end")
}

// vvH_lockrace (C19): two threads acquire overlapping sets of locks under an
// arbitrary schedule with generations read beforehand or by themselves.
func vvH_lockrace() {
	t := vvLockTree()
	mark := new(int64)
	nw := vvParam("words", 3)
	var owner [4]int // thread holding the word
	var sets [2][]int
	var ok [2]bool
	early := vvInt(0, 1) == 1
	for th := 0; th < 2; th++ {
		n := vvInt(vvParam("nlo", 1), 3)
		for i := 0; i < n; i++ {
			sets[th] = append(sets[th], vvInt(0, nw-1))
		}
	}
	var g0 [4]int32
	for th := 0; th < 2; th++ {
		th := th
		vvGo(func() {
			ws := sets[th]
			var ad [3]uint64
			var gen [3]int32
			for i, w := range ws {
				ad[i] = vvAddr(w, th*4+i)
				gen[i] = g0[w]
				if !early {
					gen[i] = t.generation(ad[i])
				}
			}
			switch len(ws) {
			case 1:
				ok[th] = t.lockNode(ad[0], gen[0])
			case 2:
				ok[th] = t.lockNodes2(ad[0], gen[0], ad[1], gen[1])
			case 3:
				ok[th] = t.lockNodes3(ad[0], gen[0], ad[1], gen[1], ad[2], gen[2])
			}
			if !ok[th] {
				return
			}
			for _, w := range ws {
				vvAssert(vvOr(owner[w] == 0, owner[w] == th+1), "a lock has one holder")
				owner[w] = th + 1
			}
			vvYield(unsafe.Pointer(mark), true)
			for _, w := range ws {
				vvAssert(owner[w] == th+1, "a lock has one holder")
			}
			for _, w := range ws {
				owner[w] = 0
			}
			switch len(ws) {
			case 1:
				t.unlockNode(ad[0])
			case 2:
				t.unlockNodes2(ad[0], ad[1])
			case 3:
				t.unlockNodes3(ad[0], ad[1], ad[2])
			}
		})
	}
	vvJoin()
	for w := 0; w < nw; w++ {
		vvAssert(*vvWord(t, w)&1 == 0, "every lock is free in the end")
		vvAssert(owner[w] == 0, "no holder is left")
	}
	if early {
		// both saw the same generation: at most one of two overlapping sets is locked
		for _, a := range sets[0] {
			for _, b := range sets[1] {
				if a == b {
					vvAssert(!(ok[0] && ok[1]), "a change since the generation was read is detected")
				}
			}
		}
	}
	vvCover("end")
}
