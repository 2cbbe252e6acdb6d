package radix

import "bytes"

func init() {
	vvHarnesses["vvH_epochrace"] = vvH_epochrace
	vvHarnesses["vvH_stateint"] = vvH_stateint
}

// vvH_epochrace (C16): releases of two allocators advance the epoch at the
// same time while an operation begins; whatever is released afterwards is not
// handed out before that operation ends.
func vvH_epochrace() {
	t := vvNewTree(3, true)
	vvQuiesce()
	a, b, r := t.allocators[0], t.allocators[1], t.allocators[2]
	n := a.allocateNode(120)
	g := vvU64()
	vvAssume(g < 1<<62)
	*a.globalEpoch = g
	a.counter = uint64(vvInt(998, 999))
	na, nb := vvInt(1, 2), vvInt(1, 3)
	vvGo(func() {
		for i := 0; i < na; i++ {
			a.recycle(n+uint64(8*i), 4)
		}
	})
	vvGo(func() {
		for i := 0; i < nb; i++ {
			b.counter = 999
			b.recycle(n+40+uint64(8*i), 4)
		}
	})
	vvGo(func() { r.startOp() })
	vvJoin()
	vvAssert(*a.globalEpoch >= g, "the epoch never goes back")
	w := a
	if vvInt(0, 1) == 1 {
		w = b
	}
	w.recycle(n+80, 6)
	vvAssert(w.newNode(6) != n+80, "memory released during an operation is not reused before it ends")
	r.endOp()
	vvCover("end")
}

// vvH_stateint (C21): the epoch and the released memory with its times are
// restored: a restored tree reuses the same memory under the same conditions.
func vvH_stateint() {
	na := vvInt(1, 2)
	t := vvNewTree(na, true)
	m := &vvModel{}
	vvBulk(t, m, vvScaffoldC(vvParam("s0", 3)))
	a := t.allocators[na-1]
	n := a.allocateNode(60)
	g := vvU64()
	vvAssume(g < 1<<62)
	*a.globalEpoch = g
	var sz [2]int
	k := vvInt(1, 2)
	for i := 0; i < k; i++ {
		sz[i] = vvInt(5, 6)
		e := vvU64()
		vvAssume(e <= g)
		a.recycler[sz[i]] = append(a.recycler[sz[i]], recycledItem{n + uint64(8*i), e})
	}
	data := vvSave(t)
	t2, err := NewTreeFromState(bytes.NewReader(data))
	vvAssert(err == nil, "a saved state can be restored")
	if err != nil {
		return
	}
	vvCover("restored")
	t.Start()
	a2 := t2.allocators[na-1]
	if vvInt(0, 1) == 1 {
		t.allocators[0].startOp()
		t2.allocators[0].startOp()
	}
	req := vvInt(5, 6)
	in := func(x uint64) bool { return x >= n && x < n+60 }
	if in(a.newNode(req)) {
		vvCover("reused")
		vvAssert(in(a2.newNode(req)), "a restored tree reuses memory which the saved tree could reuse")
	}
	t.allocators[0].endOp()
	t2.allocators[0].endOp()
	vvSameTree(t2, m)
	vvCover("end")
}
