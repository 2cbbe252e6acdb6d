package radix

func init() { vvDirtyHook = vvDirty }

// vvDirty gives every allocator free areas of all sizes with arbitrary old
// contents, all released long ago.
func vvDirty(t *Tree) {
	*t.manager.globalEpoch = 5
	g := vvU64()
	for _, a := range t.allocators {
		a.allocateNode(2)
		for size := range a.recycler {
			n := 2
			if size < 40 {
				n = 8
			}
			if size < 2 {
				n = 0
			}
			for i := 0; i < n; i++ {
				p := a.allocateNode(size)
				d := t.getNodeData(p)
				for j := 0; j < size; j++ {
					d[j] = g
				}
				a.recycler[size] = append(a.recycler[size], recycledItem{p, 0})
			}
		}
	}
}
