package radix

func init() { vvCanonHook = vvCheckCanon }

// vvShapeCount is what a Counter should report.
type vvShapeCount struct {
	nodes, leaves     int
	prefixed, large   int
	prefixLen, deeper int
	sizes             [257]int
	wide              int // nodes with more than 100 children
}

// canon adds the path-compressed tree of keys, which agree in their first
// depth bytes: a leaf for a single key, otherwise a node which holds what the
// keys share beyond depth, with a child for each following byte.
func (r *vvShapeCount) canon(keys [][]byte, depth int) {
	if len(keys) == 0 {
		return
	}
	if len(keys) == 1 {
		r.leaves++
		return
	}
	j := depth
	for ; ; j++ {
		same := true
		for _, k := range keys[1:] {
			if j >= len(k) || j >= len(keys[0]) {
				vvAssume(false)
			}
			if !vvConcB(k[j] == keys[0][j]) {
				same = false
				break
			}
		}
		if !same {
			break
		}
	}
	r.nodes++
	if j > depth {
		r.prefixed++
		r.prefixLen += j - depth
		if j-depth >= 255 {
			r.large++
		}
	}
	var groups [][][]byte
	var at [256]int // 1 + the group of a constant byte
	for _, k := range keys {
		g := -1
		c := vvIsConst(uint64(k[j]))
		if c && at[k[j]] > 0 {
			g = at[k[j]] - 1
		} else {
			for i := range groups {
				if c && vvIsConst(uint64(groups[i][0][j])) {
					continue
				}
				if vvConcB(groups[i][0][j] == k[j]) {
					g = i
					break
				}
			}
		}
		if g < 0 {
			g = len(groups)
			groups = append(groups, nil)
			if c {
				at[k[j]] = g + 1
			}
		}
		groups[g] = append(groups[g], k)
	}
	if len(groups) > 100 {
		r.wide++
	} else {
		r.sizes[len(groups)]++
	}
	for _, g := range groups {
		r.canon(g, j+1)
	}
}

// vvCheckCanon: a Counter reports the nodes and leaves of the path-compressed
// tree of the stored keys, each once, also when it is used again.
func vvCheckCanon(t *Tree, m *vvModel) {
	var keys [][]byte
	for i := range m.h {
		if !m.h[i].del && vvConcB(m.live(i)) {
			keys = append(keys, m.h[i].key)
		}
	}
	r := &vvShapeCount{}
	r.canon(keys, 0)
	c := NewCounter(t)
	for round := 0; round < 2; round++ {
		nodes, leaves := c.Count(nil)
		vvAssert(leaves == r.leaves, "a Counter reports every stored key once")
		vvAssert(nodes == r.nodes, "a Counter reports the nodes the stored keys need")
		sum, wide, same := 0, 0, true
		for i := range c.NodeSizes {
			sum += c.NodeSizes[i]
			if i > 100 {
				wide += c.NodeSizes[i]
			} else {
				same = vvAnd(same, c.NodeSizes[i] == r.sizes[i])
			}
		}
		vvAssert(same, "NodeSizes holds each node once, under its number of children")
		vvAssert(wide == r.wide, "NodeSizes holds each wide node once")
		vvAssert(sum == nodes, "NodeSizes holds each node once")
		vvAssert(c.NodesWithPrefix == r.prefixed, "NodesWithPrefix is the number of nodes with a prefix")
		vvAssert(c.TotalPrefixLength == r.prefixLen, "TotalPrefixLength is the length of all prefixes")
		vvAssert(c.LargePrefixes == r.large, "LargePrefixes is the number of prefixes of 255 bytes and more")
		vvAssert(c.TotalPrefixBytes >= r.prefixLen && c.TotalPrefixBytes < r.prefixLen+16*(r.prefixed+1) && c.TotalPrefixBytes%8 == 0, "TotalPrefixBytes is the space taken by all prefixes")
		n2, l2 := t.Count(nil)
		vvAssert(n2 == nodes && l2 == leaves, "Count agrees with a Counter")
		if len(keys) > 0 {
			c.Count(keys[0][:1]) // leaves nothing behind
		}
	}
	vvOut("nodes", uint64(r.nodes))
	vvCover("canon")
}
