package radix

import (
	"bytes"
	"strconv"
)

func init() {
	vvHarnesses["vvH_admin"] = vvH_admin
	vvHarnesses["vvH_node"] = vvH_node
}

func vvAdmin(t *Tree, argv ...string) string {
	var b bytes.Buffer
	t.Admin(&b, argv)
	return b.String()
}

func vvLines(s string) (r []string) {
	for {
		i := vvIndex(s, "\n")
		if i < 0 {
			return r
		}
		r = append(r, s[:i])
		s = s[i+1:]
	}
}

func vvIndex(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

// vvHasNum: s contains the number n as a word of its own.
func vvHasNum(s string, n uint64) bool {
	d := strconv.FormatUint(n, 10)
	for i := 0; i+len(d) <= len(s); i++ {
		if s[i:i+len(d)] == d && (i == 0 || !vvDigit(s[i-1])) && (i+len(d) == len(s) || !vvDigit(s[i+len(d)])) {
			return true
		}
	}
	return false
}

func vvDigit(c byte) bool { return c >= '0' && c <= '9' || c == '.' }

// vvRow returns the rest of the line starting with name.
func vvRow(out, name string) string {
	for _, l := range vvLines(out) {
		if len(l) > len(name) && l[:len(name)] == name && l[len(name)] == ' ' {
			return l[len(name):]
		}
	}
	return ""
}

// vvCharName is how a key byte may be shown.
func vvCharIs(l string, c byte) bool {
	e := vvIndex(l, "]")
	if e < 1 || l[0] != '[' {
		// a closing bracket as the byte itself
		return false
	}
	if c == ']' {
		e = 4
	}
	s := l[1:e]
	if s == "'"+string(rune(c))+"'" && c >= 32 && c <= 126 {
		return true
	}
	const hex = "0123456789abcdef"
	return s == string([]byte{hex[c>>4], hex[c&15]})
}

// vvAdminNode checks what the view of a node shows against the stored keys
// sharing their first d bytes, and walks down.
func vvAdminNode(t *Tree, m *vvModel, out string, recs []int, d, limit int) {
	ls := vvLines(out)
	// the common part
	pl := 0
	k0 := m.h[recs[0]].key
	if len(recs) > 1 {
	prefix:
		for ; ; pl++ {
			for _, i := range recs {
				if m.h[i].key[d+pl] != k0[d+pl] {
					break prefix
				}
			}
		}
		vvAssert(len(ls) > 0, "a node view is not empty")
		if pl > 0 {
			vvAssert(vvIndex(out, string(k0[d:d+pl])) >= 0, "a node view shows the node's prefix")
		}
	}
	var kids []string
	for _, l := range ls {
		if len(l) > 3 && l[0] == '[' && vvIndex(l, "0x0000000000000000") < 0 {
			kids = append(kids, l)
		}
	}
	n := 0
	for b := 0; b < 256; b++ {
		var sub []int
		for _, i := range recs {
			if int(m.h[i].key[d+pl]) == b {
				sub = append(sub, i)
			}
		}
		if len(sub) == 0 {
			continue
		}
		vvAssert(n < len(kids), "a node view shows every child")
		l := kids[n]
		n++
		vvAssert(vvCharIs(l, byte(b)), "a node view shows the key bytes of the children in order")
		if len(sub) == 1 {
			vvAssert(vvIndex(l, "LEAF") >= 0 && vvHasNum(l, m.h[sub[0]].val), "a node view shows the values of its leaves")
			continue
		}
		vvAssert(vvIndex(l, "NODE") >= 0, "a node view shows its child nodes")
		if limit > 0 {
			// "NODE: 0x<id> <id> (..."
			i := vvIndex(l, "0x")
			x := l[i+2:]
			j := vvIndex(x, " ")
			x = x[j+1:]
			j = vvIndex(x, " ")
			vvAdminNode(t, m, vvAdmin(t, "node", x[:j]), sub, d+pl+1, limit-1)
		}
	}
	vvAssert(n == len(kids), "a node view shows no other children")
}

// vvH_admin (C26): every command on trees of many shapes.
func vvH_admin() {
	na := vvInt(vvParam("a0", 1), vvParam("a1", 2))
	t := vvNewTree(na, true)
	m := &vvModel{}
	s := 0
	if sh := vvParam("shape", -1); sh >= 0 {
		vvBulk(t, m, vvShape(vvInt(sh, vvParam("shape1", sh)), vvPickN(), vvParam("o0", 0), vvParam("pl", 0)))
	} else {
		s = vvInt(vvParam("s0", 0), vvParam("s1", vvParam("s0", 0)))
		vvBulk(t, m, vvScaffoldC(s))
	}
	if n := vvParam("long", 0); n > 0 {
		vvBulkMore(t, m, vvLongKeys(n))
	}
	for i := 0; i < vvParam("ops", 1); i++ {
		k := vvPickStored(m, s)
		if vvInt(0, 1) == 0 {
			vvPutKey(t, m, k, vvVal(len(m.h)))
		} else {
			vvDelKey(t, m, k)
		}
	}
	var recs []int
	for i := range m.h {
		if m.live(i) && !m.h[i].del {
			recs = append(recs, i)
		}
	}
	vvQuiesce()
	stopped := vvInt(0, 1) == 1
	if stopped {
		t.Stop()
	}
	blocks := 0
	for blocks < len(t.blocks) && t.blocks[blocks] != nil {
		blocks++
	}
	if vvParam("len", 1) != 0 {
		vvAssert(t.Len() == len(recs), "Len is the number of stored keys")
	}
	switch vvPickBit(vvParam("cmds", 255)) {
	case 0:
		out := vvAdmin(t, "root")
		if len(recs) > 0 {
			vvAdminNode(t, m, out, recs, 0, vvParam("depth", 9))
			if len(recs) == 1 {
				vvAssert(vvIndex(out, "LEAF") >= 0 && vvHasNum(out, m.h[recs[0]].val), "the root view shows a single leaf")
			}
		} else {
			vvAssert(vvIndex(out, "LEAF") < 0 && vvIndex(out, "NODE") < 0, "the root view of an empty tree shows nothing")
		}
		vvCover("root")
	case 1:
		out := vvAdmin(t, "info")
		vvAssert(vvHasNum(vvRow(out, "allocators"), uint64(na)), "info reports the number of allocators")
		vvAssert(vvHasNum(vvRow(out, "blocks_allocated"), uint64(blocks)), "info reports the number of blocks")
		vvAssert(vvHasNum(vvRow(out, "block_size"), uint64(blockSize)), "info reports the block size")
		vvAssert(vvRow(out, "objects_approx") != "", "info reports the number of objects")
		vvCover("info")
	case 2:
		st := map[string]interface{}{"other": 1}
		t.Stats(st)
		vvAssert(st["allocators"] == na, "Stats reports the number of allocators")
		vvAssert(st["blocks_allocated"] == blocks, "Stats reports the number of blocks")
		vvAssert(st["bytes_allocated"] == blocks*int(blockSize), "Stats reports the allocated bytes")
		vvAssert(st["other"] == 1, "Stats leaves other entries alone")
		{
			d := int64(len(recs)) - st["objects_approx"].(int64)
			vvAssert(d <= 1000*int64(na) && d >= -1000*int64(na), "Stats reports about the number of objects")
		}
		vvCover("stats")
	case 3:
		out := vvAdmin(t, "allocators")
		vvAssert(len(vvLines(out)) >= na, "every allocator is listed")
		vvCover("allocators")
	case 4:
		out := vvAdmin(t, "blocks")
		n := 0
		for i, l := range vvLines(out) {
			if i > 0 && len(l) > 0 {
				vvAssert(vvHasNum(l, uint64(n)), "the blocks are listed")
				n++
			}
		}
		vvAssert(n == blocks, "every block is listed")
		vvCover("blocks")
	case 5:
		out := vvAdmin(t)
		for _, c := range []string{"info", "root", "node", "blocks", "allocators"} {
			vvAssert(vvIndex(out, c) >= 0, "help lists every command")
		}
		vvCover("help")
	case 6:
		// wrong arguments
		for _, c := range [][]string{{""}, {"x"}, {"node"}, {"node", "1", "2"}, {"node", ""}, {"node", "x"}, {"node", "-1"},
			{"node", "99999999999999999999"}, {"allocators", "x"}, {"blocks", "x"}, {"root", "x"}, {"info", "x"}} {
			vvAdmin(t, c...)
		}
		vvCover("wrong arguments")
	case 7:
		// repeated
		for i := 0; i < 3; i++ {
			for _, c := range []string{"allocators", "info", "root", "blocks"} {
				vvAdmin(t, c)
			}
		}
		vvCover("repeated")
	}
	if stopped {
		t.Start()
	}
	vvFinalChecks(t, m, vvCkKeys|vvCkLen|vvCkIter|vvCkStop, 1, 1)
	vvCover("end")
}

// vvH_node (C26): the node view of an arbitrary id.
func vvH_node() {
	t := vvNewTree(1, true)
	m := &vvModel{}
	vvBulk(t, m, vvScaffoldC(vvInt(vvParam("s0", 0), vvParam("s1", vvParam("s0", 0)))))
	if n := vvParam("long", 0); n > 0 {
		vvBulkMore(t, m, vvLongKeys(n))
	}
	var id uint64
	switch vvPickBit(vvParam("ids", 3)) {
	case 0:
		// chosen place, arbitrary counts
		slots := uint64(blockSize >> 3)
		place := []uint64{0, 1, 2, 5, 9, slots - 1, slots - 2, slots, slots + 1, slots + 7, 2*slots - 1, 3 * slots, 5 * slots, 1<<39 - 1, 1 << 36}[vvInt(0, 14)]
		pl := []uint64{0, 1, 2, 8, 9, 200, 254, 255}[vvInt(0, 7)]
		cn := []uint64{1, 2, 3, 127, 128, 129, 200, 255, 0}[vvInt(0, 8)]
		id = cn<<56 | pl<<48 | place<<9 | uint64(vvInt(0, 2)*77)
	case 1:
		// the root's or a child's id, changed
		id = t.root
		id ^= uint64(1) << uint(vvInt(0, 63))
	case 2:
		id = vvU64()
	}
	vvOut("id", 1)
	vvAdmin(t, "node", strconv.FormatUint(id, 10))
	vvFinalChecks(t, m, vvCkKeys|vvCkLen|vvCkIter, 1, 1)
	vvCover("end")
}
