package main

var commonAssumptions = []string{
	"documented preconditions: keys are non-empty and no key is a prefix of another; callers fetch the true key of a candidate before finalizing",
	"Go semantics as implemented by the engine's SSA interpreter (validated on every run against native executions of sampled paths); sequentially consistent memory",
	"stubs: fmt/strconv formatting, snappy (invertible, output opaque), time, memory allocation never fails",
}

func findSpec(id string) *CheckSpec {
	for i := range allSpecs {
		if allSpecs[i].ID == id {
			return &allSpecs[i]
		}
	}
	return nil
}

// Bits of the ck parameter.
const (
	ckKeys = 1 << iota
	ckProbe
	ckLen
	ckIter
	ckMinMax
	ckPrefix
	ckEmpty
	ckStop
	ckCanon
)

// Operation kinds of vvH_conc.
const (
	cPut = 1 << iota
	cDel
	cLookup
	cMin
	cMax
	cCount
	cIter
	cPut1
	cDel1
	cPutAbort
	cDelAbort
	cLen
	cFlush
)

var allSpecs = []CheckSpec{
	{ID: "C01", Runs: []RunSpec{
		{H: "vvH_C01", P: P{"n": 3, "len": 3, "dels": 1}, What: "3 inserts of arbitrary keys of 1..3 bytes, 1 delete, all keys and an arbitrary probe"},
		{H: "vvH_ops", P: P{"s0": 0, "s1": 12, "ops": 2, "kinds": 3, "klo": 1, "khi": 3, "ck": ckKeys}, What: "13 small shapes, 2 arbitrary operations on arbitrary keys of 1..3 bytes, every key looked up"},
		{H: "vvH_ops", P: P{"s0": 0, "s1": 12, "ops": 1, "kinds": 3, "klo": 1, "khi": 4, "ck": ckKeys | ckProbe, "plo": 1, "phi": 3}, What: "13 small shapes, 1 arbitrary operation, arbitrary probe key"},
		{H: "vvH_shape", P: P{"s0": 1, "nl": 1, "ops": 1, "kinds": 3, "opk": 3, "klo": 2, "khi": 2, "ck": ckKeys}, What: "125..129 siblings around the change to a full node, one operation"},
		{H: "vvH_shape", P: P{"s0": 2, "n0": 390, "ops": 1, "kinds": 3, "opk": 3, "klo": 2, "khi": 2, "ck": ckKeys}, What: "390 keys in two levels, one operation"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 7, "in1": 9, "ops": 1, "kinds": 3, "opk": 8, "klo": 1, "khi": 2, "ck": ckKeys}, What: "inner prefixes of 7..9 bytes, one operation on a stored key cut anywhere and extended"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 254, "in1": 257, "ops": 1, "kinds": 3, "opk": 8, "klo": 1, "khi": 2, "ck": ckKeys}, What: "inner prefixes of 254..257 bytes, one operation on a stored key cut anywhere and extended"},
		{H: "vvH_ops", P: P{"s0": 0, "s1": 12, "ops": 2, "kinds": 3, "klo": 1, "khi": 2, "ck": ckKeys, "dirty": 1}, What: "the same in recycled memory with arbitrary old contents"},
	}},
	{ID: "C02", Runs: []RunSpec{
		{H: "vvH_ops", P: P{"s0": 0, "s1": 12, "ops": 2, "kinds": 1, "klo": 1, "khi": 3, "ck": ckKeys}, What: "13 small shapes, 2 puts of arbitrary keys of 1..3 bytes"},
		{H: "vvH_ops", P: P{"s0": 10, "s1": 11, "ops": 1, "kinds": 1, "klo": 8, "khi": 18, "ck": ckKeys}, What: "shapes with prefixes of 7..9 bytes, 1 put of an arbitrary key of 8..18 bytes"},
		{H: "vvH_ops", P: P{"s0": 1, "s1": 5, "ops": 3, "kinds": 1, "klo": 1, "khi": 2, "ck": ckKeys}, What: "3 puts of arbitrary keys of 1..2 bytes"},
		{H: "vvH_shape", P: P{"s0": 1, "nl": 1, "p0": 0, "p1": 1, "ops": 1, "kinds": 1, "opk": 3, "klo": 2, "khi": 2, "ck": ckKeys}, What: "125..129 siblings, one put"},
		{H: "vvH_shape", P: P{"s0": 4, "n0": 170, "ops": 1, "kinds": 1, "opk": 3, "klo": 1, "khi": 2, "ck": ckKeys}, What: "a full node of leaves and nodes, one put"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 7, "in1": 9, "ops": 1, "kinds": 1, "opk": 8, "klo": 1, "khi": 2, "ck": ckKeys}, What: "inner prefixes of 7..9 bytes, one put of a stored key cut anywhere and extended"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 254, "in1": 257, "ops": 1, "kinds": 1, "opk": 8, "klo": 1, "khi": 2, "ck": ckKeys}, What: "inner prefixes of 254..257 bytes, one put of a stored key cut anywhere and extended"},
		{H: "vvH_shape", Steps: 40e6, P: P{"s0": 4, "n0": 126, "n1": 127, "ops": 1, "kinds": 1, "opk": 3, "klo": 1, "khi": 2, "ck": ckKeys, "dirty": 1}, What: "126..127 siblings in recycled memory with arbitrary old contents"},
	}},
	{ID: "C03", Runs: []RunSpec{
		{H: "vvH_ops", P: P{"s0": 0, "s1": 12, "ops": 2, "kinds": 2, "klo": 1, "khi": 5, "ck": ckKeys}, What: "13 small shapes, 2 deletes of arbitrary keys of 1..5 bytes"},
		{H: "vvH_ops", P: P{"s0": 0, "s1": 9, "ops": 2, "kinds": 3, "klo": 1, "khi": 3, "ck": ckEmpty}, What: "10 small shapes, 2 operations, then all keys deleted, the empty tree checked and refilled"},
		{H: "vvH_drain", P: P{"s0": 0, "n0": 129, "dord": 1, "o0": 0, "o1": 1}, What: "129 siblings, all but one arbitrary one deleted in two orders, then some put back"},
		{H: "vvH_drain", P: P{"s0": 5, "n0": 45, "tail": 1}, What: "15 nodes of three leaves drained except one"},
		{H: "vvH_shape", P: P{"s0": 1, "nl": 1, "ops": 2, "kinds": 2, "opk": 1, "ck": ckLen}, What: "125..129 siblings, two deletes"},
		{H: "vvH_shape", Thorough: true, P: P{"s0": 1, "nl": 1, "ops": 2, "kinds": 2, "opk": 2, "klo": 2, "khi": 2, "ck": ckLen}, What: "125..129 siblings, two deletes of arbitrary keys"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 7, "in1": 9, "ops": 1, "kinds": 2, "opk": 8, "klo": 1, "khi": 2, "ck": ckKeys}, What: "inner prefixes of 7..9 bytes, one delete of a stored key cut anywhere and extended"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 254, "in1": 257, "ops": 1, "kinds": 2, "opk": 8, "klo": 1, "khi": 2, "ck": ckKeys}, What: "inner prefixes of 254..257 bytes, one delete of a stored key cut anywhere and extended"},
	}},
	{ID: "C04", Runs: []RunSpec{
		{H: "vvH_ops", P: P{"s0": 0, "s1": 12, "ops": 2, "kinds": 3, "klo": 1, "khi": 3, "ck": ckIter}, What: "13 small shapes, 2 arbitrary operations, full iteration"},
		{H: "vvH_shape", P: P{"s0": 2, "s1": 8, "nl": 5, "ck": ckIter}, What: "7 shapes of 255..259 keys"},
		{H: "vvH_shape", P: P{"s0": 5, "n0": 390, "ops": 1, "kinds": 3, "opk": 2, "klo": 1, "khi": 2, "ck": ckIter}, What: "130 nodes of three leaves, one operation before a full iteration in two batches"},
		{H: "vvH_shape", P: P{"s0": 2, "s1": 3, "n0": 520, "n1": 530, "o0": 2, "o1": 2, "ck": ckIter}, What: "three batches"},
		{H: "vvH_shape", P: P{"s0": 6, "s1": 8, "n0": 300, "ops": 1, "kinds": 3, "opk": 2, "klo": 1, "khi": 3, "p0": 3, "p1": 3, "ck": ckIter}, What: "300 keys in mixed shapes below a prefix, one operation"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 7, "in1": 9, "ops": 1, "kinds": 3, "opk": 8, "klo": 1, "khi": 2, "ck": ckIter}, What: "inner prefixes of 7..9 bytes, one operation, full iteration"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 254, "in1": 257, "ops": 1, "kinds": 3, "opk": 8, "klo": 1, "khi": 2, "ck": ckIter}, What: "inner prefixes of 254..257 bytes, one operation, full iteration"},
		{H: "vvH_ops", P: P{"s0": 0, "s1": 12, "ops": 2, "kinds": 3, "klo": 1, "khi": 2, "ck": ckIter, "dirty": 1}, What: "recycled memory with arbitrary old contents"},
	}},
	{ID: "C05", Runs: []RunSpec{
		{H: "vvH_ops", P: P{"s0": 0, "s1": 12, "ops": 1, "kinds": 3, "klo": 1, "khi": 3, "ck": ckPrefix, "plo": 0, "phi": 4}, What: "13 small shapes, 1 arbitrary operation, arbitrary search prefix of 0..4 bytes"},
		{H: "vvH_ops", P: P{"s0": 10, "s1": 12, "ops": 0, "ck": ckPrefix, "plo": 0, "phi": 11}, What: "shapes with long prefixes, arbitrary search prefix of 0..11 bytes"},
		{H: "vvH_shape", P: P{"s0": 2, "s1": 8, "n0": 270, "ck": ckPrefix, "pp": 1, "plo": 0, "phi": 2}, What: "7 shapes of 270 keys, arbitrary search prefix of 0..2 bytes"},
		{H: "vvH_shape", P: P{"s0": 1, "s1": 5, "nl": 1, "p0": 9, "p1": 9, "ck": ckPrefix, "pp": 1, "plo": 0, "phi": 2}, What: "125..129 keys below a prefix of 9 bytes"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 7, "in1": 9, "opk": 8, "ck": ckPrefix, "pp": 2, "plo": 0, "phi": 2}, What: "inner prefixes of 7..9 bytes, searched for stored keys cut anywhere and extended"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 254, "in1": 257, "opk": 8, "ck": ckPrefix, "pp": 2, "plo": 0, "phi": 2}, What: "inner prefixes of 254..257 bytes, searched for stored keys cut anywhere and extended"},
		{H: "vvH_ops", Tags: "pf1", P: P{"s0": 0, "s1": 12, "ops": 1, "kinds": 3, "klo": 1, "khi": 3, "ck": ckPrefix, "plo": 0, "phi": 4}, What: "13 small shapes in batches of 2, 1 arbitrary operation, arbitrary search prefix of 0..4 bytes"},
		{H: "vvH_shape", Tags: "pf1", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 7, "in1": 9, "opk": 8, "ck": ckPrefix, "pp": 2, "plo": 0, "phi": 2}, What: "inner prefixes of 7..9 bytes in batches of 2"},
		{H: "vvH_shape", Tags: "pf1", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 254, "in1": 257, "opk": 8, "ck": ckPrefix, "pp": 2, "plo": 0, "phi": 2}, What: "inner prefixes of 254..257 bytes in batches of 2"},
		{H: "vvH_shape", P: P{"s0": 2, "s1": 4, "n0": 270, "p0": 3, "p1": 3, "ck": ckPrefix, "pp": 1, "plo": 0, "phi": 1}, What: "270 keys below a prefix of 3 bytes"},
	}},
	{ID: "C06", Runs: []RunSpec{
		{H: "vvH_ops", P: P{"s0": 0, "s1": 12, "ops": 2, "kinds": 3, "klo": 1, "khi": 3, "ck": ckMinMax}, What: "13 small shapes, 2 arbitrary operations, first and last key"},
		{H: "vvH_ops", P: P{"s0": 0, "s1": 12, "ops": 1, "kinds": 2, "klo": 1, "khi": 4, "ck": ckPrefix, "plo": 0, "phi": 3}, What: "13 small shapes, 1 delete, arbitrary search prefix"},
		{H: "vvH_drain", P: P{"s0": 0, "n0": 130, "dord": 1, "ck": ckMinMax}, What: "a full node with an arbitrary survivor"},
		{H: "vvH_shape", P: P{"s0": 4, "s1": 5, "n0": 150, "ops": 1, "kinds": 2, "opk": 2, "klo": 1, "khi": 2, "ck": ckMinMax}, What: "wide nodes of nodes, one delete"},
		{H: "vvH_shape", P: P{"s0": 2, "s1": 8, "n0": 260, "ck": ckPrefix, "pp": 1, "plo": 0, "phi": 2}, What: "260 keys, arbitrary search prefix of 0..2 bytes"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 7, "in1": 9, "ops": 1, "kinds": 3, "opk": 8, "klo": 1, "khi": 2, "ck": ckMinMax}, What: "inner prefixes of 7..9 bytes, one operation, first and last key"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 254, "in1": 257, "ops": 1, "kinds": 3, "opk": 8, "klo": 1, "khi": 2, "ck": ckMinMax}, What: "inner prefixes of 254..257 bytes, one operation, first and last key"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 254, "in1": 257, "opk": 8, "ck": ckPrefix, "pp": 2, "plo": 0, "phi": 1}, What: "inner prefixes of 254..257 bytes, searched for stored keys cut anywhere and extended"},
		{H: "vvH_shape", Steps: 40e6, P: P{"s0": 0, "n0": 126, "n1": 128, "ops": 1, "kinds": 3, "opk": 1, "ck": ckMinMax, "dirty": 1}, What: "126..128 siblings in recycled memory with arbitrary old contents"},
	}},
	{ID: "C07", Runs: []RunSpec{
		{H: "vvH_len", P: P{"s0": 0, "s1": 7, "ops": 2, "kinds": 31, "allocs": 2}, What: "8 shapes, 2 operations or aborts through any of 2 allocators or the tree"},
		{H: "vvH_len", P: P{"s0": 3, "s1": 4, "ops": 3, "kinds": 3, "allocs": 1}, What: "2 shapes, 3 operations through an allocator or the tree"},
		{H: "vvH_len", Thorough: true, P: P{"s0": 2, "s1": 5, "ops": 3, "kinds": 3, "allocs": 2}, What: "4 shapes, 3 operations through any of 2 allocators or the tree"},
		{H: "vvH_len", P: P{"s0": 20, "s1": 22, "ops": 1, "kinds": 15, "allocs": 1}, What: "wide shapes, one operation or abort"},
		{H: "vvH_len", P: P{"s0": 6, "warm": 497, "warmn": 3, "ops": 2, "kinds": 3}, What: "around the flush of counters after 1000 released nodes"},
		{H: "vvH_drain", P: P{"s0": 0, "n0": 130, "dord": 1, "ck": ckLen}, What: "a full node drained except one key"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 7, "in1": 9, "ops": 1, "kinds": 3, "opk": 8, "klo": 1, "khi": 2, "ck": ckLen}, What: "inner prefixes of 7..9 bytes, one operation, Len and Count"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 254, "in1": 257, "ops": 1, "kinds": 3, "opk": 8, "klo": 1, "khi": 2, "ck": ckLen}, What: "inner prefixes of 254..257 bytes, one operation, Len and Count"},
		{H: "vvH_len", P: P{"s0": 24, "s1": 25, "ops": 2, "kinds": 15, "allocs": 1}, What: "prefixes of 255..257 bytes, 2 operations"},
		{H: "vvH_len", P: P{"s0": 0, "s1": 4, "ops": 2, "kinds": 19, "allocs": 2, "pre": 1}, What: "the allocators reserved from the start, counters flushed at any place"},
		{H: "vvH_len", P: P{"s0": 1, "s1": 2, "ops": 3, "kinds": 19, "allocs": 2, "pre": 1}, What: "3 operations"},
		{H: "vvH_conc", Inst: true, Preempt: 2, P: P{"s0": 1, "s1": 4, "A": cPut | cFlush, "B": cDel | cFlush, "allocs": 2}, What: "counters flushed concurrently to operations and flushes, 2 preemptions"},
	}},
	{ID: "C08", Runs: []RunSpec{
		{H: "vvH_values", P: P{"s0": 0, "s1": 9, "ops": 2}, What: "10 shapes with arbitrary 64-bit values, 2 operations with arbitrary values"},
		{H: "vvH_values", P: P{"s0": 10, "s1": 12, "ops": 1}, What: "long prefixes, arbitrary values"},
		{H: "vvH_values", P: P{"s0": 20, "s1": 23, "ops": 1, "stride": 5}, What: "wide nodes, every fifth value arbitrary"},
		{H: "vvH_values", P: P{"s0": 0, "s1": 4, "ops": 3}, What: "5 shapes, 3 operations"},
		{H: "vvH_values", P: P{"s0": 24, "s1": 25, "ops": 2}, What: "prefixes of 255..257 bytes, 2 operations"},
		{H: "vvH_values", P: P{"s0": 26, "ops": 1, "stride": 40}, What: "a node with 256 children"},
	}},
	{ID: "C09", Runs: []RunSpec{
		{H: "vvH_prefix", P: P{"l0": 0, "l1": 18}, What: "shared prefixes of 0..18 bytes, split at every position"},
		{H: "vvH_prefix", P: P{"l0": 1, "l1": 10, "above": 2}, What: "the same below another node"},
		{H: "vvH_prefix", P: P{"l0": 251, "l1": 258, "cuts": 1, "sym": 0}, What: "shared prefixes of 251..258 bytes, split at ten positions"},
		{H: "vvH_prefix", P: P{"l0": 262, "l1": 265, "cuts": 1, "sym": 0, "above": 1}, What: "longer ones below another node"},
		{H: "vvH_prefixio", P: P{"l0": 1, "l1": 40}, What: "reading and writing stored prefixes of 1..40 arbitrary bytes"},
		{H: "vvH_prefixio", P: P{"l0": 250, "l1": 262}, What: "of 250..262 bytes"},
		{H: "vvH_prefixsafe", P: P{"l0": 1, "l1": 24}, What: "comparing and splitting stored prefixes of 1..24 bytes"},
		{H: "vvH_prefixsafe", P: P{"l0": 253, "l1": 258}, What: "of 253..258 bytes"},
		{H: "vvH_prefix", P: P{"l0": 0, "l1": 17, "dirty": 1}, What: "in recycled memory with arbitrary old contents"},
		{H: "vvH_prefix", P: P{"l0": 253, "l1": 257, "cuts": 1, "sym": 0, "dirty": 1}, What: "in recycled memory with arbitrary old contents"},
	}},
	{ID: "C10", Runs: []RunSpec{
		{H: "vvH_shape", P: P{"s0": 1, "nl": 1, "ops": 1, "kinds": 3, "opk": 2, "klo": 1, "khi": 2, "ck": ckKeys | ckIter}, What: "125..129 siblings in order, one operation"},
		{H: "vvH_shape", P: P{"s0": 0, "s1": 1, "n0": 127, "n1": 128, "o0": 1, "o1": 2, "ops": 1, "kinds": 3, "opk": 2, "klo": 1, "khi": 2, "ck": ckIter | ckMinMax}, What: "127..128 siblings in other orders, one operation"},
		{H: "vvH_shape", P: P{"s0": 1, "n0": 127, "n1": 128, "p0": 8, "p1": 9, "ops": 1, "kinds": 3, "opk": 2, "klo": 2, "khi": 2, "ck": ckIter | ckMinMax}, What: "the same below a prefix of 8..9 bytes"},
		{H: "vvH_shape", P: P{"s0": 0, "s1": 1, "nl": 2, "o0": 0, "o1": 1, "ops": 2, "kinds": 3, "opk": 2, "klo": 1, "khi": 2, "ck": ckKeys | ckIter}, What: "1..5 siblings, two operations"},
		{H: "vvH_shape", P: P{"s0": 1, "n0": 254, "n1": 256, "o0": 2, "o1": 2, "ops": 1, "kinds": 3, "opk": 2, "klo": 1, "khi": 2, "ck": ckIter}, What: "254..256 siblings, one operation"},
		{H: "vvH_shape", P: P{"s0": 4, "n0": 126, "n1": 128, "o0": 1, "o1": 1, "ops": 1, "kinds": 3, "opk": 2, "klo": 1, "khi": 2, "ck": ckKeys | ckIter}, What: "children which are nodes"},
		{H: "vvH_drain", P: P{"s0": 1, "n0": 128, "n1": 129, "dord": 1, "tail": 1, "ck": ckKeys | ckIter}, What: "a full node drained except one child"},
		{H: "vvH_shape", Thorough: true, P: P{"s0": 0, "s1": 1, "nl": 1, "o0": 0, "o1": 2, "ops": 1, "kinds": 3, "opk": 2, "klo": 1, "khi": 2, "ck": ckKeys | ckIter}, What: "125..129 siblings in three orders, one operation"},
		{H: "vvH_shape", Thorough: true, P: P{"s0": 1, "nl": 1, "p0": 7, "p1": 9, "ops": 1, "kinds": 3, "opk": 2, "klo": 2, "khi": 2, "ck": ckKeys | ckIter}, What: "the same below a prefix of 7..9 bytes"},
		{H: "vvH_shape", Thorough: true, P: P{"s0": 0, "s1": 1, "nl": 3, "o0": 2, "o1": 2, "ops": 1, "kinds": 3, "opk": 2, "klo": 1, "khi": 2, "ck": ckKeys | ckIter}, What: "200..256 siblings, one operation"},
		{H: "vvH_shape", Thorough: true, P: P{"s0": 4, "s1": 5, "nl": 1, "o0": 1, "o1": 1, "ops": 1, "kinds": 3, "opk": 2, "klo": 1, "khi": 2, "ck": ckKeys | ckIter}, What: "children which are nodes"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 7, "in1": 9, "ops": 1, "kinds": 3, "opk": 8, "klo": 1, "khi": 2, "ck": ckKeys | ckIter}, What: "inner prefixes of 7..9 bytes, one operation"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 254, "in1": 257, "ops": 1, "kinds": 3, "opk": 8, "klo": 1, "khi": 2, "ck": ckKeys | ckIter}, What: "inner prefixes of 254..257 bytes, one operation"},
		{H: "vvH_shape", Steps: 40e6, P: P{"s0": 0, "s1": 1, "n0": 126, "n1": 128, "p0": 0, "p1": 0, "o0": 1, "o1": 1, "ops": 1, "kinds": 3, "opk": 1, "ck": ckKeys | ckIter, "dirty": 1}, What: "126..128 siblings in recycled memory with arbitrary old contents"},
		{H: "vvH_shape", Steps: 40e6, P: P{"s0": 1, "n0": 127, "n1": 128, "p0": 8, "p1": 9, "ops": 1, "kinds": 3, "opk": 1, "ck": ckKeys | ckIter, "dirty": 1}, What: "the same below prefixes of 8..9 bytes"},
	}},
	{ID: "C11", Runs: []RunSpec{
		{H: "vvH_ops", P: P{"s0": 0, "s1": 12, "ops": 2, "kinds": 12, "klo": 1, "khi": 4, "ck": ckKeys | ckLen | ckStop}, What: "13 small shapes, 2 aborted operations on arbitrary keys of 1..4 bytes, then every key, Len and Stop"},
		{H: "vvH_ops", P: P{"s0": 0, "s1": 12, "ops": 2, "kinds": 15, "klo": 1, "khi": 2, "ck": ckKeys | ckStop}, What: "13 small shapes, 2 operations or aborts"},
		{H: "vvH_shape", P: P{"s0": 1, "nl": 1, "ops": 1, "kinds": 12, "opk": 3, "klo": 1, "khi": 2, "ck": ckKeys | ckLen | ckStop}, What: "125..129 siblings, one abort"},
		{H: "vvH_shape", P: P{"s0": 4, "s1": 8, "n0": 140, "ops": 1, "kinds": 12, "opk": 1, "ck": ckKeys | ckLen | ckStop}, What: "mixed shapes, an aborted operation on stored keys"},
		{H: "vvH_len", P: P{"s0": 0, "s1": 7, "ops": 2, "kinds": 12}, What: "aborts through allocators"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 7, "in1": 9, "ops": 1, "kinds": 12, "opk": 8, "klo": 1, "khi": 2, "ck": ckKeys | ckStop}, What: "inner prefixes of 7..9 bytes, one abort"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 254, "in1": 257, "ops": 1, "kinds": 12, "opk": 8, "klo": 1, "khi": 2, "ck": ckKeys | ckStop}, What: "inner prefixes of 254..257 bytes, one abort"},
	}},
	{ID: "C12", Runs: []RunSpec{
		{H: "vvH_held", Tags: "bs15", P: P{"s0": 0, "s1": 12, "ops": 1, "kinds": 1023}, What: "13 small shapes, one operation of every kind: locks, reservations and pool inspected"},
		{H: "vvH_held", Tags: "bs15", P: P{"s0": 0, "s1": 7, "ops": 2, "kinds": 15}, What: "two operations"},
		{H: "vvH_held", Tags: "bs15", P: P{"s0": 20, "s1": 23, "ops": 1, "kinds": 1023}, What: "wide shapes"},
		{H: "vvH_held", Tags: "bs15", P: P{"s0": 0, "s1": 9, "ops": 2, "kinds": 48}, What: "an operation invalidated by another one (failing Finalize)"},
		{H: "vvH_len", P: P{"s0": 0, "s1": 9, "ops": 2, "kinds": 15}, What: "public behaviour: any following operation, Len and Stop proceed"},
		{H: "vvH_held", Tags: "bs15", P: P{"s0": 24, "s1": 26, "ops": 1, "kinds": 1023}, What: "prefixes of 255..257 bytes, 256 children"},
		{H: "vvH_conc", Tags: "bs12", Inst: true, Preempt: 1, P: P{"s0": 0, "s1": 6, "A": cPut | cDel | cPutAbort | cDelAbort, "B": cPut1 | cDel1, "inspect": 1}, What: "two writers, locks, reservations and pool inspected after both"},
		{H: "vvH_conc", Tags: "bs15", Inst: true, Preempt: 1, P: P{"s0": 21, "A": cDel | cDel1, "B": cPut | cDel, "ka": 1, "kb": 1, "inspect": 1}, What: "the same on a full node"},
	}},
	{ID: "C25", Runs: []RunSpec{
		{H: "vvH_any", P: P{"m0": 0, "m1": 3, "s0": 0, "s1": 12, "klo": 0, "khi": 4, "ops": 63}, What: "new, emptied and filled trees of 13 shapes, arbitrary arguments of 0..4 bytes"},
		{H: "vvH_any", P: P{"m0": 1, "s0": 1, "s1": 12, "klo": 0, "khi": 2, "stored": 1, "ops": 63}, What: "arguments derived from stored keys"},
		{H: "vvH_any", P: P{"m0": 1, "m1": 2, "s0": 20, "s1": 23, "klo": 0, "khi": 4, "ops": 63}, What: "wide shapes"},
		{H: "vvH_any", P: P{"m0": 1, "m1": 3, "s0": 24, "s1": 25, "klo": 0, "khi": 1, "stored": 1, "ops": 63}, What: "prefixes of 255..257 bytes, arguments derived from stored keys"},
	}},
	{ID: "C27", Runs: []RunSpec{
		{H: "vvH_two", P: P{"s0": 0, "s1": 5, "t0": 2, "t1": 4, "ops": 2, "kinds": 127}, What: "two trees, 2 operations of 7 kinds on either"},
		{H: "vvH_two", P: P{"s0": 2, "s1": 3, "t0": 4, "t1": 5, "ops": 3, "kinds": 15}, What: "3 operations"},
		{H: "vvH_two", Tags: "pf1", P: P{"s0": 8, "s1": 9, "t0": 2, "t1": 2, "ops": 1, "kinds": 80, "nexts": 6}, What: "iterators with batches of 2, given up anywhere and reused"},
		{H: "vvH_two", Tags: "pf1", P: P{"s0": 8, "s1": 8, "t0": 8, "t1": 8, "ops": 2, "kinds": 80, "nexts": 4}, What: "twice"},
		{H: "vvH_opstr", P: P{"s0": 0, "s1": 12, "t0": 2, "t1": 12, "emptied": 1}, What: "what a prepared operation shows of itself, after another one elsewhere, on 13 shapes and emptied ones"},
		{H: "vvH_opstr", P: P{"s0": 0, "s1": 9, "t0": 4, "t1": 4, "emptied": 1, "arb": 3}, What: "the same for an arbitrary key of 1..3 bytes"},
	}},
	{ID: "C28", Runs: []RunSpec{
		{H: "vvH_ops", P: P{"s0": 0, "s1": 12, "ops": 2, "kinds": 15, "klo": 1, "khi": 3, "ck": ckCanon}, What: "13 small shapes, 2 arbitrary operations or aborts"},
		{H: "vvH_ops", P: P{"s0": 2, "s1": 4, "ops": 3, "kinds": 3, "klo": 1, "khi": 2, "ck": ckCanon}, What: "3 small shapes, 3 arbitrary operations"},
		{H: "vvH_shape", P: P{"s0": 0, "n0": 98, "n1": 104, "ops": 1, "kinds": 3, "opk": 2, "ck": ckCanon}, What: "98..104 siblings, one operation"},
		{H: "vvH_shape", P: P{"s0": 2, "s1": 8, "n0": 270, "ck": ckCanon}, What: "7 shapes of 270 keys"},
		{H: "vvH_shape", P: P{"s0": 1, "s1": 2, "nl": 1, "p0": 9, "p1": 9, "ops": 1, "kinds": 3, "opk": 2, "ck": ckCanon}, What: "125..129 keys below a prefix of 9 bytes, one operation"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 7, "in1": 9, "ops": 1, "kinds": 3, "opk": 8, "klo": 1, "khi": 2, "ck": ckCanon}, What: "inner prefixes of 7..9 bytes, one operation"},
		{H: "vvH_shape", P: P{"s0": 9, "s1": 10, "n0": 3, "in0": 254, "in1": 257, "ops": 1, "kinds": 3, "opk": 8, "klo": 1, "khi": 2, "ck": ckCanon}, What: "inner prefixes of 254..257 bytes, one operation"},
		{H: "vvH_conc", Inst: true, Preempt: 1, P: P{"s0": 0, "s1": 9, "A": cPut | cDel, "B": cPut | cDel, "canon": 1}, What: "10 shapes, two writers, 1 preemption"},
		{H: "vvH_conc", Inst: true, Preempt: 2, P: P{"s0": 27, "held": 1, "A": cPut, "B": cPut, "C": cPut, "ka": 32, "kb": 32, "kc": 32, "canon": 1}, What: "three writers on one path, 2 preemptions"},
		{H: "vvH_conc", Inst: true, Preempt: 2, P: P{"s0": 3, "s1": 4, "A": cPut | cDel, "B": cPut | cDel, "canon": 1}, What: "2 shapes, two writers, 2 preemptions"},
	}},
	{ID: "C13", Runs: []RunSpec{
		{H: "vvH_conc", Inst: true, Preempt: 1, P: P{"s0": 0, "s1": 9, "A": cPut | cDel, "B": cPut | cDel}, What: "10 shapes, two writers with one operation each on stored or new keys, 1 preemption"},
		{H: "vvH_conc", Inst: true, Preempt: 2, P: P{"s0": 27, "held": 1, "A": cPut, "B": cPut, "C": cPut, "ka": 32, "kb": 32, "kc": 32}, What: "three writers, one of them holding a prepared operation, at different depths of one path, 2 preemptions"},
		{H: "vvH_conc", Inst: true, Preempt: 1, P: P{"s0": 30, "s1": 31, "A": cDel, "B": cPut | cDel, "ka": 1}, What: "two nodes merging while another writer is on its way to the one below"},
		{H: "vvH_conc", Inst: true, Preempt: 1, P: P{"s0": 3, "s1": 5, "A": cPut1 | cDel1 | cPutAbort | cDelAbort, "B": cPut1 | cDel1}, What: "single attempts: a refused operation has no effect"},
		{H: "vvH_conc", Inst: true, Preempt: 1, P: P{"s0": 20, "s1": 23, "A": cPut | cDel, "B": cPut | cDel}, What: "wide shapes"},
		{H: "vvH_conc", Inst: true, Preempt: 1, P: P{"s0": 10, "s1": 12, "A": cPut | cDel, "B": cPut | cDel}, What: "prefixes of 7..9 bytes"},
		{H: "vvH_conc", Inst: true, Preempt: 2, P: P{"s0": 0, "s1": 9, "A": cPut | cDel, "B": cPut | cDel}, What: "10 shapes, 2 preemptions"},
		{H: "vvH_conc", Inst: true, Preempt: 3, P: P{"s0": 4, "A": cPut | cDel, "B": cPut | cDel}, What: "one shape, 3 preemptions"},
		{H: "vvH_conc", Inst: true, Preempt: 3, Thorough: true, P: P{"s0": 0, "s1": 9, "A": cPut | cDel, "B": cPut | cDel}, What: "10 shapes, 3 preemptions"},
		{H: "vvH_conc", Inst: true, Preempt: 1, Thorough: true, P: P{"s0": 24, "s1": 26, "A": cPut | cDel, "B": cPut | cDel}, What: "prefixes of 255..257 bytes, 256 children"},
	}},
	{ID: "C14", Runs: []RunSpec{
		{H: "vvH_conc", Inst: true, Preempt: 2, P: P{"s0": 0, "s1": 9, "A": cPut | cDel, "B": cLookup}, What: "a lookup against each kind of change, 2 preemptions"},
		{H: "vvH_conc", Inst: true, Preempt: 2, P: P{"s0": 1, "s1": 9, "A": cPut | cDel, "B": cMin | cMax | cCount | cIter}, What: "scans against each kind of change, 2 preemptions"},
		{H: "vvH_conc", Inst: true, Preempt: 2, P: P{"s0": 0, "s1": 9, "A": cPut | cDel, "B": cMin | cMax | cCount | cIter, "pfx": 'b'}, What: "the same with a search prefix of one byte"},
		{H: "vvH_conc", Inst: true, Preempt: 1, P: P{"s0": 0, "s1": 9, "A": cPut | cDel, "B": cMin | cMax | cCount | cIter, "pfx": 'b'<<8 | 'c'}, What: "the same with a search prefix of two bytes"},
		{H: "vvH_conc", Inst: true, Preempt: 1, P: P{"s0": 20, "s1": 23, "A": cPut | cDel, "B": cLookup | cMin | cMax}, What: "wide shapes"},
		{H: "vvH_conc", Inst: true, Preempt: 2, P: P{"s0": 30, "s1": 31, "A": cDel, "B": cLookup | cMin | cMax | cCount | cIter, "ka": 1}, What: "two nodes merging above a third, 2 preemptions"},
		{H: "vvH_conc", Inst: true, Preempt: 3, P: P{"s0": 3, "s1": 5, "A": cPut | cDel, "B": cLookup}, What: "3 preemptions"},
		{H: "vvH_conc", Inst: true, Preempt: 2, P: P{"s0": 4, "s1": 6, "A": cPut | cDel, "B": cLookup | cMin | cMax, "na": 2}, What: "two changes after each other, 2 preemptions"},
		{H: "vvH_conc", Inst: true, Preempt: 1, P: P{"s0": 24, "s1": 25, "A": cPut | cDel, "B": cLookup | cMin | cMax | cCount | cIter}, What: "prefixes of 255..257 bytes"},
		{H: "vvH_conc", Inst: true, Preempt: 1, Thorough: true, P: P{"s0": 10, "s1": 12, "A": cPut | cDel, "B": cLookup | cMin | cMax | cCount | cIter}, What: "prefixes of 7..9 bytes"},
	}},
	{ID: "C15", Runs: []RunSpec{
		{H: "vvH_conc", Inst: true, Preempt: 2, P: P{"s0": 0, "s1": 9, "A": cPut | cDel, "B": cPut | cDel, "same": 1}, What: "two writers on one key, 2 preemptions"},
		{H: "vvH_conc", Inst: true, Preempt: 3, P: P{"s0": 2, "s1": 3, "A": cPut | cDel, "B": cPut | cDel, "same": 1}, What: "3 preemptions"},
		{H: "vvH_conc", Inst: true, Preempt: 2, P: P{"s0": 0, "s1": 4, "A": cPut | cFlush, "B": cDel | cFlush, "allocs": 2}, What: "writers and flushes of the counters, 2 preemptions"},
		{H: "vvH_conc", Inst: true, Preempt: 1, P: P{"s0": 20, "s1": 22, "A": cPut | cDel, "B": cPut | cDel, "same": 1}, What: "wide shapes"},
		{H: "vvH_conc", Inst: true, Preempt: 1, P: P{"s0": 2, "s1": 4, "A": cPut | cDel, "B": cPut | cDel, "C": cPut | cDel, "same": 1}, What: "three writers"},
	}},
	{ID: "C16", Runs: []RunSpec{
		{H: "vvH_reuse", What: "a node recycled while a reservation is held is not handed out, for arbitrary epochs and list contents"},
		{H: "vvH_stamp", What: "recycled nodes are stamped with an epoch not before the current one"},
		{H: "vvH_conc", Inst: true, Preempt: 2, Steps: 40e6, Secs: 90, P: P{"s0": 8, "warm": 499, "warmx": 1, "A": 3, "B": 4, "allocs": 2, "na": 2, "ka": 8, "kb": 16}, What: "a lookup against two updates which recycle and reuse nodes right at an epoch change"},
		{H: "vvH_conc", Inst: true, Preempt: 1, Steps: 40e6, Secs: 90, P: P{"s0": 8, "warm": 499, "warmx": 1, "A": 3, "B": 120, "allocs": 2, "na": 2, "ka": 8, "kb": 16}, What: "the same with scans"},
		{H: "vvH_conc", Inst: true, Preempt: 1, Steps: 40e6, P: P{"s0": 6, "warm": 498, "A": 3, "B": 4}, What: "another shape"},
		{H: "vvH_conc", Inst: true, Preempt: 2, Steps: 40e6, P: P{"s0": 28, "warm": 499, "warmx": 1, "A": 1, "B": 124, "allocs": 2, "na": 2, "ka": 64}, What: "reads of a node which is replaced and reused for a node of another form"},
		{H: "vvH_conc", Inst: true, Preempt: 2, Steps: 40e6, P: P{"s0": 29, "warm": 499, "warmx": 1, "A": 3, "B": 124, "allocs": 2, "na": 2, "ka": 64}, What: "the same with the root"},
		{H: "vvH_conc", Inst: true, Preempt: 2, Steps: 40e6, P: P{"s0": 28, "warm": 499, "warmx": 1, "A": 3, "B": 120, "allocs": 2, "na": 2, "ka": 64, "pfx": 'b'}, What: "the same with reads by prefix"},
		{H: "vvH_epochrace", Inst: true, Preempt: 2, What: "the epoch never goes backwards when two allocators advance it"},
		{H: "vvH_stateint", What: "nodes recycled before saving are reused only according to the restored epoch"},
		{H: "vvH_conc", Inst: true, Preempt: 1, Steps: 40e6, P: P{"s0": 8, "warm": 499, "warmx": 1, "A": 3, "B": 3, "allocs": 2, "na": 2, "ka": 8, "kb": 16}, What: "the same with another writer"},
	}},
	{ID: "C17", Runs: []RunSpec{
		{H: "vvH_extent", Tags: "bs12", P: P{"items": 2, "rounds": 1, "size": 5, "req": 4}, What: "allocations from two arbitrary recycled nodes, arbitrary sizes: extents never overlap"},
		{H: "vvH_extent", Tags: "bs12", P: P{"items": 1, "rounds": 2, "size": 5, "req": 4}, What: "two rounds of allocation and recycling"},
		{H: "vvH_balance", Tags: "bs12", P: P{"s0": 0, "s1": 12}, What: "13 small shapes, 2 operations: all reachable nodes and all free lists are disjoint"},
		{H: "vvH_cycle", Tags: "bs12", Steps: 1e8, What: "cycles through block boundaries"},
		{H: "vvH_ops", Tags: "bs12", P: P{"s0": 10, "s1": 11, "ops": 2, "kinds": 3, "klo": 8, "khi": 10, "ck": ckKeys}, What: "operations near the end of small blocks"},
		{H: "vvH_conc", Tags: "bs12", Inst: true, Preempt: 1, P: P{"s0": 3, "s1": 8, "A": 3, "B": 3, "na": 2}, What: "two writers allocating from their own blocks"},
		{H: "vvH_extent", Tags: "bs12", Thorough: true, What: "two rounds, two items, sizes up to 7"},
	}},
	{ID: "C18", Runs: []RunSpec{
		{H: "vvH_balance", Tags: "bs12", P: P{"s0": 0, "s1": 12}, What: "13 small shapes, 2 operations or aborts: every slot is in the tree or in a free list"},
		{H: "vvH_balance", Tags: "bs15", P: P{"s0": 20, "s1": 23, "ops": 1}, What: "wide shapes"},
		{H: "vvH_cycle", Tags: "bs12", Steps: 1e8, What: "repeating a cycle of operations stops consuming memory"},
		{H: "vvH_balance", Tags: "bs12", P: P{"s0": 0, "s1": 9, "ops": 1, "any": 1}, What: "an operation on an arbitrary key"},
		{H: "vvH_conc", Tags: "bs12", Inst: true, Preempt: 1, P: P{"s0": 0, "s1": 7, "A": cPut | cDel, "B": cPut | cDel, "inspect": 2}, What: "two writers: every slot is in the tree or in a free list afterwards"},
	}},
	{ID: "C19", Runs: []RunSpec{
		{H: "vvH_locks", What: "every sequence of lock operations on arbitrary node pairs and generations"},
		{H: "vvH_rootlock", What: "the lock of a leaf as root"},
		{H: "vvH_lockrace", Inst: true, Preempt: 3, What: "two threads locking arbitrary node sets, 3 preemptions: mutual exclusion, stale generations refused, no deadlock"},
		{H: "vvH_conc", Tags: "bs12", Inst: true, Preempt: 1, P: P{"s0": 4, "s1": 9, "A": 3, "B": 3}, What: "writers whose nodes share lock words"},
	}},
	{ID: "C20", Runs: []RunSpec{
		{H: "vvH_pool", Inst: true, Preempt: 4, P: P{"A": 109, "B": 2}, What: "Stop against a holder, a user and internal commands, 4 preemptions"},
		{H: "vvH_pool", Inst: true, Preempt: 4, P: P{"A": 109, "B": 125}, What: "any two operations of the pool, 4 preemptions"},
		{H: "vvH_pool", Inst: true, Preempt: 3, P: P{"A": 109, "B": 2, "nest": 1}, What: "Len of a stopped tree and a second Stop, 3 preemptions"},
		{H: "vvH_pool", Inst: true, Preempt: 2, P: P{"A": 109, "B": 2, "C": 12, "a0": 2}, What: "three threads, two allocators, 2 preemptions"},
		{H: "vvH_pool", Inst: true, Preempt: 2, P: P{"A": 109, "B": 2, "C": 109}, What: "three threads, one or two allocators, 2 preemptions"},
		{H: "vvH_pool", Inst: true, Preempt: 2, P: P{"A": 109, "B": 125, "C": 16}, What: "three threads without Stop, 2 preemptions"},
		{H: "vvH_pool", Inst: true, Preempt: 2, P: P{"A": 12, "B": 12, "stopped": 1}, What: "on a stopped tree"},
		{H: "vvH_len", P: P{"s0": 0, "s1": 5, "ops": 2, "kinds": 31, "allocs": 2}, What: "operations through held allocators and the tree"},
		{H: "vvH_pool", Inst: true, Preempt: 3, Thorough: true, P: P{"A": 109, "B": 2, "C": 109}, What: "three threads, 3 preemptions"},
	}},
	{ID: "C21", Runs: []RunSpec{
		{H: "vvH_state", P: P{"s0": 0, "s1": 12, "a0": 1, "a1": 2}, What: "13 small shapes, operation before saving and after restoring, 1 and 2 allocators"},
		{H: "vvH_state", P: P{"s0": 0, "s1": 7, "any": 1, "klo": 1, "khi": 2, "ops2": 0, "again": 0, "slow": 1}, What: "an operation on an arbitrary key, a reader delivering 1..3 bytes at a time"},
		{H: "vvH_state", Tags: "bs12", P: P{"s0": 3, "long": 2, "longn": 1, "more": 5, "ops": 0}, What: "several blocks, allocations after restoring"},
		{H: "vvH_state", P: P{"s0": 20, "s1": 23, "ops": 1, "ops2": 0, "again": 0}, What: "wide shapes"},
		{H: "vvH_state", Tags: "bs12", Steps: 2e8, P: P{"s0": 3, "long": 40, "ops": 0, "ops2": 0, "again": 0, "wslow": 1}, What: "many blocks, a slow writer"},
		{H: "vvH_stateint", What: "arbitrary epoch, allocations after restoring"},
		{H: "vvH_state", P: P{"s0": 20, "s1": 23, "ops2": 1}, Thorough: true, What: "wide shapes, operations before and after"},
		{H: "vvH_state", Tags: "bs12", Thorough: true, P: P{"s0": 3, "long": 2, "longn": 2, "more": 5}, What: "several blocks"},
		{H: "vvH_state", P: P{"s0": 24, "s1": 25, "ops": 1, "ops2": 1, "again": 0}, What: "prefixes of 255..257 bytes"},
	}},
	{ID: "C22", Runs: []RunSpec{
		{H: "vvH_torn", P: P{"s0": 0, "s1": 12, "t0": 0, "t1": 3}, What: "13 small shapes, the state cut off at every byte of every line and in the compressed blocks, with and without an I/O error"},
		{H: "vvH_torn", Tags: "bs12", P: P{"s0": 4, "long": 3, "t0": 0, "t1": 3, "slow": 1}, What: "several blocks, byte-wise reader"},
		{H: "vvH_mangled", P: P{"s0": 3, "s1": 6, "g0": 0, "g1": 5}, What: "every header line missing or malformed"},
		{H: "vvH_mangled", P: P{"s0": 4, "g0": 6, "g1": 6}, What: "an arbitrary byte at every place of every header line"},
		{H: "vvH_mangled", Tags: "bs12", P: P{"s0": 4, "g0": 6, "g1": 7, "long": 2}, What: "several blocks"},
	}},
	{ID: "C23", Runs: []RunSpec{
		{H: "vvH_wfail", P: P{"s0": 0, "s1": 8}, What: "9 small shapes, every write of WriteState failing once or for good, partially or not"},
		{H: "vvH_wfail", Tags: "bs12", P: P{"s0": 3, "s1": 6, "long": 2, "longn": 4}, What: "several blocks"},
		{H: "vvH_wfail", Tags: "bs12", Steps: 1e8, P: P{"s0": 3, "long": 40, "fmax": 8}, What: "more blocks than the queue of the writer holds"},
	}},
	{ID: "C24", Runs: []RunSpec{
		{H: "vvH_iter", Tags: "pf1", P: P{"s0": 2, "s1": 9, "rounds": 2, "jmax": 3, "kinds": 3, "opk": 1}, What: "8 small shapes with batches of 2, 2 interruptions with operations on stored and new keys"},
		{H: "vvH_iter", Tags: "pf2", P: P{"s0": 2, "s1": 9, "rounds": 1, "ops": 2, "jmax": 4, "kinds": 3, "opk": 2}, What: "2 operations on arbitrary keys of 1..3 bytes"},
		{H: "vvH_iter", Tags: "pf1", P: P{"s0": 2, "s1": 9, "rounds": 2, "jmax": 2, "kinds": 3, "opk": 1, "pm": 2}, What: "iterating a prefix"},
		{H: "vvH_iter", Tags: "pf1", P: P{"s0": 2, "s1": 9, "rounds": 1, "jmax": 3, "kinds": 3, "opk": 2, "klo": 1, "khi": 2, "pm": 6}, What: "an arbitrary prefix"},
		{H: "vvH_iter", P: P{"shape": 2, "shape1": 8, "n0": 258, "jl": 256, "kinds": 3, "opk": 1, "rounds": 1}, What: "wide shapes of 258 keys, interrupted around the end of the first batch"},
		{H: "vvH_conc", Tags: "pf1", Inst: true, Preempt: 2, P: P{"s0": 1, "s1": 9, "A": 3, "B": 64}, What: "a writer concurrent to an iteration in batches of 2, 2 preemptions"},
		{H: "vvH_C24_collapse", P: P{"exempt": 0}, What: "the collapse of the place where an iteration continues"},
		{H: "vvH_iter", Thorough: true, P: P{"shape": 2, "shape1": 8, "nl": 5, "jl": 256, "kinds": 7, "opk": 1, "rounds": 1}, What: "wide shapes of 255..259 keys"},
		{H: "vvH_iter", Thorough: true, Tags: "pf9", P: P{"s0": 20, "s1": 23, "rounds": 1, "jl": 127, "kinds": 7, "opk": 1}, What: "full nodes"},
		{H: "vvH_conc", Thorough: true, Tags: "pf1", Inst: true, Preempt: 1, P: P{"s0": 4, "s1": 7, "A": 3, "B": 64, "na": 2}, What: "two operations concurrent to an iteration"},
	}},
	{ID: "C26", Runs: []RunSpec{
		{H: "vvH_admin", P: P{"s0": 0, "s1": 12, "a0": 1, "a1": 2}, What: "13 small shapes after an operation, every command, running and stopped trees"},
		{H: "vvH_admin", P: P{"s0": 20, "s1": 23, "a0": 1, "a1": 1}, What: "wide shapes"},
		{H: "vvH_admin", Tags: "bs12", P: P{"s0": 3, "s1": 4, "long": 4}, What: "several blocks"},
		{H: "vvH_admin", P: P{"shape": 2, "shape1": 8, "n0": 270, "ops": 0, "cmds": 1}, What: "the root and node views of 7 shapes of 270 keys"},
		{H: "vvH_node", P: P{"s0": 4, "s1": 5}, What: "node ids of chosen places with all kinds of counts"},
		{H: "vvH_node", Tags: "bs12", P: P{"s0": 4, "long": 2}, What: "the same with small blocks"},
		{H: "vvH_node", Secs: 60, P: P{"s0": 4, "ids": 4}, What: "arbitrary node ids"},
		{H: "vvH_admin", P: P{"s0": 24, "s1": 26, "a0": 1, "a1": 1}, What: "prefixes of 255..257 bytes, 256 children"},
	}},
}
