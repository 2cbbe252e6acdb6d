package radix

func init() { vvHarnesses["vvH_C01"] = vvH_C01 }

// vvH_C01: a history of n operations (insert/update or delete) on arbitrary
// prefix-free keys of 1..len bytes, then Lookup of every key used and of an
// arbitrary probe.
func vvH_C01() {
	n := vvParam("n", 2)
	ml := vvParam("len", 2)
	dels := vvParam("dels", 0)
	t := vvNewTree(1, true)
	m := &vvModel{}
	var keys [][]byte
	for i := 0; i < n; i++ {
		k := vvKey(1, ml)
		vvPrefixFree(keys, k)
		keys = append(keys, k)
		vvPutKey(t, m, k, uint64(i+1))
	}
	for i := 0; i < dels; i++ {
		k := keys[vvInt(0, n-1)]
		vvDelKey(t, m, k)
	}
	for _, k := range keys {
		vvCheckLookup(t, m, k)
	}
	vvCheckLookup(t, m, vvKey(1, ml))
	vvCover("end")
}
