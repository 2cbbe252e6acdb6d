package radix

func init() { vvHarnesses["vvH_prefixsafe"] = vvH_prefixsafe }

// vvH_prefixsafe (C09): the variants without unsafe operations.
func vvH_prefixsafe() {
	l := vvInt(vvParam("l0", 1), vvParam("l1", 24))
	p := vvBytes(l)
	slots := (l + 7) / 8
	if l >= 255 {
		slots++
	}
	buf := make([]uint64, slots)
	storePrefixSafe(buf, p)
	pl := l
	if pl > 255 {
		pl = 255
	}
	var dst []byte
	if vvInt(0, 1) == 1 {
		dst = make([]byte, 0, l+10)
	}
	got, ns := loadPrefixSafe(dst, buf, pl)
	vvAssert(ns == slots, "a prefix uses the slots computed for it")
	vvAssert(len(got) == l, "a prefix read back has its length")
	vvAssert(vvEqB(got, p), "a prefix read back equals the bytes stored")
	vvCover("end")
}
