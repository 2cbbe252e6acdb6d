package radix

import (
	"bytes"
	"errors"
	"io"
)

func init() {
	vvHarnesses["vvH_state"] = vvH_state
	vvHarnesses["vvH_torn"] = vvH_torn
	vvHarnesses["vvH_mangled"] = vvH_mangled
	vvHarnesses["vvH_wfail"] = vvH_wfail
}

// vvSave stops the tree and writes its state.
func vvSave(t *Tree) []byte {
	t.Stop()
	var b bytes.Buffer
	var w io.Writer = &b
	if vvParam("wslow", 0) != 0 {
		w = &vvSlowW{b: &b}
	}
	n, err := t.WriteState(w)
	vvAssert(err == nil, "WriteState succeeds if no write fails")
	vvAssert(n == b.Len(), "WriteState reports the number of bytes written")
	return b.Bytes()
}

// vvSlowW takes its time before it looks at the data.
type vvSlowW struct{ b *bytes.Buffer }

func (w *vvSlowW) Write(p []byte) (int, error) {
	vvQuiesce()
	return w.b.Write(p)
}

// vvSlow delivers data in small pieces.
type vvSlow struct {
	data []byte
	step int
	err  error // after the data, instead of io.EOF
	with bool  // the error comes together with the last bytes
}

func (r *vvSlow) Read(p []byte) (int, error) {
	end := r.err
	if end == nil {
		end = io.EOF
	}
	if len(r.data) == 0 {
		return 0, end
	}
	n := len(p)
	if n > r.step {
		n = r.step
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.with {
		return n, end
	}
	return n, nil
}

// vvWideKeys: pairs of keys with long common parts, each pair needing most of
// a block of 512 words.
func vvLongKeys(n int) (r [][]byte) {
	pre := vvPre(2400)
	for i := 0; i < n; i++ {
		k := append([]byte{byte(i + 1)}, pre...)
		r = append(r, append(append([]byte(nil), k...), 'a'), append(append([]byte(nil), k...), 'b'))
	}
	return
}

// vvH_state (C21): a tree is built, stopped at some moment, saved, restored,
// compared, used further, saved and restored again.
func vvH_state() {
	s := vvInt(vvParam("s0", 0), vvParam("s1", vvParam("s0", 0)))
	na := vvInt(vvParam("a0", 1), vvParam("a1", 2))
	t := vvNewTree(na, vvParam("settle", 1) != 0)
	m := &vvModel{}
	vvBulk(t, m, vvScaffoldC(s))
	if n := vvParam("long", 0); n > 0 {
		vvBulkMore(t, m, vvLongKeys(vvInt(n, n+vvParam("longn", 0))))
	}
	var held *Allocator
	for i := 0; i < vvParam("ops", 1); i++ {
		a := held
		if na > 1 && vvInt(0, 1) == 1 {
			// the operation goes through the last allocator
			held = t.GetAllocator()
			a = t.GetAllocator()
			t.ReleaseAllocator(held)
			held = nil
		} else {
			a = t.GetAllocator()
		}
		var k []byte
		if vvParam("any", 0) != 0 {
			k = vvKey(vvParam("klo", 1), vvParam("khi", 2))
			vvPrefixFreeM(m, k)
		} else {
			k = vvPickStored(m, s)
		}
		switch vvPickBit(vvParam("kinds", 3)) {
		case 0:
			vvPutKeyA(a, m, k, vvVal(len(m.h)))
		case 1:
			vvDelKeyA(a, m, k)
		}
		t.ReleaseAllocator(a)
	}
	data := vvSave(t)
	step := 1 << 20
	if vvParam("slow", 0) != 0 {
		step = vvInt(1, 3)
	}
	t2, err := NewTreeFromState(&vvSlow{data: data, step: step})
	vvAssert(err == nil, "a saved state can be restored")
	if err != nil {
		return
	}
	vvCover("restored")
	vvSameTree(t2, m)
	// saving changed nothing
	vvAssert(m.count(nil) == uint64(t.Len()), "saving does not change the tree")
	t.Start()
	vvSameTree(t, m)
	// further use of the restored tree
	m2 := &vvModel{h: append([]vvRec(nil), m.h...), stable: m.stable}
	for i := 0; i < vvParam("ops2", 1); i++ {
		k := vvPickStored(m2, s)
		switch vvPickBit(vvParam("kinds2", 3)) {
		case 0:
			vvPutKey(t2, m2, k, vvVal(200+len(m2.h)))
		case 1:
			vvDelKey(t2, m2, k)
		}
	}
	if n := vvParam("more", 0); n > 0 {
		// allocations in new blocks leave restored data alone
		for i, k := range vvLongKeys(n + 50)[100:] {
			vvPutKey(t2, m2, k, vvVal(300+i))
		}
	}
	vvSameTree(t2, m2)
	// neither tree depends on the other one
	vvSameTree(t, m)
	if vvParam("again", 1) != 0 {
		t3, err := NewTreeFromState(bytes.NewReader(vvSave(t2)))
		vvAssert(err == nil, "the state of a restored tree can be restored")
		if err != nil {
			return
		}
		vvSameTree(t3, m2)
		vvPutKey(t3, m2, []byte{250, 1, 2}, vvVal(500+len(m2.h)))
		vvSameTree(t3, m2)
	}
	vvCover("end")
}

// vvBulkMore inserts more concrete keys.
func vvBulkMore(t *Tree, m *vvModel, keys [][]byte) {
	for _, k := range keys {
		vvPutKey(t, m, k, vvVal(len(m.h)))
	}
	m.stable = len(m.h)
}

func vvSameTree(t *Tree, m *vvModel) {
	vvCheckKeys(t, m)
	vvCheckLen(t, m)
	vvCheckIter(t, m, nil)
	vvCheckCount(t, m, nil)
	vvCheckMinMax(t, m, nil)
	for i := range m.h {
		if i < 3 {
			vvCheckIter(t, m, m.h[i].key[:1])
		}
	}
}

// vvSegs splits a state into its lines and block bodies.
type vvSeg struct {
	lo, hi int
	body   bool
}

func vvSegs(d []byte) (r []vvSeg) {
	for p := 0; p < len(d); {
		e := bytes.IndexByte(d[p:], '\n') + p + 1
		if e == p {
			e = len(d)
		}
		line := string(d[p : e-1])
		r = append(r, vvSeg{p, e, false})
		p = e
		n := 0
		if len(line) > 5 && line[:5] == "size " {
			n = vvAtoi(line[5:])
		}
		if len(line) > 9 && line[:9] == "recycler " {
			i := bytes.LastIndexByte([]byte(line), ' ')
			n = 8 * vvAtoi(line[i+1:])
		}
		if n > 0 {
			r = append(r, vvSeg{p, p + n, true})
			p += n
		}
	}
	return
}

func vvAtoi(s string) (n int) {
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return
}

// vvTornTree builds the tree whose state is damaged.
func vvTornTree() (*Tree, *vvModel) {
	s := vvInt(vvParam("s0", 4), vvParam("s1", vvParam("s0", 4)))
	t := vvNewTree(vvParam("allocs", 2), true)
	m := &vvModel{}
	vvBulk(t, m, vvScaffoldC(s))
	if n := vvParam("long", 0); n > 0 {
		vvBulkMore(t, m, vvLongKeys(n))
	}
	if len(m.h) > 1 {
		vvDelKey(t, m, m.h[0].key)
	}
	return t, m
}

// vvH_torn (C22): a state cut off anywhere, or followed by an I/O error
// anywhere, is rejected.
func vvH_torn() {
	t, m := vvTornTree()
	data := vvSave(t)
	segs := vvSegs(data)
	mode := vvInt(vvParam("t0", 0), vvParam("t1", 2))
	i := vvInt(0, len(segs)-1)
	sg := segs[i]
	n := sg.hi - sg.lo
	var off int
	if sg.body {
		off = []int{0, 1, n / 2, n - 1}[vvInt(0, 3)]
	} else {
		off = vvInt(0, n-1)
	}
	cut := sg.lo + off
	r := &vvSlow{data: data[:cut], step: 1 << 20}
	if vvParam("slow", 0) != 0 {
		r.step = 1
	}
	switch mode {
	case 0:
		vvCover("cut off")
	case 1:
		r.err = errors.New("read failed")
		vvCover("read error")
	case 2:
		r.err = errors.New("read failed")
		r.with = true
		vvCover("read error with data")
	case 3:
		// complete data, then an I/O error instead of the end
		r.data = data
		r.err = errors.New("read failed")
		r.with = vvBool()
		vvCover("read error at the end")
	}
	t2, err := NewTreeFromState(r)
	vvAssert(err != nil, "incomplete state data is rejected")
	vvAssert(t2 == nil, "no tree is returned with an error")
	// the complete data are accepted
	t3, err := NewTreeFromState(&vvSlow{data: data, step: 1 << 20})
	vvAssert(err == nil, "complete state data are accepted")
	if vvParam("full", 0) != 0 {
		vvCheckKeys(t3, m)
	}
	vvCover("end")
}

// vvH_mangled (C22): a header line is malformed, missing or replaced.
func vvH_mangled() {
	t, _ := vvTornTree()
	data := vvSave(t)
	segs := vvSegs(data)
	// lines only
	var lines []vvSeg
	for _, s := range segs {
		if !s.body {
			lines = append(lines, s)
		}
	}
	li := vvInt(vvParam("li0", 0), vvMinInt(vvParam("li1", 99), len(lines)-1))
	sg := lines[li]
	line := data[sg.lo:sg.hi]
	must := true
	var rep []byte
	sp := bytes.IndexByte(line, ' ')
	mode := vvInt(vvParam("g0", 0), vvParam("g1", 7))
	switch mode {
	case 0: // missing
		rep = nil
		if sp > 0 && string(line[:sp]) == "compression" {
			return // only says what the next line implies
		}
	case 1: // no value
		if sp < 0 {
			sp = 0
		}
		rep = append(append([]byte(nil), line[:sp]...), '\n')
		if len(rep) == 1 && len(line) == 1 {
			return
		}
	case 2: // not a number
		if sp < 0 {
			return
		}
		rep = append(append([]byte(nil), line[:sp+1]...), "1x\n"...)
	case 3: // too large for 64 bits
		if sp < 0 {
			return
		}
		rep = append(append([]byte(nil), line[:sp+1]...), "99999999999999999999\n"...)
	case 4: // negative
		if sp < 0 {
			return
		}
		rep = append(append([]byte(nil), line[:sp+1]...), "-1\n"...)
	case 5: // unknown header
		if sp < 0 {
			return
		}
		rep = append([]byte("z"), line...)
	case 6: // an arbitrary byte instead of one of the line's bytes: no panic
		must = false
		rep = append([]byte(nil), line...)
		top := vvMinInt(len(rep)-1, vvParam("mpos", 12))
		if line[0] == 's' || line[0] == 'r' && line[1] == 'e' {
			// not the size of what follows: the opaque compressed block cannot
			// be cut at a symbolic place
			top = sp
		}
		rep[vvInt(0, top)] = vvByte()
	case 7: // large numbers
		if sp < 0 || line[0] == 'o' && line[1] == 'b' || line[0] == 'e' && line[1] == 'p' || line[0] == 'n' || line[0] == 'o' {
			return
		}
		// any 64-bit number is a possible root, so nothing can be said about it
		if line[0] == 'r' && line[1] == 'o' {
			return
		}
		rep = append(append([]byte(nil), line[:sp+1]...), "18446744073709551615\n"...)
	}
	mod := append(append(append([]byte(nil), data[:sg.lo]...), rep...), data[sg.hi:]...)
	t2, err := NewTreeFromState(&vvSlow{data: mod, step: 1 << 20})
	if must {
		vvAssert(err != nil, "a malformed header line is rejected")
		vvAssert(t2 == nil, "no tree is returned with an error")
	} else {
		vvAssert((err == nil) == (t2 != nil), "either a tree or an error is returned")
	}
	vvCover("end")
}

func vvMinInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// vvFailWriter fails at one write, partially or completely, and maybe later.
type vvFailWriter struct {
	at, n   int
	part    bool
	once    bool
	total   int
	busy    bool
	written int
}

func (w *vvFailWriter) Write(p []byte) (int, error) {
	vvAssert(!w.busy, "one write at a time")
	w.busy = true
	w.n++
	w.busy = false
	if w.n == w.at || w.n > w.at && w.at > 0 && !w.once {
		n := 0
		if w.part {
			n = len(p) / 2
		}
		w.written += n
		return n, errors.New("write failed")
	}
	w.written += len(p)
	return len(p), nil
}

// vvH_wfail (C23): the destination fails at an arbitrary write.
func vvH_wfail() {
	t := vvNewTree(vvInt(vvParam("a0", 1), vvParam("a1", 2)), true)
	m := &vvModel{}
	vvBulk(t, m, vvScaffoldC(vvInt(vvParam("s0", 3), vvParam("s1", vvParam("s0", 3)))))
	if n := vvParam("long", 0); n > 0 {
		vvBulkMore(t, m, vvLongKeys(vvInt(n, n+vvParam("longn", 0))))
	}
	if len(m.h) > 1 {
		vvDelKey(t, m, m.h[0].key)
	}
	t.Stop()
	// how many writes are there
	c := &vvFailWriter{}
	n, err := t.WriteState(c)
	vvAssert(err == nil, "WriteState succeeds if no write fails")
	vvAssert(n == c.written, "WriteState reports the number of bytes written")
	last := c.n
	f0 := 1
	if x := vvParam("fmax", 0); x > 0 && last > x {
		// many blocks: the first and the last writes
		i := vvInt(0, 2*x-1)
		f0 = 1 + i
		if i >= x {
			f0 = last - (2*x - 1 - i)
		}
	} else {
		f0 = vvInt(1, last)
	}
	w := &vvFailWriter{at: f0, part: vvInt(0, 1) == 1, once: vvInt(0, 1) == 1}
	_, err = t.WriteState(w)
	vvAssert(err != nil, "WriteState reports a failed write")
	vvCover("failed")
	// the tree is unchanged
	vvAssert(m.count(nil) == uint64(t.Len()), "WriteState does not change the tree")
	c2 := &vvFailWriter{}
	n2, err := t.WriteState(c2)
	vvAssert(err == nil && n2 == n, "WriteState can be repeated with the same result")
	t.Start()
	vvCheckKeys(t, m)
	if vvParam("use", 1) != 0 {
		vvPutKey(t, m, []byte{251}, 9)
		vvCheckKeys(t, m)
		vvCheckLen(t, m)
	}
	vvCover("end")
}
