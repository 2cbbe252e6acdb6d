package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// NDRec is one nondeterministic choice made on a path, in program order.
type NDRec struct {
	kind string
	t    *Term
	n    int // for "bytes": unused
}

type OutRec struct {
	label string
	v     Value
}

type deferRec struct {
	fn   Value // *FuncV or builtin
	args []Value
	call *ssa.CallCommon
}

type Frame struct {
	fn        *Func
	regs      []Value
	blk       int
	prev      int
	pc        int
	dst       int // register in the caller for the result, -1 none
	stay      bool
	defers    []deferRec
	panicking bool
	pval      Value
	recovered bool
	deferOf   int                                              // 1+index of the frame whose deferred call this is
	onRet     func(in *Interp, st *State, th *Thread, v Value) // engine continuation (must be stateless)
}

type tstatus int

const (
	tRun tstatus = iota
	tBlocked
	tDone
)

// waitCase describes one pending channel operation of a blocked thread.
type waitCase struct {
	ch   int
	send bool
	val  Value
	idx  int
}

type Thread struct {
	id      int
	frames  []*Frame
	status  tstatus
	why     string
	cases   []waitCase // when blocked on channels
	retry   bool       // re-execute the instruction when woken
	spin    bool       // disabled by Gosched in controlled mode
	ctl     bool       // controlled (vvGo) thread
	quies   bool
	nobj    int // objects allocated since vvJoin
	gosched int
	panics  []panicRec
}

type panicRec struct{}

func (t *Thread) top() *Frame { return t.frames[len(t.frames)-1] }

type pcNode struct {
	t    *Term
	next *pcNode
	n    int
}

type SwitchRec struct {
	At   int    // global yield counter
	To   int    // thread index
	Kind string // p preempt, g gosched, e end/start
}

type State struct {
	tok     *Token
	heap    PVec
	nobj    int
	pcs     *pcNode
	lits    PVec
	doms    PVec // byte variable -> *mask256
	claims  []*Term
	model   *Model
	threads []*Thread
	cur     int
	nd      []NDRec
	outs    []OutRec
	covers  map[string]bool
	steps   int64
	forks   int
	asserts int
	gos     int // consecutive fruitless Gosched calls

	// controlled scheduling
	yields   int
	preempt  int
	switches []SwitchRec
	lastSync int
	base     *baseSnap // state at vvJoin
	hashed   bool
	marks    []*int32
	viol     string
	msgs     []string
}

func (st *State) clone() *State {
	st.tok = new(Token)
	ns := *st
	ns.tok = new(Token)
	ns.threads = make([]*Thread, len(st.threads))
	for i, t := range st.threads {
		if t.status == tDone {
			ns.threads[i] = t
			continue
		}
		nt := *t
		nt.frames = make([]*Frame, len(t.frames))
		for j, f := range t.frames {
			nf := *f
			nf.regs = append([]Value(nil), f.regs...)
			if len(f.defers) > 0 {
				nf.defers = append([]deferRec(nil), f.defers...)
			}
			nt.frames[j] = &nf
		}
		ns.threads[i] = &nt
	}
	ns.nd = st.nd[:len(st.nd):len(st.nd)]
	ns.claims = st.claims[:len(st.claims):len(st.claims)]
	st.claims = ns.claims
	ns.outs = st.outs[:len(st.outs):len(st.outs)]
	ns.switches = st.switches[:len(st.switches):len(st.switches)]
	ns.msgs = st.msgs[:len(st.msgs):len(st.msgs)]
	st.nd = ns.nd
	st.outs = ns.outs
	st.switches = ns.switches
	st.msgs = ns.msgs
	if len(st.covers) > 0 {
		m := make(map[string]bool, len(st.covers))
		for k := range st.covers {
			m[k] = true
		}
		ns.covers = m
	}
	return &ns
}

func (st *State) addPC(c *Term) {
	if c.isConst() {
		return
	}
	n := 1
	if st.pcs != nil {
		n = st.pcs.n + 1
	}
	st.pcs = &pcNode{c, st.pcs, n}
	st.setLit(c)
	st.absorb(c, 0)
	// conjunctions: their parts are literals too
	if c.op == OAnd {
		st.litConj(c, 0)
	} else if c.op == ONot && c.a.op == OOr {
		st.litDisjNeg(c.a, 0)
	}
}

func (st *State) litConj(c *Term, d int) {
	if d > 40 {
		return
	}
	if c.op == OAnd {
		st.litConj(c.a, d+1)
		st.litConj(c.b, d+1)
		return
	}
	st.setLit(c)
}

func (st *State) litDisjNeg(c *Term, d int) {
	if d > 40 {
		return
	}
	if c.op == OOr {
		st.litDisjNeg(c.a, d+1)
		st.litDisjNeg(c.b, d+1)
		return
	}
	st.setLit(mkNot(c))
}

func (st *State) setLit(c *Term) {
	if c.isConst() {
		return
	}
	if c.op == ONot {
		st.lits.set(st.tok, int(c.a.id), false)
	} else {
		st.lits.set(st.tok, int(c.id), true)
	}
}

// lit returns (value, known).
func (st *State) lit(c *Term) (bool, bool) {
	neg := false
	if c.op == ONot {
		c, neg = c.a, true
	}
	v := st.lits.get(int(c.id))
	if v == nil {
		return false, false
	}
	return v.(bool) != neg, true
}

// slice returns the path conditions connected to the variables of c.
func (st *State) slice(c *Term) []*Term {
	vars := map[int32]bool{}
	for _, v := range c.vs {
		vars[v] = true
	}
	var all []*Term
	for n := st.pcs; n != nil; n = n.next {
		all = append(all, n.t)
	}
	used := make([]bool, len(all))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, t := range all {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range t.vs {
				if vars[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, t)
				for _, v := range t.vs {
					vars[v] = true
				}
			}
		}
	}
	return out
}

func (st *State) allPC() []*Term {
	var all []*Term
	for n := st.pcs; n != nil; n = n.next {
		all = append(all, n.t)
	}
	return all
}

// withModel returns a model updated with the given assignments.
func (m *Model) with(upd map[int32]uint64) *Model {
	max := 0
	if m != nil {
		max = len(m.v)
	}
	for id := range upd {
		if int(id)+1 > max {
			max = int(id) + 1
		}
	}
	nm := &Model{v: make([]uint64, max)}
	if m != nil {
		copy(nm.v, m.v)
	}
	for id, v := range upd {
		nm.v[id] = v
	}
	return nm
}

type MapData struct {
	kt, vt types.Type
	keys   []Value
	vals   []Value
	idx    map[string]int
}

type ChanData struct {
	capn   int
	buf    []Value
	closed bool
	et     types.Type
}
