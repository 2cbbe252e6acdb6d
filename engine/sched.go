package main

import (
	"fmt"
	"go/types"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// ---- threads ----

func (in *Interp) spawn(st *State, fvv Value, args []Value, ctl bool) *Thread {
	fv, ok := fvv.(*FuncV)
	if !ok || fv == nil || fv.bi != nil {
		unsup("go on %T", fvv)
	}
	cf := in.fn(fv.fn)
	if cf.intr != nil || cf.blocks == nil {
		unsup("go on %s", cf.name)
	}
	th := &Thread{id: len(st.threads), ctl: ctl}
	th.frames = []*Frame{in.newFrame(st, cf, args, fv.env, -1)}
	// appended to a fresh slice: clones may share the backing array
	st.threads = append(st.threads[:len(st.threads):len(st.threads)], th)
	return th
}

func (in *Interp) threadDone(st *State, th *Thread) {
	th.status = tDone
	th.frames = nil
	if th.id == 0 {
		panic(pathEnd{endDone, ""})
	}
	if th.ctl {
		st.gos = 0
		in.ctlNext(st, true)
		return
	}
	in.wakeRetry(st)
	in.pick(st, "")
}

func (in *Interp) wakeRetry(st *State) {
	for _, t := range st.threads {
		if t.status == tBlocked && t.retry {
			t.status = tRun
			t.retry = false
		}
	}
}

// block suspends th; when retry is set the instruction is executed again.
func (in *Interp) block(st *State, th *Thread, why string, cases []waitCase, retry bool) {
	th.status = tBlocked
	th.why = why
	th.cases = cases
	th.retry = retry
	in.pick(st, why)
}

// pick chooses the next thread when the current one cannot continue.
func (in *Interp) pick(st *State, why string) {
	n := len(st.threads)
	if tk := st.token(); tk > 0 && st.threads[tk].status == tDone {
		in.ctlNext(st, true)
		return
	}
	// quiescing threads wake up only when nothing else can run
	var cand []int
	for k := 1; k <= n; k++ {
		j := (st.cur + k) % n
		t := st.threads[j]
		if t.status == tRun && !t.quies && !t.spin && !(t.ctl && j != st.token()) {
			cand = append(cand, j)
		}
	}
	// a controlled thread holding the token continues first once it can
	if tk := st.token(); tk > 0 {
		t := st.threads[tk]
		if t.status == tRun {
			st.cur = tk
			return
		}
	}
	if len(cand) == 0 {
		for j, t := range st.threads {
			if t.status == tRun && t.quies {
				t.quies = false
				st.cur = j
				return
			}
		}
		msg := "deadlock: no goroutine can continue;"
		for _, t := range st.threads {
			if t.status == tBlocked {
				msg += fmt.Sprintf(" g%d blocked on %s;", t.id, t.why)
			}
		}
		in.violation(st, msg)
	}
	j := cand[0]
	if in.cfg.SchedChoice > 0 && len(cand) > 1 && st.preempt < in.cfg.SchedChoice {
		// symbolic choice of the next runnable goroutine
		j = in.choose(st, cand)
		if j != cand[0] {
			st.preempt++
		}
		st.yields++
	}
	st.cur = j
}

// token is the index of the controlled thread allowed to run (0: none).
func (st *State) token() int { return st.lastSync }

// ---- controlled scheduling ----

// ctlJoin starts the controlled phase; main waits until all controlled
// threads are done.
func (in *Interp) ctlNext(st *State, ended bool) {
	var cand []int
	alive := 0
	for j, t := range st.threads {
		if t.ctl && t.status != tDone {
			alive++
			if !t.spin {
				cand = append(cand, j)
			}
		}
	}
	if !st.hashed {
		st.hashed = true // once, also when the choice below forks
		in.mergeOrGo(st)
	}
	if alive == 0 {
		st.hashed = false
		st.lastSync = 0
		st.threads[0].status = tRun
		st.threads[0].retry = false
		st.cur = 0
		return
	}
	if len(cand) == 0 {
		for j, t := range st.threads {
			if t.ctl && t.status != tDone {
				t.spin = false
				cand = append(cand, j)
			}
		}
	}
	j := in.choose(st, cand)
	st.switchTo(j, "e")
}

func (st *State) switchTo(j int, kind string) {
	st.switches = append(st.switches, SwitchRec{st.yields, j, kind})
	st.lastSync = j
	st.cur = j
	st.hashed = false
}

// choose picks one of cand through symbolic choice variables.
func (in *Interp) choose(st *State, cand []int) int {
	for k := 0; k < len(cand)-1; k++ {
		v := mkVar(fmt.Sprintf("next%d_%d_%d", st.yields, len(st.switches), cand[k]), 0)
		if in.decide(st, mkNot(v)) {
			return cand[k]
		}
	}
	return cand[len(cand)-1]
}

// yieldPoint is executed before an instrumented shared access.
func (in *Interp) yieldPoint(c *ictx, p Ptr, write, wakes bool) bool {
	st, th := c.st, c.th
	if !th.ctl || st.lastSync == 0 {
		return false
	}
	loc := in.locOf(st, p)
	conflict := in.access(loc, th.id, write)
	if conflict && st.preempt < in.cfg.Preempt {
		var cand []int
		for j, t := range st.threads {
			if t.ctl && j != th.id && t.status != tDone && !t.spin {
				cand = append(cand, j)
			}
		}
		if len(cand) > 0 {
			v := mkVar(fmt.Sprintf("preempt%d", st.yields+1), 0)
			if !in.decide(st, mkNot(v)) {
				j := in.choose(st, cand)
				st.yields++
				st.preempt++
				if write {
					// the write itself happens later; nothing to wake yet
				}
				st.switchTo(j, "p")
				in.mergeOrGo(st)
				return true
			}
		}
	}
	st.yields++
	if wakes {
		st.wake(th)
	}
	return false
}

// wake lets the goroutines which wait for a change look again.
func (st *State) wake(th *Thread) {
	for _, t := range st.threads {
		if t.ctl && t.id != th.id && t.spin {
			t.spin = false
		}
	}
}

// ctlGosched: the thread gives up its turn until others made progress.
func (in *Interp) ctlGosched(st *State, th *Thread) {
	var cand []int
	for j, t := range st.threads {
		if t.ctl && j != th.id && t.status != tDone && !t.spin {
			cand = append(cand, j)
		}
	}
	if len(cand) > 0 {
		j := in.choose(st, cand)
		st.yields++
		th.spin = true
		st.switchTo(j, "g")
		in.mergeOrGo(st) // also ends waiting in turns forever
		return
	}
	// every other live thread waits too: round robin, bounded
	if st.gos+1 > 24 {
		in.violation(st, "livelock: every goroutine waits for the others forever")
	}
	st.gos++
	st.yields++
	n := len(st.threads)
	for k := 1; k <= n; k++ {
		j := (th.id + k) % n
		t := st.threads[j]
		if t.ctl && t.status != tDone {
			t.spin = false
			if j != th.id {
				th.spin = true
			}
			st.switchTo(j, "g")
			return
		}
	}
}

// locTable records which threads access which locations. A location is part of
// the conflict set of a round if several threads accessed it, one of them
// writing, in the rounds before.
type locTable struct {
	m sync.Map // locKey -> *locInfo
}

type locKey struct {
	name string
	obj  int
	off  int64
}

type locInfo struct {
	threads, writers uint32
	conflict         bool // frozen for this round
}

func newLocTable() *locTable { return &locTable{} }

func (in *Interp) access(key locKey, th int, write bool) bool {
	l := in.cfg.locs
	if in.locs != l {
		in.locs, in.locCache = l, map[locKey]*locInfo{}
	}
	li := in.locCache[key]
	if li == nil {
		x, ok := l.m.Load(key)
		if !ok {
			x, _ = l.m.LoadOrStore(key, &locInfo{})
		}
		li = x.(*locInfo)
		in.locCache[key] = li
	}
	bit := uint32(1) << uint(th)
	if atomic.LoadUint32(&li.threads)&bit == 0 {
		atomic.OrUint32(&li.threads, bit)
	}
	if write && atomic.LoadUint32(&li.writers)&bit == 0 {
		atomic.OrUint32(&li.writers, bit)
	}
	return li.conflict
}

// freeze recomputes the conflict set; it reports whether it grew.
func (l *locTable) freeze() bool {
	grew := false
	l.m.Range(func(_, x interface{}) bool {
		li := x.(*locInfo)
		c := li.writers != 0 && li.threads&(li.threads-1) != 0
		if c && !li.conflict {
			li.conflict = true
			grew = true
		}
		return true
	})
	return grew
}

func (l *locTable) conflicts() int {
	n := 0
	l.m.Range(func(_, x interface{}) bool {
		if x.(*locInfo).conflict {
			n++
		}
		return true
	})
	return n
}

func (in *Interp) locOf(st *State, p Ptr) locKey {
	if p.Obj == 0 {
		return locKey{name: "nil"}
	}
	o := st.obj(p.Obj)
	if p.Idx != nil {
		return locKey{o.name, int(p.Obj), -1}
	}
	return locKey{o.name, int(p.Obj), int64(p.Off)}
}

// ---- channels ----

func (st *State) chanData(id int) *ChanData { return st.obj(id).extra.(*ChanData) }

func (st *State) setChan(id int, d *ChanData) { st.wobj(id).extra = d }

// blockedOn finds a blocked thread with a pending operation on ch.
func (st *State) blockedOn(ch int, send bool) (*Thread, waitCase) {
	for k := 1; k <= len(st.threads); k++ {
		t := st.threads[(st.cur+k)%len(st.threads)]
		if t.status != tBlocked || t.retry {
			continue
		}
		for _, c := range t.cases {
			if c.ch == ch && c.send == send {
				return t, c
			}
		}
	}
	return nil, waitCase{}
}

// complete finishes the pending operation of a blocked thread.
func (in *Interp) complete(st *State, t *Thread, c waitCase, v Value, ok bool) {
	f := t.top()
	ins := &f.fn.blocks[f.blk][f.pc]
	switch i := ins.in.(type) {
	case *ssa.UnOp:
		if i.CommaOk {
			f.regs[ins.dst] = TupleV{v, mkBool(ok)}
		} else {
			f.regs[ins.dst] = v
		}
	case *ssa.Send:
	case *ssa.Select:
		f.regs[ins.dst] = in.selectResult(i, c.idx, v, ok)
	}
	f.pc++
	t.status = tRun
	t.cases = nil
	t.why = ""
}

func (in *Interp) selectResult(i *ssa.Select, idx int, v Value, ok bool) Value {
	tt := i.Type().(*types.Tuple)
	r := make(TupleV, tt.Len())
	r[0] = mkConst(64, uint64(int64(idx)))
	r[1] = mkBool(ok)
	k := 2
	for j, s := range i.States {
		if s.Dir == types.RecvOnly {
			if j == idx {
				r[k] = v
			} else {
				r[k] = zeroOf(tt.At(k).Type())
			}
			k++
		}
	}
	return r
}

// tryRecv returns (value, ok, done).
func (in *Interp) tryRecv(st *State, id int) (Value, bool, bool) {
	d := st.chanData(id)
	if len(d.buf) > 0 {
		v := d.buf[0]
		nd := *d
		nd.buf = append([]Value(nil), d.buf[1:]...)
		if t, c := st.blockedOn(id, true); t != nil {
			nd.buf = append(nd.buf, c.val)
			in.complete(st, t, c, nil, true)
		}
		st.setChan(id, &nd)
		return v, true, true
	}
	if t, c := st.blockedOn(id, true); t != nil {
		v := c.val
		in.complete(st, t, c, nil, true)
		return v, true, true
	}
	if d.closed {
		return zeroOf(d.et), false, true
	}
	return nil, false, false
}

func (in *Interp) trySend(st *State, id int, v Value) bool {
	d := st.chanData(id)
	if d.closed {
		rtPanic("send on closed channel")
	}
	if t, c := st.blockedOn(id, false); t != nil {
		in.complete(st, t, c, v, true)
		return true
	}
	if len(d.buf) < d.capn {
		nd := *d
		nd.buf = append(append([]Value(nil), d.buf...), v)
		st.setChan(id, &nd)
		return true
	}
	return false
}

func (in *Interp) chanRecv(st *State, th *Thread, f *Frame, ins *instr, ch ChanV, commaOk bool) {
	if ch.Obj == 0 {
		in.block(st, th, "receive from nil channel", nil, false)
		return
	}
	v, ok, done := in.tryRecv(st, ch.Obj)
	if !done {
		in.block(st, th, "channel receive in "+shortName(f.fn.name), []waitCase{{ch: ch.Obj}}, false)
		return
	}
	if commaOk {
		f.regs[ins.dst] = TupleV{v, mkBool(ok)}
	} else {
		f.regs[ins.dst] = v
	}
	f.pc++
}

func (in *Interp) chanSend(st *State, th *Thread, f *Frame, ins *instr, ch ChanV, v Value) {
	if ch.Obj == 0 {
		in.block(st, th, "send to nil channel", nil, false)
		return
	}
	if !in.trySend(st, ch.Obj, v) {
		in.block(st, th, "channel send in "+shortName(f.fn.name), []waitCase{{ch: ch.Obj, send: true, val: v}}, false)
		return
	}
	f.pc++
}

func (in *Interp) chanClose(st *State, ch ChanV) {
	if ch.Obj == 0 {
		rtPanic("close of nil channel")
	}
	d := st.chanData(ch.Obj)
	if d.closed {
		rtPanic("close of closed channel")
	}
	nd := *d
	nd.closed = true
	st.setChan(ch.Obj, &nd)
	for {
		t, c := st.blockedOn(ch.Obj, false)
		if t == nil {
			break
		}
		in.complete(st, t, c, zeroOf(d.et), false)
	}
	if t, _ := st.blockedOn(ch.Obj, true); t != nil {
		in.violation(st, "panic: send on closed channel")
	}
}

func (in *Interp) selectOp(st *State, th *Thread, f *Frame, ins *instr, i *ssa.Select) {
	// operands: for each state: Chan, (Send)
	type cs struct {
		ch   ChanV
		send bool
		val  Value
	}
	var cases []cs
	k := 0
	for _, s := range i.States {
		c := cs{}
		c.ch = f.get(&ins.ops[k]).(ChanV)
		k++
		if s.Dir == types.SendOnly {
			c.send = true
			c.val = f.get(&ins.ops[k])
		}
		k++
		cases = append(cases, c)
	}
	for j, c := range cases {
		if c.ch.Obj == 0 {
			continue
		}
		if c.send {
			if in.trySend(st, c.ch.Obj, c.val) {
				f.regs[ins.dst] = in.selectResult(i, j, nil, false)
				f.pc++
				return
			}
		} else {
			v, ok, done := in.tryRecv(st, c.ch.Obj)
			if done {
				f.regs[ins.dst] = in.selectResult(i, j, v, ok)
				f.pc++
				return
			}
		}
	}
	if !i.Blocking {
		f.regs[ins.dst] = in.selectResult(i, -1, nil, false)
		f.pc++
		return
	}
	var ws []waitCase
	for j, c := range cases {
		if c.ch.Obj != 0 {
			ws = append(ws, waitCase{ch: c.ch.Obj, send: c.send, val: c.val, idx: j})
		}
	}
	in.block(st, th, "select in "+shortName(f.fn.name), ws, false)
}
