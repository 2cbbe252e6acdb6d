package main

import (
	"encoding/hex"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type RunCfg struct {
	MaxSteps    int64
	SchedChoice int
	Preempt     int
	NumCPU      int
	Params      map[string]int
	MaxPaths    int64
	Deadline    time.Time
	Samples     int
	Seed        int64
	Inst        bool
	Known       func(msg, where string) bool
	locs        *locTable
	seen        *seenTable
	noteMu      sync.Mutex
	notes       map[string]int
}

func (c *RunCfg) note(s string) {
	c.noteMu.Lock()
	if c.notes == nil {
		c.notes = map[string]int{}
	}
	c.notes[s]++
	c.noteMu.Unlock()
}

type workQueue struct {
	mu      sync.Mutex
	cond    *sync.Cond
	items   []*State
	busy    int
	stop    int32
	pending int64
}

func newQueue() *workQueue {
	q := &workQueue{}
	q.cond = sync.NewCond(&q.mu)
	return q
}

func (q *workQueue) push(s *State) {
	q.mu.Lock()
	q.items = append(q.items, s)
	q.mu.Unlock()
	q.cond.Signal()
}

func (q *workQueue) pop() *State {
	q.mu.Lock()
	defer q.mu.Unlock()
	for {
		if atomic.LoadInt32(&q.stop) != 0 {
			return nil
		}
		if n := len(q.items); n > 0 {
			s := q.items[n-1]
			q.items[n-1] = nil
			q.items = q.items[:n-1]
			q.busy++
			return s
		}
		if q.busy == 0 {
			q.cond.Broadcast()
			return nil
		}
		q.cond.Wait()
	}
}

func (q *workQueue) done() {
	q.mu.Lock()
	q.busy--
	q.mu.Unlock()
	q.cond.Broadcast()
}

func (q *workQueue) halt() {
	atomic.StoreInt32(&q.stop, 1)
	q.cond.Broadcast()
}

func (q *workQueue) stopped() bool { return atomic.LoadInt32(&q.stop) != 0 }

// Case is a concrete instance of a path: input values and schedule.
type Case struct {
	Harness  string         `json:"harness"`
	Inst     bool           `json:"inst"`
	Params   map[string]int `json:"params"`
	ND       []uint64       `json:"nd"`
	Kinds    []string       `json:"kinds,omitempty"`
	Switches []SwitchRec    `json:"switches,omitempty"`
	Outs     []string       `json:"outs,omitempty"`
	Expect   string         `json:"expect,omitempty"`
	Where    string         `json:"where,omitempty"`
}

type Result struct {
	Harness    string
	Paths      int64
	Done       int64
	Killed     int64
	Merged     int64
	whole      int64
	Unsup      map[string]int
	Limits     map[string]int
	Violations []*Case
	ViolCount  int
	Samples    []*Case
	Covers     map[string]int
	Stats      Stats
	Complete   bool
	Rounds     int
	Conflicts  int
	Wall       time.Duration
	Switches   int64
	MaxForks   int
	Asserts    int64
}

func evalOut(o OutRec, m *Model) string {
	return o.label + "=" + evalVal(o.v, m)
}

func evalVal(v Value, m *Model) string {
	switch x := v.(type) {
	case *Term:
		return fmt.Sprint(evalTerm(x, m))
	case StrV:
		var sb strings.Builder
		for i := 0; i < x.Len(); i++ {
			if t, ok := x.at(i).(*Term); ok {
				sb.WriteByte(byte(evalTerm(t, m)))
			} else {
				sb.WriteByte('?')
			}
		}
		return hex.EncodeToString([]byte(sb.String()))
	}
	return fmt.Sprintf("%T", v)
}

func caseOf(st *State, name string, cfg *RunCfg) *Case {
	c := &Case{Harness: name, Params: cfg.Params, Inst: cfg.Inst}
	ord := map[int]int{}
	for i, t := range st.threads {
		if t.ctl {
			ord[i] = len(ord)
		}
	}
	for _, r := range st.nd {
		c.ND = append(c.ND, evalTerm(r.t, st.model))
		c.Kinds = append(c.Kinds, r.kind)
	}
	for _, w := range st.switches {
		w.To = ord[w.To]
		c.Switches = append(c.Switches, w)
	}
	for _, o := range st.outs {
		c.Outs = append(c.Outs, evalOut(o, st.model))
	}
	return c
}

// confirmPath makes sure that the model of a finished path satisfies the whole
// path condition.
func (in *Interp) confirmPath(st *State) bool {
	good := true
	for n := st.pcs; n != nil && good; n = n.next {
		good = evalTerm(n.t, st.model) == 1
	}
	if good {
		return true
	}
	atomic.AddInt64(&modelRepairs, 1)
	res, mod := in.solver.raw(st.allPC())
	if res == Sat {
		st.model = st.model.with(mod)
	}
	return res != Unsat
}

var modelRepairs int64

// explore runs all paths of the harness function fn.
func (sh *Shared) explore(fn *ssa.Function, cfg *RunCfg, solvers []*Solver) *Result {
	t0 := time.Now()
	sh.cfg = cfg
	res := &Result{Harness: fn.Name(), Unsup: map[string]int{}, Limits: map[string]int{}, Covers: map[string]int{}}
	maxRounds := 1
	if cfg.Preempt > 0 {
		maxRounds = 5
	}
	cfg.locs = newLocTable()
	want := cfg.Preempt
	defer func() { cfg.Preempt = want }()
	if want > 1 {
		// first find the conflicting accesses with one preemption
		cfg.Preempt = 1
		maxRounds += 4
	}
	for round := 0; round < maxRounds; round++ {
		res.Rounds++
		r := sh.exploreRound(fn, cfg, solvers)
		res.merge(r)
		if len(r.Violations) > 0 {
			break
		}
		if !r.Complete {
			res.Complete = false
			break
		}
		res.Complete = true
		if want == 0 {
			break
		}
		if !cfg.locs.freeze() {
			if cfg.Preempt == want {
				break
			}
			cfg.Preempt = want
		}
		res.Complete = false
		res.Samples = nil
	}
	res.Conflicts = cfg.locs.conflicts()
	res.Wall = time.Since(t0)
	return res
}

func (a *Result) merge(b *Result) {
	a.Paths += b.Paths
	a.Done = b.Done
	a.Merged = b.Merged
	a.Killed = b.Killed
	a.Unsup = b.Unsup
	a.Limits = b.Limits
	a.Violations = b.Violations
	a.ViolCount = b.ViolCount
	a.Samples = b.Samples
	a.Covers = b.Covers
	a.Stats.instrs += b.Stats.instrs
	a.Stats.forks += b.Stats.forks
	a.Stats.decisions += b.Stats.decisions
	a.Stats.unknown += b.Stats.unknown
	a.Asserts += b.Asserts
	a.Switches = b.Switches
	if b.MaxForks > a.MaxForks {
		a.MaxForks = b.MaxForks
	}
}

func (sh *Shared) exploreRound(fn *ssa.Function, cfg *RunCfg, solvers []*Solver) *Result {
	res := &Result{Unsup: map[string]int{}, Limits: map[string]int{}, Covers: map[string]int{}}
	q := newQueue()
	sh.q = q
	if cfg.Preempt > 0 && !noMerge {
		cfg.seen = &seenTable{}
	}
	st := sh.initSt.clone()
	cf := sh.fn(fn)
	st.threads = []*Thread{{id: 0}}
	boot := &Interp{Shared: sh}
	st.threads[0].frames = []*Frame{boot.newFrame(st, cf, nil, nil, -1)}
	st.nd, st.outs, st.switches = nil, nil, nil
	q.push(st)
	var mu sync.Mutex
	tStart := processStart
	timer := time.AfterFunc(time.Until(cfg.Deadline), func() { q.halt() })
	defer timer.Stop()
	over := make(chan bool)
	defer close(over)
	go func() { // memory is limited, too
		for {
			select {
			case <-over:
				return
			case <-time.After(2 * time.Second):
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 14<<30 {
				q.halt()
				return
			}
		}
	}()
	var wg sync.WaitGroup
	aborted := false
	newViol := 0
	viol := map[string]int{}
	rng := uint64(cfg.Seed)*0x9e3779b97f4a7c15 + 12345
	for i, s := range solvers {
		wg.Add(1)
		go func(i int, s *Solver) {
			defer wg.Done()
			in := &Interp{Shared: sh, solver: s, id: i}
			for {
				st := q.pop()
				if st == nil {
					break
				}
				end := in.run(st)
				if end.kind == endStop {
					mu.Lock()
					aborted = true
					mu.Unlock()
					q.done()
					break
				}
				if (end.kind == endDone || end.kind == endMerged || end.kind == endViolation) && !in.confirmPath(st) {
					end.kind, end.msg = endUnsupported, "internal: the path condition is not satisfiable"
				}
				if end.kind == endDone || end.kind == endMerged {
					in.certify(st, time.Since(tStart))
				}
				mu.Lock()
				res.Paths++
				if st.forks > res.MaxForks {
					res.MaxForks = st.forks
				}
				res.Switches += int64(len(st.switches))
				switch end.kind {
				case endDone:
					res.Done++
					res.whole++
					for c := range st.covers {
						res.Covers[c]++
					}
					if cfg.Samples > 0 {
						if len(res.Samples) < cfg.Samples {
							res.Samples = append(res.Samples, caseOf(st, fn.Name(), cfg))
						} else {
							rng = rng*6364136223846793005 + 1442695040888963407
							if k := (rng >> 33) % uint64(res.whole); k < uint64(cfg.Samples) {
								res.Samples[k] = caseOf(st, fn.Name(), cfg)
							}
						}
					}
				case endMerged:
					res.Done++
					res.Merged++
					for c := range st.covers {
						res.Covers[c]++
					}
				case endAssume:
					res.Killed++
				case endUnsupported:
					res.Unsup[end.msg]++
				case endLimit:
					res.Limits[end.msg]++
				case endViolation:
					for _, m := range st.marks {
						atomic.StoreInt32(m, 1)
					}
					where := in.where(st)
					key := stripDigits(end.msg)
					if cfg.Known != nil && cfg.Known(end.msg, where) {
						key = "known " + key
					} else {
						res.ViolCount++
						newViol++
					}
					if viol[key] < 3 {
						viol[key]++
						c := caseOf(st, fn.Name(), cfg)
						c.Expect = end.msg
						c.Where = where
						res.Violations = append(res.Violations, c)
					}
					if newViol >= 12 || res.ViolCount >= 40 {
						q.halt()
					}
				}
				if cfg.MaxPaths > 0 && res.Paths >= cfg.MaxPaths {
					q.halt()
				}
				mu.Unlock()
				q.done()
			}
			mu.Lock()
			res.Stats.instrs += in.local.instrs
			res.Stats.forks += in.local.forks
			res.Stats.decisions += in.local.decisions
			res.Stats.unknown += in.local.unknown
			res.Asserts += in.local.asserts
			mu.Unlock()
		}(i, s)
	}
	wg.Wait()
	res.Complete = !aborted && !q.stopped() && len(res.Unsup) == 0 && len(res.Limits) == 0 && res.Stats.unknown == 0
	sort.Slice(res.Violations, func(i, j int) bool { return len(res.Violations[i].ND) < len(res.Violations[j].ND) })
	return res
}

func stripDigits(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r < '0' || r > '9' {
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

var noMerge = os.Getenv("VV_NOMERGE") != ""
