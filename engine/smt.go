package main

// SMT back end: a persistent z3 process fed incrementally with SMT-LIB 2.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type Solver struct {
	bin       []string
	cmd       *exec.Cmd
	in        *bufio.Writer
	inc       io.WriteCloser
	out       *bufio.Reader
	defined   map[*Term]string
	nd        int
	timeoutMS int
	recent    [24]*Model
	nrecent   int
	xcheck    *Solver // optional second solver
	logf      io.Writer
}

type cacheEnt struct {
	ts  []*Term
	res SatRes
	mod map[int32]uint64
}

type SolverStats struct {
	Queries, Sat, Unsat, Unknown, CacheHits, ModelHits, LitHits int64
	Nanos                                                       int64
	XChecked, XDisagree                                         int64
	Errors                                                      int64
}

var SS SolverStats

func newSolver(bin ...string) *Solver {
	return &Solver{bin: bin, timeoutMS: 20000}
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %v: %v", s.bin, err))
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[*Term]string{}
	s.nd = 0
	if strings.Contains(s.bin[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeoutMS)
	}
	fmt.Fprintf(s.in, "(set-option :produce-models true)\n(set-logic ALL)\n")
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Flush()
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
	if s.xcheck != nil {
		s.xcheck.close()
	}
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.k == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OSlt: "bvslt", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat"}

// ref returns a name (or inline text) for t, defining it first if needed.
func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		return constStr(t)
	}
	if n, ok := s.defined[t]; ok {
		return n
	}
	var n string
	if t.op == OVar {
		n = fmt.Sprintf("v%d", t.k)
		fmt.Fprintf(s.in, "(declare-const %s %s)\n", n, sortOf(t.w))
	} else {
		var body string
		switch t.op {
		case OExtract:
			body = fmt.Sprintf("((_ extract %d %d) %s)", uint8(t.k)+t.w-1, t.k, s.ref(t.a))
		case OSext:
			body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
		default:
			parts := []string{opNames[t.op]}
			for _, x := range []*Term{t.a, t.b, t.c} {
				if x != nil {
					parts = append(parts, s.ref(x))
				}
			}
			body = "(" + strings.Join(parts, " ") + ")"
		}
		n = fmt.Sprintf("t%d", s.nd)
		s.nd++
		fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", n, sortOf(t.w), body)
	}
	s.defined[t] = n
	return n
}

type qshard struct {
	mu sync.RWMutex
	m  map[uint64][]cacheEnt
	n  int
}

var qcache [64]qshard

func (q *qshard) put(h uint64, e cacheEnt) {
	q.mu.Lock()
	if q.m == nil || q.n > 40000 {
		q.m = map[uint64][]cacheEnt{}
		q.n = 0
	}
	q.n++
	old := q.m[h]
	q.m[h] = append(old[:len(old):len(old)], e)
	q.mu.Unlock()
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	// mostly the same order
	same := true
	for i := range a {
		if a[i] != b[i] {
			same = false
			break
		}
	}
	if same {
		return true
	}
	set := make(map[*Term]bool, len(a))
	for _, t := range a {
		set[t] = true
	}
	for _, t := range b {
		if !set[t] {
			return false
		}
	}
	return true
}

// check decides the conjunction of ts.
func (s *Solver) check(ts []*Term) (SatRes, map[int32]uint64) {
	var h uint64
	for _, t := range ts {
		if t.isConst() {
			if t.k == 0 {
				return Unsat, nil
			}
			continue
		}
		x := t.id * 0x9e3779b97f4a7c15
		h += x ^ x>>31
	}
	sh := &qcache[h>>58]
	sh.mu.RLock()
	ents := sh.m[h]
	sh.mu.RUnlock()
	for _, e := range ents {
		if sameTerms(e.ts, ts) {
			atomic.AddInt64(&SS.CacheHits, 1)
			return e.res, e.mod
		}
	}
	// a recent model may already satisfy the query
	for k := range s.recent {
		m := s.recent[(s.nrecent-1-k+2*len(s.recent))%len(s.recent)]
		if m == nil {
			break
		}
		ok := true
		for i := len(ts) - 1; i >= 0; i-- {
			if evalTerm(ts[i], m) == 0 {
				ok = false
				break
			}
		}
		if ok {
			mod := map[int32]uint64{}
			for _, t := range ts {
				for _, v := range t.vs {
					mod[v] = m.get(uint64(v))
				}
			}
			atomic.AddInt64(&SS.ModelHits, 1)
			sh.put(h, cacheEnt{append([]*Term(nil), ts...), Sat, mod})
			return Sat, mod
		}
	}
	r, m := s.raw(ts)
	if r != Unknown {
		sh.put(h, cacheEnt{append([]*Term(nil), ts...), r, m})
	}
	if r == Sat && len(m) > 0 {
		s.recent[s.nrecent%len(s.recent)] = (*Model)(nil).with(m)
		s.nrecent = (s.nrecent + 1) % len(s.recent)
	}
	if s.xcheck != nil && r != Unknown {
		r2, _ := s.xcheck.raw(ts)
		atomic.AddInt64(&SS.XChecked, 1)
		if r2 != Unknown && r2 != r {
			atomic.AddInt64(&SS.XDisagree, 1)
		}
	}
	return r, m
}

func (s *Solver) raw(ts []*Term) (res SatRes, mod map[int32]uint64) {
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&SS.Nanos, int64(time.Since(t0)))
		atomic.AddInt64(&SS.Queries, 1)
		switch res {
		case Sat:
			atomic.AddInt64(&SS.Sat, 1)
		case Unsat:
			atomic.AddInt64(&SS.Unsat, 1)
		default:
			atomic.AddInt64(&SS.Unknown, 1)
		}
	}()
	if s.cmd == nil || s.nd > 200000 {
		s.close2()
		s.start()
	}
	var names []string
	var vs []int32
	for _, t := range ts {
		names = append(names, s.ref(t))
		vs = mergeVars(vs, t.vs)
	}
	fmt.Fprintf(s.in, "(push 1)\n")
	for _, n := range names {
		fmt.Fprintf(s.in, "(assert %s)\n", n)
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.close2()
		atomic.AddInt64(&SS.Errors, 1)
		return Unknown, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.close2()
		atomic.AddInt64(&SS.Errors, 1)
		return Unknown, nil
	}
	switch line {
	case "unsat":
		res = Unsat
	case "sat":
		res = Sat
	case "unknown", "timeout":
		res = Unknown
	default:
		// (error ...) : inconclusive
		atomic.AddInt64(&SS.Errors, 1)
		s.close2()
		return Unknown, nil
	}
	if res == Sat && len(vs) > 0 {
		fmt.Fprintf(s.in, "(get-value (")
		for _, v := range vs {
			fmt.Fprintf(s.in, "v%d ", v)
		}
		fmt.Fprintf(s.in, "))\n")
		s.in.Flush()
		txt, err := s.readSexp()
		if err != nil {
			s.close2()
			return Unknown, nil
		}
		mod = parseModel(txt)
	} else if res == Sat {
		mod = map[int32]uint64{}
	}
	fmt.Fprintf(s.in, "(pop 1)\n")
	return res, mod
}

func (s *Solver) close2() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		sb.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 && strings.TrimSpace(sb.String()) != "" {
			return sb.String(), nil
		}
	}
}

func parseModel(txt string) map[int32]uint64 {
	m := map[int32]uint64{}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	for i := 0; i+1 < len(f); {
		name := f[i]
		if len(name) < 2 || name[0] != 'v' {
			i++
			continue
		}
		id, err := strconv.Atoi(name[1:])
		if err != nil {
			i++
			continue
		}
		val := f[i+1]
		var v uint64
		switch {
		case val == "true":
			v = 1
		case val == "false":
			v = 0
		case strings.HasPrefix(val, "#x"):
			v, _ = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			v, _ = strconv.ParseUint(val[2:], 2, 64)
		case val == "_" && i+2 < len(f) && strings.HasPrefix(f[i+2], "bv"):
			v, _ = strconv.ParseUint(f[i+2][2:], 10, 64)
			i += 2
		}
		m[int32(id)] = v
		i += 2
	}
	return m
}
