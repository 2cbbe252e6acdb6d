package radix

// Native bodies of the harness API. The symbolic engine replaces every
// function named vv* below by its own implementation; natively they replay a
// recorded case.

import (
	"bytes"
	"fmt"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

type vvSwitch struct {
	At   int    `json:"At"`
	To   int    `json:"To"`
	Kind string `json:"Kind"`
}

type vvCase struct {
	Harness  string         `json:"harness"`
	Inst     bool           `json:"inst"`
	Params   map[string]int `json:"params"`
	ND       []uint64       `json:"nd"`
	Switches []vvSwitch     `json:"switches"`
	Outs     []string       `json:"outs"`
	Expect   string         `json:"expect"`
}

type vvFail struct{ msg string }
type vvReject struct{}

type vvRun struct {
	c    *vvCase
	pos  int
	outs []string
	fail string
	// controlled scheduling
	mu      sync.Mutex
	cond    *sync.Cond
	fns     []func()
	gids    map[uint64]int
	cur     int // thread whose turn it is, -1: none
	live    int
	sw      int
	yields  int
	joining bool
	panics  []interface{}
}

var vvR *vvRun

func vvBegin(c *vvCase) *vvRun {
	r := &vvRun{c: c, cur: -1, gids: map[uint64]int{}}
	r.cond = sync.NewCond(&r.mu)
	vvR = r
	return r
}

func vvNext() uint64 {
	if vvR.pos >= len(vvR.c.ND) {
		vvR.pos++
		return 0
	}
	v := vvR.c.ND[vvR.pos]
	vvR.pos++
	return v
}

// vvU64 returns an arbitrary 64-bit value.
func vvU64() uint64 { return vvNext() }

// vvByte returns an arbitrary byte.
func vvByte() byte { return byte(vvNext()) }

// vvBool returns an arbitrary boolean.
func vvBool() bool { return vvNext() != 0 }

// vvInt returns an arbitrary integer in [lo,hi], one path per value.
func vvInt(lo, hi int) int { return int(int64(vvNext())) }

// vvSymInt returns an arbitrary integer in [lo,hi] as a symbolic value.
func vvSymInt(lo, hi int) int { return int(int64(vvNext())) }

// vvBytes returns n arbitrary bytes.
func vvBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vvNext())
	}
	return b
}

func vvAssume(b bool) {
	if !b {
		panic(vvReject{})
	}
}

func vvAssert(b bool, msg string) {
	if !b {
		panic(vvFail{msg})
	}
}

func vvCover(name string) {}

func vvParam(name string, def int) int {
	if v, ok := vvR.c.Params[name]; ok {
		return v
	}
	return def
}

func vvOut(label string, v uint64) {
	vvR.outs = append(vvR.outs, label+"="+strconv.FormatUint(v, 10))
}

func vvAnd(a, b bool) bool { return a && b }
func vvOr(a, b bool) bool  { return a || b }
func vvIte(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func vvEqB(a, b []byte) bool     { return bytes.Equal(a, b) }
func vvLessB(a, b []byte) bool   { return bytes.Compare(a, b) < 0 }
func vvPrefixB(a, p []byte) bool { return bytes.HasPrefix(a, p) }

// vvConc forces a value to be concrete (one path per value).
func vvConc(v uint64) uint64 { return v }

// vvMaybe is false only when b is false whatever the arbitrary values are; it
// never splits a path. Use it to skip work, not to decide anything.
func vvMaybe(b bool) bool { return b }

// vvIsConst tells whether v does not depend on arbitrary values; for skipping
// work only.
func vvIsConst(v uint64) bool { return true }

// vvSymbolic is true under the symbolic engine.
func vvSymbolic() bool { return false }

// vvQuiesce lets every other goroutine run until it blocks.
func vvQuiesce() {
	for i := 0; i < 4; i++ {
		runtime.Gosched()
		time.Sleep(time.Millisecond)
	}
}

func vvGid() uint64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	v := uint64(0)
	for _, ch := range buf[len("goroutine "):n] {
		if ch < '0' || ch > '9' {
			break
		}
		v = v*10 + uint64(ch-'0')
	}
	return v
}

// vvGo registers a controlled goroutine; it runs during vvJoin.
func vvGo(f func()) { vvR.fns = append(vvR.fns, f) }

// vvJoin runs the registered goroutines under the recorded schedule and
// returns when all have finished.
func vvJoin() {
	r := vvR
	n := len(r.fns)
	if n == 0 {
		return
	}
	r.mu.Lock()
	r.joining = true
	base := len(r.gids)
	ids := r.fns
	r.fns = nil
	r.live = n
	done := make([]bool, base+n)
	for i := range ids {
		k := base + i
		go func(k int, f func()) {
			r.mu.Lock()
			r.gids[vvGid()] = k
			r.cond.Broadcast()
			for r.cur != k {
				r.cond.Wait()
			}
			r.mu.Unlock()
			defer func() {
				p := recover()
				r.mu.Lock()
				if p != nil {
					r.panics = append(r.panics, p)
				}
				done[k] = true
				r.live--
				if r.live == 0 || p != nil {
					r.cur = -1
					r.live = 0
				} else {
					r.cur = r.take("e", func() int {
						for j := base; j < base+n; j++ {
							if !done[j] {
								return j
							}
						}
						return -1
					})
				}
				r.cond.Broadcast()
				r.mu.Unlock()
			}()
			f()
		}(k, ids[i])
	}
	for len(r.gids) < base+n {
		r.cond.Wait()
	}
	r.cur = r.take("e", func() int { return base })
	r.cond.Broadcast()
	for r.live > 0 {
		r.cond.Wait()
	}
	r.joining = false
	ps := r.panics
	r.mu.Unlock()
	if len(ps) > 0 {
		panic(ps[0])
	}
}

func (r *vvRun) take(kind string, def func() int) int {
	if r.sw < len(r.c.Switches) && r.c.Switches[r.sw].Kind == kind {
		r.sw++
		return r.c.Switches[r.sw-1].To
	}
	return def()
}

func (r *vvRun) me() int {
	if k, ok := r.gids[vvGid()]; ok {
		return k
	}
	return -1
}

func (r *vvRun) give(k, to int) {
	r.cur = to
	r.cond.Broadcast()
	for r.cur != k {
		r.cond.Wait()
	}
}

// vvYield is called by instrumented code before an access to shared memory.
func vvYield(p unsafe.Pointer, write bool) {
	r := vvR
	if r == nil || !r.joining {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	k := r.me()
	if k < 0 || r.cur != k {
		return
	}
	at := r.yields
	r.yields++
	if r.sw < len(r.c.Switches) && r.c.Switches[r.sw].Kind == "p" && r.c.Switches[r.sw].At == at+1 {
		to := r.c.Switches[r.sw].To
		r.sw++
		r.give(k, to)
	}
}

// vvYieldC is vvYield before an access which writes only if it succeeds, in
// which case vvWake follows: goroutines waiting for a change look again.
func vvYieldC(p unsafe.Pointer) { vvYield(p, true) }
func vvWake()                   {}

// vvGosched replaces runtime.Gosched in instrumented code.
func vvGosched() {
	r := vvR
	if r == nil || !r.joining {
		runtime.Gosched()
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	k := r.me()
	if k < 0 || r.cur != k {
		r.mu.Unlock()
		runtime.Gosched()
		r.mu.Lock()
		return
	}
	r.yields++
	if r.sw < len(r.c.Switches) && r.c.Switches[r.sw].Kind == "g" {
		to := r.c.Switches[r.sw].To
		r.sw++
		if to != k {
			r.give(k, to)
		}
	}
}

// locks in instrumented code
func vvMuLock(m *sync.Mutex) {
	vvYieldC(unsafe.Pointer(m))
	for !m.TryLock() {
		vvGosched()
	}
	vvWake()
}

func vvMuUnlock(m *sync.Mutex) {
	vvYield(unsafe.Pointer(m), true)
	m.Unlock()
}

// memory moved by instrumented code
func vvPtrR(p unsafe.Pointer) unsafe.Pointer { vvYield(p, false); return p }
func vvPtrW(p unsafe.Pointer) unsafe.Pointer { vvYield(p, true); return p }

// Plain accesses of fields which are accessed atomically elsewhere.
func vvPR_int64(p *int64) *int64 {
	vvYield(unsafe.Pointer(p), false)
	return p
}
func vvPW_int64(p *int64) *int64 {
	vvYield(unsafe.Pointer(p), true)
	return p
}
func vvPR_int32(p *int32) *int32 {
	vvYield(unsafe.Pointer(p), false)
	return p
}
func vvPW_int32(p *int32) *int32 {
	vvYield(unsafe.Pointer(p), true)
	return p
}
func vvPR_uint32(p *uint32) *uint32 {
	vvYield(unsafe.Pointer(p), false)
	return p
}
func vvPW_uint32(p *uint32) *uint32 {
	vvYield(unsafe.Pointer(p), true)
	return p
}
func vvA_LoadUint64(p *uint64) uint64 {
	vvYield(unsafe.Pointer(p), false)
	return atomic.LoadUint64(p)
}
func vvA_StoreUint64(p *uint64, v uint64) {
	vvYield(unsafe.Pointer(p), true)
	atomic.StoreUint64(p, v)
}
func vvA_AddUint64(p *uint64, v uint64) uint64 {
	vvYield(unsafe.Pointer(p), true)
	return atomic.AddUint64(p, v)
}
func vvA_SwapUint64(p *uint64, v uint64) uint64 {
	vvYield(unsafe.Pointer(p), true)
	return atomic.SwapUint64(p, v)
}
func vvA_CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vvYieldC(unsafe.Pointer(p))
	ok := atomic.CompareAndSwapUint64(p, o, n)
	if ok {
		vvWake()
	}
	return ok
}
func vvA_LoadInt64(p *int64) int64 {
	vvYield(unsafe.Pointer(p), false)
	return atomic.LoadInt64(p)
}
func vvA_StoreInt64(p *int64, v int64) {
	vvYield(unsafe.Pointer(p), true)
	atomic.StoreInt64(p, v)
}
func vvA_AddInt64(p *int64, v int64) int64 {
	vvYield(unsafe.Pointer(p), true)
	return atomic.AddInt64(p, v)
}
func vvA_SwapInt64(p *int64, v int64) int64 {
	vvYield(unsafe.Pointer(p), true)
	return atomic.SwapInt64(p, v)
}
func vvA_CompareAndSwapInt64(p *int64, o, n int64) bool {
	vvYieldC(unsafe.Pointer(p))
	ok := atomic.CompareAndSwapInt64(p, o, n)
	if ok {
		vvWake()
	}
	return ok
}
func vvA_LoadUint32(p *uint32) uint32 {
	vvYield(unsafe.Pointer(p), false)
	return atomic.LoadUint32(p)
}
func vvA_StoreUint32(p *uint32, v uint32) {
	vvYield(unsafe.Pointer(p), true)
	atomic.StoreUint32(p, v)
}
func vvA_AddUint32(p *uint32, v uint32) uint32 {
	vvYield(unsafe.Pointer(p), true)
	return atomic.AddUint32(p, v)
}
func vvA_SwapUint32(p *uint32, v uint32) uint32 {
	vvYield(unsafe.Pointer(p), true)
	return atomic.SwapUint32(p, v)
}
func vvA_CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vvYieldC(unsafe.Pointer(p))
	ok := atomic.CompareAndSwapUint32(p, o, n)
	if ok {
		vvWake()
	}
	return ok
}
func vvA_LoadInt32(p *int32) int32 {
	vvYield(unsafe.Pointer(p), false)
	return atomic.LoadInt32(p)
}
func vvA_StoreInt32(p *int32, v int32) {
	vvYield(unsafe.Pointer(p), true)
	atomic.StoreInt32(p, v)
}
func vvA_AddInt32(p *int32, v int32) int32 {
	vvYield(unsafe.Pointer(p), true)
	return atomic.AddInt32(p, v)
}
func vvA_SwapInt32(p *int32, v int32) int32 {
	vvYield(unsafe.Pointer(p), true)
	return atomic.SwapInt32(p, v)
}
func vvA_CompareAndSwapInt32(p *int32, o, n int32) bool {
	vvYieldC(unsafe.Pointer(p))
	ok := atomic.CompareAndSwapInt32(p, o, n)
	if ok {
		vvWake()
	}
	return ok
}
func vvA_LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	vvYield(unsafe.Pointer(p), false)
	return atomic.LoadPointer(p)
}
func vvA_StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	vvYield(unsafe.Pointer(p), true)
	atomic.StorePointer(p, v)
}
func vvA_CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vvYieldC(unsafe.Pointer(p))
	ok := atomic.CompareAndSwapPointer(p, o, n)
	if ok {
		vvWake()
	}
	return ok
}

// element accesses of []uint64 data in instrumented code
func vvPR(p *uint64) *uint64 { vvYield(unsafe.Pointer(p), false); return p }
func vvPW(p *uint64) *uint64 { vvYield(unsafe.Pointer(p), true); return p }

func vvCopy(dst, src []uint64) int {
	n := len(src)
	if len(dst) < n {
		n = len(dst)
	}
	for i := 0; i < n; i++ {
		v := *vvPR(&src[i])
		*vvPW(&dst[i]) = v
	}
	return n
}

// vvExec runs one case; the result is "ok", "rejected" or "fail: ...".
func vvExec(c *vvCase) (res string, outs []string) {
	r := vvBegin(c)
	h, ok := vvHarnesses[c.Harness]
	if !ok {
		return "no such harness", nil
	}
	defer func() {
		outs = r.outs
		if p := recover(); p != nil {
			switch p := p.(type) {
			case vvFail:
				res = "fail: assertion failed: " + p.msg
			case vvReject:
				res = "rejected"
			default:
				res = "fail: panic: " + fmt.Sprint(p)
			}
		}
	}()
	h()
	return "ok", r.outs
}

var vvHarnesses = map[string]func(){}
