package main

import (
	"fmt"
)

// Harness API: functions named vv* of the package under test, declared (with
// native bodies for replay) in the overlay.

func (c *ictx) nd(kind string, w uint8) *Term {
	st := c.st
	v := mkVar(fmt.Sprintf("%s_%d", kind, len(st.nd)), w)
	st.nd = append(st.nd, NDRec{kind: kind, t: v})
	return v
}

func argInt(c *ictx, i int) int { return int(c.in.concInt(c.st, c.args[i], true)) }
func argStr(c *ictx, i int) string {
	s, ok := c.args[i].(StrV)
	if !ok || s.b != nil {
		unsup("string constant expected")
	}
	return s.s
}

func init() {
	reg(func(c *ictx) Value { c.st.gos = 0; return c.nd("u64", 64) }, "@vvU64")
	reg(func(c *ictx) Value { c.st.gos = 0; return c.nd("byte", 8) }, "@vvByte")
	reg(func(c *ictx) Value { return c.nd("bool", 0) }, "@vvBool")
	reg(func(c *ictx) Value {
		lo, hi := argInt(c, 0), argInt(c, 1)
		st := c.st
		st.gos = 0
		v := mkVar(fmt.Sprintf("int_%d", len(st.nd)), 64)
		c.in.assumeQuiet(st, mkAnd(mkSle(mkConst(64, uint64(lo)), v), mkSle(v, mkConst(64, uint64(hi)))))
		k := c.in.concretize(st, v)
		st.nd = append(st.nd, NDRec{kind: "int", t: v})
		return mkConst(64, k)
	}, "@vvInt")
	reg(func(c *ictx) Value {
		lo, hi := argInt(c, 0), argInt(c, 1)
		v := c.nd("sint", 64)
		c.in.assume(c.st, mkAnd(mkSle(mkConst(64, uint64(lo)), v), mkSle(v, mkConst(64, uint64(hi)))))
		return v
	}, "@vvSymInt")
	reg(func(c *ictx) Value {
		n := argInt(c, 0)
		o := c.st.newObj(int64(n), 1, "vvbytes")
		for i := 0; i < n; i++ {
			o.cells.set(c.st.tok, i, c.nd("byte", 8))
		}
		return Slice{o.id, 0, int64(n), int64(n)}
	}, "@vvBytes")
	reg(func(c *ictx) Value { c.in.assume(c.st, c.args[0].(*Term)); return nil }, "@vvAssume")
	reg(func(c *ictx) Value {
		c.st.gos = 0
		c.in.assert(c.st, c.args[0].(*Term), argStr(c, 1))
		return nil
	}, "@vvAssert")
	reg(func(c *ictx) Value {
		if c.st.covers == nil {
			c.st.covers = map[string]bool{}
		}
		c.st.covers[argStr(c, 0)] = true
		return nil
	}, "@vvCover")
	reg(func(c *ictx) Value {
		if v, ok := c.in.cfg.Params[argStr(c, 0)]; ok {
			return mkConst(64, uint64(v))
		}
		return c.args[1]
	}, "@vvParam")
	reg(func(c *ictx) Value {
		c.st.gos = 0
		c.st.outs = append(c.st.outs, OutRec{argStr(c, 0), c.args[1]})
		return nil
	}, "@vvOut")
	reg(func(c *ictx) Value { return mkAnd(c.args[0].(*Term), c.args[1].(*Term)) }, "@vvAnd")
	reg(func(c *ictx) Value { return mkOr(c.args[0].(*Term), c.args[1].(*Term)) }, "@vvOr")
	reg(func(c *ictx) Value { return mkIte(c.args[0].(*Term), c.args[1].(*Term), c.args[2].(*Term)) }, "@vvIte")
	reg(func(c *ictx) Value { return c.in.eq(c.st, c.strArg(0), c.strArg(1)) }, "@vvEqB")
	reg(func(c *ictx) Value { return c.in.strLess(c.strArg(0), c.strArg(1)) }, "@vvLessB")
	reg(func(c *ictx) Value {
		a, p := c.strArg(0), c.strArg(1)
		if p.Len() > a.Len() {
			return tFalse
		}
		return c.in.eq(c.st, a.sub(0, p.Len()), p)
	}, "@vvPrefixB")
	reg(func(c *ictx) Value {
		return mkConst(64, c.in.concretize(c.st, c.args[0].(*Term)))
	}, "@vvConc")
	reg(func(c *ictx) Value { return tTrue }, "@vvSymbolic")
	reg(func(c *ictx) Value {
		t := c.args[0].(*Term)
		return mkBool(!(t.isConst() && t.k == 0))
	}, "@vvMaybe")
	reg(func(c *ictx) Value { return mkBool(c.args[0].(*Term).isConst()) }, "@vvIsConst")
	reg(func(c *ictx) Value { return c.quiesce() }, "@vvQuiesce")
	reg(func(c *ictx) Value {
		c.in.spawn(c.st, c.args[0], nil, true)
		return nil
	}, "@vvGo")
	reg(func(c *ictx) Value {
		// main waits; the controlled phase starts
		st := c.st
		var cand []int
		for j, t := range st.threads {
			if t.ctl && t.status != tDone {
				cand = append(cand, j)
			}
		}
		if len(cand) == 0 {
			return nil
		}
		if st.base == nil {
			st.tok = new(Token) // what follows copies
			st.base = &baseSnap{heap: st.heap, nobj: st.nobj, pcs: st.pcs, nd: len(st.nd)}
		}
		// the choice forks before anything changes
		j := c.in.choose(st, cand)
		c.f.pc++
		c.done = true
		c.th.status = tBlocked
		c.th.why = "vvJoin"
		st.gos = 0
		st.switchTo(j, "e")
		return nil
	}, "@vvJoin")
	reg(func(c *ictx) Value {
		p := asPtr(c.args[0])
		w := c.args[1].(*Term)
		c.in.yieldPoint(c, p, w == tTrue, w == tTrue)
		return nil
	}, "@vvYield")
	reg(func(c *ictx) Value {
		c.in.yieldPoint(c, asPtr(c.args[0]), true, false)
		return nil
	}, "@vvYieldC")
	reg(func(c *ictx) Value {
		if c.th.ctl && c.st.lastSync != 0 {
			c.st.wake(c.th)
		}
		return nil
	}, "@vvWake")
	reg(func(c *ictx) Value {
		if c.th.ctl && c.st.lastSync != 0 {
			st := c.st
			f := c.f
			c.in.ctlGosched(st, c.th)
			if !c.stay {
				f.pc++
			}
			c.done = true
			return nil
		}
		return c.seqGosched()
	}, "@vvGosched")
}

// assumeQuiet restricts without failing (used for ranges of fresh variables).
func (in *Interp) assumeQuiet(st *State, c *Term) {
	if v, ok := st.lit(c); ok && v {
		return
	}
	in.assume(st, c)
}

func (in *Interp) assert(st *State, c *Term, msg string) {
	in.local.asserts++
	st.asserts++
	if c.isConst() {
		if c.k == 0 {
			in.violation(st, "assertion failed: "+msg)
		}
		return
	}
	if v, ok := st.lit(c); ok {
		if !v {
			in.violation(st, "assertion failed: "+msg)
		}
		return
	}
	if evalTerm(c, st.model) == 0 {
		in.violation(st, "assertion failed: "+msg)
	}
	res, mod := in.queryDom(st, mkNot(c), true)
	switch res {
	case Sat:
		st.model = st.model.with(mod)
		in.violation(st, "assertion failed: "+msg)
	case Unknown:
		in.local.unknown++
		in.cfg.note("solver returned unknown on an assertion: not decided there")
	}
	st.addPC(c)
}
