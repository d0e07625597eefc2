package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic struct {
	f       func(ex *Exec, st *State, g *G, args []Value) Value
	enabled func(ex *Exec, st *State, g *G, args []Value) bool
	visible bool
}

var intrinsics = map[string]*intrinsic{}

func reg(name string, f func(ex *Exec, st *State, g *G, args []Value) Value) *intrinsic {
	i := &intrinsic{f: f}
	intrinsics[name] = i
	return i
}
func regV(name string, f func(ex *Exec, st *State, g *G, args []Value) Value) *intrinsic {
	i := reg(name, f)
	i.visible = true
	return i
}

// leaf returns the pointer to the k-th integer/boolean leaf inside *p.
func (ex *Exec) leaf(st *State, p Ptr, k int) Ptr {
	v := ex.load(st, p)
	n := 0
	var find func(v Value, path []PE) (Ptr, bool)
	find = func(v Value, path []PE) (Ptr, bool) {
		switch x := v.(type) {
		case *Term:
			if n == k {
				return Ptr{p.obj, path}, true
			}
			n++
		case *StructV:
			for i, f := range x.f {
				if r, ok := find(f, sub(path, PE{i: i})); ok {
					return r, true
				}
			}
		}
		return Ptr{}, false
	}
	r, ok := find(v, p.path)
	if !ok {
		ex.abort("unsupported", "no state leaf")
	}
	return r
}

func (ex *Exec) getLeaf(st *State, p Ptr, k int) int64 {
	t := ex.load(st, ex.leaf(st, p, k)).(*Term)
	if t.w == 0 {
		return int64(t.val)
	}
	return t.sval()
}
func (ex *Exec) setLeaf(st *State, p Ptr, k int, v int64) {
	l := ex.leaf(st, p, k)
	t := ex.load(st, l).(*Term)
	if t.w == 0 {
		ex.store(st, l, ex.c.Bool(v != 0))
	} else {
		ex.store(st, l, ex.c.BV(uint64(v), t.w))
	}
}

func strArg(v Value) string {
	if s, ok := v.(Str); ok {
		if b, ok := s.r.concrete(); ok {
			return string(b)
		}
	}
	return "?"
}

func nilp(ex *Exec, st *State, g *G, v Value) bool {
	if p, ok := v.(Ptr); ok && p.obj == 0 {
		ex.goPanic(st, g, "runtime error: invalid memory address or nil pointer dereference")
		return true
	}
	return false
}

func (ex *Exec) ndVar(st *State, kind, name string, w int) *Term {
	t := ex.c.Var(fmt.Sprintf("n%d.%d_%s", len(st.nd), w, name), w)
	st.nd = append(st.nd, NonDet{Kind: kind, Name: name, t: t})
	return t
}

func bitsFor(max int64) int {
	w := 0
	for int64(1)<<uint(w)-1 < max {
		w++
	}
	return w
}

// ndBlob makes a fresh byte sequence whose length is at most max (rounded to 2^k-1 and assumed when not exact).
func (ex *Exec) ndBlob(st *State, kind, name string, max int64, exact bool) *Rope {
	c := ex.c
	b := fmt.Sprintf("b%d_%s", len(st.nd), name)
	if m := ex.cfg["strmax"]; m > 0 && max > m && !exact {
		max = m
	}
	if m := ex.cfg["strfix"]; m > 0 && !exact {
		exact = true
		if max > m {
			max = m
		}
	}
	var n *Term
	if exact {
		n = c.I64(max)
	} else {
		w := bitsFor(max)
		if w == 0 {
			n = c.I64(0)
		} else {
			n = c.Zext(c.Var(fmt.Sprintf("l%d.%d_%s", len(st.nd), w, name), w), 64)
		}
	}
	st.nd = append(st.nd, NonDet{Kind: kind, Name: name, blob: b, n: n})
	if !exact && int64(1)<<uint(bitsFor(max))-1 != max {
		ex.mustAssume(st, c.Sle(n, c.I64(max)))
	}
	if n.isConst() && n.val <= 64 {
		l := make([]*Term, n.val)
		for i := range l {
			l[i] = c.Sel(b, c.I64(int64(i)))
		}
		return c.ropeOf(Seg{lit: l})
	}
	return c.ropeOf(Seg{blob: b, off: c.I64(0), n: n})
}

// mustAssume restricts the path to t without forking; ends the path when impossible.
func (ex *Exec) mustAssume(st *State, t *Term) {
	if v, ok := ex.known(st, t); ok {
		if !v {
			ex.abort("assume", "")
		}
		return
	}
	if ex.evalB(st, t) {
		ex.assume(st, t)
		return
	}
	r, m := ex.sat(st, t)
	switch r {
	case Unsat:
		ex.abort("assume", "")
	case Unknown:
		ex.abort("bound", "solver unknown in assumption")
	}
	st.model = m
	ex.assume(st, t)
}

// check is an assertion: records a violation when it can fail, then continues where it holds.
func (ex *Exec) check(st *State, cond *Term, msg string) {
	ex.stats.Asserts++
	st.asserts++
	if v, ok := ex.known(st, cond); ok {
		if v {
			return
		}
		ex.violate(st, "assert", msg, st.model)
	}
	if !ex.evalB(st, cond) {
		ex.record(st, "assert", msg, st.model)
		ex.mustAssume(st, cond)
		return
	}
	ex.stats.AssertQ++
	r, m := ex.sat(st, ex.c.Not(cond))
	switch r {
	case Unsat:
		st.pcset = st.pcset.Set(cond.id, true)
	case Sat:
		ex.record(st, "assert", msg, m)
		ex.assume(st, cond)
	default:
		ex.stats.Reasons["solver-unknown in assertion"]++
		ex.stats.Aborted++
		ex.assume(st, cond)
	}
}

func (ex *Exec) ropeAssertEq(st *State, a, b *Rope, msg string) {
	c := ex.c
	le := c.Eq(a.n, b.n)
	ex.check(st, le, fmt.Sprintf("%s: lengths differ", msg))
	conds, sk := ex.ropeEqConds(st, a, b)
	ex.check(st, c.And(conds...), msg)
	for _, s := range sk {
		ex.check(st, c.Or(c.Not(s.inRange), s.eq), msg)
	}
}

func init() {
	// ---- vrt API ----
	v := vrtPath + "."
	for _, d := range []struct {
		n string
		w int
	}{{"Int8", 8}, {"Int16", 16}, {"Int32", 32}, {"Int64", 64}, {"Uint8", 8}, {"Bool", 0}} {
		d := d
		reg(v+d.n, func(ex *Exec, st *State, g *G, a []Value) Value {
			return ex.ndVar(st, strings.ToLower(d.n), strArg(a[0]), d.w)
		})
	}
	// IntRange(name, lo, hi): a symbolic int in [lo,hi]
	reg(v+"IntRange", func(ex *Exec, st *State, g *G, a []Value) Value {
		lo, hi := ex.concretize(st, a[1].(*Term)), ex.concretize(st, a[2].(*Term))
		if lo == hi {
			t := ex.c.I64(lo)
			st.nd = append(st.nd, NonDet{Kind: "int", Name: strArg(a[0]), t: t})
			return t
		}
		w := bitsFor(hi - lo)
		x := ex.c.Var(fmt.Sprintf("n%d.%d_%s", len(st.nd), w, strArg(a[0])), w)
		t := ex.c.Add(ex.c.Zext(x, 64), ex.c.I64(lo))
		st.nd = append(st.nd, NonDet{Kind: "int", Name: strArg(a[0]), t: t})
		if int64(1)<<uint(w)-1 != hi-lo {
			ex.mustAssume(st, ex.c.Sle(t, ex.c.I64(hi)))
		}
		return t
	})
	// Choose(name, n): forks over 0..n-1
	reg(v+"Choose", func(ex *Exec, st *State, g *G, a []Value) Value {
		n := int(ex.concretize(st, a[1].(*Term)))
		if n <= 0 {
			ex.abort("assume", "")
		}
		k := ex.choose(st, n)
		t := ex.c.I64(int64(k))
		st.nd = append(st.nd, NonDet{Kind: "int", Name: strArg(a[0]), t: t})
		return t
	})
	reg(v+"Str", func(ex *Exec, st *State, g *G, a []Value) Value {
		return Str{ex.ndBlob(st, "str", strArg(a[0]), ex.concretize(st, a[1].(*Term)), false)}
	})
	reg(v+"StrN", func(ex *Exec, st *State, g *G, a []Value) Value {
		return Str{ex.ndBlob(st, "str", strArg(a[0]), ex.concretize(st, a[1].(*Term)), true)}
	})
	mkBytes := func(exact bool) func(ex *Exec, st *State, g *G, a []Value) Value {
		return func(ex *Exec, st *State, g *G, a []Value) Value {
			n := ex.concretize(st, a[1].(*Term))
			r := ex.ndBlob(st, "bytes", strArg(a[0]), n, exact)
			return ex.newBytes(st, r, ex.keyID("vrt.Bytes"))
		}
	}
	reg(v+"Bytes", mkBytes(false))
	reg(v+"BytesN", mkBytes(true))
	reg(v+"Assume", func(ex *Exec, st *State, g *G, a []Value) Value {
		ex.mustAssume(st, a[0].(*Term))
		return nil
	})
	reg(v+"Assert", func(ex *Exec, st *State, g *G, a []Value) Value {
		ex.check(st, a[0].(*Term), strArg(a[1]))
		return nil
	})
	reg(v+"Fail", func(ex *Exec, st *State, g *G, a []Value) Value {
		ex.stats.Asserts++
		ex.violate(st, "assert", strArg(a[0]), st.model)
		return nil
	})
	// Finding(key, msg): a defect identified by key; known keys are reported, others are violations
	reg(v+"Finding", func(ex *Exec, st *State, g *G, a []Value) Value {
		ex.stats.Asserts++
		k, msg := strArg(a[0]), strArg(a[1])
		n := len(ex.finds)
		ex.record(st, "finding", k+": "+msg, st.model)
		if len(ex.finds) > n {
			ex.finds[n].Key = k
		}
		return nil
	})
	reg(v+"AssertEqStr", func(ex *Exec, st *State, g *G, a []Value) Value {
		ex.ropeAssertEq(st, a[0].(Str).r, a[1].(Str).r, strArg(a[2]))
		return nil
	})
	reg(v+"AssertEqBytes", func(ex *Exec, st *State, g *G, a []Value) Value {
		ex.ropeAssertEq(st, ex.bytesOf(st, a[0].(Slice)), ex.bytesOf(st, a[1].(Slice)), strArg(a[2]))
		return nil
	})
	reg(v+"Reach", func(ex *Exec, st *State, g *G, a []Value) Value {
		st.reach = append(st.reach[:len(st.reach):len(st.reach)], strArg(a[0]))
		return nil
	})
	reg(v+"Case", func(ex *Exec, st *State, g *G, a []Value) Value { return nil })
	// Append(b, p): a fresh slice holding b then p
	reg(v+"Append", func(ex *Exec, st *State, g *G, a []Value) Value {
		r := ex.bytesOf(st, a[0].(Slice))
		ex.accessRange(st, g, a[1].(Slice).obj, a[1].(Slice).path, a[1].(Slice).off, a[1].(Slice).len, false)
		r = ex.c.ropeCat(r, ex.bytesOf(st, a[1].(Slice)))
		return ex.newBytes(st, r, ex.keyID("vrt.Append"))
	})
	reg(v+"AppendStr", func(ex *Exec, st *State, g *G, a []Value) Value {
		r := ex.bytesOf(st, a[0].(Slice))
		return ex.newBytes(st, ex.c.ropeCat(r, a[1].(Str).r), ex.keyID("vrt.Append"))
	})
	reg(v+"Contract", func(ex *Exec, st *State, g *G, a []Value) Value {
		if ex.cfg["inline"] == 0 {
			ex.contractFn = g.top().fi.fn.Pkg.Func(strArg(a[0]))
			ex.contractT = strArg(a[1])
		}
		return nil
	})
	reg(v+"AllocLimit", func(ex *Exec, st *State, g *G, a []Value) Value {
		t := a[0].(*Term)
		if t.isConst() && t.sval() < 0 {
			st.opts.allocLimit = nil
		} else {
			st.opts.allocLimit = t
		}
		return nil
	})
	reg(v+"Explore", func(ex *Exec, st *State, g *G, a []Value) Value {
		st.opts.explore = true
		st.opts.maxPreempt = int(ex.concretize(st, a[0].(*Term)))
		st.atom = -1
		for _, h := range st.gs {
			h.vc = VC{}.set(h.id, 1)
		}
		return nil
	})
	reg(v+"Deterministic", func(ex *Exec, st *State, g *G, a []Value) Value {
		st.opts.explore = false
		for _, h := range st.gs {
			h.vc = nil
		}
		return nil
	})
	reg(v+"AtomicPkg", func(ex *Exec, st *State, g *G, a []Value) Value {
		st.opts.atomicPkgs = append(st.opts.atomicPkgs[:len(st.opts.atomicPkgs):len(st.opts.atomicPkgs)], strArg(a[0]))
		return nil
	})
	reg(v+"Races", func(ex *Exec, st *State, g *G, a []Value) Value {
		st.opts.races = true
		return nil
	})
	reg(v+"AllowDeadlock", func(ex *Exec, st *State, g *G, a []Value) Value {
		st.opts.allowDead = a[0].(*Term).isTrue()
		return nil
	})
	reg(v+"Param", func(ex *Exec, st *State, g *G, a []Value) Value {
		if x, ok := ex.cfg[strArg(a[0])]; ok {
			return ex.c.I64(x)
		}
		return a[1]
	})
	// Scale: n units of the buffer scale; Expand: every byte as one unit
	reg(v+"Scale", func(ex *Exec, st *State, g *G, a []Value) Value { return a[0] })
	reg(v+"Expand", func(ex *Exec, st *State, g *G, a []Value) Value { return a[0] })
	reg(v+"Symbolic", func(ex *Exec, st *State, g *G, a []Value) Value { return ex.c.True })
	// Quiesce: enabled when no other goroutine can step (deterministic mode helper)
	q := regV(v+"Quiesce", func(ex *Exec, st *State, g *G, a []Value) Value { return nil })
	q.enabled = func(ex *Exec, st *State, g *G, a []Value) bool {
		for _, h := range st.gs {
			if h == g || h.done || h.waiting {
				continue
			}
			if len(h.frames) > 0 {
				if fv, as, ok := ex.pending(st, h); ok && fv != nil && fv.fn != nil {
					if in := ex.info(fv.fn).intr; in == q || in != nil && in == intrinsics[v+"timerWait"] && !ex.load(st, as[1].(Ptr)).(*Term).isTrue() {
						continue
					}
				}
			}
			if ex.canStep(st, h) {
				return false
			}
		}
		return true
	}
	// Live: number of goroutines (other than the caller) that have not finished
	reg(v+"Live", func(ex *Exec, st *State, g *G, a []Value) Value {
		n := 0
		for _, h := range st.gs {
			if h != g && !h.done && h.name != vrtPath+".timerRun" {
				n++
			}
		}
		return ex.c.I64(int64(n))
	})
	// SameArray: whether two byte slices share their backing array
	reg(v+"SameArray", func(ex *Exec, st *State, g *G, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		return ex.c.Bool(x.obj != 0 && x.obj == y.obj)
	})
	reg(v+"Yield", func(ex *Exec, st *State, g *G, a []Value) Value { return nil }).visible = true
	reg(v+"Concrete", func(ex *Exec, st *State, g *G, a []Value) Value {
		return ex.c.I64(ex.concretize(st, a[0].(*Term)))
	})
	reg(v+"Dump", func(ex *Exec, st *State, g *G, a []Value) Value {
		if ex.debug {
			fmt.Printf("DUMP %s %v\n", strArg(a[0]), a[1].(Iface).v)
			if s, ok := a[1].(Iface).v.(Slice); ok {
				fmt.Println("  ", ex.bytesOf(st, s))
			}
		}
		return nil
	})

	// Under(x): x with its type replaced by the underlying one, when that is a basic type
	reg(v+"Under", func(ex *Exec, st *State, g *G, a []Value) Value {
		i := a[0].(Iface)
		if i.t != nil {
			if b, ok := i.t.Underlying().(*types.Basic); ok {
				i.t = types.Typ[b.Kind()]
			}
		}
		return i
	})
	// asTarget(err, target): when err can be assigned to *target, assigns it
	reg(v+"asTarget", func(ex *Exec, st *State, g *G, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		pt, ok := t.t.Underlying().(*types.Pointer)
		if !ok {
			ex.goPanic(st, g, "errors: target must be a non-nil pointer")
			return nil
		}
		p := t.v.(Ptr)
		if it, isI := pt.Elem().Underlying().(*types.Interface); isI {
			if !ex.implements(e.t, it, pt.Elem()) {
				return ex.c.False
			}
			ex.store(st, p, e)
			ex.access(st, g, p.obj, p.path, true)
			return ex.c.True
		}
		if !types.Identical(e.t, pt.Elem()) {
			return ex.c.False
		}
		ex.store(st, p, e.v)
		ex.access(st, g, p.obj, p.path, true)
		return ex.c.True
	})
	reg(v+"hb", func(ex *Exec, st *State, g *G, a []Value) Value {
		p := a[0].(Iface).v.(Ptr)
		ex.acquire(st, g, ex.locID(p.obj, p.path))
		ex.release(st, g, ex.locID(p.obj, p.path))
		return nil
	})
	reg("unique.Make", func(ex *Exec, st *State, g *G, a []Value) Value {
		id := ex.newObj(st, a[0], ex.keyID("unique.Make"))
		return &StructV{f: []Value{Ptr{obj: id}}}
	})
	// sliceLen(s), sliceSwap(s, i, j): a slice of any type
	reg(v+"sliceLen", func(ex *Exec, st *State, g *G, a []Value) Value { return a[0].(Iface).v.(Slice).len })
	reg(v+"sliceSwap", func(ex *Exec, st *State, g *G, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		i, j := ex.c.Add(s.off, a[1].(*Term)), ex.c.Add(s.off, a[2].(*Term))
		ex.accessRange(st, g, s.obj, s.path, i, ex.c.I64(1), true)
		ex.accessRange(st, g, s.obj, s.path, j, ex.c.I64(1), true)
		arr := ex.arrOf(st, s)
		x, y := ex.arrGet(st, arr, i), ex.arrGet(st, arr, j)
		arr = ex.arrSet(st, ex.arrSet(st, arr, i, y), j, x)
		ex.store(st, Ptr{s.obj, s.path}, arr)
		return nil
	})
	// anyEq(a, b): whether two interface values are equal
	reg(v+"comparable_", func(ex *Exec, st *State, g *G, a []Value) Value {
		t := a[0].(Iface).t
		return ex.c.Bool(t == nil || types.Comparable(t))
	})
	// timerWait(deadline, stop): enabled once stopped, or when nothing else can run and no earlier timer is pending
	tw := regV(v+"timerWait", func(ex *Exec, st *State, g *G, a []Value) Value { return nil })
	tw.enabled = func(ex *Exec, st *State, g *G, a []Value) bool {
		if ex.load(st, a[1].(Ptr)).(*Term).isTrue() {
			return true
		}
		d := ex.concretize(st, a[0].(*Term))
		for _, h := range st.gs {
			if h == g || h.done || h.waiting {
				continue
			}
			if len(h.frames) > 0 {
				if fv, as, ok := ex.pending(st, h); ok && fv != nil && fv.fn != nil && ex.info(fv.fn).intr == tw {
					e := ex.concretize(st, as[0].(*Term))
					if !ex.load(st, as[1].(Ptr)).(*Term).isTrue() && (e < d || e == d && h.id < g.id) {
						return false
					}
					continue
				}
			}
			if ex.canStep(st, h) {
				return false
			}
		}
		return true
	}

	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Round": math.Round, "Log2": math.Log2, "Abs": math.Abs} {
		f := f
		reg("math."+n, func(ex *Exec, st *State, g *G, a []Value) Value { return FloatV{f(a[0].(FloatV).f)} })
	}
	for n, f := range map[string]func(a, b float64) float64{"Pow": math.Pow, "Max": math.Max, "Min": math.Min, "Mod": math.Mod} {
		f := f
		reg("math."+n, func(ex *Exec, st *State, g *G, a []Value) Value {
			return FloatV{f(a[0].(FloatV).f, a[1].(FloatV).f)}
		})
	}

	// ---- sync/atomic ----
	for _, d := range []struct {
		n string
		w int
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", -1}} {
		d := d
		regV("sync/atomic.Load"+d.n, func(ex *Exec, st *State, g *G, a []Value) Value {
			if nilp(ex, st, g, a[0]) {
				return nil
			}
			p := a[0].(Ptr)
			ex.accessAtomic(st, g, p, false)
			v := ex.load(st, p)
			ex.acquire(st, g, ex.locID(p.obj, p.path))
			return v
		})
		regV("sync/atomic.Store"+d.n, func(ex *Exec, st *State, g *G, a []Value) Value {
			if nilp(ex, st, g, a[0]) {
				return nil
			}
			p := a[0].(Ptr)
			ex.accessAtomic(st, g, p, true)
			ex.release(st, g, ex.locID(p.obj, p.path))
			ex.store(st, p, a[1])
			return nil
		})
		regV("sync/atomic.Swap"+d.n, func(ex *Exec, st *State, g *G, a []Value) Value {
			if nilp(ex, st, g, a[0]) {
				return nil
			}
			p := a[0].(Ptr)
			ex.accessAtomic(st, g, p, true)
			v := ex.load(st, p)
			ex.acquire(st, g, ex.locID(p.obj, p.path))
			ex.release(st, g, ex.locID(p.obj, p.path))
			ex.store(st, p, a[1])
			return v
		})
		regV("sync/atomic.CompareAndSwap"+d.n, func(ex *Exec, st *State, g *G, a []Value) Value {
			if nilp(ex, st, g, a[0]) {
				return nil
			}
			p := a[0].(Ptr)
			ex.accessAtomic(st, g, p, true)
			v := ex.load(st, p)
			ok := ex.decide(st, ex.eq(st, v, a[1]))
			ex.acquire(st, g, ex.locID(p.obj, p.path))
			ex.release(st, g, ex.locID(p.obj, p.path))
			if ok {
				ex.store(st, p, a[2])
			}
			return ex.c.Bool(ok)
		})
		if d.w > 0 {
			regV("sync/atomic.Add"+d.n, func(ex *Exec, st *State, g *G, a []Value) Value {
				if nilp(ex, st, g, a[0]) {
					return nil
				}
				p := a[0].(Ptr)
				ex.accessAtomic(st, g, p, true)
				v := ex.c.Add(ex.load(st, p).(*Term), a[1].(*Term))
				ex.acquire(st, g, ex.locID(p.obj, p.path))
				ex.release(st, g, ex.locID(p.obj, p.path))
				ex.store(st, p, v)
				return v
			})
		}
	}
	regV("(*sync/atomic.Value).Load", func(ex *Exec, st *State, g *G, a []Value) Value {
		p := a[0].(Ptr)
		ex.acquire(st, g, ex.locID(p.obj, p.path))
		return ex.load(st, Ptr{p.obj, sub(p.path, PE{i: 0})})
	})
	regV("(*sync/atomic.Value).Swap", func(ex *Exec, st *State, g *G, a []Value) Value {
		p := a[0].(Ptr)
		ex.acquire(st, g, ex.locID(p.obj, p.path))
		ex.release(st, g, ex.locID(p.obj, p.path))
		r := ex.load(st, Ptr{p.obj, sub(p.path, PE{i: 0})})
		ex.store(st, Ptr{p.obj, sub(p.path, PE{i: 0})}, a[1])
		return r
	})
	regV("(*sync/atomic.Value).CompareAndSwap", func(ex *Exec, st *State, g *G, a []Value) Value {
		p := a[0].(Ptr)
		ex.acquire(st, g, ex.locID(p.obj, p.path))
		ok := ex.decide(st, ex.eq(st, ex.load(st, Ptr{p.obj, sub(p.path, PE{i: 0})}), a[1]))
		if ok {
			ex.release(st, g, ex.locID(p.obj, p.path))
			ex.store(st, Ptr{p.obj, sub(p.path, PE{i: 0})}, a[2])
		}
		return ex.c.Bool(ok)
	})
	regV("(*sync/atomic.Value).Store", func(ex *Exec, st *State, g *G, a []Value) Value {
		p := a[0].(Ptr)
		ex.release(st, g, ex.locID(p.obj, p.path))
		ex.store(st, Ptr{p.obj, sub(p.path, PE{i: 0})}, a[1])
		return nil
	})

	// ---- sync ----
	lock := regV("(*sync.Mutex).Lock", func(ex *Exec, st *State, g *G, a []Value) Value {
		if nilp(ex, st, g, a[0]) {
			return nil
		}
		p := a[0].(Ptr)
		ex.setLeaf(st, p, 0, 1)
		ex.acquire(st, g, ex.locID(p.obj, p.path))
		return nil
	})
	lock.enabled = func(ex *Exec, st *State, g *G, a []Value) bool {
		p := a[0].(Ptr)
		return p.obj == 0 || ex.getLeaf(st, p, 0) == 0
	}
	regV("(*sync.Mutex).TryLock", func(ex *Exec, st *State, g *G, a []Value) Value {
		p := a[0].(Ptr)
		if ex.getLeaf(st, p, 0) != 0 {
			return ex.c.False
		}
		ex.setLeaf(st, p, 0, 1)
		ex.acquire(st, g, ex.locID(p.obj, p.path))
		return ex.c.True
	})
	regV("(*sync.Mutex).Unlock", func(ex *Exec, st *State, g *G, a []Value) Value {
		if nilp(ex, st, g, a[0]) {
			return nil
		}
		p := a[0].(Ptr)
		if ex.getLeaf(st, p, 0) == 0 {
			st.cur = g.idx(st)
			ex.violate(st, "panic", "fatal error: sync: unlock of unlocked mutex", st.model)
		}
		ex.release(st, g, ex.locID(p.obj, p.path))
		ex.setLeaf(st, p, 0, 0)
		return nil
	})
	// RWMutex: leaf 0 = writer held, leaf 1 = readers
	rwl := regV("(*sync.RWMutex).Lock", func(ex *Exec, st *State, g *G, a []Value) Value {
		p := a[0].(Ptr)
		ex.setLeaf(st, p, 0, 1)
		ex.acquire(st, g, ex.locID(p.obj, p.path))
		return nil
	})
	rwl.enabled = func(ex *Exec, st *State, g *G, a []Value) bool {
		p := a[0].(Ptr)
		return p.obj == 0 || ex.getLeaf(st, p, 0) == 0 && ex.getLeaf(st, p, 1) == 0
	}
	regV("(*sync.RWMutex).Unlock", func(ex *Exec, st *State, g *G, a []Value) Value {
		p := a[0].(Ptr)
		if ex.getLeaf(st, p, 0) == 0 {
			st.cur = g.idx(st)
			ex.violate(st, "panic", "fatal error: sync: Unlock of unlocked RWMutex", st.model)
		}
		ex.release(st, g, ex.locID(p.obj, p.path))
		ex.setLeaf(st, p, 0, 0)
		return nil
	})
	rl := regV("(*sync.RWMutex).RLock", func(ex *Exec, st *State, g *G, a []Value) Value {
		p := a[0].(Ptr)
		ex.setLeaf(st, p, 1, ex.getLeaf(st, p, 1)+1)
		ex.acquire(st, g, ex.locID(p.obj, p.path))
		return nil
	})
	rl.enabled = func(ex *Exec, st *State, g *G, a []Value) bool {
		p := a[0].(Ptr)
		return p.obj == 0 || ex.getLeaf(st, p, 0) == 0
	}
	regV("(*sync.RWMutex).RUnlock", func(ex *Exec, st *State, g *G, a []Value) Value {
		p := a[0].(Ptr)
		n := ex.getLeaf(st, p, 1)
		if n <= 0 {
			st.cur = g.idx(st)
			ex.violate(st, "panic", "fatal error: sync: RUnlock of unlocked RWMutex", st.model)
		}
		ex.release(st, g, ex.locID(p.obj, p.path))
		ex.setLeaf(st, p, 1, n-1)
		return nil
	})
	regV("(*sync.RWMutex).TryLock", func(ex *Exec, st *State, g *G, a []Value) Value {
		p := a[0].(Ptr)
		if ex.getLeaf(st, p, 0) != 0 || ex.getLeaf(st, p, 1) != 0 {
			return ex.c.False
		}
		ex.setLeaf(st, p, 0, 1)
		ex.acquire(st, g, ex.locID(p.obj, p.path))
		return ex.c.True
	})
	regV("(*sync.RWMutex).TryRLock", func(ex *Exec, st *State, g *G, a []Value) Value {
		p := a[0].(Ptr)
		if ex.getLeaf(st, p, 0) != 0 {
			return ex.c.False
		}
		ex.setLeaf(st, p, 1, ex.getLeaf(st, p, 1)+1)
		ex.acquire(st, g, ex.locID(p.obj, p.path))
		return ex.c.True
	})
	wgAdd := func(ex *Exec, st *State, g *G, p Ptr, d int64) Value {
		n := ex.getLeaf(st, p, 0) + d
		if n < 0 {
			ex.goPanic(st, g, "sync: negative WaitGroup counter")
			return nil
		}
		ex.release(st, g, ex.locID(p.obj, p.path))
		ex.setLeaf(st, p, 0, n)
		return nil
	}
	regV("(*sync.WaitGroup).Add", func(ex *Exec, st *State, g *G, a []Value) Value {
		return wgAdd(ex, st, g, a[0].(Ptr), ex.concretize(st, a[1].(*Term)))
	})
	regV("(*sync.WaitGroup).Done", func(ex *Exec, st *State, g *G, a []Value) Value {
		return wgAdd(ex, st, g, a[0].(Ptr), -1)
	})
	ww := regV("(*sync.WaitGroup).Wait", func(ex *Exec, st *State, g *G, a []Value) Value {
		p := a[0].(Ptr)
		ex.acquire(st, g, ex.locID(p.obj, p.path))
		return nil
	})
	ww.enabled = func(ex *Exec, st *State, g *G, a []Value) bool {
		p := a[0].(Ptr)
		return p.obj == 0 || ex.getLeaf(st, p, 0) == 0
	}
	regV("runtime.Gosched", func(ex *Exec, st *State, g *G, a []Value) Value { return nil })
	regV("time.Sleep", func(ex *Exec, st *State, g *G, a []Value) Value { return nil })
	reg("runtime.KeepAlive", func(ex *Exec, st *State, g *G, a []Value) Value { return nil })
	reg("runtime.SetFinalizer", func(ex *Exec, st *State, g *G, a []Value) Value { return nil })
	reg("internal/abi.NoEscape", func(ex *Exec, st *State, g *G, a []Value) Value { return a[0] })
	reg("internal/abi.Escape", func(ex *Exec, st *State, g *G, a []Value) Value { return a[0] })
	reg("internal/godebug.New", func(ex *Exec, st *State, g *G, a []Value) Value { return Ptr{} })
	reg("internal/bytealg.MakeNoZero", func(ex *Exec, st *State, g *G, a []Value) Value {
		n := a[0].(*Term)
		id := ex.newObj(st, &ArrV{n: n, zero: ex.c.BV(0, 8)}, 0)
		return Slice{obj: id, off: ex.c.I64(0), len: n, cap: n}
	})
	idx := func(ex *Exec, st *State, r *Rope, b *Term) Value {
		n := ex.concretize(st, r.n)
		for i := int64(0); i < n; i++ {
			if ex.decide(st, ex.c.Eq(ex.ropeAt(st, r, ex.c.I64(i)), b)) {
				return ex.c.I64(i)
			}
		}
		return ex.c.I64(-1)
	}
	reg("internal/bytealg.IndexByte", func(ex *Exec, st *State, g *G, a []Value) Value {
		return idx(ex, st, ex.bytesOf(st, a[0].(Slice)), a[1].(*Term))
	})
	reg("internal/bytealg.IndexByteString", func(ex *Exec, st *State, g *G, a []Value) Value {
		return idx(ex, st, a[0].(Str).r, a[1].(*Term))
	})
	reg("internal/bytealg.Equal", func(ex *Exec, st *State, g *G, a []Value) Value {
		return ex.strEq(st, ex.bytesOf(st, a[0].(Slice)), ex.bytesOf(st, a[1].(Slice)))
	})
	reg("bytes.Equal", func(ex *Exec, st *State, g *G, a []Value) Value {
		return ex.strEq(st, ex.bytesOf(st, a[0].(Slice)), ex.bytesOf(st, a[1].(Slice)))
	})
	reg("math/bits.Len64", func(ex *Exec, st *State, g *G, a []Value) Value {
		t := a[0].(*Term)
		r := ex.c.I64(0)
		for i := 0; i < 64; i++ {
			r = ex.c.Ite(ex.c.Eq(ex.c.Extract(t, i, i), ex.c.BV(1, 1)), ex.c.I64(int64(i+1)), r)
		}
		return r
	})
}

var _ = types.Typ
var _ ssa.Value
