package main

import (
	"crypto/md5"
	"encoding/binary"
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- vector clocks ----

type VC []int

func (v VC) get(i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func (v VC) set(i, k int) VC {
	n := make(VC, max(len(v), i+1))
	copy(n, v)
	n[i] = k
	return n
}
func (v VC) inc(i int) VC { return v.set(i, v.get(i)+1) }
func (v VC) join(o VC) VC {
	le := true
	for i := range o {
		if o[i] > v.get(i) {
			le = false
			break
		}
	}
	if le {
		return v
	}
	n := make(VC, max(len(v), len(o)))
	copy(n, v)
	for i, x := range o {
		if x > n[i] {
			n[i] = x
		}
	}
	return n
}

type accRec struct {
	wg, wc int
	reads  VC
	aw, ar VC // atomic writes and reads
}

func (ex *Exec) locID(obj int, path []PE) int {
	var b [64]byte
	k := strconv.AppendInt(b[:0], int64(obj), 10)
	for _, p := range path {
		if p.t != nil {
			k = append(k, '/', '*')
			break
		}
		k = append(k, '/')
		k = strconv.AppendInt(k, int64(p.i), 10)
	}
	if ex.locs == nil {
		ex.locs = map[string]int{}
	}
	if i, ok := ex.locs[string(k)]; ok {
		return i
	}
	i := len(ex.locs) + 1
	ex.locs[string(k)] = i
	return i
}

// fieldKey names a location by allocation site and field (indices dropped).
func (ex *Exec) fieldKey(st *State, obj int, path []PE) string {
	o := st.obj(obj)
	if o == nil {
		return ""
	}
	k := ex.P.keyName(o.key)
	v := o.val
	for _, p := range path {
		switch x := v.(type) {
		case *StructV:
			k += "." + strconv.Itoa(p.i)
			v = x.f[p.i]
		default:
			return k + "[]"
		}
	}
	if _, ok := v.(*ArrV); ok {
		k += "[]"
	}
	return k
}

// access records a memory access for race detection (explore mode).
func (ex *Exec) access(st *State, g *G, obj int, path []PE, write bool) {
	if g.vc == nil || obj == 0 {
		return
	}
	if g.inInit() || ex.inAtomic(st, g) && !ex.lib(st, obj) {
		return
	}
	if k := len(path) - 1; k >= 0 {
		if path[k].t != nil {
			ex.accessRange(st, g, obj, path[:k], path[k].t, ex.c.I64(1), write)
			return
		}
		if st.ranges.n > 0 {
			if rr, ok := st.ranges.Get(ex.locID(obj, path[:k])).([]rangeRec); ok {
				i := ex.c.I64(int64(path[k].i))
				ex.rangeRace(st, g, obj, path, rr, i, ex.c.Add(i, ex.c.I64(1)), write)
			}
		}
	}
	id := ex.locID(obj, path)
	r, _ := st.acc.Get(id).(*accRec)
	race := false
	if r != nil {
		if r.wg >= 0 && r.wg != g.id && r.wc > g.vc.get(r.wg) {
			race = true
		}
		if write && !race {
			for i, c := range r.reads {
				if i != g.id && c > g.vc.get(i) {
					race = true
				}
			}
		}
	}
	if r != nil && !race {
		race = after(r.aw, g) || write && after(r.ar, g)
	}
	n := accRec{wg: -1}
	if r != nil {
		n = *r
	}
	if write {
		n.wg, n.wc = g.id, g.vc.get(g.id)
		n.reads = nil
	} else {
		n.reads = n.reads.set(g.id, g.vc.get(g.id))
	}
	st.acc = st.acc.Set(id, &n)
	if race {
		if _, ok := st.obj(obj).val.(*MapData); ok {
			st.cur = g.idx(st)
			ex.violate(st, "race", "concurrent map access (fatal in Go): map allocated at "+ex.P.keyName(st.obj(obj).key), st.model)
		}
		if st.opts.races {
			st.cur = g.idx(st)
			ex.violate(st, "race", "data race on memory allocated at "+ex.fieldKey(st, obj, path), st.model)
		}
		k := ex.fieldKey(st, obj, path)
		if !ex.shared[k] {
			ex.shared[k] = true
			ex.newShared = true
			ex.stats.Flagged = append(ex.stats.Flagged, k)
		}
	}
}

// rangeRec is an access to the elements lo..hi-1 of an array.
type rangeRec struct {
	g, c   int
	write  bool
	lo, hi *Term
}

// accessRange records an access to n elements from off on of the array at path.
func (ex *Exec) accessRange(st *State, g *G, obj int, path []PE, off, n *Term, write bool) {
	if g.vc == nil || obj == 0 || n.isConst() && n.val == 0 || g.inInit() || ex.inAtomic(st, g) && !ex.lib(st, obj) {
		return
	}
	if off.isConst() && n.isConst() && n.val <= 64 {
		p := append(path[:len(path):len(path)], PE{})
		for i := uint64(0); i < n.val; i++ {
			p[len(path)] = PE{i: int(off.val + i)}
			ex.access(st, g, obj, p, write)
		}
		return
	}
	id := ex.locID(obj, path)
	rr, _ := st.ranges.Get(id).([]rangeRec)
	hi := ex.c.Add(off, n)
	ex.rangeRace(st, g, obj, append(path[:len(path):len(path)], PE{}), rr, off, hi, write)
	nr := rangeRec{g.id, g.vc.get(g.id), write, off, hi}
	var out []rangeRec
	for _, r := range rr {
		if r.g == nr.g && (r.write == write || write) && r.lo == off && r.hi == hi {
			continue
		}
		out = append(out, r)
	}
	if len(out) > 32 {
		out = out[1:]
	}
	st.ranges = st.ranges.Set(id, append(out, nr))
}

// rangeRace reports an access to lo..hi-1 that conflicts with a recorded one.
func (ex *Exec) rangeRace(st *State, g *G, obj int, path []PE, rr []rangeRec, lo, hi *Term, write bool) {
	c := ex.c
	for _, r := range rr {
		if r.g == g.id || r.c <= g.vc.get(r.g) || !write && !r.write {
			continue
		}
		overlap := c.And(c.Slt(lo, r.hi), c.Slt(r.lo, hi))
		if v, ok := ex.known(st, overlap); ok && !v {
			continue
		}
		m := st.model
		if !ex.evalB(st, overlap) {
			res, nm := ex.sat(st, overlap)
			if res != Sat {
				continue
			}
			m = nm
		}
		if st.opts.races {
			st.cur = g.idx(st)
			ex.violate(st, "race", "data race on memory allocated at "+ex.fieldKey(st, obj, path), m)
		}
		if k := ex.fieldKey(st, obj, path); !ex.shared[k] {
			ex.shared[k] = true
			ex.newShared = true
			ex.stats.Flagged = append(ex.stats.Flagged, k)
		}
		return
	}
}

// inInit: package initialisation happens before everything else, although the engine runs it on demand.
func (g *G) inInit() bool {
	for _, f := range g.frames {
		if f.fi.isInit {
			return true
		}
	}
	return false
}

// after reports whether v has an access by another goroutine that g has not synchronised with.
func after(v VC, g *G) bool {
	for i, c := range v {
		if i != g.id && c > g.vc.get(i) {
			return true
		}
	}
	return false
}

// accessAtomic records an atomic access: it races with plain ones only.
func (ex *Exec) accessAtomic(st *State, g *G, p Ptr, write bool) {
	if g.vc == nil || !st.opts.races || p.obj == 0 || ex.inAtomic(st, g) {
		return
	}
	id := ex.locID(p.obj, p.path)
	r, _ := st.acc.Get(id).(*accRec)
	n := accRec{wg: -1}
	if r != nil {
		n = *r
		if r.wg >= 0 && r.wg != g.id && r.wc > g.vc.get(r.wg) || write && after(r.reads, g) {
			st.cur = g.idx(st)
			ex.violate(st, "race", "atomic and plain access race on memory allocated at "+ex.fieldKey(st, p.obj, p.path), st.model)
		}
	}
	if write {
		n.aw = n.aw.set(g.id, g.vc.get(g.id))
	} else {
		n.ar = n.ar.set(g.id, g.vc.get(g.id))
	}
	st.acc = st.acc.Set(id, &n)
}

func (ex *Exec) acquire(st *State, g *G, id int) {
	if g.vc == nil {
		return
	}
	if v, ok := st.vcs.Get(id).(VC); ok {
		g.vc = g.vc.join(v)
	}
}
func (ex *Exec) release(st *State, g *G, id int) {
	if g.vc == nil {
		return
	}
	v, _ := st.vcs.Get(id).(VC)
	st.vcs = st.vcs.Set(id, v.join(g.vc))
	g.vc = g.vc.inc(g.id)
}

// lib reports whether the library has allocated obj, other than in a package that runs atomically: what such a package
// does with it counts as an access.
func (ex *Exec) lib(st *State, obj int) bool {
	o := st.obj(obj)
	if o == nil || o.key == 0 {
		return false
	}
	if b, ok := ex.libs[o.key]; ok {
		return b
	}
	n := ex.P.keyName(o.key)
	i := strings.LastIndexByte(n, '[')
	b := false
	if i >= 0 {
		pkg := strings.TrimSuffix(n[i+1:], "]")
		b = (pkg == "github.com/savaki/kafka" || strings.HasPrefix(pkg, "github.com/savaki/kafka/")) && !strings.Contains(pkg, "/zz_") && !ex.atomicPkg(st, pkg)
	}
	if ex.libs == nil {
		ex.libs = map[int]bool{}
	}
	ex.libs[o.key] = b
	return b
}

func (ex *Exec) allocKey(st *State, g *G, in ssa.Instruction) int {
	if g.vc == nil {
		fn := in.Parent()
		k, ok := ex.pkeys[fn]
		if !ok {
			if ex.pkeys == nil {
				ex.pkeys = map[*ssa.Function]int{}
			}
			k = ex.keyID("memory [" + ex.info(fn).pkg + "]")
			ex.pkeys[fn] = k
		}
		return k
	}
	k := akey{in, g.id}
	if ex.akeys == nil {
		ex.akeys = map[akey]int{}
	}
	if i, ok := ex.akeys[k]; ok {
		return i
	}
	i := ex.P.keyID(fmt.Sprintf("%s@g%d [%s]", ex.posOf(in.Pos())+in.Parent().Name(), g.id, ex.info(in.Parent()).pkg))
	ex.akeys[k] = i
	return i
}

type akey struct {
	in ssa.Instruction
	g  int
}

// ---- channels ----

func (ex *Exec) chanVC(st *State, g *G, obj int) {
	if g.vc == nil {
		return
	}
	id := ex.locID(obj, nil)
	ex.acquire(st, g, id)
	ex.release(st, g, id)
}

func (cd *ChanData) copy() *ChanData {
	n := *cd
	n.buf = cd.buf[:len(cd.buf):len(cd.buf)]
	n.recvq = cd.recvq[:len(cd.recvq):len(cd.recvq)]
	n.sendq = cd.sendq[:len(cd.sendq):len(cd.sendq)]
	return &n
}

// dequeueAll removes goroutine gi from every wait queue.
func (ex *Exec) dequeueAll(st *State, gi int, chans []int) {
	for _, ch := range chans {
		cd := st.obj(ch).val.(*ChanData)
		n := cd.copy()
		n.recvq, n.sendq = nil, nil
		for _, w := range cd.recvq {
			if w.g != gi {
				n.recvq = append(n.recvq, w)
			}
		}
		for _, w := range cd.sendq {
			if w.g != gi {
				n.sendq = append(n.sendq, w)
			}
		}
		st.setObj(ch, n)
	}
}

// wakeRecv delivers a value to a waiting receiver.
func (ex *Exec) wakeRecv(st *State, w waiter, v Value, ok bool, ch int) {
	h := st.gs[w.g]
	ex.dequeueAll(st, w.g, h.waitChans)
	h.waiting, h.waitChans = false, nil
	fr := st.top(h)
	ex.finishRecv(st, h, fr, w.cas, v, ok)
	ex.chanVC(st, h, ch)
}

func (ex *Exec) finishRecv(st *State, h *G, fr *Frame, cas int, v Value, ok bool) {
	switch x := fr.blk.Instrs[fr.ip].(type) {
	case *ssa.UnOp:
		if x.CommaOk {
			fr.setRes(x, Tuple{v, ex.c.Bool(ok)})
		} else {
			fr.setRes(x, v)
		}
	case *ssa.Select:
		ex.finishSelect(st, fr, x, cas, v, ok)
	default:
		ex.abort("internal", "wake of non-receiver")
	}
}

func (ex *Exec) finishSelect(st *State, fr *Frame, x *ssa.Select, cas int, v Value, ok bool) {
	t := Tuple{ex.c.I64(int64(cas)), ex.c.Bool(ok)}
	for i, s := range x.States {
		if s.Dir == types.RecvOnly {
			if i == cas && v != nil {
				t = append(t, v)
			} else {
				t = append(t, ex.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	fr.setRes(x, t)
}

// wakeSend completes a waiting sender.
func (ex *Exec) wakeSend(st *State, w waiter, ch int) {
	h := st.gs[w.g]
	ex.dequeueAll(st, w.g, h.waitChans)
	h.waiting, h.waitChans = false, nil
	fr := st.top(h)
	switch x := fr.blk.Instrs[fr.ip].(type) {
	case *ssa.Send:
		fr.ip++
	case *ssa.Select:
		ex.finishSelect(st, fr, x, w.cas, nil, false)
	default:
		ex.abort("internal", "wake of non-sender")
	}
	ex.chanVC(st, h, ch)
}

func (ex *Exec) canSend(cd *ChanData) bool {
	return cd.closed || len(cd.recvq) > 0 || len(cd.buf) < cd.cap
}
func (ex *Exec) canRecv(cd *ChanData) bool {
	return len(cd.buf) > 0 || len(cd.sendq) > 0 || cd.closed
}

// doSend performs a ready send; false when it panicked.
func (ex *Exec) doSend(st *State, g *G, ch int, v Value) bool {
	cd := st.obj(ch).val.(*ChanData)
	if cd.closed {
		ex.goPanic(st, g, "send on closed channel")
		return false
	}
	ex.chanVC(st, g, ch)
	if len(cd.recvq) > 0 {
		ex.wakeRecv(st, cd.recvq[0], v, true, ch)
		return true
	}
	n := cd.copy()
	n.buf = append(n.buf, v)
	st.setObj(ch, n)
	return true
}

func (ex *Exec) doRecv(st *State, g *G, ch int) (Value, bool) {
	cd := st.obj(ch).val.(*ChanData)
	ex.chanVC(st, g, ch)
	if len(cd.buf) > 0 {
		v := cd.buf[0]
		n := cd.copy()
		n.buf = append([]Value(nil), cd.buf[1:]...)
		if len(cd.sendq) > 0 {
			w := cd.sendq[0]
			n.buf = append(n.buf, w.val)
			st.setObj(ch, n)
			ex.wakeSend(st, w, ch)
			return v, true
		}
		st.setObj(ch, n)
		return v, true
	}
	if len(cd.sendq) > 0 {
		w := cd.sendq[0]
		ex.wakeSend(st, w, ch)
		return w.val, true
	}
	return ex.zero(cd.et), false // closed
}

func (ex *Exec) chanSend(st *State, g *G, fr *Frame, x *ssa.Send) {
	ch := ex.get(st, fr, x.Chan).(ChanV)
	v := ex.get(st, fr, x.X)
	if ch.obj == 0 {
		g.waiting = true
		return
	}
	cd := st.obj(ch.obj).val.(*ChanData)
	if ex.canSend(cd) {
		if ex.doSend(st, g, ch.obj, v) {
			st.top(g).ip++
		}
		return
	}
	n := cd.copy()
	n.sendq = append(n.sendq, waiter{g: g.id, cas: -1, val: v})
	st.setObj(ch.obj, n)
	if g.vc != nil {
		ex.release(st, g, ex.locID(ch.obj, nil))
	}
	g.waiting = true
	g.waitChans = []int{ch.obj}
}

func (ex *Exec) chanRecv(st *State, g *G, fr *Frame, x *ssa.UnOp) {
	ch := ex.get(st, fr, x.X).(ChanV)
	if ch.obj == 0 {
		g.waiting = true
		return
	}
	cd := st.obj(ch.obj).val.(*ChanData)
	if ex.canRecv(cd) {
		v, ok := ex.doRecv(st, g, ch.obj)
		ex.finishRecv(st, g, st.top(g), -1, v, ok)
		return
	}
	n := cd.copy()
	n.recvq = append(n.recvq, waiter{g: g.id, cas: -1})
	st.setObj(ch.obj, n)
	g.waiting = true
	g.waitChans = []int{ch.obj}
}

func (ex *Exec) chanClose(st *State, g *G, ch ChanV) {
	if ch.obj == 0 {
		ex.goPanic(st, g, "close of nil channel")
		return
	}
	cd := st.obj(ch.obj).val.(*ChanData)
	if cd.closed {
		ex.goPanic(st, g, "close of closed channel")
		return
	}
	ex.chanVC(st, g, ch.obj)
	n := cd.copy()
	n.closed = true
	st.setObj(ch.obj, n)
	for _, w := range cd.recvq {
		if st.gs[w.g].waiting {
			ex.wakeRecv(st, w, ex.zero(cd.et), false, ch.obj)
		}
	}
	for _, w := range cd.sendq {
		h := st.gs[w.g]
		if !h.waiting {
			continue
		}
		ex.dequeueAll(st, w.g, h.waitChans)
		h.waiting, h.waitChans = false, nil
		ex.goPanic(st, h, "send on closed channel")
	}
}

func (ex *Exec) selectOp(st *State, g *G, fr *Frame, x *ssa.Select) {
	var ready []int
	chans := make([]int, len(x.States))
	for i, s := range x.States {
		ch := ex.get(st, fr, s.Chan).(ChanV)
		chans[i] = ch.obj
		if ch.obj == 0 {
			continue
		}
		cd := st.obj(ch.obj).val.(*ChanData)
		if s.Dir == types.SendOnly && ex.canSend(cd) || s.Dir == types.RecvOnly && ex.canRecv(cd) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := ready[ex.choose(st, len(ready))]
		if len(ready) > 1 {
			st.trace = &traceEv{prev: st.trace, g: g.id, pos: ex.instrPos(fr), what: fmt.Sprintf("select case %d", k)}
		}
		s := x.States[k]
		if s.Dir == types.SendOnly {
			if ex.doSend(st, g, chans[k], ex.get(st, fr, s.Send)) {
				ex.finishSelect(st, st.top(g), x, k, nil, false)
			}
			return
		}
		v, ok := ex.doRecv(st, g, chans[k])
		ex.finishSelect(st, st.top(g), x, k, v, ok)
		return
	}
	if !x.Blocking {
		ex.finishSelect(st, fr, x, -1, nil, false)
		return
	}
	for i, s := range x.States {
		if chans[i] == 0 {
			continue
		}
		cd := st.obj(chans[i]).val.(*ChanData)
		n := cd.copy()
		if s.Dir == types.SendOnly {
			n.sendq = append(n.sendq, waiter{g.id, i, ex.get(st, fr, s.Send)})
			if g.vc != nil {
				ex.release(st, g, ex.locID(chans[i], nil))
			}
		} else {
			n.recvq = append(n.recvq, waiter{g.id, i, nil})
		}
		st.setObj(chans[i], n)
		g.waitChans = append(g.waitChans[:len(g.waitChans):len(g.waitChans)], chans[i])
	}
	g.waiting = true
}

// ---- exploration of interleavings ----

func (ex *Exec) atomicPkg(st *State, pkg string) bool {
	if pkg == vrtPath {
		return true
	}
	for _, p := range st.opts.atomicPkgs {
		if p == pkg {
			return true
		}
	}
	return false
}

func (ex *Exec) inAtomic(st *State, g *G) bool {
	for _, f := range g.frames {
		if ex.atomicPkg(st, f.fi.pkg) {
			return true
		}
	}
	return false
}

// visible reports whether g's next instruction is a scheduling point, and describes it.
func (ex *Exec) visible(st *State, g *G) (string, bool) {
	if ex.inAtomic(st, g) {
		return "resume", st.atom != g.id
	}
	fr := g.top()
	if !fr.unw {
		in := fr.blk.Instrs[fr.ip]
		switch x := in.(type) {
		case *ssa.Send:
			return "send", true
		case *ssa.Select:
			return "select", true
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return "recv", true
			}
			if x.Op == token.MUL && len(ex.shared) > 0 {
				if p, ok := ex.get(st, fr, x.X).(Ptr); ok && p.obj != 0 && ex.shared[ex.fieldKey(st, p.obj, p.path)] {
					return "load", true
				}
			}
			return "", false
		case *ssa.Store:
			if len(ex.shared) > 0 {
				if p, ok := ex.get(st, fr, x.Addr).(Ptr); ok && p.obj != 0 && ex.shared[ex.fieldKey(st, p.obj, p.path)] {
					return "store", true
				}
			}
			return "", false
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "close" {
					return "close", true
				}
				if len(ex.shared) > 0 && (b.Name() == "copy" || b.Name() == "append") {
					for _, a := range x.Call.Args {
						if s, ok := ex.get(st, fr, a).(Slice); ok && s.obj != 0 && ex.shared[ex.fieldKey(st, s.obj, s.path)] {
							return b.Name(), true
						}
					}
				}
				return "", false
			}
		case *ssa.RunDefers:
		default:
			return "", false
		}
	}
	fv, _, ok := ex.pending(st, g)
	if !ok || fv == nil {
		return "", false
	}
	if fv.fn == nil {
		return "builtin " + fv.builtin, fv.builtin == "close"
	}
	fi := ex.info(fv.fn)
	if fi.repl != nil {
		fi = ex.info(fi.repl)
	}
	if fi.intr != nil {
		return fi.name, fi.intr.visible
	}
	if ex.atomicPkg(st, fi.pkg) && !fi.pure {
		return fi.name, true
	}
	return "", false
}

func (ex *Exec) exploreStep(st *State) {
	if st.permit >= 0 {
		g := st.gs[st.permit]
		st.cur = st.permit
		pos := ex.instrPos(g.top())
		ex.step(st, g)
		st.trace = &traceEv{prev: st.trace, g: g.id, pos: pos, what: st.permitOp}
		st.last = g.id
		st.permit = -1
		st.atom = -1
		if !g.done && ex.inAtomic(st, g) {
			st.atom = g.id
		}
		return
	}
	// run invisible steps of every goroutine
	if st.atom >= 0 {
		g := st.gs[st.atom]
		st.cur = st.atom
		for {
			if g.done || g.waiting || !ex.inAtomic(st, g) || !ex.canStep(st, g) {
				st.atom = -1
				break
			}
			ex.step(st, g)
			if st.gs[0].done {
				ex.finish(st)
			}
		}
	}
	for i := 0; i < len(st.gs); i++ {
		g := st.gs[i]
		for !g.done && !g.waiting {
			if _, v := ex.visible(st, g); v {
				break
			}
			if !ex.canStep(st, g) {
				break
			}
			st.cur = i
			ex.step(st, g)
			if !st.opts.explore {
				return
			}
		}
	}
	if st.gs[0].done {
		ex.finish(st)
	}
	h := ex.canon(st)
	for n := st.solo; n != nil; n = n.prev {
		if n.h == h && !ex.timersPending(st) {
			ex.livelock(st)
		}
	}
	if _, ok := ex.seen[h]; ok {
		panic(stop{"pruned", ""})
	}
	ex.seen[h] = struct{}{}
	ex.stats.States++
	if ex.stats.States > ex.lim.MaxStates {
		ex.abort("bound", "state limit")
	}
	if ex.stats.States&255 == 0 && time.Now().After(ex.lim.Deadline) {
		ex.abort("bound", "time limit")
	}
	var en []int
	for i, g := range st.gs {
		if !g.done && !g.waiting && ex.canStep(st, g) {
			en = append(en, i)
		}
	}
	if len(en) == 0 {
		ex.deadlock(st)
	}
	if len(en) == 1 {
		st.solo = &soloNode{h, en[0], st.solo}
	} else {
		st.solo = nil
	}
	lastEn := -1
	for k, i := range en {
		if i == st.last {
			lastEn = k
		}
	}
	if m := st.opts.maxPreempt; (m > 0 || m == -1) && lastEn >= 0 && st.preempt >= m {
		if len(en) > 1 {
			ex.stats.PreemptCut++
		}
		en = []int{st.last}
		lastEn = 0
	}
	if lastEn > 0 {
		en[0], en[lastEn] = en[lastEn], en[0]
		lastEn = 0
	}
	// priorities: the schedule is fixed (who runs goes on until it blocks), but for a number of deviations, each of
	// which makes the goroutines that would go on wait until all others are blocked
	prios := st.opts.maxPreempt <= -2
	if prios {
		sort.SliceStable(en, func(a, b int) bool { return st.gs[en[a]].prio < st.gs[en[b]].prio })
		if st.preempt >= -2-st.opts.maxPreempt {
			if len(en) > 1 {
				ex.stats.PreemptCut++
			}
			en = en[:1]
		}
	}
	for k := len(en) - 1; k >= 1; k-- {
		n := ex.clone(st)
		n.permit = en[k]
		n.permitOp, _ = ex.visible(st, st.gs[en[k]])
		if prios {
			low := 0
			for _, g := range n.gs {
				if g.prio > low {
					low = g.prio
				}
			}
			for _, i := range en[:k] {
				low++
				n.gs[i].prio = low
			}
		}
		if lastEn >= 0 || prios {
			n.preempt++
		}
		ex.work = append(ex.work, n)
	}
	st.permit = en[0]
	st.permitOp, _ = ex.visible(st, st.gs[en[0]])
}

// soloNode is a state in which one goroutine only could go on, after others (prev) of that kind. Coming back to such
// a state means that it goes on like this forever.
type soloNode struct {
	h    [16]byte
	g    int
	prev *soloNode
}

// timersPending: time passes only once nothing can run.
func (ex *Exec) timersPending(st *State) bool {
	for _, g := range st.gs {
		if g.done || g.waiting || len(g.frames) == 0 {
			continue
		}
		if fv, _, ok := ex.pending(st, g); ok && fv != nil && fv.fn != nil && ex.info(fv.fn).intr == intrinsics[vrtPath+".timerWait"] && intrinsics[vrtPath+".timerWait"] != nil {
			return true
		}
	}
	return false
}

// livelock: the current goroutine repeats itself and nothing else can run.
func (ex *Exec) livelock(st *State) {
	if st.opts.allowDead {
		ex.finish(st)
	}
	msg := "goroutines run in circles for ever while the harness waits:"
	for _, g := range st.gs {
		if !g.done {
			s := ex.stack(st, g)
			if len(s) > 4 {
				s = s[:4]
			}
			msg += fmt.Sprintf(" | goroutine %d (%s): %s", g.id, g.name, strings.Join(s, " < "))
		}
	}
	ex.violate(st, "hang", msg, st.model)
}

// spinning looks for a goroutine that repeats itself: at the anchor (set after ever more steps) the state is compared.
func (ex *Exec) spinning(st *State, g *G) bool {
	n := st.steps - st.runFrom
	if n >= 1<<13 && n&(n-1) == 0 {
		st.anchor = &anchor{g: g.id, depth: len(g.frames), blk: g.top().blk, ip: g.top().ip, h: ex.canon(st), budget: 100}
		return false
	}
	a := st.anchor
	if a == nil || a.g != g.id || a.depth != len(g.frames) || a.blk != g.top().blk || a.ip != g.top().ip || a.budget == 0 {
		return false
	}
	b := *a
	b.budget--
	st.anchor = &b
	return ex.canon(st) == a.h
}

type anchor struct {
	g, depth, ip int
	blk          *ssa.BasicBlock
	h            [16]byte
	budget       int
}

// ---- canonical state hash ----

type canonW struct {
	ex  *Exec
	st  *State
	b   []byte
	ids map[int]int
	q   []int
}

func (w *canonW) u(x int)    { w.b = binary.AppendUvarint(w.b, uint64(x)) }
func (w *canonW) s(x string) { w.u(len(x)); w.b = append(w.b, x...) }
func (w *canonW) bool(x bool) {
	if x {
		w.b = append(w.b, 1)
	} else {
		w.b = append(w.b, 0)
	}
}
func (w *canonW) ref(obj int) {
	if obj == 0 {
		w.u(0)
		return
	}
	i, ok := w.ids[obj]
	if !ok {
		i = len(w.ids) + 1
		w.ids[obj] = i
		w.q = append(w.q, obj)
	}
	w.u(i)
}
func (w *canonW) path(p []PE) {
	w.u(len(p))
	for _, e := range p {
		if e.t != nil {
			w.u(1)
			w.u(e.t.id)
		} else {
			w.u(0)
			w.u(e.i)
		}
	}
}
func (w *canonW) rope(r *Rope) {
	w.u(len(r.segs))
	for _, s := range r.segs {
		if s.lit != nil {
			w.u(1)
			w.u(len(s.lit))
			for _, t := range s.lit {
				w.u(t.id)
			}
		} else {
			w.u(2)
			w.s(s.blob)
			if s.off != nil {
				w.u(s.off.id)
			}
			w.u(s.n.id)
		}
	}
}
func (w *canonW) val(v Value) {
	switch x := v.(type) {
	case nil:
		w.b = append(w.b, 'n')
	case *Term:
		w.b = append(w.b, 't')
		w.u(x.id)
	case Ptr:
		w.b = append(w.b, 'p')
		w.ref(x.obj)
		w.path(x.path)
	case Slice:
		w.b = append(w.b, 's')
		w.ref(x.obj)
		w.path(x.path)
		w.u(x.off.id)
		w.u(x.len.id)
		w.u(x.cap.id)
	case Str:
		w.b = append(w.b, 'S')
		w.rope(x.r)
	case *StructV:
		w.b = append(w.b, '{')
		for _, f := range x.f {
			w.val(f)
		}
		w.b = append(w.b, '}')
	case *ArrV:
		w.b = append(w.b, 'a')
		w.u(x.n.id)
		w.u(x.m.n)
		x.m.Each(func(k int, v interface{}) bool {
			w.u(k)
			w.val(v)
			return true
		})
		if x.rope != nil {
			w.rope(x.rope)
		}
	case Iface:
		w.b = append(w.b, 'i')
		if x.t == nil {
			w.u(0)
		} else {
			w.u(w.ex.P.typeID(x.t))
			w.val(x.v)
		}
	case *FuncV:
		w.b = append(w.b, 'f')
		if x != nil {
			if x.fn != nil {
				w.u(w.ex.info(x.fn).id)
			}
			w.s(x.builtin)
			w.u(len(x.bind))
			for _, b := range x.bind {
				w.val(b)
			}
		}
	case MapV:
		w.b = append(w.b, 'm')
		w.ref(x.obj)
	case ChanV:
		w.b = append(w.b, 'c')
		w.ref(x.obj)
	case Tuple:
		w.b = append(w.b, '(')
		for _, f := range x {
			w.val(f)
		}
		w.b = append(w.b, ')')
	case FloatV:
		w.s(fmt.Sprint(x.f))
	case *RangeV:
		w.b = append(w.b, 'r')
		w.ref(x.obj)
		if x.isStr {
			w.rope(x.str.r)
		}
	case *MapData:
		w.u(len(x.keys))
		for i := range x.keys {
			w.val(x.keys[i])
			w.val(x.vals[i])
		}
	case *ChanData:
		w.u(x.cap)
		w.bool(x.closed)
		w.u(len(x.buf))
		for _, v := range x.buf {
			w.val(v)
		}
		for _, q := range [][]waiter{x.recvq, x.sendq} {
			w.u(len(q))
			for _, a := range q {
				w.u(a.g)
				w.u(a.cas + 1)
				w.val(a.val)
			}
		}
	case *IterData:
		w.u(x.pos)
		w.ref(x.m)
		for _, k := range x.keys {
			w.val(k)
		}
	default:
		w.s(fmt.Sprintf("%T", v))
	}
}

func (ex *Exec) canon(st *State) [16]byte {
	w := &canonW{ex: ex, st: st, ids: map[int]int{}, b: make([]byte, 0, 4096)}
	for _, g := range st.gs {
		w.bool(g.done)
		if g.done {
			continue
		}
		w.bool(g.waiting)
		w.u(len(g.frames))
		for fi, fr := range g.frames {
			w.u(fr.fi.id)
			w.u(fr.blk.Index)
			w.u(fr.ip)
			w.u(int(fr.rk))
			w.u(fr.slot + 1)
			w.bool(fr.unw)
			ip := fr.ip
			if fi < len(g.frames)-1 && g.frames[fi+1].rk == retNormal {
				ip++
			}
			for _, s := range fr.fi.liveAt(fr.blk, ip) {
				w.val(fr.env[s])
			}
			w.u(len(fr.defers))
			for _, d := range fr.defers {
				w.val(d.fn)
				for _, a := range d.args {
					w.val(a)
				}
			}
			if len(fr.br) > 0 {
				ks := make([]int, 0, len(fr.br))
				for k := range fr.br {
					ks = append(ks, k)
				}
				sort.Ints(ks)
				for _, k := range ks {
					w.u(k)
					w.u(fr.br[k])
				}
			}
		}
		if g.panic != nil {
			w.s(g.panic.msg)
		}
	}
	st.globals.Each(func(k int, v interface{}) bool {
		w.u(k)
		w.ref(v.(int))
		return true
	})
	for len(w.q) > 0 {
		o := w.q[0]
		w.q = w.q[1:]
		ob := st.obj(o)
		w.u(ob.key)
		w.val(ob.val)
	}
	ids := make([]int, len(st.pc))
	for i, t := range st.pc {
		ids[i] = t.id
	}
	sort.Ints(ids)
	for _, i := range ids {
		w.u(i)
	}
	w.s(strings.Join(st.opts.atomicPkgs, ","))
	if st.opts.maxPreempt != 0 {
		w.u(st.preempt)
		w.u(st.last + 1)
	}
	if st.opts.maxPreempt <= -2 {
		for _, g := range st.gs {
			if !g.done {
				w.u(g.prio)
			}
		}
	}
	w.u(len(st.nd))
	w.s(st.ghostKey())
	return md5.Sum(w.b)
}

func (st *State) ghostKey() string {
	if len(st.ghost) == 0 {
		return ""
	}
	ks := make([]string, 0, len(st.ghost))
	for k, v := range st.ghost {
		if t, ok := v.(*Term); ok {
			ks = append(ks, k+"="+strconv.Itoa(t.id))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}
