package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) info(fn *ssa.Function) *FnInfo {
	if fi, ok := ex.infos[fn]; ok {
		return fi
	}
	if ex.infos == nil {
		ex.infos = map[*ssa.Function]*FnInfo{}
	}
	fi := ex.P.info(fn)
	ex.infos[fn] = fi
	return fi
}

// goPanic starts a Go panic in g.
func (ex *Exec) goPanic(st *State, g *G, msg string) {
	v := Iface{t: types.Typ[types.String], v: Str{ex.c.ropeLit([]byte(msg))}}
	ex.goPanicV(st, g, v, msg)
}

func (ex *Exec) goPanicV(st *State, g *G, v Value, msg string) {
	g.panic = &PanicInfo{val: v, msg: msg, pos: ex.stack(st, g)}
	fr := st.top(g)
	fr.unw = true
}

func (ex *Exec) describe(st *State, v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		switch y := x.v.(type) {
		case Str:
			if b, ok := y.r.concrete(); ok {
				return string(b)
			}
		case *Term:
			return y.String()
		}
		return x.t.String()
	case Str:
		return x.r.String()
	}
	return fmt.Sprintf("%T", v)
}

// setRes stores the result of the current instruction and advances.
func (fr *Frame) setRes(in ssa.Instruction, v Value) {
	if sv, ok := in.(ssa.Value); ok {
		fr.env[fr.fi.slots[sv]] = v
	}
	fr.ip++
}

func (ex *Exec) jump(st *State, fr *Frame, to *ssa.BasicBlock) {
	from := fr.blk
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	n := 0
	var vals []Value
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, ex.get(st, fr, ph.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		fr.env[fr.fi.slots[to.Instrs[i].(*ssa.Phi)]] = vals[i]
	}
	fr.blk, fr.ip = to, n
}

func (ex *Exec) returnVal(st *State, g *G, v Value) {
	fr := g.top()
	g.frames = g.frames[: len(g.frames)-1 : len(g.frames)-1]
	if len(g.frames) == 0 {
		g.done = true
		return
	}
	switch fr.rk {
	case retNormal:
		c := st.top(g)
		if fr.slot >= 0 {
			c.env[fr.slot] = v
		}
		c.ip++
	case retStrNext:
		c := st.top(g)
		tv := v.(Tuple) // rune, size
		it := fr.fixed.(strNext)
		sz := ex.concretize(st, tv[1].(*Term))
		d := st.obj(it.obj).val.(*IterData)
		st.setObj(it.obj, &IterData{pos: d.pos + int(sz)})
		c.env[fr.slot] = Tuple{ex.c.True, ex.c.I64(int64(d.pos)), tv[0]}
		c.ip++
	}
}

type strNext struct{ obj int }

// resolve finds the callee and arguments of a call.
func (ex *Exec) resolve(st *State, fr *Frame, cc *ssa.CallCommon) (fv *FuncV, args []Value, nilIface bool) {
	if cc.IsInvoke() {
		rv := ex.get(st, fr, cc.Value).(Iface)
		if rv.t == nil {
			return nil, nil, true
		}
		fn := ex.method(rv.t, cc.Method)
		args = append(args, rv.v)
		for _, a := range cc.Args {
			args = append(args, ex.get(st, fr, a))
		}
		return &FuncV{fn: fn}, args, false
	}
	fv, _ = ex.get(st, fr, cc.Value).(*FuncV)
	args = make([]Value, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = ex.get(st, fr, a)
	}
	return fv, args, false
}

type mkey struct {
	t types.Type
	m *types.Func
}

func (ex *Exec) method(t types.Type, m *types.Func) *ssa.Function {
	if ex.methods == nil {
		ex.methods = map[mkey]*ssa.Function{}
	}
	k := mkey{t, m}
	if f, ok := ex.methods[k]; ok {
		return f
	}
	ex.P.mu.Lock()
	f := ex.P.prog.LookupMethod(t, m.Pkg(), m.Name())
	ex.P.mu.Unlock()
	if f == nil {
		ex.abort("unsupported", fmt.Sprintf("method %s of %s", m.Name(), t))
	}
	ex.methods[k] = f
	return f
}

// pending returns the call the next step of g performs, if any.
func (ex *Exec) pending(st *State, g *G) (fv *FuncV, args []Value, ok bool) {
	fr := g.top()
	if fr.unw {
		if n := len(fr.defers); n > 0 {
			return fr.defers[n-1].fn, fr.defers[n-1].args, true
		}
		return nil, nil, false
	}
	switch in := fr.blk.Instrs[fr.ip].(type) {
	case *ssa.Call:
		if _, b := in.Call.Value.(*ssa.Builtin); b {
			return nil, nil, false
		}
		if sc := in.Call.StaticCallee(); sc != nil {
			fi := ex.info(sc)
			if fi.intr == nil {
				return &FuncV{fn: sc}, nil, true
			}
		}
		fv, args, nilI := ex.resolve(st, fr, &in.Call)
		if nilI || fv == nil {
			return nil, nil, false
		}
		return fv, args, true
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			return fr.defers[n-1].fn, fr.defers[n-1].args, true
		}
	}
	return nil, nil, false
}

// canStep reports whether g can execute its next instruction.
func (ex *Exec) canStep(st *State, g *G) bool {
	if g.done || g.waiting {
		return false
	}
	fr := g.top()
	if !fr.unw {
		switch fr.blk.Instrs[fr.ip].(type) {
		case *ssa.Call, *ssa.RunDefers:
		default:
			return true
		}
	}
	fv, args, ok := ex.pending(st, g)
	if !ok || fv == nil || fv.fn == nil {
		return true
	}
	fi := ex.info(fv.fn)
	if fi.intr != nil && fi.intr.enabled != nil {
		return fi.intr.enabled(ex, st, g, args)
	}
	return true
}

// callFn performs a call. rk tells what to do with the result.
func (ex *Exec) callFn(st *State, g *G, fv *FuncV, args []Value, rk retKind, slot int) {
	if fv == nil {
		ex.goPanic(st, g, "runtime error: invalid memory address or nil pointer dereference (nil func)")
		return
	}
	if fv.fn == nil {
		// builtin used as a deferred call or value
		v := ex.builtin(st, g, fv.builtin, args, nil)
		ex.callDone(st, g, v, rk, slot)
		return
	}
	fn := fv.fn
	fi := ex.info(fn)
	if ex.contractT != "" && fn.Name() == "Decode" && fn.Signature.Recv() != nil && len(args) == 3 && fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath+"/message" {
		// a nested structure's Decode is replaced by its contract
		if p, ok := fn.Signature.Recv().Type().(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok && n.Obj().Name() != ex.contractT {
				fn = ex.contractFn
				fi = ex.info(fn)
				args = args[1:]
			}
		}
	}
	if fi.repl != nil {
		fn = fi.repl
		fi = ex.info(fn)
	}
	if fi.intr != nil {
		np := g.panic
		v := fi.intr.f(ex, st, g, args)
		if g.panic != np && g.panic != nil {
			return
		}
		if g.waiting {
			return
		}
		ex.callDone(st, g, v, rk, slot)
		return
	}
	if len(fn.Blocks) == 0 {
		ex.abort("unsupported", "function without body: "+fi.name)
	}
	if strings.HasPrefix(fi.pkg, modPath) && !strings.HasPrefix(fi.pkg, modPath+"/zz_") && !strings.HasPrefix(fn.Name(), "zz") {
		ex.stats.Fns[fi.name]++
	}
	if len(g.frames) > 300 {
		ex.abort("bound", "call depth")
	}
	nf := &Frame{fi: fi, blk: fn.Blocks[0], env: make([]Value, fi.n), slot: slot, owner: st.id, rk: rk}
	copy(nf.env, args)
	copy(nf.env[len(fn.Params):], fv.bind)
	g.frames = append(g.frames[:len(g.frames):len(g.frames)], nf)
}

func (ex *Exec) callDone(st *State, g *G, v Value, rk retKind, slot int) {
	if rk != retNormal {
		return
	}
	fr := st.top(g)
	if slot >= 0 {
		fr.env[slot] = v
	}
	fr.ip++
}

// unwind performs one step of panic unwinding / recovery.
func (ex *Exec) unwind(st *State, g *G) {
	fr := st.top(g)
	if n := len(fr.defers); n > 0 {
		d := fr.defers[n-1]
		fr.defers = fr.defers[: n-1 : n-1]
		ex.callFn(st, g, d.fn, d.args, retPanicDefer, -1)
		return
	}
	if g.panic == nil { // recovered
		fr.unw = false
		if fr.fi.fn.Recover != nil {
			fr.blk, fr.ip = fr.fi.fn.Recover, 0
			return
		}
		var v Value
		res := fr.fi.fn.Signature.Results()
		switch res.Len() {
		case 0:
		case 1:
			v = ex.zero(res.At(0).Type())
		default:
			v = ex.zero(res)
		}
		ex.returnVal(st, g, v)
		return
	}
	if len(g.frames) == 1 {
		where := ""
		for _, w := range g.panic.pos {
			where += " < " + w
			if len(where) > 400 {
				break
			}
		}
		st.cur = g.idx(st)
		ex.violate(st, "panic", "panic: "+g.panic.msg+where, st.model)
	}
	g.frames = g.frames[: len(g.frames)-1 : len(g.frames)-1]
	st.top(g).unw = true
}

func (g *G) idx(st *State) int {
	for i, h := range st.gs {
		if h == g {
			return i
		}
	}
	return 0
}

func (ex *Exec) step(st *State, g *G) {
	ex.countStep(st)
	fr := st.top(g)
	if fr.unw {
		ex.unwind(st, g)
		return
	}
	in := fr.blk.Instrs[fr.ip]
	if fr.fi.hasGlobals(in) && ex.initOf(st, g, in, fr) {
		return
	}
	c := ex.c
	switch x := in.(type) {
	case *ssa.DebugRef:
		fr.ip++
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		z := ex.zero(t)
		if a, ok := z.(*ArrV); ok && ex.scale > 1 && fr.fi.pkg == modPath && a.n.isConst() && a.n.sval() >= scaleFrom {
			n := *a
			n.n = ex.c.I64(ex.scaled(a.n.sval()))
			z = &n
		}
		id := ex.newObj(st, z, ex.allocKey(st, g, x))
		fr.setRes(in, Ptr{obj: id})
	case *ssa.UnOp:
		ex.unop(st, g, fr, x)
	case *ssa.BinOp:
		if v, ok := ex.binop(st, g, x.Op, ex.get(st, fr, x.X), ex.get(st, fr, x.Y), x.X.Type(), x.Y.Type()); ok {
			fr.setRes(in, v)
		}
	case *ssa.Call:
		slot := fr.fi.slots[x]
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			args := make([]Value, len(x.Call.Args))
			for i, a := range x.Call.Args {
				args[i] = ex.get(st, fr, a)
			}
			np := g.panic
			if b.Name() == "recover" {
				np = nil
				v := ex.recover(st, g, fr)
				fr.setRes(in, v)
				return
			}
			v := ex.builtin(st, g, b.Name(), args, x)
			if g.panic != np {
				return
			}
			fr.setRes(in, v)
			return
		}
		fv, args, nilI := ex.resolve(st, fr, &x.Call)
		if nilI {
			ex.goPanic(st, g, "runtime error: invalid memory address or nil pointer dereference (nil interface)")
			return
		}
		// calls into other packages' initialisers are lazy
		if fv != nil && fv.fn != nil && fv.fn.Synthetic == "package initializer" {
			fr.ip++
			return
		}
		if fv != nil && fv.fn != nil && fr.fi.fn.Synthetic == "package initializer" && skipInitFn(fv.fn) {
			fr.ip++
			return
		}
		ex.callFn(st, g, fv, args, retNormal, slot)
	case *ssa.ChangeInterface:
		fr.setRes(in, ex.get(st, fr, x.X))
	case *ssa.ChangeType:
		fr.setRes(in, ex.get(st, fr, x.X))
	case *ssa.Convert:
		if ts, ok := x.Type().Underlying().(*types.Slice); ok && !isByte(ts.Elem()) {
			if s, ok := ex.get(st, fr, x.X).(Str); ok {
				if _, con := s.r.concrete(); !con {
					ex.callFn(st, g, &FuncV{fn: ex.P.vrt.Func("toRunes")}, []Value{s}, retNormal, fr.fi.slots[x])
					return
				}
			}
		}
		fr.setRes(in, ex.convert(st, g, ex.get(st, fr, x.X), x.X.Type(), x.Type(), x))
	case *ssa.MultiConvert:
		fr.setRes(in, ex.convert(st, g, ex.get(st, fr, x.X), x.X.Type(), x.Type(), x))
	case *ssa.MakeInterface:
		fr.setRes(in, Iface{t: x.X.Type(), v: ex.get(st, fr, x.X)})
	case *ssa.Extract:
		fr.setRes(in, ex.get(st, fr, x.Tuple).(Tuple)[x.Index])
	case *ssa.Field:
		fr.setRes(in, ex.get(st, fr, x.X).(*StructV).f[x.Field])
	case *ssa.FieldAddr:
		p := ex.get(st, fr, x.X).(Ptr)
		if p.obj == 0 {
			ex.goPanic(st, g, "runtime error: invalid memory address or nil pointer dereference")
			return
		}
		fr.setRes(in, Ptr{p.obj, sub(p.path, PE{i: x.Field})})
	case *ssa.IndexAddr:
		ex.indexAddr(st, g, fr, x)
	case *ssa.Index:
		ex.index(st, g, fr, x)
	case *ssa.Lookup:
		ex.lookup(st, g, fr, x)
	case *ssa.Slice:
		ex.sliceOp(st, g, fr, x)
	case *ssa.SliceToArrayPointer:
		s := ex.get(st, fr, x.X).(Slice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !ex.decide(st, c.Sle(c.I64(n), s.len)) {
			ex.goPanic(st, g, "runtime error: cannot convert slice to array pointer")
			return
		}
		if !(s.off.isConst() && s.off.val == 0) || s.obj == 0 {
			ex.abort("unsupported", "slice to array pointer with offset")
		}
		fr.setRes(in, Ptr{s.obj, s.path})
	case *ssa.MakeSlice:
		ex.makeSlice(st, g, fr, x)
	case *ssa.MakeMap:
		m := x.Type().Underlying().(*types.Map)
		id := ex.newObj(st, &MapData{kt: m.Key(), vt: m.Elem()}, ex.allocKey(st, g, x))
		fr.setRes(in, MapV{id})
	case *ssa.MakeChan:
		n := ex.concretize(st, ex.toI64(ex.get(st, fr, x.Size).(*Term), x.Size.Type()))
		if n < 0 {
			ex.goPanic(st, g, "makechan: size out of range")
			return
		}
		id := ex.newObj(st, &ChanData{cap: int(n), et: x.Type().Underlying().(*types.Chan).Elem()}, ex.allocKey(st, g, x))
		fr.setRes(in, ChanV{id})
	case *ssa.MakeClosure:
		b := make([]Value, len(x.Bindings))
		for i, v := range x.Bindings {
			b[i] = ex.get(st, fr, v)
		}
		fr.setRes(in, &FuncV{fn: x.Fn.(*ssa.Function), bind: b})
	case *ssa.MapUpdate:
		m := ex.get(st, fr, x.Map).(MapV)
		if m.obj == 0 {
			ex.goPanic(st, g, "assignment to entry in nil map")
			return
		}
		k, v := ex.get(st, fr, x.Key), ex.get(st, fr, x.Value)
		md := st.obj(m.obj).val.(*MapData)
		i := ex.mapFind(st, md, k)
		ex.access(st, g, m.obj, nil, true)
		ex.setMap(st, m.obj, md, i, k, v)
		fr.ip++
	case *ssa.Range:
		switch v := ex.get(st, fr, x.X).(type) {
		case Str:
			id := ex.newObj(st, &IterData{}, ex.allocKey(st, g, x))
			fr.setRes(in, &RangeV{isStr: true, str: v, obj: id})
		case MapV:
			d := &IterData{m: v.obj}
			if v.obj != 0 {
				ex.access(st, g, v.obj, nil, false)
				md := st.obj(v.obj).val.(*MapData)
				d.keys = append([]Value(nil), md.keys...)
			}
			id := ex.newObj(st, d, ex.allocKey(st, g, x))
			fr.setRes(in, &RangeV{obj: id})
		default:
			ex.abort("unsupported", fmt.Sprintf("range over %T", v))
		}
	case *ssa.Next:
		ex.next(st, g, fr, x)
	case *ssa.TypeAssert:
		ex.typeAssert(st, g, fr, x)
	case *ssa.Store:
		p := ex.get(st, fr, x.Addr).(Ptr)
		if p.obj == 0 {
			ex.goPanic(st, g, "runtime error: invalid memory address or nil pointer dereference")
			return
		}
		v := ex.get(st, fr, x.Val)
		ex.access(st, g, p.obj, p.path, true)
		ex.store(st, p, v)
		fr.ip++
	case *ssa.Jump:
		ex.jump(st, fr, fr.blk.Succs[0])
	case *ssa.If:
		cond := ex.get(st, fr, x.Cond).(*Term)
		f0 := st.forks
		t := ex.decide(st, cond)
		to := fr.blk.Succs[1]
		if t {
			to = fr.blk.Succs[0]
		}
		if st.forks != f0 || !cond.isConst() && st.forkAt == cond.id {
			// symbolic branch: enforce the unwinding bound on the looping side
			st.forkAt = 0
			k := fr.blk.Index
			if fr.br == nil {
				fr.br = map[int]int{}
			}
			fr.br[k]++
			if fr.br[k] > ex.lim.Unwind && fr.fi.reaches(to, fr.blk) {
				ex.abort("bound", "unwinding at "+ex.where(st))
			}
		}
		ex.jump(st, fr, to)
	case *ssa.Return:
		var v Value
		switch len(x.Results) {
		case 0:
		case 1:
			v = ex.get(st, fr, x.Results[0])
		default:
			t := make(Tuple, len(x.Results))
			for i, r := range x.Results {
				t[i] = ex.get(st, fr, r)
			}
			v = t
		}
		ex.returnVal(st, g, v)
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[: n-1 : n-1]
			ex.callFn(st, g, d.fn, d.args, retDefer, -1)
			return
		}
		fr.ip++
	case *ssa.Panic:
		v := ex.get(st, fr, x.X)
		ex.goPanicV(st, g, v, ex.describe(st, v))
	case *ssa.Go:
		fv, args, nilI := ex.resolve(st, fr, &x.Call)
		if nilI || fv == nil || fv.fn == nil {
			ex.abort("unsupported", "go statement target")
		}
		fn := fv.fn
		fi := ex.info(fn)
		if fi.repl != nil {
			fn = fi.repl
			fi = ex.info(fn)
		}
		if len(fn.Blocks) == 0 {
			ex.abort("unsupported", "go of "+fi.name)
		}
		ng := &G{id: len(st.gs), name: fi.name}
		nf := &Frame{fi: fi, blk: fn.Blocks[0], env: make([]Value, fi.n), slot: -1, owner: st.id}
		copy(nf.env, args)
		copy(nf.env[len(fn.Params):], fv.bind)
		ng.frames = []*Frame{nf}
		if strings.HasPrefix(fi.pkg, modPath) && !strings.HasPrefix(fi.pkg, modPath+"/zz_") {
			ex.stats.Fns[fi.name]++
		}
		if g.vc != nil {
			ng.vc = g.vc.set(ng.id, 1)
			g.vc = g.vc.inc(g.id)
		}
		if len(st.gs) > 400 {
			ex.abort("bound", "goroutines")
		}
		st.gs = append(st.gs[:len(st.gs):len(st.gs)], ng)
		fr.ip++
	case *ssa.Defer:
		fv, args, nilI := ex.resolve(st, fr, &x.Call)
		if nilI {
			ex.goPanic(st, g, "runtime error: invalid memory address or nil pointer dereference (defer)")
			return
		}
		fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferRec{fn: fv, args: args})
		fr.ip++
	case *ssa.Send:
		ex.chanSend(st, g, fr, x)
	case *ssa.Select:
		ex.selectOp(st, g, fr, x)
	default:
		ex.abort("unsupported", fmt.Sprintf("instruction %T", in))
	}
}

func skipInitFn(fn *ssa.Function) bool { return false }

func (ex *Exec) recover(st *State, g *G, fr *Frame) Value {
	if fr.rk == retPanicDefer && g.panic != nil {
		v := g.panic.val
		g.panic = nil
		return v
	}
	return Iface{}
}

func (ex *Exec) toI64(t *Term, ty types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if isSigned(ty) {
		return ex.c.Sext(t, 64)
	}
	return ex.c.Zext(t, 64)
}

func (ex *Exec) unop(st *State, g *G, fr *Frame, x *ssa.UnOp) {
	c := ex.c
	switch x.Op {
	case token.MUL:
		p := ex.get(st, fr, x.X).(Ptr)
		if p.obj == 0 {
			ex.goPanic(st, g, "runtime error: invalid memory address or nil pointer dereference")
			return
		}
		v := ex.load(st, p)
		ex.access(st, g, p.obj, p.path, false)
		// *(*string)(unsafe.Pointer(&slice)) and the reverse
		switch y := v.(type) {
		case Slice:
			if isString(x.Type()) {
				ex.accessRange(st, g, y.obj, y.path, y.off, y.len, false)
				v = Str{ex.bytesOf(st, y)}
			}
		case Str:
			if _, ok := x.Type().Underlying().(*types.Slice); ok {
				v = ex.newBytes(st, y.r, ex.allocKey(st, g, x))
			}
		}
		fr.setRes(x, v)
	case token.ARROW:
		ex.chanRecv(st, g, fr, x)
	case token.NOT:
		fr.setRes(x, c.Not(ex.get(st, fr, x.X).(*Term)))
	case token.SUB:
		if f, ok := ex.get(st, fr, x.X).(FloatV); ok {
			fr.setRes(x, FloatV{-f.f})
			return
		}
		fr.setRes(x, c.Neg(ex.get(st, fr, x.X).(*Term)))
	case token.XOR:
		fr.setRes(x, c.BNot(ex.get(st, fr, x.X).(*Term)))
	default:
		ex.abort("unsupported", "unop "+x.Op.String())
	}
}

func (ex *Exec) binop(st *State, g *G, op token.Token, a, b Value, ta, tb types.Type) (Value, bool) {
	c := ex.c
	switch op {
	case token.EQL:
		return ex.eqv(st, a, b), true
	case token.NEQ:
		return c.Not(ex.eqv(st, a, b)), true
	}
	switch x := a.(type) {
	case Str:
		y := b.(Str)
		switch op {
		case token.ADD:
			return Str{c.ropeCat(x.r, y.r)}, true
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			xb, ok1 := x.r.concrete()
			yb, ok2 := y.r.concrete()
			cmp := 0
			if !ok1 || !ok2 {
				switch op {
				case token.LSS:
					return ex.strLess(st, x.r, y.r), true
				case token.LEQ:
					return c.Not(ex.strLess(st, y.r, x.r)), true
				case token.GTR:
					return ex.strLess(st, y.r, x.r), true
				}
				return c.Not(ex.strLess(st, x.r, y.r)), true
			} else {
				cmp = strings.Compare(string(xb), string(yb))
			}
			switch op {
			case token.LSS:
				return c.Bool(cmp < 0), true
			case token.LEQ:
				return c.Bool(cmp <= 0), true
			case token.GTR:
				return c.Bool(cmp > 0), true
			}
			return c.Bool(cmp >= 0), true
		}
	case FloatV:
		y := b.(FloatV)
		switch op {
		case token.ADD:
			return FloatV{x.f + y.f}, true
		case token.SUB:
			return FloatV{x.f - y.f}, true
		case token.MUL:
			return FloatV{x.f * y.f}, true
		case token.QUO:
			return FloatV{x.f / y.f}, true
		case token.LSS:
			return c.Bool(x.f < y.f), true
		case token.LEQ:
			return c.Bool(x.f <= y.f), true
		case token.GTR:
			return c.Bool(x.f > y.f), true
		case token.GEQ:
			return c.Bool(x.f >= y.f), true
		}
	case *Term:
		y := b.(*Term)
		sg := isSigned(ta)
		switch op {
		case token.ADD:
			return c.Add(x, y), true
		case token.SUB:
			return c.Sub(x, y), true
		case token.MUL:
			return c.Mul(x, y), true
		case token.QUO, token.REM:
			if ex.decide(st, c.Eq(y, c.BV(0, y.w))) {
				ex.goPanic(st, g, "runtime error: integer divide by zero")
				return nil, false
			}
			o := OUDiv
			switch {
			case op == token.QUO && sg:
				o = OSDiv
			case op == token.REM && sg:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			return c.Div(o, x, y), true
		case token.AND:
			if x.w == 0 {
				return c.And(x, y), true
			}
			return c.BAndBV(x, y), true
		case token.OR:
			if x.w == 0 {
				return c.Or(x, y), true
			}
			return c.BOrBV(x, y), true
		case token.XOR:
			return c.BXor(x, y), true
		case token.AND_NOT:
			return c.BAndBV(x, c.BNot(y)), true
		case token.SHL, token.SHR:
			if isSigned(tb) {
				if ex.decide(st, c.Slt(y, c.BV(0, y.w))) {
					ex.goPanic(st, g, "runtime error: negative shift amount")
					return nil, false
				}
			}
			var s, big *Term
			w := x.w
			if y.w > w {
				big = c.Ule(c.BV(uint64(w), y.w), y)
				s = c.Extract(y, w-1, 0)
			} else {
				s = c.Zext(y, w)
				big = c.Ule(c.BV(uint64(w), w), s)
				if uint64(w) > mask(w) {
					big = c.False
				}
			}
			var r, over *Term
			switch {
			case op == token.SHL:
				r, over = c.Shl(x, s), c.BV(0, w)
			case sg:
				r, over = c.Ashr(x, s), c.Ashr(x, c.BV(uint64(w-1), w))
			default:
				r, over = c.Lshr(x, s), c.BV(0, w)
			}
			return c.Ite(big, over, r), true
		case token.LSS:
			if sg {
				return c.Slt(x, y), true
			}
			return c.Ult(x, y), true
		case token.LEQ:
			if sg {
				return c.Sle(x, y), true
			}
			return c.Ule(x, y), true
		case token.GTR:
			if sg {
				return c.Slt(y, x), true
			}
			return c.Ult(y, x), true
		case token.GEQ:
			if sg {
				return c.Sle(y, x), true
			}
			return c.Ule(y, x), true
		}
	}
	ex.abort("unsupported", fmt.Sprintf("binop %s on %T", op, a))
	return nil, false
}

func (ex *Exec) eqv(st *State, a, b Value) *Term {
	// comparisons between an interface and a concrete value
	if x, ok := a.(Iface); ok {
		if _, ok := b.(Iface); !ok {
			if x.t == nil {
				return ex.c.False
			}
			return ex.eq(st, x.v, b)
		}
	}
	return ex.eq(st, a, b)
}

func (ex *Exec) indexAddr(st *State, g *G, fr *Frame, x *ssa.IndexAddr) {
	c := ex.c
	idx := ex.toI64(ex.get(st, fr, x.Index).(*Term), x.Index.Type())
	switch v := ex.get(st, fr, x.X).(type) {
	case Slice:
		if !ex.inRange(st, idx, v.len) {
			ex.goPanic(st, g, fmt.Sprintf("runtime error: index out of range [%v] with length %v", idx, v.len))
			return
		}
		fr.setRes(x, Ptr{v.obj, sub(v.path, ex.pe(c.Add(v.off, idx)))})
	case Ptr:
		if v.obj == 0 {
			ex.goPanic(st, g, "runtime error: invalid memory address or nil pointer dereference")
			return
		}
		n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !ex.inRange(st, idx, c.I64(n)) {
			ex.goPanic(st, g, fmt.Sprintf("runtime error: index out of range [%v] with length %v", idx, n))
			return
		}
		fr.setRes(x, Ptr{v.obj, sub(v.path, ex.pe(idx))})
	default:
		ex.abort("unsupported", fmt.Sprintf("index of %T", v))
	}
}

func (ex *Exec) pe(t *Term) PE {
	if t.isConst() {
		return PE{i: int(t.val)}
	}
	return PE{t: t}
}

func (ex *Exec) inRange(st *State, i, n *Term) bool {
	c := ex.c
	return ex.decide(st, c.And(c.Sle(c.I64(0), i), c.Slt(i, n)))
}

func (ex *Exec) index(st *State, g *G, fr *Frame, x *ssa.Index) {
	idx := ex.toI64(ex.get(st, fr, x.Index).(*Term), x.Index.Type())
	switch v := ex.get(st, fr, x.X).(type) {
	case Str:
		if !ex.inRange(st, idx, v.r.n) {
			ex.goPanic(st, g, "runtime error: index out of range")
			return
		}
		fr.setRes(x, ex.ropeAt(st, v.r, idx))
	case *ArrV:
		if !ex.inRange(st, idx, v.n) {
			ex.goPanic(st, g, "runtime error: index out of range")
			return
		}
		fr.setRes(x, ex.arrGet(st, v, idx))
	default:
		ex.abort("unsupported", fmt.Sprintf("index of %T", v))
	}
}

func (ex *Exec) mapFind(st *State, md *MapData, k Value) int {
	for i, mk := range md.keys {
		if ex.decide(st, ex.eq(st, mk, k)) {
			return i
		}
	}
	return -1
}

func (ex *Exec) setMap(st *State, obj int, md *MapData, i int, k, v Value) {
	n := &MapData{kt: md.kt, vt: md.vt}
	n.keys = append([]Value(nil), md.keys...)
	n.vals = append([]Value(nil), md.vals...)
	if i >= 0 {
		n.vals[i] = v
	} else {
		n.keys = append(n.keys, k)
		n.vals = append(n.vals, v)
	}
	st.setObj(obj, n)
}

func (ex *Exec) lookup(st *State, g *G, fr *Frame, x *ssa.Lookup) {
	switch v := ex.get(st, fr, x.X).(type) {
	case Str:
		idx := ex.toI64(ex.get(st, fr, x.Index).(*Term), x.Index.Type())
		if !ex.inRange(st, idx, v.r.n) {
			ex.goPanic(st, g, "runtime error: index out of range")
			return
		}
		fr.setRes(x, ex.ropeAt(st, v.r, idx))
	case MapV:
		k := ex.get(st, fr, x.Index)
		vt := x.X.Type().Underlying().(*types.Map).Elem()
		i := -1
		var md *MapData
		if v.obj != 0 {
			md = st.obj(v.obj).val.(*MapData)
			i = ex.mapFind(st, md, k)
			ex.access(st, g, v.obj, nil, false)
		}
		var r Value
		if i >= 0 {
			r = md.vals[i]
		} else {
			r = ex.zero(vt)
		}
		if x.CommaOk {
			r = Tuple{r, ex.c.Bool(i >= 0)}
		}
		fr.setRes(x, r)
	default:
		ex.abort("unsupported", fmt.Sprintf("lookup in %T", v))
	}
}

func (ex *Exec) sliceOp(st *State, g *G, fr *Frame, x *ssa.Slice) {
	c := ex.c
	opt := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return ex.toI64(ex.get(st, fr, v).(*Term), v.Type())
	}
	z := c.I64(0)
	switch v := ex.get(st, fr, x.X).(type) {
	case Str:
		lo := opt(x.Low, z)
		hi := opt(x.High, v.r.n)
		if !ex.decide(st, c.And(c.Sle(z, lo), c.Sle(lo, hi), c.Sle(hi, v.r.n))) {
			ex.goPanic(st, g, "runtime error: slice bounds out of range")
			return
		}
		fr.setRes(x, Str{ex.ropeSlice(st, v.r, lo, c.Sub(hi, lo))})
	case Slice, Ptr:
		var s Slice
		if p, ok := v.(Ptr); ok {
			if p.obj == 0 {
				ex.goPanic(st, g, "runtime error: invalid memory address or nil pointer dereference")
				return
			}
			n := c.I64(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			s = Slice{obj: p.obj, path: p.path, off: z, len: n, cap: n}
		} else {
			s = v.(Slice)
		}
		lo := opt(x.Low, z)
		hi := opt(x.High, s.len)
		mx := opt(x.Max, s.cap)
		if !ex.decide(st, c.And(c.Sle(z, lo), c.Sle(lo, hi), c.Sle(hi, mx), c.Sle(mx, s.cap))) {
			ex.goPanic(st, g, fmt.Sprintf("runtime error: slice bounds out of range [%v:%v:%v] with capacity %v", lo, hi, mx, s.cap))
			return
		}
		if s.obj == 0 {
			fr.setRes(x, s)
			return
		}
		fr.setRes(x, Slice{obj: s.obj, path: s.path, off: c.Add(s.off, lo), len: c.Sub(hi, lo), cap: c.Sub(mx, lo)})
	default:
		ex.abort("unsupported", fmt.Sprintf("slice of %T", v))
	}
}

func (ex *Exec) makeSlice(st *State, g *G, fr *Frame, x *ssa.MakeSlice) {
	c := ex.c
	n := ex.toI64(ex.get(st, fr, x.Len).(*Term), x.Len.Type())
	cp := ex.toI64(ex.get(st, fr, x.Cap).(*Term), x.Cap.Type())
	et := x.Type().Underlying().(*types.Slice).Elem()
	if !ex.decide(st, c.And(c.Sle(c.I64(0), n), c.Sle(n, cp), c.Sle(cp, c.I64(1<<47)))) {
		ex.goPanic(st, g, fmt.Sprintf("runtime error: makeslice: len out of range (%v, cap %v)", n, cp))
		return
	}
	if l := st.opts.allocLimit; l != nil {
		over := c.Slt(l, cp)
		if v, ok := ex.known(st, over); !ok || v {
			r, m := ex.sat(st, over)
			ex.stats.AssertQ++
			if r == Sat {
				ex.record(st, "alloc", fmt.Sprintf("allocation of %v elements of %s exceeds the limit %v", cp, et, l), m)
			}
			if !ex.decide(st, c.Not(over)) {
				ex.abort("violation", "alloc")
			}
		}
	}
	id := ex.newObj(st, &ArrV{n: cp, zero: ex.zero(et)}, ex.allocKey(st, g, x))
	fr.setRes(x, Slice{obj: id, off: c.I64(0), len: n, cap: cp})
}

func (ex *Exec) next(st *State, g *G, fr *Frame, x *ssa.Next) {
	c := ex.c
	it := ex.get(st, fr, x.Iter).(*RangeV)
	d := st.obj(it.obj).val.(*IterData)
	tt := x.Type().(*types.Tuple)
	if it.isStr {
		pos := c.I64(int64(d.pos))
		if !ex.decide(st, c.Slt(pos, it.str.r.n)) {
			fr.setRes(x, Tuple{c.False, c.I64(0), c.BV(0, 32)})
			return
		}
		rest := ex.ropeSlice(st, it.str.r, pos, c.Sub(it.str.r.n, pos))
		pk := ex.P.pkgs["unicode/utf8"]
		if pk == nil {
			ex.abort("unsupported", "utf8 not loaded")
		}
		fn := pk.Func("DecodeRuneInString")
		ex.callFn(st, g, &FuncV{fn: fn}, []Value{Str{rest}}, retStrNext, fr.fi.slots[x])
		g.top().fixed = strNext{it.obj}
		return
	}
	// map iteration: any remaining key may come next
	var live []Value
	var md *MapData
	if d.m != 0 {
		md = st.obj(d.m).val.(*MapData)
		for _, k := range d.keys {
			for _, mk := range md.keys {
				if ex.eq(st, k, mk).isTrue() {
					live = append(live, k)
				}
			}
		}
	}
	kz := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return ex.zero(t)
	}
	if len(live) == 0 {
		fr.setRes(x, Tuple{c.False, kz(tt.At(1).Type()), kz(tt.At(2).Type())})
		return
	}
	// (maporder=n: only the last n remaining keys in any order, the others in insertion order)
	i := 0
	if m := ex.cfg["maporder"]; m == 0 || int64(len(live)) <= m {
		i = ex.choose(st, len(live))
	}
	rest := append(append([]Value{}, live[:i]...), live[i+1:]...)
	st.setObj(it.obj, &IterData{keys: rest, m: d.m})
	k := live[i]
	var v Value
	for j, mk := range md.keys {
		if ex.eq(st, k, mk).isTrue() {
			v = md.vals[j]
		}
	}
	ex.access(st, g, d.m, nil, false)
	fr.setRes(x, Tuple{c.True, k, v})
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// strLess is the order of two strings: one term when their lengths are known, else decided byte by byte.
func (ex *Exec) strLess(st *State, x, y *Rope) *Term {
	c := ex.c
	if x.n.isConst() && y.n.isConst() && x.n.val <= 64 && y.n.val <= 64 {
		n := min(x.n.val, y.n.val)
		r := c.Bool(x.n.val < y.n.val)
		for i := int64(n) - 1; i >= 0; i-- {
			a, b := ex.ropeAt(st, x, c.I64(i)), ex.ropeAt(st, y, c.I64(i))
			r = c.Or(c.Ult(a, b), c.And(c.Eq(a, b), r))
		}
		return r
	}
	for i := int64(0); ; i++ {
		if i > 64 {
			ex.abort("bound", "strings compared beyond 64 bytes")
		}
		k := c.I64(i)
		if !ex.decide(st, c.Slt(k, y.n)) {
			return c.False
		}
		if !ex.decide(st, c.Slt(k, x.n)) {
			return c.True
		}
		a, b := ex.ropeAt(st, x, k), ex.ropeAt(st, y, k)
		if !ex.decide(st, c.Eq(a, b)) {
			return c.Ult(a, b)
		}
	}
}

func (ex *Exec) implements(t types.Type, i *types.Interface, it types.Type) bool {
	k := [2]types.Type{t, it}
	if r, ok := ex.implCache[k]; ok {
		return r
	}
	ex.P.mu.Lock()
	r := types.Implements(t, i)
	ex.P.mu.Unlock()
	ex.implCache[k] = r
	return r
}

func (ex *Exec) typeAssert(st *State, g *G, fr *Frame, x *ssa.TypeAssert) {
	v := ex.get(st, fr, x.X).(Iface)
	ok := false
	var r Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		ok = v.t != nil && ex.implements(v.t, it, x.AssertedType)
		r = v
		if !ok {
			r = Iface{}
		}
	} else {
		ok = v.t != nil && types.Identical(v.t, x.AssertedType)
		if ok {
			r = v.v
		} else {
			r = ex.zero(x.AssertedType)
		}
	}
	if x.CommaOk {
		fr.setRes(x, Tuple{r, ex.c.Bool(ok)})
		return
	}
	if !ok {
		ex.goPanic(st, g, fmt.Sprintf("interface conversion: %v is not %v", v.t, x.AssertedType))
		return
	}
	fr.setRes(x, r)
}

func (ex *Exec) convert(st *State, g *G, v Value, from, to types.Type, in ssa.Instruction) Value {
	c := ex.c
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		switch {
		case tb.Kind() == types.UnsafePointer:
			return v
		case tb.Info()&types.IsString != 0:
			switch y := v.(type) {
			case Str:
				return y
			case Slice:
				et := fu.(*types.Slice).Elem()
				if isByte(et) {
					ex.accessRange(st, g, y.obj, y.path, y.off, y.len, false)
					return Str{ex.bytesOf(st, y)}
				}
				n := int(ex.concretize(st, y.len))
				a := ex.arrOf(st, y)
				r := c.ropeOf()
				for i := 0; i < n; i++ {
					r = c.ropeCat(r, ex.runeRope(st, ex.arrGet(st, a, c.Add(y.off, c.I64(int64(i)))).(*Term)))
				}
				return Str{r}
			case *Term:
				t := y
				if t.w > 32 {
					if !ex.decide(st, c.And(c.Sle(c.BV(0, t.w), t), c.Sle(t, c.BV(0x10ffff, t.w)))) {
						t = c.BV(0xfffd, 32)
					} else {
						t = c.Extract(t, 31, 0)
					}
				} else {
					t = c.Zext(t, 32)
				}
				return Str{ex.runeRope(st, t)}
			}
		case tb.Info()&types.IsInteger != 0:
			switch y := v.(type) {
			case *Term:
				w := width(to)
				if w <= y.w {
					return c.Extract(y, w-1, 0)
				}
				if isSigned(from) {
					return c.Sext(y, w)
				}
				return c.Zext(y, w)
			case FloatV:
				return c.BV(uint64(int64(y.f)), width(to))
			}
		case tb.Info()&types.IsFloat != 0:
			switch y := v.(type) {
			case FloatV:
				return y
			case *Term:
				k := ex.concretize(st, y)
				return FloatV{float64(k)}
			}
		case tb.Info()&types.IsBoolean != 0:
			return v
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if s, ok := v.(Str); ok {
			if isByte(ts.Elem()) {
				return ex.newBytes(st, s.r, ex.allocKey(st, g, in))
			}
			// []rune: only for concrete strings
			b, ok := s.r.concrete()
			if !ok {
				ex.abort("unsupported", "[]rune of a symbolic string")
			}
			rs := []rune(string(b))
			a := &ArrV{n: c.I64(int64(len(rs))), zero: c.BV(0, 32)}
			for i, r := range rs {
				a.m = a.m.Set(i, c.BV(uint64(uint32(r)), 32))
			}
			id := ex.newObj(st, a, ex.allocKey(st, g, in))
			return Slice{obj: id, off: c.I64(0), len: a.n, cap: a.n}
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	ex.abort("unsupported", fmt.Sprintf("conversion %s -> %s", from, to))
	return nil
}

func (ex *Exec) runeRope(st *State, r *Term) *Rope {
	c := ex.c
	k := func(v uint64) *Term { return c.BV(v, 32) }
	b := func(t *Term) *Term { return c.Extract(t, 7, 0) }
	or := func(t *Term, m uint64) *Term { return c.BOrBV(t, k(m)) }
	and := func(t *Term, m uint64) *Term { return c.BAndBV(t, k(m)) }
	sh := func(t *Term, n uint64) *Term { return c.Lshr(t, k(n)) }
	lit := func(ts ...*Term) *Rope { return c.ropeOf(Seg{lit: ts}) }
	bad := c.ropeLit([]byte("\uFFFD"))
	if ex.decide(st, c.Ult(r, k(0x80))) {
		return lit(b(r))
	}
	if ex.decide(st, c.Ult(r, k(0x800))) {
		return lit(b(or(sh(r, 6), 0xC0)), b(or(and(r, 0x3f), 0x80)))
	}
	if ex.decide(st, c.And(c.Ule(k(0xD800), r), c.Ule(r, k(0xDFFF)))) {
		return bad
	}
	if ex.decide(st, c.Ult(r, k(0x10000))) {
		return lit(b(or(sh(r, 12), 0xE0)), b(or(and(sh(r, 6), 0x3f), 0x80)), b(or(and(r, 0x3f), 0x80)))
	}
	if ex.decide(st, c.Ule(r, k(0x10ffff))) {
		return lit(b(or(sh(r, 18), 0xF0)), b(or(and(sh(r, 12), 0x3f), 0x80)), b(or(and(sh(r, 6), 0x3f), 0x80)), b(or(and(r, 0x3f), 0x80)))
	}
	return bad
}

// ---- builtins ----

func (ex *Exec) lenOf(st *State, v Value) *Term {
	switch x := v.(type) {
	case Slice:
		return x.len
	case Str:
		return x.r.n
	case *ArrV:
		return x.n
	case MapV:
		if x.obj == 0 {
			return ex.c.I64(0)
		}
		return ex.c.I64(int64(len(st.obj(x.obj).val.(*MapData).keys)))
	case ChanV:
		if x.obj == 0 {
			return ex.c.I64(0)
		}
		return ex.c.I64(int64(len(st.obj(x.obj).val.(*ChanData).buf)))
	case Ptr:
		return ex.load(st, x).(*ArrV).n
	}
	ex.abort("unsupported", fmt.Sprintf("len of %T", v))
	return nil
}

func (ex *Exec) builtin(st *State, g *G, name string, args []Value, call *ssa.Call) Value {
	c := ex.c
	switch name {
	case "len":
		if m, ok := args[0].(MapV); ok {
			ex.access(st, g, m.obj, nil, false)
		}
		return ex.lenOf(st, args[0])
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return x.cap
		case ChanV:
			if x.obj == 0 {
				return c.I64(0)
			}
			return c.I64(int64(st.obj(x.obj).val.(*ChanData).cap))
		}
		return ex.lenOf(st, args[0])
	case "append":
		return ex.appendOp(st, g, args, call)
	case "copy":
		return ex.copyOp(st, g, args)
	case "close":
		ch := args[0].(ChanV)
		ex.chanClose(st, g, ch)
		return nil
	case "delete":
		m := args[0].(MapV)
		if m.obj == 0 {
			return nil
		}
		md := st.obj(m.obj).val.(*MapData)
		i := ex.mapFind(st, md, args[1])
		ex.access(st, g, m.obj, nil, true)
		if i >= 0 {
			n := &MapData{kt: md.kt, vt: md.vt}
			n.keys = append(append([]Value{}, md.keys[:i]...), md.keys[i+1:]...)
			n.vals = append(append([]Value{}, md.vals[:i]...), md.vals[i+1:]...)
			st.setObj(m.obj, n)
		}
		return nil
	case "clear":
		switch m := args[0].(type) {
		case MapV:
			if m.obj != 0 {
				md := st.obj(m.obj).val.(*MapData)
				ex.access(st, g, m.obj, nil, true)
				st.setObj(m.obj, &MapData{kt: md.kt, vt: md.vt})
			}
			return nil
		case Slice:
			n := ex.concretize(st, m.len)
			a := ex.arrOf(st, m)
			for i := int64(0); i < n; i++ {
				a = ex.arrSet(st, a, c.Add(m.off, c.I64(i)), a.zero)
			}
			if m.obj != 0 {
				ex.accessRange(st, g, m.obj, m.path, m.off, m.len, true)
				ex.store(st, Ptr{m.obj, m.path}, a)
			}
			return nil
		}
	case "min", "max":
		r := args[0]
		t := call.Type()
		for _, a := range args[1:] {
			x, ok := r.(*Term)
			y, ok2 := a.(*Term)
			if !ok || !ok2 {
				ex.abort("unsupported", "min/max")
			}
			var lt *Term
			if isSigned(t) {
				lt = c.Slt(y, x)
			} else {
				lt = c.Ult(y, x)
			}
			if name == "max" {
				if isSigned(t) {
					lt = c.Slt(x, y)
				} else {
					lt = c.Ult(x, y)
				}
			}
			r = c.Ite(lt, y, x)
		}
		return r
	case "print", "println":
		return nil
	case "recover":
		return Iface{}
	case "ssa:wrapnilchk":
		p := args[0].(Ptr)
		if p.obj == 0 {
			ex.goPanic(st, g, "value method called using nil pointer")
			return nil
		}
		return p
	case "SliceData":
		s := args[0].(Slice)
		if s.obj == 0 {
			return Ptr{}
		}
		return Ptr{s.obj, sub(s.path, ex.pe(s.off))}
	case "StringData":
		s := args[0].(Str)
		sl := ex.newBytes(st, s.r, 0)
		return Ptr{sl.obj, []PE{{i: 0}}}
	case "String":
		p := args[0].(Ptr)
		n := args[1].(*Term)
		if p.obj == 0 {
			return Str{c.ropeOf()}
		}
		k := len(p.path) - 1
		s := Slice{obj: p.obj, path: p.path[:k], off: ex.peTerm(p.path[k]), len: n, cap: n}
		return Str{ex.bytesOf(st, s)}
	case "Slice":
		p := args[0].(Ptr)
		n := ex.toI64(args[1].(*Term), types.Typ[types.Int])
		if p.obj == 0 {
			return Slice{off: c.I64(0), len: c.I64(0), cap: c.I64(0)}
		}
		k := len(p.path) - 1
		return Slice{obj: p.obj, path: p.path[:k], off: ex.peTerm(p.path[k]), len: n, cap: n}
	}
	ex.abort("unsupported", "builtin "+name)
	return nil
}

func (ex *Exec) appendOp(st *State, g *G, args []Value, call *ssa.Call) Value {
	c := ex.c
	dst := args[0].(Slice)
	if len(args) == 1 {
		return dst
	}
	elemT := call.Type().Underlying().(*types.Slice).Elem()
	var n *Term
	isB := isByte(elemT)
	var src Slice
	var srcRope *Rope
	switch s := args[1].(type) {
	case Str:
		srcRope = s.r
		n = s.r.n
	case Slice:
		src = s
		n = s.len
		if isB {
			ex.accessRange(st, g, s.obj, s.path, s.off, n, false)
			srcRope = ex.bytesOf(st, s)
		}
	}
	if n.isConst() && n.val == 0 {
		return dst
	}
	if dst.obj == 0 && !n.isConst() {
		if ex.decide(st, c.Eq(n, c.I64(0))) {
			return dst
		}
	}
	newLen := c.Add(dst.len, n)
	fits := dst.obj != 0 && ex.decide(st, c.Sle(newLen, dst.cap))
	if isB {
		if fits {
			a := ex.writeBytes(st, ex.arrOf(st, dst), c.Add(dst.off, dst.len), srcRope)
			ex.accessRange(st, g, dst.obj, dst.path, c.Add(dst.off, dst.len), n, true)
			ex.store(st, Ptr{dst.obj, dst.path}, a)
			return Slice{dst.obj, dst.path, dst.off, newLen, dst.cap}
		}
		old := ex.bytesOf(st, dst)
		ex.accessRange(st, g, dst.obj, dst.path, dst.off, dst.len, false)
		r := c.ropeCat(old, srcRope)
		cp := newLen
		if newLen.isConst() && dst.cap.isConst() {
			k := newLen.val
			if d := 2 * dst.cap.val; d > k {
				k = d
			}
			if k < 8 {
				k = 8
			}
			cp = c.I64(int64(k))
			if k > newLen.val {
				r = c.ropeCat(r, c.ropeOf(Seg{n: c.I64(int64(k - newLen.val))}))
			}
		}
		id := ex.newObj(st, &ArrV{n: cp, zero: c.BV(0, 8), rope: r}, ex.allocKey(st, g, call))
		return Slice{obj: id, off: c.I64(0), len: newLen, cap: cp}
	}
	k := int(ex.concretize(st, n))
	sa := ex.arrOf(st, src)
	vals := make([]Value, k)
	for i := range vals {
		vals[i] = ex.arrGet(st, sa, c.Add(src.off, c.I64(int64(i))))
	}
	ex.accessRange(st, g, src.obj, src.path, src.off, n, false)
	if fits {
		a := ex.arrOf(st, dst)
		for i, v := range vals {
			a = ex.arrSet(st, a, c.Add(c.Add(dst.off, dst.len), c.I64(int64(i))), v)
		}
		ex.accessRange(st, g, dst.obj, dst.path, c.Add(dst.off, dst.len), n, true)
		ex.store(st, Ptr{dst.obj, dst.path}, a)
		return Slice{dst.obj, dst.path, dst.off, newLen, dst.cap}
	}
	ol := int(ex.concretize(st, dst.len))
	cp := ol + k
	if dst.cap.isConst() {
		if d := 2 * int(dst.cap.val); d > cp {
			cp = d
		}
	}
	a := &ArrV{n: c.I64(int64(cp)), zero: ex.zero(elemT)}
	if dst.obj != 0 {
		oa := ex.arrOf(st, dst)
		ex.accessRange(st, g, dst.obj, dst.path, dst.off, dst.len, false)
		for i := 0; i < ol; i++ {
			a.m = a.m.Set(i, ex.arrGet(st, oa, c.Add(dst.off, c.I64(int64(i)))))
		}
	}
	for i, v := range vals {
		a.m = a.m.Set(ol+i, v)
	}
	id := ex.newObj(st, a, ex.allocKey(st, g, call))
	return Slice{obj: id, off: c.I64(0), len: c.I64(int64(ol + k)), cap: c.I64(int64(cp))}
}

func (ex *Exec) copyOp(st *State, g *G, args []Value) Value {
	c := ex.c
	dst := args[0].(Slice)
	var n *Term
	sl := ex.lenOf(st, args[1])
	if ex.decide(st, c.Slt(dst.len, sl)) {
		n = dst.len
	} else {
		n = sl
	}
	if n.isConst() && n.val == 0 {
		return n
	}
	if dst.obj == 0 {
		return c.I64(0)
	}
	a := ex.arrOf(st, dst)
	if t, ok := a.zero.(*Term); ok && t.w == 8 {
		var r *Rope
		switch s := args[1].(type) {
		case Str:
			r = ex.ropeSlice(st, s.r, c.I64(0), n)
		case Slice:
			s.len = n
			ex.accessRange(st, g, s.obj, s.path, s.off, n, false)
			r = ex.bytesOf(st, s)
		}
		na := ex.writeBytes(st, a, dst.off, r)
		ex.accessRange(st, g, dst.obj, dst.path, dst.off, n, true)
		ex.store(st, Ptr{dst.obj, dst.path}, na)
		return n
	}
	s := args[1].(Slice)
	k := int(ex.concretize(st, n))
	sa := ex.arrOf(st, s)
	vals := make([]Value, k)
	for i := range vals {
		vals[i] = ex.arrGet(st, sa, c.Add(s.off, c.I64(int64(i))))
	}
	ex.accessRange(st, g, s.obj, s.path, s.off, n, false)
	a = ex.arrOf(st, dst)
	for i, v := range vals {
		a = ex.arrSet(st, a, c.Add(dst.off, c.I64(int64(i))), v)
	}
	ex.accessRange(st, g, dst.obj, dst.path, dst.off, n, true)
	ex.store(st, Ptr{dst.obj, dst.path}, a)
	return c.I64(int64(k))
}
