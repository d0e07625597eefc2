package main

import (
	"encoding/binary"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// stop is thrown to end the current path.
type stop struct{ kind, msg string }

// blockErr is thrown by an operation that cannot proceed now.
type blockErr struct{}

// Violation is a counterexample.
type Violation struct {
	Kind   string // assert, panic, deadlock, race, alloc
	Msg    string
	Key    string // finding key
	Pos    string
	Where  []string // stack
	Vals   []ReplayVal
	Trace  []string
	Strict bool // counts only if the native replay shows it
	Sched  []SchedEv
	st     *State
	model  *Model
}

type ReplayVal struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
	Int  int64  `json:"int"`
	Len  int    `json:"len,omitempty"`
	Hex  string `json:"hex,omitempty"`
}

type SchedEv struct {
	G   int    `json:"g"`
	Pos string `json:"pos"`
	Op  string `json:"op"`
}

type Limits struct {
	MaxSteps  int // per path
	MaxPaths  int
	Unwind    int
	MaxConc   int
	MaxStates int
	Deadline  time.Time
}

type Stats struct {
	Paths, Completed, Assumed, Aborted, Pruned int
	States                                     int
	Steps                                      int64
	Asserts                                    int
	AssertQ                                    int
	Reasons                                    map[string]int
	Fns                                        map[string]int
	Reached                                    map[string]int
	MaxHeap                                    int
	Restarts                                   int
	PreemptCut                                 int
	Cached                                     int         // queries answered from an earlier path's answer
	Sample                                     []ReplayVal `json:"-"`
	Flagged                                    []string
}

type Exec struct {
	P          *Prog
	c          *TCtx
	sol        *Solver
	qcache     map[string]answer
	qprof      map[string]int
	ids        int
	zeros      map[types.Type]Value
	gidx       map[*ssa.Global]int
	pkgIdx     map[*ssa.Package]int
	work       []*State
	lim        Limits
	stats      Stats
	viols      []*Violation
	finds      []*Violation
	vioKey     map[string]bool
	maxVio     int
	seen       map[[16]byte]struct{}
	shared     map[string]bool // racy locations: accesses are visible
	newShared  bool
	curKey     map[string]bool
	contractT  string // Decode methods of other types are replaced by contractFn
	contractFn *ssa.Function
	implCache  map[[2]types.Type]bool
	leafCache  map[types.Type][][]int
	inited     []string
	debug      bool
	xsol       *Solver
	xDisagree  int
	xQueries   int
	cfg        map[string]int64
	scale      int64
	skipPanic  bool
	infos      map[*ssa.Function]*FnInfo
	methods    map[mkey]*ssa.Function
	locs       map[string]int
	akeys      map[akey]int
	libs       map[int]bool
	pkeys      map[*ssa.Function]int
}

func NewExec(P *Prog, lim Limits) *Exec {
	c := NewTCtx()
	ex := &Exec{P: P, c: c, sol: NewSolver(c, "main", 20000), zeros: map[types.Type]Value{}, gidx: map[*ssa.Global]int{}, pkgIdx: map[*ssa.Package]int{},
		lim: lim, vioKey: map[string]bool{}, maxVio: 1, seen: map[[16]byte]struct{}{}, shared: map[string]bool{}, implCache: map[[2]types.Type]bool{}, leafCache: map[types.Type][][]int{}, cfg: map[string]int64{}}
	ex.stats.Reasons = map[string]int{}
	ex.stats.Fns = map[string]int{}
	ex.stats.Reached = map[string]int{}
	ex.qcache = map[string]answer{}
	return ex
}

func (ex *Exec) Close() {
	ex.sol.Close()
	if ex.xsol != nil {
		ex.xsol.Close()
	}
}

func (ex *Exec) abort(kind, msg string) { panic(stop{kind, msg}) }

// ---- path conditions ----

func (ex *Exec) slice(pc []*Term, extra *Term) []*Term {
	need := map[int]bool{}
	for _, v := range ex.c.varsOf(extra) {
		need[v] = true
	}
	used := make([]bool, len(pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, t := range pc {
			if used[i] {
				continue
			}
			hit := false
			vs := ex.c.varsOf(t)
			for _, v := range vs {
				if need[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, t)
				for _, v := range vs {
					if !need[v] {
						need[v] = true
						changed = true
					}
				}
			}
		}
	}
	return append(out, extra)
}

func (ex *Exec) mergeModel(old, nw *Model, conj []*Term) *Model {
	m := NewModel()
	for k, v := range old.v {
		m.v[k] = v
	}
	for k, v := range old.b {
		m.b[k] = v
	}
	for k, v := range nw.v {
		m.v[k] = v
	}
	for k, v := range nw.b {
		m.b[k] = v
	}
	return m
}

// sat checks pc && extra; the model returned extends st.model.
func (ex *Exec) sat(st *State, extra *Term) (Res, *Model) {
	if extra.isFalse() {
		return Unsat, nil
	}
	q := ex.slice(st.pc, extra)
	if ex.qprof != nil {
		ex.qprof[ex.where(st)]++
	}
	// other paths ask the same
	key := queryKey(q)
	if a, ok := ex.qcache[key]; ok {
		ex.stats.Cached++
		if a.r == Sat {
			return Sat, ex.mergeModel(st.model, a.m, q)
		}
		return a.r, nil
	}
	r, m := ex.sol.Check(q, true)
	m0 := m
	if ex.xsol != nil && r != Unknown {
		r2, _ := ex.xsol.Check(q, false)
		ex.xQueries++
		if r2 != Unknown && r2 != r {
			ex.xDisagree++
			return Unknown, nil
		}
	}
	if r == Sat {
		m = ex.mergeModel(st.model, m, q)
		// trust but verify
		memo := map[*Term]uint64{}
		for _, t := range q {
			if ex.c.Eval(t, m, memo) != 1 {
				panic(fmt.Sprintf("model does not satisfy %v", t))
			}
		}
	}
	if r != Unknown && len(ex.qcache) < 500000 {
		ex.qcache[key] = answer{r, m0}
	}
	return r, m
}

// answer is the solver's to a query.
type answer struct {
	r Res
	m *Model
}

// queryKey identifies a set of terms.
func queryKey(q []*Term) string {
	ids := make([]uint64, len(q))
	for i, t := range q {
		ids[i] = uint64(t.id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	b := make([]byte, 0, 4*len(ids))
	for _, x := range ids {
		b = binary.AppendUvarint(b, x)
	}
	return string(b)
}

func (ex *Exec) assume(st *State, t *Term) {
	if t.isTrue() || st.pcset.Get(t.id) != nil {
		return
	}
	if t.op == OBAnd {
		for _, a := range t.args {
			ex.assume(st, a)
		}
		return
	}
	st.pc = append(st.pc, t)
	st.pcset = st.pcset.Set(t.id, true)
}

func (ex *Exec) evalB(st *State, t *Term) bool {
	return ex.c.Eval(t, st.model, map[*Term]uint64{}) == 1
}

// known reports whether cond is already decided by simplification or the path condition.
func (ex *Exec) known(st *State, cond *Term) (val, ok bool) {
	if cond.isConst() {
		return cond.val == 1, true
	}
	if st.pcset.Get(cond.id) != nil {
		return true, true
	}
	if st.pcset.Get(ex.c.Not(cond).id) != nil {
		return false, true
	}
	return false, false
}

// decide returns the truth of cond on this path, forking when both are possible.
func (ex *Exec) decide(st *State, cond *Term) bool {
	if v, ok := ex.known(st, cond); ok {
		return v
	}
	v := ex.evalB(st, cond)
	taken, other := cond, ex.c.Not(cond)
	if !v {
		taken, other = other, cond
	}
	r, m := ex.sat(st, other)
	switch r {
	case Unsat:
		st.pcset = st.pcset.Set(taken.id, true)
		return v
	case Unknown:
		ex.stats.Reasons["solver-unknown"]++
		ex.stats.Aborted++
		ex.assume(st, taken)
		return v
	}
	n := ex.clone(st)
	ex.assume(n, other)
	n.model = m
	n.forks++
	n.forkAt = cond.id
	ex.work = append(ex.work, n)
	ex.assume(st, taken)
	st.forks++
	return v
}

// mustBe reports whether cond holds on all values of the path (no fork).
func (ex *Exec) mustBe(st *State, cond *Term) bool {
	if v, ok := ex.known(st, cond); ok {
		return v
	}
	if !ex.evalB(st, cond) {
		return false
	}
	r, _ := ex.sat(st, ex.c.Not(cond))
	if r == Unsat {
		st.pcset = st.pcset.Set(cond.id, true)
		return true
	}
	return false
}

func (ex *Exec) concretize(st *State, t *Term) int64 {
	if t.isConst() {
		return t.sval()
	}
	if lo, hi := ex.c.srange(t); lo == hi {
		return lo
	}
	v := ex.c.Eval(t, st.model, map[*Term]uint64{})
	st.ncon++
	if st.ncon > ex.lim.MaxConc {
		ex.abort("bound", "concretization limit at "+ex.where(st))
	}
	if !ex.decide(st, ex.c.Eq(t, ex.c.BV(v, t.w))) {
		ex.abort("internal", "concretize")
	}
	return sx(v, t.w)
}

// choose forks over 0..n-1 and returns this path's choice.
func (ex *Exec) choose(st *State, n int) int {
	if n <= 1 {
		return 0
	}
	if st.forced >= 0 {
		k := st.forced
		st.forced = -1
		return k
	}
	for i := n - 1; i >= 1; i-- {
		s := ex.clone(st)
		s.forced = i
		ex.work = append(ex.work, s)
	}
	return 0
}

// ---- positions ----

func (ex *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := ex.P.fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, "/repo/")
	if i := strings.Index(f, "/src/"); i >= 0 && strings.Contains(f, "/go") {
		f = f[i+5:]
	}
	return fmt.Sprintf("%s:%d:%d", f, q.Line, q.Column)
}

func (ex *Exec) instrPos(fr *Frame) string {
	if fr.ip < len(fr.blk.Instrs) {
		for k := fr.ip; k < len(fr.blk.Instrs); k++ {
			if s := ex.posOf(fr.blk.Instrs[k].Pos()); s != "" {
				return s
			}
		}
	}
	return fr.fi.name
}

func (ex *Exec) where(st *State) string {
	g := st.gs[st.cur]
	if len(g.frames) == 0 {
		return ""
	}
	fr := g.frames[len(g.frames)-1]
	return fr.fi.name + " " + ex.instrPos(fr)
}

func (ex *Exec) stack(st *State, g *G) []string {
	var out []string
	for i := len(g.frames) - 1; i >= 0; i-- {
		fr := g.frames[i]
		out = append(out, fr.fi.name+" "+ex.instrPos(fr))
	}
	return out
}

// ---- running ----

func (ex *Exec) newState() *State {
	st := &State{id: ex.newID(), model: NewModel(), permit: -1, last: -1, forced: -1, atom: -1}
	return st
}

// Run explores harness fn.
func (ex *Exec) Run(fn *ssa.Function) {
	for {
		ex.newShared = false
		ex.seen = map[[16]byte]struct{}{}
		st := ex.newState()
		fi := ex.P.info(fn)
		g := &G{id: 0, name: "main"}
		st.gs = []*G{g}
		g.frames = []*Frame{{fi: fi, blk: fn.Blocks[0], env: make([]Value, fi.n), slot: -1, owner: st.id}}
		// the module's packages are initialised first
		for _, pp := range ex.P.initial {
			pk := ex.P.pkgs[pp.PkgPath]
			if pk == nil || pp.PkgPath == vrtPath {
				continue
			}
			i, ok := ex.pkgIdx[pk]
			if !ok {
				i = len(ex.pkgIdx)
				ex.pkgIdx[pk] = i
			}
			f := pk.Func("init")
			if st.inits.Get(i) != nil || f == nil || len(f.Blocks) == 0 || strings.HasPrefix(filepath.Base(pp.PkgPath), "zz_h") && pk != fn.Pkg {
				continue
			}
			st.inits = st.inits.Set(i, true)
			fi := ex.P.info(f)
			g.frames = append(g.frames, &Frame{fi: fi, blk: f.Blocks[0], env: make([]Value, fi.n), slot: -1, owner: st.id, rk: retReexec})
		}
		ex.work = []*State{st}
		for len(ex.work) > 0 {
			n := len(ex.work) - 1
			s := ex.work[n]
			ex.work[n] = nil
			ex.work = ex.work[:n]
			if sa := atomic.LoadInt64(&ex.P.stopAt); ex.stats.Paths >= ex.lim.MaxPaths || time.Now().After(ex.lim.Deadline) || sa > 0 && time.Now().UnixNano() > sa {
				why := "path limit"
				if sa > 0 {
					why = "stopped after a violation"
				} else if ex.stats.Paths < ex.lim.MaxPaths {
					why = "time limit"
				}
				ex.stats.Reasons["bound: "+why] += len(ex.work) + 1
				ex.stats.Aborted += len(ex.work) + 1
				ex.work = nil
				break
			}
			ex.runPath(s)
			if len(ex.viols) >= ex.maxVio {
				return
			}
		}
		if !ex.newShared {
			return
		}
		ex.stats.Restarts++
		if time.Now().After(ex.lim.Deadline) {
			ex.stats.Reasons["bound: race refinement unfinished"]++
			ex.stats.Aborted++
			return
		}
		ex.stats.Paths, ex.stats.Completed, ex.stats.States, ex.stats.Pruned, ex.stats.Assumed, ex.stats.Aborted = 0, 0, 0, 0, 0, 0
		ex.stats.Reasons = map[string]int{}
	}
}

func (ex *Exec) runPath(st *State) {
	ex.stats.Paths++
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(stop)
			if !ok {
				if ex.debug {
					fmt.Println("internal error at", ex.where(st))
				}
				if _, isB := r.(blockErr); isB {
					s = stop{"internal", "unexpected block"}
				} else {
					if ex.debug {
						panic(r)
					}
					s = stop{"internal", fmt.Sprint(r) + " at " + ex.where(st)}
				}
			}
			switch s.kind {
			case "assume":
				ex.stats.Assumed++
			case "done":
				ex.stats.Completed++
			case "pruned":
				ex.stats.Pruned++
			case "violation":
			default:
				ex.stats.Aborted++
				k := s.kind + ": " + s.msg
				if s.kind == "unsupported" || s.kind == "internal" {
					k += " at " + ex.where(st)
				}
				ex.stats.Reasons[k]++
			}
		}
	}()
	for {
		if st.opts.explore {
			ex.exploreStep(st)
		} else {
			ex.detStep(st)
		}
	}
}

func (g *G) top() *Frame { return g.frames[len(g.frames)-1] }

// detStep runs one instruction of the current goroutine, switching when it blocks.
func (ex *Exec) detStep(st *State) {
	g := st.gs[st.cur]
	if !g.done && !g.waiting {
		if st.steps-st.runFrom >= 1<<13 && ex.spinning(st, g) {
			if i := ex.nextRunnable(st); i >= 0 && i != st.cur {
				st.cur, st.runFrom, st.anchor = i, st.steps, nil
				return
			}
			if !ex.timersPending(st) {
				ex.livelock(st)
			}
		}
		if ex.tryStep(st, g) {
			if st.gs[0].done {
				ex.finish(st)
			}
			return
		}
	}
	// blocked: next runnable
	i := ex.nextRunnable(st)
	if i < 0 {
		ex.deadlock(st)
	}
	st.cur, st.runFrom, st.anchor = i, st.steps, nil
}

func (ex *Exec) nextRunnable(st *State) int {
	n := len(st.gs)
	for k := 1; k <= n; k++ {
		i := (st.cur + k) % n
		h := st.gs[i]
		if h.done || h.waiting {
			continue
		}
		if ex.canStep(st, h) {
			return i
		}
	}
	return -1
}

func (ex *Exec) finish(st *State) {
	for _, r := range st.reach {
		ex.stats.Reached[r]++
	}
	if ex.stats.Sample == nil && len(st.reach) > 0 {
		ex.stats.Sample = ex.replayVals(st, st.model)
		for i := range ex.stats.Sample {
			if h := ex.stats.Sample[i].Hex; len(h) > 64 {
				ex.stats.Sample[i].Hex = h[:64] + "..."
			}
		}
		if len(ex.stats.Sample) > 40 {
			ex.stats.Sample = ex.stats.Sample[:40]
		}
	}
	panic(stop{"done", ""})
}

func (ex *Exec) deadlock(st *State) {
	if st.opts.allowDead {
		ex.finish(st)
	}
	var w []string
	for _, g := range st.gs {
		if !g.done {
			s := ex.stack(st, g)
			if len(s) > 4 {
				s = s[:4]
			}
			w = append(w, fmt.Sprintf("goroutine %d (%s): %s", g.id, g.name, strings.Join(s, " < ")))
		}
	}
	st.cur = 0
	ex.violate(st, "hang", "no goroutine can make progress while the harness waits: "+strings.Join(w, " | "), st.model)
}

// violate records a violation and ends the path.
func (ex *Exec) violate(st *State, kind, msg string, m *Model) {
	ex.record(st, kind, msg, m)
	panic(stop{"violation", msg})
}

func (ex *Exec) record(st *State, kind, msg string, m *Model) {
	g := st.gs[st.cur]
	v := &Violation{Kind: kind, Msg: msg, st: st, model: m}
	if len(g.frames) > 0 {
		v.Where = ex.stack(st, g)
		v.Pos = v.Where[0]
	}
	key := kind + msg
	if kind != "hang" {
		key += v.Pos
	}
	if ex.vioKey[key] {
		return
	}
	ex.vioKey[key] = true
	if kind != "finding" && ex.cfg["contract"] == 0 {
		// a minute more, everywhere
		atomic.CompareAndSwapInt64(&ex.P.stopAt, 0, time.Now().Add(time.Minute).UnixNano())
	}
	v.Vals = ex.replayVals(st, m)
	for t := st.trace; t != nil; t = t.prev {
		v.Sched = append(v.Sched, SchedEv{t.g, t.pos, t.what})
	}
	for i, j := 0, len(v.Sched)-1; i < j; i, j = i+1, j-1 {
		v.Sched[i], v.Sched[j] = v.Sched[j], v.Sched[i]
	}
	if kind == "finding" {
		ex.finds = append(ex.finds, v)
		return
	}
	ex.viols = append(ex.viols, v)
}

// tryStep executes one instruction; false when it would block.
func (ex *Exec) tryStep(st *State, g *G) (ok bool) {
	if !ex.canStep(st, g) {
		return false
	}
	ex.step(st, g)
	return true
}

func (ex *Exec) countStep(st *State) {
	st.steps++
	ex.stats.Steps++
	if st.steps > ex.lim.MaxSteps {
		if !st.opts.explore && !st.opts.allowDead {
			// does it ever end? the native replay tells
			ex.record(st, "hang", "no end after "+strconv.Itoa(ex.lim.MaxSteps)+" steps", st.model)
			ex.viols[len(ex.viols)-1].Strict = true
		}
		ex.abort("bound", "step limit at "+ex.where(st))
	}
	if st.steps&1023 == 0 && time.Now().After(ex.lim.Deadline) {
		ex.abort("bound", "time limit")
	}
}

// ---- values ----

func (ex *Exec) constVal(k *ssa.Const) Value {
	c := ex.c
	t := k.Type()
	if k.Value == nil {
		return ex.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.Bool(constant.BoolVal(k.Value))
		case u.Info()&types.IsString != 0:
			if k.Value.Kind() == constant.Int {
				n, _ := constant.Int64Val(k.Value)
				return Str{c.ropeLit([]byte(string(rune(n))))}
			}
			return Str{c.ropeLit([]byte(constant.StringVal(k.Value)))}
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(k.Value)
			return FloatV{f}
		case u.Info()&types.IsInteger != 0:
			x := constant.ToInt(k.Value)
			if v, ok := constant.Uint64Val(x); ok {
				return c.BV(v, width(t))
			}
			v, _ := constant.Int64Val(x)
			return c.BV(uint64(v), width(t))
		}
	}
	ex.abort("unsupported", "constant of type "+t.String())
	return nil
}

// With the parameter scale, the sizes of the connection's buffers (constants of package kafka between scaleFrom and
// scaleTo) are divided by it, so that frames larger than the buffers stay small enough to follow byte by byte.
const scaleFrom, scaleTo = 100000, 200000000

func (ex *Exec) scaled(n int64) int64 { return (n + ex.scale - 1) / ex.scale }

func (ex *Exec) get(st *State, fr *Frame, v ssa.Value) Value {
	if s, ok := fr.fi.slots[v]; ok {
		return fr.env[s]
	}
	switch x := v.(type) {
	case *ssa.Const:
		if ex.scale > 1 && fr.fi.pkg == modPath {
			if b, ok := x.Type().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && x.Value != nil {
				if n, ok := constant.Int64Val(constant.ToInt(x.Value)); ok && n >= scaleFrom && n <= scaleTo {
					return ex.c.BV(uint64(ex.scaled(n)), width(x.Type()))
				}
			}
		}
		return ex.constVal(x)
	case *ssa.Global:
		return Ptr{obj: ex.globalObj(st, x)}
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &FuncV{builtin: x.Name()}
	}
	ex.abort("unsupported", fmt.Sprintf("operand %T", v))
	return nil
}

func (ex *Exec) globalIndex(g *ssa.Global) int {
	i, ok := ex.gidx[g]
	if !ok {
		i = len(ex.gidx)
		ex.gidx[g] = i
	}
	return i
}

func (ex *Exec) globalObj(st *State, g *ssa.Global) int {
	i := ex.globalIndex(g)
	if o, ok := st.globals.Get(i).(int); ok {
		return o
	}
	id := ex.newObj(st, ex.zero(g.Type().(*types.Pointer).Elem()), ex.keyID("global:"+g.String()))
	st.globals = st.globals.Set(i, id)
	return id
}

func (ex *Exec) keyID(s string) int {
	return ex.P.keyID(s)
}

// initOf ensures the packages of the instruction's globals are initialised; true when an init frame was pushed.
func (ex *Exec) initOf(st *State, g *G, in ssa.Instruction, fr *Frame) bool {
	for _, pk := range fr.fi.globalPkgs(in) {
		i, ok := ex.pkgIdx[pk]
		if !ok {
			i = len(ex.pkgIdx)
			ex.pkgIdx[pk] = i
		}
		if st.inits.Get(i) != nil {
			continue
		}
		st.inits = st.inits.Set(i, true)
		ex.P.mu.Lock()
		pk.Build()
		ex.P.mu.Unlock()
		f := pk.Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		if skipInit[pk.Pkg.Path()] {
			continue
		}
		fi := ex.P.info(f)
		g.frames = append(g.frames, &Frame{fi: fi, blk: f.Blocks[0], env: make([]Value, fi.n), slot: -1, owner: st.id, rk: retReexec})
		return true
	}
	return false
}

var skipInit = map[string]bool{"net": true, "crypto/tls": true, "os": true, "time": true, "fmt": true, "reflect": true, "runtime": true, "internal/poll": true, "syscall": true, "crypto/x509": true}

// ---- memory ----

func (ex *Exec) loadPath(st *State, v Value, path []PE) Value {
	for _, p := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.f[p.i]
		case *ArrV:
			v = ex.arrGet(st, x, ex.peTerm(p))
		default:
			ex.abort("unsupported", fmt.Sprintf("path through %T", v))
		}
	}
	return v
}

func (ex *Exec) peTerm(p PE) *Term {
	if p.t != nil {
		return p.t
	}
	return ex.c.I64(int64(p.i))
}

func (ex *Exec) storePath(st *State, v Value, path []PE, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	switch x := v.(type) {
	case *StructV:
		n := &StructV{f: append([]Value(nil), x.f...)}
		n.f[p.i] = ex.storePath(st, x.f[p.i], path[1:], nv)
		return n
	case *ArrV:
		i := ex.peTerm(p)
		if len(path) == 1 {
			return ex.arrSet(st, x, i, nv)
		}
		k := ex.concretize(st, i)
		it := ex.c.I64(k)
		return ex.arrSet(st, x, it, ex.storePath(st, ex.arrGet(st, x, it), path[1:], nv))
	}
	ex.abort("unsupported", fmt.Sprintf("store path through %T", v))
	return nil
}

func (ex *Exec) load(st *State, p Ptr) Value {
	o := st.obj(p.obj)
	if o == nil {
		ex.abort("internal", "load of missing object")
	}
	return ex.loadPath(st, o.val, p.path)
}

func (ex *Exec) store(st *State, p Ptr, v Value) {
	o := st.obj(p.obj)
	if o == nil {
		ex.abort("internal", "store to missing object")
	}
	nv := ex.storePath(st, o.val, p.path, v)
	st.setObj(p.obj, nv)
}

func sub(path []PE, e PE) []PE {
	n := make([]PE, len(path)+1)
	copy(n, path)
	n[len(path)] = e
	return n
}

func (ex *Exec) arrOf(st *State, s Slice) *ArrV {
	if s.obj == 0 {
		return &ArrV{n: ex.c.I64(0)}
	}
	return ex.load(st, Ptr{s.obj, s.path}).(*ArrV)
}

func (ex *Exec) arrRope(st *State, a *ArrV) *Rope {
	r := a.rope
	if r == nil {
		r = ex.c.ropeOf(Seg{n: a.n})
	}
	if a.m.n == 0 {
		return r
	}
	type run struct {
		at int
		b  []*Term
	}
	var runs []run
	a.m.Each(func(k int, v interface{}) bool {
		if l := len(runs); l > 0 && runs[l-1].at+len(runs[l-1].b) == k {
			runs[l-1].b = append(runs[l-1].b, v.(*Term))
		} else {
			runs = append(runs, run{k, []*Term{v.(*Term)}})
		}
		return true
	})
	var out []Seg
	pos := 0
	for _, u := range runs {
		if u.at > pos {
			x, y := ex.ropeSplit(st, r, ex.c.I64(int64(u.at-pos)))
			out = append(out, x.segs...)
			r = y
		}
		_, y := ex.ropeSplit(st, r, ex.c.I64(int64(len(u.b))))
		out = append(out, Seg{lit: u.b})
		r = y
		pos = u.at + len(u.b)
	}
	out = append(out, r.segs...)
	return ex.c.ropeOf(out...)
}

func (ex *Exec) ropeSplit(st *State, r *Rope, p *Term) (*Rope, *Rope) {
	c := ex.c
	start := c.I64(0)
	for i, s := range r.segs {
		if p == start {
			return c.ropeOf(r.segs[:i]...), c.ropeOf(r.segs[i:]...)
		}
		end := c.Add(start, s.n)
		if p != end && ex.decide(st, c.Slt(p, end)) {
			d := c.Sub(p, start)
			var a, b Seg
			if s.lit != nil {
				k := int(ex.concretize(st, d))
				a, b = Seg{lit: s.lit[:k:k]}, Seg{lit: s.lit[k:]}
			} else if s.blob == "" {
				a, b = Seg{n: d}, Seg{n: c.Sub(s.n, d)}
			} else {
				a, b = Seg{blob: s.blob, off: s.off, n: d}, Seg{blob: s.blob, off: c.Add(s.off, d), n: c.Sub(s.n, d)}
			}
			return c.ropeOf(append(append([]Seg{}, r.segs[:i]...), a)...), c.ropeOf(append([]Seg{b}, r.segs[i+1:]...)...)
		}
		start = end
	}
	return r, c.ropeOf()
}

func (ex *Exec) ropeSlice(st *State, r *Rope, off, n *Term) *Rope {
	if off.isConst() && off.val == 0 && n == r.n {
		return r
	}
	_, b := ex.ropeSplit(st, r, off)
	if n == b.n {
		return b
	}
	a, _ := ex.ropeSplit(st, b, n)
	return a
}

// ropeAt is the byte at i (in range).
func (ex *Exec) ropeAt(st *State, r *Rope, i *Term) *Term {
	c := ex.c
	start := c.I64(0)
	for k, s := range r.segs {
		end := c.Add(start, s.n)
		if k == len(r.segs)-1 || ex.decide(st, c.Slt(i, end)) {
			d := c.Sub(i, start)
			return c.segByte(s, d)
		}
		start = end
	}
	return c.BV(0, 8)
}

func (ex *Exec) arrGet(st *State, a *ArrV, i *Term) Value {
	if i.isConst() {
		if v := a.m.Get(int(i.val)); v != nil {
			return v
		}
		if a.rope != nil {
			return ex.ropeAt(st, a.rope, i)
		}
		return a.zero
	}
	if a.m.n == 0 && a.rope == nil {
		return a.zero
	}
	if t, ok := a.zero.(*Term); ok && t.w == 8 {
		if a.m.n == 0 {
			return ex.ropeAt(st, a.rope, i)
		}
		if a.n.isConst() && a.n.val <= 256 && a.rope == nil {
			// table: an if-then-else chain
			r := Value(a.zero)
			a.m.Each(func(k int, v interface{}) bool {
				r = ex.c.Ite(ex.c.Eq(i, ex.c.I64(int64(k))), v.(*Term), r.(*Term))
				return true
			})
			return r
		}
		return ex.ropeAt(st, ex.arrRope(st, a), i)
	}
	if t, ok := a.zero.(*Term); ok && a.n.isConst() && a.n.val <= 256 {
		r := t
		a.m.Each(func(k int, v interface{}) bool {
			r = ex.c.Ite(ex.c.Eq(i, ex.c.I64(int64(k))), v.(*Term), r)
			return true
		})
		return r
	}
	k := ex.concretize(st, i)
	return ex.arrGet(st, a, ex.c.I64(k))
}

func (ex *Exec) arrSet(st *State, a *ArrV, i *Term, v Value) *ArrV {
	n := *a
	if i.isConst() {
		n.m = a.m.Set(int(i.val), v)
		return &n
	}
	if t, ok := a.zero.(*Term); ok && t.w == 8 {
		r := ex.arrRope(st, a)
		x, y := ex.ropeSplit(st, r, i)
		_, y = ex.ropeSplit(st, y, ex.c.I64(1))
		return &ArrV{n: a.n, zero: a.zero, rope: ex.c.ropeCat(ex.c.ropeCat(x, ex.c.ropeOf(Seg{lit: []*Term{v.(*Term)}})), y)}
	}
	k := ex.concretize(st, i)
	n.m = a.m.Set(int(k), v)
	return &n
}

// bytesOf is the contents of a byte slice.
func (ex *Exec) bytesOf(st *State, s Slice) *Rope {
	if s.obj == 0 {
		return ex.c.ropeOf()
	}
	return ex.ropeSlice(st, ex.arrRopeFor(st, s), s.off, s.len)
}

func (ex *Exec) arrRopeFor(st *State, s Slice) *Rope {
	a := ex.arrOf(st, s)
	// fast path: constant window over overrides only
	if a.rope == nil && s.off.isConst() && s.len.isConst() && s.len.val <= 4096 && a.m.n > 0 {
		lit := make([]*Term, s.len.val)
		for i := range lit {
			if v := a.m.Get(int(s.off.val) + i); v != nil {
				lit[i] = v.(*Term)
			} else {
				lit[i] = a.zero.(*Term)
			}
		}
		segs := []Seg{{n: s.off}, {lit: lit}}
		if a.n.isConst() {
			segs = append(segs, Seg{n: ex.c.Sub(a.n, ex.c.Add(s.off, s.len))})
		}
		// keep the window separable: do not merge zero literals with zero runs (they never merge)
		return ex.c.ropeOf(segs...)
	}
	return ex.arrRope(st, a)
}

func (ex *Exec) newBytes(st *State, r *Rope, key int) Slice {
	if len(r.segs) == 0 {
		id := ex.newObj(st, &ArrV{n: ex.c.I64(0), zero: ex.c.BV(0, 8)}, key)
		z := ex.c.I64(0)
		return Slice{obj: id, off: z, len: z, cap: z}
	}
	a := &ArrV{n: r.n, zero: ex.c.BV(0, 8), rope: r}
	id := ex.newObj(st, a, key)
	return Slice{obj: id, off: ex.c.I64(0), len: r.n, cap: r.n}
}

// writeBytes returns array a with r written at off.
func (ex *Exec) writeBytes(st *State, a *ArrV, off *Term, r *Rope) *ArrV {
	if off.isConst() && r.n.isConst() && len(r.segs) <= 1 && r.n.val <= 64 {
		if len(r.segs) == 0 {
			return a
		}
		if r.segs[0].lit != nil {
			n := *a
			for i, t := range r.segs[0].lit {
				n.m = n.m.Set(int(off.val)+i, t)
			}
			return &n
		}
	}
	base := ex.arrRope(st, a)
	x, y := ex.ropeSplit(st, base, off)
	_, y = ex.ropeSplit(st, y, r.n)
	return &ArrV{n: a.n, zero: a.zero, rope: ex.c.ropeCat(ex.c.ropeCat(x, r), y)}
}

// ---- equality ----

func (ex *Exec) strEq(st *State, a, b *Rope) *Term {
	c := ex.c
	le := c.Eq(a.n, b.n)
	if le.isFalse() {
		return le
	}
	if !ex.decide(st, le) {
		return c.False
	}
	conds, sk := ex.ropeEqConds(st, a, b)
	if len(sk) > 0 {
		// symbolic-length comparison: concretize the length
		ex.concretize(st, a.n)
		n := c.I64(ex.concretize(st, a.n))
		if n.val > 4096 {
			ex.abort("bound", "long symbolic string comparison")
		}
		for i := uint64(0); i < n.val; i++ {
			conds = append(conds, c.Eq(ex.ropeAt(st, a, c.I64(int64(i))), ex.ropeAt(st, b, c.I64(int64(i)))))
		}
	}
	return c.And(conds...)
}

type skolem struct{ k, inRange, eq *Term }

// ropeEqConds compares two ropes of equal length piecewise; pieces of symbolic length that are
// not syntactically equal become skolemised conditions (for all k in range: eq).
func (ex *Exec) ropeEqConds(st *State, a, b *Rope) (conds []*Term, sk []skolem) {
	c := ex.c
	as, bs := a.segs, b.segs
	i, j := 0, 0
	var ca, cb Seg
	ha, hb := false, false
	cut := func(s Seg, d *Term) (Seg, Seg) {
		if s.lit != nil {
			k := int(ex.concretize(st, d))
			return Seg{lit: s.lit[:k], n: c.I64(int64(k))}, Seg{lit: s.lit[k:], n: c.I64(int64(len(s.lit) - k))}
		}
		if s.blob == "" {
			return Seg{n: d}, Seg{n: c.Sub(s.n, d)}
		}
		return Seg{blob: s.blob, off: s.off, n: d}, Seg{blob: s.blob, off: c.Add(s.off, d), n: c.Sub(s.n, d)}
	}
	for {
		if !ha {
			if i == len(as) {
				break
			}
			ca = as[i]
			i++
			ha = true
		}
		if !hb {
			if j == len(bs) {
				break
			}
			cb = bs[j]
			j++
			hb = true
		}
		la, lb := ca.n, cb.n
		x, y := ca, cb
		switch {
		case la == lb || ex.known1(st, c.Eq(la, lb)):
			ha, hb = false, false
		case ex.decide(st, c.Sle(la, lb)):
			if ex.decide(st, c.Eq(la, lb)) {
				ha, hb = false, false
			} else {
				y, cb = cut(cb, la)
				ha = false
			}
		default:
			x, ca = cut(ca, lb)
			hb = false
		}
		n := x.n
		if x.lit != nil && y.lit != nil {
			for q := range x.lit {
				conds = append(conds, c.Eq(x.lit[q], y.lit[q]))
			}
			continue
		}
		if x.lit == nil && y.lit == nil && x.blob == y.blob && (x.blob == "" || x.off == y.off) {
			continue
		}
		if x.lit != nil {
			n = x.n
		} else if y.lit != nil {
			n = y.n
		}
		if n.isConst() && n.val <= 512 {
			for q := uint64(0); q < n.val; q++ {
				conds = append(conds, c.Eq(c.segByte(x, c.I64(int64(q))), c.segByte(y, c.I64(int64(q)))))
			}
			continue
		}
		k := c.Fresh("k", 64)
		sk = append(sk, skolem{k, c.And(c.Sle(c.I64(0), k), c.Slt(k, n)), c.Eq(c.segByte(x, k), c.segByte(y, k))})
	}
	return
}

func (ex *Exec) known1(st *State, t *Term) bool {
	v, ok := ex.known(st, t)
	return ok && v
}

func (ex *Exec) eq(st *State, a, b Value) *Term {
	c := ex.c
	switch x := a.(type) {
	case *Term:
		return c.Eq(x, b.(*Term))
	case Str:
		return ex.strEq(st, x.r, b.(Str).r)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return c.False
		}
		if x.obj != y.obj || len(x.path) != len(y.path) {
			return c.False
		}
		r := c.True
		for i := range x.path {
			r = c.And(r, c.Eq(ex.peTerm(x.path[i]), ex.peTerm(y.path[i])))
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return c.False
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		return ex.eq(st, x.v, y.v)
	case *StructV:
		y := b.(*StructV)
		r := c.True
		for i := range x.f {
			r = c.And(r, ex.eq(st, x.f[i], y.f[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *ArrV:
		y := b.(*ArrV)
		n := int(ex.concretize(st, x.n))
		r := c.True
		for i := 0; i < n; i++ {
			r = c.And(r, ex.eq(st, ex.arrGet(st, x, c.I64(int64(i))), ex.arrGet(st, y, c.I64(int64(i)))))
		}
		return r
	case *FuncV:
		y, _ := b.(*FuncV)
		return c.Bool(x == y)
	case Slice:
		y := b.(Slice)
		return c.Bool(x.obj == 0 && y.obj == 0)
	case MapV:
		return c.Bool(x.obj == b.(MapV).obj)
	case ChanV:
		return c.Bool(x.obj == b.(ChanV).obj)
	case FloatV:
		return c.Bool(x.f == b.(FloatV).f)
	}
	ex.abort("unsupported", fmt.Sprintf("comparison of %T", a))
	return nil
}

func (ex *Exec) replayVals(st *State, m *Model) []ReplayVal {
	var out []ReplayVal
	memo := map[*Term]uint64{}
	for _, nd := range st.nd {
		rv := ReplayVal{Kind: nd.Kind, Name: nd.Name}
		if nd.t != nil {
			x := ex.c.Eval(nd.t, m, memo)
			rv.Int = sx(x, max(nd.t.w, 1))
			if nd.t.w == 0 {
				rv.Int = int64(x)
			}
		} else {
			n := ex.c.Eval(nd.n, m, memo)
			b := make([]byte, n)
			for i := range b {
				b[i] = m.b[nd.blob][uint64(i)]
			}
			rv.Len = int(n)
			rv.Hex = fmt.Sprintf("%x", b)
		}
		out = append(out, rv)
	}
	return out
}
