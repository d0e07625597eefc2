package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Obj is a heap object (immutable record; the heap maps ids to them).
type Obj struct {
	val Value
	key int // allocation key (site, goroutine, instance)
}

type retKind uint8

const (
	retNormal     retKind = iota // store result in the caller's slot, advance
	retDefer                     // deferred call run by RunDefers
	retPanicDefer                // deferred call run while unwinding
	retReexec                    // discard, re-execute the caller's instruction (package init)
	retFixed                     // discard, store fixed value, advance
	retStrNext                   // rune decoding for a string range
)

type deferRec struct {
	fn   *FuncV
	args []Value
	call *ssa.CallCommon
	recv Value
}

type Frame struct {
	fi     *FnInfo
	blk    *ssa.BasicBlock
	ip     int
	env    []Value
	defers []deferRec
	rk     retKind
	slot   int   // destination slot in the caller (-1 none)
	fixed  Value // for retFixed
	owner  int
	br     map[int]int // two-way symbolic branches per instruction (unwinding bound)
	unw    bool        // unwinding
}

type PanicInfo struct {
	val Value
	msg string
	pos []string
}

type G struct {
	id        int
	frames    []*Frame
	waiting   bool // enqueued on channel(s)
	done      bool
	panic     *PanicInfo
	name      string
	vc        VC // explore mode only
	waitChans []int
	prio      int // priority scheduling: when it was demoted last (0 never; the later, the lower)
}

type NonDet struct {
	Kind string
	Name string
	t    *Term  // scalar
	blob string // bytes: blob name
	n    *Term  // bytes: length
}

type traceEv struct {
	prev *traceEv
	g    int
	pos  string
	what string
}

type State struct {
	id       int
	heap     PMap
	next     int
	gs       []*G
	cur      int
	pc       []*Term
	pcset    PMap
	nd       []NonDet
	model    *Model
	inits    PMap
	trace    *traceEv
	permit   int // goroutine allowed to execute its visible operation (explore mode)
	last     int // goroutine that ran last
	preempt  int
	steps    int
	ncon     int
	forks    int
	opts     hopts
	ghost    map[string]Value
	branches []bool
	reach    []string
	asserts  int
	forced   int
	forkAt   int
	globals  PMap
	acc      PMap
	ranges   PMap
	solo     *soloNode
	runFrom  int // steps when the current goroutine took over
	anchor   *anchor
	vcs      PMap
	atom     int
	permitOp string
}

// hopts are per-path options a harness may set.
type hopts struct {
	explore    bool
	maxPreempt int
	allocLimit *Term
	atomicPkgs []string
	allowDead  bool
	races      bool
}

func (ex *Exec) newID() int { ex.ids++; return ex.ids }

func (ex *Exec) clone(st *State) *State {
	n := *st
	old := st.id
	n.id = ex.newID()
	st.id = ex.newID()
	n.gs = make([]*G, len(st.gs))
	for i, g := range st.gs {
		c := *g
		c.frames = append([]*Frame(nil), g.frames...)
		// The instruction being executed may hold st's top frame: st keeps it, the clone gets a copy.
		if k := len(g.frames) - 1; k >= 0 {
			fr := g.frames[k]
			if fr.owner == old {
				f2 := fr.copy()
				f2.owner = n.id
				c.frames[k] = f2
				fr.owner = st.id
			}
		}
		if g.panic != nil {
			p := *g.panic
			c.panic = &p
		}
		n.gs[i] = &c
	}
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.nd = st.nd[:len(st.nd):len(st.nd)]
	n.reach = st.reach[:len(st.reach):len(st.reach)]
	st.pc = st.pc[:len(st.pc):len(st.pc)]
	st.nd = st.nd[:len(st.nd):len(st.nd)]
	st.reach = st.reach[:len(st.reach):len(st.reach)]
	if st.ghost != nil {
		n.ghost = map[string]Value{}
		for k, v := range st.ghost {
			n.ghost[k] = v
		}
	}
	return &n
}

func (fr *Frame) copy() *Frame {
	c := *fr
	c.env = append([]Value(nil), fr.env...)
	c.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	if fr.br != nil {
		c.br = make(map[int]int, len(fr.br))
		for k, v := range fr.br {
			c.br[k] = v
		}
	}
	return &c
}

// top returns the goroutine's top frame, mutable in st.
func (st *State) top(g *G) *Frame {
	i := len(g.frames) - 1
	fr := g.frames[i]
	if fr.owner != st.id {
		c := fr.copy()
		c.owner = st.id
		g.frames[i] = c
		return c
	}
	return fr
}

func (st *State) obj(id int) *Obj {
	o, _ := st.heap.Get(id).(*Obj)
	return o
}

func (st *State) setObj(id int, v Value) {
	o := st.obj(id)
	k := 0
	if o != nil {
		k = o.key
	}
	st.heap = st.heap.Set(id, &Obj{val: v, key: k})
}

func (ex *Exec) newObj(st *State, v Value, key int) int {
	st.next++
	st.heap = st.heap.Set(st.next, &Obj{val: v, key: key})
	return st.next
}

// ---- zero values ----

func width(t types.Type) int {
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch b.Kind() {
		case types.Bool, types.UntypedBool:
			return 0
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32, types.UntypedRune:
			return 32
		case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
			return 64
		}
	}
	return -1
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	return b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8)
}

func (ex *Exec) zero(t types.Type) Value {
	if v, ok := ex.zeros[t]; ok {
		return v
	}
	v := ex.zero1(t)
	ex.zeros[t] = v
	return v
}

func (ex *Exec) zero1(t types.Type) Value {
	c := ex.c
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if u.Info()&types.IsString != 0 {
			return Str{c.ropeOf()}
		}
		if u.Info()&types.IsFloat != 0 {
			return FloatV{}
		}
		if u.Kind() == types.UntypedNil {
			return Iface{}
		}
		w := width(t)
		if w == 0 {
			return c.False
		}
		if w > 0 {
			return c.BV(0, w)
		}
		ex.abort("unsupported", "zero of "+t.String())
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		z := c.I64(0)
		return Slice{off: z, len: z, cap: z}
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = ex.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return &ArrV{n: c.I64(u.Len()), zero: ex.zero(u.Elem())}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.Tuple:
		tv := make(Tuple, u.Len())
		for i := range tv {
			tv[i] = ex.zero(u.At(i).Type())
		}
		return tv
	}
	ex.abort("unsupported", fmt.Sprintf("zero of %s", t))
	return nil
}
