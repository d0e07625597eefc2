package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, Ptr, Slice, Str, *StructV, *ArrV, Iface, *FuncV, MapV, ChanV, Tuple, FloatV, *RangeV
type Value interface{}

// PE is one step of a pointer path: a field or element index, possibly symbolic.
type PE struct {
	i int
	t *Term
}

type Ptr struct {
	obj  int // 0: nil
	path []PE
}

type Slice struct {
	obj           int // 0: nil slice
	path          []PE
	off, len, cap *Term
}

type Str struct{ r *Rope }

type StructV struct{ f []Value }

// ArrV is an array: sparse element overrides over a base (a byte rope or all-zero).
type ArrV struct {
	n    *Term
	zero Value
	m    PMap
	rope *Rope // base contents for byte arrays; nil: zeros
}

type Iface struct {
	t types.Type // nil: nil interface
	v Value
}

type FuncV struct {
	fn      *ssa.Function
	bind    []Value
	builtin string
}

type MapV struct{ obj int }
type ChanV struct{ obj int }
type Tuple []Value
type FloatV struct{ f float64 }

// RangeV is an iterator created by ssa.Range.
type RangeV struct {
	isStr bool
	str   Str
	obj   int // iterator object holding progress
}

// IterData is the heap value of an iterator.
type IterData struct {
	pos  int     // strings: byte offset
	keys []Value // maps: keys still to visit
	m    int     // map object
}

// MapData is the heap value of a map.
type MapData struct {
	keys []Value
	vals []Value
	kt   types.Type
	vt   types.Type
}

type waiter struct {
	g   int
	cas int // select case, -1 for a plain operation
	val Value
}

// ChanData is the heap value of a channel.
type ChanData struct {
	cap    int
	buf    []Value
	closed bool
	recvq  []waiter
	sendq  []waiter
	et     types.Type
}

// ---- ropes ----

type Seg struct {
	lit  []*Term // literal bytes
	blob string  // blob name ("" with lit==nil: zeros)
	off  *Term
	n    *Term // length (64 bit)
}

type Rope struct {
	segs []Seg
	n    *Term
}

func (c *TCtx) ropeOf(segs ...Seg) *Rope {
	r := &Rope{n: c.I64(0)}
	for _, s := range segs {
		if s.lit == nil && s.n.isConst() && s.n.val == 0 || s.lit != nil && len(s.lit) == 0 {
			continue
		}
		if s.lit != nil {
			s.n = c.I64(int64(len(s.lit)))
		}
		r.n = c.Add(r.n, s.n)
		if k := len(r.segs); k > 0 {
			p := &r.segs[k-1]
			if p.lit != nil && s.lit != nil {
				nl := make([]*Term, 0, len(p.lit)+len(s.lit))
				nl = append(append(nl, p.lit...), s.lit...)
				*p = Seg{lit: nl, n: c.I64(int64(len(nl)))}
				continue
			}
			if p.lit == nil && s.lit == nil && p.blob == s.blob {
				if p.blob == "" {
					*p = Seg{n: c.Add(p.n, s.n)}
					continue
				}
				if c.Add(p.off, p.n) == s.off {
					*p = Seg{blob: p.blob, off: p.off, n: c.Add(p.n, s.n)}
					continue
				}
			}
		}
		r.segs = append(r.segs, s)
	}
	return r
}

func (c *TCtx) ropeLit(b []byte) *Rope {
	l := make([]*Term, len(b))
	for i, x := range b {
		l[i] = c.BV(uint64(x), 8)
	}
	return c.ropeOf(Seg{lit: l})
}

func (c *TCtx) ropeCat(a, b *Rope) *Rope {
	if len(a.segs) == 0 {
		return b
	}
	if len(b.segs) == 0 {
		return a
	}
	segs := append(append([]Seg{}, a.segs...), b.segs...)
	return c.ropeOf(segs...)
}

// concrete returns the rope's bytes when all are constants.
func (r *Rope) concrete() ([]byte, bool) {
	var out []byte
	for _, s := range r.segs {
		if s.lit == nil {
			if s.blob == "" && s.n.isConst() && s.n.val < 1<<20 {
				out = append(out, make([]byte, s.n.val)...)
				continue
			}
			return nil, false
		}
		for _, t := range s.lit {
			if !t.isConst() {
				return nil, false
			}
			out = append(out, byte(t.val))
		}
	}
	return out, true
}

// segByte is the byte at offset d (term) inside segment s, without bounds checks.
func (c *TCtx) segByte(s Seg, d *Term) *Term {
	if s.lit != nil {
		if d.isConst() {
			if d.val < uint64(len(s.lit)) {
				return s.lit[d.val]
			}
			return c.BV(0, 8)
		}
		r := s.lit[len(s.lit)-1]
		for i := len(s.lit) - 2; i >= 0; i-- {
			r = c.Ite(c.Eq(d, c.I64(int64(i))), s.lit[i], r)
		}
		return r
	}
	if s.blob == "" {
		return c.BV(0, 8)
	}
	return c.Sel(s.blob, c.Add(s.off, d))
}

// ropeAtIte is the byte at i as one term (no forking); i is assumed in range.
func (c *TCtx) ropeAtIte(r *Rope, i *Term) *Term {
	start := c.I64(0)
	type cs struct{ cond, v *Term }
	var out []cs
	for k, s := range r.segs {
		d := c.Sub(i, start)
		if d.isConst() && s.n.isConst() && d.val < s.n.val {
			return c.segByte(s, d)
		}
		start = c.Add(start, s.n)
		v := c.segByte(s, d)
		if k == len(r.segs)-1 {
			out = append(out, cs{nil, v})
		} else {
			out = append(out, cs{c.Slt(i, start), v})
		}
	}
	if len(out) == 0 {
		return c.BV(0, 8)
	}
	res := out[len(out)-1].v
	for k := len(out) - 2; k >= 0; k-- {
		res = c.Ite(out[k].cond, out[k].v, res)
	}
	return res
}

func (r *Rope) String() string {
	if b, ok := r.concrete(); ok {
		return fmt.Sprintf("%q", b)
	}
	s := ""
	for _, g := range r.segs {
		switch {
		case g.lit != nil:
			s += fmt.Sprintf("lit%d", len(g.lit))
		case g.blob == "":
			s += fmt.Sprintf("zero[%v]", g.n)
		default:
			s += fmt.Sprintf("%s[%v+%v]", g.blob, g.off, g.n)
		}
		s += " "
	}
	return s
}
