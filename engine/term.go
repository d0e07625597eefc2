package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota // bit-vector constant (w>0) or boolean constant (w==0)
	OVar             // bit-vector or boolean variable
	OSel             // byte of a blob at a 64-bit index: blob name in name, args[0] = index
	OAdd             // n-ary sum; canonical: sorted args, constant last
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd // bit-vector
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OConcat // n-ary, most significant first
	OExtract
	OSext
	OIte
	// boolean
	OEq
	OUlt
	OUle
	OSlt
	OSle
	ONot
	OBAnd
	OBOr
)

var opNames = map[Op]string{OAdd: "bvadd", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat",
	OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", ONot: "not", OBAnd: "and", OBOr: "or"}

// Term is a hash-consed SMT term. w == 0 means boolean.
type Term struct {
	id     int
	op     Op
	w      int
	args   []*Term
	val    uint64
	name   string
	hi, lo int
	// cached signed/unsigned ranges
	hasR     bool
	umin     uint64
	umax     uint64
	smin     int64
	smax     int64
	vars     []int // sorted ids of variables / blob names occurring (lazily)
	hasVars  bool
	defName  string // solver definition name (per solver epoch)
	defEpoch int
}

// TCtx owns terms.
type TCtx struct {
	tab   map[string]*Term
	all   int
	True  *Term
	False *Term
	fresh int
	vars  []*Term        // all declared variables
	blobs map[string]int // blob name -> pseudo variable id
	bn    []string
}

func NewTCtx() *TCtx {
	c := &TCtx{tab: map[string]*Term{}, blobs: map[string]int{}}
	c.True = c.mk(&Term{op: OConst, w: 0, val: 1})
	c.False = c.mk(&Term{op: OConst, w: 0, val: 0})
	return c
}

func (c *TCtx) mk(t *Term) *Term {
	var b [160]byte
	k := b[:0]
	k = append(k, byte(t.op), byte(t.w), byte(t.hi), byte(t.lo))
	switch t.op {
	case OConst:
		k = appendU64(k, t.val)
	case OVar:
		k = append(k, t.name...)
	case OSel:
		k = append(k, t.name...)
		k = append(k, 0)
	}
	for _, a := range t.args {
		k = append(k, byte(a.id), byte(a.id>>8), byte(a.id>>16), byte(a.id>>24))
	}
	if r, ok := c.tab[string(k)]; ok {
		return r
	}
	c.all++
	t.id = c.all
	c.tab[string(k)] = t
	if t.op == OVar {
		c.vars = append(c.vars, t)
	}
	return t
}

func appendU64(k []byte, v uint64) []byte {
	return append(k, byte(v), byte(v>>8), byte(v>>16), byte(v>>24), byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56))
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func (c *TCtx) BV(v uint64, w int) *Term { return c.mk(&Term{op: OConst, w: w, val: v & mask(w)}) }
func (c *TCtx) I64(v int64) *Term        { return c.BV(uint64(v), 64) }
func (c *TCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *TCtx) Var(name string, w int) *Term { return c.mk(&Term{op: OVar, w: w, name: name}) }
func (c *TCtx) Fresh(prefix string, w int) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.fresh), w)
}
func (c *TCtx) Sel(blob string, idx *Term) *Term {
	return c.mk(&Term{op: OSel, w: 8, name: blob, args: []*Term{idx}})
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }
func (t *Term) sval() int64   { return sx(t.val, t.w) }

// ---- linear sums ----

type lin struct {
	t *Term
	k uint64
}

func (c *TCtx) linParts(t *Term, k uint64, acc map[*Term]uint64, cst *uint64) {
	switch {
	case t.op == OConst:
		*cst += k * t.val
	case t.op == OAdd:
		for _, a := range t.args {
			c.linParts(a, k, acc, cst)
		}
	case t.op == OMul && t.args[1].isConst():
		c.linParts(t.args[0], k*t.args[1].val, acc, cst)
	default:
		acc[t] += k
	}
}

func (c *TCtx) mkLin(acc map[*Term]uint64, cst uint64, w int) *Term {
	var ts []*Term
	for t, k := range acc {
		k &= mask(w)
		if k == 0 {
			continue
		}
		_ = k
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var args []*Term
	for _, t := range ts {
		k := acc[t] & mask(w)
		if k == 1 {
			args = append(args, t)
		} else {
			args = append(args, c.mk(&Term{op: OMul, w: w, args: []*Term{t, c.BV(k, w)}}))
		}
	}
	cst &= mask(w)
	if len(args) == 0 {
		return c.BV(cst, w)
	}
	if cst != 0 {
		args = append(args, c.BV(cst, w))
	}
	if len(args) == 1 {
		return args[0]
	}
	return c.mk(&Term{op: OAdd, w: w, args: args})
}

func (c *TCtx) Add(a, b *Term) *Term {
	if a.isConst() && a.val == 0 {
		return b
	}
	if b.isConst() && b.val == 0 {
		return a
	}
	if a.isConst() && b.isConst() {
		return c.BV(a.val+b.val, a.w)
	}
	acc := map[*Term]uint64{}
	var cst uint64
	c.linParts(a, 1, acc, &cst)
	c.linParts(b, 1, acc, &cst)
	return c.mkLin(acc, cst, a.w)
}
func (c *TCtx) Sub(a, b *Term) *Term {
	if a == b {
		return c.BV(0, a.w)
	}
	if a.isConst() && b.isConst() {
		return c.BV(a.val-b.val, a.w)
	}
	acc := map[*Term]uint64{}
	var cst uint64
	c.linParts(a, 1, acc, &cst)
	c.linParts(b, ^uint64(0), acc, &cst)
	return c.mkLin(acc, cst, a.w)
}
func (c *TCtx) Neg(a *Term) *Term { return c.Sub(c.BV(0, a.w), a) }
func (c *TCtx) Mul(a, b *Term) *Term {
	if a.isConst() && !b.isConst() {
		a, b = b, a
	}
	if a.isConst() && b.isConst() {
		return c.BV(a.val*b.val, a.w)
	}
	if b.isConst() {
		acc := map[*Term]uint64{}
		var cst uint64
		c.linParts(a, b.val, acc, &cst)
		return c.mkLin(acc, cst, a.w)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OMul, w: a.w, args: []*Term{a, b}})
}

func (c *TCtx) Div(op Op, a, b *Term) *Term {
	w := a.w
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			switch op {
			case OUDiv:
				return c.BV(a.val/b.val, w)
			case OURem:
				return c.BV(a.val%b.val, w)
			case OSDiv:
				if b.sval() == -1 {
					return c.BV(-a.val, w)
				}
				return c.BV(uint64(a.sval()/b.sval()), w)
			case OSRem:
				if b.sval() == -1 {
					return c.BV(0, w)
				}
				return c.BV(uint64(a.sval()%b.sval()), w)
			}
		}
		if b.val == 1 {
			if op == OUDiv || op == OSDiv {
				return a
			}
			return c.BV(0, w)
		}
		// signed op on non-negative operands is the unsigned op
		if (op == OSDiv || op == OSRem) && b.sval() > 0 {
			if lo, _ := c.srange(a); lo >= 0 {
				if op == OSDiv {
					op = OUDiv
				} else {
					op = OURem
				}
			}
		}
		if op == OUDiv && b.val&(b.val-1) == 0 {
			return c.Lshr(a, c.BV(uint64(bits.TrailingZeros64(b.val)), w))
		}
		if op == OURem && b.val&(b.val-1) == 0 {
			return c.BAndBV(a, c.BV(b.val-1, w))
		}
		if op == OUDiv || op == OURem {
			if _, hi := c.urange(a); hi < b.val {
				if op == OUDiv {
					return c.BV(0, w)
				}
				return a
			}
			// divide in as few bits as the operands need
			if _, hi := c.urange(a); !a.isConst() {
				if n := bits.Len64(hi | b.val); n < w {
					return c.Zext(c.mk(&Term{op: op, w: n, args: []*Term{c.Extract(a, n-1, 0), c.BV(b.val, n)}}), w)
				}
			}
		}
	}
	return c.mk(&Term{op: op, w: w, args: []*Term{a, b}})
}

// ---- concat / extract ----

func (c *TCtx) Concat(parts ...*Term) *Term {
	var fl []*Term
	for _, p := range parts {
		if p.op == OConcat {
			fl = append(fl, p.args...)
		} else {
			fl = append(fl, p)
		}
	}
	var out []*Term
	for _, p := range fl {
		if len(out) > 0 {
			q := out[len(out)-1]
			if q.isConst() && p.isConst() && q.w+p.w <= 64 {
				out[len(out)-1] = c.BV(q.val<<uint(p.w)|p.val, q.w+p.w)
				continue
			}
			if q.op == OExtract && p.op == OExtract && q.args[0] == p.args[0] && q.lo == p.hi+1 {
				out[len(out)-1] = c.Extract(q.args[0], q.hi, p.lo)
				continue
			}
			if q.op == OExtract && q.args[0] == p && q.lo == p.w {
				// cannot happen (width)
			}
		}
		out = append(out, p)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, p := range out {
		w += p.w
	}
	// sign extension reassembled: extract(hi part of sext) etc. is left alone
	return c.mk(&Term{op: OConcat, w: w, args: out})
}

func (c *TCtx) Extract(t *Term, hi, lo int) *Term {
	if lo == 0 && hi == t.w-1 {
		return t
	}
	w := hi - lo + 1
	switch t.op {
	case OConst:
		return c.BV(t.val>>uint(lo), w)
	case OExtract:
		return c.Extract(t.args[0], hi+t.lo, lo+t.lo)
	case OConcat:
		pos := t.w
		var parts []*Term
		for _, a := range t.args {
			ahi, alo := pos-1, pos-a.w
			pos = alo
			h, l := min(hi, ahi), max(lo, alo)
			if h >= l {
				parts = append(parts, c.Extract(a, h-alo, l-alo))
			}
		}
		return c.Concat(parts...)
	case OSext:
		a := t.args[0]
		if hi < a.w {
			return c.Extract(a, hi, lo)
		}
		if lo < a.w {
			return c.Sext(c.Extract(a, a.w-1, lo), w)
		}
		if lo >= a.w-1 {
			return c.Sext(c.Extract(a, a.w-1, a.w-1), w)
		}
	case OAnd, OOr, OXor:
		if t.args[1].isConst() || t.args[0].op == OConcat || t.args[1].op == OConcat {
			x, y := c.Extract(t.args[0], hi, lo), c.Extract(t.args[1], hi, lo)
			switch t.op {
			case OAnd:
				return c.BAndBV(x, y)
			case OOr:
				return c.BOrBV(x, y)
			default:
				return c.BXor(x, y)
			}
		}
	case OAdd, OMul:
		if lo == 0 { // modular arithmetic truncates
			var r *Term
			for _, a := range t.args {
				x := c.Extract(a, hi, 0)
				if r == nil {
					r = x
				} else if t.op == OAdd {
					r = c.Add(r, x)
				} else {
					r = c.Mul(r, x)
				}
			}
			return r
		}
	case OIte:
		if t.args[1].isConst() || t.args[2].isConst() {
			return c.Ite(t.args[0], c.Extract(t.args[1], hi, lo), c.Extract(t.args[2], hi, lo))
		}
	}
	return c.mk(&Term{op: OExtract, w: w, hi: hi, lo: lo, args: []*Term{t}})
}

func (c *TCtx) Zext(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if t.isConst() {
		return c.BV(t.val, w)
	}
	if r := c.extLin(t, w, false); r != nil {
		return r
	}
	return c.Concat(c.BV(0, w-t.w), t)
}

// extLin moves an extension into a sum, or a product with a constant, that cannot overflow.
func (c *TCtx) extLin(t *Term, w int, signed bool) *Term {
	if t.w > 32 || t.op != OAdd && t.op != OMul || t.op == OMul && (len(t.args) != 2 || !t.args[0].isConst() && !t.args[1].isConst()) {
		return nil
	}
	rng := func(a *Term) (int64, int64) {
		if signed {
			return c.srange(a)
		}
		lo, hi := c.urange(a)
		return int64(lo), int64(hi)
	}
	min, max := int64(0), int64(mask(t.w))
	if signed {
		min, max = -int64(1)<<uint(t.w-1), int64(1)<<uint(t.w-1)-1
	}
	if t.op == OAdd {
		var lo, hi int64
		for _, a := range t.args {
			l, h := rng(a)
			lo, hi = lo+l, hi+h
		}
		if lo < min || hi > max {
			return nil
		}
	} else {
		k, x := t.args[0], t.args[1]
		if x.isConst() {
			k, x = x, k
		}
		kv := int64(k.val)
		if signed {
			kv = k.sval()
		}
		l, h := rng(x)
		if kv < 0 || kv > 1<<20 || kv*l < min || kv*h > max {
			return nil
		}
	}
	var r *Term
	for _, a := range t.args {
		var x *Term
		if signed {
			x = c.Sext(a, w)
		} else {
			x = c.Zext(a, w)
		}
		if r == nil {
			r = x
		} else if t.op == OAdd {
			r = c.Add(r, x)
		} else {
			r = c.Mul(r, x)
		}
	}
	return r
}

func (c *TCtx) topZero(t *Term) bool {
	switch t.op {
	case OConst:
		return t.val>>(uint(t.w)-1) == 0
	case OConcat:
		return c.topZero(t.args[0])
	}
	_, hi := c.urange(t)
	return hi <= mask(t.w)>>1
}

func (c *TCtx) Sext(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if t.isConst() {
		return c.BV(uint64(t.sval()), w)
	}
	if t.op == OSext {
		return c.Sext(t.args[0], w)
	}
	if r := c.extLin(t, w, true); r != nil {
		return r
	}
	if c.topZero(t) {
		return c.Zext(t, w)
	}
	return c.mk(&Term{op: OSext, w: w, args: []*Term{t}})
}

// pieces decomposes t into concat parts (msb first).
func (c *TCtx) pieces(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}

// constant mask split into runs
func (c *TCtx) constRuns(v uint64, w int) []*Term {
	var out []*Term
	i := w
	for i > 0 {
		b := v >> uint(i-1) & 1
		j := i
		for j > 0 && v>>uint(j-1)&1 == b {
			j--
		}
		n := i - j
		if b == 1 {
			out = append(out, c.BV(mask(n), n))
		} else {
			out = append(out, c.BV(0, n))
		}
		i = j
	}
	return out
}

// align splits both piece lists on common boundaries.
func (c *TCtx) align(a, b []*Term) ([]*Term, []*Term) {
	var ra, rb []*Term
	i, j := 0, 0
	var ca, cb *Term
	for {
		if ca == nil {
			if i == len(a) {
				break
			}
			ca = a[i]
			i++
		}
		if cb == nil {
			if j == len(b) {
				break
			}
			cb = b[j]
			j++
		}
		switch {
		case ca.w == cb.w:
			ra, rb = append(ra, ca), append(rb, cb)
			ca, cb = nil, nil
		case ca.w > cb.w:
			ra, rb = append(ra, c.Extract(ca, ca.w-1, ca.w-cb.w)), append(rb, cb)
			ca = c.Extract(ca, ca.w-cb.w-1, 0)
			cb = nil
		default:
			ra, rb = append(ra, ca), append(rb, c.Extract(cb, cb.w-1, cb.w-ca.w))
			cb = c.Extract(cb, cb.w-ca.w-1, 0)
			ca = nil
		}
	}
	return ra, rb
}

func (c *TCtx) maskPieces(t *Term) []*Term {
	if t.isConst() {
		return c.constRuns(t.val, t.w)
	}
	return c.pieces(t)
}

func isZero(t *Term) bool { return t.isConst() && t.val == 0 }
func isOnes(t *Term) bool { return t.isConst() && t.val == mask(t.w) }

func (c *TCtx) bitwise(op Op, a, b *Term, one func(x, y *Term) *Term) *Term {
	pa, pb := c.maskPieces(a), c.maskPieces(b)
	if len(pa) == 1 && len(pb) == 1 {
		if a.id > b.id && !b.isConst() {
			a, b = b, a
		}
		if a.isConst() {
			a, b = b, a
		}
		return c.mk(&Term{op: op, w: a.w, args: []*Term{a, b}})
	}
	ra, rb := c.align(pa, pb)
	ok := true
	for i := range ra {
		x, y := ra[i], rb[i]
		if !(x.isConst() && (x.val == 0 || isOnes(x)) || y.isConst() && (y.val == 0 || isOnes(y)) || x == y) {
			ok = false
			break
		}
	}
	if !ok {
		if a.isConst() || (a.id > b.id && !b.isConst()) {
			a, b = b, a
		}
		return c.mk(&Term{op: op, w: a.w, args: []*Term{a, b}})
	}
	out := make([]*Term, len(ra))
	for i := range ra {
		out[i] = one(ra[i], rb[i])
	}
	return c.Concat(out...)
}

func (c *TCtx) BOrBV(a, b *Term) *Term {
	switch {
	case a.isConst() && b.isConst():
		return c.BV(a.val|b.val, a.w)
	case a == b || isZero(b):
		return a
	case isZero(a):
		return b
	case isOnes(a):
		return a
	case isOnes(b):
		return b
	}
	return c.bitwise(OOr, a, b, c.BOrBV)
}
func (c *TCtx) BAndBV(a, b *Term) *Term {
	switch {
	case a.isConst() && b.isConst():
		return c.BV(a.val&b.val, a.w)
	case a == b || isOnes(b):
		return a
	case isOnes(a):
		return b
	case isZero(a):
		return a
	case isZero(b):
		return b
	}
	return c.bitwise(OAnd, a, b, c.BAndBV)
}
func (c *TCtx) BXor(a, b *Term) *Term {
	switch {
	case a.isConst() && b.isConst():
		return c.BV(a.val^b.val, a.w)
	case a == b:
		return c.BV(0, a.w)
	case isZero(b):
		return a
	case isZero(a):
		return b
	}
	if a.isConst() || (a.id > b.id && !b.isConst()) {
		a, b = b, a
	}
	if a.op == OXor {
		if a.args[1] == b {
			return a.args[0]
		}
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1].isConst() && b.isConst() {
			return c.BXor(a.args[0], c.BV(a.args[1].val^b.val, a.w))
		}
	}
	return c.mk(&Term{op: OXor, w: a.w, args: []*Term{a, b}})
}
func (c *TCtx) BNot(a *Term) *Term { return c.BXor(a, c.BV(mask(a.w), a.w)) }

// shifts: amount has the same width as a
func (c *TCtx) Shl(a, s *Term) *Term {
	if s.isConst() {
		if s.val >= uint64(a.w) {
			return c.BV(0, a.w)
		}
		k := int(s.val)
		if k == 0 {
			return a
		}
		return c.Concat(c.Extract(a, a.w-1-k, 0), c.BV(0, k))
	}
	return c.mk(&Term{op: OShl, w: a.w, args: []*Term{a, s}})
}
func (c *TCtx) Lshr(a, s *Term) *Term {
	if s.isConst() {
		if s.val >= uint64(a.w) {
			return c.BV(0, a.w)
		}
		k := int(s.val)
		if k == 0 {
			return a
		}
		return c.Zext(c.Extract(a, a.w-1, k), a.w)
	}
	return c.mk(&Term{op: OLshr, w: a.w, args: []*Term{a, s}})
}
func (c *TCtx) Ashr(a, s *Term) *Term {
	if s.isConst() {
		k := int(min(s.val, uint64(a.w-1)))
		if k == 0 {
			return a
		}
		return c.Sext(c.Extract(a, a.w-1, k), a.w)
	}
	return c.mk(&Term{op: OAshr, w: a.w, args: []*Term{a, s}})
}

func (c *TCtx) Ite(cond, a, b *Term) *Term {
	if cond.isTrue() || a == b {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if a.w == 0 {
		return c.Or(c.And(cond, a), c.And(c.Not(cond), b))
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	return c.mk(&Term{op: OIte, w: a.w, args: []*Term{cond, a, b}})
}

// ---- booleans ----

func (c *TCtx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Bool(a.val == 0)
	case ONot:
		return a.args[0]
	case OUlt:
		return c.Ule(a.args[1], a.args[0])
	case OUle:
		return c.Ult(a.args[1], a.args[0])
	case OSlt:
		return c.Sle(a.args[1], a.args[0])
	case OSle:
		return c.Slt(a.args[1], a.args[0])
	}
	return c.mk(&Term{op: ONot, w: 0, args: []*Term{a}})
}

func (c *TCtx) nary(op Op, absorb *Term, unit *Term, ts []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == absorb {
			return false
		}
		if t == unit || seen[t] {
			return true
		}
		if t.op == op {
			for _, a := range t.args {
				if !walk(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !walk(t) {
			return absorb
		}
	}
	for _, t := range out {
		if t.op == ONot && seen[t.args[0]] {
			return absorb
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mkLong(op, out)
}

// mkLong hash-conses n-ary boolean nodes (the key buffer may be long).
func (c *TCtx) mkLong(op Op, args []*Term) *Term {
	return c.mk(&Term{op: op, w: 0, args: args})
}
func (c *TCtx) And(ts ...*Term) *Term { return c.nary(OBAnd, c.False, c.True, ts) }
func (c *TCtx) Or(ts ...*Term) *Term  { return c.nary(OBOr, c.True, c.False, ts) }
func (c *TCtx) Implies(a, b *Term) *Term {
	return c.Or(c.Not(a), b)
}

func (c *TCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
		return c.And(c.Implies(a, b), c.Implies(b, a))
	}
	if a.isConst() {
		a, b = b, a
	}
	amin, amax := c.urange(a)
	bmin, bmax := c.urange(b)
	if amax < bmin || bmax < amin {
		return c.False
	}
	if a.op == OIte && b.isConst() && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	if a.op == OSext && b.isConst() {
		x := a.args[0]
		if sx(b.val, b.w) != sx(b.val&mask(x.w), x.w) {
			return c.False
		}
		return c.Eq(x, c.BV(b.val, x.w))
	}
	if a.op == OSext && b.op == OSext && a.args[0].w == b.args[0].w {
		return c.Eq(a.args[0], b.args[0])
	}
	if (a.op == OConcat || b.op == OConcat) && (b.isConst() || a.op == OConcat && b.op == OConcat) {
		pa, pb := c.pieces(a), c.pieces(b)
		ra, rb := c.align(pa, pb)
		if len(ra) > 1 {
			var cs []*Term
			for i := range ra {
				cs = append(cs, c.Eq(ra[i], rb[i]))
			}
			return c.And(cs...)
		}
	}
	// cancel common linear parts
	if a.op == OAdd || b.op == OAdd {
		d := c.Sub(a, b)
		if d.isConst() {
			return c.Bool(d.val == 0)
		}
		lo, hi := c.srange(d)
		if lo > 0 || hi < 0 {
			return c.False
		}
		// canonical: split positive and negative parts
		if d.op == OAdd {
			acc := map[*Term]uint64{}
			var cst uint64
			c.linParts(d, 1, acc, &cst)
			pos, neg := map[*Term]uint64{}, map[*Term]uint64{}
			for t, k := range acc {
				k &= mask(d.w)
				if sx(k, d.w) < 0 {
					neg[t] = -k
				} else {
					pos[t] = k
				}
			}
			l := c.mkLin(pos, 0, d.w)
			r := c.mkLin(neg, -cst, d.w)
			if l.id > r.id {
				l, r = r, l
			}
			if l.op != OAdd && r.op != OAdd {
				return c.Eq(l, r)
			}
			return c.mk(&Term{op: OEq, w: 0, args: []*Term{l, r}})
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, w: 0, args: []*Term{a, b}})
}

func (c *TCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	amin, amax := c.urange(a)
	bmin, bmax := c.urange(b)
	if amax < bmin {
		return c.True
	}
	if amin >= bmax {
		return c.False
	}
	// both non-negative as signed: use the signed form, which simplifies more
	if amax <= mask(a.w)>>1 && bmax <= mask(a.w)>>1 {
		return c.Slt(a, b)
	}
	return c.mk(&Term{op: OUlt, w: 0, args: []*Term{a, b}})
}
func (c *TCtx) Ule(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	amin, amax := c.urange(a)
	bmin, bmax := c.urange(b)
	if amax <= bmin {
		return c.True
	}
	if amin > bmax {
		return c.False
	}
	if amax <= mask(a.w)>>1 && bmax <= mask(a.w)>>1 {
		return c.Sle(a, b)
	}
	return c.mk(&Term{op: OUle, w: 0, args: []*Term{a, b}})
}

// sdiff returns the range of b-a computed after cancellation, if no signed overflow is possible.
func (c *TCtx) sdiff(a, b *Term) (d *Term, lo, hi int64, ok bool) {
	alo, ahi := c.srange(a)
	blo, bhi := c.srange(b)
	half := int64(mask(a.w) >> 2)
	if alo < -half || ahi > half || blo < -half || bhi > half {
		return nil, 0, 0, false
	}
	d = c.Sub(b, a)
	lo, hi = c.srange(d)
	return d, lo, hi, true
}

func (c *TCtx) Slt(a, b *Term) *Term { return c.scmp(a, b, true) }
func (c *TCtx) Sle(a, b *Term) *Term { return c.scmp(a, b, false) }

func (c *TCtx) scmp(a, b *Term, strict bool) *Term {
	if a == b {
		return c.Bool(!strict)
	}
	amin, amax := c.srange(a)
	bmin, bmax := c.srange(b)
	if strict {
		if amax < bmin {
			return c.True
		}
		if amin >= bmax {
			return c.False
		}
	} else {
		if amax <= bmin {
			return c.True
		}
		if amin > bmax {
			return c.False
		}
	}
	// sext on one side, constant on the other: compare at the narrow width
	if a.op == OSext && b.isConst() {
		x := a.args[0]
		return c.scmp(x, c.BV(b.val, x.w), strict) // in range, otherwise decided above
	}
	if b.op == OSext && a.isConst() {
		x := b.args[0]
		return c.scmp(c.BV(a.val, x.w), x, strict)
	}
	if a.op == OSext && b.op == OSext && a.args[0].w == b.args[0].w {
		return c.scmp(a.args[0], b.args[0], strict)
	}
	if a.op == OAdd || b.op == OAdd || !a.isConst() && !b.isConst() {
		if d, lo, hi, ok := c.sdiff(a, b); ok {
			if strict {
				if lo > 0 {
					return c.True
				}
				if hi <= 0 {
					return c.False
				}
			} else {
				if lo >= 0 {
					return c.True
				}
				if hi < 0 {
					return c.False
				}
			}
			// canonical: positive part vs negative part
			acc := map[*Term]uint64{}
			var cst uint64
			c.linParts(d, 1, acc, &cst)
			pos, neg := map[*Term]uint64{}, map[*Term]uint64{}
			small := true
			for t, k := range acc {
				k &= mask(d.w)
				if sx(k, d.w) < 0 {
					neg[t] = -k
				} else {
					pos[t] = k
				}
				tl, th := c.srange(t)
				kk := sx(k, d.w)
				if kk > 1<<20 || kk < -(1<<20) || tl < -(1<<36) || th > 1<<36 {
					small = false
				}
			}
			if small && sx(cst&mask(d.w), d.w) < 1<<40 && sx(cst&mask(d.w), d.w) > -(1<<40) && d.w == 64 {
				// 0 < pos - neg + cst
				var l, r *Term
				sc := sx(cst&mask(d.w), d.w)
				if sc >= 0 && len(pos) > 0 || len(neg) == 0 {
					l, r = c.mkLin(neg, -cst, d.w), c.mkLin(pos, 0, d.w)
				} else {
					l, r = c.mkLin(neg, 0, d.w), c.mkLin(pos, cst, d.w)
				}
				if l == r {
					return c.Bool(!strict)
				}
				op := OSle
				if strict {
					op = OSlt
				}
				return c.mk(&Term{op: op, w: 0, args: []*Term{l, r}})
			}
		}
	}
	op := OSle
	if strict {
		op = OSlt
	}
	return c.mk(&Term{op: op, w: 0, args: []*Term{a, b}})
}

// ---- ranges ----

func (c *TCtx) compute(t *Term) {
	if t.hasR {
		return
	}
	t.hasR = true
	w := t.w
	if w == 0 {
		t.umax = 1
		t.smax = 1
		return
	}
	t.umin, t.umax = 0, mask(w)
	t.smin, t.smax = -int64(mask(w)>>1)-1, int64(mask(w)>>1)
	uset := func(lo, hi uint64) {
		t.umin, t.umax = lo, hi
		if hi <= mask(w)>>1 {
			t.smin, t.smax = int64(lo), int64(hi)
		}
	}
	sset := func(lo, hi int64) {
		t.smin, t.smax = lo, hi
		if lo >= 0 {
			t.umin, t.umax = uint64(lo), uint64(hi)
		}
	}
	switch t.op {
	case OConst:
		t.umin, t.umax = t.val, t.val
		t.smin, t.smax = t.sval(), t.sval()
	case OConcat:
		var lo, hi uint64
		if w <= 64 {
			for _, a := range t.args {
				al, ah := c.urange(a)
				lo = lo<<uint(a.w) | al
				hi = hi<<uint(a.w) | ah
			}
			uset(lo, hi)
			if t.umin > mask(w)>>1 {
				t.smin, t.smax = sx(t.umin, w), sx(t.umax, w)
			}
		}
	case OSext:
		lo, hi := c.srange(t.args[0])
		sset(lo, hi)
	case OIte:
		l1, h1 := c.srange(t.args[1])
		l2, h2 := c.srange(t.args[2])
		ul1, uh1 := c.urange(t.args[1])
		ul2, uh2 := c.urange(t.args[2])
		t.smin, t.smax = min(l1, l2), max(h1, h2)
		t.umin, t.umax = min(ul1, ul2), max(uh1, uh2)
	case OAdd:
		lo, hi := int64(0), int64(0)
		ok := true
		for _, a := range t.args {
			l, h := c.srange(a)
			nl, nh := lo+l, hi+h
			if (l < 0 && nl > lo) || (l > 0 && nl < lo) || (h < 0 && nh > hi) || (h > 0 && nh < hi) {
				ok = false
				break
			}
			lo, hi = nl, nh
		}
		if ok && lo >= t.smin && hi <= t.smax {
			sset(lo, hi)
		}
	case OMul:
		if t.args[1].isConst() {
			k := t.args[1].sval()
			l, h := c.srange(t.args[0])
			lim := int64(1) << 40
			if k > -(1<<20) && k < 1<<20 && l > -lim && h < lim {
				a, b := l*k, h*k
				if a > b {
					a, b = b, a
				}
				if a >= t.smin && b <= t.smax {
					sset(a, b)
				}
			}
		}
	case OAnd:
		_, h1 := c.urange(t.args[0])
		_, h2 := c.urange(t.args[1])
		uset(0, min(h1, h2))
	case OUDiv:
		if t.args[1].isConst() && t.args[1].val > 0 {
			l, h := c.urange(t.args[0])
			uset(l/t.args[1].val, h/t.args[1].val)
		}
	case OURem:
		if t.args[1].isConst() && t.args[1].val > 0 {
			_, h := c.urange(t.args[0])
			uset(0, min(h, t.args[1].val-1))
		}
	case OLshr:
		_, h := c.urange(t.args[0])
		uset(0, h)
	}
}
func (c *TCtx) urange(t *Term) (uint64, uint64) { c.compute(t); return t.umin, t.umax }
func (c *TCtx) srange(t *Term) (int64, int64)   { c.compute(t); return t.smin, t.smax }

// ---- variables ----

func (c *TCtx) varsOf(t *Term) []int {
	if t.hasVars {
		return t.vars
	}
	t.hasVars = true
	set := map[int]bool{}
	if t.op == OVar {
		set[t.id] = true
	}
	if t.op == OSel {
		id, ok := c.blobs[t.name]
		if !ok {
			id = -1 - len(c.blobs)
			c.blobs[t.name] = id
		}
		set[id] = true
	}
	for _, a := range t.args {
		for _, v := range c.varsOf(a) {
			set[v] = true
		}
	}
	for v := range set {
		t.vars = append(t.vars, v)
	}
	sort.Ints(t.vars)
	return t.vars
}

// ---- evaluation under a model ----

// Model assigns variables; unassigned ones are zero. Blob bytes are by index.
type Model struct {
	v map[string]uint64
	b map[string]map[uint64]byte
}

func NewModel() *Model { return &Model{v: map[string]uint64{}, b: map[string]map[uint64]byte{}} }

func (c *TCtx) Eval(t *Term, m *Model, memo map[*Term]uint64) uint64 {
	if t.op == OConst {
		return t.val
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	a := func(i int) uint64 { return c.Eval(t.args[i], m, memo) }
	aw := func(i int) int { return t.args[i].w }
	s := func(i int) int64 { return sx(a(i), aw(i)) }
	bb := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OVar:
		r = m.v[t.name]
	case OSel:
		r = uint64(m.b[t.name][a(0)])
	case OAdd:
		for i := range t.args {
			r += a(i)
		}
	case OMul:
		r = a(0) * a(1)
	case OUDiv:
		if a(1) == 0 {
			r = ^uint64(0)
		} else {
			r = a(0) / a(1)
		}
	case OURem:
		if a(1) == 0 {
			r = a(0)
		} else {
			r = a(0) % a(1)
		}
	case OSDiv:
		switch {
		case a(1) == 0:
			if s(0) >= 0 {
				r = ^uint64(0)
			} else {
				r = 1
			}
		case s(1) == -1:
			r = -a(0)
		default:
			r = uint64(s(0) / s(1))
		}
	case OSRem:
		switch {
		case a(1) == 0:
			r = a(0)
		case s(1) == -1:
			r = 0
		default:
			r = uint64(s(0) % s(1))
		}
	case OAnd:
		r = a(0) & a(1)
	case OOr:
		r = a(0) | a(1)
	case OXor:
		r = a(0) ^ a(1)
	case OShl:
		if a(1) < uint64(t.w) {
			r = a(0) << a(1)
		}
	case OLshr:
		if a(1) < uint64(t.w) {
			r = a(0) >> a(1)
		}
	case OAshr:
		r = uint64(s(0) >> min(a(1), uint64(t.w-1)))
	case OConcat:
		for i := range t.args {
			r = r<<uint(aw(i)) | a(i)
		}
	case OExtract:
		r = a(0) >> uint(t.lo)
	case OSext:
		r = uint64(s(0))
	case OIte:
		if a(0) == 1 {
			r = a(1)
		} else {
			r = a(2)
		}
	case OEq:
		r = bb(a(0) == a(1))
	case OUlt:
		r = bb(a(0) < a(1))
	case OUle:
		r = bb(a(0) <= a(1))
	case OSlt:
		r = bb(s(0) < s(1))
	case OSle:
		r = bb(s(0) <= s(1))
	case ONot:
		r = 1 - a(0)
	case OBAnd:
		r = 1
		for i := range t.args {
			if a(i) == 0 {
				r = 0
				break
			}
		}
	case OBOr:
		for i := range t.args {
			if a(i) == 1 {
				r = 1
				break
			}
		}
	}
	if t.w > 0 {
		r &= mask(t.w)
	}
	memo[t] = r
	return r
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 6)
	return sb.String()
}
func (t *Term) str(sb *strings.Builder, depth int) {
	switch t.op {
	case OConst:
		if t.w == 0 {
			fmt.Fprintf(sb, "%v", t.val == 1)
		} else {
			fmt.Fprintf(sb, "%d", t.sval())
		}
		return
	case OVar:
		sb.WriteString(t.name)
		return
	}
	if depth == 0 {
		sb.WriteString("…")
		return
	}
	switch t.op {
	case OSel:
		sb.WriteString(t.name + "[")
		t.args[0].str(sb, depth-1)
		sb.WriteString("]")
		return
	case OExtract:
		fmt.Fprintf(sb, "x[%d:%d](", t.hi, t.lo)
	case OSext:
		fmt.Fprintf(sb, "sext%d(", t.w)
	default:
		sb.WriteString("(" + opNames[t.op] + " ")
	}
	for i, a := range t.args {
		if i > 0 {
			sb.WriteByte(' ')
		}
		a.str(sb, depth-1)
	}
	sb.WriteByte(')')
}
