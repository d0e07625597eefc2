package main

// PMap is a persistent map from non-negative ints to values (radix tree, fan-out 16).
type PMap struct {
	root  *pnode
	depth int // levels below root
	n     int
}
type pnode struct {
	kid [16]*pnode
	val [16]interface{}
}

func (m PMap) Get(k int) interface{} {
	if m.root == nil || k < 0 || k>>(4*uint(m.depth+1)) != 0 {
		return nil
	}
	nd := m.root
	for d := m.depth; d > 0; d-- {
		nd = nd.kid[k>>(4*uint(d))&15]
		if nd == nil {
			return nil
		}
	}
	return nd.val[k&15]
}

func (m PMap) Set(k int, v interface{}) PMap {
	if m.root == nil {
		m.root = &pnode{}
	}
	for k>>(4*uint(m.depth+1)) != 0 {
		r := &pnode{}
		r.kid[0] = m.root
		m.root = r
		m.depth++
	}
	var added int
	m.root = pset(m.root, m.depth, k, v, &added)
	m.n += added
	return m
}

func pset(nd *pnode, d, k int, v interface{}, added *int) *pnode {
	c := &pnode{}
	if nd != nil {
		*c = *nd
	}
	if d == 0 {
		i := k & 15
		if c.val[i] == nil && v != nil {
			*added = 1
		} else if c.val[i] != nil && v == nil {
			*added = -1
		}
		c.val[i] = v
		return c
	}
	i := k >> (4 * uint(d)) & 15
	c.kid[i] = pset(c.kid[i], d-1, k, v, added)
	return c
}

// Each visits entries in key order; stops when f returns false.
func (m PMap) Each(f func(k int, v interface{}) bool) {
	if m.root != nil {
		peach(m.root, m.depth, 0, f)
	}
}

func peach(nd *pnode, d, base int, f func(int, interface{}) bool) bool {
	for i := 0; i < 16; i++ {
		if d == 0 {
			if nd.val[i] != nil && !f(base|i, nd.val[i]) {
				return false
			}
		} else if nd.kid[i] != nil {
			if !peach(nd.kid[i], d-1, base|i<<(4*uint(d)), f) {
				return false
			}
		}
	}
	return true
}

// Range visits entries with lo <= k < hi.
func (m PMap) Range(lo, hi int, f func(k int, v interface{}) bool) {
	if m.root != nil {
		prange(m.root, m.depth, 0, lo, hi, f)
	}
}

func prange(nd *pnode, d, base, lo, hi int, f func(int, interface{}) bool) bool {
	for i := 0; i < 16; i++ {
		b := base | i<<(4*uint(d))
		e := b + 1<<(4*uint(d))
		if e <= lo || b >= hi {
			continue
		}
		if d == 0 {
			if nd.val[i] != nil && !f(b, nd.val[i]) {
				return false
			}
		} else if nd.kid[i] != nil {
			if !prange(nd.kid[i], d-1, b, lo, hi, f) {
				return false
			}
		}
	}
	return true
}
