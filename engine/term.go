package main

// Terms: hash-consed bit-vector/boolean/float expressions with an aggressive
// local simplifier. One TermCtx per worker (no locking).

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	ONot
	OShl
	OLShr
	OAShr
	OConcat // n-ary, high to low
	OExtract
	OSExt
	OIte
	OTable // args[0] = index; tab
	// bool ops (W == 0)
	OEq
	OUlt
	OSlt
	OBNot
	OBAnd // n-ary
	OBOr  // n-ary
	// floats (bits)
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OI2F // signed int (any width) -> float64 bits
	OU2F // unsigned
	OF2I // float bits -> int64 (truncation)
	OF2U // float bits -> uint64
	OF64to32
	OF32to64
)

var opNames = map[Op]string{OAdd: "bvadd", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr"}

type Table struct {
	id   int
	w    int // element width
	data []uint64
	aff  int8 // 0 unknown 1 affine -1 not
}

type Term struct {
	op   Op
	w    uint8 // 0 = bool
	id   int32
	val  uint64 // const value, var index, extract lo
	args []*Term
	tab  *Table
	hash uint64
	vars []int32 // sorted var ids; nil for const
	vok  bool
	dom  *[4]uint64 // for bool terms over exactly one var of width<=8: satisfying set
	// evaluation memo
	ev    uint64
	epoch uint32
	maxu  uint64
	maxok bool
}

type VarInfo struct {
	name string
	w    uint8
}

type TermCtx struct {
	tab     []*Term // open addressing
	n       int
	small   [65][]*Term
	vars    []VarInfo
	varTerm []*Term
	varByNm map[string]*Term
	tables  map[string]*Table
	T, F    *Term
	epoch   uint32
	nextID  int32
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: make([]*Term, 1<<16), varByNm: map[string]*Term{}, tables: map[string]*Table{}}
	c.F = c.mk(Term{op: OConst, w: 0, val: 0})
	c.T = c.mk(Term{op: OConst, w: 0, val: 1})
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func mix(h, x uint64) uint64 {
	h ^= x
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	return h
}

func (c *TermCtx) mk(t Term) *Term {
	h := mix(uint64(t.op)<<8|uint64(t.w), t.val)
	for _, a := range t.args {
		h = mix(h, uint64(a.id)+1)
	}
	if t.tab != nil {
		h = mix(h, uint64(t.tab.id)+77)
	}
	h = mix(h, 0x1234567)
	m := uint64(len(c.tab) - 1)
	i := h & m
	for {
		e := c.tab[i]
		if e == nil {
			break
		}
		if e.hash == h && e.op == t.op && e.w == t.w && e.val == t.val && e.tab == t.tab && len(e.args) == len(t.args) {
			same := true
			for k, a := range t.args {
				if e.args[k] != a {
					same = false
					break
				}
			}
			if same {
				return e
			}
		}
		i = (i + 1) & m
	}
	nt := new(Term)
	*nt = t
	nt.hash = h
	nt.id = c.nextID
	c.nextID++
	c.tab[i] = nt
	c.n++
	if c.n*2 > len(c.tab) {
		old := c.tab
		c.tab = make([]*Term, len(old)*2)
		m = uint64(len(c.tab) - 1)
		for _, e := range old {
			if e != nil {
				j := e.hash & m
				for c.tab[j] != nil {
					j = (j + 1) & m
				}
				c.tab[j] = e
			}
		}
	}
	return nt
}

func (c *TermCtx) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return c.T
		}
		return c.F
	}
	v &= mask(w)
	if v < 1024 {
		s := c.small[w]
		if s == nil {
			s = make([]*Term, 1024)
			c.small[w] = s
		}
		if t := s[v]; t != nil {
			return t
		}
		t := c.mk(Term{op: OConst, w: w, val: v})
		s[v] = t
		return t
	}
	return c.mk(Term{op: OConst, w: w, val: v})
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (c *TermCtx) Var(name string, w uint8) *Term {
	if t, ok := c.varByNm[name]; ok {
		if t.w != w {
			panic("var width mismatch " + name)
		}
		return t
	}
	id := len(c.vars)
	c.vars = append(c.vars, VarInfo{name, w})
	t := c.mk(Term{op: OVar, w: w, val: uint64(id)})
	c.varTerm = append(c.varTerm, t)
	c.varByNm[name] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

// umax: sound upper bound of the unsigned value.
func (t *Term) umax() uint64 {
	if t.maxok {
		return t.maxu
	}
	var m uint64
	switch t.op {
	case OConst:
		m = t.val
	case OConcat:
		for _, a := range t.args {
			m = m<<a.w | a.umax()
		}
		// note: only high part bounds precisely when lower parts are at their max
	case OIte:
		m = max(t.args[1].umax(), t.args[2].umax())
	case OTable:
		for _, v := range t.tab.data {
			m = max(m, v)
		}
	case OAnd:
		m = min(t.args[0].umax(), t.args[1].umax())
	case OExtract:
		m = mask(t.w)
		if t.val == 0 {
			m = min(m, t.args[0].umax())
		}
	case OAdd:
		m = mask(t.w)
		var s uint64
		ok := true
		for _, a := range t.args {
			x := a.umax()
			if x > mask(t.w)-s {
				ok = false
				break
			}
			s += x
		}
		if ok {
			m = s
		}
	case OMul:
		m = mask(t.w)
		hi, lo := bits.Mul64(t.args[0].umax(), t.args[1].umax())
		if hi == 0 && lo <= mask(t.w) {
			m = lo
		}
	case OURem:
		m = t.args[0].umax()
		if b := t.args[1]; b.isConst() && b.val > 0 {
			m = min(m, b.val-1)
		}
	case OUDiv:
		m = mask(t.w)
		if b := t.args[1]; b.isConst() && b.val > 0 {
			m = t.args[0].umax() / b.val
		}
	case OOr, OXor:
		x := t.args[0].umax() | t.args[1].umax()
		m = mask(uint8(bits.Len64(x)))
	default:
		m = mask(t.w)
	}
	t.maxu = m
	t.maxok = true
	return m
}

// ---- constructors

func (c *TermCtx) Not(a *Term) *Term { // bool not
	if a.isConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return c.mk(Term{op: OBNot, args: []*Term{a}})
}

func (c *TermCtx) And(as ...*Term) *Term { return c.nary(OBAnd, as) }
func (c *TermCtx) Or(as ...*Term) *Term  { return c.nary(OBOr, as) }

func (c *TermCtx) nary(op Op, as []*Term) *Term {
	unit, zero := c.T, c.F
	if op == OBOr {
		unit, zero = c.F, c.T
	}
	if len(as) == 2 { // fast paths
		a, b := as[0], as[1]
		if a == unit {
			return b
		}
		if b == unit {
			return a
		}
		if a == zero || b == zero {
			return zero
		}
		if a == b {
			return a
		}
	}
	var l []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		l = append(l, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	if len(l) == 0 {
		return unit
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	o := l[:1]
	for _, t := range l[1:] {
		if t != o[len(o)-1] {
			o = append(o, t)
		}
	}
	l = o
	if len(l) == 1 {
		return l[0]
	}
	if len(l) <= 64 {
		set := map[*Term]bool{}
		for _, t := range l {
			set[t] = true
		}
		for _, t := range l {
			if t.op == OBNot && set[t.args[0]] {
				return zero
			}
		}
	}
	return c.mk(Term{op: op, args: append([]*Term(nil), l...)})
}

func (c *TermCtx) Ite(g, a, b *Term) *Term {
	if g.isTrue() {
		return a
	}
	if g.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if g.op == OBNot {
		return c.Ite(g.args[0], b, a)
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return g
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(g)
		}
		if a.isTrue() {
			return c.Or(g, b)
		}
		if a.isFalse() {
			return c.And(c.Not(g), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.isFalse() {
			return c.And(g, a)
		}
	}
	if a.op == OIte && a.args[0] == g {
		return c.Ite(g, a.args[1], b)
	}
	if b.op == OIte && b.args[0] == g {
		return c.Ite(g, a, b.args[2])
	}
	// concat-aligned common parts
	if a.w > 0 && (a.op == OConcat || b.op == OConcat) && a.w > 1 {
		cuts := c.cuts(a, b)
		if len(cuts) > 2 {
			same := false
			var parts []*Term
			for i := len(cuts) - 1; i > 0; i-- {
				x := c.Extract(a, cuts[i]-1, cuts[i-1])
				y := c.Extract(b, cuts[i]-1, cuts[i-1])
				if x == y {
					same = true
				}
				parts = append(parts, c.Ite(g, x, y))
			}
			if same {
				return c.Concat(parts...)
			}
		}
	}
	return c.mk(Term{op: OIte, w: a.w, args: []*Term{g, a, b}})
}

// cuts: sorted bit boundaries (0..w) of both terms' concat structure.
func (c *TermCtx) cuts(a, b *Term) []uint8 {
	var m [65]bool
	mark := func(t *Term) {
		if t.op == OConcat {
			p := t.w
			for _, x := range t.args {
				p -= x.w
				m[p] = true
			}
		}
	}
	mark(a)
	mark(b)
	m[0] = true
	m[a.w] = true
	var r []uint8
	for i := 0; i <= int(a.w); i++ {
		if m[i] {
			r = append(r, uint8(i))
		}
	}
	return r
}

func (c *TermCtx) Concat(as ...*Term) *Term {
	l := make([]*Term, 0, len(as))
	push := func(t *Term) {
		for len(l) > 0 {
			p := l[len(l)-1]
			if p.isConst() && t.isConst() {
				t = c.Const(p.w+t.w, p.val<<t.w|t.val)
				l = l[:len(l)-1]
				continue
			}
			// adjacent extracts of the same base
			pb, plo := p, uint8(0)
			if p.op == OExtract {
				pb, plo = p.args[0], uint8(p.val)
			}
			tb, tlo := t, uint8(0)
			if t.op == OExtract {
				tb, tlo = t.args[0], uint8(t.val)
			}
			if pb == tb && !pb.isConst() && plo == tlo+t.w && (p.op == OExtract || t.op == OExtract) {
				t = c.Extract(pb, plo+p.w-1, tlo)
				l = l[:len(l)-1]
				continue
			}
			break
		}
		l = append(l, t)
	}
	for _, a := range as {
		if a.w == 0 {
			continue // zero-width marker (nil part)
		}
		if a.op == OConcat {
			for _, x := range a.args {
				push(x)
			}
		} else {
			push(a)
		}
	}
	if len(l) == 1 {
		return l[0]
	}
	var w uint8
	for _, x := range l {
		w += x.w
	}
	if w > 64 {
		panic("concat too wide")
	}
	// a merged extract may itself have become a concat
	for _, x := range l {
		if x.op == OConcat {
			return c.Concat(l...)
		}
	}
	return c.mk(Term{op: OConcat, w: w, args: l})
}

func (c *TermCtx) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return c.Const(w, a.val>>lo)
	case OExtract:
		return c.Extract(a.args[0], hi+uint8(a.val), lo+uint8(a.val))
	case OConcat:
		var parts []*Term
		p := a.w
		for _, x := range a.args {
			p -= x.w
			// x occupies [p, p+x.w)
			xh, xl := p+x.w-1, p
			if xl > hi || xh < lo {
				continue
			}
			h, l := min(xh, hi), max(xl, lo)
			parts = append(parts, c.Extract(x, h-p, l-p))
		}
		return c.Concat(parts...)
	case OIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return c.Ite(a.args[0], c.Extract(a.args[1], hi, lo), c.Extract(a.args[2], hi, lo))
		}
	case OSExt:
		x := a.args[0]
		if hi < x.w {
			return c.Extract(x, hi, lo)
		}
		if lo < x.w {
			// part of sign bits
			return c.SExt(c.Extract(x, x.w-1, lo), w)
		}
		// pure sign bits
		return c.SExt(c.Extract(x, x.w-1, x.w-1), w)
	case OAnd, OOr, OXor:
		return c.bitop(a.op, c.Extract(a.args[0], hi, lo), c.Extract(a.args[1], hi, lo))
	case ONot:
		return c.BVNot(c.Extract(a.args[0], hi, lo))
	case OAdd:
		if lo == 0 && !wideMul(a) {
			parts := make([]*Term, len(a.args))
			for i, x := range a.args {
				parts[i] = c.Extract(x, hi, 0)
			}
			return c.Add(parts...)
		}
	case OMul:
		if lo == 0 && !wideMul(a) {
			return c.Mul(c.Extract(a.args[0], hi, 0), c.Extract(a.args[1], hi, 0))
		}
	case OTable:
		nd := make([]uint64, len(a.tab.data))
		for i, v := range a.tab.data {
			nd[i] = (v >> lo) & mask(w)
		}
		return c.TableSel(nd, int(w), a.args[0])
	}
	if lo > 0 && a.umax()>>lo == 0 {
		return c.Const(w, 0)
	}
	return c.mk(Term{op: OExtract, w: w, val: uint64(lo), args: []*Term{a}})
}

// wideMul: sums and products with wide multiplications are not narrowed, so that the pieces of one value stay
// pieces of the same term.
func wideMul(a *Term) bool {
	if a.w < 32 {
		return false
	}
	switch a.op {
	case OMul:
		return true
	case OAdd:
		for _, x := range a.args {
			if x.op == OMul {
				return true
			}
		}
	}
	return false
}

func (c *TermCtx) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w == 0 { // bool to bv
		return c.Ite(a, c.Const(w, 1), c.Const(w, 0))
	}
	if a.op == OExtract && a.val == 0 && a.args[0].umax() <= mask(a.w) {
		x := a.args[0]
		if w <= x.w {
			return c.Extract(x, w-1, 0)
		}
		return c.ZExt(x, w)
	}
	return c.Concat(c.Const(w-a.w, 0), a)
}

func (c *TermCtx) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, uint64(sx(a.val, a.w)))
	}
	if a.umax()>>(a.w-1) == 0 {
		return c.ZExt(a, w)
	}
	if a.op == OSExt {
		return c.SExt(a.args[0], w)
	}
	if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
		return c.Ite(a.args[0], c.SExt(a.args[1], w), c.SExt(a.args[2], w))
	}
	return c.mk(Term{op: OSExt, w: w, args: []*Term{a}})
}

func (c *TermCtx) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return c.Extract(a, w-1, 0)
	}
	if signed {
		return c.SExt(a, w)
	}
	return c.ZExt(a, w)
}

func (c *TermCtx) BVNot(a *Term) *Term {
	if a.isConst() {
		return c.Const(a.w, ^a.val)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.mk(Term{op: ONot, w: a.w, args: []*Term{a}})
}

func (c *TermCtx) bitop(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		switch op {
		case OAnd:
			return c.Const(a.w, a.val&b.val)
		case OOr:
			return c.Const(a.w, a.val|b.val)
		default:
			return c.Const(a.w, a.val^b.val)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	m := mask(a.w)
	if b.isConst() {
		switch op {
		case OAnd:
			if b.val == 0 {
				return b
			}
			if b.val == m || b.val&(b.val+1) == 0 && a.umax() <= b.val {
				return a
			}
		case OOr:
			if b.val == 0 {
				return a
			}
			if b.val == m {
				return b
			}
		case OXor:
			if b.val == 0 {
				return a
			}
			if b.val == m {
				return c.BVNot(a)
			}
		}
	}
	if a == b {
		if op == OXor {
			return c.Const(a.w, 0)
		}
		return a
	}
	if op == OXor && (!b.isConst() || a.w == 1) {
		if a.w == 1 {
			return c.xorBits(a, b)
		}
		parts := make([]*Term, 0, a.w)
		for i := int(a.w) - 1; i >= 0; i-- {
			parts = append(parts, c.xorBits(c.Extract(a, uint8(i), uint8(i)), c.Extract(b, uint8(i), uint8(i))))
		}
		return c.Concat(parts...)
	}
	// split along constant runs / concat structure
	if b.isConst() && (op == OAnd || op == OOr) || a.op == OConcat || b.op == OConcat {
		var mk [65]bool
		for _, k := range c.cuts(a, b) {
			mk[k] = true
		}
		if b.isConst() {
			runs := 0
			for i := uint8(1); i < a.w; i++ {
				if (b.val>>i)&1 != (b.val>>(i-1))&1 {
					runs++
				}
			}
			if runs <= 12 && op != OXor {
				for i := uint8(1); i < a.w; i++ {
					if (b.val>>i)&1 != (b.val>>(i-1))&1 {
						mk[i] = true
					}
				}
			}
		}
		var cuts []uint8
		for i := 0; i <= int(a.w); i++ {
			if mk[i] {
				cuts = append(cuts, uint8(i))
			}
		}
		if len(cuts) > 2 {
			parts := make([]*Term, 0, len(cuts))
			resolved := false
			for i := len(cuts) - 1; i > 0; i-- {
				x := c.Extract(a, cuts[i]-1, cuts[i-1])
				y := c.Extract(b, cuts[i]-1, cuts[i-1])
				p := c.bitop(op, x, y)
				if p.op != op {
					resolved = true
				}
				parts = append(parts, p)
			}
			if resolved {
				return c.Concat(parts...)
			}
		}
	}
	if op == OXor && b.isConst() && a.op == OXor && a.w > 1 && a.args[1].isConst() {
		return c.bitop(OXor, a.args[0], c.Const(a.w, a.args[1].val^b.val))
	}
	// ite pull for constants
	if b.isConst() && a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
		return c.Ite(a.args[0], c.bitop(op, a.args[1], b), c.bitop(op, a.args[2], b))
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: op, w: a.w, args: []*Term{a, b}})
}

// xorBits: canonical n-ary exclusive or of single bits.
func (c *TermCtx) xorBits(as ...*Term) *Term {
	var l []*Term
	k := uint64(0)
	for _, t := range as {
		if t.op == ONot {
			k ^= 1
			t = t.args[0]
		}
		switch {
		case t.isConst():
			k ^= t.val
		case t.op == OXor:
			l = append(l, t.args...)
		default:
			l = append(l, t)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	o := l[:0:0]
	for i := 0; i < len(l); {
		if i+1 < len(l) && l[i] == l[i+1] {
			i += 2
			continue
		}
		o = append(o, l[i])
		i++
	}
	var r *Term
	switch len(o) {
	case 0:
		return c.Const(1, k)
	case 1:
		r = o[0]
	default:
		r = c.mk(Term{op: OXor, w: 1, args: o})
	}
	if k == 1 {
		return c.BVNot(r)
	}
	return r
}

func (c *TermCtx) disjoint(a, b *Term) bool {
	if a.isConst() && a.val == 0 || b.isConst() && b.val == 0 {
		return true
	}
	if a.op != OConcat && b.op != OConcat {
		// both could be const: check bits
		if a.isConst() && b.isConst() {
			return a.val&b.val == 0
		}
		x, y := a, b
		if y.isConst() {
			x, y = y, x
		}
		if x.isConst() {
			// y non-concat: bits above umax are zero
			return x.val&mask(uint8(bits.Len64(y.umax()))) == 0
		}
		return false
	}
	cuts := c.cuts(a, b)
	for i := len(cuts) - 1; i > 0; i-- {
		x := c.Extract(a, cuts[i]-1, cuts[i-1])
		y := c.Extract(b, cuts[i]-1, cuts[i-1])
		if x.isConst() && x.val == 0 || y.isConst() && y.val == 0 {
			continue
		}
		if x.isConst() && y.isConst() && x.val&y.val == 0 {
			continue
		}
		return false
	}
	return true
}

func (c *TermCtx) Neg(a *Term) *Term {
	if a.w > 1 && a.umax() <= 1 && !a.isConst() {
		return c.SExt(c.Extract(a, 0, 0), a.w)
	}
	return c.Mul(a, c.Const(a.w, ^uint64(0)))
}
func (c *TermCtx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Const(a.w, 0)
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		return c.Add(a, c.Const(a.w, -b.val))
	}
	return c.Add(a, c.Neg(b))
}

func (c *TermCtx) Add(as ...*Term) *Term {
	w := as[0].w
	if len(as) == 2 {
		a, b := as[0], as[1]
		if a.isConst() && b.isConst() {
			return c.Const(w, a.val+b.val)
		}
		if a.isConst() && a.val == 0 {
			return b
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if (a.op == OConcat || b.op == OConcat) && c.disjoint(a, b) {
			return c.bitop(OOr, a, b)
		}
	}
	// linear normal form
	var ts []*Term
	var cs []uint64
	var k uint64
	var addT func(t *Term, co uint64)
	addT = func(t *Term, co uint64) {
		switch {
		case t.isConst():
			k += t.val * co
			return
		case t.op == OAdd:
			for _, x := range t.args {
				addT(x, co)
			}
			return
		case t.op == OMul && t.args[1].isConst():
			addT(t.args[0], co*t.args[1].val)
			return
		}
		for i, x := range ts {
			if x == t {
				cs[i] += co
				return
			}
		}
		ts = append(ts, t)
		cs = append(cs, co)
	}
	for _, a := range as {
		addT(a, 1)
	}
	m := mask(w)
	type tc struct {
		t *Term
		c uint64
	}
	var l []tc
	for i, t := range ts {
		if cs[i]&m != 0 {
			l = append(l, tc{t, cs[i] & m})
		}
	}
	k &= m
	if len(l) == 0 {
		return c.Const(w, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].t.id < l[j].t.id })
	if len(l) == 1 && l[0].c == 1 && k == 0 {
		return l[0].t
	}
	if len(l) == 1 && l[0].c == 1 {
		// constant add on ite of constants
		t := l[0].t
		if t.op == OIte && t.args[1].isConst() && t.args[2].isConst() {
			return c.Ite(t.args[0], c.Const(w, t.args[1].val+k), c.Const(w, t.args[2].val+k))
		}
	}
	args := make([]*Term, 0, len(l)+1)
	for _, x := range l {
		if x.c == 1 {
			args = append(args, x.t)
		} else {
			args = append(args, c.mk(Term{op: OMul, w: w, args: []*Term{x.t, c.Const(w, x.c)}}))
		}
	}
	if k != 0 {
		args = append(args, c.Const(w, k))
	}
	if len(args) == 1 {
		return args[0]
	}
	return c.mk(Term{op: OAdd, w: w, args: args})
}

func (c *TermCtx) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Const(a.w, a.val*b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch {
		case b.val == 0:
			return b
		case b.val == 1:
			return a
		case b.val&(b.val-1) == 0:
			return c.Shl(a, c.Const(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
		if a.op == OMul && a.args[1].isConst() {
			return c.Mul(a.args[0], c.Const(a.w, a.args[1].val*b.val))
		}
		if a.op == OAdd {
			parts := make([]*Term, len(a.args))
			for i, x := range a.args {
				parts[i] = c.Mul(x, b)
			}
			return c.Add(parts...)
		}
		if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
			return c.Ite(a.args[0], c.Mul(a.args[1], b), c.Mul(a.args[2], b))
		}
		return c.mk(Term{op: OMul, w: a.w, args: []*Term{a, b}})
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: OMul, w: a.w, args: []*Term{a, b}})
}

// splitMul writes the sum a, which must not overflow, as k*q + r.
func (c *TermCtx) splitMul(a *Term, k uint64) (q, r *Term) {
	q, r = c.Const(a.w, 0), c.Const(a.w, 0)
	var sum uint64
	for _, x := range a.args {
		m := x.umax()
		if m > mask(a.w)-sum {
			return nil, nil
		}
		sum += m
		if x.op == OMul && x.args[1].isConst() && x.args[1].val%k == 0 {
			hi, lo := bits.Mul64(x.args[0].umax(), x.args[1].val)
			if hi != 0 || lo > mask(a.w) {
				return nil, nil
			}
			q = c.Add(q, c.Mul(x.args[0], c.Const(a.w, x.args[1].val/k)))
		} else if x.isConst() {
			q = c.Add(q, c.Const(a.w, x.val/k))
			r = c.Add(r, c.Const(a.w, x.val%k))
		} else {
			r = c.Add(r, x)
		}
	}
	return q, r
}

func (c *TermCtx) divop(op Op, a, b *Term) *Term { // b != 0 checked by caller
	if a.isConst() && b.isConst() && b.val != 0 {
		return c.Const(a.w, evalDiv(op, a.val, b.val, a.w))
	}
	if b.isConst() && b.val == 1 {
		if op == OUDiv || op == OSDiv {
			return a
		}
		return c.Const(a.w, 0)
	}
	top := uint64(1) << (a.w - 1)
	if (op == OSDiv || op == OSRem) && a.umax() < top && b.umax() < top {
		if op == OSDiv {
			return c.divop(OUDiv, a, b)
		}
		return c.divop(OURem, a, b)
	}
	if b.isConst() && b.val != 0 {
		if op == OUDiv {
			if a.umax() < b.val {
				return c.Const(a.w, 0)
			}
			if b.val&(b.val-1) == 0 {
				return c.LShr(a, c.Const(a.w, uint64(bits.TrailingZeros64(b.val))))
			}
			// (x*k)/k with no overflow
			if a.op == OMul && a.args[1] == b {
				hi, lo := bits.Mul64(a.args[0].umax(), b.val)
				if hi == 0 && lo <= mask(a.w) {
					return a.args[0]
				}
			}
		}
		if a.op == OAdd && (op == OUDiv || op == OURem) {
			if q, r := c.splitMul(a, b.val); q != nil && r.umax() < b.val {
				if op == OUDiv {
					return q
				}
				return r
			}
		}
		if op == OURem {
			if a.umax() < b.val {
				return a
			}
			if b.val&(b.val-1) == 0 {
				return c.bitop(OAnd, a, c.Const(a.w, b.val-1))
			}
		}
	}
	return c.mk(Term{op: op, w: a.w, args: []*Term{a, b}})
}

func evalDiv(op Op, x, y uint64, w uint8) uint64 {
	if y == 0 { // SMT-LIB semantics
		switch op {
		case OUDiv:
			return mask(w)
		case OURem, OSRem:
			return x
		case OSDiv:
			if sx(x, w) < 0 {
				return 1
			}
			return mask(w)
		}
	}
	switch op {
	case OUDiv:
		return (x / y) & mask(w)
	case OURem:
		return (x % y) & mask(w)
	case OSDiv:
		sy := sx(y, w)
		if sy == -1 {
			return (-x) & mask(w)
		}
		return uint64(sx(x, w)/sy) & mask(w)
	default:
		sy := sx(y, w)
		if sy == -1 {
			return 0
		}
		return uint64(sx(x, w)%sy) & mask(w)
	}
}

func (c *TermCtx) Shl(a, b *Term) *Term {
	if b.isConst() {
		n := b.val
		if n == 0 {
			return a
		}
		if n >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		return c.Concat(c.Extract(a, a.w-1-uint8(n), 0), c.Const(uint8(n), 0))
	}
	if a.isConst() && a.val == 0 {
		return a
	}
	return c.mk(Term{op: OShl, w: a.w, args: []*Term{a, b}})
}

func (c *TermCtx) LShr(a, b *Term) *Term {
	if b.isConst() {
		n := b.val
		if n == 0 {
			return a
		}
		if n >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		return c.Concat(c.Const(uint8(n), 0), c.Extract(a, a.w-1, uint8(n)))
	}
	if a.isConst() && a.val == 0 {
		return a
	}
	return c.mk(Term{op: OLShr, w: a.w, args: []*Term{a, b}})
}

func (c *TermCtx) AShr(a, b *Term) *Term {
	if a.umax()>>(a.w-1) == 0 {
		return c.LShr(a, b)
	}
	if b.isConst() {
		n := b.val
		if n == 0 {
			return a
		}
		if n >= uint64(a.w) {
			n = uint64(a.w) - 1
		}
		return c.SExt(c.Extract(a, a.w-1, uint8(n)), a.w)
	}
	return c.mk(Term{op: OAShr, w: a.w, args: []*Term{a, b}})
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.F
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(Term{op: OEq, args: []*Term{a, b}})
	}
	if b.isConst() {
		if b.val > a.umax() {
			return c.F
		}
		switch a.op {
		case OIte:
			x, y := a.args[1], a.args[2]
			if x.isConst() || y.isConst() {
				return c.Ite(a.args[0], c.Eq(x, b), c.Eq(y, b))
			}
		case OAdd:
			if k := a.args[len(a.args)-1]; k.isConst() {
				return c.Eq(c.Add(a.args[:len(a.args)-1]...), c.Const(a.w, b.val-k.val))
			}
		case OXor:
			if a.w > 1 && a.args[1].isConst() {
				return c.Eq(a.args[0], c.Const(a.w, b.val^a.args[1].val))
			}
		case ONot:
			return c.Eq(a.args[0], c.Const(a.w, ^b.val))
		case OSExt:
			x := a.args[0]
			if uint64(sx(b.val&mask(x.w), x.w))&mask(a.w) == b.val {
				return c.Eq(x, c.Const(x.w, b.val))
			}
			return c.F
		case OMul:
			if a.args[1].isConst() && a.args[1].val&1 == 1 {
				// multiply by inverse
				inv := a.args[1].val
				for i := 0; i < 6; i++ {
					inv *= 2 - a.args[1].val*inv
				}
				return c.Eq(a.args[0], c.Const(a.w, b.val*inv))
			}
		}
	}
	if a.op == OConcat || b.op == OConcat {
		cuts := c.cuts(a, b)
		if len(cuts) > 2 {
			parts := make([]*Term, 0, len(cuts))
			for i := len(cuts) - 1; i > 0; i-- {
				e := c.Eq(c.Extract(a, cuts[i]-1, cuts[i-1]), c.Extract(b, cuts[i]-1, cuts[i-1]))
				if e.isFalse() {
					return e
				}
				parts = append(parts, e)
			}
			return c.And(parts...)
		}
	}
	if a.op == OSExt && b.op == OSExt && a.args[0].w == b.args[0].w {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.op == OAdd && b.op == OAdd || a.op == OAdd || b.op == OAdd {
		d := c.Sub(a, b)
		if d.isConst() {
			return c.Bool(d.val == 0)
		}
	}
	if a.op == OIte && a.args[1] == b {
		return c.Or(a.args[0], c.Eq(a.args[2], b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a.isConst() {
		a, b = b, a
	}
	return c.mk(Term{op: OEq, args: []*Term{a, b}})
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val < b.val)
	}
	if b.isConst() {
		if b.val == 0 {
			return c.F
		}
		if a.umax() < b.val {
			return c.T
		}
		if b.val == 1 {
			return c.Eq(a, c.Const(a.w, 0))
		}
		if b.val == mask(a.w) {
			return c.Not(c.Eq(a, b))
		}
	}
	if a.isConst() {
		if a.val >= b.umax() {
			return c.F
		}
		if a.val == 0 {
			return c.Not(c.Eq(b, a))
		}
	}
	// strip common zero high bits
	za, zb := c.hiZeros(a), c.hiZeros(b)
	z := min(za, zb)
	if z > 0 && z < a.w {
		return c.Ult(c.Extract(a, a.w-1-z, 0), c.Extract(b, b.w-1-z, 0))
	}
	if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() && b.isConst() {
		return c.Ite(a.args[0], c.Ult(a.args[1], b), c.Ult(a.args[2], b))
	}
	if b.op == OIte && b.args[1].isConst() && b.args[2].isConst() && a.isConst() {
		return c.Ite(b.args[0], c.Ult(a, b.args[1]), c.Ult(a, b.args[2]))
	}
	return c.mk(Term{op: OUlt, args: []*Term{a, b}})
}

func (c *TermCtx) hiZeros(a *Term) uint8 {
	return a.w - uint8(bits.Len64(a.umax()))
}

func (c *TermCtx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sx(a.val, a.w) < sx(b.val, b.w))
	}
	top := uint64(1) << (a.w - 1)
	am, bm := a.umax(), b.umax()
	if am < top && bm < top {
		return c.Ult(a, b)
	}
	// one side known nonneg, other a negative constant
	if am < top && b.isConst() && b.val >= top {
		return c.F
	}
	if bm < top && a.isConst() && a.val >= top {
		return c.T
	}
	if b.isConst() && b.val == 0 { // sign bit test
		return c.Eq(c.Extract(a, a.w-1, a.w-1), c.Const(1, 1))
	}
	if a.isConst() && a.val == mask(a.w) { // -1 < b
		return c.Eq(c.Extract(b, a.w-1, a.w-1), c.Const(1, 0))
	}
	if a.op == OSExt && b.op == OSExt && a.args[0].w == b.args[0].w {
		return c.Slt(a.args[0], b.args[0])
	}
	if a.op == OSExt && b.isConst() {
		x := a.args[0]
		sv := sx(b.val, b.w)
		lo, hi := -(int64(1) << (x.w - 1)), (int64(1)<<(x.w-1))-1
		if sv > hi {
			return c.T
		}
		if sv <= lo {
			return c.F
		}
		return c.Slt(x, c.Const(x.w, uint64(sv)))
	}
	if b.op == OSExt && a.isConst() {
		x := b.args[0]
		sv := sx(a.val, a.w)
		lo, hi := -(int64(1) << (x.w - 1)), (int64(1)<<(x.w-1))-1
		if sv >= hi {
			return c.F
		}
		if sv < lo {
			return c.T
		}
		return c.Slt(c.Const(x.w, uint64(sv)), x)
	}
	if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() && b.isConst() {
		return c.Ite(a.args[0], c.Slt(a.args[1], b), c.Slt(a.args[2], b))
	}
	return c.mk(Term{op: OSlt, args: []*Term{a, b}})
}
func (c *TermCtx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// TableSel: constant table indexed by idx. Out of range never happens (bounds checked).
func (c *TermCtx) TableSel(data []uint64, w int, idx *Term) *Term {
	if idx.isConst() {
		return c.Const(uint8(w), data[idx.val])
	}
	same := true
	for _, v := range data {
		if v != data[0] {
			same = false
			break
		}
	}
	if same {
		return c.Const(uint8(w), data[0])
	}
	// narrow index
	iw := uint8(bits.Len64(uint64(len(data) - 1)))
	if idx.w > iw && idx.umax() <= mask(iw) {
		idx = c.Extract(idx, iw-1, 0)
	}
	// identity table
	if w == 0 || int(idx.w) <= w {
		id := true
		for i, v := range data {
			if v != uint64(i) {
				id = false
				break
			}
		}
		if id && idx.w <= uint8(w) {
			return c.ZExt(idx, uint8(w))
		}
	}
	key := make([]byte, 0, len(data)*8+1)
	key = append(key, byte(w))
	for _, v := range data {
		for k := 0; k < (w+7)/8; k++ {
			key = append(key, byte(v>>(8*k)))
		}
		if w == 0 {
			key = append(key, byte(v))
		}
	}
	tb := c.tables[string(key)]
	if tb == nil {
		tb = &Table{id: len(c.tables), w: w, data: append([]uint64(nil), data...)}
		c.tables[string(key)] = tb
	}
	// GF(2)-affine tables: rewrite as xor of index bits
	if w >= 8 && len(data) == 1<<iw && idx.w == iw && iw >= 4 {
		if tb.aff == 0 {
			tb.aff = 1
			for i := range data {
				v := data[0]
				for k := uint8(0); k < iw; k++ {
					if i>>k&1 == 1 {
						v ^= data[1<<k] ^ data[0]
					}
				}
				if v != data[i] {
					tb.aff = -1
					break
				}
			}
		}
		if tb.aff == 1 {
			parts := make([]*Term, 0, w)
			for o := w - 1; o >= 0; o-- {
				bs := []*Term{c.Const(1, data[0]>>o)}
				for k := uint8(0); k < iw; k++ {
					if (data[1<<k]^data[0])>>o&1 == 1 {
						bs = append(bs, c.Extract(idx, k, k))
					}
				}
				parts = append(parts, c.xorBits(bs...))
			}
			r := c.Concat(parts...)
			return r
		}
	}
	return c.mk(Term{op: OTable, w: uint8(w), tab: tb, args: []*Term{idx}})
}

// Mux selects among arbitrary terms by idx (in range).
func (c *TermCtx) Mux(vals []*Term, idx *Term) *Term {
	if idx.isConst() {
		return vals[idx.val]
	}
	allc := true
	for _, v := range vals {
		if !v.isConst() {
			allc = false
			break
		}
	}
	if allc {
		d := make([]uint64, len(vals))
		for i, v := range vals {
			d[i] = v.val
		}
		return c.TableSel(d, int(vals[0].w), idx)
	}
	var rec func(lo, n int, bit int) *Term
	rec = func(lo, n, bit int) *Term {
		if n == 1 || bit < 0 {
			return vals[lo]
		}
		half := 1 << bit
		if n <= half {
			return rec(lo, n, bit-1)
		}
		return c.Ite(c.Eq(c.Extract(idx, uint8(bit), uint8(bit)), c.Const(1, 1)), rec(lo+half, n-half, bit-1), rec(lo, half, bit-1))
	}
	return rec(0, len(vals), bits.Len(uint(len(vals)-1))-1)
}

// ---- floats (64-bit patterns)

func (c *TermCtx) i2fExact(t *Term) (*Term, bool, bool) { // returns integer term (64), signed?, ok when exactly representable
	if t.op == OI2F || t.op == OU2F {
		x := t.args[0]
		return x, t.op == OI2F, true
	}
	return nil, false, false
}

func (c *TermCtx) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Const(a.w, evalF(op, a.val, b.val, a.w))
	}
	return c.mk(Term{op: op, w: a.w, args: []*Term{a, b}})
}
func evalF(op Op, x, y uint64, w uint8) uint64 {
	if w == 32 {
		a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		var r float32
		switch op {
		case OFAdd:
			r = a + b
		case OFSub:
			r = a - b
		case OFMul:
			r = a * b
		default:
			r = a / b
		}
		return uint64(math.Float32bits(r))
	}
	a, b := math.Float64frombits(x), math.Float64frombits(y)
	var r float64
	switch op {
	case OFAdd:
		r = a + b
	case OFSub:
		r = a - b
	case OFMul:
		r = a * b
	default:
		r = a / b
	}
	return math.Float64bits(r)
}
func evalFCmp(op Op, x, y uint64, w uint8) bool {
	var a, b float64
	if w == 32 {
		a, b = float64(math.Float32frombits(uint32(x))), float64(math.Float32frombits(uint32(y)))
	} else {
		a, b = math.Float64frombits(x), math.Float64frombits(y)
	}
	switch op {
	case OFLt:
		return a < b
	case OFLe:
		return a <= b
	}
	return a == b
}
func (c *TermCtx) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Bool(evalFCmp(op, a.val, b.val, a.w))
	}
	return c.mk(Term{op: op, args: []*Term{a, b}})
}
func (c *TermCtx) I2F(a *Term, signed bool) *Term {
	if a.w < 64 {
		if signed {
			a = c.SExt(a, 64)
		} else {
			a = c.ZExt(a, 64)
		}
	}
	if a.isConst() {
		if signed {
			return c.Const(64, math.Float64bits(float64(int64(a.val))))
		}
		return c.Const(64, math.Float64bits(float64(a.val)))
	}
	if a.umax()>>63 == 0 {
		signed = true
	}
	op := OU2F
	if signed {
		op = OI2F
	}
	return c.mk(Term{op: op, w: 64, args: []*Term{a}})
}
func (c *TermCtx) F2I(a *Term, signed bool) *Term {
	if a.isConst() {
		f := math.Float64frombits(a.val)
		if signed {
			return c.Const(64, uint64(int64(f)))
		}
		return c.Const(64, uint64(f))
	}
	op := OF2U
	if signed {
		op = OF2I
	}
	return c.mk(Term{op: op, w: 64, args: []*Term{a}})
}
func (c *TermCtx) FConv(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if w == 32 {
		if a.isConst() {
			return c.Const(32, uint64(math.Float32bits(float32(math.Float64frombits(a.val)))))
		}
		if a.op == OF32to64 {
			return a.args[0]
		}
		return c.mk(Term{op: OF64to32, w: 32, args: []*Term{a}})
	}
	if a.isConst() {
		return c.Const(64, math.Float64bits(float64(math.Float32frombits(uint32(a.val)))))
	}
	return c.mk(Term{op: OF32to64, w: 64, args: []*Term{a}})
}

// ---- evaluation

type Model map[int32]uint64

func (c *TermCtx) Eval(t *Term, m Model) uint64 {
	c.epoch++
	return c.eval(t, m)
}

func (c *TermCtx) eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.epoch == c.epoch {
		return t.ev
	}
	var r uint64
	a := t.args
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OVar:
		r = m[int32(t.val)] & mask(t.w)
	case OAdd:
		for _, x := range a {
			r += c.eval(x, m)
		}
	case OMul:
		r = c.eval(a[0], m) * c.eval(a[1], m)
	case OUDiv, OSDiv, OURem, OSRem:
		r = evalDiv(t.op, c.eval(a[0], m), c.eval(a[1], m), t.w)
	case OAnd:
		r = c.eval(a[0], m) & c.eval(a[1], m)
	case OOr:
		r = c.eval(a[0], m) | c.eval(a[1], m)
	case OXor:
		for _, x := range a {
			r ^= c.eval(x, m)
		}
	case ONot:
		r = ^c.eval(a[0], m)
	case OShl:
		if n := c.eval(a[1], m); n < 64 {
			r = c.eval(a[0], m) << n
		}
	case OLShr:
		if n := c.eval(a[1], m); n < 64 {
			r = c.eval(a[0], m) >> n
		}
	case OAShr:
		n := min(c.eval(a[1], m), 63)
		r = uint64(sx(c.eval(a[0], m), t.w) >> n)
	case OConcat:
		for _, x := range a {
			r = r<<x.w | c.eval(x, m)
		}
	case OExtract:
		r = c.eval(a[0], m) >> t.val
	case OSExt:
		r = uint64(sx(c.eval(a[0], m), a[0].w))
	case OIte:
		if c.eval(a[0], m) != 0 {
			r = c.eval(a[1], m)
		} else {
			r = c.eval(a[2], m)
		}
	case OTable:
		if i := c.eval(a[0], m); i < uint64(len(t.tab.data)) {
			r = t.tab.data[i]
		}
	case OEq:
		r = b2u(c.eval(a[0], m) == c.eval(a[1], m))
	case OUlt:
		r = b2u(c.eval(a[0], m) < c.eval(a[1], m))
	case OSlt:
		r = b2u(sx(c.eval(a[0], m), a[0].w) < sx(c.eval(a[1], m), a[1].w))
	case OBNot:
		r = 1 - c.eval(a[0], m)
	case OBAnd:
		r = 1
		for _, x := range a {
			if c.eval(x, m) == 0 {
				r = 0
				break
			}
		}
	case OBOr:
		for _, x := range a {
			if c.eval(x, m) != 0 {
				r = 1
				break
			}
		}
	case OFAdd, OFSub, OFMul, OFDiv:
		r = evalF(t.op, c.eval(a[0], m), c.eval(a[1], m), t.w)
	case OFLt, OFLe, OFEq:
		r = b2u(evalFCmp(t.op, c.eval(a[0], m), c.eval(a[1], m), a[0].w))
	case OI2F:
		r = math.Float64bits(float64(int64(c.eval(a[0], m))))
	case OU2F:
		r = math.Float64bits(float64(c.eval(a[0], m)))
	case OF2I:
		r = uint64(int64(math.Float64frombits(c.eval(a[0], m))))
	case OF2U:
		r = uint64(math.Float64frombits(c.eval(a[0], m)))
	case OF64to32:
		r = uint64(math.Float32bits(float32(math.Float64frombits(c.eval(a[0], m)))))
	case OF32to64:
		r = math.Float64bits(float64(math.Float32frombits(uint32(c.eval(a[0], m)))))
	default:
		panic("eval: bad op")
	}
	if t.w > 0 {
		r &= mask(t.w)
	}
	t.ev = r
	t.epoch = c.epoch
	return r
}

// ---- variable sets

func (c *TermCtx) Vars(t *Term) []int32 {
	if t.vok {
		return t.vars
	}
	var r []int32
	switch {
	case t.op == OConst:
	case t.op == OVar:
		r = []int32{int32(t.val)}
	default:
		for _, a := range t.args {
			r = mergeVars(r, c.Vars(a))
		}
	}
	t.vars = r
	t.vok = true
	return r
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset checks
	i, j := 0, 0
	sub := true
	for j < len(b) {
		for i < len(a) && a[i] < b[j] {
			i++
		}
		if i >= len(a) || a[i] != b[j] {
			sub = false
			break
		}
		j++
	}
	if sub {
		return a
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i] < b[j]:
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

// Dom: for a boolean term over exactly one variable of width<=8, the set of satisfying values.
func (c *TermCtx) Dom(t *Term) (*[4]uint64, int32, bool) {
	vs := c.Vars(t)
	if len(vs) != 1 || c.vars[vs[0]].w > 8 {
		return nil, 0, false
	}
	if t.dom == nil {
		var d [4]uint64
		n := 1 << c.vars[vs[0]].w
		m := Model{}
		for v := 0; v < n; v++ {
			m[vs[0]] = uint64(v)
			if c.Eval(t, m) != 0 {
				d[v>>6] |= 1 << (v & 63)
			}
		}
		t.dom = &d
	}
	return t.dom, vs[0], true
}

func (c *TermCtx) String(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprintf("%#x:%d", t.val, t.w)
	case OVar:
		return c.vars[t.val].name
	}
	s := fmt.Sprintf("(%d", t.op)
	for _, a := range t.args {
		s += " " + c.String(a)
		if len(s) > 400 {
			return s + "..."
		}
	}
	return s + ")"
}
