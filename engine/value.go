package main

import (
	"fmt"
	"go/types"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

type Value = any

type Str struct{ b []*Term }

type Structure []Value
type Tuple []Value

type Iface struct {
	t types.Type // nil: nil interface
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	nat func(e *Eng, args []Value) Value
}

// Arr is the backing store of arrays and slices; cells are materialised in chunks.
type Arr struct {
	chunks [][]Value
	cm     map[int][]Value // used when huge
	n      int
	elem   types.Type
	shift  uint
}

type Slice struct {
	a   *Arr
	off int
	n   int // length (upper bound if sn != nil)
	c   int
	sn  *Term // symbolic length (64 bit) or nil
	sc  bool  // the capacity equals the symbolic length
}

type SymPtr struct {
	a   *Arr
	off int
	n   int
	idx *Term
}

type Ptr = *Value

type mapEntry struct {
	k Value
	v Value
}
type Map struct {
	ents  []*mapEntry
	t     *types.Map
	stamp int64          // path number that created it (-1: init)
	idx   map[string]int // constant string/int keys -> position in ents (nil when any key is symbolic)
	symk  bool
}

type mapIter struct {
	m    *Map
	left []*mapEntry
	rest bool
	dir  int
}
type strIter struct {
	s Str
	i int
}

type ReflV struct {
	t types.Type
	v Value
	p Ptr // addressable location, if any
}
type ReflT struct{ t types.Type }

// Chan is unsupported.

func newArr(e *Eng, elem types.Type, n int) *Arr {
	a := &Arr{n: n, elem: elem}
	sh := uint(bits.Len(uint(max(n-1, 1))))
	if sh > 8 {
		sh = 8
	}
	a.shift = sh
	if n > 1<<20 {
		a.cm = map[int][]Value{}
	} else {
		nc := (n + (1 << sh) - 1) >> sh
		a.chunks = make([][]Value, nc)
	}
	return a
}

func (a *Arr) chunk(e *Eng, ci int) []Value {
	var ch []Value
	if a.cm != nil {
		ch = a.cm[ci]
	} else {
		ch = a.chunks[ci]
	}
	if ch == nil {
		sz := 1 << a.shift
		if a.cm == nil && (ci+1)<<a.shift > a.n {
			sz = a.n - ci<<a.shift
		}
		ch = make([]Value, sz)
		if isScalar(a.elem) {
			z := e.zero(a.elem)
			for i := range ch {
				ch[i] = z
			}
		} else {
			for i := range ch {
				ch[i] = e.zero(a.elem)
			}
		}
		if a.cm != nil {
			a.cm[ci] = ch
		} else {
			a.chunks[ci] = ch
		}
	}
	return ch
}

func (a *Arr) cell(e *Eng, i int) *Value {
	return &a.chunk(e, i>>a.shift)[i&(1<<a.shift-1)]
}

func (a *Arr) get(e *Eng, i int) Value { return *a.cell(e, i) }

func isScalar(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsBoolean|types.IsFloat) != 0
	}
	return false
}

func basicWidth(b *types.Basic) (w uint8, signed bool, ok bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Float32:
		return 32, false, true
	case types.Float64, types.UntypedFloat:
		return 64, false, true
	}
	return 0, false, false
}

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func widthOf(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported{"widthOf " + t.String()})
	}
	w, s, ok := basicWidth(b)
	if !ok {
		panic(unsupported{"widthOf " + t.String()})
	}
	return w, s
}

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect"
}

func (e *Eng) zero(t types.Type) Value {
	switch u := t.(type) {
	case *types.Named:
		if isReflectValue(u) {
			return ReflV{}
		}
		return e.zero(u.Underlying())
	case *types.Alias:
		return e.zero(types.Unalias(u))
	case *types.Basic:
		if u.Kind() == types.String || u.Kind() == types.UntypedString {
			return Str{}
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr(nil)
		}
		if u.Kind() == types.UntypedNil {
			panic(unsupported{"untyped nil zero"})
		}
		w, _, ok := basicWidth(u)
		if !ok {
			panic(unsupported{"zero of " + u.String()})
		}
		return e.c.Const(w, 0)
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Chan:
		return Ptr(nil)
	case *types.Struct:
		s := make(Structure, u.NumFields())
		for i := range s {
			s[i] = e.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return newArr(e, u.Elem(), int(u.Len()))
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = e.zero(u.At(i).Type())
		}
		return r
	case *types.TypeParam:
		panic(unsupported{"type param zero"})
	}
	panic(unsupported{fmt.Sprintf("zero of %T", t)})
}

// copyVal: value semantics for structs and arrays.
func (e *Eng) copyVal(v Value) Value {
	switch x := v.(type) {
	case Structure:
		r := make(Structure, len(x))
		for i := range x {
			r[i] = e.copyVal(x[i])
		}
		return r
	case *Arr:
		r := newArr(e, x.elem, x.n)
		sc := isScalar(x.elem)
		for ci, ch := range x.chunks {
			if ch == nil {
				continue
			}
			nc := make([]Value, len(ch))
			if sc {
				copy(nc, ch)
			} else {
				for i := range ch {
					nc[i] = e.copyVal(ch[i])
				}
			}
			r.chunks[ci] = nc
		}
		for ci, ch := range x.cm {
			nc := make([]Value, len(ch))
			for i := range ch {
				nc[i] = e.copyVal(ch[i])
			}
			r.cm[ci] = nc
		}
		return r
	}
	return v
}

// storeTo stores v at p, in place for aggregates.
func (e *Eng) storeTo(p Ptr, v Value) {
	switch x := v.(type) {
	case Structure:
		if cur, ok := (*p).(Structure); ok && len(cur) == len(x) {
			for i := range x {
				e.storeTo(&cur[i], x[i])
			}
			return
		}
	case *Arr:
		if cur, ok := (*p).(*Arr); ok && cur.n == x.n {
			if cur == x {
				return
			}
			for i := 0; i < x.n; i++ {
				e.storeTo(cur.cell(e, i), x.get(e, i))
			}
			return
		}
		v = e.copyVal(v)
	}
	if e.logging {
		e.trail = append(e.trail, trailEnt{p: p, old: *p})
	}
	*p = v
}

func (e *Eng) load(p Value) Value {
	switch x := p.(type) {
	case Ptr:
		if x == nil {
			e.rtPanic("nil pointer dereference")
		}
		switch (*x).(type) {
		case Structure, *Arr:
			return e.copyVal(*x)
		}
		return *x
	case SymPtr:
		if x.n > 4096 {
			i := e.concInt(x.idx)
			return x.a.get(e, x.off+i)
		}
		vals := make([]*Term, x.n)
		for i := 0; i < x.n; i++ {
			t, ok := x.a.get(e, x.off+i).(*Term)
			if !ok {
				k := e.concInt(x.idx)
				return e.copyVal(x.a.get(e, x.off+k))
			}
			vals[i] = t
		}
		return e.c.Mux(vals, x.idx)
	}
	panic(unsupported{fmt.Sprintf("load through %T", p)})
}

func (e *Eng) store(p Value, v Value) {
	if e.spec > 0 {
		panic(specAbort{})
	}
	switch x := p.(type) {
	case Ptr:
		if x == nil {
			e.rtPanic("nil pointer dereference (store)")
		}
		e.storeTo(x, v)
		return
	case SymPtr:
		nv, ok := v.(*Term)
		if !ok || x.n > 512 {
			i := e.concInt(x.idx)
			e.storeTo(x.a.cell(e, x.off+i), v)
			return
		}
		for i := 0; i < x.n; i++ {
			c := x.a.cell(e, x.off+i)
			old := (*c).(*Term)
			e.storeTo(c, e.c.Ite(e.c.Eq(x.idx, e.c.Const(64, uint64(i))), nv, old))
		}
		return
	}
	panic(unsupported{fmt.Sprintf("store through %T", p)})
}

func (e *Eng) strConst(s string) Str {
	b := make([]*Term, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = e.c.Const(8, uint64(s[i]))
	}
	return Str{b}
}

func (s Str) concrete() (string, bool) {
	b := make([]byte, len(s.b))
	for i, t := range s.b {
		if !t.isConst() {
			return "", false
		}
		b[i] = byte(t.val)
	}
	return string(b), true
}

func (e *Eng) int(n int) *Term { return e.c.Const(64, uint64(n)) }

func (s Slice) lenTerm(e *Eng) *Term {
	if s.sn != nil {
		return s.sn
	}
	return e.int(s.n)
}

// concSlice makes the slice length concrete on this path.
func (e *Eng) concSlice(s Slice) Slice {
	if s.sn != nil {
		n := e.concInt(s.sn)
		s.n = n
		if s.sc {
			s.c = n
		}
		s.sn = nil
		s.sc = false
	}
	return s
}

func (e *Eng) sliceBytes(s Slice) []*Term {
	s = e.concSlice(s)
	r := make([]*Term, s.n)
	for i := 0; i < s.n; i++ {
		r[i] = s.a.get(e, s.off+i).(*Term)
	}
	return r
}

func (e *Eng) bytesSlice(b []*Term) Slice {
	a := newArr(e, types.Typ[types.Byte], len(b))
	for i := 0; i < len(b); {
		ch := a.chunkRaw(i >> a.shift)
		k := copyTerms(ch, b[i:])
		i += k
	}
	return Slice{a: a, n: len(b), c: len(b)}
}

func (a *Arr) chunkRaw(ci int) []Value {
	sz := 1 << a.shift
	if a.cm != nil {
		if ch := a.cm[ci]; ch != nil {
			return ch
		}
		ch := make([]Value, sz)
		a.cm[ci] = ch
		return ch
	}
	if (ci+1)<<a.shift > a.n {
		sz = a.n - ci<<a.shift
	}
	ch := make([]Value, sz)
	a.chunks[ci] = ch
	return ch
}

func copyTerms(dst []Value, src []*Term) int {
	n := min(len(dst), len(src))
	for i := 0; i < n; i++ {
		dst[i] = src[i]
	}
	// a huge (map-backed) last chunk may be only partly covered
	for i := n; i < len(dst); i++ {
		if dst[i] == nil && len(src) > 0 {
			dst[i] = src[0]
		}
	}
	return n
}

// eqTerm: Go's == as a boolean term.
func (e *Eng) eqTerm(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return e.c.Eq(x, b.(*Term))
	case Str:
		return e.eqStr(x, b.(Str))
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return e.c.Bool(x == y)
		}
		panic(unsupported{fmt.Sprintf("pointer compare with %T", b)})
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(unsupported{"iface compare"})
		}
		if x.t == nil || y.t == nil {
			return e.c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return e.c.F
		}
		switch x.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			e.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return e.eqTerm(x.v, y.v)
	case Structure:
		y := b.(Structure)
		r := e.c.T
		for i := range x {
			r = e.c.And(r, e.eqTerm(x[i], y[i]))
		}
		return r
	case *Arr:
		y := b.(*Arr)
		r := make([]*Term, x.n)
		for i := range r {
			r[i] = e.eqTerm(x.get(e, i), y.get(e, i))
		}
		return e.c.And(r...)
	case Slice: // only against nil
		if y, ok := b.(Slice); ok {
			return e.c.Bool((x.a == nil) == (y.a == nil) && (x.a == nil || y.a == nil))
		}
	case *Map:
		if y, ok := b.(*Map); ok {
			return e.c.Bool(x == y)
		}
	case *Closure:
		if y, ok := b.(*Closure); ok {
			return e.c.Bool(x == y)
		}
	case ReflT:
		if y, ok := b.(ReflT); ok {
			return e.c.Bool(types.Identical(x.t, y.t))
		}
	}
	panic(unsupported{fmt.Sprintf("== on %T, %T", a, b)})
}

func (e *Eng) eqStr(x, y Str) *Term {
	if len(x.b) != len(y.b) {
		return e.c.F
	}
	var parts []*Term
	for i := range x.b {
		if x.b[i] == y.b[i] {
			continue
		}
		t := e.c.Eq(x.b[i], y.b[i])
		if t.isFalse() {
			return t
		}
		parts = append(parts, t)
	}
	return e.c.And(parts...)
}

func (e *Eng) ltStr(x, y Str) *Term {
	n := min(len(x.b), len(y.b))
	r := e.c.Bool(len(x.b) < len(y.b))
	for i := n - 1; i >= 0; i-- {
		if x.b[i] == y.b[i] {
			continue
		}
		r = e.c.Or(e.c.Ult(x.b[i], y.b[i]), e.c.And(e.c.Eq(x.b[i], y.b[i]), r))
	}
	return r
}

// ---- maps

func constKey(k Value) (string, bool) {
	switch x := k.(type) {
	case *Term:
		if x.isConst() {
			return fmt.Sprintf("i%d", x.val), true
		}
	case Str:
		if s, ok := x.concrete(); ok {
			return "s" + s, true
		}
	}
	return "", false
}

func (e *Eng) mapFind(m *Map, k Value) int {
	if m == nil {
		return -1
	}
	if m.idx != nil && !m.symk {
		if ck, ok := constKey(k); ok {
			if i, ok := m.idx[ck]; ok {
				return i
			}
			return -1
		}
	}
	for i, en := range m.ents {
		if e.branch(e.eqTerm(en.k, k)) {
			return i
		}
	}
	return -1
}

func (m *Map) reindex() {
	m.idx = nil
	m.symk = false
	if len(m.ents) == 0 {
		return
	}
	m.idx = map[string]int{}
	for i, en := range m.ents {
		ck, ok := constKey(en.k)
		if !ok {
			m.symk = true
			return
		}
		m.idx[ck] = i
	}
}

func (e *Eng) mapDirty(m *Map) {
	if e.spec > 0 {
		panic(specAbort{})
	}
	if e.logging && m.stamp != e.pathNo {
		saved := make([]*mapEntry, len(m.ents))
		for i, en := range m.ents {
			saved[i] = &mapEntry{en.k, en.v}
		}
		e.trail = append(e.trail, trailEnt{m: m, ents: saved, stamp: m.stamp})
		m.stamp = e.pathNo
	}
}

func (e *Eng) mapSet(m *Map, k, v Value) {
	if m == nil {
		e.rtPanic("assignment to entry in nil map")
	}
	i := e.mapFind(m, k)
	e.mapDirty(m)
	v = e.copyVal(v)
	if i >= 0 {
		m.ents[i].v = v
		return
	}
	m.ents = append(m.ents, &mapEntry{k, v})
	if ck, ok := constKey(k); ok {
		if m.idx == nil {
			m.idx = map[string]int{}
		}
		m.idx[ck] = len(m.ents) - 1
	} else {
		m.symk = true
	}
}

func (e *Eng) mapDelete(m *Map, k Value) {
	i := e.mapFind(m, k)
	if i < 0 {
		return
	}
	e.mapDirty(m)
	m.ents = append(append([]*mapEntry(nil), m.ents[:i]...), m.ents[i+1:]...)
	m.reindex()
}
