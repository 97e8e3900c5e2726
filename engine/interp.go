package main

// Symbolic interpreter over go/ssa. Every function is compiled once per worker
// into closures over a register file; all scalar values are terms.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type unsupported struct{ msg string }
type specAbort struct{}
type targetPanic struct {
	v   Value // Iface
	msg string
	rt  bool
	at  string
}
type goexit struct{}

type trailEnt struct {
	p     Ptr
	old   Value
	m     *Map
	ents  []*mapEntry
	stamp int64
}

type opnd struct {
	slot int
	k    Value
}

type frame struct {
	cf          *cfn
	regs        []Value
	defers      []func()
	caller      *frame
	deferParent *frame
	panicking   *targetPanic
	block       int
}

func (fr *frame) get(o opnd) Value {
	if o.slot >= 0 {
		return fr.regs[o.slot]
	}
	return o.k
}
func (fr *frame) term(o opnd) *Term { return fr.get(o).(*Term) }

type instrFn func(fr *frame)

const (
	tJump = iota
	tIf
	tReturn
	tPanic
	tNone
)

type cphi struct {
	dst   int
	in    []opnd
	isInt bool
}

type cblock struct {
	idx   int
	phis  []cphi
	body  []instrFn
	pure  bool // may be executed speculatively
	term  int
	cond  opnd
	succ  [2]int
	pidx  [2]int // predecessor index of the edge in the successor
	rets  []opnd
	pv    opnd
	merge *region
	site  string
}

type region struct {
	order []int // topologically ordered region blocks (excluding head)
	join  int   // -1: all arms return
	dead  bool
}

type cfn struct {
	fn       *ssa.Function
	name     string
	nregs    int
	nparams  int
	nfree    int
	blocks   []*cblock
	nat      natFn
	hasDefer bool
	recover  int
	nres     int
	short    string
}

type natFn func(e *Eng, fr *frame, args []Value) Value

func (e *Eng) compiled(fn *ssa.Function) *cfn {
	if cf, ok := e.fns[fn]; ok {
		return cf
	}
	cf := &cfn{fn: fn, name: fn.String(), recover: -1}
	e.fns[fn] = cf
	name := cf.name
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if n, ok := intrinsics[name]; ok {
		cf.nat = n
		return cf
	}
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil && e.initing && !e.L.inits(fn.Pkg.Pkg.Path()) {
		cf.nat = func(e *Eng, fr *frame, args []Value) Value { return nil }
		return cf
	}
	if fn.Blocks == nil {
		cf.nat = func(e *Eng, fr *frame, args []Value) Value {
			panic(unsupported{"external function " + name})
		}
		return cf
	}
	if p := pkgOf(fn); p != nil && !e.L.allowed(p.Pkg.Path()) {
		path := p.Pkg.Path()
		cf.nat = func(e *Eng, fr *frame, args []Value) Value {
			panic(unsupported{"function of package outside the encoded set: " + path + " " + name})
		}
		return cf
	}
	e.compile(cf)
	return cf
}

func pkgOf(fn *ssa.Function) *ssa.Package {
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	return nil
}

type comp struct {
	e     *Eng
	cf    *cfn
	slots map[ssa.Value]int
}

func (e *Eng) compile(cf *cfn) {
	fn := cf.fn
	c := &comp{e: e, cf: cf, slots: map[ssa.Value]int{}}
	n := 0
	for _, p := range fn.Params {
		c.slots[p] = n
		n++
	}
	cf.nparams = n
	for _, p := range fn.FreeVars {
		c.slots[p] = n
		n++
	}
	cf.nfree = n - cf.nparams
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.slots[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				cf.hasDefer = true
			}
		}
	}
	cf.nregs = n
	cf.nres = fn.Signature.Results().Len()
	if fn.Recover != nil {
		cf.recover = fn.Recover.Index
	}
	for _, b := range fn.Blocks {
		cb := &cblock{idx: b.Index, pure: true, term: tNone}
		cf.blocks = append(cf.blocks, cb)
		for _, in := range b.Instrs {
			c.instr(cb, in)
		}
	}
	for i, b := range fn.Blocks {
		cb := cf.blocks[i]
		for k, s := range b.Succs {
			cb.succ[k] = s.Index
			// predecessor index (handle duplicate edges in order)
			cnt := 0
			for kk := 0; kk < k; kk++ {
				if b.Succs[kk] == s {
					cnt++
				}
			}
			for pi, p := range s.Preds {
				if p == b {
					if cnt == 0 {
						cb.pidx[k] = pi
						break
					}
					cnt--
				}
			}
		}
	}
	for i := range cf.blocks {
		if cf.blocks[i].term == tIf {
			cf.blocks[i].merge = c.findRegion(i)
		}
	}
}

// findRegion: acyclic pure region after block i ending in one join block, or in returns only.
func (c *comp) findRegion(i int) *region {
	cf := c.cf
	const maxB = 24
	try := func(join int) *region {
		// collect blocks reachable from i not through join
		seen := map[int]bool{}
		var post []int
		state := map[int]int{}
		ok := true
		nret := 0
		var dfs func(b int)
		dfs = func(b int) {
			if !ok || b == join {
				return
			}
			if b == i {
				ok = false
				return
			}
			if state[b] == 1 {
				ok = false
				return
			}
			if state[b] == 2 {
				return
			}
			state[b] = 1
			if len(seen) >= maxB {
				ok = false
				return
			}
			seen[b] = true
			cb := cf.blocks[b]
			if !cb.pure {
				ok = false
				return
			}
			switch cb.term {
			case tJump:
				dfs(cb.succ[0])
			case tIf:
				dfs(cb.succ[0])
				dfs(cb.succ[1])
			case tReturn:
				nret++
				if join >= 0 {
					ok = false
				}
			default:
				ok = false
			}
			state[b] = 2
			post = append(post, b)
		}
		dfs(cf.blocks[i].succ[0])
		dfs(cf.blocks[i].succ[1])
		if !ok || len(post) == 0 && join < 0 {
			return nil
		}
		// all preds of region blocks must be in region or head
		for b := range seen {
			for _, p := range cf.fn.Blocks[b].Preds {
				if p.Index != i && !seen[p.Index] {
					return nil
				}
			}
		}
		order := make([]int, len(post))
		for k, b := range post {
			order[len(post)-1-k] = b
		}
		return &region{order: order, join: join}
	}
	// candidate joins: blocks reachable, in BFS order
	var cands []int
	q := []int{cf.blocks[i].succ[0], cf.blocks[i].succ[1]}
	seen := map[int]bool{}
	for len(q) > 0 && len(seen) < maxB {
		b := q[0]
		q = q[1:]
		if seen[b] {
			continue
		}
		seen[b] = true
		cands = append(cands, b)
		for k := 0; k < nsucc(cf.blocks[b]); k++ {
			q = append(q, cf.blocks[b].succ[k])
		}
	}
	for _, j := range cands {
		if j == i {
			continue
		}
		if r := try(j); r != nil {
			// phis of the join must be mergeable types
			for _, p := range cf.blocks[j].phis {
				_ = p
			}
			return r
		}
	}
	if !cf.hasDefer {
		res := cf.fn.Signature.Results()
		okT := res.Len() > 0
		for k := 0; k < res.Len(); k++ {
			if !mergeableT(res.At(k).Type()) {
				okT = false
			}
		}
		if okT {
			return try(-1)
		}
	}
	return nil
}

func nsucc(b *cblock) int {
	switch b.term {
	case tJump:
		return 1
	case tIf:
		return 2
	}
	return 0
}

// mergeableT: types whose values are merged with ite (not int: lengths and indices stay concrete).
func mergeableT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Bool, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Int8, types.Int16, types.Int32, types.Float32, types.Float64:
		return true
	}
	return false
}

func (c *comp) o(v ssa.Value) opnd {
	e := c.e
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{-1, e.constVal(x)}
	case *ssa.Global:
		return opnd{-1, Value(e.global(x))}
	case *ssa.Function:
		return opnd{-1, e.fnClosure(x)}
	case *ssa.Builtin:
		return opnd{-1, nil}
	}
	s, ok := c.slots[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %v in %v", v, c.cf.name))
	}
	return opnd{slot: s}
}

func (e *Eng) fnClosure(f *ssa.Function) *Closure {
	if cl, ok := e.fncl[f]; ok {
		return cl
	}
	cl := &Closure{fn: f}
	e.fncl[f] = cl
	return cl
}

type poisoned struct{ msg string }

// tolerant runs an instruction of a package initialiser; a value that cannot be
// computed becomes poison, which is an error only where it is used.
func (e *Eng) tolerant(in ssa.Instruction, dst int, f instrFn) instrFn {
	if call, ok := in.(*ssa.Call); ok {
		if g, ok := call.Call.Value.(*ssa.Function); ok && strings.HasPrefix(g.Name(), "init") {
			return f
		}
	}
	return func(fr *frame) {
		d, cur := e.depth, e.cur
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			if _, ok := r.(*targetPanic); ok {
				panic(r)
			}
			msg := fmt.Sprint(r)
			if u, ok := r.(unsupported); ok {
				msg = u.msg
			}
			e.depth, e.cur = d, cur
			if dst >= 0 {
				fr.regs[dst] = poisoned{"initialiser: " + msg}
			} else if st, ok := in.(*ssa.Store); ok {
				if g, ok := st.Addr.(*ssa.Global); ok {
					*e.global(g) = poisoned{"initialiser of " + g.String() + ": " + msg}
				}
			}
		}()
		f(fr)
	}
}

func (e *Eng) global(g *ssa.Global) Ptr {
	if p, ok := e.globals[g]; ok {
		return p
	}
	p := new(Value)
	if g.Pkg != nil && !e.L.inits(g.Pkg.Pkg.Path()) && !e.initing {
		// package not initialised: reading it would be wrong
		*p = poisoned{"global of uninitialised package " + g.String()}
		if g.String() == "internal/bytealg.MaxLen" {
			*p = e.int(63)
		}
	} else {
		*p = e.zero(deref(g.Type()))
	}
	e.globals[g] = p
	return p
}

func deref(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func (e *Eng) constVal(x *ssa.Const) Value {
	t := x.Type()
	if x.Value == nil {
		return e.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		// type parameter instantiated?
		panic(unsupported{"const of " + t.String()})
	}
	if b.Info()&types.IsString != 0 {
		if x.Value.Kind() == constant.String {
			return e.strConst(constant.StringVal(x.Value))
		}
		return e.strConst(string(rune(x.Int64())))
	}
	if b.Info()&types.IsBoolean != 0 {
		return e.c.Bool(constant.BoolVal(x.Value))
	}
	w, _, ok := basicWidth(b)
	if !ok {
		if b.Kind() == types.UnsafePointer {
			return Ptr(nil)
		}
		panic(unsupported{"const of " + t.String()})
	}
	if b.Info()&types.IsFloat != 0 {
		f := x.Float64()
		if w == 32 {
			return e.c.Const(32, uint64(math.Float32bits(float32(f))))
		}
		return e.c.Const(64, math.Float64bits(f))
	}
	if b.Info()&types.IsUnsigned != 0 {
		return e.c.Const(w, x.Uint64())
	}
	return e.c.Const(w, uint64(x.Int64()))
}

// ---- instruction compilation

func (c *comp) instr(cb *cblock, in ssa.Instruction) {
	e := c.e
	add := func(pure bool, f instrFn) {
		if !pure {
			cb.pure = false
		}
		cb.body = append(cb.body, f)
	}
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = c.slots[v]
	}
	if c.cf.fn != nil && c.cf.fn.Synthetic == "package initializer" {
		n0 := len(cb.body)
		defer func() {
			for i := n0; i < len(cb.body); i++ {
				cb.body[i] = e.tolerant(in, dst, cb.body[i])
			}
		}()
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		p := cphi{dst: dst}
		for _, ed := range x.Edges {
			p.in = append(p.in, c.o(ed))
		}
		p.isInt = !mergeableT(x.Type())
		cb.phis = append(cb.phis, p)
	case *ssa.Alloc:
		t := deref(x.Type())
		add(false, func(fr *frame) {
			p := new(Value)
			*p = e.zero(t)
			if x.Heap {
				e.noteAlloc(1)
			}
			fr.regs[dst] = Ptr(p)
		})
	case *ssa.BinOp:
		a, b := c.o(x.X), c.o(x.Y)
		f := e.binop(x.Op, x.X.Type(), x.Y.Type())
		add(true, func(fr *frame) { fr.regs[dst] = f(fr.get(a), fr.get(b)) })
	case *ssa.UnOp:
		a := c.o(x.X)
		switch x.Op {
		case token.MUL:
			add(true, func(fr *frame) {
				v := e.load(fr.get(a))
				if p, ok := v.(poisoned); ok {
					panic(unsupported{p.msg})
				}
				fr.regs[dst] = v
			})
		case token.NOT:
			add(true, func(fr *frame) { fr.regs[dst] = e.c.Not(fr.term(a)) })
		case token.XOR:
			add(true, func(fr *frame) { fr.regs[dst] = e.c.BVNot(fr.term(a)) })
		case token.SUB:
			if isFloatT(x.X.Type()) {
				add(true, func(fr *frame) {
					t := fr.term(a)
					fr.regs[dst] = e.c.bitop(OXor, t, e.c.Const(t.w, uint64(1)<<(t.w-1)))
				})
			} else {
				add(true, func(fr *frame) { fr.regs[dst] = e.c.Neg(fr.term(a)) })
			}
		default:
			add(false, func(fr *frame) { panic(unsupported{"unop " + x.Op.String()}) })
		}
	case *ssa.ChangeType:
		a := c.o(x.X)
		add(true, func(fr *frame) { fr.regs[dst] = fr.get(a) })
	case *ssa.ChangeInterface:
		a := c.o(x.X)
		add(true, func(fr *frame) { fr.regs[dst] = fr.get(a) })
	case *ssa.Convert:
		a := c.o(x.X)
		f, pure := e.convert(x.X.Type(), x.Type())
		add(pure, func(fr *frame) { fr.regs[dst] = f(fr.get(a)) })
	case *ssa.MultiConvert:
		add(false, func(fr *frame) { panic(unsupported{"multiconvert"}) })
	case *ssa.MakeInterface:
		a := c.o(x.X)
		t := x.X.Type()
		add(false, func(fr *frame) { fr.regs[dst] = Iface{t, fr.get(a)} })
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, c.o(b))
		}
		add(false, func(fr *frame) {
			env := make([]Value, len(bs))
			for i, b := range bs {
				env[i] = fr.get(b)
			}
			fr.regs[dst] = &Closure{fn: fn, env: env}
		})
	case *ssa.MakeMap:
		t := x.Type().Underlying().(*types.Map)
		if x.Reserve == nil {
			add(false, func(fr *frame) { fr.regs[dst] = e.newMap(t) })
			break
		}
		n := c.o(x.Reserve)
		_, signed := widthOf(x.Reserve.Type())
		add(false, func(fr *frame) {
			e.noteMapAlloc(e.c.Resize(fr.term(n), 64, signed), e.sizeof(t.Key())+e.sizeof(t.Elem()))
			fr.regs[dst] = e.newMap(t)
		})
	case *ssa.MakeChan, *ssa.Go, *ssa.Select, *ssa.Send:
		add(false, func(fr *frame) { panic(unsupported{fmt.Sprintf("%T in %s", x, c.cf.name)}) })
	case *ssa.MakeSlice:
		l, k := c.o(x.Len), c.o(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		_, ls := widthOf(x.Len.Type())
		_, ks := widthOf(x.Cap.Type())
		same := x.Len == x.Cap
		add(false, func(fr *frame) {
			lt := e.c.Resize(fr.term(l), 64, ls)
			kt := lt
			if !same {
				kt = e.c.Resize(fr.term(k), 64, ks)
			}
			fr.regs[dst] = e.makeSlice(et, lt, kt)
		})
	case *ssa.Slice:
		a := c.o(x.X)
		get := func(v ssa.Value) (opnd, bool, bool) {
			if v == nil {
				return opnd{}, false, false
			}
			_, s := widthOf(v.Type())
			return c.o(v), true, s
		}
		lo, hasLo, slo := get(x.Low)
		hi, hasHi, shi := get(x.High)
		mx, hasMx, smx := get(x.Max)
		add(false, func(fr *frame) {
			var l, h, m *Term
			if hasLo {
				l = e.c.Resize(fr.term(lo), 64, slo)
			}
			if hasHi {
				h = e.c.Resize(fr.term(hi), 64, shi)
			}
			if hasMx {
				m = e.c.Resize(fr.term(mx), 64, smx)
			}
			fr.regs[dst] = e.slice(fr.get(a), l, h, m)
		})
	case *ssa.SliceToArrayPointer:
		a := c.o(x.X)
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		add(false, func(fr *frame) {
			s := e.concSlice(fr.get(a).(Slice))
			if s.n < n {
				e.rtPanic("slice to array pointer: length")
			}
			if s.off == 0 && s.a != nil && s.a.n == n {
				p := new(Value)
				*p = s.a
				fr.regs[dst] = Ptr(p)
				return
			}
			panic(unsupported{"slice to array pointer (view)"})
		})
	case *ssa.FieldAddr:
		a := c.o(x.X)
		f := x.Field
		add(true, func(fr *frame) {
			p := e.ptr(fr.get(a))
			if p == nil {
				e.rtPanic("nil pointer dereference")
			}
			s, ok := (*p).(Structure)
			if !ok {
				if po, ok := (*p).(poisoned); ok {
					panic(unsupported{po.msg})
				}
				panic(unsupported{fmt.Sprintf("fieldaddr on %T in %s", *p, c.cf.name)})
			}
			fr.regs[dst] = Ptr(&s[f])
		})
	case *ssa.Field:
		a := c.o(x.X)
		f := x.Field
		add(true, func(fr *frame) { fr.regs[dst] = fr.get(a).(Structure)[f] })
	case *ssa.IndexAddr:
		a, i := c.o(x.X), c.o(x.Index)
		_, sg := widthOf(x.Index.Type())
		add(true, func(fr *frame) {
			fr.regs[dst] = e.indexAddr(fr.get(a), e.c.Resize(fr.term(i), 64, sg))
		})
	case *ssa.Index:
		a, i := c.o(x.X), c.o(x.Index)
		_, sg := widthOf(x.Index.Type())
		add(true, func(fr *frame) {
			idx := e.c.Resize(fr.term(i), 64, sg)
			switch b := fr.get(a).(type) {
			case *Arr:
				tmp := Value(b)
				fr.regs[dst] = e.load(e.indexAddr(Ptr(&tmp), idx))
			case Str:
				fr.regs[dst] = e.strIndex(b, idx)
			default:
				panic(unsupported{"index"})
			}
		})
	case *ssa.Lookup:
		a, i := c.o(x.X), c.o(x.Index)
		if isStringT(x.X.Type()) {
			_, sg := widthOf(x.Index.Type())
			add(true, func(fr *frame) {
				fr.regs[dst] = e.strIndex(fr.get(a).(Str), e.c.Resize(fr.term(i), 64, sg))
			})
			break
		}
		mt := x.X.Type().Underlying().(*types.Map)
		add(false, func(fr *frame) {
			m := fr.get(a).(*Map)
			k := e.mapFind(m, fr.get(i))
			var v Value
			if k >= 0 {
				v = e.copyVal(m.ents[k].v)
			} else {
				v = e.zero(mt.Elem())
			}
			if x.CommaOk {
				fr.regs[dst] = Tuple{v, e.c.Bool(k >= 0)}
			} else {
				fr.regs[dst] = v
			}
		})
	case *ssa.MapUpdate:
		a, k, v := c.o(x.Map), c.o(x.Key), c.o(x.Value)
		add(false, func(fr *frame) { e.mapSet(fr.get(a).(*Map), fr.get(k), fr.get(v)) })
	case *ssa.Range:
		a := c.o(x.X)
		add(false, func(fr *frame) {
			switch v := fr.get(a).(type) {
			case Str:
				fr.regs[dst] = &strIter{s: v}
			case *Map:
				it := &mapIter{m: v, dir: -1}
				if v != nil {
					it.left = append(it.left, v.ents...)
				}
				fr.regs[dst] = it
			default:
				panic(unsupported{"range"})
			}
		})
	case *ssa.Next:
		a := c.o(x.Iter)
		tt := x.Type().(*types.Tuple)
		add(false, func(fr *frame) { fr.regs[dst] = e.next(fr, fr.get(a), tt) })
	case *ssa.Extract:
		a := c.o(x.Tuple)
		i := x.Index
		add(true, func(fr *frame) { fr.regs[dst] = fr.get(a).(Tuple)[i] })
	case *ssa.TypeAssert:
		a := c.o(x.X)
		t := x.AssertedType
		it, isI := t.Underlying().(*types.Interface)
		add(false, func(fr *frame) {
			v := fr.get(a).(Iface)
			ok := false
			if v.t != nil {
				if isI {
					ok = e.implements(v.t, it)
				} else {
					ok = v.t == t || types.Identical(v.t, t)
				}
			}
			var r Value
			if ok {
				if isI {
					r = v
				} else {
					r = v.v
				}
			} else {
				if !x.CommaOk {
					e.rtPanic(fmt.Sprintf("interface conversion: interface is %v, not %v", v.t, t))
				}
				r = e.zero(t)
			}
			if x.CommaOk {
				fr.regs[dst] = Tuple{r, e.c.Bool(ok)}
			} else {
				fr.regs[dst] = r
			}
		})
	case *ssa.Store:
		a, v := c.o(x.Addr), c.o(x.Val)
		add(false, func(fr *frame) { e.store(fr.get(a), fr.get(v)) })
	case *ssa.Call:
		c.call(cb, &x.Call, dst, 0)
	case *ssa.Defer:
		c.call(cb, &x.Call, -1, 1)
	case *ssa.RunDefers:
		add(false, func(fr *frame) {
			e.runDefers(fr)
			if p := fr.panicking; p != nil {
				fr.panicking = nil
				panic(p)
			}
		})
	case *ssa.Jump:
		cb.term = tJump
	case *ssa.If:
		cb.term = tIf
		cb.cond = c.o(x.Cond)
		pos := x.Cond.Pos()
		if !pos.IsValid() && len(x.Block().Instrs) > 0 {
			pos = x.Block().Instrs[0].Pos()
		}
		cb.site = fmt.Sprintf("%s:%d", c.cf.name, e.L.prog.Fset.Position(pos).Line)
	case *ssa.Return:
		cb.term = tReturn
		for _, r := range x.Results {
			cb.rets = append(cb.rets, c.o(r))
		}
	case *ssa.Panic:
		cb.term = tPanic
		cb.pv = c.o(x.X)
	default:
		add(false, func(fr *frame) { panic(unsupported{fmt.Sprintf("instruction %T", in)}) })
	}
}

func (e *Eng) ptr(v Value) Ptr {
	switch x := v.(type) {
	case Ptr:
		return x
	case SymPtr:
		i := e.concInt(x.idx)
		return x.a.cell(e, x.off+i)
	}
	panic(unsupported{fmt.Sprintf("pointer %T", v)})
}

func (e *Eng) newMap(t *types.Map) *Map { return &Map{t: t, stamp: e.pathNo} }

func (e *Eng) indexAddr(base Value, idx *Term) Value {
	var a *Arr
	var off, n int
	var cond *Term
	switch x := base.(type) {
	case Slice:
		a, off, n = x.a, x.off, x.n
		if x.sn != nil {
			cond = e.c.Ult(idx, x.sn)
		}
	case Ptr:
		if x == nil {
			e.rtPanic("nil pointer dereference")
		}
		a = (*x).(*Arr)
		n = a.n
	case SymPtr:
		a = (*e.ptr(x)).(*Arr)
		n = a.n
	default:
		panic(unsupported{fmt.Sprintf("indexaddr %T", base)})
	}
	if cond == nil {
		cond = e.c.Ult(idx, e.int(n))
	}
	if !cond.isTrue() && !e.branch(cond) {
		e.rtPanic("index out of range")
	}
	if idx.isConst() {
		return Ptr(a.cell(e, off+int(idx.val)))
	}
	return SymPtr{a, off, n, idx}
}

func (e *Eng) strIndex(s Str, idx *Term) Value {
	cond := e.c.Ult(idx, e.int(len(s.b)))
	if !cond.isTrue() && !e.branch(cond) {
		e.rtPanic("string index out of range")
	}
	if idx.isConst() {
		return s.b[idx.val]
	}
	return e.c.Mux(s.b, idx)
}

const hugeAlloc = 1 << 40

func (e *Eng) makeSlice(et types.Type, l, k *Term) Value {
	neg := e.c.Slt(l, e.int(0))
	if !neg.isFalse() && e.branch(neg) {
		e.rtPanic("makeslice: len out of range")
	}
	if k != l {
		bad := e.c.Slt(k, l)
		if !bad.isFalse() && e.branch(bad) {
			e.rtPanic("makeslice: cap out of range")
		}
	}
	es := e.sizeof(et)
	e.noteAllocTerm(k, es)
	// len*size overflow -> panic
	lim := e.int(hugeAlloc / max(es, 1))
	big := e.c.Ult(lim, k)
	if !big.isFalse() && e.branch(big) {
		e.rtPanic("makeslice: len out of range")
	}
	if k != l {
		ki := e.concInt(k)
		a := newArr(e, et, ki)
		if l.isConst() {
			return Slice{a: a, n: int(l.val), c: ki}
		}
		return Slice{a: a, n: ki, c: ki, sn: l}
	}
	if l.isConst() {
		n := int(l.val)
		return Slice{a: newArr(e, et, n), n: n, c: n}
	}
	m := l.umax()
	if m > hugeAlloc {
		m = hugeAlloc
	}
	n := int(m)
	return Slice{a: newArr(e, et, n), n: n, c: n, sn: l, sc: true}
}

func (e *Eng) sizeof(t types.Type) int {
	return int(e.L.sizes.Sizeof(t))
}

func (s Slice) capTerm(e *Eng) *Term {
	if s.sn != nil && s.sc {
		return s.sn
	}
	return e.int(s.c)
}

func (e *Eng) slice(base Value, l, h, m *Term) Value {
	c := e.c
	zero := e.int(0)
	if l == nil {
		l = zero
	}
	switch x := base.(type) {
	case Str:
		n := e.int(len(x.b))
		if h == nil {
			h = n
		}
		ok := c.And(c.Ule(l, h), c.Ule(h, n))
		if !ok.isTrue() && !e.branch(ok) {
			e.rtPanic("slice bounds out of range")
		}
		lo := e.concInt(l)
		hi := e.concInt(h)
		return Str{x.b[lo:hi:hi]}
	case Ptr, SymPtr:
		p := e.ptr(x)
		if p == nil {
			e.rtPanic("nil pointer dereference")
		}
		a := (*p).(*Arr)
		return e.slice(Slice{a: a, n: a.n, c: a.n}, l, h, m)
	case Slice:
		if h == nil {
			h = x.lenTerm(e)
		}
		capT := x.capTerm(e)
		if m != nil {
			ok := c.And(c.Ule(l, h), c.And(c.Ule(h, m), c.Ule(m, capT)))
			if !ok.isTrue() && !e.branch(ok) {
				e.rtPanic("slice bounds out of range")
			}
			x = e.concSlice(x)
			lo, hi, mx := e.concInt(l), e.concInt(h), e.concInt(m)
			return Slice{a: x.a, off: x.off + lo, n: hi - lo, c: mx - lo}
		}
		ok := c.And(c.Ule(l, h), c.Ule(h, capT))
		if !ok.isTrue() && !e.branch(ok) {
			e.rtPanic("slice bounds out of range")
		}
		lo := e.concInt(l)
		if x.a == nil {
			return x
		}
		if h.isConst() {
			hi := int(h.val)
			if x.sn != nil && x.sc {
				x = e.concSlice(x)
			}
			return Slice{a: x.a, off: x.off + lo, n: hi - lo, c: x.c - lo}
		}
		sn := c.Sub(h, e.int(lo))
		r := Slice{a: x.a, off: x.off + lo, sn: sn, c: x.c - lo}
		r.n = r.c
		if mu := h.umax(); mu < uint64(x.c) {
			r.n = int(mu) - lo
		}
		if x.sn != nil && x.sc {
			if h == x.sn {
				r.sc = true
			} else {
				// different symbolic cap and length: fix the capacity
				x = e.concSlice(x)
				r.c = x.c - lo
				r.n = min(r.n, r.c)
			}
		}
		if sn.isConst() {
			r.n = int(sn.val)
			r.sn = nil
			if r.sc {
				r.c = r.n
				r.sc = false
			}
		}
		return r
	}
	panic(unsupported{fmt.Sprintf("slice of %T", base)})
}

func (e *Eng) next(fr *frame, it Value, tt *types.Tuple) Value {
	switch x := it.(type) {
	case *strIter:
		if x.i >= len(x.s.b) {
			return Tuple{e.c.F, e.int(0), e.c.Const(32, 0)}
		}
		i := x.i
		b := x.s.b[i]
		if e.branch(e.c.Ult(b, e.c.Const(8, 0x80))) {
			x.i++
			return Tuple{e.c.T, e.int(i), e.c.ZExt(b, 32)}
		}
		r, n := e.decodeRune(fr, Str{x.s.b[i:]})
		x.i += n
		return Tuple{e.c.T, e.int(i), r}
	case *mapIter:
		for len(x.left) > 0 {
			k := 0
			if len(x.left) > 1 && !e.initing {
				k = e.mapPick(x)
			}
			en := x.left[k]
			l := append([]*mapEntry(nil), x.left[:k]...)
			x.left = append(l, x.left[k+1:]...)
			// deleted meanwhile?
			alive := false
			for _, q := range x.m.ents {
				if q == en {
					alive = true
				}
			}
			if !alive {
				continue
			}
			return Tuple{e.c.T, en.k, e.copyVal(en.v)}
		}
		var kz, vz Value
		if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			kz = e.zero(tt.At(1).Type())
		}
		if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			vz = e.zero(tt.At(2).Type())
		}
		return Tuple{e.c.F, kz, vz}
	}
	panic(unsupported{"next"})
}

func (e *Eng) decodeRune(fr *frame, s Str) (*Term, int) {
	f := e.L.fn("unicode/utf8", "DecodeRuneInString")
	r := e.callFn(fr, e.compiled(f), []Value{s}, nil, nil).(Tuple)
	return r[0].(*Term), e.concInt(r[1].(*Term))
}

func (e *Eng) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if r, ok := e.implC[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	e.implC[k] = r
	return r
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (e *Eng) method(t types.Type, m *types.Func) *cfn {
	k := methKey{t, m}
	if r, ok := e.methC[k]; ok {
		return r
	}
	e.L.mu.Lock()
	f := e.L.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.L.mu.Unlock()
	if f == nil {
		panic(unsupported{"method " + m.Name() + " of " + t.String()})
	}
	r := e.compiled(f)
	e.methC[k] = r
	return r
}

func (c *comp) call(cb *cblock, cc *ssa.CallCommon, dst int, mode int) {
	e := c.e
	cf := c.cf
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.o(a))
	}
	set := func(fr *frame, v Value) {
		if dst >= 0 {
			fr.regs[dst] = v
		}
	}
	var mk func(fr *frame) func(parent *frame) Value
	if cc.IsInvoke() {
		recv := c.o(cc.Value)
		m := cc.Method
		mk = func(fr *frame) func(parent *frame) Value {
			v := fr.get(recv)
			if rt, ok := v.(ReflT); ok {
				v = Iface{reflTypeMarker, rt}
			}
			rv := v.(Iface)
			if rv.t == nil {
				e.rtPanic("nil pointer dereference (method " + m.Name() + " on nil interface)")
			}
			av := make([]Value, 0, len(args)+1)
			av = append(av, rv.v)
			for _, a := range args {
				av = append(av, fr.get(a))
			}
			if rt, ok := rv.v.(ReflT); ok {
				return func(*frame) Value { return e.reflTypeMethod(rt, m.Name(), av[1:]) }
			}
			f := e.method(rv.t, m)
			return func(parent *frame) Value { return e.callFn(fr, f, av, nil, parent) }
		}
	} else if b, ok := cc.Value.(*ssa.Builtin); ok {
		pure := false
		switch b.Name() {
		case "len", "cap", "min", "max":
			pure = true
		}
		bf := e.builtin(b.Name(), cc, args)
		if mode == 0 {
			if !pure {
				cb.pure = false
			}
			cb.body = append(cb.body, func(fr *frame) { set(fr, bf(fr)) })
			return
		}
		mk = func(fr *frame) func(parent *frame) Value {
			return func(parent *frame) Value { return bf(fr) }
		}
	} else if f, ok := cc.Value.(*ssa.Function); ok {
		var target *cfn
		mk = nil
		pure := pureFn(f)
		if mode == 0 {
			if !pure {
				cb.pure = false
			}
			cb.body = append(cb.body, func(fr *frame) {
				if target == nil {
					target = e.compiled(f)
				}
				av := make([]Value, len(args))
				for i, a := range args {
					av[i] = fr.get(a)
				}
				set(fr, e.callFn(fr, target, av, nil, nil))
			})
			return
		}
		mk = func(fr *frame) func(parent *frame) Value {
			av := make([]Value, len(args))
			for i, a := range args {
				av[i] = fr.get(a)
			}
			return func(parent *frame) Value { return e.callFn(fr, e.compiled(f), av, nil, parent) }
		}
	} else {
		fv := c.o(cc.Value)
		mk = func(fr *frame) func(parent *frame) Value {
			cl := fr.get(fv).(*Closure)
			if cl == nil {
				e.rtPanic("nil function call")
			}
			av := make([]Value, len(args))
			for i, a := range args {
				av[i] = fr.get(a)
			}
			return func(parent *frame) Value { return e.callClosure(fr, cl, av, parent) }
		}
	}
	cb.pure = false
	if mode == 0 {
		cb.body = append(cb.body, func(fr *frame) { set(fr, mk(fr)(nil)) })
		return
	}
	_ = cf
	cb.body = append(cb.body, func(fr *frame) {
		f := mk(fr)
		fr.defers = append(fr.defers, func() { f(fr) })
	})
}

// pureFn: small side-effect free leaf functions that may run speculatively.
func pureFn(f *ssa.Function) bool {
	n := f.String()
	if _, ok := pureNat[n]; ok {
		return true
	}
	p := pkgOf(f)
	if p == nil {
		return false
	}
	if f.Blocks == nil || len(f.Blocks) > 12 || f.Signature.Results().Len() != 1 || !mergeableT(f.Signature.Results().At(0).Type()) {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef, *ssa.Lookup, *ssa.Index, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Field:
			case *ssa.Call:
				if _, ok := y.Call.Value.(*ssa.Builtin); !ok {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

var pureNat = map[string]bool{"math.Float64bits": true, "math.Float64frombits": true, "math.Float32bits": true, "math.Float32frombits": true}

func (e *Eng) callClosure(fr *frame, cl *Closure, args []Value, parent *frame) Value {
	if cl.nat != nil {
		return cl.nat(e, args)
	}
	return e.callFn(fr, e.compiled(cl.fn), args, cl.env, parent)
}

// maxCallDepth is more calls than any value within the bounds needs.
const maxCallDepth = 100000

func (e *Eng) callFn(caller *frame, cf *cfn, args []Value, env []Value, parent *frame) Value {
	if cf.nat != nil {
		if e.spec > 0 && !pureNat[cf.name] {
			panic(specAbort{})
		}
		return cf.nat(e, caller, args)
	}
	e.depth++
	if e.depth > maxCallDepth {
		if e.spec > 0 {
			panic(specAbort{})
		}
		// the real stack ends too; the replay tells whether it does so here
		e.violation(&Violation{Label: "no-stack-overflow", Kind: "panic", Where: e.where(), Vec: e.vecOf(e.model, "no-stack-overflow")})
		panic(pathEnd{kind: endStop})
	}
	fr := &frame{cf: cf, regs: make([]Value, cf.nregs), caller: caller, deferParent: parent}
	copy(fr.regs, args)
	copy(fr.regs[cf.nparams:], env)
	e.cur = fr
	if e.prof != nil {
		e.prof[cf.name]++
	}
	var r Value
	if cf.hasDefer {
		r = e.execDefer(fr)
	} else {
		r = e.loop(fr, 0)
	}
	e.cur = caller
	e.depth--
	return r
}

func (e *Eng) catchTP(f func()) (tp *targetPanic) {
	d, cur := e.depth, e.cur
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(*targetPanic); ok {
				tp = t
				e.depth, e.cur = d, cur
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func (e *Eng) execDefer(fr *frame) Value {
	var res Value
	tp := e.catchTP(func() { res = e.loop(fr, 0) })
	if tp == nil {
		return res
	}
	fr.panicking = tp
	e.runDefers(fr)
	if fr.panicking != nil {
		panic(fr.panicking)
	}
	if fr.cf.recover >= 0 {
		return e.loop(fr, fr.cf.recover)
	}
	return e.zeroResults(fr.cf)
}

func (e *Eng) zeroResults(cf *cfn) Value {
	res := cf.fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return e.zero(res.At(0).Type())
	}
	return e.zero(res)
}

func (e *Eng) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		tp := e.catchTP(func() { d() })
		if tp != nil {
			fr.panicking = tp
		}
	}
}

func (e *Eng) loop(fr *frame, start int) Value {
	cf := fr.cf
	bi, pi := start, 0
	for {
		b := cf.blocks[bi]
		if len(b.phis) > 0 {
			if len(b.phis) == 1 {
				p := &b.phis[0]
				fr.regs[p.dst] = fr.get(p.in[pi])
			} else {
				var tmp [16]Value
				t := tmp[:0]
				for k := range b.phis {
					t = append(t, fr.get(b.phis[k].in[pi]))
				}
				for k := range b.phis {
					fr.regs[b.phis[k].dst] = t[k]
				}
			}
		}
		e.steps += int64(len(b.body)) + 1
		if e.steps > e.stepLimit {
			panic(pathEnd{kind: endSteps})
		}
		for _, f := range b.body {
			f(fr)
		}
		switch b.term {
		case tJump:
			bi, pi = b.succ[0], b.pidx[0]
		case tIf:
			cond := fr.term(b.cond)
			if cond.isConst() {
				if cond.val != 0 {
					bi, pi = b.succ[0], b.pidx[0]
				} else {
					bi, pi = b.succ[1], b.pidx[1]
				}
				continue
			}
			if b.merge != nil && e.mergeFails[b] < 4 {
				if ok, join, ret := e.tryMerge(fr, b, cond); ok {
					if join < 0 {
						return ret
					}
					// phis already set: run the join block body
					nb, np, r, done := e.afterMerge(fr, join)
					if done {
						return r
					}
					bi, pi = nb, np
					continue
				}
				e.mergeFails[b]++
			}
			if e.spec > 0 {
				panic(specAbort{})
			}
			if e.branchAt(cond, b.site) {
				bi, pi = b.succ[0], b.pidx[0]
			} else {
				bi, pi = b.succ[1], b.pidx[1]
			}
		case tReturn:
			switch len(b.rets) {
			case 0:
				return nil
			case 1:
				return fr.get(b.rets[0])
			}
			r := make(Tuple, len(b.rets))
			for i, o := range b.rets {
				r[i] = fr.get(o)
			}
			return r
		case tPanic:
			v := fr.get(b.pv).(Iface)
			panic(&targetPanic{v: v, msg: e.panicMsg(v), at: e.where()})
		default:
			panic(unsupported{"block without terminator in " + cf.name})
		}
	}
}

func (e *Eng) panicMsg(v Iface) string {
	if s, ok := v.v.(Str); ok {
		if c, ok := s.concrete(); ok {
			return c
		}
	}
	return fmt.Sprint("panic value of type ", v.t)
}

func (e *Eng) where() string {
	var s []string
	for f := e.cur; f != nil && len(s) < 6; f = f.caller {
		s = append(s, f.cf.name)
	}
	return strings.Join(s, " < ")
}

func (e *Eng) rtPanic(msg string) {
	if e.spec > 0 {
		panic(specAbort{})
	}
	// what recover returns is an error
	v := e.strErr(e.cur, e.strConst("runtime error: "+msg))
	panic(&targetPanic{v: v, msg: "runtime error: " + msg, rt: true, at: e.where()})
}

// afterMerge continues at block join whose phis have been assigned: executes the body
// and the terminator like loop, without phi processing.
func (e *Eng) afterMerge(fr *frame, join int) (nb, np int, ret Value, done bool) {
	b := fr.cf.blocks[join]
	e.steps += int64(len(b.body)) + 1
	if e.steps > e.stepLimit {
		panic(pathEnd{kind: endSteps})
	}
	for _, f := range b.body {
		f(fr)
	}
	switch b.term {
	case tJump:
		return b.succ[0], b.pidx[0], nil, false
	case tIf:
		cond := fr.term(b.cond)
		var v bool
		if cond.isConst() {
			v = cond.val != 0
		} else {
			if b.merge != nil && e.mergeFails[b] < 4 {
				if ok, j, r := e.tryMerge(fr, b, cond); ok {
					if j < 0 {
						return 0, 0, r, true
					}
					return e.afterMerge(fr, j)
				}
				e.mergeFails[b]++
			}
			if e.spec > 0 {
				panic(specAbort{})
			}
			v = e.branchAt(cond, b.site)
		}
		if v {
			return b.succ[0], b.pidx[0], nil, false
		}
		return b.succ[1], b.pidx[1], nil, false
	case tReturn:
		switch len(b.rets) {
		case 0:
			return 0, 0, nil, true
		case 1:
			return 0, 0, fr.get(b.rets[0]), true
		}
		r := make(Tuple, len(b.rets))
		for i, o := range b.rets {
			r[i] = fr.get(o)
		}
		return 0, 0, r, true
	case tPanic:
		v := fr.get(b.pv).(Iface)
		panic(&targetPanic{v: v, msg: e.panicMsg(v), at: e.where()})
	}
	panic(unsupported{"block without terminator"})
}

// tryMerge executes the region after block b under both outcomes of cond and
// merges the results with ite. Any side effect, fork or panic aborts it.
func (e *Eng) tryMerge(fr *frame, b *cblock, cond *Term) (ok bool, join int, ret Value) {
	if e.noMerge {
		return false, 0, nil
	}
	rg := b.merge
	cf := fr.cf
	e.spec++
	d, cur, al := e.depth, e.cur, e.allocs
	defer func() {
		e.spec--
		if r := recover(); r != nil {
			if _, isAbort := r.(specAbort); isAbort {
				e.depth, e.cur, e.allocs = d, cur, al
				ok = false
				return
			}
			panic(r)
		}
	}()
	type edge struct {
		g  *Term
		pi int
	}
	in := map[int][]edge{}
	addEdge := func(from *cblock, k int, g *Term) {
		if g.isFalse() {
			return
		}
		in[from.succ[k]] = append(in[from.succ[k]], edge{g, from.pidx[k]})
	}
	addEdge(b, 0, cond)
	addEdge(b, 1, e.c.Not(cond))
	mergeVal := func(es []edge, vals []Value, forbid bool) Value {
		r := vals[len(vals)-1]
		for i := len(vals) - 2; i >= 0; i-- {
			r = e.mergeVal(es[i].g, vals[i], r, forbid)
		}
		return r
	}
	setPhis := func(blk *cblock, es []edge) {
		var t []Value
		for k := range blk.phis {
			p := &blk.phis[k]
			vals := make([]Value, len(es))
			for i, ed := range es {
				vals[i] = fr.get(p.in[ed.pi])
			}
			t = append(t, mergeVal(es, vals, p.isInt))
		}
		for k := range blk.phis {
			fr.regs[blk.phis[k].dst] = t[k]
		}
	}
	var retE []edge
	var retV []Value
	for _, x := range rg.order {
		es := in[x]
		if len(es) == 0 {
			continue
		}
		blk := cf.blocks[x]
		setPhis(blk, es)
		g := e.c.F
		for _, ed := range es {
			g = e.c.Or(g, ed.g)
		}
		e.steps += int64(len(blk.body)) + 1
		for _, f := range blk.body {
			f(fr)
		}
		switch blk.term {
		case tJump:
			addEdge(blk, 0, g)
		case tIf:
			cd := fr.term(blk.cond)
			addEdge(blk, 0, e.c.And(g, cd))
			addEdge(blk, 1, e.c.And(g, e.c.Not(cd)))
		case tReturn:
			var v Value
			if len(blk.rets) == 1 {
				v = fr.get(blk.rets[0])
			} else {
				tu := make(Tuple, len(blk.rets))
				for i, o := range blk.rets {
					tu[i] = fr.get(o)
				}
				v = tu
			}
			retE = append(retE, edge{g, 0})
			retV = append(retV, v)
		}
	}
	if rg.join >= 0 {
		es := in[rg.join]
		if len(es) == 0 {
			panic(specAbort{})
		}
		setPhis(cf.blocks[rg.join], es)
		e.nMerged++
		return true, rg.join, nil
	}
	if len(retV) == 0 {
		panic(specAbort{})
	}
	e.nMerged++
	return true, -1, mergeVal(retE, retV, false)
}

func (e *Eng) mergeVal(g *Term, a, b Value, forbid bool) Value {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			panic(specAbort{})
		}
		if x == y {
			return x
		}
		if forbid {
			panic(specAbort{})
		}
		return e.c.Ite(g, x, y)
	case Str:
		y, ok := b.(Str)
		if !ok || len(x.b) != len(y.b) {
			panic(specAbort{})
		}
		r := make([]*Term, len(x.b))
		for i := range r {
			r[i] = e.c.Ite(g, x.b[i], y.b[i])
		}
		return Str{r}
	case Ptr:
		if y, ok := b.(Ptr); ok && x == y {
			return x
		}
	case Tuple:
		y, ok := b.(Tuple)
		if ok && len(x) == len(y) {
			r := make(Tuple, len(x))
			for i := range x {
				r[i] = e.mergeVal(g, x[i], y[i], forbid)
			}
			return r
		}
	case Slice:
		if y, ok := b.(Slice); ok && x == y {
			return x
		}
	case Iface:
		if y, ok := b.(Iface); ok && x.t == y.t {
			if x.t == nil {
				return x
			}
			return Iface{x.t, e.mergeVal(g, x.v, y.v, forbid)}
		}
	case *Map:
		if y, ok := b.(*Map); ok && x == y {
			return x
		}
	case *Closure:
		if y, ok := b.(*Closure); ok && x == y {
			return x
		}
	case nil:
		if b == nil {
			return nil
		}
	}
	panic(specAbort{})
}

// ---- operators

func (e *Eng) binop(op token.Token, tx, ty types.Type) func(a, b Value) Value {
	c := e.c
	switch op {
	case token.EQL:
		if isFloatT(tx) {
			return func(a, b Value) Value { return c.FCmp(OFEq, a.(*Term), b.(*Term)) }
		}
		return func(a, b Value) Value { return e.eqTerm(a, b) }
	case token.NEQ:
		if isFloatT(tx) {
			return func(a, b Value) Value { return c.Not(c.FCmp(OFEq, a.(*Term), b.(*Term))) }
		}
		return func(a, b Value) Value { return c.Not(e.eqTerm(a, b)) }
	}
	if isStringT(tx) {
		switch op {
		case token.ADD:
			return func(a, b Value) Value {
				x, y := a.(Str), b.(Str)
				if len(x.b) == 0 {
					return y
				}
				if len(y.b) == 0 {
					return x
				}
				r := make([]*Term, 0, len(x.b)+len(y.b))
				r = append(append(r, x.b...), y.b...)
				e.noteAlloc(len(r))
				return Str{r}
			}
		case token.LSS:
			return func(a, b Value) Value { return e.ltStr(a.(Str), b.(Str)) }
		case token.GTR:
			return func(a, b Value) Value { return e.ltStr(b.(Str), a.(Str)) }
		case token.LEQ:
			return func(a, b Value) Value { return c.Not(e.ltStr(b.(Str), a.(Str))) }
		case token.GEQ:
			return func(a, b Value) Value { return c.Not(e.ltStr(a.(Str), b.(Str))) }
		}
	}
	bt, isB := tx.Underlying().(*types.Basic)
	if !isB {
		return func(a, b Value) Value { panic(unsupported{"binop " + op.String() + " on " + tx.String()}) }
	}
	if bt.Info()&types.IsFloat != 0 {
		switch op {
		case token.ADD:
			return func(a, b Value) Value { return c.FBin(OFAdd, a.(*Term), b.(*Term)) }
		case token.SUB:
			return func(a, b Value) Value { return c.FBin(OFSub, a.(*Term), b.(*Term)) }
		case token.MUL:
			return func(a, b Value) Value { return e.fmul(a.(*Term), b.(*Term)) }
		case token.QUO:
			return func(a, b Value) Value { return c.FBin(OFDiv, a.(*Term), b.(*Term)) }
		case token.LSS:
			return func(a, b Value) Value { return c.FCmp(OFLt, a.(*Term), b.(*Term)) }
		case token.LEQ:
			return func(a, b Value) Value { return c.FCmp(OFLe, a.(*Term), b.(*Term)) }
		case token.GTR:
			return func(a, b Value) Value { return c.FCmp(OFLt, b.(*Term), a.(*Term)) }
		case token.GEQ:
			return func(a, b Value) Value { return c.FCmp(OFLe, b.(*Term), a.(*Term)) }
		}
	}
	if bt.Info()&types.IsComplex != 0 {
		return func(a, b Value) Value { panic(unsupported{"complex"}) }
	}
	_, sg, _ := basicWidth(bt)
	switch op {
	case token.ADD:
		return func(a, b Value) Value { return c.Add(a.(*Term), b.(*Term)) }
	case token.SUB:
		return func(a, b Value) Value { return c.Sub(a.(*Term), b.(*Term)) }
	case token.MUL:
		return func(a, b Value) Value { return c.Mul(a.(*Term), b.(*Term)) }
	case token.QUO, token.REM:
		o := OUDiv
		switch {
		case op == token.QUO && sg:
			o = OSDiv
		case op == token.REM && sg:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return func(a, b Value) Value {
			x, y := a.(*Term), b.(*Term)
			z := c.Eq(y, c.Const(y.w, 0))
			if !z.isFalse() && e.branch(z) {
				e.rtPanic("integer divide by zero")
			}
			return c.divop(o, x, y)
		}
	case token.AND:
		return func(a, b Value) Value { return c.bitop(OAnd, a.(*Term), b.(*Term)) }
	case token.OR:
		return func(a, b Value) Value { return c.bitop(OOr, a.(*Term), b.(*Term)) }
	case token.XOR:
		return func(a, b Value) Value { return c.bitop(OXor, a.(*Term), b.(*Term)) }
	case token.AND_NOT:
		return func(a, b Value) Value { return c.bitop(OAnd, a.(*Term), c.BVNot(b.(*Term))) }
	case token.SHL, token.SHR:
		_, ysg := widthOf(ty)
		return func(a, b Value) Value {
			x, y := a.(*Term), b.(*Term)
			if ysg {
				neg := c.Slt(y, c.Const(y.w, 0))
				if !neg.isFalse() && e.branch(neg) {
					e.rtPanic("negative shift amount")
				}
			}
			// shift amounts beyond the width
			if y.w > x.w {
				if y.umax() >= uint64(x.w) {
					big := c.Not(c.Ult(y, c.Const(y.w, uint64(x.w))))
					yy := c.Ite(big, c.Const(x.w, min(uint64(x.w), mask(x.w))), c.Extract(y, x.w-1, 0))
					if uint64(x.w) > mask(x.w) {
						panic(unsupported{"shift width"})
					}
					y = yy
				} else {
					y = c.Extract(y, x.w-1, 0)
				}
			} else if y.w < x.w {
				y = c.ZExt(y, x.w)
			}
			if op == token.SHL {
				return c.Shl(x, y)
			}
			if sg {
				return c.AShr(x, y)
			}
			return c.LShr(x, y)
		}
	case token.LSS:
		if sg {
			return func(a, b Value) Value { return c.Slt(a.(*Term), b.(*Term)) }
		}
		return func(a, b Value) Value { return c.Ult(a.(*Term), b.(*Term)) }
	case token.GTR:
		if sg {
			return func(a, b Value) Value { return c.Slt(b.(*Term), a.(*Term)) }
		}
		return func(a, b Value) Value { return c.Ult(b.(*Term), a.(*Term)) }
	case token.LEQ:
		if sg {
			return func(a, b Value) Value { return c.Sle(a.(*Term), b.(*Term)) }
		}
		return func(a, b Value) Value { return c.Ule(a.(*Term), b.(*Term)) }
	case token.GEQ:
		if sg {
			return func(a, b Value) Value { return c.Sle(b.(*Term), a.(*Term)) }
		}
		return func(a, b Value) Value { return c.Ule(b.(*Term), a.(*Term)) }
	case token.LAND:
		return func(a, b Value) Value { return c.And(a.(*Term), b.(*Term)) }
	case token.LOR:
		return func(a, b Value) Value { return c.Or(a.(*Term), b.(*Term)) }
	}
	return func(a, b Value) Value { panic(unsupported{"binop " + op.String()}) }
}

// fmul: multiplication of an exactly converted small integer by an integral constant stays an
// integer conversion when the product is below 2^53 for every value.
func (e *Eng) fmul(a, b *Term) *Term {
	c := e.c
	if a.isConst() && !b.isConst() {
		a, b = b, a
	}
	if b.isConst() && (a.op == OI2F || a.op == OU2F) {
		f := math.Float64frombits(b.val)
		x := a.args[0]
		if f == math.Trunc(f) && f > 0 && f < 1<<52 && x.umax() < 1<<52 {
			if hi := float64(x.umax()) * f; hi < 1<<53 {
				return c.I2F(c.Mul(x, c.Const(64, uint64(f))), true)
			}
		}
	}
	return c.FBin(OFMul, a, b)
}

func (e *Eng) convert(from, to types.Type) (func(v Value) Value, bool) {
	c := e.c
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	bad := func(v Value) Value { panic(unsupported{"convert " + from.String() + " to " + to.String()}) }
	if fok && tok {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return func(v Value) Value { return v }, true
		case ti&types.IsString != 0 && fi&types.IsInteger != 0:
			_, sg, _ := basicWidth(fb)
			return func(v Value) Value {
				t := c.Resize(v.(*Term), 64, sg)
				if e.branch(c.Ult(t, c.Const(64, 0x80))) {
					return Str{[]*Term{c.Extract(t, 7, 0)}}
				}
				r := e.concInt(t)
				return e.strConst(string(rune(r)))
			}, false
		case fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer:
			return func(v Value) Value { return v }, false
		}
		fw, fs, ok1 := basicWidth(fb)
		tw, ts, ok2 := basicWidth(tb)
		if !ok1 || !ok2 {
			return bad, false
		}
		ff, tf := fi&types.IsFloat != 0, ti&types.IsFloat != 0
		switch {
		case !ff && !tf:
			return func(v Value) Value { return c.Resize(v.(*Term), tw, fs) }, true
		case !ff && tf:
			if tw == 32 {
				return func(v Value) Value {
					t := v.(*Term)
					if t.umax() < 1<<24 && (!fs || t.umax() < 1<<(fw-1)) || fw <= 16 {
						return c.FConv(c.I2F(t, fs), 32)
					}
					if t.isConst() {
						if fs {
							return c.Const(32, uint64(math.Float32bits(float32(sx(t.val, fw)))))
						}
						return c.Const(32, uint64(math.Float32bits(float32(t.val))))
					}
					panic(unsupported{"int to float32"})
				}, true
			}
			return func(v Value) Value { return c.I2F(v.(*Term), fs) }, true
		case ff && !tf:
			return func(v Value) Value {
				t := c.FConv(v.(*Term), 64)
				// exact integer values convert back without loss
				if (t.op == OI2F || t.op == OU2F) && t.args[0].umax() < 1<<53 {
					return c.Resize(t.args[0], tw, false)
				}
				if t.op == OI2F && tw == 64 && ts {
					// a signed integer of at most 53 bits on this path
					x := c.Resize(t.args[0], 64, true)
					lim := c.Const(64, 1<<53)
					out := c.Not(c.Ult(c.Add(x, lim), c.Const(64, 1<<54+1)))
					if r, _ := e.feasible(out); r == Unsat {
						return x
					}
				}
				r := c.F2I(t, ts || tw < 64)
				return c.Resize(r, tw, ts)
			}, true
		default:
			return func(v Value) Value { return c.FConv(v.(*Term), tw) }, true
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok {
			eb, _ := sl.Elem().Underlying().(*types.Basic)
			if eb != nil && eb.Kind() == types.Uint8 {
				return func(v Value) Value {
					s := v.(Str)
					e.noteAlloc(len(s.b))
					r := e.bytesSlice(s.b)
					if r.a != nil {
						r.a.elem = sl.Elem()
					}
					return r
				}, false
			}
			if eb != nil && eb.Kind() == types.Int32 {
				return func(v Value) Value {
					s := v.(Str)
					var rs []*Term
					for i := 0; i < len(s.b); {
						if e.branch(c.Ult(s.b[i], c.Const(8, 0x80))) {
							rs = append(rs, c.ZExt(s.b[i], 32))
							i++
							continue
						}
						r, n := e.decodeRune(e.cur, Str{s.b[i:]})
						rs = append(rs, r)
						i += n
					}
					a := newArr(e, sl.Elem(), len(rs))
					for i, r := range rs {
						*a.cell(e, i) = r
					}
					return Slice{a: a, n: len(rs), c: len(rs)}
				}, false
			}
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if sl, ok := fu.(*types.Slice); ok {
			eb, _ := sl.Elem().Underlying().(*types.Basic)
			if eb != nil && eb.Kind() == types.Uint8 {
				return func(v Value) Value {
					b := e.sliceBytes(v.(Slice))
					e.noteAlloc(len(b))
					return Str{b}
				}, false
			}
			if eb != nil && eb.Kind() == types.Int32 {
				return func(v Value) Value {
					s := e.concSlice(v.(Slice))
					var r []*Term
					for i := 0; i < s.n; i++ {
						t := s.a.get(e, s.off+i).(*Term)
						if e.branch(c.Ult(t, c.Const(32, 0x80))) {
							r = append(r, c.Extract(t, 7, 0))
							continue
						}
						k := rune(int32(e.concInt(t)))
						r = append(r, e.strConst(string(k)).b...)
					}
					return Str{r}
				}, false
			}
		}
	}
	if _, ok := fu.(*types.Pointer); ok {
		if tok && tb.Kind() == types.UnsafePointer {
			return func(v Value) Value { return v }, false
		}
		if _, ok := tu.(*types.Pointer); ok {
			return func(v Value) Value { return v }, false
		}
	}
	if fok && fb.Kind() == types.UnsafePointer {
		return func(v Value) Value { return v }, false
	}
	return bad, false
}

// ---- builtins

type dataPtr struct{ s Slice }
type strData struct{ s Str }

func (e *Eng) builtin(name string, cc *ssa.CallCommon, args []opnd) func(fr *frame) Value {
	c := e.c
	switch name {
	case "len":
		return func(fr *frame) Value {
			switch x := fr.get(args[0]).(type) {
			case Str:
				return e.int(len(x.b))
			case Slice:
				return x.lenTerm(e)
			case *Map:
				if x == nil {
					return e.int(0)
				}
				return e.int(len(x.ents))
			case *Arr:
				return e.int(x.n)
			case Ptr:
				return e.int((*x).(*Arr).n)
			}
			panic(unsupported{"len"})
		}
	case "cap":
		return func(fr *frame) Value {
			switch x := fr.get(args[0]).(type) {
			case Slice:
				return x.capTerm(e)
			case *Arr:
				return e.int(x.n)
			case Ptr:
				return e.int((*x).(*Arr).n)
			}
			panic(unsupported{"cap"})
		}
	case "append":
		if isStringT(cc.Args[1].Type()) {
			return func(fr *frame) Value {
				return e.appendTo(fr.get(args[0]).(Slice), cc.Args[0].Type(), len(fr.get(args[1]).(Str).b), func(i int) Value { return fr.get(args[1]).(Str).b[i] }, nil)
			}
		}
		return func(fr *frame) Value {
			src := e.concSlice(fr.get(args[1]).(Slice))
			return e.appendTo(fr.get(args[0]).(Slice), cc.Args[0].Type(), src.n, func(i int) Value { return src.a.get(e, src.off+i) }, &src)
		}
	case "copy":
		return func(fr *frame) Value {
			if e.spec > 0 {
				panic(specAbort{})
			}
			d := fr.get(args[0]).(Slice)
			switch s := fr.get(args[1]).(type) {
			case Str:
				return e.copyTo(d, len(s.b), nil, func(i int) Value { return s.b[i] }, nil)
			case Slice:
				return e.copyTo(d, s.n, s.sn, nil, &s)
			}
			panic(unsupported{"copy"})
		}
	case "delete":
		return func(fr *frame) Value {
			m := fr.get(args[0]).(*Map)
			if m != nil {
				e.mapDelete(m, fr.get(args[1]))
			}
			return nil
		}
	case "clear":
		return func(fr *frame) Value {
			switch x := fr.get(args[0]).(type) {
			case *Map:
				if x != nil {
					e.mapDirty(x)
					x.ents = nil
					x.reindex()
				}
			case Slice:
				x = e.concSlice(x)
				for i := 0; i < x.n; i++ {
					e.storeTo(x.a.cell(e, x.off+i), e.zero(x.a.elem))
				}
			}
			return nil
		}
	case "min", "max":
		t := cc.Args[0].Type()
		lt := e.binop(token.LSS, t, t)
		return func(fr *frame) Value {
			r := fr.get(args[0])
			for _, a := range args[1:] {
				y := fr.get(a)
				var g *Term
				if name == "min" {
					g = lt(y, r).(*Term)
				} else {
					g = lt(r, y).(*Term)
				}
				if g.isConst() {
					if g.val != 0 {
						r = y
					}
				} else if x, ok := r.(*Term); ok && e.spec > 0 {
					r = c.Ite(g, y.(*Term), x)
				} else if e.branch(g) {
					r = y
				}
			}
			return r
		}
	case "print", "println":
		return func(fr *frame) Value { return nil }
	case "recover":
		return func(fr *frame) Value {
			p := fr.deferParent
			if p == nil || p.panicking == nil {
				return Iface{}
			}
			v := p.panicking.v
			p.panicking = nil
			return v
		}
	case "ssa:wrapnilchk":
		return func(fr *frame) Value {
			v := fr.get(args[0])
			if p, ok := v.(Ptr); ok && p == nil {
				e.rtPanic("nil pointer dereference (wrapper)")
			}
			return v
		}
	case "SliceData":
		return func(fr *frame) Value { return dataPtr{fr.get(args[0]).(Slice)} }
	case "StringData":
		return func(fr *frame) Value { return strData{fr.get(args[0]).(Str)} }
	case "String":
		return func(fr *frame) Value {
			n := e.concInt(fr.term(args[1]))
			switch d := fr.get(args[0]).(type) {
			case dataPtr:
				s := d.s
				s.sn, s.n = nil, n
				return Str{e.sliceBytes(s)}
			case strData:
				return Str{d.s.b[:n]}
			}
			if n == 0 {
				return Str{}
			}
			panic(unsupported{"unsafe.String"})
		}
	case "Slice":
		return func(fr *frame) Value {
			n := e.concInt(c.Resize(fr.term(args[1]), 64, true))
			switch d := fr.get(args[0]).(type) {
			case strData:
				return e.bytesSlice(d.s.b[:n])
			case dataPtr:
				s := d.s
				s.sn, s.n, s.c = nil, n, n
				return s
			}
			panic(unsupported{"unsafe.Slice"})
		}
	}
	return func(fr *frame) Value { panic(unsupported{"builtin " + name}) }
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int) int {
	if n <= 32768 {
		for _, s := range sizeClasses {
			if s >= n {
				return s
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(old, need, es int) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if es == 0 {
		return need
	}
	return roundSize(nc*es) / es
}

func (e *Eng) appendTo(s Slice, st types.Type, k int, get func(i int) Value, src *Slice) Value {
	if e.spec > 0 {
		panic(specAbort{})
	}
	s = e.concSlice(s)
	et := st.Underlying().(*types.Slice).Elem()
	if k == 0 {
		return s
	}
	if s.n+k > s.c {
		es := e.sizeof(et)
		nc := growCap(s.c, s.n+k, es)
		e.noteAlloc(nc * es)
		na := newArr(e, et, nc)
		for i := 0; i < s.n; i++ {
			e.rawSet(na, i, s.a.get(e, s.off+i))
		}
		if src != nil && src.a != nil && src.off == 0 && s.n == 0 && src.a.untouched() {
			// appending an all-zero fresh slice: nothing to copy
			return Slice{a: na, n: k, c: nc}
		}
		for i := 0; i < k; i++ {
			e.rawSet(na, s.n+i, get(i))
		}
		return Slice{a: na, n: s.n + k, c: nc}
	}
	vals := make([]Value, k)
	for i := range vals {
		vals[i] = get(i)
	}
	for i := range vals {
		e.storeTo(s.a.cell(e, s.off+s.n+i), e.copyVal(vals[i]))
	}
	return Slice{a: s.a, off: s.off, n: s.n + k, c: s.c}
}

func (a *Arr) untouched() bool {
	for _, ch := range a.chunks {
		if ch != nil {
			return false
		}
	}
	return len(a.cm) == 0
}

// rawSet initialises a cell of an array created on this path (no trail entry).
func (e *Eng) rawSet(a *Arr, i int, v Value) {
	*a.cell(e, i) = e.copyVal(v)
}

func (e *Eng) copyTo(d Slice, sn int, ssn *Term, get func(i int) Value, src *Slice) Value {
	// lengths
	if d.sn != nil || ssn != nil {
		var dl, sl *Term = d.lenTerm(e), e.int(sn)
		if ssn != nil {
			sl = ssn
		}
		if e.branch(e.c.Ult(sl, dl)) { // source shorter
			n := e.concInt(sl)
			sn = n
			if src != nil {
				src.n, src.sn = n, nil
			}
			d.n = n
			d.sn = nil
		} else {
			n := e.concInt(dl)
			d.n = n
			d.sn = nil
			sn = n
			if src != nil {
				src.n, src.sn = n, nil
			}
		}
	}
	n := min(d.n, sn)
	if n == 0 {
		return e.int(0)
	}
	if get == nil {
		get = func(i int) Value { return src.a.get(e, src.off+i) }
	}
	if src != nil && src.a == d.a && src.off < d.off { // overlapping: copy backwards
		for i := n - 1; i >= 0; i-- {
			e.storeTo(d.a.cell(e, d.off+i), get(i))
		}
		return e.int(n)
	}
	for i := 0; i < n; i++ {
		e.storeTo(d.a.cell(e, d.off+i), get(i))
	}
	return e.int(n)
}

// largeMap is the number of entries from which on a map is iterated over in two
// orders only, that of insertion and its reverse.
const largeMap = 7

// mapPick is the index of the next entry of an iteration.
func (e *Eng) mapPick(x *mapIter) int {
	if x.dir < 0 && len(x.left) >= largeMap {
		x.dir = e.choose(2, "maporder")
	}
	switch x.dir {
	case 0:
		return 0
	case 1:
		return len(x.left) - 1
	}
	return e.choose(len(x.left), "maporder")
}
