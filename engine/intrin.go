package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const vpkg = "verif/harness/v"

var intrinsics map[string]natFn

var reflTypeMarker types.Type = types.NewNamed(types.NewTypeName(0, nil, "reflectType", nil), types.NewStruct(nil, nil), nil)

func (e *Eng) goInt(v Value) int { return e.concInt(v.(*Term)) }

func (e *Eng) goStr(v Value) string {
	s, ok := v.(Str).concrete()
	if !ok {
		panic(unsupported{"symbolic string where a constant is needed"})
	}
	return s
}

func (e *Eng) noSpec() {
	if e.spec > 0 {
		panic(specAbort{})
	}
}

func (e *Eng) strErr(fr *frame, msg Str) Value {
	f := e.L.fn("errors", "New")
	return e.callFn(fr, e.compiled(f), []Value{msg}, nil, nil)
}

func (e *Eng) idxByte(b []*Term, c *Term) Value {
	for i, x := range b {
		if e.branch(e.c.Eq(x, c)) {
			return e.int(i)
		}
	}
	return e.c.Const(64, ^uint64(0))
}

func (e *Eng) lastIdxByte(b []*Term, c *Term) Value {
	for i := len(b) - 1; i >= 0; i-- {
		if e.branch(e.c.Eq(b[i], c)) {
			return e.int(i)
		}
	}
	return e.c.Const(64, ^uint64(0))
}

func (e *Eng) index(s, sub []*Term) Value {
	for i := 0; i+len(sub) <= len(s); i++ {
		if e.branch(e.eqStr(Str{s[i : i+len(sub)]}, Str{sub})) {
			return e.int(i)
		}
	}
	return e.c.Const(64, ^uint64(0))
}

func (e *Eng) count(s []*Term, c *Term) Value {
	n := 0
	for _, x := range s {
		if e.branch(e.c.Eq(x, c)) {
			n++
		}
	}
	return e.int(n)
}

func (e *Eng) compare(a, b []*Term) Value {
	x, y := Str{a}, Str{b}
	if e.branch(e.eqStr(x, y)) {
		return e.int(0)
	}
	if e.branch(e.ltStr(x, y)) {
		return e.c.Const(64, ^uint64(0))
	}
	return e.int(1)
}

// asciiMap applies f per byte when all bytes are ASCII on this path; otherwise nil.
func (e *Eng) asciiMap(s Str, lo, hi byte, delta int) (Str, bool) {
	c := e.c
	conds := []*Term{}
	for _, b := range s.b {
		conds = append(conds, c.Ult(b, c.Const(8, 0x80)))
	}
	if !e.branch(c.And(conds...)) {
		return Str{}, false
	}
	r := make([]*Term, len(s.b))
	for i, b := range s.b {
		in := c.And(c.Ule(c.Const(8, uint64(lo)), b), c.Ule(b, c.Const(8, uint64(hi))))
		r[i] = c.Ite(in, c.Add(b, c.Const(8, uint64(delta))), b)
	}
	return Str{r}, true
}

func (e *Eng) foldCase(fr *frame, s Str, upper bool, call func() Value) Value {
	lo, hi, d := byte('A'), byte('Z'), 32
	if upper {
		lo, hi, d = 'a', 'z', 256-32
	}
	if r, ok := e.asciiMap(s, lo, hi, d); ok {
		return r
	}
	return call()
}

func (e *Eng) catch(fr *frame, cl *Closure) bool {
	e.noSpec()
	tp := e.catchTP(func() { e.callClosure(fr, cl, nil, nil) })
	return tp != nil
}

// wrap makes a natFn that runs the interpreted body of the intercepted function.
func (e *Eng) body(fn *ssa.Function) *cfn {
	if cf, ok := e.bodies[fn]; ok {
		return cf
	}
	cf := &cfn{fn: fn, name: fn.String(), recover: -1}
	e.bodies[fn] = cf
	e.compile(cf)
	return cf
}

func reg(name string, f natFn) { intrinsics[name] = f }

func init() {
	intrinsics = map[string]natFn{}
	// ---- harness package
	V := func(n string, f natFn) { reg(vpkg+"."+n, f) }
	for n, w := range map[string]uint8{"U8": 8, "U16": 16, "U32": 32, "U64": 64, "I64": 64, "I32": 32, "F64": 64, "Bool": 1} {
		w, n := w, n
		V(n, func(e *Eng, fr *frame, a []Value) Value {
			e.noSpec()
			t := e.newVar(w)
			if n == "Bool" {
				return e.c.Eq(t, e.c.Const(1, 1))
			}
			return t
		})
	}
	V("Int", func(e *Eng, fr *frame, a []Value) Value {
		e.noSpec()
		lo, hi := e.goInt(a[0]), e.goInt(a[1])
		if lo > hi {
			panic(pathEnd{kind: endInfeasible})
		}
		w := uint8(1)
		for uint64(hi-lo) > mask(w) {
			w++
		}
		t := e.newVar(w)
		e.assume(e.c.Ule(t, e.c.Const(w, uint64(hi-lo))))
		return e.c.Add(e.c.ZExt(t, 64), e.c.Const(64, uint64(lo)))
	})
	V("Bytes", func(e *Eng, fr *frame, a []Value) Value {
		e.noSpec()
		n := e.goInt(a[0])
		b := make([]*Term, n)
		for i := range b {
			b[i] = e.newVar(8)
		}
		return e.bytesSlice(b)
	})
	V("Str", func(e *Eng, fr *frame, a []Value) Value {
		e.noSpec()
		n := e.goInt(a[0])
		b := make([]*Term, n)
		for i := range b {
			b[i] = e.newVar(8)
		}
		return Str{b}
	})
	V("Choose", func(e *Eng, fr *frame, a []Value) Value {
		n := e.goInt(a[0])
		k := e.choose(n, "choose")
		e.inputs = append(e.inputs, Input{C: uint64(k), K: "choose"})
		return e.int(k)
	})
	V("Conc", func(e *Eng, fr *frame, a []Value) Value { return e.int(e.concInt(a[0].(*Term))) })
	V("Assume", func(e *Eng, fr *frame, a []Value) Value { e.noSpec(); e.assume(a[0].(*Term)); return nil })
	V("Assert", func(e *Eng, fr *frame, a []Value) Value {
		e.noSpec()
		e.assert(a[0].(*Term), e.goStr(a[1]), "", nil)
		return nil
	})
	V("AssertKnown", func(e *Eng, fr *frame, a []Value) Value {
		e.noSpec()
		e.assert(a[1].(*Term), e.goStr(a[3]), e.goStr(a[0]), a[2].(*Term))
		return nil
	})
	V("Cover", func(e *Eng, fr *frame, a []Value) Value { e.noSpec(); e.covers[e.goStr(a[0])] = true; return nil })
	V("Param", func(e *Eng, fr *frame, a []Value) Value {
		if v, ok := e.R.params[e.goStr(a[0])]; ok {
			return e.int(v)
		}
		return a[1]
	})
	V("Catch", func(e *Eng, fr *frame, a []Value) Value { return e.c.Bool(e.catch(fr, a[0].(*Closure))) })
	V("And", func(e *Eng, fr *frame, a []Value) Value {
		s := e.concSlice(a[0].(Slice))
		r := e.c.T
		for i := 0; i < s.n; i++ {
			r = e.c.And(r, s.a.get(e, s.off+i).(*Term))
		}
		return r
	})
	V("Or", func(e *Eng, fr *frame, a []Value) Value {
		s := e.concSlice(a[0].(Slice))
		r := e.c.F
		for i := 0; i < s.n; i++ {
			r = e.c.Or(r, s.a.get(e, s.off+i).(*Term))
		}
		return r
	})
	V("FieldOf", func(e *Eng, fr *frame, a []Value) Value {
		x, like := a[0].(Iface), a[1].(Iface)
		if x.t == nil || like.t == nil {
			return Iface{}
		}
		st, ok := x.t.Underlying().(*types.Struct)
		if !ok {
			return Iface{}
		}
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), like.t) {
				return Iface{like.t, x.v.(Structure)[i]}
			}
		}
		return Iface{}
	})
	V("Implies", func(e *Eng, fr *frame, a []Value) Value { return e.c.Or(e.c.Not(a[0].(*Term)), a[1].(*Term)) })
	V("Ite", func(e *Eng, fr *frame, a []Value) Value { return e.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)) })
	V("EqB", func(e *Eng, fr *frame, a []Value) Value {
		return e.eqStr(Str{e.sliceBytes(a[0].(Slice))}, Str{e.sliceBytes(a[1].(Slice))})
	})
	V("EqS", func(e *Eng, fr *frame, a []Value) Value { return e.eqStr(a[0].(Str), a[1].(Str)) })
	V("ObsB", func(e *Eng, fr *frame, a []Value) Value {
		e.noSpec()
		e.obs = append(e.obs, Observation{e.goStr(a[0]), e.sliceBytes(a[1].(Slice))})
		return nil
	})
	V("ObsI", func(e *Eng, fr *frame, a []Value) Value {
		e.noSpec()
		e.obs = append(e.obs, Observation{e.goStr(a[0]), []*Term{a[1].(*Term)}})
		return nil
	})
	V("AllocLimit", func(e *Eng, fr *frame, a []Value) Value {
		e.allocOn, e.allocs, e.allocLim = true, 0, int64(e.goInt(a[0]))
		return nil
	})
	V("AllocOff", func(e *Eng, fr *frame, a []Value) Value {
		if e.allocOn && e.allocs > e.allocLim {
			e.allocViolation(e.model)
		}
		e.allocOn = false
		return nil
	})
	V("Skip", func(e *Eng, fr *frame, a []Value) Value { panic(pathEnd{kind: endInfeasible}) })

	// ---- internal/bytealg
	B := func(n string, f natFn) { reg("internal/bytealg."+n, f) }
	sb := func(e *Eng, v Value) []*Term {
		switch x := v.(type) {
		case Str:
			return x.b
		case Slice:
			return e.sliceBytes(x)
		}
		panic(unsupported{"bytes"})
	}
	for _, n := range []string{"IndexByte", "IndexByteString"} {
		B(n, func(e *Eng, fr *frame, a []Value) Value { return e.idxByte(sb(e, a[0]), a[1].(*Term)) })
	}
	for _, n := range []string{"LastIndexByte", "LastIndexByteString"} {
		B(n, func(e *Eng, fr *frame, a []Value) Value { return e.lastIdxByte(sb(e, a[0]), a[1].(*Term)) })
	}
	for _, n := range []string{"Count", "CountString"} {
		B(n, func(e *Eng, fr *frame, a []Value) Value { return e.count(sb(e, a[0]), a[1].(*Term)) })
	}
	for _, n := range []string{"Index", "IndexString"} {
		B(n, func(e *Eng, fr *frame, a []Value) Value { return e.index(sb(e, a[0]), sb(e, a[1])) })
	}
	for _, n := range []string{"Compare", "CompareString"} {
		B(n, func(e *Eng, fr *frame, a []Value) Value { return e.compare(sb(e, a[0]), sb(e, a[1])) })
	}
	B("Equal", func(e *Eng, fr *frame, a []Value) Value { return e.eqStr(Str{sb(e, a[0])}, Str{sb(e, a[1])}) })
	B("MakeNoZero", func(e *Eng, fr *frame, a []Value) Value {
		return e.makeSlice(types.Typ[types.Byte], a[0].(*Term), a[0].(*Term))
	})
	for _, p := range []string{"bytes", "strings"} {
		p := p
		reg(p+".Index", func(e *Eng, fr *frame, a []Value) Value { return e.index(sb(e, a[0]), sb(e, a[1])) })
		reg(p+".IndexByte", func(e *Eng, fr *frame, a []Value) Value { return e.idxByte(sb(e, a[0]), a[1].(*Term)) })
		reg(p+".Contains", func(e *Eng, fr *frame, a []Value) Value {
			s, sub := sb(e, a[0]), sb(e, a[1])
			r := e.c.F
			for i := 0; i+len(sub) <= len(s); i++ {
				r = e.c.Or(r, e.eqStr(Str{s[i : i+len(sub)]}, Str{sub}))
			}
			return r
		})
		reg(p+".HasPrefix", func(e *Eng, fr *frame, a []Value) Value {
			s, q := sb(e, a[0]), sb(e, a[1])
			if len(s) < len(q) {
				return e.c.F
			}
			return e.eqStr(Str{s[:len(q)]}, Str{q})
		})
		reg(p+".HasSuffix", func(e *Eng, fr *frame, a []Value) Value {
			s, q := sb(e, a[0]), sb(e, a[1])
			if len(s) < len(q) {
				return e.c.F
			}
			return e.eqStr(Str{s[len(s)-len(q):]}, Str{q})
		})
	}
	reg("bytes.Equal", func(e *Eng, fr *frame, a []Value) Value { return e.eqStr(Str{sb(e, a[0])}, Str{sb(e, a[1])}) })
	reg("internal/stringslite.Clone", func(e *Eng, fr *frame, a []Value) Value { return a[0] })
	reg("strings.Clone", func(e *Eng, fr *frame, a []Value) Value { return a[0] })
	reg("strings.ToLower", func(e *Eng, fr *frame, a []Value) Value {
		e.noSpec()
		return e.foldCase(fr, a[0].(Str), false, func() Value { return e.callFn(fr, e.body(e.L.fn("strings", "ToLower")), a, nil, nil) })
	})
	reg("strings.ToUpper", func(e *Eng, fr *frame, a []Value) Value {
		e.noSpec()
		return e.foldCase(fr, a[0].(Str), true, func() Value { return e.callFn(fr, e.body(e.L.fn("strings", "ToUpper")), a, nil, nil) })
	})
	for _, n := range []string{"ToLower", "ToUpper"} {
		n := n
		reg("bytes."+n, func(e *Eng, fr *frame, a []Value) Value {
			e.noSpec()
			s := Str{e.sliceBytes(a[0].(Slice))}
			lo, hi, d := byte('A'), byte('Z'), 32
			if n == "ToUpper" {
				lo, hi, d = 'a', 'z', 256-32
			}
			if r, ok := e.asciiMap(s, lo, hi, d); ok {
				e.noteAlloc(len(r.b))
				return e.bytesSlice(r.b)
			}
			return e.callFn(fr, e.body(e.L.fn("bytes", n)), a, nil, nil)
		})
	}
	reg("(*strings.Builder).copyCheck", func(e *Eng, fr *frame, a []Value) Value { return nil })
	reg("(*strings.Builder).String", func(e *Eng, fr *frame, a []Value) Value {
		p := a[0].(Ptr)
		st := (*p).(Structure)
		return Str{e.sliceBytes(st[1].(Slice))}
	})
	reg("internal/abi.NoEscape", func(e *Eng, fr *frame, a []Value) Value { return a[0] })
	reg("internal/abi.Escape", func(e *Eng, fr *frame, a []Value) Value { return a[0] })

	// ---- math
	id := func(e *Eng, fr *frame, a []Value) Value { return a[0] }
	for _, n := range []string{"Float64bits", "Float64frombits", "Float32bits", "Float32frombits"} {
		reg("math."+n, id)
	}
	conc1 := func(f func(float64) float64) natFn {
		return func(e *Eng, fr *frame, a []Value) Value {
			t := a[0].(*Term)
			if t.isConst() {
				return e.c.Const(64, math.Float64bits(f(math.Float64frombits(t.val))))
			}
			e.noSpec()
			// integer-valued argument: fork over its values
			if t.op == OI2F || t.op == OU2F {
				n := e.concInt(t.args[0])
				return e.c.Const(64, math.Float64bits(f(float64(n))))
			}
			panic(unsupported{"math function on symbolic float"})
		}
	}
	reg("math.Exp2", conc1(math.Exp2))
	reg("math.Floor", conc1(math.Floor))
	reg("math.Ceil", conc1(math.Ceil))
	reg("math.Round", conc1(math.Round))
	reg("math.Trunc", conc1(math.Trunc))
	conc2 := func(f func(x, y float64) float64) natFn {
		return func(e *Eng, fr *frame, a []Value) Value {
			x, y := a[0].(*Term), a[1].(*Term)
			if x.isConst() && y.isConst() {
				return e.c.Const(64, math.Float64bits(f(math.Float64frombits(x.val), math.Float64frombits(y.val))))
			}
			panic(unsupported{"math function on symbolic float"})
		}
	}
	reg("math.Max", conc2(math.Max))
	reg("math.Min", conc2(math.Min))
	reg("math.Mod", conc2(math.Mod))
	reg("math.Abs", func(e *Eng, fr *frame, a []Value) Value {
		return e.c.bitop(OAnd, a[0].(*Term), e.c.Const(64, 1<<63-1))
	})
	reg("math.Pow", func(e *Eng, fr *frame, a []Value) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		if x.isConst() && y.isConst() {
			return e.c.Const(64, math.Float64bits(math.Pow(math.Float64frombits(x.val), math.Float64frombits(y.val))))
		}
		panic(unsupported{"math.Pow"})
	})

	// ---- sync
	nop := func(e *Eng, fr *frame, a []Value) Value { return nil }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		reg(n, nop)
	}
	reg("(*sync.Once).Do", func(e *Eng, fr *frame, a []Value) Value {
		st := (*(a[0].(Ptr))).(Structure)
		k := e.onceKey(&st[0])
		if !e.onceDone[k] {
			e.onceDone[k] = true
			e.callClosure(fr, a[1].(*Closure), nil, nil)
		}
		return nil
	})

	// ---- fmt
	reg("fmt.Errorf", func(e *Eng, fr *frame, a []Value) Value {
		e.noSpec()
		f := e.goStr(a[0])
		args := e.ifaceArgs(a[1])
		if strings.Contains(f, "%w") {
			var wrapped Value
			k := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] == '%' {
					if f[i+1] == '%' {
						i++
						continue
					}
					if f[i+1] == 'w' && k < len(args) {
						wrapped = args[k]
					}
					k++
				}
			}
			if w, ok := wrapped.(Iface); ok && w.t != nil {
				t := e.L.typ("fmt", "wrapError")
				p := new(Value)
				*p = Structure{e.strConst(f), w}
				return Iface{types.NewPointer(t), Ptr(p)}
			}
		}
		msg, ok := e.trySprintf(fr, f, args)
		if !ok {
			msg = e.strConst(f)
		}
		return e.strErr(fr, msg)
	})
	reg("fmt.Sprintf", func(e *Eng, fr *frame, a []Value) Value {
		e.noSpec()
		return e.sprintf(fr, e.goStr(a[0]), e.ifaceArgs(a[1]), false)
	})
	sprint := func(nl bool) natFn {
		return func(e *Eng, fr *frame, a []Value) Value {
			e.noSpec()
			var r []*Term
			args := e.ifaceArgs(a[0])
			for i, x := range args {
				if i > 0 && (nl || !(isStrIface(args[i-1]) || isStrIface(x))) {
					r = append(r, e.c.Const(8, ' '))
				}
				r = append(r, e.fmtVal(fr, x, 'v').b...)
			}
			if nl {
				r = append(r, e.c.Const(8, '\n'))
			}
			return Str{r}
		}
	}
	reg("fmt.Sprint", sprint(false))
	reg("fmt.Sprintln", sprint(true))
	for _, n := range []string{"Println", "Printf", "Print"} {
		reg("fmt."+n, func(e *Eng, fr *frame, a []Value) Value { return Tuple{e.int(0), Iface{}} })
		reg("log."+n, nop)
	}
	reg("fmt.Fprintf", func(e *Eng, fr *frame, a []Value) Value {
		e.noSpec()
		s := e.sprintf(fr, e.goStr(a[1]), e.ifaceArgs(a[2]), false)
		w := a[0].(Iface)
		m := e.L.method(w.t, "Write")
		return e.callFn(fr, e.compiled(m), []Value{w.v, e.bytesSlice(s.b)}, nil, nil)
	})

	reg("fmt.Appendf", func(e *Eng, fr *frame, a []Value) Value {
		e.noSpec()
		s := e.sprintf(fr, e.goStr(a[1]), e.ifaceArgs(a[2]), false)
		return e.bytesSlice(append(append([]*Term{}, e.sliceBytes(a[0].(Slice))...), s.b...))
	})
	reg("strings.Clone", func(e *Eng, fr *frame, a []Value) Value { return a[0] })
	reg("fmt.Fprint", func(e *Eng, fr *frame, a []Value) Value {
		s := sprint(false)(e, fr, a[1:]).(Str)
		w := a[0].(Iface)
		return e.callFn(fr, e.compiled(e.L.method(w.t, "Write")), []Value{w.v, e.bytesSlice(s.b)}, nil, nil)
	})
	reg("fmt.Fprintln", func(e *Eng, fr *frame, a []Value) Value {
		s := sprint(true)(e, fr, a[1:]).(Str)
		w := a[0].(Iface)
		return e.callFn(fr, e.compiled(e.L.method(w.t, "Write")), []Value{w.v, e.bytesSlice(s.b)}, nil, nil)
	})

	// ---- sync.Pool: what was put last comes out first; an empty pool makes a new one
	reg("(*sync.Pool).Put", func(e *Eng, fr *frame, a []Value) Value {
		e.noSpec()
		if a[1].(Iface).t != nil {
			p := a[0].(Ptr)
			e.pools[p] = append(e.pools[p], a[1])
		}
		return nil
	})
	reg("(*sync.Pool).Get", func(e *Eng, fr *frame, a []Value) Value {
		e.noSpec()
		p := a[0].(Ptr)
		if l := e.pools[p]; len(l) > 0 {
			x := l[len(l)-1]
			e.pools[p] = l[:len(l)-1]
			return x
		}
		st := (*p).(Structure)
		f, ok := st[len(st)-1].(*Closure)
		if !ok || f == nil {
			return Iface{}
		}
		return e.callClosure(fr, f, nil, nil)
	})

	// ---- sync/atomic on one goroutine
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		reg("sync/atomic.Add"+t, func(e *Eng, fr *frame, a []Value) Value {
			e.noSpec()
			x := e.c.Add(e.load(a[0].(Ptr)).(*Term), a[1].(*Term))
			e.store(a[0].(Ptr), x)
			return x
		})
		reg("sync/atomic.Load"+t, func(e *Eng, fr *frame, a []Value) Value { return e.load(a[0].(Ptr)) })
		reg("sync/atomic.Store"+t, func(e *Eng, fr *frame, a []Value) Value {
			e.noSpec()
			e.store(a[0].(Ptr), a[1])
			return nil
		})
		reg("sync/atomic.Swap"+t, func(e *Eng, fr *frame, a []Value) Value {
			e.noSpec()
			x := e.load(a[0].(Ptr))
			e.store(a[0].(Ptr), a[1])
			return x
		})
		reg("sync/atomic.CompareAndSwap"+t, func(e *Eng, fr *frame, a []Value) Value {
			e.noSpec()
			if e.branch(e.c.Eq(e.load(a[0].(Ptr)).(*Term), a[1].(*Term))) {
				e.store(a[0].(Ptr), a[2])
				return e.c.T
			}
			return e.c.F
		})
	}

	for _, n := range []string{"Slice", "SliceStable"} {
		n := n
		reg("sort."+n, func(e *Eng, fr *frame, a []Value) Value {
			e.noSpec()
			s := e.concSlice(a[0].(Iface).v.(Slice))
			if n == "Slice" && s.n > 12 {
				panic(unsupported{"sort.Slice of many elements"})
			}
			for i := 1; i < s.n; i++ {
				for j := i; j > 0; j-- {
					if !e.branch(e.callClosure(fr, a[1].(*Closure), []Value{e.int(j), e.int(j - 1)}, nil).(*Term)) {
						break
					}
					p, q := s.a.cell(e, s.off+j), s.a.cell(e, s.off+j-1)
					x, y := e.load(p), e.load(q)
					e.store(p, y)
					e.store(q, x)
				}
			}
			return nil
		})
	}
	reg("errors.As", func(e *Eng, fr *frame, a []Value) Value {
		e.noSpec()
		t := a[1].(Iface)
		if t.t == nil {
			e.rtPanic("errors: target cannot be nil")
		}
		el := t.t.Underlying().(*types.Pointer).Elem()
		for err := a[0].(Iface); err.t != nil; {
			if _, ok := el.Underlying().(*types.Interface); ok {
				if types.Implements(err.t, el.Underlying().(*types.Interface)) {
					e.store(t.v.(Ptr), err)
					return e.c.T
				}
			} else if types.Identical(err.t, el) {
				e.store(t.v.(Ptr), err.v)
				return e.c.T
			}
			if e.L.method(err.t, "As") != nil {
				panic(unsupported{"errors.As with an As method"})
			}
			u := e.L.method(err.t, "Unwrap")
			if u == nil {
				break
			}
			x, ok := e.callFn(fr, e.compiled(u), []Value{err.v}, nil, nil).(Iface)
			if !ok {
				break
			}
			err = x
		}
		return e.c.F
	})

	// ---- reflect
	regReflect()

	// ---- strconv on symbolic integers
	reg("strconv.Itoa", func(e *Eng, fr *frame, a []Value) Value { e.noSpec(); return e.fmtInt(a[0].(*Term), true) })
	reg("strconv.FormatInt", func(e *Eng, fr *frame, a []Value) Value {
		e.noSpec()
		if b := a[1].(*Term); b.isConst() && b.val == 10 {
			return e.fmtInt(a[0].(*Term), true)
		}
		return e.callFn(fr, e.body(e.L.fn("strconv", "FormatInt")), a, nil, nil)
	})
	reg("strconv.FormatUint", func(e *Eng, fr *frame, a []Value) Value {
		e.noSpec()
		if b := a[1].(*Term); b.isConst() && b.val == 10 {
			return e.fmtInt(a[0].(*Term), false)
		}
		return e.callFn(fr, e.body(e.L.fn("strconv", "FormatUint")), a, nil, nil)
	})
	reg("time.Now", func(e *Eng, fr *frame, a []Value) Value { panic(unsupported{"time.Now"}) })
	reg("runtime.KeepAlive", nop)
	reg("internal/race.Enabled", nop)
}

func (e *Eng) onceKey(p *Value) *Value { return p }

func isStrIface(v Value) bool {
	i, ok := v.(Iface)
	return ok && i.t != nil && isStringT(i.t)
}

func (e *Eng) ifaceArgs(v Value) []Value {
	s := e.concSlice(v.(Slice))
	var r []Value
	for i := 0; i < s.n; i++ {
		r = append(r, s.a.get(e, s.off+i))
	}
	return r
}

// fmtInt: decimal text of an integer term; forks on the number of digits only.
func (e *Eng) fmtInt(t *Term, signed bool) Str {
	c := e.c
	if t.isConst() {
		if signed {
			return e.strConst(fmt.Sprint(sx(t.val, t.w)))
		}
		return e.strConst(fmt.Sprint(t.val))
	}
	t = c.Resize(t, 64, signed)
	var pre []*Term
	if signed {
		neg := c.Slt(t, e.int(0))
		if !neg.isFalse() && e.branch(neg) {
			pre = append(pre, c.Const(8, '-'))
			t = c.Neg(t)
		}
	}
	n := 1
	p := uint64(10)
	for n < 20 {
		if e.branch(c.Ult(t, c.Const(64, p))) {
			break
		}
		n++
		if n == 20 {
			break
		}
		p *= 10
	}
	ds := make([]*Term, n)
	q := t
	// narrow to keep division cheap
	w := uint8(64)
	if n < 20 {
		lim := uint64(1)
		for i := 0; i < n; i++ {
			lim *= 10
		}
		b := uint8(1)
		for mask(b) < lim-1 {
			b++
		}
		w = max(b, 8)
		if w < 64 {
			q = c.Extract(t, w-1, 0)
		}
	}
	for i := n - 1; i >= 0; i-- {
		d := c.divop(OURem, q, c.Const(w, 10))
		ds[i] = c.Add(c.Resize(d, 8, false), c.Const(8, '0'))
		q = c.divop(OUDiv, q, c.Const(w, 10))
	}
	return Str{append(pre, ds...)}
}

func (e *Eng) trySprintf(fr *frame, f string, args []Value) (s Str, ok bool) {
	for _, a := range args {
		i := a.(Iface)
		if i.t == nil {
			return s, false
		}
		switch x := i.v.(type) {
		case *Term:
			if !x.isConst() {
				return s, false
			}
		case Str:
		default:
			return s, false
		}
	}
	for i := 0; i+1 < len(f); i++ {
		if f[i] == '%' {
			switch f[i+1] {
			case 's', 'd', 'v', '%':
				i++
			default:
				return s, false
			}
		}
	}
	return e.sprintf(fr, f, args, true), true
}

func (e *Eng) sprintf(fr *frame, f string, args []Value, lenient bool) Str {
	var r []*Term
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			r = append(r, e.c.Const(8, uint64(f[i])))
			continue
		}
		i++
		if i >= len(f) {
			r = append(r, e.strConst("%!(NOVERB)").b...)
			break
		}
		if f[i] == '%' {
			r = append(r, e.c.Const(8, '%'))
			continue
		}
		minus, zero, width := false, false, 0
		for ; i < len(f) && (f[i] == '-' || f[i] == '0'); i++ {
			if f[i] == '-' {
				minus = true
			} else {
				zero = true
			}
		}
		for ; i < len(f) && f[i] >= '0' && f[i] <= '9'; i++ {
			width = width*10 + int(f[i]-'0')
		}
		if i >= len(f) || width > 1000 {
			panic(unsupported{"fmt verb in " + f})
		}
		switch f[i] {
		case 's', 'd', 'v', 'q', 'x', 'X', 'c', 'w', 't':
		default:
			panic(unsupported{"fmt verb in " + f})
		}
		if k >= len(args) {
			panic(unsupported{"fmt: missing argument"})
		}
		b := e.fmtVal(fr, args[k], f[i]).b
		if n := width; len(b) < n {
			// the width counts runes
			for _, t := range b {
				if e.branch(e.c.Ult(e.c.Const(8, 127), t)) {
					panic(unsupported{"fmt width of text beyond ASCII"})
				}
			}
			n -= len(b)
			switch {
			case minus:
				r = append(r, b...)
				b = e.strConst(strings.Repeat(" ", n)).b
			case zero:
				if f[i] != 'x' && f[i] != 'X' && f[i] != 'd' {
					panic(unsupported{"fmt verb in " + f})
				}
				if len(b) > 0 && e.branch(e.c.Eq(b[0], e.c.Const(8, '-'))) {
					r = append(r, b[0])
					b = b[1:]
				}
				r = append(r, e.strConst(strings.Repeat("0", n)).b...)
			default:
				r = append(r, e.strConst(strings.Repeat(" ", n)).b...)
			}
		}
		r = append(r, b...)
		k++
	}
	if k < len(args) && !lenient {
		panic(unsupported{"fmt: extra arguments"})
	}
	return Str{r}
}

func (e *Eng) fmtVal(fr *frame, v Value, verb byte) Str {
	i := v.(Iface)
	if i.t == nil {
		return e.strConst("<nil>")
	}
	if verb != 'd' && verb != 'c' {
		for _, m := range []string{"Error", "String"} {
			if f := e.L.method(i.t, m); f != nil {
				s := e.callFn(fr, e.compiled(f), []Value{i.v}, nil, nil).(Str)
				if verb == 'q' {
					return e.quote(fr, s)
				}
				return s
			}
		}
	}
	switch u := i.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			switch verb {
			case 's', 'v':
				return i.v.(Str)
			case 'q':
				return e.quote(fr, i.v.(Str))
			case 'x', 'X':
				return e.hexStr(i.v.(Str).b, verb)
			}
		case u.Info()&types.IsInteger != 0:
			_, sg := widthOf(i.t)
			if verb == 'd' || verb == 'v' {
				return e.fmtInt(i.v.(*Term), sg)
			}
			t := i.v.(*Term)
			if verb == 'x' || verb == 'X' {
				w, _ := widthOf(i.t)
				var pre []*Term
				if sg && e.branch(e.c.Slt(t, e.c.Const(w, 0))) {
					pre = append(pre, e.c.Const(8, '-'))
					t = e.c.Sub(e.c.Const(w, 0), t)
				}
				n := w / 4
				for n > 1 && !e.branch(e.c.Not(e.c.Eq(e.c.Extract(t, w-1, 4*(n-1)), e.c.Const(w-4*(n-1), 0)))) {
					n--
				}
				for ; n > 0; n-- {
					pre = append(pre, e.hexDigit(e.c.Extract(t, 4*n-1, 4*n-4), verb))
				}
				return Str{pre}
			}
			if t.isConst() && verb == 'c' {
				return e.strConst(string(rune(t.val)))
			}
		case u.Info()&types.IsBoolean != 0:
			if e.branch(i.v.(*Term)) {
				return e.strConst("true")
			}
			return e.strConst("false")
		case u.Info()&types.IsFloat != 0:
			if t := i.v.(*Term); t.isConst() && verb == 'v' {
				return e.strConst(fmt.Sprint(math.Float64frombits(t.val)))
			}
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			switch verb {
			case 's':
				return Str{e.sliceBytes(i.v.(Slice))}
			case 'x', 'X':
				return e.hexStr(e.sliceBytes(i.v.(Slice)), verb)
			}
		}
	}
	panic(unsupported{"fmt of " + i.t.String() + " with %" + string(verb)})
}

func (e *Eng) hexDigit(t *Term, verb byte) *Term {
	c := e.c
	d := c.Resize(t, 8, false)
	return c.Ite(c.Ult(d, c.Const(8, 10)), c.Add(d, c.Const(8, '0')), c.Add(d, c.Const(8, uint64(verb-'x'+'a'-10))))
}

func (e *Eng) hexStr(b []*Term, verb byte) Str {
	var r []*Term
	for _, t := range b {
		r = append(r, e.hexDigit(e.c.Extract(t, 7, 4), verb), e.hexDigit(e.c.Extract(t, 3, 0), verb))
	}
	return Str{r}
}

func (e *Eng) quote(fr *frame, s Str) Str {
	f := e.L.fn("strconv", "Quote")
	return e.callFn(fr, e.compiled(f), []Value{s}, nil, nil).(Str)
}

// ---- reflect subset

func (e *Eng) kindOf(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	panic(unsupported{"kind of " + t.String()})
}

func (e *Eng) reflPanic(m string) { e.rtPanic("reflect: " + m) }

func regReflect() {
	R := func(n string, f natFn) { reg("(reflect.Value)."+n, f) }
	reg("reflect.ValueOf", func(e *Eng, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return ReflV{}
		}
		return ReflV{t: i.t, v: i.v}
	})
	reg("reflect.TypeOf", func(e *Eng, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return Iface{reflTypeMarker, ReflT{i.t}}
	})
	reg("internal/reflectlite.TypeOf", intrinsics["reflect.TypeOf"])
	get := func(v Value) ReflV { return v.(ReflV) }
	cur := func(e *Eng, r ReflV) Value {
		if r.p != nil {
			return e.load(r.p)
		}
		return r.v
	}
	R("Kind", func(e *Eng, fr *frame, a []Value) Value {
		r := get(a[0])
		if r.t == nil {
			return e.int(0)
		}
		return e.int(int(e.kindOf(r.t)))
	})
	R("IsValid", func(e *Eng, fr *frame, a []Value) Value { return e.c.Bool(get(a[0]).t != nil) })
	R("Type", func(e *Eng, fr *frame, a []Value) Value {
		r := get(a[0])
		if r.t == nil {
			e.reflPanic("Type of zero Value")
		}
		return Iface{reflTypeMarker, ReflT{r.t}}
	})
	num := func(lo, hi uint64, signed bool) natFn {
		return func(e *Eng, fr *frame, a []Value) Value {
			r := get(a[0])
			if r.t == nil {
				e.reflPanic("zero Value")
			}
			k := e.kindOf(r.t)
			if k < lo || k > hi {
				e.reflPanic("wrong kind")
			}
			return e.c.Resize(cur(e, r).(*Term), 64, signed)
		}
	}
	R("Int", num(2, 6, true))
	R("Uint", num(7, 12, false))
	R("Float", func(e *Eng, fr *frame, a []Value) Value {
		r := get(a[0])
		if r.t == nil {
			e.reflPanic("zero Value")
		}
		switch e.kindOf(r.t) {
		case 13, 14:
			return e.c.FConv(cur(e, r).(*Term), 64)
		}
		e.reflPanic("wrong kind")
		return nil
	})
	R("Bool", func(e *Eng, fr *frame, a []Value) Value {
		r := get(a[0])
		if r.t == nil || e.kindOf(r.t) != 1 {
			e.reflPanic("wrong kind")
		}
		return cur(e, r)
	})
	R("String", func(e *Eng, fr *frame, a []Value) Value {
		r := get(a[0])
		if r.t != nil && e.kindOf(r.t) == 24 {
			return cur(e, r)
		}
		if r.t == nil {
			return e.strConst("<invalid Value>")
		}
		return e.strConst("<" + r.t.String() + " Value>")
	})
	R("Len", func(e *Eng, fr *frame, a []Value) Value {
		switch x := cur(e, get(a[0])).(type) {
		case Slice:
			return x.lenTerm(e)
		case *Arr:
			return e.int(x.n)
		case Str:
			return e.int(len(x.b))
		case *Map:
			if x == nil {
				return e.int(0)
			}
			return e.int(len(x.ents))
		}
		e.reflPanic("Len of wrong kind")
		return nil
	})
	R("Index", func(e *Eng, fr *frame, a []Value) Value {
		r := get(a[0])
		i := e.concInt(a[1].(*Term))
		switch x := cur(e, r).(type) {
		case Slice:
			x = e.concSlice(x)
			if i < 0 || i >= x.n {
				e.reflPanic("slice index out of range")
			}
			c := x.a.cell(e, x.off+i)
			return ReflV{t: r.t.Underlying().(*types.Slice).Elem(), v: e.load(Ptr(c)), p: c}
		case *Arr:
			if i < 0 || i >= x.n {
				e.reflPanic("array index out of range")
			}
			return ReflV{t: r.t.Underlying().(*types.Array).Elem(), v: x.get(e, i)}
		case Str:
			if i < 0 || i >= len(x.b) {
				e.reflPanic("string index out of range")
			}
			return ReflV{t: types.Typ[types.Uint8], v: x.b[i]}
		}
		e.reflPanic("Index of wrong kind")
		return nil
	})
	R("Interface", func(e *Eng, fr *frame, a []Value) Value {
		r := get(a[0])
		if r.t == nil {
			e.reflPanic("Interface of zero Value")
		}
		v := cur(e, r)
		if i, ok := v.(Iface); ok {
			return i
		}
		return Iface{r.t, v}
	})
	R("IsNil", func(e *Eng, fr *frame, a []Value) Value {
		switch x := cur(e, get(a[0])).(type) {
		case Slice:
			return e.c.Bool(x.a == nil)
		case *Map:
			return e.c.Bool(x == nil)
		case Ptr:
			return e.c.Bool(x == nil)
		case Iface:
			return e.c.Bool(x.t == nil)
		case *Closure:
			return e.c.Bool(x == nil)
		}
		e.reflPanic("IsNil of wrong kind")
		return nil
	})
	R("Elem", func(e *Eng, fr *frame, a []Value) Value {
		r := get(a[0])
		switch x := cur(e, r).(type) {
		case Iface:
			if x.t == nil {
				return ReflV{}
			}
			return ReflV{t: x.t, v: x.v}
		case Ptr:
			if x == nil {
				return ReflV{}
			}
			return ReflV{t: deref(r.t), v: e.load(x), p: x}
		}
		e.reflPanic("Elem of wrong kind")
		return nil
	})
	R("NumField", func(e *Eng, fr *frame, a []Value) Value {
		st, ok := get(a[0]).t.Underlying().(*types.Struct)
		if !ok {
			e.reflPanic("NumField of wrong kind")
		}
		return e.int(st.NumFields())
	})
	R("Field", func(e *Eng, fr *frame, a []Value) Value {
		r := get(a[0])
		st := r.t.Underlying().(*types.Struct)
		i := e.concInt(a[1].(*Term))
		return ReflV{t: st.Field(i).Type(), v: cur(e, r).(Structure)[i]}
	})
	R("MapIndex", func(e *Eng, fr *frame, a []Value) Value {
		r := get(a[0])
		m := cur(e, r).(*Map)
		k := get(a[1])
		i := e.mapFind(m, k.v)
		if i < 0 {
			return ReflV{}
		}
		return ReflV{t: r.t.Underlying().(*types.Map).Elem(), v: m.ents[i].v}
	})
	R("MapKeys", func(e *Eng, fr *frame, a []Value) Value {
		r := get(a[0])
		m := cur(e, r).(*Map)
		n := 0
		if m != nil {
			n = len(m.ents)
		}
		rv := e.L.typ("reflect", "Value")
		arr := newArr(e, rv, n)
		left := make([]*mapEntry, 0, n)
		if m != nil {
			left = append(left, m.ents...)
		}
		for i := 0; i < n; i++ {
			k := e.choose(len(left), "mapkeys")
			*arr.cell(e, i) = ReflV{t: r.t.Underlying().(*types.Map).Key(), v: left[k].k}
			left = append(append([]*mapEntry(nil), left[:k]...), left[k+1:]...)
		}
		return Slice{a: arr, n: n, c: n}
	})
	R("CanInterface", func(e *Eng, fr *frame, a []Value) Value { return e.c.T })
}

func (e *Eng) reflTypeMethod(rt ReflT, name string, args []Value) Value {
	switch name {
	case "String", "Name":
		s := types.TypeString(rt.t, func(p *types.Package) string { return p.Name() })
		if name == "Name" {
			if n, ok := rt.t.(*types.Named); ok {
				s = n.Obj().Name()
			}
		}
		return e.strConst(s)
	case "Kind":
		return e.int(int(e.kindOf(rt.t)))
	case "Comparable":
		return e.c.Bool(types.Comparable(rt.t))
	case "Elem":
		switch u := rt.t.Underlying().(type) {
		case *types.Slice:
			return Iface{reflTypeMarker, ReflT{u.Elem()}}
		case *types.Array:
			return Iface{reflTypeMarker, ReflT{u.Elem()}}
		case *types.Pointer:
			return Iface{reflTypeMarker, ReflT{u.Elem()}}
		case *types.Map:
			return Iface{reflTypeMarker, ReflT{u.Elem()}}
		}
	}
	panic(unsupported{"reflect.Type." + name})
}
