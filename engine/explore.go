package main

// Path exploration: every path is executed from the start under a prefix of
// recorded decisions; new decisions are split with the solver.

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

const (
	dBranch = iota
	dForced
	dConc
	dConcForced
	dChoose
)

type Dec struct {
	kind uint8
	yes  bool
	val  uint64
}

type Job struct {
	prefix []Dec
	model  map[string]uint64
	harn   int
}

type endKind int

const (
	endOK endKind = iota
	endInfeasible
	endSteps
	endStop
	endUnknown
)

type pathEnd struct {
	kind endKind
	msg  string
}

// Input is one value drawn by the harness, in call order.
type Input struct {
	T *Term
	C uint64
	K string // kind: var, choose
}

type Observation struct {
	label string
	terms []*Term
}

type Vector struct {
	Harness  string         `json:"harness"`
	Inputs   []uint64       `json:"inputs"`
	Params   map[string]int `json:"params"`
	Expect   string         `json:"expect,omitempty"` // violation label, or "ok"
	Observed []string       `json:"observed,omitempty"`
	Allocs   int            `json:"-"`
}

type Violation struct {
	Label string
	Kind  string // assert, panic, alloc
	Where string
	Known string
	Vec   Vector
}

type comp1 struct {
	terms []*Term
}

type Eng struct {
	c   *TermCtx
	sol *Solver
	L   *Loader
	R   *Run

	fns     map[*ssa.Function]*cfn
	fncl    map[*ssa.Function]*Closure
	globals map[*ssa.Global]Ptr
	implC   map[implKey]bool
	methC   map[methKey]*cfn
	initing bool
	logging bool
	trail   []trailEnt
	pathNo  int64
	spec    int
	noMerge bool
	depth   int
	cur     *frame
	prof    map[string]int64
	nMerged int64

	// per path
	steps      int64
	stepLimit  int64
	allocs     int64
	allocLim   int64
	allocOn    bool
	prefix     []Dec
	pos        int
	decs       []Dec
	model      Model
	pc         []*Term
	dom        map[int32]*[4]uint64
	uf         map[int32]int32
	comps      map[int32]*comp1
	linked     map[int32]bool
	inputs     []Input
	obs        []Observation
	covers     map[string]bool
	mergeFails map[*cblock]int
	harn       int
	jobModel   map[string]uint64
	npath      int
	ninp       int
	qcache     map[string]qres
	unknown    bool
	cbuf       []string
	bodies     map[*ssa.Function]*cfn
	onceDone   map[*Value]bool
	pools      map[Ptr][]Value
}

type qres struct {
	r SatRes
	m Model
}

type Run struct {
	L        *Loader
	mu       sync.Mutex
	cond     *sync.Cond
	queues   [][]*Job // one per harness
	spent    []time.Duration
	running  []int
	popped   int
	active   int
	stop     bool
	harns    []HarnessRef
	params   map[string]int
	deadline time.Time
	rng      *rand.Rand
	known    map[string]bool

	paths, infeasible, stepEnds, unknownEnds int64
	hangTried                                int
	steps, decisions, forced, merged         int64
	asserts, assertQ, assertTriv             int64
	maxDepth                                 int
	covers                                   map[string]int64
	unsup                                    map[string]int64
	viol                                     []*Violation
	knownHit                                 map[string]*Violation
	unconfirmed                              []string
	samples                                  []Vector
	sampleSeen                               int64
	stats                                    SolverStats
	crossDone, crossBad, crossUnk            int64
	fnsSeen                                  map[string]int
	timedOut                                 bool
	confirm                                  func(v *Violation) (bool, string)
	sampleN                                  int
	funcs                                    map[string]bool
	unkMsgs                                  map[string]int64
	perHarn                                  map[string]int64
	violSeen                                 map[string]int
	assertLabels                             map[string]int64
}

type HarnessRef struct {
	Name string
	fn   *ssa.Function
}

func (e *Eng) resetPath(j *Job) {
	for i := len(e.trail) - 1; i >= 0; i-- {
		t := e.trail[i]
		if t.m != nil {
			t.m.ents = t.ents
			t.m.stamp = t.stamp
			t.m.reindex()
		} else {
			*t.p = t.old
		}
	}
	e.trail = e.trail[:0]
	e.pathNo++
	e.spec, e.depth, e.cur = 0, 0, nil
	e.steps, e.allocs, e.allocOn = 0, 0, false
	e.prefix, e.pos = j.prefix, 0
	e.decs = append([]Dec(nil), j.prefix...)[:0]
	e.pc = e.pc[:0]
	e.dom = map[int32]*[4]uint64{}
	e.uf = map[int32]int32{}
	e.comps = map[int32]*comp1{}
	e.linked = map[int32]bool{}
	e.inputs = e.inputs[:0]
	e.obs = e.obs[:0]
	e.covers = map[string]bool{}
	e.mergeFails = map[*cblock]int{}
	e.harn = j.harn
	e.model = Model{}
	e.jobModel = j.model
	e.unknown = false
	e.ninp = 0
	e.cbuf = nil
	e.onceDone = map[*Value]bool{}
	e.pools = map[Ptr][]Value{}
}

func (e *Eng) newVar(w uint8) *Term {
	name := fmt.Sprintf("x%d_%d", e.ninp, w)
	e.ninp++
	t := e.c.Var(name, w)
	if v, ok := e.jobModel[name]; ok {
		e.model[int32(t.val)] = v
	}
	e.inputs = append(e.inputs, Input{T: t})
	return t
}

func (e *Eng) find(v int32) int32 {
	p, ok := e.uf[v]
	if !ok {
		e.uf[v] = v
		return v
	}
	if p == v {
		return v
	}
	r := e.find(p)
	e.uf[v] = r
	return r
}

func (e *Eng) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == OBAnd {
		for _, a := range t.args {
			e.addPC(a)
		}
		return
	}
	e.pc = append(e.pc, t)
	vs := e.c.Vars(t)
	if len(vs) == 0 {
		return
	}
	if d, v, ok := e.c.Dom(t); ok {
		cur := e.dom[v]
		nd := new([4]uint64)
		if cur == nil {
			*nd = *d
		} else {
			for i := range nd {
				nd[i] = cur[i] & d[i]
			}
		}
		e.dom[v] = nd
	} else if len(vs) > 1 {
		for _, v := range vs {
			e.linked[v] = true
		}
	} else {
		e.linked[vs[0]] = true
	}
	// union
	r := e.find(vs[0])
	cp := e.comps[r]
	if cp == nil {
		cp = &comp1{}
	}
	for _, v := range vs[1:] {
		q := e.find(v)
		if q != r {
			if oc := e.comps[q]; oc != nil {
				cp.terms = append(cp.terms, oc.terms...)
				delete(e.comps, q)
			}
			e.uf[q] = r
		}
	}
	cp.terms = append(cp.terms, t)
	e.comps[r] = cp
}

// sliceFor: path constraints sharing variables (transitively) with ts.
func (e *Eng) sliceFor(ts ...*Term) []*Term {
	seen := map[int32]bool{}
	var out []*Term
	for _, t := range ts {
		for _, v := range e.c.Vars(t) {
			if _, ok := e.uf[v]; !ok {
				continue
			}
			r := e.find(v)
			if seen[r] {
				continue
			}
			seen[r] = true
			if cp := e.comps[r]; cp != nil {
				out = append(out, cp.terms...)
			}
		}
	}
	return out
}

// feasible: is pc ∧ t satisfiable; on Sat a full model.
func (e *Eng) feasible(t *Term) (SatRes, Model) {
	if t.isFalse() {
		return Unsat, nil
	}
	if t.isTrue() {
		return Sat, e.model
	}
	if d, v, ok := e.c.Dom(t); ok {
		cur := e.dom[v]
		x := *d
		if cur != nil {
			for i := range x {
				x[i] &= cur[i]
			}
		}
		if x == [4]uint64{} {
			return Unsat, nil
		}
		if !e.linked[v] {
			for b := 0; b < 256; b++ {
				if x[b>>6]>>(b&63)&1 == 1 {
					m := cloneModel(e.model)
					m[v] = uint64(b)
					return Sat, m
				}
			}
		}
	}
	ts := append(e.sliceFor(t), t)
	r, m := e.query(ts)
	if r != Sat {
		return r, nil
	}
	nm := cloneModel(e.model)
	for k, v := range m {
		nm[k] = v
	}
	return Sat, nm
}

func cloneModel(m Model) Model {
	r := make(Model, len(m)+1)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (e *Eng) query(ts []*Term) (SatRes, Model) {
	s := append([]*Term(nil), ts...)
	sortTerms(s)
	var kb strings.Builder
	var last *Term
	for _, t := range s {
		if t == last {
			continue
		}
		last = t
		id := t.id
		kb.WriteByte(byte(id))
		kb.WriteByte(byte(id >> 8))
		kb.WriteByte(byte(id >> 16))
		kb.WriteByte(byte(id >> 24))
	}
	k := kb.String()
	if q, ok := e.qcache[k]; ok {
		return q.r, q.m
	}
	r, m := e.sol.Check(s)
	if len(e.qcache) > 200000 {
		e.qcache = map[string]qres{}
	}
	e.qcache[k] = qres{r, m}
	return r, m
}

func (e *Eng) branch(cond *Term) bool { return e.branchAt(cond, "") }

func (e *Eng) branchAt(cond *Term, site string) bool {
	if cond.isConst() {
		return cond.val != 0
	}
	if e.spec > 0 {
		panic(specAbort{})
	}
	if e.initing {
		panic(unsupported{"symbolic branch during init"})
	}
	if e.pos < len(e.prefix) {
		d := e.prefix[e.pos]
		if d.kind != dBranch && d.kind != dForced {
			panic(fmt.Sprintf("replay divergence: expected branch, have kind %d at %d (%s) in %s", d.kind, e.pos, site, e.where()))
		}
		e.pos++
		e.decs = append(e.decs, d)
		if d.kind == dBranch {
			if d.yes {
				e.addPC(cond)
			} else {
				e.addPC(e.c.Not(cond))
			}
		}
		return d.yes
	}
	v := e.c.Eval(cond, e.model) != 0
	taken, other := cond, e.c.Not(cond)
	if !v {
		taken, other = other, taken
	}
	r, m := e.feasible(other)
	switch r {
	case Unsat:
		e.decs = append(e.decs, Dec{kind: dForced, yes: v})
		e.pos++
		return v
	case Unknown:
		e.noteUnknown("branch " + site + " in " + e.where())
		e.decs = append(e.decs, Dec{kind: dBranch, yes: v})
		e.pos++
		e.addPC(taken)
		return v
	}
	e.enqueue(Dec{kind: dBranch, yes: !v}, m)
	e.decs = append(e.decs, Dec{kind: dBranch, yes: v})
	e.pos++
	e.addPC(taken)
	return v
}

func (e *Eng) noteUnknown(msg string) {
	e.R.mu.Lock()
	e.R.unkMsgs[msg]++
	e.R.mu.Unlock()
}

func (e *Eng) enqueue(last Dec, m Model) {
	p := make([]Dec, len(e.decs)+1)
	copy(p, e.decs)
	p[len(e.decs)] = last
	nm := make(map[string]uint64, len(m))
	for k, v := range m {
		nm[e.c.vars[k].name] = v
	}
	e.R.push(&Job{prefix: p, model: nm, harn: e.harn})
}

const maxConc = 5000

// concInt makes an integer term concrete on this path, forking over its values.
func (e *Eng) concInt(t *Term) int {
	w := t.w
	if t.isConst() {
		return int(sx(t.val, w))
	}
	if e.spec > 0 {
		panic(specAbort{})
	}
	for n := 0; ; n++ {
		if n > maxConc {
			panic(unsupported{"unbounded concretisation in " + e.where()})
		}
		if e.pos < len(e.prefix) {
			d := e.prefix[e.pos]
			if d.kind != dConc && d.kind != dConcForced {
				panic(fmt.Sprintf("replay divergence: expected conc, have kind %d in %s", d.kind, e.where()))
			}
			e.pos++
			e.decs = append(e.decs, d)
			eq := e.c.Eq(t, e.c.Const(w, d.val))
			if d.yes {
				if d.kind == dConc {
					e.addPC(eq)
				}
				return int(sx(d.val, w))
			}
			e.addPC(e.c.Not(eq))
			continue
		}
		v := e.c.Eval(t, e.model)
		eq := e.c.Eq(t, e.c.Const(w, v))
		r, m := e.feasible(e.c.Not(eq))
		if r == Unknown {
			e.noteUnknown("concretise in " + e.where())
		}
		if r == Sat {
			e.enqueue(Dec{kind: dConc, yes: false, val: v}, m)
		}
		k := uint8(dConc)
		if r == Unsat {
			k = dConcForced
		}
		e.decs = append(e.decs, Dec{kind: k, yes: true, val: v})
		e.pos++
		if k == dConc {
			e.addPC(eq)
		}
		return int(sx(v, w))
	}
}

// choose: nondeterministic choice without a solver variable.
func (e *Eng) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if e.spec > 0 {
		panic(specAbort{})
	}
	if e.pos < len(e.prefix) {
		d := e.prefix[e.pos]
		if d.kind != dChoose {
			panic(fmt.Sprintf("replay divergence: expected choose, have kind %d in %s", d.kind, e.where()))
		}
		e.pos++
		e.decs = append(e.decs, d)
		return int(d.val)
	}
	for i := n - 1; i > 0; i-- {
		e.enqueue(Dec{kind: dChoose, val: uint64(i)}, e.model)
	}
	e.decs = append(e.decs, Dec{kind: dChoose, val: 0})
	e.pos++
	return 0
}

func (e *Eng) assume(cond *Term) {
	if cond.isTrue() {
		return
	}
	if cond.isFalse() {
		panic(pathEnd{kind: endInfeasible})
	}
	// in the replayed part the model already satisfies it
	if e.pos >= len(e.prefix) || e.c.Eval(cond, e.model) == 0 {
		if e.c.Eval(cond, e.model) == 0 {
			r, m := e.feasible(cond)
			switch r {
			case Unsat:
				panic(pathEnd{kind: endInfeasible})
			case Unknown:
				e.noteUnknown("assume in " + e.where())
				panic(pathEnd{kind: endUnknown})
			}
			e.model = m
		}
	}
	e.addPC(cond)
}

func (e *Eng) vecOf(m Model, label string) Vector {
	v := Vector{Harness: e.R.harns[e.harn].Name, Params: e.R.params, Expect: label}
	for _, in := range e.inputs {
		if in.T != nil {
			v.Inputs = append(v.Inputs, e.c.Eval(in.T, m))
		} else {
			v.Inputs = append(v.Inputs, in.C)
		}
	}
	return v
}

// assert: decided by the solver for every value on this path.
func (e *Eng) assert(cond *Term, label, known string, alt *Term) {
	e.R.mu.Lock()
	e.R.asserts++
	e.R.assertLabels[label]++
	e.R.mu.Unlock()
	if cond.isTrue() {
		e.R.mu.Lock()
		e.R.assertTriv++
		e.R.mu.Unlock()
		return
	}
	if e.pos < len(e.prefix) {
		// decided on the path that recorded this prefix; violations were reported there
		if known != "" && e.R.known[known] {
			cond = e.c.Or(cond, alt)
		}
		if e.c.Eval(cond, e.model) == 0 {
			r, m := e.feasible(cond)
			if r != Sat {
				panic(pathEnd{kind: endStop})
			}
			e.model = m
			e.addPC(cond)
		}
		return
	}
	neg := e.c.Not(cond)
	if known != "" && e.R.known[known] {
		// a listed finding explains the failure exactly when alt holds
		kn := e.c.And(neg, alt)
		r, m := e.feasible(kn)
		if r == Sat {
			e.R.noteKnown(known, label, e.vecOf(m, ""))
		}
		neg = e.c.And(neg, e.c.Not(alt))
		cond = e.c.Or(cond, alt)
	}
	r, m := e.feasible(neg)
	e.R.mu.Lock()
	e.R.assertQ++
	e.R.mu.Unlock()
	switch r {
	case Unsat:
		return
	case Unknown:
		e.noteUnknown("assert " + label)
		return
	}
	e.violation(&Violation{Label: label, Kind: "assert", Where: e.where(), Vec: e.vecOf(m, label)})
	// continue on the side where it holds
	r, m = e.feasible(cond)
	if r != Sat {
		panic(pathEnd{kind: endStop})
	}
	if e.c.Eval(cond, e.model) == 0 {
		e.model = m
	}
	e.addPC(cond)
}

func (e *Eng) violation(v *Violation) {
	e.R.report(v)
}

func (r *Run) noteKnown(id, label string, v Vector) {
	r.mu.Lock()
	if r.knownHit[id] == nil {
		r.knownHit[id] = &Violation{Label: label, Known: id, Vec: v}
	}
	r.mu.Unlock()
}

func (r *Run) report(v *Violation) {
	r.mu.Lock()
	n := r.violSeen[v.Label]
	r.violSeen[v.Label]++
	if n >= 12 || r.stop {
		r.mu.Unlock()
		return
	}
	r.mu.Unlock()
	ok, msg := r.confirm(v)
	r.mu.Lock()
	defer r.mu.Unlock()
	if ok {
		r.viol = append(r.viol, v)
		r.stop = true
		r.cond.Broadcast()
	} else {
		r.unconfirmed = append(r.unconfirmed, v.Label+" @ "+v.Where+": "+msg+" "+fmt.Sprint(v.Vec.Inputs))
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "UNCONFIRMED", v.Label, v.Where, msg, v.Vec.Inputs)
		}
	}
}

func (r *Run) push(j *Job) {
	r.mu.Lock()
	r.queues[j.harn] = append(r.queues[j.harn], j)
	r.cond.Signal()
	r.mu.Unlock()
}

func (r *Run) pop() *Job {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop {
			return nil
		}
		if time.Now().After(r.deadline) {
			if r.queued() > 0 || r.active > 0 {
				r.timedOut = true
			}
			r.stop = true
			r.cond.Broadcast()
			return nil
		}
		// the harness that had the least time goes first, its newest job or now and then any of them
		best := -1
		for h, q := range r.queues {
			if len(q) > 0 && (best < 0 || r.spent[h]+time.Duration(r.running[h])*time.Millisecond < r.spent[best]+time.Duration(r.running[best])*time.Millisecond) {
				best = h
			}
		}
		if best >= 0 {
			q := r.queues[best]
			n := len(q)
			r.popped++
			if r.popped%16 == 0 && n < 100000 {
				i := r.rng.Intn(n)
				q[i], q[n-1] = q[n-1], q[i]
			}
			j := q[n-1]
			q[n-1] = nil
			r.queues[best] = q[:n-1]
			r.active++
			r.running[best]++
			return j
		}
		if r.active == 0 {
			r.cond.Broadcast()
			return nil
		}
		r.cond.Wait()
	}
}

func (r *Run) queued() int {
	n := 0
	for _, q := range r.queues {
		n += len(q)
	}
	return n
}

func (r *Run) done(j *Job, d time.Duration) {
	r.mu.Lock()
	r.active--
	r.running[j.harn]--
	r.spent[j.harn] += d
	if r.active == 0 {
		r.cond.Broadcast()
	}
	r.mu.Unlock()
}

func NewEng(L *Loader, R *Run) *Eng {
	e := &Eng{L: L, R: R}
	e.c = NewTermCtx()
	e.sol = NewSolver(e.c, 20*time.Second)
	e.sol.where = e.where
	e.sol.end = R.deadline.Add(5 * time.Second)
	e.fns = map[*ssa.Function]*cfn{}
	e.fncl = map[*ssa.Function]*Closure{}
	e.globals = map[*ssa.Global]Ptr{}
	e.implC = map[implKey]bool{}
	e.methC = map[methKey]*cfn{}
	e.qcache = map[string]qres{}
	e.stepLimit = 1 << 62
	e.mergeFails = map[*cblock]int{}
	e.pathNo = -1
	if os.Getenv("GOSYM_PROF") != "" {
		e.prof = map[string]int64{}
	}
	e.runInit()
	e.logging = true
	e.pathNo = 0
	e.stepLimit = L.stepLimit
	if m := e.R.params["msteps"]; m > 0 {
		e.stepLimit = int64(m) * 1_000_000
	}
	return e
}

func (r *Run) worker(id int) {
	var e *Eng
	defer func() {
		if e != nil {
			r.collect(e)
		}
	}()
	for {
		j := r.pop()
		if j == nil {
			return
		}
		if e != nil && e.c.n > 3000000 {
			r.collect(e)
			e = nil
			runtime.GC()
		}
		if e == nil {
			e = NewEng(r.L, r)
		}
		t := time.Now()
		r.runPath(e, j)
		r.done(j, time.Since(t))
	}
}

func (r *Run) collect(e *Eng) {
	e.sol.StopAll()
	r.mu.Lock()
	defer r.mu.Unlock()
	s := e.sol.Stats
	r.stats.Queries += s.Queries
	r.stats.SatN += s.SatN
	r.stats.UnsatN += s.UnsatN
	r.stats.UnknownN += s.UnknownN
	r.stats.Fallback += s.Fallback
	r.stats.Time += s.Time
	if s.MaxQ > r.stats.MaxQ {
		r.stats.MaxQ = s.MaxQ
	}
	r.crossDone += e.sol.CrossDone
	r.crossBad += e.sol.CrossBad
	r.crossUnk += e.sol.CrossUnk
	r.merged += e.nMerged
	for f, cf := range e.fns {
		if cf.blocks != nil {
			if p := pkgOf(f); p != nil && strings.HasPrefix(p.Pkg.Path(), "github.com/moggle-mog/goav") {
				r.funcs[strings.ReplaceAll(f.String(), "github.com/moggle-mog/goav/", "")] = true
			}
		}
	}
	if e.prof != nil {
		for k, v := range e.prof {
			r.fnsSeen[k] += int(v)
		}
	}
}

func (r *Run) runPath(e *Eng, j *Job) {
	e.resetPath(j)
	h := r.harns[j.harn]
	kind := endOK
	func() {
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			switch t := x.(type) {
			case pathEnd:
				kind = t.kind
				if kind == endSteps {
					e.spec = 0
					r.mu.Lock()
					try := r.hangTried < 2
					r.hangTried++
					r.mu.Unlock()
					if try {
						r.report(&Violation{Label: "terminates", Kind: "hang", Where: e.where(), Vec: e.vecOf(e.model, "terminates")})
					}
				}
			case *targetPanic:
				e.spec = 0
				r.report(&Violation{Label: "no-panic", Kind: "panic", Where: t.msg + " at " + t.at, Vec: e.vecOf(e.model, "panic")})
			case unsupported:
				kind = endUnknown
				r.mu.Lock()
				r.unsup[t.msg]++
				if os.Getenv("GOSYM_DEBUG") != "" && r.unsup[t.msg] == 1 {
					fmt.Fprintln(os.Stderr, "UNSUPPORTED", t.msg, "in", e.where())
				}
				r.mu.Unlock()
			default:
				r.mu.Lock()
				msg := fmt.Sprint("engine error: ", x, " in ", e.where())
				r.unsup[msg]++
				if os.Getenv("GOSYM_DEBUG") != "" && r.unsup[msg] == 1 {
					fmt.Fprintln(os.Stderr, msg)
					os.Stderr.Write(debug.Stack())
				}
				r.mu.Unlock()
				kind = endUnknown
				e.spec = 0
			}
		}()
		e.callFn(nil, e.compiled(h.fn), nil, nil, nil)
	}()
	e.npath++
	r.mu.Lock()
	defer r.mu.Unlock()
	r.steps += e.steps
	r.decisions += int64(len(e.decs) - len(j.prefix))
	if len(e.decs) > r.maxDepth {
		r.maxDepth = len(e.decs)
	}
	switch kind {
	case endOK:
		r.paths++
		r.perHarn[h.Name]++
		for k := range e.covers {
			r.covers[k]++
		}
		// sample paths for native replay
		if r.sampleN > 0 {
			hs := fnv.New64a()
			for _, d := range e.decs {
				hs.Write([]byte{d.kind, b2b(d.yes), byte(d.val), byte(d.val >> 8)})
			}
			r.sampleSeen++
			take := len(r.samples) < r.sampleN
			slot := len(r.samples)
			if !take {
				x := hs.Sum64() % uint64(r.sampleSeen)
				if x < uint64(r.sampleN) {
					take, slot = true, int(x)
				}
			}
			if take {
				v := e.vecOf(e.model, "ok")
				for _, o := range e.obs {
					b := make([]byte, len(o.terms))
					sb := strings.Builder{}
					sb.WriteString(o.label + ":")
					for i, t := range o.terms {
						b[i] = byte(e.c.Eval(t, e.model))
						fmt.Fprintf(&sb, "%x,", e.c.Eval(t, e.model))
					}
					v.Observed = append(v.Observed, sb.String())
				}
				if slot == len(r.samples) {
					r.samples = append(r.samples, v)
				} else {
					r.samples[slot] = v
				}
			}
		}
	case endInfeasible:
		r.infeasible++
	case endSteps:
		r.stepEnds++
	case endUnknown, endStop:
		r.unknownEnds++
	}
}

func b2b(b bool) byte {
	if b {
		return 1
	}
	return 0
}

func (e *Eng) noteAlloc(n int) {
	e.allocs += int64(n)
}

// noteAllocTerm records an allocation of k elements of es bytes; with an active
// limit a possibly larger allocation is a violation.
func (e *Eng) noteAllocTerm(k *Term, es int) {
	if k.isConst() {
		e.allocs += int64(k.val) * int64(es)
		if e.allocOn && (e.allocs > e.allocLim || int64(k.val) > e.allocLim) {
			e.allocViolation(e.model)
		}
		return
	}
	if e.allocOn && e.spec == 0 {
		lim := (e.allocLim - e.allocs) / int64(max(es, 1))
		if lim < 0 {
			lim = 0
		}
		over := e.c.Ult(e.c.Const(64, uint64(lim)), k)
		// values that make the runtime panic are reported as panics
		over = e.c.And(over, e.c.Not(e.c.Slt(k, e.int(0))))
		if e.pos >= len(e.prefix) {
			r, m := e.feasible(over)
			if r == Sat {
				// a small one is easier to replay
				small := e.c.And(over, e.c.Ult(k, e.c.Const(64, uint64(2*lim+64))))
				if r2, m2 := e.feasible(small); r2 == Sat {
					m = m2
				}
				e.allocViolation(m)
			} else if r == Unknown {
				e.noteUnknown("alloc limit in " + e.where())
			}
		}
		ok := e.c.Not(over)
		if !ok.isTrue() {
			if e.c.Eval(ok, e.model) == 0 {
				r, m := e.feasible(ok)
				if r != Sat {
					panic(pathEnd{kind: endStop})
				}
				e.model = m
			}
			e.addPC(ok)
		}
	}
	e.allocs += int64(e.c.Eval(k, e.model)) * int64(es)
}

// noteMapAlloc records the room a map is made with; a hint out of range is ignored by the runtime.
func (e *Eng) noteMapAlloc(k *Term, es int) {
	out := e.c.Or(e.c.Slt(k, e.int(0)), e.c.Slt(e.int(hugeAlloc/max(es, 1)), k))
	if out.isTrue() || !out.isFalse() && e.branch(out) {
		return
	}
	e.noteAllocTerm(k, es)
}

func (e *Eng) allocViolation(m Model) {
	e.violation(&Violation{Label: "bounded-memory", Kind: "alloc", Where: e.where(), Vec: e.vecOf(m, "bounded-memory")})
	panic(pathEnd{kind: endStop})
}

func sortedKeys[T any](m map[string]T) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
