package main

// SMT-LIB2 back end: one persistent solver process per worker; terms are sent
// once as global definitions, each query is a push/assert/check/pop.

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

func (r SatRes) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, Fallback int64
	Time                                      time.Duration
	MaxQ                                      time.Duration
}

type Solver struct {
	c                             *TermCtx
	cmd                           *exec.Cmd
	in                            *bufio.Writer
	inw                           io.WriteCloser
	out                           *bufio.Reader
	defined                       []bool // by term id
	vdecl                         []bool
	nsent                         int
	timeout                       time.Duration
	where                         func() string
	end                           time.Time // no query runs past this
	Stats                         SolverStats
	crossN                        int // cross-check every n-th query with the second solver (0 = off)
	CrossDone, CrossBad, CrossUnk int64

	// the integer back end
	lcmd            *exec.Cmd
	lin             io.WriteCloser
	lout            *bufio.Reader
	LiaDone, liaBad int64
}

func NewSolver(c *TermCtx, timeout time.Duration) *Solver {
	return &Solver{c: c, timeout: timeout}
}

func (s *Solver) start() error {
	cmd := exec.Command("z3-new", "-in", "-smt2")
	w, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd = cmd
	s.inw = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.defined = nil
	s.vdecl = nil
	s.nsent = 0
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :produce-models true)\n", s.timeout.Milliseconds())
	return nil
}

func (s *Solver) StopAll() {
	s.Stop()
	if s.lcmd != nil {
		s.lin.Close()
		s.lcmd.Process.Kill()
		s.lcmd.Wait()
		s.lcmd = nil
	}
}

func (s *Solver) Stop() {
	if s.cmd != nil {
		s.inw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.val == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

func tref(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return "v" + strconv.Itoa(int(t.val))
	}
	return "t" + strconv.Itoa(int(t.id))
}

func isFP(t *Term) bool { // terms encoded through a fresh constant plus side condition
	switch t.op {
	case OFAdd, OFSub, OFMul, OFDiv, OI2F, OU2F, OF64to32, OF32to64:
		return true
	}
	return false
}

func fpOf(t *Term) string {
	if t.w == 32 {
		return "((_ to_fp 8 24) " + tref(t) + ")"
	}
	return "((_ to_fp 11 53) " + tref(t) + ")"
}

// expr: SMT text of a non-leaf term over already defined children.
func expr(t *Term) string {
	a := t.args
	var b strings.Builder
	nary := func(op string) string {
		b.WriteString("(" + op)
		for _, x := range a {
			b.WriteByte(' ')
			b.WriteString(tref(x))
		}
		b.WriteByte(')')
		return b.String()
	}
	switch t.op {
	case OAdd, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, ONot, OShl, OLShr, OAShr:
		return nary(opNames[t.op])
	case OConcat:
		return nary("concat")
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+int(t.w)-1, t.val, tref(a[0]))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-a[0].w, tref(a[0]))
	case OIte:
		return nary("ite")
	case OTable:
		idx := a[0]
		d := t.tab.data
		var rec func(lo, n, bit int) string
		cs := func(v uint64) string {
			if t.w == 0 {
				if v != 0 {
					return "true"
				}
				return "false"
			}
			return fmt.Sprintf("(_ bv%d %d)", v, t.w)
		}
		rec = func(lo, n, bit int) string {
			same := true
			for i := lo + 1; i < lo+n && i < len(d); i++ {
				if d[i] != d[lo] {
					same = false
					break
				}
			}
			if same || bit < 0 {
				return cs(d[lo])
			}
			half := 1 << bit
			if lo+half >= len(d) {
				return rec(lo, half, bit-1)
			}
			return fmt.Sprintf("(ite (= ((_ extract %d %d) %s) #b1) %s %s)", bit, bit, tref(idx), rec(lo+half, n-half, bit-1), rec(lo, half, bit-1))
		}
		nb := 0
		for (1 << nb) < len(d) {
			nb++
		}
		return rec(0, 1<<nb, nb-1)
	case OEq:
		return nary("=")
	case OUlt:
		return nary("bvult")
	case OSlt:
		return nary("bvslt")
	case OBNot:
		return nary("not")
	case OBAnd:
		return nary("and")
	case OBOr:
		return nary("or")
	case OFLt:
		return "(fp.lt " + fpOf(a[0]) + " " + fpOf(a[1]) + ")"
	case OFLe:
		return "(fp.leq " + fpOf(a[0]) + " " + fpOf(a[1]) + ")"
	case OFEq:
		return "(fp.eq " + fpOf(a[0]) + " " + fpOf(a[1]) + ")"
	case OF2I:
		return "((_ fp.to_sbv 64) RTZ " + fpOf(a[0]) + ")"
	case OF2U:
		return "((_ fp.to_ubv 64) RTZ " + fpOf(a[0]) + ")"
	}
	panic(fmt.Sprintf("expr: op %d", t.op))
}

func fpSide(t *Term) string {
	a := t.args
	rhs := ""
	switch t.op {
	case OFAdd:
		rhs = "(fp.add RNE " + fpOf(a[0]) + " " + fpOf(a[1]) + ")"
	case OFSub:
		rhs = "(fp.sub RNE " + fpOf(a[0]) + " " + fpOf(a[1]) + ")"
	case OFMul:
		rhs = "(fp.mul RNE " + fpOf(a[0]) + " " + fpOf(a[1]) + ")"
	case OFDiv:
		rhs = "(fp.div RNE " + fpOf(a[0]) + " " + fpOf(a[1]) + ")"
	case OI2F:
		rhs = "((_ to_fp 11 53) RNE " + tref(a[0]) + ")"
	case OU2F:
		rhs = "((_ to_fp_unsigned 11 53) RNE " + tref(a[0]) + ")"
	case OF64to32:
		rhs = "((_ to_fp 8 24) RNE " + fpOf(a[0]) + ")"
	case OF32to64:
		rhs = "((_ to_fp 11 53) RNE " + fpOf(a[0]) + ")"
	}
	return "(= " + fpOf(t) + " " + rhs + ")"
}

type defSink struct {
	c       *TermCtx
	w       io.Writer
	defined map[int32]bool
	vdecl   map[int32]bool
	sol     *Solver
}

func (s *Solver) isDef(id int32) bool { return int(id) < len(s.defined) && s.defined[id] }
func (s *Solver) setDef(id int32) {
	for int(id) >= len(s.defined) {
		s.defined = append(s.defined, make([]bool, 4096)...)
	}
	s.defined[id] = true
}

func (s *Solver) define(t *Term) {
	if t.op == OConst {
		return
	}
	if s.isDef(t.id) {
		return
	}
	if t.op == OVar {
		fmt.Fprintf(s.in, "(declare-const v%d %s)\n", t.val, sortName(t.w))
		s.setDef(t.id)
		return
	}
	for _, a := range t.args {
		s.define(a)
	}
	s.nsent++
	if isFP(t) {
		fmt.Fprintf(s.in, "(declare-const t%d %s)\n", t.id, sortName(t.w))
	} else {
		fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), expr(t))
	}
	s.setDef(t.id)
}

func collectFP(ts []*Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.op == OConst || t.op == OVar || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		if isFP(t) {
			r = append(r, t)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return r
}

// Check decides the conjunction of ts. On Sat a model over all variables of ts is returned.
func (s *Solver) Check(ts []*Term) (SatRes, Model) {
	t0 := time.Now()
	s.Stats.Queries++
	if !s.end.IsZero() && t0.After(s.end) {
		s.Stats.UnknownN++
		return Unknown, nil
	}
	res, m := Unknown, Model(nil)
	tried := false
	if s.liaBad < 20+s.LiaDone/4 && wantsLIA(ts) {
		tried = true
		if res, m = s.lia(ts, 3*time.Second); res == Unknown {
			s.liaBad++
		} else {
			s.LiaDone++
		}
	}
	if res == Unknown {
		res, m = s.check(ts)
	}
	if res == Unknown && !tried {
		res, m = s.lia(ts, 5*time.Second)
	}
	if res == Unknown {
		s.Stats.Fallback++
		res, m = s.fallback(ts)
	}
	if s.crossN > 0 && res != Unknown && s.Stats.Queries%int64(s.crossN) == 0 {
		r2, _ := runOneShot(s.c, "cvc5", ts, 10*time.Second)
		switch {
		case r2 == Unknown:
			s.CrossUnk++
		case r2 == res:
			s.CrossDone++
		default:
			s.CrossBad++
		}
	}
	d := time.Since(t0)
	s.Stats.Time += d
	if d > slowLimit() && os.Getenv("GOSYM_SLOW") != "" {
		txt, _ := script(s.c, ts, "ALL")
		os.WriteFile(fmt.Sprintf("%s.%d.smt2", os.Getenv("GOSYM_SLOW"), s.Stats.Queries), []byte(txt), 0o644)
		at := ""
		if s.where != nil {
			at = s.where()
		}
		fmt.Fprintln(os.Stderr, "SLOW", d, res, at)
	}
	if d > s.Stats.MaxQ {
		s.Stats.MaxQ = d
	}
	switch res {
	case Sat:
		s.Stats.SatN++
	case Unsat:
		s.Stats.UnsatN++
	default:
		s.Stats.UnknownN++
	}
	return res, m
}

func (s *Solver) check(ts []*Term) (SatRes, Model) {
	if s.cmd != nil && s.nsent > 200000 {
		s.Stop()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	for _, t := range ts {
		s.define(t)
	}
	var vs []int32
	for _, t := range ts {
		vs = mergeVars(vs, s.c.Vars(t))
	}
	fps := collectFP(ts)
	if len(fps) == 0 {
		return s.query(ts, vs, nil)
	}
	// First treat floating-point operations as uninterpreted functions: unsat then is unsat,
	// and a model that satisfies the formula when evaluated is a model.
	var cong []string
	for i, t := range fps {
		for _, q := range fps[:i] {
			if q.op != t.op || q.w != t.w || len(q.args) != len(t.args) {
				continue
			}
			eq := ""
			ok := true
			for k := range t.args {
				if t.args[k].w != q.args[k].w {
					ok = false
					break
				}
				eq += " (= " + tref(t.args[k]) + " " + tref(q.args[k]) + ")"
			}
			if ok {
				cong = append(cong, "(=> (and true"+eq+") (= "+tref(t)+" "+tref(q)+"))")
			}
		}
	}
	r, m := s.query(ts, vs, cong)
	if r == Unsat {
		return r, nil
	}
	if r == Sat {
		all := true
		for _, t := range ts {
			if s.c.Eval(t, m) != 1 {
				all = false
				break
			}
		}
		if all {
			return Sat, m
		}
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil
		}
		for _, t := range ts {
			s.define(t)
		}
	}
	var sides []string
	for _, t := range fps {
		sides = append(sides, fpSide(t))
	}
	return s.query(ts, vs, sides)
}

func (s *Solver) query(ts []*Term, vs []int32, sides []string) (SatRes, Model) {
	fmt.Fprint(s.in, "(push 1)\n")
	for _, t := range ts {
		fmt.Fprintf(s.in, "(assert %s)\n", tref(t))
	}
	for _, t := range sides {
		fmt.Fprintf(s.in, "(assert %s)\n", t)
	}
	fmt.Fprint(s.in, "(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.Stop()
		return Unknown, nil
	}
	lim := s.timeout + 10*time.Second
	if !s.end.IsZero() {
		if l := time.Until(s.end); l < lim {
			lim = max(l, 0)
		}
	}
	timer := time.AfterFunc(lim, func() {
		if s.cmd != nil {
			s.cmd.Process.Kill()
		}
	})
	defer timer.Stop()
	line, err := s.line()
	if err != nil {
		s.Stop()
		return Unknown, nil
	}
	switch line {
	case "unsat":
		fmt.Fprint(s.in, "(pop 1)\n")
		return Unsat, nil
	case "sat":
		m := Model{}
		if len(vs) > 0 {
			fmt.Fprint(s.in, "(get-value (")
			for _, v := range vs {
				fmt.Fprintf(s.in, "v%d ", v)
			}
			fmt.Fprint(s.in, "))\n(pop 1)\n")
			s.in.Flush()
			txt, err := s.sexp()
			if err != nil {
				s.Stop()
				return Unknown, nil
			}
			if !parseModel(txt, m) {
				s.Stop()
				return Unknown, nil
			}
		} else {
			fmt.Fprint(s.in, "(pop 1)\n")
		}
		return Sat, m
	}
	// unknown or error: restart to be safe
	if strings.HasPrefix(line, "(error") {
		lastSolverError = line
	}
	s.Stop()
	return Unknown, nil
}

var lastSolverError string

func (s *Solver) line() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) sexp() (string, error) {
	var b bytes.Buffer
	depth := 0
	started := false
	for {
		ch, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		b.WriteByte(ch)
		if ch == '(' {
			depth++
			started = true
		} else if ch == ')' {
			depth--
		}
		if started && depth == 0 {
			return b.String(), nil
		}
	}
}

func parseModel(txt string, m Model) bool {
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	i := 0
	for i < len(f) {
		if f[i] == "error" {
			return false
		}
		if f[i][0] != 'v' {
			return false
		}
		id, err := strconv.Atoi(f[i][1:])
		if err != nil || i+1 >= len(f) {
			return false
		}
		v := f[i+1]
		i += 2
		var x uint64
		switch {
		case strings.HasPrefix(v, "#x"):
			x, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, err = strconv.ParseUint(v[2:], 2, 64)
		case v == "true":
			x = 1
		case v == "false":
			x = 0
		case v == "_": // (_ bvN w)
			x, err = strconv.ParseUint(strings.TrimPrefix(f[i], "bv"), 10, 64)
			i += 2
		default:
			return false
		}
		if err != nil {
			return false
		}
		m[int32(id)] = x
	}
	return true
}

func script(c *TermCtx, ts []*Term, logic string) (string, []int32) {
	var b strings.Builder
	if logic != "" {
		fmt.Fprintf(&b, "(set-logic %s)\n", logic)
	}
	b.WriteString("(set-option :produce-models true)\n")
	done := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.op == OConst || done[t] {
			return
		}
		done[t] = true
		if t.op == OVar {
			fmt.Fprintf(&b, "(declare-const v%d %s)\n", t.val, sortName(t.w))
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		if isFP(t) {
			fmt.Fprintf(&b, "(declare-const t%d %s)\n", t.id, sortName(t.w))
		} else {
			fmt.Fprintf(&b, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), expr(t))
		}
	}
	var vs []int32
	for _, t := range ts {
		rec(t)
		vs = mergeVars(vs, c.Vars(t))
	}
	for _, t := range ts {
		fmt.Fprintf(&b, "(assert %s)\n", tref(t))
	}
	for _, t := range collectFP(ts) {
		fmt.Fprintf(&b, "(assert %s)\n", fpSide(t))
	}
	b.WriteString("(check-sat)\n")
	return b.String(), vs
}

func runOneShot(c *TermCtx, which string, ts []*Term, to time.Duration) (SatRes, Model) {
	logic := ""
	if which == "cvc5" {
		logic = "QF_BVFP"
	}
	txt, vs := script(c, ts, logic)
	if len(vs) > 0 {
		var b strings.Builder
		b.WriteString("(get-value (")
		for _, v := range vs {
			fmt.Fprintf(&b, "v%d ", v)
		}
		b.WriteString("))\n")
		txt += b.String()
	}
	var cmd *exec.Cmd
	switch which {
	case "cvc5":
		cmd = exec.Command("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", to.Milliseconds()), "-")
	case "z3":
		cmd = exec.Command("z3", "-in", "-smt2", fmt.Sprintf("-T:%d", int(to.Seconds())+1))
	default:
		cmd = exec.Command("z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", int(to.Seconds())+1))
	}
	cmd.Stdin = strings.NewReader(txt)
	out, _ := cmd.Output()
	o := strings.TrimSpace(string(out))
	switch {
	case strings.HasPrefix(o, "unsat"):
		return Unsat, nil
	case strings.HasPrefix(o, "sat"):
		m := Model{}
		if len(vs) > 0 && !parseModel(o[3:], m) {
			return Unknown, nil
		}
		return Sat, m
	}
	return Unknown, nil
}

// fallback: portfolio of one-shot solvers.
func (s *Solver) fallback(ts []*Term) (SatRes, Model) {
	type rr struct {
		r SatRes
		m Model
	}
	ch := make(chan rr, 2)
	to := 3 * s.timeout
	if !s.end.IsZero() {
		if l := time.Until(s.end); l < to {
			to = l
		}
		if to <= time.Second {
			return Unknown, nil
		}
	}
	for _, w := range []string{"z3-new", "cvc5"} {
		w := w
		go func() {
			r, m := runOneShot(s.c, w, ts, to)
			ch <- rr{r, m}
		}()
	}
	for i := 0; i < 2; i++ {
		x := <-ch
		if x.r != Unknown {
			if i == 0 {
				go func() { <-ch }()
			}
			return x.r, x.m
		}
	}
	return Unknown, nil
}

func sortTerms(ts []*Term) { sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id }) }

// slowLimit is the time above which GOSYM_SLOW keeps a query.
func slowLimit() time.Duration {
	if x, err := time.ParseDuration(os.Getenv("GOSYM_SLOWER")); err == nil {
		return x
	}
	return 2 * time.Second
}
