package main

// Integer back end: a query whose arithmetic is linear is translated exactly to
// linear integer arithmetic. Every bit-vector term is represented by an integer
// expression congruent to it modulo 2^w together with an interval; where an
// operation needs the unsigned or signed value and the interval does not show
// that the expression is that value already, a mod is put in. The translation
// is exact in both directions, and models are evaluated on the original terms.

import (
	"bufio"
	"bytes"
	"fmt"
	"math/big"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type liaVal struct {
	s      string
	lo, hi *big.Int
}

type liaTr struct {
	b    strings.Builder
	done map[*Term]liaVal
	bl   map[*Term]string
	ok   bool
	n    int
}

func bigU(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
func pow2(k uint8) *big.Int  { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }
func bstr(x *big.Int) string {
	if x.Sign() < 0 {
		return "(- " + new(big.Int).Neg(x).String() + ")"
	}
	return x.String()
}

func (t *liaTr) name(e string) string {
	if len(e) < 24 {
		return e
	}
	t.n++
	n := "e" + strconv.Itoa(t.n)
	fmt.Fprintf(&t.b, "(define-fun %s () Int %s)\n", n, e)
	return n
}

func (t *liaTr) uns(x *Term) liaVal {
	v := t.tr(x)
	m := pow2(x.w)
	if v.lo == nil {
		return v
	}
	if v.lo.Sign() >= 0 && v.hi.Cmp(m) < 0 {
		return v
	}
	if v.hi.Sign() < 0 && new(big.Int).Add(v.lo, m).Sign() >= 0 {
		return liaVal{t.name("(+ " + v.s + " " + m.String() + ")"), new(big.Int).Add(v.lo, m), new(big.Int).Add(v.hi, m)}
	}
	return liaVal{t.name("(mod " + v.s + " " + m.String() + ")"), new(big.Int), new(big.Int).Sub(m, big.NewInt(1))}
}

func (t *liaTr) sgn(x *Term) liaVal {
	v := t.tr(x)
	if v.lo == nil {
		return v
	}
	h := pow2(x.w - 1)
	if v.hi.Cmp(h) < 0 && new(big.Int).Add(v.lo, h).Sign() >= 0 {
		return v
	}
	m := pow2(x.w)
	if v.lo.Cmp(h) >= 0 && v.hi.Cmp(m) < 0 {
		return liaVal{t.name("(- " + v.s + " " + m.String() + ")"), new(big.Int).Sub(v.lo, m), new(big.Int).Sub(v.hi, m)}
	}
	return liaVal{t.name("(- (mod (+ " + v.s + " " + h.String() + ") " + m.String() + ") " + h.String() + ")"), new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))}
}

func floorDiv(x, d *big.Int) *big.Int { // d > 0
	q, m := new(big.Int), new(big.Int)
	q.DivMod(x, d, m)
	return q
}

func (t *liaTr) fail() liaVal {
	t.ok = false
	return liaVal{s: "0", lo: new(big.Int), hi: new(big.Int)}
}

func (t *liaTr) tr(x *Term) liaVal {
	if v, ok := t.done[x]; ok {
		return v
	}
	if !t.ok {
		return t.fail()
	}
	v := t.tr1(x)
	v.s = t.name(v.s)
	t.done[x] = v
	return v
}

func (t *liaTr) tr1(x *Term) liaVal {
	a := x.args
	switch x.op {
	case OConst:
		v := bigU(x.val)
		if x.w > 1 && x.val>>(x.w-1) == 1 {
			v.Sub(v, pow2(x.w))
		}
		return liaVal{bstr(v), v, v}
	case OVar:
		m := pow2(x.w)
		n := "v" + strconv.Itoa(int(x.val))
		fmt.Fprintf(&t.b, "(declare-const %s Int)\n(assert (and (<= 0 %s) (< %s %s)))\n", n, n, n, m)
		return liaVal{n, new(big.Int), new(big.Int).Sub(m, big.NewInt(1))}
	case OAdd:
		lo, hi := new(big.Int), new(big.Int)
		s := "(+"
		for _, y := range a {
			v := t.tr(y)
			s += " " + v.s
			lo.Add(lo, v.lo)
			hi.Add(hi, v.hi)
		}
		return liaVal{s + ")", lo, hi}
	case OMul:
		if len(a) != 2 {
			return t.fail()
		}
		k, y := a[0], a[1]
		if !k.isConst() {
			k, y = y, k
		}
		if !k.isConst() {
			return t.fail()
		}
		kv, v := t.tr(k), t.tr(y)
		p, q := new(big.Int).Mul(kv.lo, v.lo), new(big.Int).Mul(kv.lo, v.hi)
		if p.Cmp(q) > 0 {
			p, q = q, p
		}
		return liaVal{"(* " + kv.s + " " + v.s + ")", p, q}
	case ONot:
		v := t.tr(a[0])
		m1 := big.NewInt(-1)
		return liaVal{"(- (- 1) " + v.s + ")", new(big.Int).Sub(m1, v.hi), new(big.Int).Sub(m1, v.lo)}
	case OAnd:
		if len(a) == 2 {
			k, y := a[0], a[1]
			if !k.isConst() {
				k, y = y, k
			}
			if k.isConst() && k.val&(k.val+1) == 0 && k.val != 0 {
				v := t.tr(y)
				m := new(big.Int).Add(bigU(k.val), big.NewInt(1))
				if v.lo.Sign() >= 0 && v.hi.Cmp(m) < 0 {
					return v
				}
				return liaVal{"(mod " + v.s + " " + m.String() + ")", new(big.Int), bigU(k.val)}
			}
		}
		return t.fail()
	case OShl:
		if a[1].isConst() && a[1].val < uint64(x.w) {
			v := t.tr(a[0])
			m := pow2(uint8(a[1].val))
			return liaVal{"(* " + m.String() + " " + v.s + ")", new(big.Int).Mul(v.lo, m), new(big.Int).Mul(v.hi, m)}
		}
		return t.fail()
	case OLShr, OAShr:
		if a[1].isConst() && a[1].val < uint64(x.w) {
			v := liaVal{}
			if x.op == OLShr {
				v = t.uns(a[0])
			} else {
				v = t.sgn(a[0])
			}
			m := pow2(uint8(a[1].val))
			return liaVal{"(div " + v.s + " " + m.String() + ")", floorDiv(v.lo, m), floorDiv(v.hi, m)}
		}
		return t.fail()
	case OUDiv, OURem:
		if !a[1].isConst() || a[1].val == 0 {
			return t.fail()
		}
		v := t.uns(a[0])
		m := bigU(a[1].val)
		if x.op == OUDiv {
			return liaVal{"(div " + v.s + " " + m.String() + ")", floorDiv(v.lo, m), floorDiv(v.hi, m)}
		}
		if v.lo.Sign() >= 0 && v.hi.Cmp(m) < 0 {
			return v
		}
		return liaVal{"(mod " + v.s + " " + m.String() + ")", new(big.Int), new(big.Int).Sub(m, big.NewInt(1))}
	case OSDiv, OSRem:
		if !a[1].isConst() || a[1].val == 0 || sx(a[1].val, x.w) <= 0 {
			return t.fail()
		}
		v := t.sgn(a[0])
		m := bigU(a[1].val)
		tdiv := func(x *big.Int) *big.Int { return new(big.Int).Quo(x, m) }
		q := liaVal{"(div " + v.s + " " + m.String() + ")", tdiv(v.lo), tdiv(v.hi)}
		if v.lo.Sign() < 0 {
			q.s = "(ite (>= " + v.s + " 0) (div " + v.s + " " + m.String() + ") (- (div (- " + v.s + ") " + m.String() + ")))"
		}
		if x.op == OSDiv {
			return q
		}
		q.s = t.name(q.s)
		m1 := new(big.Int).Sub(m, big.NewInt(1))
		lo, hi := new(big.Int), new(big.Int)
		if v.lo.Sign() < 0 {
			lo.Neg(m1)
		}
		if v.hi.Sign() > 0 {
			hi.Set(m1)
		}
		return liaVal{"(- " + v.s + " (* " + m.String() + " " + q.s + "))", lo, hi}
	case OConcat:
		lo, hi := new(big.Int), new(big.Int)
		var parts []string
		var sh uint8
		for i := len(a) - 1; i >= 0; i-- {
			v := t.uns(a[i])
			m := pow2(sh)
			lo.Add(lo, new(big.Int).Mul(v.lo, m))
			hi.Add(hi, new(big.Int).Mul(v.hi, m))
			if v.hi.Sign() != 0 {
				if sh == 0 {
					parts = append(parts, v.s)
				} else {
					parts = append(parts, "(* "+m.String()+" "+v.s+")")
				}
			}
			sh += a[i].w
		}
		switch len(parts) {
		case 0:
			return liaVal{"0", lo, hi}
		case 1:
			return liaVal{parts[0], lo, hi}
		}
		return liaVal{"(+ " + strings.Join(parts, " ") + ")", lo, hi}
	case OExtract:
		lsb := uint8(x.val)
		if lsb == 0 {
			v := t.tr(a[0])
			// congruent modulo the smaller power as well; keep it small
			m := pow2(x.w)
			if v.lo.Sign() >= 0 && v.hi.Cmp(m) < 0 {
				return v
			}
			return liaVal{"(mod " + v.s + " " + m.String() + ")", new(big.Int), new(big.Int).Sub(m, big.NewInt(1))}
		}
		v := t.tr(a[0])
		m := pow2(lsb)
		q := liaVal{"(div " + v.s + " " + m.String() + ")", floorDiv(v.lo, m), floorDiv(v.hi, m)}
		m = pow2(x.w)
		if q.lo.Sign() >= 0 && q.hi.Cmp(m) < 0 {
			return q
		}
		q.s = t.name(q.s)
		return liaVal{"(mod " + q.s + " " + m.String() + ")", new(big.Int), new(big.Int).Sub(m, big.NewInt(1))}
	case OSExt:
		return t.sgn(a[0])
	case OIte:
		g := t.trB(a[0])
		p, q := t.tr(a[1]), t.tr(a[2])
		lo, hi := p.lo, p.hi
		if q.lo.Cmp(lo) < 0 {
			lo = q.lo
		}
		if q.hi.Cmp(hi) > 0 {
			hi = q.hi
		}
		return liaVal{"(ite " + g + " " + p.s + " " + q.s + ")", lo, hi}
	}
	return t.fail()
}

func (t *liaTr) trB(x *Term) string {
	if v, ok := t.bl[x]; ok {
		return v
	}
	if !t.ok {
		return "true"
	}
	v := t.trB1(x)
	if len(v) > 24 {
		t.n++
		n := "b" + strconv.Itoa(t.n)
		fmt.Fprintf(&t.b, "(define-fun %s () Bool %s)\n", n, v)
		v = n
	}
	t.bl[x] = v
	return v
}

func (t *liaTr) trB1(x *Term) string {
	a := x.args
	nary := func(op string) string {
		s := "(" + op
		for _, y := range a {
			s += " " + t.trB(y)
		}
		return s + ")"
	}
	switch x.op {
	case OConst:
		if x.val == 1 {
			return "true"
		}
		return "false"
	case OVar:
		n := "v" + strconv.Itoa(int(x.val))
		fmt.Fprintf(&t.b, "(declare-const %s Bool)\n", n)
		return n
	case OBNot:
		return nary("not")
	case OBAnd:
		return nary("and")
	case OBOr:
		return nary("or")
	case OIte:
		return nary("ite")
	case OEq:
		if a[0].w == 0 {
			return nary("=")
		}
		p, q := t.tr(a[0]), t.tr(a[1])
		h := pow2(a[0].w - 1)
		nh := new(big.Int).Neg(h)
		if p.lo.Cmp(nh) >= 0 && q.lo.Cmp(nh) >= 0 && p.hi.Cmp(h) < 0 && q.hi.Cmp(h) < 0 {
			return "(= " + p.s + " " + q.s + ")"
		}
		return "(= " + t.uns(a[0]).s + " " + t.uns(a[1]).s + ")"
	case OUlt:
		return "(< " + t.uns(a[0]).s + " " + t.uns(a[1]).s + ")"
	case OSlt:
		return "(< " + t.sgn(a[0]).s + " " + t.sgn(a[1]).s + ")"
	}
	t.ok = false
	return "true"
}

// liaScript translates the conjunction of ts, if it can.
func liaScript(ts []*Term) (string, bool) {
	t := &liaTr{done: map[*Term]liaVal{}, bl: map[*Term]string{}, ok: true}
	var as []string
	for _, x := range ts {
		as = append(as, t.trB(x))
		if !t.ok {
			return "", false
		}
	}
	for _, s := range as {
		fmt.Fprintf(&t.b, "(assert %s)\n", s)
	}
	return t.b.String(), true
}

// wantsLIA: wide multiplications or divisions, which bit-blasting is slow on.
func wantsLIA(ts []*Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if len(t.args) == 0 || seen[t] {
			return false
		}
		seen[t] = true
		switch t.op {
		case OMul, OUDiv, OURem, OSDiv, OSRem:
			if t.w >= 24 {
				return true
			}
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	for _, t := range ts {
		if rec(t) {
			return true
		}
	}
	return false
}

// lia decides ts with the integer back end.
func (s *Solver) lia(ts []*Term, to time.Duration) (SatRes, Model) {
	txt, ok := liaScript(ts)
	if !ok {
		return Unknown, nil
	}
	var vs []int32
	for _, t := range ts {
		vs = mergeVars(vs, s.c.Vars(t))
	}
	if s.lcmd == nil {
		cmd := exec.Command("z3-new", "-in", "-smt2")
		w, err := cmd.StdinPipe()
		if err != nil {
			return Unknown, nil
		}
		r, err := cmd.StdoutPipe()
		if err != nil {
			return Unknown, nil
		}
		if cmd.Start() != nil {
			return Unknown, nil
		}
		s.lcmd, s.lin, s.lout = cmd, w, bufio.NewReaderSize(r, 1<<16)
		fmt.Fprintf(s.lin, "(set-option :produce-models true)\n(set-option :timeout %d)\n", to.Milliseconds())
	}
	cmd := s.lcmd
	timer := time.AfterFunc(to+3*time.Second, func() { cmd.Process.Kill() })
	defer timer.Stop()
	fail := func() (SatRes, Model) {
		s.lcmd.Process.Kill()
		s.lcmd.Wait()
		s.lcmd = nil
		return Unknown, nil
	}
	var q bytes.Buffer
	q.WriteString("(push 1)\n" + txt + "(check-sat)\n")
	if _, err := s.lin.Write(q.Bytes()); err != nil {
		return fail()
	}
	line := ""
	for line == "" {
		l, err := s.lout.ReadString('\n')
		if err != nil {
			return fail()
		}
		line = strings.TrimSpace(l)
	}
	if line == "unsat" {
		fmt.Fprint(s.lin, "(pop 1)\n")
		return Unsat, nil
	}
	if line != "sat" {
		return fail()
	}
	m := Model{}
	if len(vs) > 0 {
		fmt.Fprint(s.lin, "(get-value (")
		for _, v := range vs {
			fmt.Fprintf(s.lin, "v%d ", v)
		}
		fmt.Fprint(s.lin, "))\n")
		sv := s.out
		s.out = s.lout
		o, err := s.sexp()
		s.out = sv
		if err != nil || !parseIntModel(o, m) {
			return fail()
		}
	}
	fmt.Fprint(s.lin, "(pop 1)\n")
	for _, t := range ts {
		if s.c.Eval(t, m) != 1 {
			return fail()
		}
	}
	return Sat, m
}

func parseIntModel(txt string, m Model) bool {
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	for i := 0; i+1 < len(f); i += 2 {
		if f[i][0] != 'v' {
			return false
		}
		id, err := strconv.Atoi(f[i][1:])
		if err != nil {
			return false
		}
		var x uint64
		switch f[i+1] {
		case "true":
			x = 1
		case "false":
		default:
			if x, err = strconv.ParseUint(f[i+1], 10, 64); err != nil {
				return false
			}
		}
		m[int32(id)] = x
	}
	return true
}
