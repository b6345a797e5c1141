package main

// Symbolic execution of SSA functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// State is one symbolic state; it is mutated along a path and cloned at forks.
type State struct {
	heap   map[int]interface{}
	pc     []*Term
	pcset  map[int]bool
	lin    map[int]*big.Int // linear part id -> largest k with part+k <= 0
	poison map[int]bool
	deriv  map[int][]int // object -> objects made from it by append
	sym    []symUpd      // writes through symbolic pointers
	dec    []*Term       // the branches taken where both were possible
}

type symUpd struct {
	root types.Type
	id   *Term
	val  Val
}

func newState() *State {
	return &State{heap: map[int]interface{}{}, pcset: map[int]bool{}, lin: map[int]*big.Int{}, poison: map[int]bool{}, deriv: map[int][]int{}}
}

func (s *State) clone() *State {
	n := &State{heap: make(map[int]interface{}, len(s.heap)+4), pc: s.pc[:len(s.pc):len(s.pc)], pcset: make(map[int]bool, len(s.pcset)+4), lin: make(map[int]*big.Int, len(s.lin)+4), poison: make(map[int]bool, len(s.poison)), deriv: make(map[int][]int, len(s.deriv)), sym: s.sym[:len(s.sym):len(s.sym)], dec: s.dec[:len(s.dec):len(s.dec)]}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.pcset {
		n.pcset[k] = v
	}
	for k, v := range s.lin {
		n.lin[k] = v
	}
	for k, v := range s.poison {
		n.poison[k] = v
	}
	for k, v := range s.deriv {
		n.deriv[k] = v
	}
	return n
}

// X is the verification context of one entry.
type X struct {
	*Ctx
	P  *Prog
	be Backend

	seqKeys   map[string]string
	getMemo   map[string]Val
	liftObj   map[string]*Obj
	cur       *State
	base      map[int]interface{}
	nobj      int
	objs      []*Obj
	ptrObj    map[int]*VPtr
	ufc       int // evaluating a ufc_ function
	ifaceIDs  map[string]*Term
	ifaceVals map[int]*VIface
	facts     []*Term
	factSet   map[int]bool
	usedPC    bool

	spec, dry, ghost int
	depth            int
	steps            int
	name             string
	obls             []*Obl
	used             map[string]bool // contracts used
	trusted          map[string]bool
	inlined          map[string]bool
	deadline         time.Time
	nfail            int
	globals          map[*ssa.Global]*Obj
	inited           map[*ssa.Package]bool
	mods             []modItem
	entryFn          *ssa.Function
	loopBorn         int
	entryMeasure     *Term
	texts            map[string]*Text
	recFns           map[string]bool
	symNames         []symParam // inputs, for counterexample printing
	pos              token.Pos
	unfoldMemo       map[string][]*Term
	typeTags         map[string]int
	loopStack        []*activeLoop
	reach            int
	paths            int
	strTags          map[string]*Term
	specDepth        int
	calls            int
	conc             int
	oldState         *State
	keep             []Val
	mapSnap          map[int]*MapC // content of a map when iteration began
	warm, sawWarm    bool
}

type symParam struct {
	name string
	v    Val
	t    types.Type
}

type Obl struct {
	Name    string
	Kind    string
	Where   string
	Status  string // proved, failed, unsupported
	Backend string
	Ms      int64
	Detail  string
}

type unsup struct{ msg string }
type abortEntry struct{ msg string }

func (x *X) unsupported(msg string) {
	where := ""
	if x.pos.IsValid() {
		where = " at " + x.P.posStr(x.pos)
	}
	panic(unsup{msg + where})
}

type Frame struct {
	fn      *ssa.Function
	info    *fnInfo
	env     []Val
	free    []Val
	defers  []deferred
	loops   map[*ssa.BasicBlock]*activeLoop
	dryLoop *loopInfo
	dryCol  *[]backEdge
	entrySt *State
	args    []Val
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = append([]Val(nil), f.env...)
	g.defers = append([]deferred(nil), f.defers...)
	g.loops = make(map[*ssa.BasicBlock]*activeLoop, len(f.loops))
	for k, v := range f.loops {
		g.loops[k] = v
	}
	return &g
}

type Outcome struct {
	st  *State
	ret Val
}

// ---- facts and decisions ----

func (x *X) addGlobalFact(t *Term) {
	if t.isTrue() || x.factSet[t.id] {
		return
	}
	x.factSet[t.id] = true
	x.facts = append(x.facts, t)
}

func (x *X) linPart(d *Term) (*Term, *big.Int) {
	if d.op == OLin {
		if d.ival.Sign() == 0 {
			return d, bigZero
		}
		l := newLin()
		for i, a := range d.args {
			l.add(a, d.coefs[i])
		}
		return x.fromLin(l), d.ival
	}
	return d, bigZero
}

func (x *X) assume(st *State, t *Term) {
	if t.isTrue() || st.pcset[t.id] {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			x.assume(st, a)
		}
		return
	}
	st.pcset[t.id] = true
	st.pc = append(st.pc, t)
	if t.op == OLe0 {
		l, k := x.linPart(t.args[0])
		if o, ok := st.lin[l.id]; !ok || k.Cmp(o) > 0 {
			st.lin[l.id] = k
		}
	}
	if t.op == OEq && t.args[0].sort == Int {
		// d = 0
		d := t.args[0]
		if !t.args[1].isConst() {
			return
		}
		for _, s := range []int64{1, -1} {
			l, k := x.linPart(x.MulC(x.Sub(d, t.args[1]), big.NewInt(s)))
			if o, ok := st.lin[l.id]; !ok || k.Cmp(o) > 0 {
				st.lin[l.id] = k
			}
		}
	}
}

// quick decision from the path condition without a solver: 1 true, -1 false, 0 unknown.
func (x *X) quick(st *State, t *Term) int {
	if t.isTrue() {
		return 1
	}
	if t.isFalse() {
		return -1
	}
	if st == nil {
		return 0
	}
	if st.pcset[t.id] {
		return 1
	}
	n := x.Not(t)
	if st.pcset[n.id] {
		return -1
	}
	switch t.op {
	case OLe0:
		l, k := x.linPart(t.args[0])
		if f, ok := st.lin[l.id]; ok && k.Cmp(f) <= 0 {
			return 1
		}
		l2, k2 := x.linPart(n.args[0])
		if f, ok := st.lin[l2.id]; ok && k2.Cmp(f) <= 0 {
			return -1
		}
	case OAnd:
		all := true
		for _, a := range t.args {
			switch x.quick(st, a) {
			case -1:
				return -1
			case 0:
				all = false
			}
		}
		if all {
			return 1
		}
	case OOr:
		all := true
		for _, a := range t.args {
			switch x.quick(st, a) {
			case 1:
				return 1
			case 0:
				all = false
			}
		}
		if all {
			return -1
		}
	case OEq:
		if t.args[0].sort == Int {
			d := x.Sub(t.args[0], t.args[1])
			if x.quick(st, x.mkLe0(x.AddC(d, 1))) == 1 || x.quick(st, x.mkLe0(x.AddC(x.MulC(d, big.NewInt(-1)), 1))) == 1 {
				return -1
			}
		}
	case ONot:
		return -x.quick(st, t.args[0])
	}
	return 0
}

func (x *X) mkLe0(d *Term) *Term { return x.Le0(d) }

func (x *X) hyps(st *State) []*Term {
	h := make([]*Term, 0, len(x.facts)+len(st.pc))
	h = append(h, st.pc...)
	return append(h, x.facts...)
}

// decide asks the solver briefly.
func (x *X) decide(st *State, t *Term) int {
	if q := x.quick(st, t); q != 0 {
		return q
	}
	if x.spec > 0 || x.dry > 0 || t.bound {
		return 0
	}
	if x.fast(st, t) {
		return 1
	}
	if x.fast(st, x.Not(t)) {
		return -1
	}
	return 0
}

func (x *X) fast(st *State, goal *Term) bool {
	x.checkTime()
	p := x.Prepare(&Query{Hyps: x.hyps(st), Goal: goal}, 150, 1, 1)
	script, _ := x.Script(p.ground)
	r, _ := x.be.z3(script, 400, "")
	return r == RUnsat
}

func (x *X) checkTime() {
	if time.Now().After(x.deadline) {
		panic(abortEntry{"time budget exhausted"})
	}
}

// ---- obligations ----

func (x *X) oblige(st *State, kind string, goal *Term) {
	if x.spec > 0 || x.dry > 0 {
		return
	}
	where := ""
	if x.pos.IsValid() {
		where = x.P.posStr(x.pos)
	}
	o := &Obl{Name: x.name, Kind: kind, Where: where}
	if goal.op == OAnd && len(goal.args) > 1 {
		for _, a := range goal.args {
			x.oblige(st, kind, a)
		}
		return
	}
	if goal.isTrue() || x.quick(st, goal) == 1 {
		o.Status, o.Backend = "proved", "simplifier"
		x.obls = append(x.obls, o)
		return
	}
	x.checkTime()
	t0 := time.Now()
	ok, be, detail := x.prove(st, goal)
	o.Ms = time.Since(t0).Milliseconds()
	o.Backend = be
	if ok {
		o.Status = "proved"
	} else {
		o.Status = "failed"
		o.Detail = detail
		x.nfail++
	}
	x.obls = append(x.obls, o)
	if opt.trace && (o.Status == "failed" || o.Ms > 1000) {
		fmt.Printf("  [%s] %s %s %s (%d ms, %s)\n", x.name, o.Status, kind, where, o.Ms, be)
		if o.Status == "failed" && opt.verbose {
			fmt.Println("   goal:", goal)
			for _, h := range st.pc {
				fmt.Println("     hyp:", h)
			}
			fmt.Println(o.Detail)
		}
	}
	if !ok && x.nfail >= opt.maxFail {
		panic(abortEntry{"too many failed obligations"})
	}
	x.assume(st, goal)
}

// inContext rewrites a formula by what the path condition decides of its parts.  A part is
// smaller than the formula, and the formula that decides it is no larger than the part, so
// rewriting every hypothesis this way loses nothing.
func (x *X) inContext(st *State, consts map[int]*Term, memo map[int]*Term, t *Term, top bool) *Term {
	if len(t.args) == 0 {
		if r, ok := consts[t.id]; ok && !top {
			return r
		}
		return t
	}
	if !top {
		if r, ok := consts[t.id]; ok {
			return r
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		if t.sort == Bool && !t.bound {
			switch x.quick(st, t) {
			case 1:
				memo[t.id] = x.True
				return x.True
			case -1:
				memo[t.id] = x.False
				return x.False
			}
		}
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = a
		if t.op != OForall || i == len(t.args)-1 {
			as[i] = x.inContext(st, consts, memo, a, false)
		}
		ch = ch || as[i] != a
	}
	r := t
	if ch {
		r = x.rebuild(t, as)
	}
	if !top {
		memo[t.id] = r
	}
	return r
}

// simplified is the path condition, with the facts, and the goal, rewritten.
func (x *X) simplified(st *State, goal *Term) (*State, *Term) {
	cur := append(append([]*Term(nil), st.pc...), x.facts...)
	var done []*Term // definitions of variables that occur nowhere else
	for round := 0; round < 8; round++ {
		s := newState()
		for _, h := range cur {
			x.assume(s, h)
		}
		consts := map[int]*Term{}
		def, defVar := map[int]bool{}, map[int]bool{}
		used := map[int]bool{}
		for _, h := range s.pc {
			v, t := x.definition(h)
			if v == nil || used[v.id] || consts[v.id] != nil {
				continue
			}
			vs := map[int]bool{}
			varsOf(t, vs, map[int]bool{})
			ok := !vs[v.id]
			for id := range vs {
				ok = ok && consts[id] == nil
			}
			if !ok {
				continue
			}
			for id := range vs {
				used[id] = true
			}
			consts[v.id] = t
			defVar[h.id] = true
		}
		// a part that is not a variable, and has a known value
		whole := map[int]*Term{}
		for _, h := range s.pc {
			if h.op != OEq || h.bound || h.args[0].op == OVar || h.args[0].sort.kind != SBV || !h.args[1].isConst() {
				continue
			}
			vs := map[int]bool{}
			varsOf(h.args[0], vs, map[int]bool{})
			ok := true
			for id := range vs {
				ok = ok && consts[id] == nil
			}
			if ok {
				whole[h.args[0].id] = h.args[1]
				def[h.id] = true
			}
		}
		for id, t := range whole {
			consts[id] = t
		}
		memo := map[int]*Term{}
		next := make([]*Term, 0, len(s.pc))
		same := true
		for _, h := range s.pc {
			n := h
			if defVar[h.id] {
				done = append(done, h)
				same = false
				continue
			}
			if h.op == ONot {
				n = x.Not(x.inContext(s, consts, memo, h.args[0], true))
			} else if !def[h.id] {
				n = x.inContext(s, consts, memo, h, true)
			}
			same = same && n == h
			next = append(next, n)
		}
		goal = x.inContext(s, consts, memo, goal, false)
		cur = next
		if same || goal.isTrue() {
			st = s
			break
		}
		st = newState()
		for _, h := range cur {
			x.assume(st, h)
		}
	}
	for _, h := range done {
		x.assume(st, h)
	}
	return st, goal
}

// definition is the variable that an equation defines, and its value.
func (x *X) definition(h *Term) (*Term, *Term) {
	if h.op != OEq || h.bound {
		return nil, nil
	}
	a, b := h.args[0], h.args[1]
	if a.op == OVar && (b.isConst() || a.sort != Int) {
		if b.op == OVar && b.id > a.id {
			a, b = b, a
		}
		return a, b
	}
	if b.op == OVar && b.sort != Int {
		return b, a
	}
	if a.sort != Int || a.op != OLin || !b.isConst() {
		return nil, nil
	}
	var v *Term
	var k *big.Int
	for i, m := range a.args {
		if m.op == OVar && strings.Contains(m.name, ".r'") && new(big.Int).Abs(a.coefs[i]).Cmp(bigOne) == 0 && (v == nil || m.id > v.id) {
			v, k = m, a.coefs[i]
		}
	}
	if v == nil {
		return nil, nil
	}
	// k*v + rest = b
	rest := x.Sub(x.Sub(a, x.MulC(v, k)), b)
	return v, x.MulC(rest, new(big.Int).Neg(k))
}

func varsOf(t *Term, vs, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == OVar {
		vs[t.id] = true
	}
	for _, a := range t.args {
		varsOf(a, vs, seen)
	}
}

var pathDbg = os.Getenv("PATHDBG") != ""

func (x *X) prove(st *State, goal *Term) (bool, string, string) {
	h := x.hyps(st)
	if !opt.noSimp {
		st, goal = x.simplified(st, goal)
		h = st.pc
		if os.Getenv("GOALDBG") != "" {
			fmt.Println("    simplified goal:", goal.str(12))
			if os.Getenv("GOALDBG") == "2" {
				for _, h := range st.pc {
					fmt.Println("      shyp:", h.str(9))
				}
			}
		}
		if goal.isTrue() {
			return true, "simplifier", ""
		}
		if goal.op == OIte {
			for k, c := range []*Term{goal.args[0], x.Not(goal.args[0])} {
				s2 := st.clone()
				x.assume(s2, c)
				ok, be, detail := x.prove(s2, goal.args[k+1])
				if !ok || k == 1 {
					return ok, be, detail
				}
			}
		}
		if goal.op == OAnd && len(goal.args) > 1 {
			s2 := st.clone()
			be := "simplifier"
			for _, g := range goal.args {
				if x.quick(s2, g) != 1 {
					ok, b, detail := x.prove(s2, g)
					if !ok {
						return false, b, detail
					}
					be = b
				}
				x.assume(s2, g)
			}
			return true, be, ""
		}
	}
	detail := ""
	stages := []struct {
		inst, rounds, fuel, ms int
	}{{400, 2, 1, 1500}, {600, 3, 2, 2500}, {1500, 4, 3, 4000}}
	var script string
	var res Result
	if r := x.relevant(h, goal); len(h) > 20 && 10*len(r) < 9*len(h) && !opt.noRel {
		p := x.Prepare(&Query{Hyps: r, Goal: goal}, 400, 2, 1)
		script, _ = x.Script(p.ground)
		if res, _ = x.be.z3(script, 2500*pace(), ""); res == RUnsat {
			bump("z3-" + z3ver)
			return true, "z3-" + z3ver + "/relevant", ""
		}
	}
	if goal.op == OForall && !opt.noSimp && !opt.noSkolem {
		// for any one instance
		n := len(goal.args) - 1
		m := map[int]*Term{}
		for _, v := range goal.args[:n] {
			m[v.id] = x.Fresh("sk_"+v.name, v.sort)
		}
		body := x.Subst(goal.args[n], m)
		s2 := st.clone()
		if body.op == OOr {
			best := -1
			size := func(t *Term) int {
				seen := map[int]bool{}
				var rec func(t *Term)
				rec = func(t *Term) {
					if !seen[t.id] {
						seen[t.id] = true
						for _, a := range t.args {
							rec(a)
						}
					}
				}
				rec(t)
				return len(seen)
			}
			n := 0
			for i, d := range body.args {
				if k := size(d); k > n {
					best, n = i, k
				}
			}
			for i, d := range body.args {
				if i != best {
					x.assume(s2, x.Not(d))
				}
			}
			body = body.args[best]
		}
		return x.prove(s2, body)
	}
	for _, s := range stages {
		p := x.Prepare(&Query{Hyps: h, Goal: goal}, s.inst, s.rounds, s.fuel)
		var pr *printer
		script, pr = x.Script(p.ground)
		var model []string
		res, model = x.be.z3(script, s.ms*pace(), "(get-model)")
		_ = pr
		if res == RUnsat {
			bump("z3-" + z3ver)
			return true, "z3-" + z3ver, ""
		}
		if opt.dump != "" && os.Getenv("DUMPALL") != "" {
			x.P.dump(fmt.Sprintf("%s-i%d-%s", x.name, s.inst, res), script)
		}
		if res == RSat {
			detail = "candidate model (quantifiers instantiated finitely):\n" + x.modelStr(model)
		}
	}
	x.checkTime()
	if x.nfail > 0 && opt.hurry {
		return false, "", detail
	}
	p := x.Prepare(&Query{Hyps: h, Goal: goal}, 4000, 6, 5)
	script, _ = x.Script(p.ground)
	var qs string
	var qa []*Term
	qa = append(qa, p.ground...)
	for _, q := range p.quants {
		if q.f.bound {
			continue
		}
		qa = append(qa, x.Or(x.Not(q.guard), q.f))
	}
	if len(qa) > len(p.ground) && len(p.ground) < 3000 {
		qs, _ = x.Script(qa)
	}
	res, name := portfolio(script, qs, opt.portSecs)
	if res == RUnsat {
		bump(name)
		return true, name, ""
	}
	if opt.dump != "" {
		x.P.dump(x.name, script)
	}
	if detail == "" {
		detail = "solvers: " + res.String()
	}
	return false, "", detail
}

func (x *X) modelStr(lines []string) string {
	s := strings.Join(lines, "\n")
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return s
}

// ---- running ----

func (x *X) callFn(fn *ssa.Function, args, free []Val, st *State) []Outcome {
	if fn.Blocks == nil {
		x.unsupported("call of function without body " + fn.String())
	}
	if x.depth > 400 {
		x.unsupported("recursion too deep in " + fn.String())
	}
	x.depth++
	defer func() { x.depth-- }()
	fr := &Frame{fn: fn, info: x.P.info(fn), free: free, loops: map[*ssa.BasicBlock]*activeLoop{}, args: args}
	fr.env = make([]Val, fr.info.n)
	for i, p := range fn.Params {
		fr.env[fr.info.num[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[fr.info.num[p]] = free[i]
	}
	if fr.info.hasInv && x.spec == 0 {
		fr.entrySt = st.clone()
	}
	return x.exec(fr, fn.Blocks[0], nil, 0, st)
}

func (x *X) get(fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &VFunc{fn: v}
	case *ssa.Builtin:
		return &VFunc{bi: v}
	case *ssa.Global:
		return &VPtr{x.global(v), nil, v.Type().(*types.Pointer).Elem()}
	}
	r := fr.env[fr.info.num[v]]
	if r == nil {
		x.unsupported(fmt.Sprintf("use of undefined value %s in %s", v.Name(), fr.fn))
	}
	return r
}

func (x *X) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	if ii, ok := basicInfo(t); ok {
		v := constant.ToInt(c.Value)
		n, _ := new(big.Int).SetString(v.ExactString(), 10)
		if n == nil {
			x.unsupported("constant " + c.String())
		}
		if ii.bv {
			return x.BVC(n, ii.bits)
		}
		return x.IBig(n)
	}
	if isBool(t) {
		return x.B(constant.BoolVal(c.Value))
	}
	if isString(t) {
		return x.str(constant.StringVal(c.Value))
	}
	if isFloat(t) {
		return x.realConst(c.Value)
	}
	x.unsupported("constant " + c.String())
	return nil
}

func (x *X) realConst(v constant.Value) *Term {
	v = constant.ToFloat(v)
	n := constant.Num(v)
	d := constant.Denom(v)
	a, _ := new(big.Int).SetString(n.ExactString(), 10)
	b, _ := new(big.Int).SetString(d.ExactString(), 10)
	s := new(big.Int).Abs(a).String() + ".0"
	if a.Sign() < 0 {
		s = "(- " + s + ")"
	}
	if b.Cmp(bigOne) != 0 {
		s = "(/ " + s + " " + b.String() + ".0)"
	}
	return x.RealOp(s, Real)
}

// rnd is the float64 nearest to a real: integers up to 2^53 are exact, other values
// within a relative error of 2^-53 (and the least denormal).
func (x *X) rnd(t types.Type, e *Term) *Term {
	if b, ok := t.Underlying().(*types.Basic); !ok || b.Kind() == types.Float32 {
		x.unsupported("float32")
	}
	r := x.App("fround", Real, e)
	if r.bound {
		x.unsupported("floating point in a quantified formula")
	}
	x.trusted["floating point: correctly rounded float64 arithmetic without overflow"] = true
	c := func(s string) *Term { return x.RealOp(s, Real) }
	op := func(o string, a, b *Term) *Term { return x.RealOp(o, Real, a, b) }
	le := func(a, b *Term) *Term { return x.RealOp("<=", Bool, a, b) }
	big53 := "9007199254740992.0"
	isInt := x.RealOp("=", Bool, x.RealOp("to_real", Real, x.RealOp("to_int", Int, e)), e)
	x.addGlobalFact(x.Implies(x.And(isInt, le(c("(- "+big53+")"), e), le(e, c(big53))), x.RealOp("=", Bool, r, e)))
	u := op("/", e, c(big53))
	tiny := c("(/ 1.0 1000000000000000000000000000000.0)")
	pos := x.And(le(op("-", op("-", e, u), tiny), r), le(r, op("+", op("+", e, u), tiny)))
	neg := x.And(le(op("-", op("+", e, u), tiny), r), le(r, op("+", op("-", e, u), tiny)))
	x.addGlobalFact(x.Ite(le(c("0.0"), e), pos, neg))
	return r
}

// enter moves control to block b; returns outcomes when control ends elsewhere.
func (x *X) exec(fr *Frame, b, prev *ssa.BasicBlock, i int, st *State) []Outcome {
	for {
		// entering a block
		if i == 0 {
			x.steps++
			if x.steps&1023 == 0 {
				x.checkTime()
			}
			if fr.dryLoop != nil && !fr.dryLoop.blocks[b] {
				return nil
			}
			if li := fr.info.loops[b]; li != nil && prev != nil {
				stop, outs := x.loopHead(fr, li, prev, st)
				if stop {
					return outs
				}
				i = fr.info.nphi[b]
			} else if prev != nil {
				x.doPhis(fr, b, prev)
				i = fr.info.nphi[b]
			}
		}
		var next *ssa.BasicBlock
	instrs:
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			x.cur = st
			if p := in.Pos(); p.IsValid() {
				x.pos = p
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.If:
				c := x.get(fr, in.Cond).(*Term)
				switch x.branch(st, c) {
				case 1:
					x.assume(st, c)
					next = b.Succs[0]
				case -1:
					x.assume(st, x.Not(c))
					next = b.Succs[1]
				default:
					if j := x.joinBool(fr, st, b, c); j != nil {
						b, i = j, fr.info.nphi[j]-1
						continue instrs
					}
					if x.spec == 0 && x.dry == 0 {
						x.paths++
						if pathDbg {
							fmt.Println("fork", x.P.posStr(x.pos), c.str(4))
						}
						if x.paths > opt.maxPaths {
							x.unsupported("too many paths")
						}
					}
					st2 := st.clone()
					fr2 := fr.clone()
					x.assume(st, c)
					st.dec = append(st.dec, c)
					outs := x.exec(fr, b.Succs[0], b, 0, st)
					x.assume(st2, x.Not(c))
					st2.dec = append(st2.dec, x.Not(c))
					x.cur = st2
					return append(outs, x.exec(fr2, b.Succs[1], b, 0, st2)...)
				}
				break instrs
			case *ssa.Jump:
				next = b.Succs[0]
				break instrs
			case *ssa.Return:
				if fr.dryLoop != nil {
					return nil
				}
				var ret Val
				switch len(in.Results) {
				case 0:
					ret = &VTuple{}
				case 1:
					ret = x.get(fr, in.Results[0])
				default:
					t := &VTuple{}
					for _, r := range in.Results {
						t.v = append(t.v, x.get(fr, r))
					}
					ret = t
				}
				return []Outcome{{st, ret}}
			case *ssa.Panic:
				x.oblige(st, "unreachable panic", x.False)
				return nil
			case *ssa.Defer:
				d := deferred{call: &in.Call}
				if !in.Call.IsInvoke() {
					d.fn = x.get(fr, in.Call.Value)
				} else {
					d.fn = x.get(fr, in.Call.Value)
				}
				for _, a := range in.Call.Args {
					d.args = append(d.args, x.get(fr, a))
				}
				fr.defers = append(fr.defers, d)
			case *ssa.RunDefers:
				if len(fr.defers) > 0 {
					d := fr.defers[len(fr.defers)-1]
					fr.defers = fr.defers[:len(fr.defers)-1]
					outs := x.dispatch(fr, st, d.call, d.fn, d.args)
					if len(outs) == 1 {
						st = outs[0].st
						i--
						continue
					}
					var res []Outcome
					for k, o := range outs {
						f2 := fr
						if k < len(outs)-1 {
							f2 = fr.clone()
						}
						res = append(res, x.exec(f2, b, prev, i, o.st)...)
					}
					return res
				}
			case *ssa.Call:
				var fnv Val
				fnv = x.get(fr, in.Call.Value)
				var args []Val
				for _, a := range in.Call.Args {
					args = append(args, x.get(fr, a))
				}
				if x.spec == 0 {
					x.atCall(fr, st, b, i, fnv)
				}
				outs := x.dispatch(fr, st, &in.Call, fnv, args)
				if len(outs) == 0 {
					return nil
				}
				slot := fr.info.num[in]
				if len(outs) == 1 {
					st = outs[0].st
					fr.env[slot] = outs[0].ret
					continue
				}
				var res []Outcome
				for k, o := range outs {
					f2 := fr
					if k < len(outs)-1 {
						f2 = fr.clone()
					}
					f2.env[slot] = o.ret
					x.cur = o.st
					res = append(res, x.exec(f2, b, prev, i+1, o.st)...)
				}
				return res
			case *ssa.TypeAssert:
				outs := x.typeAssert(fr, st, in)
				slot := fr.info.num[in]
				if len(outs) == 1 {
					st = outs[0].st
					fr.env[slot] = outs[0].ret
					continue
				}
				var res []Outcome
				for k, o := range outs {
					f2 := fr
					if k < len(outs)-1 {
						f2 = fr.clone()
					}
					f2.env[slot] = o.ret
					x.cur = o.st
					res = append(res, x.exec(f2, b, prev, i+1, o.st)...)
				}
				return res
			case ssa.Value:
				fr.env[fr.info.num[in]] = x.value(fr, st, in)
			case *ssa.Store:
				x.store(st, x.get(fr, in.Addr), x.get(fr, in.Val))
			case *ssa.MapUpdate:
				x.mapUpdate(st, x.get(fr, in.Map).(*VMap), x.get(fr, in.Key), x.get(fr, in.Value))
			default:
				x.unsupported(fmt.Sprintf("instruction %T", in))
			}
		}
		if next == nil {
			x.unsupported("block without successor")
		}
		prev, b, i = b, next, 0
	}
}

// joinBool evaluates the rest of a conjunction or disjunction without separate paths: the
// blocks between a branch and the block that joins them only compute, and the join only takes
// truth values from them.
func (x *X) joinBool(fr *Frame, st *State, b *ssa.BasicBlock, c *Term) *ssa.BasicBlock {
	if opt.noJoin {
		return nil
	}
	var join *ssa.BasicBlock
	for _, d := range b.Dominees() {
		if len(d.Preds) > 1 {
			if join != nil {
				return nil
			}
			join = d
		}
	}
	if join == nil || fr.info.loops[join] != nil || fr.info.nphi[join] != 1 || (fr.dryLoop != nil && !fr.dryLoop.blocks[join]) {
		return nil
	}
	phi := join.Instrs[0].(*ssa.Phi)
	if bt, ok := phi.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsBoolean == 0 {
		return nil
	}
	region := map[*ssa.BasicBlock]bool{b: true}
	if !x.boolRegion(b, join, region, 0) {
		return nil
	}
	for _, p := range join.Preds {
		if !region[p] {
			return nil
		}
	}
	pos := x.pos
	r := x.joinFrom(fr, st, b, join, c)
	x.cur, x.pos = st, pos
	fr.env[fr.info.num[phi]] = r
	return join
}

func (x *X) boolRegion(b, join *ssa.BasicBlock, region map[*ssa.BasicBlock]bool, n int) bool {
	for _, s := range b.Succs {
		if s == join {
			continue
		}
		if n > 40 || len(s.Preds) != 1 || region[s] {
			return false
		}
		region[s] = true
		for _, in := range s.Instrs {
			switch in := in.(type) {
			case *ssa.DebugRef, *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.Field, *ssa.Slice, *ssa.Convert, *ssa.ChangeType, *ssa.MakeClosure, *ssa.If, *ssa.Jump, *ssa.Extract, *ssa.Lookup:
			case *ssa.Call:
				if x.spec == 0 && !x.pureCall(in) {
					return false
				}
			default:
				return false
			}
		}
		if !x.boolRegion(s, join, region, n+1) {
			return false
		}
	}
	return true
}

// pureCall: the call is of a specification function.
func (x *X) pureCall(in *ssa.Call) bool {
	if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
		return bi.Name() == "len" || bi.Name() == "cap"
	}
	fn := in.Call.StaticCallee()
	if fn == nil || !x.P.inOverlay(fn) {
		return false
	}
	switch n := fn.Name(); n {
	case "vcForall", "vcExists", "vcForallByte", "vcForallRune", "vcSame", "vcEq":
		return true
	default:
		for _, p := range []string{"spec_", "rec_", "ens_", "req_", "Spec", "ufc_"} {
			if strings.HasPrefix(n, p) {
				return true
			}
		}
	}
	return false
}

func (x *X) joinFrom(fr *Frame, st *State, b, join *ssa.BasicBlock, c *Term) *Term {
	var edge func(from, to *ssa.BasicBlock, st *State) *Term
	edge = func(from, to *ssa.BasicBlock, st *State) *Term {
		if to == join {
			return x.phiVals(fr, join, from)[0].(*Term)
		}
		for _, in := range to.Instrs {
			x.cur = st
			if p := in.Pos(); p.IsValid() {
				x.pos = p
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
			case *ssa.Jump:
				return edge(to, to.Succs[0], st)
			case *ssa.If:
				return x.joinFrom(fr, st, to, join, x.get(fr, in.Cond).(*Term))
			case *ssa.Call:
				fnv := x.get(fr, in.Call.Value)
				var args []Val
				for _, a := range in.Call.Args {
					args = append(args, x.get(fr, a))
				}
				x.spec++
				outs := x.dispatch(fr, st, &in.Call, fnv, args)
				x.spec--
				fr.env[fr.info.num[in]] = outs[0].ret
			default:
				v := in.(ssa.Value)
				fr.env[fr.info.num[v]] = x.value(fr, st, v)
			}
		}
		panic("block without end")
	}
	switch x.quick(st, c) {
	case 1:
		return edge(b, b.Succs[0], st)
	case -1:
		return edge(b, b.Succs[1], st)
	}
	s1, s2 := st.clone(), st.clone()
	x.assume(s1, c)
	x.assume(s2, x.Not(c))
	v1 := edge(b, b.Succs[0], s1)
	v2 := edge(b, b.Succs[1], s2)
	x.cur = st
	return x.Ite(c, v1, v2)
}

// branch decides a condition: 1, -1 or 0 (both feasible).
func (x *X) branch(st *State, c *Term) int {
	if q := x.quick(st, c); q != 0 {
		return q
	}
	if x.spec > 0 || x.dry > 0 {
		return 0
	}
	if x.fast(st, x.Not(c)) {
		return -1
	}
	if x.fast(st, c) {
		return 1
	}
	return 0
}

func (x *X) phiVals(fr *Frame, b, prev *ssa.BasicBlock) []Val {
	idx := -1
	for k, p := range b.Preds {
		if p == prev {
			idx = k
		}
	}
	var vs []Val
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, x.get(fr, p.Edges[idx]))
	}
	return vs
}

func (x *X) setPhis(fr *Frame, b *ssa.BasicBlock, vs []Val) {
	for k, v := range vs {
		fr.env[fr.info.num[b.Instrs[k].(*ssa.Phi)]] = v
	}
}

func (x *X) doPhis(fr *Frame, b, prev *ssa.BasicBlock) {
	x.setPhis(fr, b, x.phiVals(fr, b, prev))
}

// ---- pure values ----

func (x *X) value(fr *Frame, st *State, in ssa.Value) Val {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		return &VPtr{x.alloc(st, t, in.Comment), nil, t}
	case *ssa.BinOp:
		return x.binop(st, in.Op, x.get(fr, in.X), x.get(fr, in.Y), in.X.Type(), in.Y.Type(), in.Type())
	case *ssa.UnOp:
		v := x.get(fr, in.X)
		switch in.Op {
		case token.MUL:
			return x.load(st, v)
		case token.NOT:
			return x.Not(v.(*Term))
		case token.SUB:
			if ii, ok := basicInfo(in.Type()); ok {
				if ii.bv {
					return x.BvNeg(v.(*Term))
				}
				return x.wrap(st, x.MulC(v.(*Term), big.NewInt(-1)), ii)
			}
			return x.RealOp("-", Real, v.(*Term))
		case token.XOR:
			ii, _ := basicInfo(in.Type())
			if ii.bv {
				return x.BvNot(v.(*Term))
			}
			if ii.signed {
				return x.Sub(x.I(-1), v.(*Term))
			}
			return x.Sub(x.IBig(maxUint64), v.(*Term))
		}
	case *ssa.ChangeType:
		return x.changeType(x.get(fr, in.X), in.Type())
	case *ssa.ChangeInterface:
		return x.get(fr, in.X)
	case *ssa.Convert:
		return x.convert(st, x.get(fr, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		return &VIface{in.X.Type(), x.get(fr, in.X)}
	case *ssa.MakeClosure:
		f := &VFunc{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.free = append(f.free, x.get(fr, b))
		}
		return f
	case *ssa.MakeMap:
		o := x.newObj(in.Type(), false, "map")
		mt := under(in.Type()).(*types.Map)
		st.heap[o.id] = &MapC{k: mt.Key(), v: mt.Elem(), pos: map[string]int{}}
		return &VMap{o, mt}
	case *ssa.MakeSlice:
		el := under(in.Type()).(*types.Slice).Elem()
		l, c := x.get(fr, in.Len).(*Term), x.get(fr, in.Cap).(*Term)
		x.oblige(st, "make length in range", x.And(x.Le(x.I(0), l), x.Le(l, c), x.Le(c, x.IBig(maxMake))))
		o := x.newObj(el, true, "make")
		o.born = o.id
		st.heap[o.id] = Seq(&SeqZero{el})
		return &VSlice{o, x.I(0), l, c, x.False, el}
	case *ssa.Slice:
		return x.slice(fr, st, in)
	case *ssa.FieldAddr:
		t := in.Type().(*types.Pointer).Elem()
		return x.fieldAddr(st, x.get(fr, in.X), in.Field, t)
	case *ssa.Field:
		v := x.get(fr, in.X)
		switch v := v.(type) {
		case *VStruct:
			return v.f[in.Field]
		case *VOpaque:
			return x.opaqueField(v, in.Field)
		}
	case *ssa.IndexAddr:
		return x.indexAddr(st, x.get(fr, in.X), x.get(fr, in.Index), in)
	case *ssa.Index:
		v := x.get(fr, in.X)
		i := x.toInt(x.get(fr, in.Index).(*Term), in.Index.Type())
		switch v := v.(type) {
		case *VStr:
			x.oblige(st, "index in range", x.And(x.Le(x.I(0), i), x.Lt(i, v.len)))
			return x.seqGet(v.seq, x.Add(v.off, i))
		case *VArr:
			x.oblige(st, "index in range", x.And(x.Le(x.I(0), i), x.Lt(i, x.I(int64(len(v.e))))))
			return x.arrGet(v, i)
		}
	case *ssa.Lookup:
		v := x.get(fr, in.X)
		k := x.get(fr, in.Index)
		switch v := v.(type) {
		case *VStr:
			i := x.toInt(k.(*Term), in.Index.Type())
			x.oblige(st, "index in range", x.And(x.Le(x.I(0), i), x.Lt(i, v.len)))
			return x.seqGet(v.seq, x.Add(v.off, i))
		case *VMap:
			val, ok := x.mapGet(st, v, k)
			if in.CommaOk {
				return &VTuple{[]Val{val, ok}}
			}
			return val
		}
	case *ssa.Extract:
		return x.get(fr, in.Tuple).(*VTuple).v[in.Index]
	case *ssa.Range:
		return x.rangeIter(st, x.get(fr, in.X))
	case *ssa.Next:
		return x.next(st, x.get(fr, in.Iter).(*VIter))
	}
	x.unsupported(fmt.Sprintf("value %T %s", in, in))
	return nil
}

func (x *X) changeType(v Val, t types.Type) Val {
	switch v := v.(type) {
	case *VStruct:
		return &VStruct{t, v.f}
	case *VSlice:
		w := *v
		w.elem = under(t).(*types.Slice).Elem()
		return &w
	case *VMap:
		return &VMap{v.obj, under(t).(*types.Map)}
	}
	return v
}

func (x *X) toInt(t *Term, ty types.Type) *Term {
	if t.sort == Int {
		return t
	}
	ii, _ := basicInfo(ty)
	if ii.signed {
		return x.B2IS(t)
	}
	return x.B2I(t)
}

func (x *X) wrap(st *State, t *Term, ii intInfo) *Term {
	lo, hi := intBounds(ii)
	r := x.Rng(t)
	if r.lo != nil && r.hi != nil && r.lo.Cmp(lo) >= 0 && r.hi.Cmp(hi) <= 0 {
		return t
	}
	if x.spec > 0 {
		return t // specifications use mathematical integers
	}
	in := x.And(x.Le(x.IBig(lo), t), x.Le(t, x.IBig(hi)))
	if in.isTrue() || x.dry > 0 {
		return t
	}
	if x.decideTrue(st, in) {
		return t
	}
	m := new(big.Int).Lsh(bigOne, 64)
	if ii.signed {
		h := new(big.Int).Lsh(bigOne, 63)
		return x.Sub(x.ModE(x.Add(t, x.IBig(h)), x.IBig(m)), x.IBig(h))
	}
	return x.ModE(t, x.IBig(m))
}

func (x *X) decideTrue(st *State, t *Term) bool {
	if q := x.quick(st, t); q != 0 {
		return q == 1
	}
	if x.spec > 0 || x.dry > 0 || t.bound {
		return false
	}
	return x.fast(st, t)
}

// ---- arithmetic ----

func (x *X) binop(st *State, op token.Token, a, b Val, ta, tb, tr types.Type) Val {
	switch op {
	case token.EQL:
		return x.valEq(st, a, b, ta)
	case token.NEQ:
		return x.Not(x.valEq(st, a, b, ta))
	}
	if isString(ta) {
		sa, sb := a.(*VStr), b.(*VStr)
		switch op {
		case token.ADD:
			return x.strConcat(sa, sb)
		}
		if ca, ok := x.strConst(sa); ok {
			if cb, ok := x.strConst(sb); ok {
				switch op {
				case token.LSS:
					return x.B(ca < cb)
				case token.GTR:
					return x.B(ca > cb)
				case token.LEQ:
					return x.B(ca <= cb)
				case token.GEQ:
					return x.B(ca >= cb)
				}
			}
		}
		x.unsupported("string comparison")
	}
	p, q := a.(*Term), b.(*Term)
	if isFloat(ta) {
		switch op {
		case token.ADD:
			return x.rnd(ta, x.RealOp("+", Real, p, q))
		case token.SUB:
			return x.rnd(ta, x.RealOp("-", Real, p, q))
		case token.MUL:
			return x.rnd(ta, x.RealOp("*", Real, p, q))
		case token.QUO:
			return x.rnd(ta, x.RealOp("/", Real, p, q))
		case token.LSS:
			return x.RealOp("<", Bool, p, q)
		case token.LEQ:
			return x.RealOp("<=", Bool, p, q)
		case token.GTR:
			return x.RealOp("<", Bool, q, p)
		case token.GEQ:
			return x.RealOp("<=", Bool, q, p)
		}
	}
	if isBool(ta) {
		switch op {
		case token.AND, token.LAND:
			return x.And(p, q)
		case token.OR, token.LOR:
			return x.Or(p, q)
		}
	}
	ii, ok := basicInfo(ta)
	if !ok {
		x.unsupported("binop on " + ta.String())
	}
	if op == token.SHL || op == token.SHR {
		n := x.toInt(q, tb)
		jj, _ := basicInfo(tb)
		if jj.signed {
			x.oblige(st, "shift count non-negative", x.Le(x.I(0), n))
		}
		return x.shift(st, op == token.SHL, p, n, ii)
	}
	if ii.bv {
		switch op {
		case token.ADD:
			return x.BvAdd(p, q)
		case token.SUB:
			return x.BvSub(p, q)
		case token.MUL:
			return x.BvMul(p, q)
		case token.QUO, token.REM:
			x.oblige(st, "division by zero", x.Ne(q, x.BVI(0, ii.bits)))
			if ii.signed {
				r := x.intDiv(st, op, x.B2IS(p), x.B2IS(q))
				return x.I2B(r, ii.bits)
			}
			if op == token.QUO {
				return x.BvUdiv(p, q)
			}
			return x.BvUrem(p, q)
		case token.AND:
			return x.BvAnd(p, q)
		case token.OR:
			return x.BvOr(p, q)
		case token.XOR:
			return x.BvXor(p, q)
		case token.AND_NOT:
			return x.BvAnd(p, x.BvNot(q))
		case token.LSS:
			if ii.signed {
				return x.BvSlt(p, q)
			}
			return x.BvUlt(p, q)
		case token.LEQ:
			if ii.signed {
				return x.BvSle(p, q)
			}
			return x.BvUle(p, q)
		case token.GTR:
			if ii.signed {
				return x.BvSlt(q, p)
			}
			return x.BvUlt(q, p)
		case token.GEQ:
			if ii.signed {
				return x.BvSle(q, p)
			}
			return x.BvUle(q, p)
		}
	}
	switch op {
	case token.ADD:
		return x.wrap(st, x.Add(p, q), ii)
	case token.SUB:
		return x.wrap(st, x.Sub(p, q), ii)
	case token.MUL:
		return x.wrap(st, x.Mul(p, q), ii)
	case token.QUO, token.REM:
		x.oblige(st, "division by zero", x.Ne(q, x.I(0)))
		return x.intDiv(st, op, p, q)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return x.intBits(st, op, p, q, ii)
	case token.LSS:
		return x.Lt(p, q)
	case token.LEQ:
		return x.Le(p, q)
	case token.GTR:
		return x.Lt(q, p)
	case token.GEQ:
		return x.Le(q, p)
	}
	x.unsupported("binop " + op.String())
	return nil
}

// intDiv is Go's truncated division on mathematical integers.
func (x *X) intDiv(st *State, op token.Token, p, q *Term) *Term {
	neg1 := big.NewInt(-1)
	quo := func(p, q *Term) *Term {
		np := x.MulC(p, neg1)
		nonneg := x.Le(x.I(0), p)
		switch x.decideQ(st, nonneg) {
		case 1:
			return x.DivE(p, q)
		case -1:
			return x.MulC(x.DivE(np, q), neg1)
		}
		return x.Ite(nonneg, x.DivE(p, q), x.MulC(x.DivE(np, q), neg1))
	}
	pos := x.Lt(x.I(0), q)
	var d *Term
	switch x.decideQ(st, pos) {
	case 1:
		if op == token.REM && q.isConst() {
			nonneg := x.Le(x.I(0), p)
			switch x.decideQ(st, nonneg) {
			case 1:
				return x.ModE(p, q)
			case -1:
				return x.MulC(x.ModE(x.MulC(p, neg1), q), neg1)
			}
			return x.Ite(nonneg, x.ModE(p, q), x.MulC(x.ModE(x.MulC(p, neg1), q), neg1))
		}
		d = quo(p, q)
	case -1:
		d = x.MulC(quo(p, x.MulC(q, neg1)), neg1)
	default:
		d = x.Ite(pos, quo(p, q), x.MulC(quo(p, x.MulC(q, neg1)), neg1))
	}
	if op == token.QUO {
		return d
	}
	return x.Sub(p, x.Mul(d, q))
}

func (x *X) decideQ(st *State, t *Term) int {
	if q := x.quick(st, t); q != 0 {
		return q
	}
	if x.spec > 0 || x.dry > 0 || t.bound {
		return 0
	}
	return x.decide(st, t)
}

func (x *X) intBits(st *State, op token.Token, p, q *Term, ii intInfo) *Term {
	if p.isConst() && !q.isConst() && op != token.AND_NOT {
		p, q = q, p
	}
	if p.isConst() && q.isConst() {
		a, b := new(big.Int).Set(p.ival), new(big.Int).Set(q.ival)
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a, b)
		case token.OR:
			r.Or(a, b)
		case token.XOR:
			r.Xor(a, b)
		case token.AND_NOT:
			r.AndNot(a, b)
		}
		return x.IBig(r)
	}
	if q.isConst() && q.ival.Sign() >= 0 && isLowMask(q.ival) {
		m := x.IBig(new(big.Int).Add(q.ival, bigOne))
		switch op {
		case token.AND:
			return x.ModE(p, m)
		case token.AND_NOT:
			return x.Sub(p, x.ModE(p, m))
		}
	}
	if q.isConst() && q.ival.Sign() > 0 && op == token.AND {
		// contiguous mask: shift out
		tz := q.ival.TrailingZeroBits()
		s := new(big.Int).Rsh(q.ival, tz)
		if isLowMask(s) {
			k := new(big.Int).Lsh(bigOne, tz)
			return x.MulC(x.ModE(x.DivE(p, x.IBig(k)), x.IBig(new(big.Int).Add(s, bigOne))), k)
		}
	}
	// via bit vectors of a sufficient width
	w := 64
	for _, c := range []int{8, 16, 32} {
		lim := new(big.Int).Lsh(bigOne, uint(c))
		in := func(t *Term) bool {
			r := x.Rng(t)
			if r.lo != nil && r.hi != nil && r.lo.Sign() >= 0 && r.hi.Cmp(lim) < 0 {
				return true
			}
			return x.decideTrue(st, x.And(x.Le(x.I(0), t), x.Lt(t, x.IBig(lim))))
		}
		if in(p) && in(q) {
			w = c
			break
		}
	}
	a, b := x.I2B(p, w), x.I2B(q, w)
	var r *Term
	switch op {
	case token.AND:
		r = x.BvAnd(a, b)
	case token.OR:
		r = x.BvOr(a, b)
	case token.XOR:
		r = x.BvXor(a, b)
	case token.AND_NOT:
		r = x.BvAnd(a, x.BvNot(b))
	}
	if w == 64 && ii.signed {
		return x.B2IS(r)
	}
	return x.B2I(r)
}

func (x *X) shift(st *State, left bool, p, n *Term, ii intInfo) *Term {
	if ii.bv {
		return x.BvShiftI(p, n, left, ii.signed)
	}
	one := func(k int64) *Term {
		if k >= 64 {
			if left {
				return x.I(0)
			}
			return x.Ite(x.Lt(p, x.I(0)), x.I(-1), x.I(0))
		}
		m := new(big.Int).Lsh(bigOne, uint(k))
		if left {
			return x.wrap(st, x.MulC(p, m), ii)
		}
		return x.DivE(p, x.IBig(m))
	}
	if n.isConst() {
		return one(n.ival.Int64())
	}
	r := one(64)
	for k := int64(63); k >= 0; k-- {
		r = x.Ite(x.Eq(n, x.I(k)), one(k), r)
	}
	return r
}

func (x *X) convert(st *State, v Val, from, to types.Type) Val {
	fi, fok := basicInfo(from)
	ti, tok := basicInfo(to)
	switch {
	case fok && tok:
		t := v.(*Term)
		switch {
		case fi.bv && ti.bv:
			if ti.bits <= fi.bits {
				return x.Extract(t, ti.bits-1, 0)
			}
			if fi.signed {
				return x.Sext(t, ti.bits)
			}
			return x.Zext(t, ti.bits)
		case fi.bv:
			if fi.signed {
				return x.wrap(st, x.B2IS(t), ti)
			}
			return x.B2I(t)
		case ti.bv:
			return x.I2B(t, ti.bits)
		}
		return x.wrap(st, t, ti)
	case fok && isFloat(to):
		t := x.toInt(v.(*Term), from)
		return x.rnd(to, x.RealOp("to_real", Real, t))
	case isFloat(from) && isFloat(to):
		return v
	case isFloat(from) && tok:
		r := v.(*Term)
		// truncation
		fl := x.RealOp("to_int", Int, r)
		neg := x.RealOp("<", Bool, r, x.RealOp("0.0", Real))
		nfl := x.MulC(x.RealOp("to_int", Int, x.RealOp("-", Real, r)), big.NewInt(-1))
		t := x.Ite(neg, nfl, fl)
		if ti.bv {
			return x.I2B(t, ti.bits)
		}
		return t
	case isString(to):
		switch s := v.(type) {
		case *Term: // rune/byte to string
			var r *Term
			if fi.bv {
				if fi.signed {
					r = x.Sext(s, 32)
				} else {
					r = x.Zext(s, 32)
				}
			} else {
				r = x.I2B(s, 32)
			}
			return x.runeStr(r)
		case *VSlice:
			if e, _ := basicInfo(s.elem); e.bits == 8 {
				return x.bytesToStr(st, s)
			}
			return x.runesToStr(st, s)
		case *VStr:
			return s
		}
	case isString(from):
		s := v.(*VStr)
		if sl, ok := under(to).(*types.Slice); ok {
			if e, _ := basicInfo(sl.Elem()); e.bits == 8 {
				return x.strToBytes(st, s, sl.Elem())
			}
			return x.strToRunes(st, s, sl.Elem())
		}
	}
	if _, ok := under(to).(*types.Pointer); ok {
		return v
	}
	x.unsupported("conversion " + from.String() + " to " + to.String())
	return nil
}

// ---- equality ----

func (x *X) valEq(st *State, a, b Val, t types.Type) *Term {
	switch av := a.(type) {
	case *Term:
		if bv, ok := b.(*Term); ok {
			if av.sort == Real {
				return x.RealOp("=", Bool, av, bv)
			}
			return x.Eq(av, bv)
		}
	case *VStr:
		return x.strEq(st, av, b.(*VStr))
	case *VStruct:
		bv := b.(*VStruct)
		r := x.True
		ut := under(av.typ).(*types.Struct)
		for i := range av.f {
			r = x.And(r, x.valEq(st, av.f[i], bv.f[i], ut.Field(i).Type()))
		}
		return r
	case *VArr:
		bv := b.(*VArr)
		r := x.True
		for i := range av.e {
			r = x.And(r, x.valEq(st, av.e[i], bv.e[i], av.elem))
		}
		return r
	case *VSlice:
		bv := b.(*VSlice)
		if bv.obj == nil && bv.isnil.isTrue() {
			return av.isnil
		}
		if av.obj == nil && av.isnil.isTrue() {
			return bv.isnil
		}
	case *VMap:
		bv := b.(*VMap)
		if av.obj == nil || bv.obj == nil {
			return x.And(x.mapNil(st, av), x.mapNil(st, bv))
		}
		return x.B(av.obj == bv.obj)
	case *VFunc:
		if bv, ok := b.(*VFunc); ok {
			return x.B((av.fn == nil && av.bi == nil) == (bv.fn == nil && bv.bi == nil))
		}
		if bv, ok := b.(*VOpaque); ok && av.fn == nil {
			return x.Eq(bv.t, x.I(0))
		}
	case *VPtr, *VSymPtr:
		return x.ptrEq(a, b)
	case *VIface, *VSymIface:
		return x.ifaceEq(st, a, b)
	case *VOpaque:
		if bv, ok := b.(*VFunc); ok && bv.fn == nil && av.kind == "func" {
			return x.Eq(av.t, x.I(0))
		}
		if bv, ok := b.(*VOpaque); ok && bv.kind == av.kind && len(av.v) == len(bv.v) && len(av.v) > 0 {
			r := x.True
			for i := range av.v {
				r = x.And(r, x.valEq(st, av.v[i], bv.v[i], t))
			}
			return r
		}
	}
	x.unsupported(fmt.Sprintf("equality of %T and %T", a, b))
	return nil
}

func (x *X) ptrEq(a, b Val) *Term {
	pa, oka := a.(*VPtr)
	pb, okb := b.(*VPtr)
	if oka && okb {
		if pa.obj == nil || pb.obj == nil {
			return x.B(pa.obj == nil && pb.obj == nil)
		}
		if pa.obj != pb.obj || len(pa.path) != len(pb.path) {
			return x.False
		}
		r := x.True
		for i := range pa.path {
			if pa.path[i].idx != nil && pb.path[i].idx != nil {
				r = x.And(r, x.Eq(pa.path[i].idx, pb.path[i].idx))
			} else if pa.path[i].field != pb.path[i].field {
				return x.False
			}
		}
		return r
	}
	if oka && pa.obj != nil && len(pa.path) > 0 || okb && pb.obj != nil && len(pb.path) > 0 {
		// interior pointer of a known object against a symbolic one: only nil comparisons matter
		if sp, ok := b.(*VSymPtr); ok && sp.id.isConst() && sp.id.ival.Sign() == 0 {
			return x.False
		}
	}
	return x.Eq(x.ptrID(a), x.ptrID(b))
}

func (x *X) ifaceEq(st *State, a, b Val) *Term {
	ia, oka := a.(*VIface)
	ib, okb := b.(*VIface)
	if oka && okb {
		if ia.typ == nil || ib.typ == nil {
			return x.B(ia.typ == nil && ib.typ == nil)
		}
		if !types.Identical(ia.typ, ib.typ) {
			return x.False
		}
		return x.valEq(st, ia.val, ib.val, ia.typ)
	}
	if oka {
		return x.ifaceEq(st, b, a)
	}
	sa := a.(*VSymIface)
	if okb {
		if ib.typ == nil {
			return x.Eq(sa.id, x.I(0))
		}
		switch ib.val.(type) {
		case *Term, *VStr, *VStruct:
			ok, v := x.ifaceAs(st, sa.id, ib.typ)
			if ok.isFalse() {
				return x.False
			}
			return x.And(ok, x.valEq(st, v, ib.val, ib.typ))
		}
		return x.Eq(sa.id, x.ifaceID(ib))
	}
	return x.Eq(sa.id, b.(*VSymIface).id)
}

func (x *X) typeTag(t types.Type) *Term {
	s := types.TypeString(t, nil)
	n, ok := x.typeTags[s]
	if !ok {
		n = len(x.typeTags) + 1
		x.typeTags[s] = n
	}
	return x.I(int64(n))
}

// foreign: the interface holds a value of a type of the standard library that no assertion names.
func (x *X) foreign(id *Term) {
	x.addGlobalFact(x.Eq(x.boundedT(x.App("iftag", Int, id), bigZero, nil), x.I(0)))
}

// ifaceAs: does the interface hold concrete type t, and the value if so.
func (x *X) ifaceAs(st *State, id *Term, t types.Type) (*Term, Val) {
	switch id.op {
	case OConst:
		if v, ok := x.ifaceVals[id.id]; ok {
			if types.Identical(v.typ, t) {
				return x.True, v.val
			}
			return x.False, x.zero(t)
		}
		return x.False, x.zero(t) // nil
	case OIte:
		o1, v1 := x.ifaceAs(st, id.args[1], t)
		o2, v2 := x.ifaceAs(st, id.args[2], t)
		ok := x.Ite(id.args[0], o1, o2)
		if o1.isFalse() {
			return ok, v2
		}
		if o2.isFalse() {
			return ok, v1
		}
		return ok, x.merge(id.args[0], v1, v2)
	}
	tg := x.boundedT(x.App("iftag", Int, id), bigZero, nil)
	ok := x.And(x.Ne(id, x.I(0)), x.Eq(tg, x.typeTag(t)))
	return ok, x.lift(t, "ifv:"+clean(types.TypeString(t, nil)), []*Term{id})
}

func (x *X) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) []Outcome {
	v := x.get(fr, in.X)
	t := in.AssertedType
	var ok *Term
	var val Val
	if types.IsInterface(t) {
		// assertion to an interface type
		switch v := v.(type) {
		case *VIface:
			ok = x.B(v.typ != nil && types.Implements(v.typ, under(t).(*types.Interface)))
			val = v
		case *VSymIface:
			if types.Implements(in.X.Type(), under(t).(*types.Interface)) {
				ok = x.Ne(v.id, x.I(0))
				val = v
			} else {
				x.unsupported("assertion of symbolic interface to interface")
			}
		}
	} else {
		switch v := v.(type) {
		case *VIface:
			if v.typ != nil && types.Identical(v.typ, t) {
				ok, val = x.True, v.val
			} else {
				ok, val = x.False, x.zero(t)
			}
		case *VSymIface:
			ok, val = x.ifaceAs(st, v.id, t)
		}
	}
	if !in.CommaOk {
		x.oblige(st, "type assertion holds", ok)
		return []Outcome{{st, val}}
	}
	switch x.branch(st, ok) {
	case 1:
		return []Outcome{{st, &VTuple{[]Val{val, x.True}}}}
	case -1:
		return []Outcome{{st, &VTuple{[]Val{x.zero(t), x.False}}}}
	}
	if x.spec > 0 {
		// keep one path; the value is only meaningful where ok holds
		return []Outcome{{st, &VTuple{[]Val{val, ok}}}}
	}
	st2 := st.clone()
	x.assume(st, ok)
	x.assume(st2, x.Not(ok))
	st.dec = append(st.dec, ok)
	st2.dec = append(st2.dec, x.Not(ok))
	return []Outcome{{st, &VTuple{[]Val{val, x.True}}}, {st2, &VTuple{[]Val{x.zero(t), x.False}}}}
}

func (x *X) arrGet(v *VArr, i *Term) Val {
	if i.isConst() {
		return v.e[i.ival.Int64()]
	}
	r := v.e[len(v.e)-1]
	for k := len(v.e) - 2; k >= 0; k-- {
		r = x.merge(x.Eq(i, x.I(int64(k))), v.e[k], r)
	}
	return r
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// atCall runs the ghost code atc_F_G before a call of G in F.
func (x *X) atCall(fr *Frame, st *State, b *ssa.BasicBlock, i int, fnv Val) {
	f, ok := fnv.(*VFunc)
	if !ok || f.fn == nil || fr.fn.Pkg == nil {
		return
	}
	g := x.P.specFns["atc:"+fr.fn.Pkg.Pkg.Path()+":"+fnKey(fr.fn)+"_"+fnKey(f.fn)]
	if g == nil {
		return
	}
	var args []Val
	for _, p := range g.Params {
		v := x.varAt(fr, st, b, i, p.Name())
		if v == nil {
			return
		}
		args = append(args, v)
	}
	x.runGhost(g, args, st)
}

// varAt is the value of a variable before instruction i of b, if it has one.
func (x *X) varAt(fr *Frame, st *State, b *ssa.BasicBlock, i int, name string) Val {
	var best *varDef
	for k := range fr.info.vars[name] {
		d := &fr.info.vars[name][k]
		if d.blk == b && d.pos >= i || d.blk != b && !d.blk.Dominates(b) {
			continue
		}
		if best != nil && best.ptr && !d.ptr {
			continue // a value read from the variable
		}
		if best == nil || d.ptr && !best.ptr || best.blk != d.blk && best.blk.Dominates(d.blk) || best.blk == d.blk && d.pos > best.pos {
			best = d
		}
	}
	if best != nil {
		v := x.get(fr, best.val)
		if best.ptr {
			return x.load(st, v)
		}
		return v
	}
	for k, p := range fr.fn.Params {
		if p.Name() == name {
			return fr.args[k]
		}
	}
	return nil
}
