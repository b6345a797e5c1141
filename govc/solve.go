package main

// Query preparation (skolemisation, instantiation, unfolding), SMT printing, solver processes.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result byte

const (
	RUnknown Result = iota
	RUnsat
	RSat
)

func (r Result) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

// ---- quantifier handling ----

func (c *Ctx) hasQuant(t *Term, memo map[int]bool) bool {
	if t.op == OForall {
		return true
	}
	if v, ok := memo[t.id]; ok {
		return v
	}
	r := false
	if t.sort == Bool || len(t.args) > 0 {
		for _, a := range t.args {
			if c.hasQuant(a, memo) {
				r = true
				break
			}
		}
	}
	memo[t.id] = r
	return r
}

type prep struct {
	c                 *Ctx
	ground            []*Term // QF assertions
	seenG             map[int]bool
	quants            []*qentry
	qseen             map[int]*Term // forall term id -> guard literal (True for top level)
	memo              map[int]bool
	depth             map[int]int // app term id -> depth
	terms             []*Term     // ground select/app terms, in discovery order
	termSet           map[int]bool
	queue             []*Term
	byHead            map[string][]*Term
	ninst             int
	maxInst           int
	fuel              int
	done              map[string]bool
	skol              map[int]map[int]*Term
	visit             map[int]bool
	unfDone           map[int]bool
	skols             []*Term
	asserted, entered map[int]bool
}

type qentry struct {
	f     *Term
	guard *Term
	trigs [][]*Term
	gen   int
}

// nnf returns an equisatisfiable (for asserting) form with foralls only in positive positions,
// and existentials skolemised.
func (p *prep) nnf(t *Term, pos bool) *Term {
	c := p.c
	if !c.hasQuant(t, p.memo) {
		if pos {
			return t
		}
		return c.Not(t)
	}
	switch t.op {
	case ONot:
		return p.nnf(t.args[0], !pos)
	case OAnd, OOr:
		var as []*Term
		for _, a := range t.args {
			as = append(as, p.nnf(a, pos))
		}
		if (t.op == OAnd) == pos {
			return c.And(as...)
		}
		return c.Or(as...)
	case OIte:
		a, b := p.nnf(t.args[1], pos), p.nnf(t.args[2], pos)
		return c.And(c.Or(p.nnf(t.args[0], false), a), c.Or(p.nnf(t.args[0], true), b))
	case OEq:
		a, b := t.args[0], t.args[1]
		if pos {
			return c.And(c.Or(p.nnf(a, false), p.nnf(b, true)), c.Or(p.nnf(a, true), p.nnf(b, false)))
		}
		return c.And(c.Or(p.nnf(a, true), p.nnf(b, true)), c.Or(p.nnf(a, false), p.nnf(b, false)))
	case OForall:
		n := len(t.args) - 1
		if pos {
			return t
		}
		if t.bound {
			return c.Not(t) // handled when the enclosing forall is instantiated
		}
		if p.asserted[t.id] {
			return c.False
		}
		m := map[int]*Term{}
		sk, ok := p.skol[t.id]
		if !ok {
			sk = map[int]*Term{}
			for _, v := range t.args[:n] {
				sk[v.id] = c.Fresh("sk_"+v.name, v.sort)
				p.skols = append(p.skols, sk[v.id])
			}
			p.skol[t.id] = sk
		}
		for k, v := range sk {
			m[k] = v
		}
		return c.And(c.Not(p.guardVar(t)), p.nnf(c.Subst(t.args[n], m), false))
	}
	panic("nnf: quantifier in term position " + t.String())
}

func (p *prep) assert(t *Term) {
	p.assertNNF(p.nnf(t, true))
}

func (p *prep) assertNNF(t *Term) {
	c := p.c
	if t.isTrue() {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			p.assertNNF(a)
		}
		return
	}
	if t.op == OForall {
		if p.asserted[t.id] {
			return
		}
		p.asserted[t.id] = true
		if g, ok := p.qseen[t.id]; ok {
			p.addGround(g)
		}
		if p.entered[t.id] {
			return
		}
		p.entered[t.id] = true
		p.quants = append(p.quants, &qentry{f: t, guard: c.True, trigs: p.triggers(t)})
		return
	}
	if !c.hasQuant(t, p.memo) {
		p.addGround(t)
		return
	}
	// replace forall atoms by guards
	p.addGround(p.guardQ(t))
}

// guardVar stands for the truth of a quantified term.
func (p *prep) guardVar(t *Term) *Term {
	g, ok := p.qseen[t.id]
	if !ok {
		g = p.c.Fresh("q", Bool)
		p.qseen[t.id] = g
	}
	return g
}

func (p *prep) guardQ(t *Term) *Term {
	c := p.c
	if !c.hasQuant(t, p.memo) {
		return t
	}
	switch t.op {
	case OForall:
		if p.asserted[t.id] {
			return c.True
		}
		g := p.guardVar(t)
		if !p.entered[t.id] {
			p.entered[t.id] = true
			p.quants = append(p.quants, &qentry{f: t, guard: g, trigs: p.triggers(t)})
		}
		return g
	case OAnd, OOr:
		var as []*Term
		for _, a := range t.args {
			as = append(as, p.guardQ(a))
		}
		return c.nary(t.op, as)
	}
	panic("guardQ " + t.String())
}

func (p *prep) addGround(t *Term) {
	if p.seenG[t.id] {
		return
	}
	p.seenG[t.id] = true
	p.ground = append(p.ground, t)
	p.collect(t, 0)
}

// collect registers ground select/app terms.
func (p *prep) collect(t *Term, d int) {
	if p.visit[t.id] {
		return
	}
	p.visit[t.id] = true
	if t.op == OForall {
		return
	}
	for _, a := range t.args {
		p.collect(a, d)
	}
	if t.bound {
		return
	}
	if t.op == OSelect || t.op == OApp {
		if !p.termSet[t.id] {
			p.termSet[t.id] = true
			p.terms = append(p.terms, t)
			h := headKey(t)
			p.byHead[h] = append(p.byHead[h], t)
			p.queue = append(p.queue, t)
		}
	}
}

func headKey(t *Term) string {
	switch t.op {
	case OSelect:
		a := t.args[0]
		n := 1
		for a.op == OSelect {
			a = a.args[0]
			n++
		}
		return fmt.Sprintf("s%d.%d", n, a.id)
	case OApp:
		return "a" + t.name
	}
	return ""
}

// triggers picks candidate trigger sets for a forall.
func (p *prep) triggers(f *Term) [][]*Term {
	c := p.c
	n := len(f.args) - 1
	vars := map[int]bool{}
	for _, v := range f.args[:n] {
		vars[v.id] = true
	}
	var cands []*Term
	cover := map[int]map[int]bool{}
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] || !t.bound {
			return
		}
		seen[t.id] = true
		if t.op == OForall {
			walk(t.args[len(t.args)-1])
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		if t.op == OSelect || t.op == OApp {
			vs := map[int]bool{}
			ok := true
			var fv func(t *Term)
			fv = func(t *Term) {
				if !t.bound {
					return
				}
				if t.op == OBound {
					if vars[t.id] {
						vs[t.id] = true
					} else {
						ok = false
					}
					return
				}
				for _, a := range t.args {
					fv(a)
				}
			}
			fv(t)
			if ok && len(vs) > 0 && p.matchable(t, vars) {
				cands = append(cands, t)
				cover[t.id] = vs
			}
		}
	}
	walk(f.args[n])
	_ = c
	var out [][]*Term
	for _, t := range cands {
		if len(cover[t.id]) == n {
			out = append(out, []*Term{t})
		}
	}
	if len(out) > 0 || n == 1 {
		return out
	}
	for i, a := range cands {
		for _, b := range cands[i+1:] {
			m := map[int]bool{}
			for k := range cover[a.id] {
				m[k] = true
			}
			for k := range cover[b.id] {
				m[k] = true
			}
			if len(m) == n && len(cover[a.id]) < n && len(cover[b.id]) < n {
				out = append(out, []*Term{a, b})
			}
		}
	}
	return out
}

// matchable: every occurrence of a bound variable is directly an argument, or a linear term with unit coefficient
func (p *prep) matchable(t *Term, vars map[int]bool) bool {
	for _, a := range t.args {
		if !a.bound {
			continue
		}
		switch a.op {
		case OBound:
		case OLin:
			nb := 0
			for i, x := range a.args {
				if x.bound {
					if x.op != OBound || a.coefs[i].CmpAbs(bigOne) != 0 {
						return false
					}
					nb++
				}
			}
			if nb > 1 {
				return false
			}
		case OSelect, OApp, OB2I:
			if !p.matchable(a, vars) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (p *prep) match(pat, g *Term, s map[int]*Term) bool {
	c := p.c
	if !pat.bound {
		return pat == g
	}
	switch pat.op {
	case OBound:
		if x, ok := s[pat.id]; ok {
			return x == g
		}
		if pat.sort != g.sort {
			return false
		}
		s[pat.id] = g
		return true
	case OLin:
		var v *Term
		var k *big.Int
		rest := newLin()
		rest.k.Set(pat.ival)
		for i, x := range pat.args {
			if x.op == OBound {
				if y, ok := s[x.id]; ok {
					rest.add(y, pat.coefs[i])
					continue
				}
				v, k = x, pat.coefs[i]
				continue
			}
			rest.add(x, pat.coefs[i])
		}
		r := c.fromLin(rest)
		if v == nil {
			return r == g
		}
		// k*v + rest = g
		s[v.id] = c.MulC(c.Sub(g, r), k)
		return true
	}
	if pat.op != g.op || pat.name != g.name || len(pat.args) != len(g.args) || pat.sort != g.sort || pat.k1 != g.k1 || pat.k2 != g.k2 {
		return false
	}
	// match simple args first
	for i := range pat.args {
		if !p.match(pat.args[i], g.args[i], s) {
			return false
		}
	}
	return true
}

func (p *prep) instantiate(q *qentry, s map[int]*Term) {
	if p.ninst >= p.maxInst {
		return
	}
	c := p.c
	n := len(q.f.args) - 1
	key := fmt.Sprint(q.f.id)
	for _, v := range q.f.args[:n] {
		t, ok := s[v.id]
		if !ok || t.bound {
			return
		}
		key += fmt.Sprintf(",%d", t.id)
	}
	if p.done[key] {
		return
	}
	p.done[key] = true
	p.ninst++
	b := c.Subst(q.f.args[n], s)
	if q.guard.isTrue() {
		p.assert(b)
	} else {
		nb := p.nnf(b, true)
		p.assertNNF(c.Or(c.Not(q.guard), nb))
	}
}

func copyM(m map[int]*Term) map[int]*Term {
	r := make(map[int]*Term, len(m)+1)
	for k, v := range m {
		r[k] = v
	}
	return r
}

// run saturates instantiation up to the limits.
func (p *prep) run(rounds int, extra []*Term) {
	c := p.c
	nextra := 0
	for r := 0; r < rounds; r++ {
		// unfold definitions and element facts for newly seen terms
		for d := 0; d < 2; d++ {
			q := p.queue
			p.queue = nil
			for _, t := range q {
				p.facts(t, r)
			}
		}
		q0 := len(p.ground)
		nq := len(p.quants)
		for qi := 0; qi < len(p.quants); qi++ {
			q := p.quants[qi]
			for _, tr := range q.trigs {
				p.matchSet(q, tr, map[int]*Term{})
			}
		}
		// without triggers: skolem constants, then a limited number of other variables
		for pass := 0; pass < 2; pass++ {
			for qi := 0; qi < len(p.quants); qi++ {
				q := p.quants[qi]
				if len(q.f.args) != 2 || len(q.trigs) != 0 {
					continue
				}
				if pass == 0 {
					for i, e := range p.skols {
						if i < 24 && e.sort == q.f.args[0].sort {
							p.instantiate(q, map[int]*Term{q.f.args[0].id: e})
						}
					}
					continue
				}
				for _, e := range extra {
					if e.sort == q.f.args[0].sort && nextra < p.maxInst/3 {
						n0 := p.ninst
						p.instantiate(q, map[int]*Term{q.f.args[0].id: e})
						nextra += p.ninst - n0
					}
				}
			}
		}
		if len(p.ground) == q0 && len(p.quants) == nq && len(p.queue) == 0 {
			break
		}
	}
	for _, t := range p.queue {
		p.facts(t, 99)
	}
	p.queue = nil
	_ = c
}

func (p *prep) matchSet(q *qentry, tr []*Term, s map[int]*Term) {
	if p.ninst >= p.maxInst {
		return
	}
	if len(tr) == 0 {
		p.instantiate(q, s)
		return
	}
	gs := p.byHead[headKey(tr[0])]
	for i := 0; i < len(gs); i++ {
		s2 := copyM(s)
		if p.match(tr[0], gs[i], s2) {
			p.matchSet(q, tr[1:], s2)
		}
	}
}

// facts adds unfolding/element facts for a ground term.
func (p *prep) facts(t *Term, round int) {
	c := p.c
	if p.unfDone[t.id] {
		return
	}
	if t.op == OSelect {
		a := t.args[0]
		for a.op == OSelect {
			a = a.args[0]
		}
		if f, ok := c.elemFact[a.name]; ok {
			p.unfDone[t.id] = true
			if x := f(t); x != nil {
				p.assert(x)
			}
		}
		return
	}
	if t.op == OApp {
		if f, ok := c.unfold[t.name]; ok {
			if round < p.fuel {
				p.unfDone[t.id] = true
				for _, x := range f(t.args, t) {
					p.assert(x)
				}
			}
		}
	}
}

type Query struct {
	Hyps []*Term
	Goal *Term // to be proved
}

// Prepare returns ground assertions whose unsatisfiability proves the goal.
func (c *Ctx) Prepare(q *Query, maxInst, rounds, fuel int) *prep {
	p := &prep{c: c, seenG: map[int]bool{}, asserted: map[int]bool{}, entered: map[int]bool{}, qseen: map[int]*Term{}, memo: map[int]bool{}, termSet: map[int]bool{}, byHead: map[string][]*Term{}, maxInst: maxInst, fuel: fuel, done: map[string]bool{}, skol: map[int]map[int]*Term{}, visit: map[int]bool{}, unfDone: map[int]bool{}}
	if q.Goal != nil {
		p.assertNNF(p.nnf(q.Goal, false))
	}
	for _, h := range q.Hyps {
		p.assert(h)
	}
	var extra []*Term
	if rounds > 0 {
		seen := map[int]bool{}
		for _, g := range p.ground {
			c.intAtoms(g, seen, &extra)
		}
		if len(extra) > 24 {
			extra = extra[:24]
		}
	}
	p.run(rounds, extra)
	if os.Getenv("PREPDBG") != "" {
		fmt.Println("prep", rounds, fuel, "inst", p.ninst, maxInst, "ground", len(p.ground), "quants", len(p.quants), "skols", len(p.skols), "extra", len(extra))
	}
	return p
}

func (c *Ctx) intAtoms(t *Term, seen map[int]bool, out *[]*Term) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == OVar && (t.sort == Int || t.sort.kind == SBV) {
		*out = append(*out, t)
	}
	for _, a := range t.args {
		c.intAtoms(a, seen, out)
	}
}

// ---- printing ----

type printer struct {
	c     *Ctx
	decls strings.Builder
	defs  strings.Builder
	dseen map[string]bool
	names map[int]string
	uses  map[int]int
	bnds  []string
	bseen map[int]bool
}

func sym(s string) string {
	return "|" + s + "|"
}

func (p *printer) declare(name string, doms []string, res string) {
	if p.dseen[name] {
		return
	}
	p.dseen[name] = true
	fmt.Fprintf(&p.decls, "(declare-fun %s (%s) %s)\n", name, strings.Join(doms, " "), res)
}

func intLit(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func bvLit(n *big.Int, w int) string { return fmt.Sprintf("(_ bv%s %d)", n.String(), w) }

// pr returns the text of a term; shared ground nodes are let-bound with define-fun.
func (p *printer) pr(t *Term) string {
	if s, ok := p.names[t.id]; ok {
		return s
	}
	s := p.pr0(t)
	if !t.bound && len(t.args) > 0 && p.uses[t.id] > 1 && len(s) > 24 {
		n := fmt.Sprintf("t%d", t.id)
		fmt.Fprintf(&p.defs, "(define-fun %s () %s %s)\n", n, t.sort.str, s)
		s = n
	}
	if !t.bound {
		p.names[t.id] = s
	}
	return s
}

func (p *printer) bounds(t *Term) {
	if t.bound || p.bseen[t.id] {
		return
	}
	p.bseen[t.id] = true
	if b, ok := p.c.bounds[t.id]; ok {
		s := p.pr(t)
		if b.lo != nil {
			p.bnds = append(p.bnds, fmt.Sprintf("(assert (<= %s %s))", intLit(b.lo), s))
		}
		if b.hi != nil {
			p.bnds = append(p.bnds, fmt.Sprintf("(assert (<= %s %s))", s, intLit(b.hi)))
		}
	}
}

func (p *printer) pr0(t *Term) string {
	nary := func(op string) string {
		var b strings.Builder
		b.WriteString("(" + op)
		for _, a := range t.args {
			b.WriteString(" " + p.pr(a))
		}
		b.WriteString(")")
		return b.String()
	}
	switch t.op {
	case OConst:
		switch t.sort.kind {
		case SBool:
			if t.ival.Sign() != 0 {
				return "true"
			}
			return "false"
		case SInt:
			return intLit(t.ival)
		case SBV:
			return bvLit(t.ival, t.sort.n)
		}
	case OVar:
		p.declare(sym(t.name), nil, t.sort.str)
		return sym(t.name)
	case OBound:
		return sym(t.name)
	case OLin:
		var b strings.Builder
		b.WriteString("(+")
		for i, a := range t.args {
			s := p.pr(a)
			if t.coefs[i].Cmp(bigOne) == 0 {
				b.WriteString(" " + s)
			} else {
				b.WriteString(" (* " + intLit(t.coefs[i]) + " " + s + ")")
			}
		}
		if t.ival.Sign() != 0 {
			b.WriteString(" " + intLit(t.ival))
		}
		b.WriteString(")")
		if len(t.args) == 1 && t.ival.Sign() == 0 {
			return "(* " + intLit(t.coefs[0]) + " " + p.pr(t.args[0]) + ")"
		}
		return b.String()
	case OMul:
		return nary("*")
	case ODiv:
		return nary("div")
	case OMod:
		return nary("mod")
	case OLe0:
		d := t.args[0]
		if d.op == OLin {
			// split for readability and solver friendliness
			var l, r []string
			for i, a := range d.args {
				s := p.pr(a)
				k := d.coefs[i]
				if k.CmpAbs(bigOne) != 0 {
					s = "(* " + new(big.Int).Abs(k).String() + " " + s + ")"
				}
				if k.Sign() > 0 {
					l = append(l, s)
				} else {
					r = append(r, s)
				}
			}
			if d.ival.Sign() > 0 {
				l = append(l, d.ival.String())
			} else if d.ival.Sign() < 0 {
				r = append(r, new(big.Int).Neg(d.ival).String())
			}
			return "(<= " + sum(l) + " " + sum(r) + ")"
		}
		return "(<= " + p.pr(d) + " 0)"
	case OEq:
		return nary("=")
	case ONot:
		return nary("not")
	case OAnd:
		return nary("and")
	case OOr:
		return nary("or")
	case OIte:
		return nary("ite")
	case OSelect:
		var idx []*Term
		a := t
		for a.op == OSelect {
			idx = append([]*Term{a.args[1]}, idx...)
			a = a.args[0]
		}
		if a.op != OVar {
			panic("select of non-var array: " + a.String())
		}
		var ds []string
		for _, i := range idx {
			ds = append(ds, i.sort.str)
		}
		n := sym(a.name)
		p.declare(n, ds, t.sort.str)
		s := "(" + n
		for _, i := range idx {
			s += " " + p.pr(i)
		}
		s += ")"
		return s
	case OApp:
		n := sym(t.name)
		var ds []string
		for _, a := range t.args {
			ds = append(ds, a.sort.str)
		}
		p.declare(n, ds, t.sort.str)
		if len(t.args) == 0 {
			return n
		}
		return nary(n)
	case OForall:
		n := len(t.args) - 1
		s := "(forall ("
		for _, v := range t.args[:n] {
			s += "(" + sym(v.name) + " " + v.sort.str + ")"
		}
		return s + ") " + p.pr(t.args[n]) + ")"
	case OB2I:
		return nary("bv2nat")
	case OI2B:
		return fmt.Sprintf("((_ int2bv %d) %s)", t.sort.n, p.pr(t.args[0]))
	case OBvAdd:
		return nary("bvadd")
	case OBvMul:
		return nary("bvmul")
	case OBvAnd:
		return nary("bvand")
	case OBvOr:
		return nary("bvor")
	case OBvXor:
		return nary("bvxor")
	case OBvShlC:
		return fmt.Sprintf("(bvshl %s %s)", p.pr(t.args[0]), bvLit(big.NewInt(int64(t.k1)), t.sort.n))
	case OBvShrC:
		return fmt.Sprintf("(bvlshr %s %s)", p.pr(t.args[0]), bvLit(big.NewInt(int64(t.k1)), t.sort.n))
	case OBvUle:
		return nary("bvule")
	case OBvSle:
		return nary("bvsle")
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k1, t.k2, p.pr(t.args[0]))
	case OConcat:
		return nary("concat")
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.sort.n-t.args[0].sort.n, p.pr(t.args[0]))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.sort.n-t.args[0].sort.n, p.pr(t.args[0]))
	case OBvUdiv:
		return nary("bvudiv")
	case OBvUrem:
		return nary("bvurem")
	case ORealOp:
		if len(t.args) == 0 {
			return t.name
		}
		return nary(t.name)
	}
	panic(fmt.Sprintf("print op %d: %s", t.op, t))
}

func sum(xs []string) string {
	switch len(xs) {
	case 0:
		return "0"
	case 1:
		return xs[0]
	}
	return "(+ " + strings.Join(xs, " ") + ")"
}

// Script prints assertions as an SMT-LIB script body (no check-sat).
func (c *Ctx) Script(as []*Term) (string, *printer) {
	p := &printer{c: c, dseen: map[string]bool{}, names: map[int]string{}, uses: map[int]int{}, bseen: map[int]bool{}}
	var all []*Term
	seen := map[int]bool{}
	var count func(t *Term)
	count = func(t *Term) {
		p.uses[t.id]++
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		all = append(all, t)
		for _, a := range t.args {
			count(a)
		}
	}
	for _, a := range as {
		count(a)
	}
	var b strings.Builder
	for _, a := range as {
		fmt.Fprintf(&b, "(assert %s)\n", p.pr(a))
	}
	// bounds of everything mentioned
	for _, t := range all {
		p.bounds(t)
	}
	sort.Strings(p.bnds)
	return p.decls.String() + p.defs.String() + strings.Join(p.bnds, "\n") + "\n" + b.String(), p
}

// ---- solver process ----

type Solver struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	name string
}

func startSolver(name string, args ...string) (*Solver, error) {
	cmd := exec.Command(name, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &Solver{cmd, in, bufio.NewReaderSize(out, 1<<16), name}, nil
}

func (s *Solver) kill() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// ask sends a script and returns the output lines up to the marker.
func (s *Solver) ask(script string, timeout time.Duration) ([]string, error) {
	type res struct {
		lines []string
		err   error
	}
	ch := make(chan res, 1)
	go func() {
		if _, err := io.WriteString(s.in, script+"\n(echo \"@@done\")\n"); err != nil {
			ch <- res{nil, err}
			return
		}
		var lines []string
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				ch <- res{lines, err}
				return
			}
			l = strings.TrimRight(l, "\r\n")
			if l == "@@done" || l == "\"@@done\"" {
				ch <- res{lines, nil}
				return
			}
			lines = append(lines, l)
		}
	}()
	select {
	case r := <-ch:
		return r.lines, r.err
	case <-time.After(timeout):
		s.kill()
		return nil, fmt.Errorf("timeout")
	}
}

// Backend is a per-worker solver set.
type Backend struct {
	z *Solver
}

var stats struct {
	queries, prune, proved, cacheHits int64
	solverNs                          int64
	byBackend                         sync.Map
}

func bump(k string) {
	v, _ := stats.byBackend.LoadOrStore(k, new(int64))
	atomic.AddInt64(v.(*int64), 1)
}

var z3path = "z3-new"

func (b *Backend) z3(script string, ms int, getModel string) (Result, []string) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&stats.solverNs, int64(time.Since(t0))) }()
	atomic.AddInt64(&stats.queries, 1)
	if b.z == nil {
		s, err := startSolver(z3path, "-in", "-memory:3000")
		if err != nil {
			return RUnknown, nil
		}
		b.z = s
	}
	full := fmt.Sprintf("(reset)\n(set-option :timeout %d)\n%s(check-sat)\n", ms, script)
	lines, err := b.z.ask(full, time.Duration(ms)*time.Millisecond+5*time.Second)
	if err != nil {
		if b.z != nil {
			b.z.kill()
		}
		b.z = nil
		return RUnknown, nil
	}
	r := parseRes(lines)
	if r == RUnknown && len(lines) > 0 && strings.Contains(lines[0], "error") && debugErr {
		fmt.Println("SOLVER ERROR:", lines, "\n", full)
	}
	if r == RSat && getModel != "" {
		ml, err := b.z.ask(getModel, 10*time.Second)
		if err != nil {
			b.z = nil
			return r, nil
		}
		return r, ml
	}
	return r, nil
}

var debugErr = true

func parseRes(lines []string) Result {
	for _, l := range lines {
		switch strings.TrimSpace(l) {
		case "unsat":
			return RUnsat
		case "sat":
			return RSat
		}
		if strings.Contains(l, "error") {
			return RUnknown
		}
	}
	return RUnknown
}

func (b *Backend) close() {
	if b.z != nil {
		b.z.kill()
		b.z = nil
	}
}

// oneShot runs a solver on a script in its own process.
func oneShot(ctx context.Context, script string, name string, args ...string) Result {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&stats.solverNs, int64(time.Since(t0))) }()
	atomic.AddInt64(&stats.queries, 1)
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(script + "(check-sat)\n")
	out, _ := cmd.Output()
	return parseRes(strings.Split(string(out), "\n"))
}

// portfolio tries several back ends in parallel.
func portfolio(script, qscript string, secs int) (Result, string) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
	defer cancel()
	type r struct {
		res  Result
		name string
	}
	type job struct {
		name   string
		script string
		cmd    string
		args   []string
	}
	jobs := []job{
		{"z3-5.3", script, "z3-new", []string{"-in", "-memory:4000", fmt.Sprintf("-T:%d", secs)}},
		{"z3-5.3/seed", script, "z3-new", []string{"-in", "-memory:4000", fmt.Sprintf("-T:%d", secs), "smt.random_seed=7", "smt.arith.solver=2"}},
		{"z3-4.8", script, "z3", []string{"-in", "-memory:4000", fmt.Sprintf("-T:%d", secs)}},
		{"cvc5", "(set-logic ALL)\n" + script, "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000), "-"}},
	}
	if qscript != "" {
		jobs = append(jobs, job{"z3-5.3/quant", qscript, "z3-new", []string{"-in", "-memory:4000", fmt.Sprintf("-T:%d", secs)}})
		jobs = append(jobs, job{"cvc5/quant", "(set-logic ALL)\n" + qscript, "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000), "-"}})
	}
	ch := make(chan r, len(jobs))
	for _, j := range jobs {
		go func(j job) {
			ch <- r{oneShot(ctx, j.script, j.cmd, j.args...), j.name}
		}(j)
	}
	sat := false
	for range jobs {
		x := <-ch
		if x.res == RUnsat {
			return RUnsat, x.name
		}
		if x.res == RSat && x.name != "z3-5.3/quant" {
			sat = true
			if qscript == "" {
				return RSat, x.name
			}
		}
	}
	if sat {
		return RSat, ""
	}
	return RUnknown, ""
}

// symbols are the variables and functions of a term.
func (c *Ctx) symbols(t *Term, memo map[int]map[string]bool) map[string]bool {
	if m, ok := memo[t.id]; ok {
		return m
	}
	m := map[string]bool{}
	if t.op == OVar || t.op == OApp {
		m[t.name] = true
	}
	for _, a := range t.args {
		for k := range c.symbols(a, memo) {
			m[k] = true
		}
	}
	memo[t.id] = m
	return m
}

// relevant drops hypotheses that have little to do with the goal.
func (c *Ctx) relevant(hyps []*Term, goal *Term) []*Term {
	memo := map[int]map[string]bool{}
	freq := map[string]int{}
	for _, h := range hyps {
		for k := range c.symbols(h, memo) {
			freq[k]++
		}
	}
	lim := len(hyps) / 4
	if lim < 12 {
		lim = 12
	}
	in := map[string]bool{}
	for k := range c.symbols(goal, memo) {
		in[k] = true
	}
	take := make([]bool, len(hyps))
	for i, h := range hyps {
		for k := range c.symbols(h, memo) {
			if in[k] && freq[k] <= lim {
				take[i] = true
			}
		}
	}
	for i, h := range hyps {
		if take[i] {
			for k := range c.symbols(h, memo) {
				in[k] = true
			}
		}
	}
	var r []*Term
	for i, h := range hyps {
		if !take[i] {
			s := c.symbols(h, memo)
			n := 0
			for k := range s {
				if in[k] {
					n++
				}
			}
			take[i] = n == len(s)
		}
		if take[i] {
			r = append(r, h)
		}
	}
	return r
}
