package main

// Hash-consed terms with simplifying constructors.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type SortKind byte

const (
	SBool SortKind = iota
	SInt
	SReal
	SBV
	SArr
)

type Sort struct {
	kind      SortKind
	n         int
	dom, elem *Sort
	str       string
}

var (
	Bool = &Sort{kind: SBool, str: "Bool"}
	Int  = &Sort{kind: SInt, str: "Int"}
	Real = &Sort{kind: SReal, str: "Real"}
	bvs  [65]*Sort
)

func init() {
	for i := 1; i <= 64; i++ {
		bvs[i] = &Sort{kind: SBV, n: i, str: fmt.Sprintf("(_ BitVec %d)", i)}
	}
}

func BV(n int) *Sort { return bvs[n] }

func (c *Ctx) Arr(d, e *Sort) *Sort {
	k := "(Array " + d.str + " " + e.str + ")"
	if s, ok := c.sorts[k]; ok {
		return s
	}
	s := &Sort{kind: SArr, dom: d, elem: e, str: k}
	c.sorts[k] = s
	return s
}

type Op byte

const (
	OConst Op = iota // Bool (ival 0/1), Int, BV
	OVar             // free constant
	OBound           // bound variable
	OLin             // Int linear combination
	OMul             // nonlinear
	ODiv             // floor/euclid division by positive
	OMod             // euclid mod
	OLe0             // arg <= 0
	OEq
	ONot
	OAnd
	OOr
	OIte
	OSelect
	OApp
	OForall
	OB2I
	OI2B
	OBvAdd
	OBvMul
	OBvAnd
	OBvOr
	OBvXor
	OBvNot
	OBvShlC // shift by const k1
	OBvShrC // logical
	OBvShl  // by BV
	OBvShr
	OBvAshr
	OBvUle
	OBvSle
	OExtract // k1 hi k2 lo
	OConcat
	OZext
	OSext
	OBvUdiv
	OBvUrem
	ORealOp // name = + - * / < <= to_real to_int
	OConstArr
)

type Term struct {
	op     Op
	sort   *Sort
	args   []*Term
	ival   *big.Int
	coefs  []*big.Int
	name   string
	k1, k2 int
	id     int
	bound  bool // contains bound variables
}

type bnd struct{ lo, hi *big.Int } // nil = unbounded

type Ctx struct {
	tab    map[string]*Term
	sorts  map[string]*Sort
	terms  []*Term
	bounds map[int]bnd // bounds of Int vars/apps by term id
	cnt    int
	// element facts for arrays: array var name -> generator of a fact about a select term
	elemFact map[string]func(*Term) *Term
	rngMemo  map[int]bnd
	lvlMemo  map[int]int
	True     *Term
	False    *Term
	// definitional axioms: app term id -> lazily computed facts
	unfold map[string]func(args []*Term, app *Term) []*Term
	subM   map[int]*Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, sorts: map[string]*Sort{}, bounds: map[int]bnd{}, elemFact: map[string]func(*Term) *Term{}, rngMemo: map[int]bnd{}, lvlMemo: map[int]int{}, unfold: map[string]func(args []*Term, app *Term) []*Term{}}
	c.True = c.mk(&Term{op: OConst, sort: Bool, ival: big.NewInt(1)})
	c.False = c.mk(&Term{op: OConst, sort: Bool, ival: big.NewInt(0)})
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteByte(byte(t.op) + 33)
	b.WriteString(t.sort.str)
	b.WriteByte('|')
	b.WriteString(t.name)
	b.WriteByte('|')
	if t.ival != nil {
		b.WriteString(t.ival.String())
	}
	if t.k1 != 0 || t.k2 != 0 {
		b.WriteByte('#')
		b.WriteString(strconv.Itoa(t.k1))
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(t.k2))
	}
	for i, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(strconv.Itoa(a.id))
		if t.coefs != nil {
			b.WriteByte('*')
			b.WriteString(t.coefs[i].String())
		}
	}
	k := b.String()
	if r, ok := c.tab[k]; ok {
		return r
	}
	t.id = len(c.terms)
	t.bound = t.op == OBound
	if t.op != OForall {
		for _, a := range t.args {
			if a.bound {
				t.bound = true
			}
		}
	} else {
		// conservative: bound if body has bound vars other than ours
		own := map[int]bool{}
		for _, a := range t.args[:len(t.args)-1] {
			own[a.id] = true
		}
		t.bound = c.hasOtherBound(t.args[len(t.args)-1], own)
	}
	c.terms = append(c.terms, t)
	c.tab[k] = t
	return t
}

func (c *Ctx) hasOtherBound(t *Term, own map[int]bool) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if !t.bound || seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.op == OBound {
			return !own[t.id]
		}
		if t.op == OForall {
			o2 := map[int]bool{}
			for k := range own {
				o2[k] = true
			}
			for _, a := range t.args[:len(t.args)-1] {
				o2[a.id] = true
			}
			return c.hasOtherBound(t.args[len(t.args)-1], o2)
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.sort == Bool && t.ival.Sign() != 0 }
func (t *Term) isFalse() bool { return t.op == OConst && t.sort == Bool && t.ival.Sign() == 0 }

func (c *Ctx) B(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) I(n int64) *Term { return c.IBig(big.NewInt(n)) }
func (c *Ctx) IBig(n *big.Int) *Term {
	return c.mk(&Term{op: OConst, sort: Int, ival: n})
}

func (c *Ctx) BVC(n *big.Int, w int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v := new(big.Int).Mod(n, m)
	return c.mk(&Term{op: OConst, sort: BV(w), ival: v})
}
func (c *Ctx) BVI(n int64, w int) *Term { return c.BVC(big.NewInt(n), w) }

func (c *Ctx) Var(name string, s *Sort) *Term {
	return c.mk(&Term{op: OVar, sort: s, name: name})
}

// Fresh makes a fresh constant.
func (c *Ctx) Fresh(hint string, s *Sort) *Term {
	c.cnt++
	return c.Var(fmt.Sprintf("%s!%d", clean(hint), c.cnt), s)
}

func clean(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

// FreshInt makes a fresh int with optional bounds.
func (c *Ctx) FreshInt(hint string, lo, hi *big.Int) *Term {
	t := c.Fresh(hint, Int)
	if lo != nil || hi != nil {
		c.bounds[t.id] = bnd{lo, hi}
	}
	return t
}

func (c *Ctx) FreshBound(hint string, s *Sort) *Term {
	c.cnt++
	return c.mk(&Term{op: OBound, sort: s, name: fmt.Sprintf("%s?%d", clean(hint), c.cnt)})
}

func (c *Ctx) SetBounds(t *Term, lo, hi *big.Int) {
	if t.op == OConst {
		return
	}
	c.bounds[t.id] = bnd{lo, hi}
	delete(c.rngMemo, t.id)
}

var (
	bigZero   = big.NewInt(0)
	bigOne    = big.NewInt(1)
	maxInt64  = new(big.Int).SetInt64(1<<63 - 1)
	minInt64  = new(big.Int).SetInt64(-1 << 63)
	maxUint64 = new(big.Int).SetUint64(1<<64 - 1)
	// lengths of objects that exist in memory; far below 2^63 (an assumption recorded in evidence)
	maxLen  = new(big.Int).Lsh(bigOne, 48)
	maxMake = new(big.Int).Lsh(bigOne, 56)
)

// ---- intervals ----

func (c *Ctx) Rng(t *Term) bnd {
	if r, ok := c.rngMemo[t.id]; ok {
		return r
	}
	r := c.rng0(t)
	c.rngMemo[t.id] = r
	return r
}

func (c *Ctx) rng0(t *Term) bnd {
	switch t.op {
	case OConst:
		return bnd{t.ival, t.ival}
	case OLin:
		lo, hi := new(big.Int).Set(t.ival), new(big.Int).Set(t.ival)
		lok, hok := true, true
		for i, a := range t.args {
			r := c.Rng(a)
			k := t.coefs[i]
			l, h := r.lo, r.hi
			if k.Sign() < 0 {
				l, h = h, l
			}
			if l == nil {
				lok = false
			} else {
				lo.Add(lo, new(big.Int).Mul(k, l))
			}
			if h == nil {
				hok = false
			} else {
				hi.Add(hi, new(big.Int).Mul(k, h))
			}
		}
		var r bnd
		if lok {
			r.lo = lo
		}
		if hok {
			r.hi = hi
		}
		return r
	case OIte:
		a, b := c.Rng(t.args[1]), c.Rng(t.args[2])
		var r bnd
		if a.lo != nil && b.lo != nil {
			r.lo = a.lo
			if b.lo.Cmp(a.lo) < 0 {
				r.lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			r.hi = a.hi
			if b.hi.Cmp(a.hi) > 0 {
				r.hi = b.hi
			}
		}
		return r
	case OB2I:
		hi := new(big.Int).Lsh(bigOne, uint(t.args[0].sort.n))
		hi.Sub(hi, bigOne)
		x := t.args[0]
		// tighten masks
		if x.op == OBvAnd {
			for _, a := range x.args {
				if a.isConst() && a.ival.Cmp(hi) < 0 {
					hi = a.ival
				}
			}
		}
		if x.op == OBvShrC {
			hi = new(big.Int).Rsh(hi, uint(x.k1))
		}
		if x.op == OZext || x.op == OIte {
			r := c.bvRng(x)
			if r.Cmp(hi) < 0 {
				hi = r
			}
		}
		return bnd{bigZero, hi}
	case OMod:
		if t.args[1].isConst() {
			return bnd{bigZero, new(big.Int).Sub(t.args[1].ival, bigOne)}
		}
		return bnd{bigZero, nil}
	case ODiv:
		if t.args[1].isConst() && t.args[1].ival.Sign() > 0 {
			r := c.Rng(t.args[0])
			var o bnd
			if r.lo != nil {
				o.lo = floorDiv(r.lo, t.args[1].ival)
			}
			if r.hi != nil {
				o.hi = floorDiv(r.hi, t.args[1].ival)
			}
			return o
		}
	}
	if b, ok := c.bounds[t.id]; ok {
		return b
	}
	return bnd{}
}

func (c *Ctx) bvRng(x *Term) *big.Int {
	switch x.op {
	case OConst:
		return x.ival
	case OZext:
		return c.bvRng(x.args[0])
	case OBvAnd:
		m := c.bvRng(x.args[0])
		for _, a := range x.args[1:] {
			if r := c.bvRng(a); r.Cmp(m) < 0 {
				m = r
			}
		}
		return m
	case OBvShrC:
		return new(big.Int).Rsh(c.bvRng(x.args[0]), uint(x.k1))
	case OIte:
		a, b := c.bvRng(x.args[1]), c.bvRng(x.args[2])
		if a.Cmp(b) < 0 {
			return b
		}
		return a
	}
	hi := new(big.Int).Lsh(bigOne, uint(x.sort.n))
	return hi.Sub(hi, bigOne)
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int)) // euclid; b>0 so floor
	_ = m
	return q
}

// ---- linear ----

type linAcc struct {
	k  *big.Int
	ts map[int]*Term
	cs map[int]*big.Int
}

func newLin() *linAcc { return &linAcc{new(big.Int), map[int]*Term{}, map[int]*big.Int{}} }
func (l *linAcc) add(t *Term, k *big.Int) {
	if k.Sign() == 0 {
		return
	}
	switch t.op {
	case OConst:
		l.k.Add(l.k, new(big.Int).Mul(k, t.ival))
	case OLin:
		l.k.Add(l.k, new(big.Int).Mul(k, t.ival))
		for i, a := range t.args {
			l.add1(a, new(big.Int).Mul(k, t.coefs[i]))
		}
	default:
		l.add1(t, k)
	}
}
func (l *linAcc) add1(t *Term, k *big.Int) {
	if o, ok := l.cs[t.id]; ok {
		s := new(big.Int).Add(o, k)
		if s.Sign() == 0 {
			delete(l.cs, t.id)
			delete(l.ts, t.id)
		} else {
			l.cs[t.id] = s
		}
		return
	}
	l.cs[t.id] = k
	l.ts[t.id] = t
}
func (l *linAcc) ids() []int {
	ids := make([]int, 0, len(l.cs))
	for id := range l.cs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return ids
}
func (c *Ctx) fromLin(l *linAcc) *Term {
	ids := l.ids()
	if len(ids) == 0 {
		return c.IBig(l.k)
	}
	if len(ids) == 1 && l.k.Sign() == 0 && l.cs[ids[0]].Cmp(bigOne) == 0 {
		return l.ts[ids[0]]
	}
	t := &Term{op: OLin, sort: Int, ival: l.k}
	for _, id := range ids {
		t.args = append(t.args, l.ts[id])
		t.coefs = append(t.coefs, l.cs[id])
	}
	// merge q*div(x,q)+mod(x,q)?  handled in Mod construction
	return c.mk(t)
}

func (c *Ctx) Add(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		l.add(t, bigOne)
	}
	return c.fromLin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l := newLin()
	l.add(a, bigOne)
	l.add(b, big.NewInt(-1))
	return c.fromLin(l)
}
func (c *Ctx) AddC(a *Term, k int64) *Term { return c.Add(a, c.I(k)) }
func (c *Ctx) MulC(a *Term, k *big.Int) *Term {
	l := newLin()
	l.add(a, k)
	return c.fromLin(l)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() {
		return c.MulC(b, a.ival)
	}
	if b.isConst() {
		return c.MulC(a, b.ival)
	}
	if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
		return c.Ite(a.args[0], c.Mul(a.args[1], b), c.Mul(a.args[2], b))
	}
	if b.op == OIte && b.args[1].isConst() && b.args[2].isConst() {
		return c.Mul(b, a)
	}
	// distribute over linear forms so that products are canonical
	if a.op == OLin || b.op == OLin {
		l := newLin()
		each := func(t *Term, f func(x *Term, k *big.Int)) {
			if t.op == OLin {
				for i, y := range t.args {
					f(y, t.coefs[i])
				}
				if t.ival.Sign() != 0 {
					f(nil, t.ival)
				}
			} else {
				f(t, bigOne)
			}
		}
		each(a, func(x *Term, kx *big.Int) {
			each(b, func(y *Term, ky *big.Int) {
				k := new(big.Int).Mul(kx, ky)
				switch {
				case x == nil && y == nil:
					l.k.Add(l.k, k)
				case x == nil:
					l.add(y, k)
				case y == nil:
					l.add(x, k)
				default:
					l.add(c.Mul(x, y), k)
				}
			})
		})
		return c.fromLin(l)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OMul, sort: Int, args: []*Term{a, b}})
}

// DivE is floor division by a constant (or any, euclidean) divisor.
func (c *Ctx) DivE(a, b *Term) *Term {
	if b.isConst() && b.ival.Sign() > 0 {
		if a.isConst() {
			return c.IBig(floorDiv(a.ival, b.ival))
		}
		if b.ival.Cmp(bigOne) == 0 {
			return a
		}
		if r := c.Rng(a); r.lo != nil && r.hi != nil {
			l, h := floorDiv(r.lo, b.ival), floorDiv(r.hi, b.ival)
			if l.Cmp(h) == 0 {
				return c.IBig(l)
			}
		}
		if a.op == ODiv && a.args[1].isConst() && a.args[1].ival.Sign() > 0 {
			return c.DivE(a.args[0], c.IBig(new(big.Int).Mul(a.args[1].ival, b.ival)))
		}
		if a.op == OLin {
			// split off multiples of b
			q, rest := newLin(), newLin()
			for i, x := range a.args {
				d, m := new(big.Int).DivMod(a.coefs[i], b.ival, new(big.Int))
				if m.Sign() == 0 {
					q.add(x, d)
				} else {
					rest.add(x, a.coefs[i])
				}
			}
			d, m := new(big.Int).DivMod(a.ival, b.ival, new(big.Int))
			q.k.Add(q.k, d)
			rest.k.Add(rest.k, m)
			if len(q.cs) > 0 || q.k.Sign() != 0 {
				return c.Add(c.fromLin(q), c.DivE(c.fromLin(rest), b))
			}
		}
	}
	return c.mk(&Term{op: ODiv, sort: Int, args: []*Term{a, b}})
}

// ModE is euclidean mod, expressed as a - b*(a div b) unless simple.
func (c *Ctx) ModE(a, b *Term) *Term {
	if b.isConst() && b.ival.Sign() > 0 {
		if a.isConst() {
			return c.IBig(new(big.Int).Mod(a.ival, b.ival))
		}
		if b.ival.Cmp(bigOne) == 0 {
			return c.I(0)
		}
		if r := c.Rng(a); r.lo != nil && r.hi != nil && r.lo.Sign() >= 0 && r.hi.Cmp(b.ival) < 0 {
			return a
		}
		if a.op == OMod && a.args[1].isConst() {
			if new(big.Int).Mod(a.args[1].ival, b.ival).Sign() == 0 {
				return c.ModE(a.args[0], b)
			}
		}
		if a.op == OLin {
			rest := newLin()
			ch := false
			for i, x := range a.args {
				m := new(big.Int).Mod(a.coefs[i], b.ival)
				if m.Cmp(a.coefs[i]) != 0 {
					ch = true
				}
				if x.op == OMod && x.args[1].isConst() && new(big.Int).Mod(x.args[1].ival, b.ival).Sign() == 0 {
					rest.add(x.args[0], m)
					ch = true
				} else {
					rest.add(x, m)
				}
			}
			m := new(big.Int).Mod(a.ival, b.ival)
			if m.Cmp(a.ival) != 0 {
				ch = true
			}
			rest.k.Add(rest.k, m)
			if ch {
				return c.ModE(c.fromLin(rest), b)
			}
		}
	}
	return c.mk(&Term{op: OMod, sort: Int, args: []*Term{a, b}})
}

// ---- bool ----

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.B(a.ival.Sign() == 0)
	case ONot:
		return a.args[0]
	case OLe0:
		// not (x <= 0)  ==  1 - x <= 0
		return c.Le0(c.Sub(c.I(1), a.args[0]))
	}
	return c.mk(&Term{op: ONot, sort: Bool, args: []*Term{a}})
}

func (c *Ctx) And(ts ...*Term) *Term { return c.nary(OAnd, ts) }
func (c *Ctx) Or(ts ...*Term) *Term  { return c.nary(OOr, ts) }

func (c *Ctx) nary(op Op, ts []*Term) *Term {
	seen := map[int]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if t.isConst() {
			return (t.ival.Sign() != 0) == (op == OAnd)
		}
		if seen[t.id] {
			return true
		}
		if n := c.Not(t); seen[n.id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return c.B(op == OOr)
		}
	}
	if len(out) == 0 {
		return c.B(op == OAnd)
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: op, sort: Bool, args: out})
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func conjuncts(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p.isConst() {
		if p.isTrue() {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if p.op == ONot {
		return c.Ite(p.args[0], b, a)
	}
	if a.sort == Bool {
		if a.isTrue() {
			return c.Or(p, b)
		}
		if a.isFalse() {
			return c.And(c.Not(p), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(p), a)
		}
		if b.isFalse() {
			return c.And(p, a)
		}
	}
	if a.op == OIte && a.args[0] == p {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == p {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.sort == Bool {
		// what both sides demand
		ca, cb := conjuncts(a), conjuncts(b)
		in := map[int]bool{}
		for _, t := range cb {
			in[t.id] = true
		}
		var both, ra, rb []*Term
		for _, t := range ca {
			if in[t.id] {
				both = append(both, t)
			} else {
				ra = append(ra, t)
			}
		}
		if len(both) > 0 {
			in = map[int]bool{}
			for _, t := range both {
				in[t.id] = true
			}
			for _, t := range cb {
				if !in[t.id] {
					rb = append(rb, t)
				}
			}
			return c.And(append(both, c.Ite(p, c.And(ra...), c.And(rb...)))...)
		}
	}
	if b.op == OIte && b.args[1] == a {
		return c.Ite(c.Or(p, b.args[0]), a, b.args[2])
	}
	return c.mk(&Term{op: OIte, sort: a.sort, args: []*Term{p, a, b}})
}

func (c *Ctx) Le0(d *Term) *Term {
	r := c.Rng(d)
	if r.hi != nil && r.hi.Sign() <= 0 {
		return c.True
	}
	if r.lo != nil && r.lo.Sign() > 0 {
		return c.False
	}
	if d.op == OIte && d.args[1].isConst() && d.args[2].isConst() {
		return c.Ite(d.args[0], c.Le0(d.args[1]), c.Le0(d.args[2]))
	}
	if d.op == OLin {
		g := new(big.Int)
		for _, k := range d.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(bigOne) > 0 {
			// sum + k <= 0  -> sum/g + ceil(k/g) <= 0
			l := newLin()
			for i, a := range d.args {
				l.add(a, new(big.Int).Quo(d.coefs[i], g))
			}
			l.k = new(big.Int).Neg(floorDiv(new(big.Int).Neg(d.ival), g))
			return c.Le0(c.fromLin(l))
		}
		if len(d.args) == 1 && d.args[0].op == OIte && d.args[0].args[1].isConst() && d.args[0].args[2].isConst() {
			i := d.args[0]
			f := func(x *Term) *Term { return c.Le0(c.Add(c.MulC(x, d.coefs[0]), c.IBig(d.ival))) }
			return c.Ite(i.args[0], f(i.args[1]), f(i.args[2]))
		}
	}
	return c.mk(&Term{op: OLe0, sort: Bool, args: []*Term{d}})
}
func (c *Ctx) Le(a, b *Term) *Term { return c.Le0(c.Sub(a, b)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.Le0(c.Add(a, c.MulC(b, big.NewInt(-1)), c.I(1))) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s / %s", a.sort.str, b.sort.str, a, b))
	}
	switch a.sort.kind {
	case SBool:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.isTrue() {
				return a
			}
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
	case SInt:
		d := c.Sub(a, b)
		if d.isConst() {
			return c.B(d.ival.Sign() == 0)
		}
		r := c.Rng(d)
		if r.lo != nil && r.lo.Sign() > 0 || r.hi != nil && r.hi.Sign() < 0 {
			return c.False
		}
		// canonical: d = 0 with positive leading coef
		if d.op == OLin {
			g := new(big.Int)
			for _, k := range d.coefs {
				g.GCD(nil, nil, g, new(big.Int).Abs(k))
			}
			if g.Cmp(bigOne) > 0 {
				if new(big.Int).Mod(d.ival, g).Sign() != 0 {
					return c.False
				}
				l := newLin()
				for i, x := range d.args {
					l.add(x, new(big.Int).Quo(d.coefs[i], g))
				}
				l.k = new(big.Int).Quo(d.ival, g)
				d = c.fromLin(l)
			}
		}
		if d.op == OLin && d.coefs[0].Sign() < 0 {
			d = c.MulC(d, big.NewInt(-1))
		}
		// x = const with x a b2i: go to BV
		if d.op == OB2I {
			return c.Eq(d.args[0], c.BVI(0, d.args[0].sort.n))
		}
		if d.op == OLin && len(d.args) == 1 && d.coefs[0].Cmp(bigOne) == 0 {
			k := new(big.Int).Neg(d.ival)
			x := d.args[0]
			if x.op == OB2I {
				return c.Eq(x.args[0], c.BVC(k, x.args[0].sort.n))
			}
			if x.op == OIte && (x.args[1].isConst() || x.args[2].isConst()) {
				return c.Ite(x.args[0], c.Eq(x.args[1], c.IBig(k)), c.Eq(x.args[2], c.IBig(k)))
			}
		}
		if d.op == OIte && (d.args[1].isConst() || d.args[2].isConst()) {
			return c.Ite(d.args[0], c.Eq(d.args[1], c.I(0)), c.Eq(d.args[2], c.I(0)))
		}
		if d.op == OLin && len(d.args) == 2 && d.ival.Sign() == 0 && d.args[0].op == OB2I && d.args[1].op == OB2I &&
			d.coefs[0].Cmp(bigOne) == 0 && d.coefs[1].Cmp(big.NewInt(-1)) == 0 {
			x, y := d.args[0].args[0], d.args[1].args[0]
			w := x.sort.n
			if y.sort.n > w {
				w = y.sort.n
			}
			return c.Eq(c.Zext(x, w), c.Zext(y, w))
		}
		return c.mk(&Term{op: OEq, sort: Bool, args: []*Term{d, c.I(0)}})
	case SBV:
		if a.isConst() && b.isConst() {
			return c.False
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			switch a.op {
			case OIte:
				if a.args[1].isConst() || a.args[2].isConst() {
					return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
				}
			case OZext:
				w := a.args[0].sort.n
				if b.ival.BitLen() > w {
					return c.False
				}
				return c.Eq(a.args[0], c.BVC(b.ival, w))
			case OBvXor:
				if len(a.args) == 2 && a.args[1].isConst() {
					return c.Eq(a.args[0], c.BvXor(b, a.args[1]))
				}
			case OBvAdd:
				if len(a.args) == 2 && a.args[1].isConst() {
					return c.Eq(a.args[0], c.BvSub(b, a.args[1]))
				}
			case OBvAnd:
				for _, x := range a.args {
					if x.isConst() && new(big.Int).AndNot(b.ival, x.ival).Sign() != 0 {
						return c.False
					}
				}
				if len(a.args) == 2 && a.args[1].isConst() {
					x, k := a.args[0], a.args[1].ival
					w := a.sort.n
					switch x.op {
					case OBvShrC:
						m := new(big.Int).And(new(big.Int).Lsh(k, uint(x.k1)), mask(w))
						v := new(big.Int).Lsh(b.ival, uint(x.k1))
						if new(big.Int).AndNot(v, m).Sign() != 0 {
							return c.False
						}
						return c.Eq(c.BvAnd(x.args[0], c.BVC(m, w)), c.BVC(v, w))
					case OBvShlC:
						v := new(big.Int).Rsh(b.ival, uint(x.k1))
						if new(big.Int).Lsh(v, uint(x.k1)).Cmp(b.ival) != 0 {
							return c.False
						}
						return c.Eq(c.BvAnd(x.args[0], c.BVC(new(big.Int).Rsh(k, uint(x.k1)), w)), c.BVC(v, w))
					}
					// a single bit is set or clear
					if b.ival.Sign() != 0 && isPow2(k) {
						return c.Not(c.Eq(a, c.BVI(0, w)))
					}
				}
			case OBvShrC:
				w := a.sort.n
				v := new(big.Int).Lsh(b.ival, uint(a.k1))
				m := new(big.Int).And(new(big.Int).Lsh(mask(w), uint(a.k1)), mask(w))
				if new(big.Int).AndNot(v, m).Sign() != 0 {
					return c.False
				}
				return c.Eq(c.BvAnd(a.args[0], c.BVC(m, w)), c.BVC(v, w))
			case OBvShlC:
				w := a.sort.n
				v := new(big.Int).Rsh(b.ival, uint(a.k1))
				if new(big.Int).Lsh(v, uint(a.k1)).Cmp(b.ival) != 0 {
					return c.False
				}
				return c.Eq(c.BvAnd(a.args[0], c.BVC(new(big.Int).Rsh(mask(w), uint(a.k1)), w)), c.BVC(v, w))
			case OBvOr:
				for _, x := range a.args {
					if x.isConst() && new(big.Int).AndNot(x.ival, b.ival).Sign() != 0 {
						return c.False
					}
				}
				if len(a.args) == 2 && a.args[1].isConst() {
					w := a.sort.n
					m := new(big.Int).AndNot(mask(w), a.args[1].ival)
					return c.Eq(c.BvAnd(a.args[0], c.BVC(m, w)), c.BVC(new(big.Int).And(b.ival, m), w))
				}
			}
		}
	}
	if a.id > b.id && !b.isConst() || a.isConst() {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, sort: Bool, args: []*Term{a, b}})
}
func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

// ---- arrays / apps ----

func (c *Ctx) Select(a, i *Term) *Term {
	if a.op == OIte {
		return c.Ite(a.args[0], c.Select(a.args[1], i), c.Select(a.args[2], i))
	}
	if a.op == OConstArr {
		return a.args[0]
	}
	return c.mk(&Term{op: OSelect, sort: a.sort.elem, args: []*Term{a, i}})
}

func (c *Ctx) ConstArr(s *Sort, v *Term) *Term {
	return c.mk(&Term{op: OConstArr, sort: s, args: []*Term{v}})
}

func (c *Ctx) App(name string, s *Sort, args ...*Term) *Term {
	return c.mk(&Term{op: OApp, sort: s, name: name, args: args})
}

func (c *Ctx) Forall(vars []*Term, body *Term) *Term {
	if !body.bound || body.isConst() {
		return body
	}
	if body.op == OAnd {
		// distribute
		var out []*Term
		for _, b := range body.args {
			out = append(out, c.Forall(vars, b))
		}
		return c.And(out...)
	}
	if body.op == OForall {
		bv, bb := c.rename(body)
		return c.Forall(append(append([]*Term{}, vars...), bv...), bb)
	}
	if body.op == OOr {
		// single nested forall in a disjunction: prenex
		for i, b := range body.args {
			if b.op == OForall {
				rest := append([]*Term{}, body.args[:i]...)
				rest = append(rest, body.args[i+1:]...)
				bv, bb := c.rename(b)
				rest = append(rest, bb)
				return c.Forall(append(append([]*Term{}, vars...), bv...), c.Or(rest...))
			}
		}
	}
	var used []*Term
	for _, v := range vars {
		if c.contains(body, v) {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	// canonical names, so that equal statements are the same term
	lvl := c.level(body) + 1
	m := map[int]*Term{}
	for i, v := range used {
		n := c.mk(&Term{op: OBound, sort: v.sort, name: fmt.Sprintf("q?%d.%d", lvl, i)})
		if n != v {
			m[v.id] = n
		}
		used[i] = n
	}
	if len(m) > 0 {
		body = c.Subst(body, m)
		if !body.bound || body.op == OAnd || body.op == OForall {
			return c.Forall(used, body)
		}
	}
	args := append(append([]*Term{}, used...), body)
	return c.mk(&Term{op: OForall, sort: Bool, args: args})
}

// rename gives a quantified term's variables and body with fresh variables.
func (c *Ctx) rename(t *Term) ([]*Term, *Term) {
	n := len(t.args) - 1
	m := map[int]*Term{}
	var vs []*Term
	for _, v := range t.args[:n] {
		f := c.FreshBound("q", v.sort)
		m[v.id] = f
		vs = append(vs, f)
	}
	return vs, c.Subst(t.args[n], m)
}

// level is the depth of quantifiers in a term.
func (c *Ctx) level(t *Term) int {
	if len(t.args) == 0 {
		return 0
	}
	if l, ok := c.lvlMemo[t.id]; ok {
		return l
	}
	l := 0
	for _, a := range t.args {
		if n := c.level(a); n > l {
			l = n
		}
	}
	if t.op == OForall {
		l++
	}
	c.lvlMemo[t.id] = l
	return l
}
func (c *Ctx) Exists(vars []*Term, body *Term) *Term { return c.Not(c.Forall(vars, c.Not(body))) }

func (c *Ctx) contains(t, v *Term) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if !t.bound && v.op == OBound || seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// ---- bitvectors ----

func mask(w int) *big.Int {
	m := new(big.Int).Lsh(bigOne, uint(w))
	return m.Sub(m, bigOne)
}

func (c *Ctx) B2I(x *Term) *Term {
	if x.isConst() {
		return c.IBig(x.ival)
	}
	switch x.op {
	case OZext:
		return c.B2I(x.args[0])
	case OI2B:
		return c.ModE(x.args[0], c.IBig(new(big.Int).Lsh(bigOne, uint(x.sort.n))))
	case OIte:
		if x.args[1].isConst() || x.args[2].isConst() {
			return c.Ite(x.args[0], c.B2I(x.args[1]), c.B2I(x.args[2]))
		}
	}
	return c.mk(&Term{op: OB2I, sort: Int, args: []*Term{x}})
}

// B2IS is the signed value.
func (c *Ctx) B2IS(x *Term) *Term {
	w := x.sort.n
	if x.isConst() {
		v := new(big.Int).Set(x.ival)
		if v.Bit(w-1) == 1 {
			v.Sub(v, new(big.Int).Lsh(bigOne, uint(w)))
		}
		return c.IBig(v)
	}
	if x.op == OZext {
		return c.B2I(x)
	}
	if x.op == OIte && (x.args[1].isConst() || x.args[2].isConst()) {
		return c.Ite(x.args[0], c.B2IS(x.args[1]), c.B2IS(x.args[2]))
	}
	if x.op == OI2B {
		if r := c.Rng(x.args[0]); r.lo != nil && r.hi != nil {
			h := new(big.Int).Lsh(bigOne, uint(w-1))
			if r.hi.Cmp(h) < 0 && r.lo.Cmp(new(big.Int).Neg(h)) >= 0 {
				return x.args[0]
			}
		}
	}
	neg := c.BvSlt(x, c.BVI(0, w))
	return c.Ite(neg, c.Sub(c.B2I(x), c.IBig(new(big.Int).Lsh(bigOne, uint(w)))), c.B2I(x))
}

func (c *Ctx) I2B(t *Term, w int) *Term {
	if t.isConst() {
		return c.BVC(t.ival, w)
	}
	switch t.op {
	case OB2I:
		x := t.args[0]
		if x.sort.n == w {
			return x
		}
		if x.sort.n < w {
			return c.Zext(x, w)
		}
		return c.Extract(x, w-1, 0)
	case OMod:
		if t.args[1].isConst() {
			m := new(big.Int).Lsh(bigOne, uint(w))
			if new(big.Int).Mod(t.args[1].ival, m).Sign() == 0 {
				return c.I2B(t.args[0], w)
			}
		}
	case OIte:
		return c.Ite(t.args[0], c.I2B(t.args[1], w), c.I2B(t.args[2], w))
	case OLin:
		all := true
		for _, a := range t.args {
			if a.op != OB2I && !(a.op == OIte) {
				all = false
			}
		}
		if all {
			r := c.BVC(t.ival, w)
			for i, a := range t.args {
				r = c.BvAdd(r, c.BvMul(c.I2B(a, w), c.BVC(t.coefs[i], w)))
			}
			return r
		}
		// reduce coefs mod 2^w
		m := new(big.Int).Lsh(bigOne, uint(w))
		k := new(big.Int).Mod(t.ival, m)
		ch := k.Cmp(t.ival) != 0
		l := newLin()
		for i, a := range t.args {
			q := new(big.Int).Mod(t.coefs[i], m)
			// keep small negatives
			if t.coefs[i].Sign() < 0 && t.coefs[i].CmpAbs(m) < 0 {
				q = t.coefs[i]
			}
			if q.Cmp(t.coefs[i]) != 0 {
				ch = true
			}
			l.add(a, q)
		}
		if ch && (t.ival.Sign() >= 0 || t.ival.CmpAbs(m) >= 0) {
			l.k = k
			return c.I2B(c.fromLin(l), w)
		}
	}
	return c.mk(&Term{op: OI2B, sort: BV(w), args: []*Term{t}, k1: w})
}

func (c *Ctx) Zext(x *Term, w int) *Term {
	if x.sort.n == w {
		return x
	}
	if x.sort.n > w {
		return c.Extract(x, w-1, 0)
	}
	if x.isConst() {
		return c.BVC(x.ival, w)
	}
	if x.op == OZext {
		return c.Zext(x.args[0], w)
	}
	if x.op == OIte && (x.args[1].isConst() || x.args[2].isConst()) {
		return c.Ite(x.args[0], c.Zext(x.args[1], w), c.Zext(x.args[2], w))
	}
	return c.mk(&Term{op: OZext, sort: BV(w), args: []*Term{x}, k1: w})
}
func (c *Ctx) Sext(x *Term, w int) *Term {
	if x.sort.n == w {
		return x
	}
	if x.sort.n > w {
		return c.Extract(x, w-1, 0)
	}
	if x.isConst() {
		v := new(big.Int).Set(x.ival)
		if v.Bit(x.sort.n-1) == 1 {
			v.Sub(v, new(big.Int).Lsh(bigOne, uint(x.sort.n)))
		}
		return c.BVC(v, w)
	}
	if x.op == OZext {
		return c.Zext(x, w)
	}
	return c.mk(&Term{op: OSext, sort: BV(w), args: []*Term{x}, k1: w})
}
func (c *Ctx) Extract(x *Term, hi, lo int) *Term {
	if lo == 0 && hi == x.sort.n-1 {
		return x
	}
	w := hi - lo + 1
	if x.isConst() {
		return c.BVC(new(big.Int).Rsh(x.ival, uint(lo)), w)
	}
	switch x.op {
	case OZext:
		in := x.args[0].sort.n
		if hi < in {
			return c.Extract(x.args[0], hi, lo)
		}
		if lo >= in {
			return c.BVI(0, w)
		}
		if lo == 0 {
			return c.Zext(x.args[0], w)
		}
	case OIte:
		return c.Ite(x.args[0], c.Extract(x.args[1], hi, lo), c.Extract(x.args[2], hi, lo))
	case OBvAnd, OBvOr, OBvXor:
		var as []*Term
		for _, a := range x.args {
			as = append(as, c.Extract(a, hi, lo))
		}
		return c.bvn(x.op, as)
	case OI2B:
		if lo == 0 {
			return c.I2B(x.args[0], w)
		}
	case OBvAdd:
		if lo == 0 {
			var as []*Term
			for _, a := range x.args {
				as = append(as, c.Extract(a, hi, lo))
			}
			return c.bvn(x.op, as)
		}
	case OBvShlC:
		if lo == 0 {
			return c.BvShlC(c.Extract(x.args[0], hi, 0), x.k1)
		}
		if lo >= x.k1 {
			return c.Extract(x.args[0], hi-x.k1, lo-x.k1)
		}
	case OBvShrC:
		if hi+x.k1 < x.sort.n {
			return c.Extract(x.args[0], hi+x.k1, lo+x.k1)
		}
	case OConcat:
		l := x.args[1].sort.n
		if hi < l {
			return c.Extract(x.args[1], hi, lo)
		}
		if lo >= l {
			return c.Extract(x.args[0], hi-l, lo-l)
		}
	case OExtract:
		return c.Extract(x.args[0], hi+x.k2, lo+x.k2)
	}
	return c.mk(&Term{op: OExtract, sort: BV(w), args: []*Term{x}, k1: hi, k2: lo})
}

func (c *Ctx) bvn(op Op, ts []*Term) *Term {
	w := ts[0].sort.n
	var k *big.Int
	switch op {
	case OBvAnd:
		k = mask(w)
	default:
		k = new(big.Int)
	}
	if op == OBvMul {
		k = big.NewInt(1)
	}
	m := map[int]int{}
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == op {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if t.isConst() {
			switch op {
			case OBvAnd:
				k = new(big.Int).And(k, t.ival)
			case OBvOr:
				k = new(big.Int).Or(k, t.ival)
			case OBvXor:
				k = new(big.Int).Xor(k, t.ival)
			case OBvAdd:
				k = new(big.Int).And(new(big.Int).Add(k, t.ival), mask(w))
			case OBvMul:
				k = new(big.Int).And(new(big.Int).Mul(k, t.ival), mask(w))
			}
			return
		}
		if (op == OBvAnd || op == OBvOr) && m[t.id] > 0 {
			return
		}
		m[t.id]++
		out = append(out, t)
	}
	for _, t := range ts {
		add(t)
	}
	switch op {
	case OBvAnd:
		if k.Sign() == 0 {
			return c.BVI(0, w)
		}
		for _, t := range out {
			if n := c.bvRng(t); n.Cmp(k) <= 0 && k.BitLen() >= n.BitLen() && isLowMask(k) {
				// mask is redundant
				k = mask(w)
			}
		}
	case OBvOr:
		if k.Cmp(mask(w)) == 0 {
			return c.BVC(k, w)
		}
	case OBvMul:
		if k.Sign() == 0 {
			return c.BVI(0, w)
		}
	case OBvXor:
		var o2 []*Term
		for _, t := range out {
			if m[t.id]%2 == 1 {
				o2 = append(o2, t)
				m[t.id] = 0
			}
		}
		out = o2
	}
	if op == OBvMul && k.Cmp(bigOne) != 0 && isPow2(k) {
		r := c.bvn(OBvMul, append(out, c.BVI(1, w)))
		if len(out) == 0 {
			return c.BVC(k, w)
		}
		return c.BvShlC(r, k.BitLen()-1)
	}
	id := new(big.Int)
	if op == OBvAnd {
		id = mask(w)
	} else if op == OBvMul {
		id = bigOne
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].id < out[j].id })
	if k.Cmp(id) != 0 {
		out = append(out, c.BVC(k, w))
	}
	if len(out) == 0 {
		return c.BVC(k, w)
	}
	if len(out) == 1 {
		return out[0]
	}
	// push constant through ite
	if len(out) == 2 && out[1].isConst() && out[0].op == OIte && (out[0].args[1].isConst() || out[0].args[2].isConst()) {
		i := out[0]
		return c.Ite(i.args[0], c.bvn(op, []*Term{i.args[1], out[1]}), c.bvn(op, []*Term{i.args[2], out[1]}))
	}
	return c.mk(&Term{op: op, sort: BV(w), args: out})
}
func isPow2(k *big.Int) bool {
	return k.Sign() > 0 && new(big.Int).And(k, new(big.Int).Sub(k, bigOne)).Sign() == 0
}
func isLowMask(k *big.Int) bool {
	return new(big.Int).And(k, new(big.Int).Add(k, bigOne)).Sign() == 0
}

func (c *Ctx) BvAdd(a, b *Term) *Term { return c.bvn(OBvAdd, []*Term{a, b}) }
func (c *Ctx) BvMul(a, b *Term) *Term { return c.bvn(OBvMul, []*Term{a, b}) }
func (c *Ctx) BvNeg(a *Term) *Term    { return c.BvMul(a, c.BVC(big.NewInt(-1), a.sort.n)) }
func (c *Ctx) BvSub(a, b *Term) *Term {
	if a == b {
		return c.BVI(0, a.sort.n)
	}
	return c.BvAdd(a, c.BvNeg(b))
}
func (c *Ctx) BvAnd(a, b *Term) *Term { return c.bvn(OBvAnd, []*Term{a, b}) }
func (c *Ctx) BvOr(a, b *Term) *Term  { return c.bvn(OBvOr, []*Term{a, b}) }
func (c *Ctx) BvXor(a, b *Term) *Term { return c.bvn(OBvXor, []*Term{a, b}) }
func (c *Ctx) BvNot(a *Term) *Term    { return c.BvXor(a, c.BVC(mask(a.sort.n), a.sort.n)) }

func (c *Ctx) BvShlC(a *Term, k int) *Term {
	w := a.sort.n
	if k == 0 {
		return a
	}
	if k >= w {
		return c.BVI(0, w)
	}
	if a.isConst() {
		return c.BVC(new(big.Int).Lsh(a.ival, uint(k)), w)
	}
	if a.op == OBvShlC {
		return c.BvShlC(a.args[0], k+a.k1)
	}
	if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.BvShlC(a.args[1], k), c.BvShlC(a.args[2], k))
	}
	return c.mk(&Term{op: OBvShlC, sort: a.sort, args: []*Term{a}, k1: k})
}
func (c *Ctx) BvShrC(a *Term, k int) *Term {
	w := a.sort.n
	if k == 0 {
		return a
	}
	if k >= w {
		return c.BVI(0, w)
	}
	if a.isConst() {
		return c.BVC(new(big.Int).Rsh(a.ival, uint(k)), w)
	}
	if a.op == OBvShrC {
		return c.BvShrC(a.args[0], k+a.k1)
	}
	if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.BvShrC(a.args[1], k), c.BvShrC(a.args[2], k))
	}
	if r := c.bvRng(a); r.BitLen() <= k {
		return c.BVI(0, w)
	}
	return c.mk(&Term{op: OBvShrC, sort: a.sort, args: []*Term{a}, k1: k})
}

// shifts by an Int amount
func (c *Ctx) BvShiftI(a, n *Term, left, arith bool) *Term {
	w := a.sort.n
	f := func(k int) *Term {
		if left {
			return c.BvShlC(a, k)
		}
		if arith {
			return c.BvAshrC(a, k)
		}
		return c.BvShrC(a, k)
	}
	if n.isConst() {
		k := w
		if n.ival.IsInt64() && n.ival.Int64() < int64(w) {
			k = int(n.ival.Int64())
		}
		return f(k)
	}
	lo, hi := 0, w
	if r := c.Rng(n); r.lo != nil && r.lo.Sign() > 0 && r.lo.IsInt64() && r.lo.Int64() < int64(w) {
		lo = int(r.lo.Int64())
	}
	if r := c.Rng(n); r.hi != nil && r.hi.IsInt64() && r.hi.Int64() < int64(w) {
		hi = int(r.hi.Int64())
	}
	res := f(hi)
	for k := hi - 1; k >= lo; k-- {
		res = c.Ite(c.Eq(n, c.I(int64(k))), f(k), res)
	}
	return res
}
func (c *Ctx) BvAshrC(a *Term, k int) *Term {
	w := a.sort.n
	if k == 0 {
		return a
	}
	if k >= w {
		k = w - 1
	}
	return c.Sext(c.Extract(a, w-1, k), w)
}

func (c *Ctx) BvUle(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.isConst() && b.isConst() {
		return c.B(a.ival.Cmp(b.ival) <= 0)
	}
	if a.isConst() && a.ival.Sign() == 0 {
		return c.True
	}
	if b.isConst() && c.bvRng(a).Cmp(b.ival) <= 0 {
		return c.True
	}
	if a.isConst() && c.bvRng(b).Cmp(a.ival) < 0 {
		return c.False
	}
	if b.isConst() && b.ival.Sign() == 0 {
		return c.Eq(a, b)
	}
	if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) && b.isConst() {
		return c.Ite(a.args[0], c.BvUle(a.args[1], b), c.BvUle(a.args[2], b))
	}
	if a.op == OZext && b.isConst() {
		return c.BvUle(a.args[0], c.BVC(b.ival, a.args[0].sort.n))
	}
	if b.op == OZext && a.isConst() {
		return c.BvUle(c.BVC(a.ival, b.args[0].sort.n), b.args[0])
	}
	if a.op == OZext && b.op == OZext && a.args[0].sort == b.args[0].sort {
		return c.BvUle(a.args[0], b.args[0])
	}
	return c.mk(&Term{op: OBvUle, sort: Bool, args: []*Term{a, b}})
}
func (c *Ctx) BvUlt(a, b *Term) *Term { return c.Not(c.BvUle(b, a)) }
func (c *Ctx) BvSle(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.isConst() && b.isConst() {
		return c.Le(c.B2IS(a), c.B2IS(b))
	}
	w := a.sort.n
	half := new(big.Int).Lsh(bigOne, uint(w-1))
	if c.bvRng(a).Cmp(half) < 0 && c.bvRng(b).Cmp(half) < 0 {
		return c.BvUle(a, b)
	}
	if a.isConst() && a.ival.Sign() == 0 && c.bvRng(b).Cmp(half) < 0 {
		return c.True
	}
	return c.mk(&Term{op: OBvSle, sort: Bool, args: []*Term{a, b}})
}
func (c *Ctx) BvSlt(a, b *Term) *Term { return c.Not(c.BvSle(b, a)) }
func (c *Ctx) Concat(a, b *Term) *Term {
	w := a.sort.n + b.sort.n
	if a.isConst() && b.isConst() {
		v := new(big.Int).Lsh(a.ival, uint(b.sort.n))
		return c.BVC(v.Or(v, b.ival), w)
	}
	return c.mk(&Term{op: OConcat, sort: BV(w), args: []*Term{a, b}, k1: w})
}
func (c *Ctx) BvUdiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.ival.Sign() > 0 {
		return c.BVC(new(big.Int).Quo(a.ival, b.ival), a.sort.n)
	}
	return c.mk(&Term{op: OBvUdiv, sort: a.sort, args: []*Term{a, b}})
}
func (c *Ctx) BvUrem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.ival.Sign() > 0 {
		return c.BVC(new(big.Int).Rem(a.ival, b.ival), a.sort.n)
	}
	return c.mk(&Term{op: OBvUrem, sort: a.sort, args: []*Term{a, b}})
}

// ---- reals (exact) ----

func (c *Ctx) RealOp(op string, s *Sort, args ...*Term) *Term {
	return c.mk(&Term{op: ORealOp, sort: s, name: op, args: args})
}

// ---- substitution ----

func (c *Ctx) Subst(t *Term, m map[int]*Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t.id]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		ch := false
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, as)
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OLin:
		l := newLin()
		l.k.Set(t.ival)
		for i, a := range as {
			l.add(a, t.coefs[i])
		}
		return c.fromLin(l)
	case OMul:
		return c.Mul(as[0], as[1])
	case ODiv:
		return c.DivE(as[0], as[1])
	case OMod:
		return c.ModE(as[0], as[1])
	case OLe0:
		return c.Le0(as[0])
	case OEq:
		return c.Eq(as[0], as[1])
	case ONot:
		return c.Not(as[0])
	case OAnd, OOr:
		return c.nary(t.op, as)
	case OIte:
		return c.Ite(as[0], as[1], as[2])
	case OSelect:
		r := c.Select(as[0], as[1])
		if b, ok := c.bounds[t.id]; ok && r.op == OSelect {
			if _, ok2 := c.bounds[r.id]; !ok2 {
				c.bounds[r.id] = b
				delete(c.rngMemo, r.id)
			}
		}
		return r
	case OApp:
		r := c.App(t.name, t.sort, as...)
		if b, ok := c.bounds[t.id]; ok {
			if _, ok2 := c.bounds[r.id]; !ok2 {
				c.bounds[r.id] = b
				delete(c.rngMemo, r.id)
			}
		}
		return r
	case OForall:
		n := len(as) - 1
		return c.Forall(as[:n], as[n])
	case OB2I:
		return c.B2I(as[0])
	case OI2B:
		return c.I2B(as[0], t.sort.n)
	case OBvAdd, OBvMul, OBvAnd, OBvOr, OBvXor:
		return c.bvn(t.op, as)
	case OBvShlC:
		return c.BvShlC(as[0], t.k1)
	case OBvShrC:
		return c.BvShrC(as[0], t.k1)
	case OBvUle:
		return c.BvUle(as[0], as[1])
	case OBvSle:
		return c.BvSle(as[0], as[1])
	case OExtract:
		return c.Extract(as[0], t.k1, t.k2)
	case OConcat:
		return c.Concat(as[0], as[1])
	case OZext:
		return c.Zext(as[0], t.sort.n)
	case OSext:
		return c.Sext(as[0], t.sort.n)
	case OBvUdiv:
		return c.BvUdiv(as[0], as[1])
	case OBvUrem:
		return c.BvUrem(as[0], as[1])
	case ORealOp:
		return c.RealOp(t.name, t.sort, as...)
	case OConstArr:
		return c.ConstArr(t.sort, as[0])
	}
	panic(fmt.Sprintf("rebuild %d", t.op))
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if d == 0 {
		return "…"
	}
	switch t.op {
	case OConst:
		if t.sort == Bool {
			return fmt.Sprint(t.ival.Sign() != 0)
		}
		if t.sort.kind == SBV {
			return fmt.Sprintf("#%x", t.ival)
		}
		return t.ival.String()
	case OVar, OBound:
		return t.name
	case OLin:
		var p []string
		for i, a := range t.args {
			s := a.str(d - 1)
			if t.coefs[i].Cmp(bigOne) != 0 {
				s = t.coefs[i].String() + "*" + s
			}
			p = append(p, s)
		}
		if t.ival.Sign() != 0 {
			p = append(p, t.ival.String())
		}
		return "(" + strings.Join(p, "+") + ")"
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.str(d-1))
	}
	n := t.name
	if n == "" {
		n = opNames[t.op]
	}
	if t.k1 != 0 || t.k2 != 0 {
		n += fmt.Sprintf("<%d,%d>", t.k1, t.k2)
	}
	return n + "(" + strings.Join(p, ",") + ")"
}

var opNames = map[Op]string{OMul: "mul", ODiv: "div", OMod: "mod", OLe0: "le0", OEq: "eq", ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OSelect: "sel", OForall: "forall", OB2I: "b2i", OI2B: "i2b", OBvAdd: "bvadd", OBvMul: "bvmul", OBvAnd: "bvand", OBvOr: "bvor", OBvXor: "bvxor", OBvShlC: "shl", OBvShrC: "shr", OBvUle: "ule", OBvSle: "sle", OExtract: "ext", OConcat: "cat", OZext: "zext", OSext: "sext", OConstArr: "constarr"}
