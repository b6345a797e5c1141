package main

// Loops: unrolling when control is concrete, otherwise a cut with an inductive invariant.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type activeLoop struct {
	unroll bool
	count  int
	li     *loopInfo
	K      *Term
	slots  []*slot
	start  *State
	nobj   int
	phis   []Val // header phis of the arbitrary iteration
	init   []Val
	pre    map[string]Val
	cur    map[string]Val
	meas   *Term // measure at the header
	condD  *Term // d of the header condition d <= 0
	hasD   bool
	prevHd map[string]Val
	entry  *State // vcOld in an invariant is the state in which the loop was entered
}

type backEdge struct {
	st   *State
	phis []Val
	nobj int
}

// slot is one location a loop may change.
type slot struct {
	phi      int  // header phi index, or -1
	obj      *Obj // heap object
	path     []PE
	typ      types.Type
	arr      bool // whole array (or map) content
	init     Val
	cur      Val
	mode     smode
	aff      *big.Int
	objSt    bool // slice: backing object unchanged
	comp     [4]cmode
	fobj     *Obj
	callerRO bool // may be assigned a slice of memory that is never written
	dead     *Obj
	forced   bool
}
type smode byte

const (
	mStable smode = iota
	mAff
	mFresh
)

type cmode struct {
	mode smode
	aff  *big.Int
}

const unrollLimit = 6000

func pathKey(p []PE) string {
	s := ""
	for _, e := range p {
		if e.idx != nil {
			s += fmt.Sprintf("[%d]", e.idx.id)
		} else {
			s += fmt.Sprintf(".%d", e.field)
		}
	}
	return s
}

type leaf struct {
	path []PE
	v    Val
	t    types.Type
}

// leaves flattens structs, arrays and tuples.
func (x *X) leaves(v Val, t types.Type, path []PE, out *[]leaf) {
	switch w := v.(type) {
	case *VStruct:
		ut := under(w.typ).(*types.Struct)
		for i, f := range w.f {
			x.leaves(f, ut.Field(i).Type(), append(append([]PE{}, path...), PE{field: i}), out)
		}
	case *VArr:
		for i, f := range w.e {
			x.leaves(f, w.elem, append(append([]PE{}, path...), PE{idx: x.I(int64(i))}), out)
		}
	case *VTuple:
		for i, f := range w.v {
			x.leaves(f, nil, append(append([]PE{}, path...), PE{field: i}), out)
		}
	default:
		*out = append(*out, leaf{path, v, t})
	}
}

func (x *X) getLeaf(v Val, path []PE) Val {
	for _, pe := range path {
		switch w := v.(type) {
		case *VStruct:
			v = w.f[pe.field]
		case *VArr:
			v = w.e[pe.idx.ival.Int64()]
		case *VTuple:
			v = w.v[pe.field]
		}
	}
	return v
}

func (x *X) setLeaf(v Val, path []PE, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	pe := path[0]
	switch w := v.(type) {
	case *VStruct:
		r := &VStruct{w.typ, append([]Val(nil), w.f...)}
		r.f[pe.field] = x.setLeaf(w.f[pe.field], path[1:], nv)
		return r
	case *VArr:
		r := &VArr{w.elem, append([]Val(nil), w.e...)}
		k := pe.idx.ival.Int64()
		r.e[k] = x.setLeaf(w.e[k], path[1:], nv)
		return r
	case *VTuple:
		r := &VTuple{append([]Val(nil), w.v...)}
		r.v[pe.field] = x.setLeaf(w.v[pe.field], path[1:], nv)
		return r
	}
	x.unsupported("setLeaf")
	return nil
}

func contentKey(x *X, c interface{}) string {
	switch c := c.(type) {
	case Seq:
		return c.Key()
	case *MapC:
		if c.id == 0 {
			x.cnt++
			c.id = x.cnt
		}
		return fmt.Sprintf("M%d", c.id)
	default:
		return x.vkey(c)
	}
}

// havoc gives the state of an arbitrary iteration; returns the phi values.
func (x *X) havoc(st *State, slots []*slot, K *Term, phis []Val) []Val {
	ps := append([]Val(nil), phis...)
	for _, s := range slots {
		if s.arr {
			x.cnt++
			name := fmt.Sprintf("lv!%s'%d", clean(s.obj.name), x.cnt)
			if s.obj.arr {
				st.heap[s.obj.id] = Seq(&SeqBase{name, nil, s.obj.typ})
			} else {
				mc := x.content(st, s.obj).(*MapC)
				st.heap[s.obj.id] = &MapC{base: name, k: mc.k, v: mc.v}
			}
			continue
		}
		s.cur = x.havocVal(st, s, K)
		if s.phi >= 0 {
			ps[s.phi] = x.setLeaf(ps[s.phi], s.path, s.cur)
		} else {
			st.heap[s.obj.id] = x.setLeaf(x.content(st, s.obj), s.path, s.cur)
		}
	}
	return ps
}

func (x *X) havocTerm(t *Term, m smode, aff *big.Int, K *Term, hint string) *Term {
	switch m {
	case mStable:
		return t
	case mAff:
		return x.Add(t, x.MulC(K, aff))
	}
	x.cnt++
	r := x.Var(fmt.Sprintf("lv!%s'%d", hint, x.cnt), t.sort)
	return r
}

func (x *X) havocVal(st *State, s *slot, K *Term) Val {
	if s.mode == mStable {
		return s.init
	}
	switch v := s.init.(type) {
	case *Term:
		r := x.havocTerm(v, s.mode, s.aff, K, "t")
		if s.mode == mFresh && r.sort == Int && s.typ != nil {
			if ii, ok := basicInfo(s.typ); ok {
				lo, hi := intBounds(ii)
				x.boundedT(r, lo, hi)
			}
		}
		return r
	case *VSlice:
		if s.objSt {
			r := &VSlice{obj: v.obj, elem: v.elem}
			r.off = x.havocTerm(v.off, s.comp[0].mode, s.comp[0].aff, K, "off")
			r.len = x.havocTerm(v.len, s.comp[1].mode, s.comp[1].aff, K, "len")
			r.cap = x.havocTerm(v.cap, s.comp[2].mode, s.comp[2].aff, K, "cap")
			r.isnil = x.havocTerm(v.isnil, s.comp[3].mode, nil, K, "nil")
			for i, t := range []*Term{r.off, r.len, r.cap} {
				if s.comp[i].mode == mFresh {
					x.boundedT(t, bigZero, maxLen)
				}
			}
			return r
		}
		o := x.newObj(v.elem, true, "lv")
		x.cnt++
		name := fmt.Sprintf("lv!s'%d", x.cnt)
		if v.obj != nil && (v.obj.visible || v.obj.ro) || s.callerRO {
			o.visible, o.ro = true, true
		}
		o.indiff = true
		st.heap[o.id] = Seq(&SeqBase{name + ".e", nil, v.elem})
		s.fobj = o
		o.loopVar = true
		var l *Term
		if s.comp[1].mode == mFresh {
			l = x.boundedT(x.Var(name+".len", Int), bigZero, maxLen)
		} else {
			l = x.havocTerm(v.len, s.comp[1].mode, s.comp[1].aff, K, "len")
		}
		xc := x.boundedT(x.Var(name+".xcap", Int), bigZero, maxLen)
		n := x.havocTerm(v.isnil, mFresh, nil, K, "nil")
		x.assume(st, x.Implies(n, x.And(x.Eq(l, x.I(0)), x.Eq(xc, x.I(0)))))
		x.assume(st, x.Le(x.I(0), l))
		if v.obj != nil && !v.obj.visible {
			st.poison[v.obj.id] = true
		}
		o.slotLen, o.slotCap = l, x.Add(l, xc)
		return &VSlice{o, x.I(0), l, o.slotCap, n, v.elem}
	case *VStr:
		x.cnt++
		name := fmt.Sprintf("lv!str'%d", x.cnt)
		l := x.boundedT(x.Var(name+".len", Int), bigZero, maxLen)
		return &VStr{seq: &SeqBase{name + ".s", nil, types.Typ[types.Uint8]}, off: x.I(0), len: l}
	case *VIface, *VSymIface:
		x.cnt++
		return &VSymIface{x.boundedT(x.Var(fmt.Sprintf("lv!if'%d", x.cnt), Int), bigZero, nil)}
	case *VOpaque:
		if v.kind == "time" {
			x.cnt++
			return &VOpaque{kind: "time", v: []Val{x.Var(fmt.Sprintf("lv!time'%d", x.cnt), Int)}}
		}
	case *VPtr, *VSymPtr:
		x.cnt++
		el := x.ptrElem(s.init)
		return &VSymPtr{id: x.boundedT(x.Var(fmt.Sprintf("lv!ptr'%d", x.cnt), Int), bigZero, maxLen), root: el, elem: el}
	}
	x.unsupported(fmt.Sprintf("loop-carried value %T", s.init))
	return nil
}

// observe updates the stability guess of a slot from a back edge value; reports a change.
func (x *X) observe(s *slot, nv Val) bool {
	if x.vkey(nv) == x.vkey(s.cur) && s.mode == mStable {
		return false
	}
	switch cv := s.cur.(type) {
	case *Term:
		nt, ok := nv.(*Term)
		if !ok {
			x.unsupported("loop-carried value changes kind")
		}
		return x.obsTerm(cv, nt, &s.mode, &s.aff)
	case *VSlice:
		ns, ok := nv.(*VSlice)
		if !ok {
			x.unsupported("loop-carried value changes kind")
		}
		ch := false
		if ns.obj != cv.obj && ns.obj != nil && ns.obj.ro && ns.obj.name != "merged" && !s.callerRO {
			s.callerRO = true
			ch = true
		}
		if s.mode == mStable {
			s.mode = mFresh
			ch = true
		}
		if s.objSt && ns.obj != cv.obj {
			s.objSt = false
			ch = true
			s.comp[1] = cmode{mode: mAff, aff: x.constDiff(ns.len, cv.len)}
			if s.comp[1].aff == nil {
				s.comp[1] = cmode{mode: mFresh}
			}
			return true
		}
		ct := []*Term{cv.off, cv.len, cv.cap, cv.isnil}
		nt := []*Term{ns.off, ns.len, ns.cap, ns.isnil}
		for i := range ct {
			if !s.objSt && i != 1 {
				continue
			}
			if x.obsTerm(ct[i], nt[i], &s.comp[i].mode, &s.comp[i].aff) {
				ch = true
			}
		}
		return ch
	}
	if s.mode == mStable {
		s.mode = mFresh
		return true
	}
	return false
}

func (x *X) constDiff(a, b *Term) *big.Int {
	if a.sort != Int {
		return nil
	}
	d := x.Sub(a, b)
	if d.isConst() {
		return d.ival
	}
	return nil
}

func (x *X) obsTerm(cur, nv *Term, m *smode, aff **big.Int) bool {
	switch *m {
	case mStable:
		if cur == nv {
			return false
		}
		if d := x.constDiff(nv, cur); d != nil {
			*m, *aff = mAff, d
		} else {
			*m = mFresh
		}
		return true
	case mAff:
		if d := x.constDiff(nv, cur); d != nil && d.Cmp(*aff) == 0 {
			return false
		}
		*m = mFresh
		return true
	}
	return false
}

func (x *X) preexisting(id, nobj int) bool {
	if id <= nobj {
		return true
	}
	o := x.objs[id-1]
	return o.ro && o.init != nil && o.name != "merged" && o.name != "frozen"
}

// dryRun runs one arbitrary iteration without obligations.
func (x *X) dryRun(fr *Frame, li *loopInfo, st *State, phis []Val) []backEdge {
	x.dry++
	savedPos, savedCur := x.pos, x.cur
	defer func() { x.dry--; x.pos, x.cur = savedPos, savedCur }()
	f2 := fr.clone()
	f2.dryLoop = li
	var col []backEdge
	f2.dryCol = &col
	f2.loops[li.header] = nil
	x.setPhis(f2, li.header, phis)
	x.exec(f2, li.header, nil, fr.info.nphi[li.header], st.clone())
	return col
}

func (x *X) findSlots(fr *Frame, li *loopInfo, st *State, phis []Val, K *Term) []*slot {
	var slots []*slot
	nobj := x.nobj
	for k, v := range phis {
		phi := li.header.Instrs[k].(*ssa.Phi)
		var ls []leaf
		x.leaves(v, phi.Type(), nil, &ls)
		for _, l := range ls {
			slots = append(slots, &slot{phi: k, path: l.path, typ: l.t, init: l.v, objSt: true})
		}
	}
	index := map[string]*slot{}
	for round := 0; ; round++ {
		if round > 12 {
			x.unsupported("loop analysis does not converge")
		}
		st2 := st.clone()
		ps := x.havoc(st2, slots, K, phis)
		backs := x.dryRun(fr, li, st2, ps)
		changed := false
		for _, b := range backs {
			for _, s := range slots {
				if s.phi >= 0 && !s.arr {
					if x.observe(s, x.getLeaf(b.phis[s.phi], s.path)) {
						changed = true
					}
				}
			}
			if len(b.st.sym) != len(st2.sym) {
				x.unsupported("loop writes through symbolic pointers")
			}
			for id, c := range b.st.heap {
				if !x.preexisting(id, nobj) {
					continue
				}
				o := x.objs[id-1]
				var before interface{}
				if h, ok := st2.heap[id]; ok {
					before = h
				} else if o.init != nil {
					before = o.init
				} else {
					continue
				}
				if contentKey(x, before) == contentKey(x, c) {
					continue
				}
				if isLoopFresh(slots, o) {
					continue
				}
				_, isMap := c.(*MapC)
				if o.arr || isMap {
					k := fmt.Sprintf("a%d", id)
					if index[k] == nil {
						if o.ro {
							x.unsupported("loop writes to memory of unknown identity")
						}
						s := &slot{phi: -1, obj: o, arr: true}
						index[k] = s
						slots = append(slots, s)
						changed = true
					}
					continue
				}
				var la, lb []leaf
				x.leaves(before, o.typ, nil, &la)
				x.leaves(c, o.typ, nil, &lb)
				if len(la) != len(lb) {
					x.unsupported("loop changes the shape of a cell")
				}
				for i := range la {
					k := fmt.Sprintf("c%d%s", id, pathKey(la[i].path))
					s := index[k]
					if s == nil {
						if x.vkey(la[i].v) == x.vkey(lb[i].v) {
							continue
						}
						s = &slot{phi: -1, obj: o, path: la[i].path, typ: la[i].t, objSt: true}
						s.init = x.getLeaf(x.content(st, o), la[i].path)
						s.cur = s.init
						index[k] = s
						slots = append(slots, s)
						changed = true
					}
					if x.observe(s, lb[i].v) {
						changed = true
					}
				}
			}
			// slots whose cell was not written on this path
			for _, s := range slots {
				if s.phi < 0 && !s.arr {
					if x.observe(s, x.getLeaf(x.content(b.st, s.obj), s.path)) {
						changed = true
					}
				}
			}
		}
		if !changed {
			return slots
		}
	}
}

func isLoopFresh(slots []*slot, o *Obj) bool {
	for _, s := range slots {
		if s.fobj == o {
			return true
		}
	}
	return false
}

func (x *X) peek(fr *Frame, b *ssa.BasicBlock, st *State, phis []Val) (cond *Term) {
	x.dry++
	savedPos, savedCur := x.pos, x.cur
	defer func() {
		x.dry--
		x.pos, x.cur = savedPos, savedCur
		if r := recover(); r != nil {
			if _, ok := r.(unsup); ok {
				cond = nil
				return
			}
			panic(r)
		}
	}()
	f := fr.clone()
	s := st.clone()
	x.cur = s
	x.setPhis(f, b, phis)
	for i := fr.info.nphi[b]; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			return x.get(f, in.Cond).(*Term)
		case *ssa.Call:
			bi, ok := in.Call.Value.(*ssa.Builtin)
			if !ok {
				return nil
			}
			var args []Val
			for _, a := range in.Call.Args {
				args = append(args, x.get(f, a))
			}
			f.env[f.info.num[in]] = x.builtin(f, s, &in.Call, bi, args)[0].ret
		case ssa.Value:
			f.env[f.info.num[in]] = x.value(f, s, in)
		default:
			return nil
		}
	}
	return nil
}

func (x *X) loopHead(fr *Frame, li *loopInfo, prev *ssa.BasicBlock, st *State) (bool, []Outcome) {
	h := li.header
	phis := x.phiVals(fr, h, prev)
	back := li.blocks[prev]
	if !back {
		fr.loops[h] = nil
		delete(fr.loops, h)
	}
	if back && fr.dryLoop == li {
		*fr.dryCol = append(*fr.dryCol, backEdge{st, phis, x.nobj})
		return true, nil
	}
	if x.spec > 0 && x.dry == 0 || x.spec > 0 {
		al := fr.loops[h]
		if al == nil {
			al = &activeLoop{unroll: true}
		}
		n := *al
		n.count++
		if n.count > unrollLimit {
			x.unsupported("specification loop too long in " + fr.fn.String())
		}
		fr.loops[h] = &n
		x.setPhis(fr, h, phis)
		return false, nil
	}
	if back {
		al := fr.loops[h]
		if al == nil {
			x.unsupported("back edge without loop record")
		}
		if !al.unroll {
			if x.dry == 0 {
				x.endIteration(fr, al, st, phis)
			}
			return true, nil
		}
		n := *al
		n.count++
		if n.count > unrollLimit {
			x.unsupported("loop too long to unroll")
		}
		c := x.peek(fr, h, st, phis)
		if c != nil && x.quick(st, c) != 0 {
			fr.loops[h] = &n
			x.setPhis(fr, h, phis)
			return false, nil
		}
		return x.cut(fr, li, st, phis)
	}
	if li.inv == nil && li.dec == nil || x.conc > 0 {
		if li.hasIf {
			c := x.peek(fr, h, st, phis)
			if c != nil && x.quick(st, c) != 0 {
				fr.loops[h] = &activeLoop{unroll: true}
				x.setPhis(fr, h, phis)
				return false, nil
			}
		}
	}
	return x.cut(fr, li, st, phis)
}

func (x *X) cut(fr *Frame, li *loopInfo, st *State, phis []Val) (bool, []Outcome) {
	h := li.header
	al := &activeLoop{li: li, init: phis, pre: map[string]Val{}, cur: map[string]Val{}}
	al.K = x.FreshInt("K", bigZero, maxLen)
	// values at loop entry
	for _, f := range []*ssa.Function{li.inv, li.dec, li.hnt, li.beg} {
		if f == nil {
			continue
		}
		for _, p := range f.Params {
			if strings.HasPrefix(p.Name(), "pre_") {
				al.pre[p.Name()] = x.freeze(st, x.resolve(fr, al, st, phis, x.I(0), p.Name()[4:]))
			}
		}
	}
	al.entry = st.clone()
	if li.inv != nil {
		g := x.evalNamed(fr, al, st, phis, x.I(0), li.inv)
		x.oblige(st, fmt.Sprintf("loop invariant %s holds on entry", li.inv.Name()), g)
	}
	slots := x.findSlots(fr, li, st, phis, al.K)
	al.nobj = x.nobj
	al.slots = slots
	seen := map[*Obj]bool{}
	for _, s := range slots {
		if v, ok := s.init.(*VSlice); ok && s.mode != mStable && !s.objSt && v.obj != nil {
			if seen[v.obj] {
				x.unsupported("two loop variables share a backing array")
			}
			seen[v.obj] = true
		}
	}
	st2 := st // continue in place
	ps := x.havoc(st2, slots, al.K, phis)
	al.nobj = x.nobj
	al.phis = ps
	x.setPhis(fr, h, ps)
	x.cur = st2
	for _, s := range slots {
		if s.arr || s.mode == mStable {
			continue
		}
		if v, ok := s.cur.(*VSlice); ok && s.objSt {
			_ = v
		}
	}
	if li.inv != nil {
		x.assume(st2, x.evalNamed(fr, al, st2, ps, al.K, li.inv))
	}
	// the previous header condition held
	if li.hasIf {
		if c := x.peek(fr, h, st2, ps); c != nil && !c.isConst() {
			if !li.blocks[h.Succs[0]] {
				c = x.Not(c)
			}
			if !x.mentionsFresh(c) {
				pc := x.Subst(c, map[int]*Term{al.K.id: x.AddC(al.K, -1)})
				x.assume(st2, x.Or(x.Eq(al.K, x.I(0)), pc))
				// K = 0 or (K-1) satisfies: fold the common bound K <= n
				if pc.op == OLe0 {
					z := x.Subst(c, map[int]*Term{al.K.id: x.I(0)})
					_ = z
				}
			}
			if c.op == OLe0 {
				al.condD, al.hasD = c.args[0], true
			}
		}
	}
	if li.dec != nil {
		al.meas = x.evalSpecNamed(fr, al, st2, ps, al.K, li.dec).(*Term)
	}
	for _, f := range []*ssa.Function{li.inv, li.dec, li.hnt, li.beg} {
		if f == nil {
			continue
		}
		for _, p := range f.Params {
			if strings.HasPrefix(p.Name(), "cur_") {
				al.cur[p.Name()] = x.freeze(st2, x.resolve(fr, al, st2, ps, al.K, p.Name()[4:]))
			}
		}
	}
	if li.beg != nil {
		x.runGhost(li.beg, x.namedArgs(fr, al, st2, ps, al.K, li.beg), st2)
	}
	al.start = st2.clone()
	fr.loops[h] = al
	return false, nil
}

func (x *X) mentionsFresh(t *Term) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.op == OVar && strings.HasPrefix(t.name, "lv!") {
			return true
		}
		if t.op == OApp && strings.Contains(t.name, "lv!") {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// endIteration proves that the arbitrary iteration preserves what was assumed at its start.
func (x *X) endIteration(fr *Frame, al *activeLoop, st *State, phis []Val) {
	li := al.li
	K1 := x.AddC(al.K, 1)
	x.cur = st
	if li.hnt != nil {
		x.loopBorn = al.nobj
		x.runGhost(li.hnt, x.namedArgs(fr, al, st, phis, K1, li.hnt), st)
	}
	kind := "inferred loop fact"
	type share struct {
		o *Obj
		v *VSlice
	}
	objs := map[*Obj][]share{}
	for _, s := range al.slots {
		if s.arr {
			continue
		}
		var nv Val
		if s.phi >= 0 {
			nv = x.getLeaf(phis[s.phi], s.path)
		} else {
			nv = x.getLeaf(x.content(st, s.obj), s.path)
		}
		switch {
		case s.mode == mStable:
			if x.vkey(nv) != x.vkey(s.cur) {
				x.oblige(st, kind, x.valEq(st, nv, s.cur, s.typ))
			}
		case s.mode == mAff:
			x.oblige(st, kind, x.Eq(nv.(*Term), x.Add(s.cur.(*Term), x.IBig(s.aff))))
		default:
			cs, ok := s.cur.(*VSlice)
			if !ok {
				switch s.cur.(type) {
				case *VSymPtr:
					if p, ok := nv.(*VPtr); ok && p.obj != nil {
						x.ptrID(p)
					}
				case *VSymIface:
					x.ifaceID(nv)
				}
				continue
			}
			ns := nv.(*VSlice)
			ct := []*Term{cs.off, cs.len, cs.cap, cs.isnil}
			nt := []*Term{ns.off, ns.len, ns.cap, ns.isnil}
			for i := range ct {
				if !s.objSt && i != 1 {
					continue
				}
				switch s.comp[i].mode {
				case mStable:
					x.oblige(st, kind, x.Eq(nt[i], ct[i]))
				case mAff:
					x.oblige(st, kind, x.Eq(nt[i], x.Add(ct[i], x.IBig(s.comp[i].aff))))
				}
			}
			if s.objSt {
				if ns.obj != cs.obj {
					x.unsupported("loop variable changes backing array unexpectedly")
				}
				continue
			}
			if ns.obj != nil && ns.obj != s.fobj {
				if !s.fobj.visible && (ns.obj.visible || ns.obj.ro && ns.obj.name != "merged") {
					x.unsupported("loop variable may alias caller memory")
				}
				if ns.obj.id <= al.nobj && !ns.obj.ro {
					x.unsupported("loop variable aliases another variable")
				}
			}
			if ns.obj != nil {
				for _, o := range objs[ns.obj] {
					x.shareLoopVars(st, o.o, s.fobj, o.v, ns)
				}
				objs[ns.obj] = append(objs[ns.obj], share{s.fobj, ns})
			}
		}
	}
	if len(st.sym) != len(al.start.sym) {
		x.unsupported("loop writes through symbolic pointers")
	}
	for id, c := range st.heap {
		if !x.preexisting(id, al.nobj) {
			continue
		}
		o := x.objs[id-1]
		if isLoopFresh(al.slots, o) {
			continue
		}
		var before interface{}
		if h, ok := al.start.heap[id]; ok {
			before = h
		} else if o.init != nil {
			before = o.init
		} else {
			continue
		}
		if contentKey(x, before) == contentKey(x, c) {
			continue
		}
		x.checkCovered(al, o, before, c)
	}
	if li.inv != nil {
		g := x.evalNamed(fr, al, st, phis, K1, li.inv)
		x.oblige(st, fmt.Sprintf("loop invariant %s is preserved", li.inv.Name()), g)
	}
	// termination
	switch {
	case li.dec != nil:
		m := x.evalSpecNamed(fr, al, st, phis, K1, li.dec).(*Term)
		x.oblige(st, "loop terminates", x.And(x.Le(x.I(0), al.meas), x.Lt(m, al.meas)))
	case li.rng != nil:
	case al.hasD:
		c := x.peek(fr, li.header, st, phis)
		if c != nil && !li.blocks[li.header.Succs[0]] {
			c = x.Not(c)
		}
		if c == nil {
			x.unsupported("no termination measure")
		}
		if c.isFalse() {
			return
		}
		if c.op != OLe0 {
			if c.isTrue() {
				x.oblige(st, "loop terminates", x.False)
			}
			x.unsupported("no termination measure")
		}
		x.oblige(st, "loop terminates", x.Lt(al.condD, c.args[0]))
	default:
		x.oblige(st, "loop terminates (no measure)", x.False)
	}
}

func (x *X) checkCovered(al *activeLoop, o *Obj, before, c interface{}) {
	_, isMap := c.(*MapC)
	if o.arr || isMap {
		for _, s := range al.slots {
			if s.arr && s.obj == o {
				return
			}
		}
		x.unsupported("loop writes memory its analysis missed: " + o.name)
	}
	var la, lb []leaf
	x.leaves(before, o.typ, nil, &la)
	x.leaves(c, o.typ, nil, &lb)
	for i := range la {
		if x.vkey(la[i].v) == x.vkey(lb[i].v) {
			continue
		}
		ok := false
		for _, s := range al.slots {
			if !s.arr && s.obj == o && pathKey(s.path) == pathKey(la[i].path) {
				ok = true
			}
		}
		if !ok {
			x.unsupported("loop writes memory its analysis missed: " + o.name + pathKey(la[i].path))
		}
	}
}

// ---- names ----

func (x *X) evalNamed(fr *Frame, al *activeLoop, st *State, phis []Val, K *Term, f *ssa.Function) *Term {
	return x.evalSpecNamed(fr, al, st, phis, K, f).(*Term)
}

func (x *X) evalSpecNamed(fr *Frame, al *activeLoop, st *State, phis []Val, K *Term, f *ssa.Function) Val {
	saved := x.oldState
	x.oldState = al.entry
	defer func() { x.oldState = saved }()
	return x.specCall(f, x.namedArgs(fr, al, st, phis, K, f), nil, st)
}

func (x *X) namedArgs(fr *Frame, al *activeLoop, st *State, phis []Val, K *Term, f *ssa.Function) []Val {
	var args []Val
	for _, p := range f.Params {
		args = append(args, x.resolve(fr, al, st, phis, K, p.Name()))
	}
	return args
}

func (x *X) resolve(fr *Frame, al *activeLoop, st *State, phis []Val, K *Term, name string) Val {
	switch {
	case name == "vck":
		return K
	case strings.HasPrefix(name, "old_"):
		for i, p := range fr.fn.Params {
			if p.Name() == name[4:] {
				return x.freeze(fr.entrySt, fr.args[i])
			}
		}
		x.unsupported("contract mentions " + name + ", which is not a parameter of " + fr.fn.String())
	case strings.HasPrefix(name, "pre_"):
		if v, ok := al.pre[name]; ok {
			return v
		}
	case strings.HasPrefix(name, "cur_"):
		if v, ok := al.cur[name]; ok {
			return v
		}
	}
	h := al.li.header
	for k := range phis {
		if h.Instrs[k].(*ssa.Phi).Comment == name {
			return phis[k]
		}
	}
	var best *varDef
	for i := range fr.info.vars[name] {
		d := &fr.info.vars[name][i]
		if d.blk == h && !d.ptr {
			continue
		}
		if !d.blk.Dominates(h) {
			continue
		}
		if best != nil && best.ptr && !d.ptr {
			continue // a value read from the variable
		}
		if best == nil || d.ptr && !best.ptr || best.blk != d.blk && best.blk.Dominates(d.blk) || best.blk == d.blk && d.pos > best.pos {
			best = d
		}
	}
	if best != nil {
		v := x.get(fr, best.val)
		if best.ptr {
			return x.load(st, v)
		}
		return v
	}
	for i, p := range fr.fn.Params {
		if p.Name() == name {
			return fr.args[i]
		}
	}
	for i, p := range fr.fn.FreeVars {
		if p.Name() == name {
			if _, ok := p.Type().(*types.Pointer); ok {
				return x.load(st, fr.free[i])
			}
			return fr.free[i]
		}
	}
	x.unsupported("contract mentions " + name + ", which is not a variable of " + fr.fn.String())
	return nil
}

// freeze makes an immutable snapshot of what a value reaches directly.
// freezeSeq makes the elements immutable too.
func (x *X) freezeSeq(st *State, c Seq, seen map[Seq]Seq) Seq {
	if r, ok := seen[c]; ok {
		return r
	}
	r := c
	switch s := c.(type) {
	case *SeqStore:
		p, v := x.freezeSeq(st, s.prev, seen), x.freeze(st, s.val)
		if p != s.prev || x.vkey(v) != x.vkey(s.val) {
			r = x.mkStore(p, s.idx, v)
		}
	case *SeqCopy:
		p, q := x.freezeSeq(st, s.prev, seen), x.freezeSeq(st, s.src, seen)
		if p != s.prev || q != s.src {
			r = x.mkCopy(p, s.dst, s.n, q, s.soff)
		}
	case *SeqIte:
		a, b := x.freezeSeq(st, s.a, seen), x.freezeSeq(st, s.b, seen)
		if a != s.a || b != s.b {
			r = x.mkIteSeq(s.c, a, s.aOff, b, s.bOff)
		}
	}
	seen[c] = r
	return r
}

func (x *X) freeze(st *State, v Val) Val {
	switch v := v.(type) {
	case *VSlice:
		if v.obj == nil || v.obj.name == "frozen" {
			return v
		}
		c := x.content(st, v.obj).(Seq)
		if v.obj.ro && x.sameContent(v.obj, c) {
			return v
		}
		if x.scalarSort(v.elem) == nil && !types.IsInterface(v.elem) {
			c = x.freezeSeq(st, c, map[Seq]Seq{})
		}
		k := fmt.Sprintf("fz%d,%s", v.obj.id, c.Key())
		o, ok := x.liftObj[k]
		if !ok {
			o = x.newObj(v.obj.typ, true, "frozen")
			o.ro, o.visible, o.n = true, v.obj.visible, v.obj.n
			o.init = c
			x.liftObj[k] = o
		}
		w := *v
		w.obj = o
		return &w
	case *VStruct:
		r := &VStruct{typ: v.typ}
		for _, f := range v.f {
			r.f = append(r.f, x.freeze(st, f))
		}
		return r
	case *VArr:
		r := &VArr{elem: v.elem}
		for _, f := range v.e {
			r.e = append(r.e, x.freeze(st, f))
		}
		return r
	case *VTuple:
		r := &VTuple{}
		for _, f := range v.v {
			r.v = append(r.v, x.freeze(st, f))
		}
		return r
	case *VPtr:
		if v.obj == nil || v.obj.name == "frozen" {
			return v
		}
		if v.obj.arr {
			c := x.content(st, v.obj).(Seq)
			o := x.newObj(v.obj.typ, true, "frozen")
			o.ro, o.visible, o.n, o.init = true, v.obj.visible, v.obj.n, c
			w := *v
			w.obj = o
			return &w
		}
		c := x.content(st, v.obj)
		k := fmt.Sprintf("fzp%d,%s", v.obj.id, contentKey(x, c))
		o, ok := x.liftObj[k]
		if !ok {
			o = x.newObj(v.obj.typ, false, "frozen")
			o.ro, o.visible = true, v.obj.visible
			if _, isMap := c.(*MapC); isMap {
				o.init = c
			} else {
				o.init = x.freeze(st, c)
			}
			x.liftObj[k] = o
		}
		w := *v
		w.obj = o
		return &w
	case *VMap:
		if v.obj == nil || v.obj.name == "frozen" {
			return v
		}
		o := x.newObj(v.obj.typ, false, "frozen")
		o.ro, o.visible, o.init = true, v.obj.visible, x.content(st, v.obj)
		return &VMap{o, v.typ}
	case *VIface:
		if v.typ == nil {
			return v
		}
		if _, ok := v.val.(*VPtr); ok {
			return v
		}
		return &VIface{v.typ, x.freeze(st, v.val)}
	}
	return v
}

func (x *X) sameContent(o *Obj, c Seq) bool {
	i, ok := o.init.(Seq)
	return ok && i.Key() == c.Key()
}
