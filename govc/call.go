package main

// Calls: contracts, inlining, intrinsics, interfaces, globals.

import (
	"os"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func one(st *State, v Val) []Outcome { return []Outcome{{st, v}} }

func (x *X) dispatch(fr *Frame, st *State, call *ssa.CallCommon, fnv Val, args []Val) []Outcome {
	if call.IsInvoke() {
		return x.invoke(fr, st, call.Method, fnv, args, call.Value.Type())
	}
	return x.callVal(fr, st, call, fnv, args)
}

func (x *X) callVal(fr *Frame, st *State, call *ssa.CallCommon, fnv Val, args []Val) []Outcome {
	f, ok := fnv.(*VFunc)
	if !ok {
		x.unsupported(fmt.Sprintf("call of %T", fnv))
	}
	if f.bi != nil {
		return x.builtin(fr, st, call, f.bi, args)
	}
	if f.fn == nil {
		x.oblige(st, "nil function call", x.False)
		return nil
	}
	return x.callFunc(fr, st, f.fn, f.free, args)
}

func (x *X) callFunc(fr *Frame, st *State, fn *ssa.Function, free, args []Val) []Outcome {
	pos := x.pos
	defer func() { x.pos = pos }()
	name := fn.Name()
	if strings.HasPrefix(name, "vc") && x.P.inOverlay(fn) {
		if outs, ok := x.intrinsic(fr, st, name, args); ok {
			return outs
		}
	}
	full := fn.String()
	if outs, ok := x.stdCall(fr, st, full, fn, args); ok {
		return outs
	}
	if fn.Synthetic == "package initializer" {
		x.initPkg(fn.Pkg)
		return one(st, &VTuple{})
	}
	overlay := x.P.inOverlay(fn)
	if overlay && (strings.HasPrefix(name, "rec_") || strings.HasPrefix(name, "ufc_")) {
		return one(st, x.recApp(fn, args, st))
	}
	con := x.P.cons[fn]
	if overlay && x.spec == 0 && !opt.noJoin && (strings.HasPrefix(name, "spec_") || strings.HasPrefix(name, "Spec")) {
		if rs := fn.Signature.Results(); rs.Len() == 1 {
			if _, ok := rs.At(0).Type().Underlying().(*types.Basic); ok {
				return one(st, x.specCall(fn, args, free, st))
			}
		}
	}
	if x.spec > 0 {
		if con != nil && con.isLemma {
			return one(st, &VTuple{})
		}
		if con != nil && con.det != nil && x.ufc == 0 {
			m := x.detMap(con, fn, args, st)
			x.addGlobalFact(x.evalSpecBool(con.ens, append(append([]Val{}, args...), m), newState()))
			return one(st, m)
		}
		return one(st, x.specCall(fn, args, free, st))
	}
	if con != nil && con.ens != nil && !con.inline && x.conc == 0 && !x.inlineHere(fn) {
		if con.isLemma || x.dry > 0 || fn != x.entryFn || x.depth > 1 {
			x.checkDropped(fn)
			return x.applyContract(fr, st, con, fn, args)
		}
	}
	x.checkDropped(fn)
	x.P.ensureBuilt(fn)
	if fn.Blocks == nil {
		x.unsupported("call of function without body or model: " + full)
	}
	if x.P.isRepo(fn.Pkg) || fn.Pkg == nil {
		if !overlay {
			x.inlined[full] = true
		}
	} else {
		x.inlined[full] = true
	}
	base := len(st.pc)
	before := st.heap
	_ = before
	snap := st.clone()
	outs := x.callFn(fn, args, free, st)
	return x.mergeOuts(outs, snap, base)
}

// mergeOuts joins paths of an inlined call when they differ only in scalar results.
func (x *X) mergeOuts(outs []Outcome, snap *State, base int) []Outcome {
	if len(outs) < 2 || len(outs) > 8 {
		return outs
	}
	for _, o := range outs {
		if !x.scalarVal(o.ret) || len(o.st.sym) != len(snap.sym) {
			return outs
		}
		for id, c := range o.st.heap {
			if id > len(x.objs) {
				return outs
			}
			var was interface{}
			if h, ok := snap.heap[id]; ok {
				was = h
			} else {
				was = x.objs[id-1].init
				if was == nil {
					continue // new object, unreachable from a scalar result
				}
			}
			if contentKey(x, was) != contentKey(x, c) {
				return outs
			}
		}
		if len(o.st.pc)-base > 12 {
			return outs
		}
	}
	conds := make([]*Term, len(outs))
	vals := make([]Val, len(outs))
	for i, o := range outs {
		conds[i] = x.And(o.st.pc[base:]...)
		vals[i] = o.ret
	}
	x.cur = snap
	ret := x.mergeTree(outs, vals, len(snap.dec))
	if ret == nil {
		ret = vals[len(outs)-1]
		for i := len(outs) - 2; i >= 0; i-- {
			ret = x.merge(conds[i], vals[i], ret)
		}
	}
	x.assume(snap, x.Or(conds...))
	x.cur = snap
	return []Outcome{{snap, ret}}
}

func (x *X) scalarVal(v Val) bool {
	switch v := v.(type) {
	case *Term:
		return true
	case *VStruct:
		for _, f := range v.f {
			if !x.scalarVal(f) {
				return false
			}
		}
		return true
	case *VTuple:
		for _, f := range v.v {
			if !x.scalarVal(f) {
				return false
			}
		}
		return true
	}
	return false
}

// specCall evaluates a function as a mathematical expression in a state.
func (x *X) specCall(fn *ssa.Function, args, free []Val, st *State) Val {
	x.P.ensureBuilt(fn)
	if x.specDepth > 300 {
		x.unsupported("specification recursion too deep: " + fn.String())
	}
	x.spec++
	x.specDepth++
	savedCur, savedPos := x.cur, x.pos
	defer func() { x.spec--; x.specDepth--; x.cur, x.pos = savedCur, savedPos }()
	start := x.nobj
	base, dbase := len(st.pc), len(st.dec)
	s2 := st.clone()
	outs := x.callFn(fn, args, free, s2)
	if len(outs) == 0 {
		x.unsupported("specification has no value: " + fn.String())
	}
	vals := make([]Val, len(outs))
	for i, o := range outs {
		vals[i] = x.freezeNew(o.st, o.ret, start)
	}
	x.cur = st
	if r := x.mergeTree(outs, vals, dbase); r != nil {
		return r
	}
	r := vals[len(outs)-1]
	for i := len(outs) - 2; i >= 0; i-- {
		r = x.merge(x.And(outs[i].st.pc[base:]...), vals[i], r)
	}
	return r
}

// mergeTree joins the values of paths along the branches that they took; nil if the paths are
// not the leaves of a tree of branches.
func (x *X) mergeTree(outs []Outcome, vals []Val, k int) Val {
	if len(outs) == 1 {
		return vals[0]
	}
	for _, o := range outs {
		if len(o.st.dec) <= k {
			return nil
		}
	}
	d := outs[0].st.dec[k]
	n := x.Not(d)
	i := 1
	for i < len(outs) && outs[i].st.dec[k] == d {
		i++
	}
	for _, o := range outs[i:] {
		if o.st.dec[k] != n {
			return nil
		}
	}
	a := x.mergeTree(outs[:i], vals[:i], k+1)
	if a == nil || i == len(outs) {
		return a
	}
	b := x.mergeTree(outs[i:], vals[i:], k+1)
	if b == nil {
		return nil
	}
	return x.merge(d, a, b)
}

func (x *X) freezeNew(st *State, v Val, start int) Val {
	switch w := v.(type) {
	case *VSlice:
		if w.obj != nil && w.obj.id > start && w.obj.name != "frozen" {
			return x.freeze(st, v)
		}
	case *VPtr:
		if w.obj != nil && w.obj.id > start {
			return x.freeze(st, v)
		}
	case *VMap:
		if w.obj != nil && w.obj.id > start {
			return x.freeze(st, v)
		}
	case *VStruct:
		r := &VStruct{typ: w.typ}
		for _, f := range w.f {
			r.f = append(r.f, x.freezeNew(st, f, start))
		}
		return r
	case *VArr:
		r := &VArr{elem: w.elem}
		for _, f := range w.e {
			r.e = append(r.e, x.freezeNew(st, f, start))
		}
		return r
	case *VTuple:
		r := &VTuple{}
		for _, f := range w.v {
			r.v = append(r.v, x.freezeNew(st, f, start))
		}
		return r
	case *VIface:
		if w.typ == nil {
			return v
		}
		return &VIface{w.typ, x.freezeNew(st, w.val, start)}
	case *VFunc:
		// closures keep their cells: make the cells' content permanent
		for _, f := range w.free {
			if p, ok := f.(*VPtr); ok && p.obj != nil {
				if c, ok := st.heap[p.obj.id]; ok {
					if _, has := x.base[p.obj.id]; !has && p.obj.id > start {
						x.base[p.obj.id] = c
					}
				}
			}
		}
	}
	return v
}

// ghost code with obligations (hints, lemma calls)
func (x *X) runGhost(fn *ssa.Function, args []Val, st *State) {
	outs := x.callFn(fn, args, nil, st.clone())
	if len(outs) == 0 {
		return
	}
	if len(outs) == 1 {
		for _, t := range outs[0].st.pc[len(st.pc):] {
			x.assume(st, t)
		}
		return
	}
	var ds []*Term
	for _, o := range outs {
		ds = append(ds, x.And(o.st.pc[len(st.pc):]...))
	}
	x.assume(st, x.Or(ds...))
}

// ghostCases runs ghost code, and returns the state extended by what each of its paths found.
func (x *X) ghostCases(fn *ssa.Function, args []Val, st *State) []*State {
	outs := x.callFn(fn, args, nil, st.clone())
	var r []*State
	for _, o := range outs {
		s := st.clone()
		for _, t := range o.st.pc[len(st.pc):] {
			x.assume(s, t)
		}
		r = append(r, s)
	}
	if len(r) == 0 {
		r = []*State{st}
	}
	return r
}

// ---- contracts ----

func (x *X) ensArgs(ens *ssa.Function, args []Val, ret Val, nres int, old *State) []Val {
	var as []Val
	as = append(as, args...)
	switch nres {
	case 0:
	case 1:
		as = append(as, ret)
	default:
		as = append(as, ret.(*VTuple).v...)
	}
	for _, p := range ens.Params[min(len(as), len(ens.Params)):] {
		n := p.Name()
		if !strings.HasPrefix(n, "old_") {
			x.unsupported("contract " + ens.Name() + " has a parameter too many: " + n)
		}
		found := false
		for i := range args {
			if ens.Params[i].Name() == n[4:] {
				as = append(as, x.freeze(old, args[i]))
				found = true
			}
		}
		if !found {
			x.unsupported("contract " + ens.Name() + ": no parameter for " + n)
		}
	}
	if len(as) != len(ens.Params) {
		x.unsupported("contract " + ens.Name() + " does not match its function")
	}
	return as
}

func (x *X) evalSpecBool(fn *ssa.Function, args []Val, st *State) *Term {
	if len(args) != len(fn.Params) {
		x.unsupported("contract " + fn.Name() + " does not match its function")
	}
	return x.specCall(fn, args, nil, st).(*Term)
}

func (x *X) evalMods(fn *ssa.Function, args []Val, st *State) []modItem {
	if fn == nil {
		return nil
	}
	if len(args) != len(fn.Params) {
		x.unsupported("contract " + fn.Name() + " does not match its function")
	}
	v := x.specCall(fn, args, nil, st).(*VSlice)
	var items []modItem
	if !v.len.isConst() {
		x.unsupported("mod list of unknown length")
	}
	seq := x.sliceSeq(st, v)
	for i := int64(0); i < v.len.ival.Int64(); i++ {
		e, ok := x.seqGet(seq, x.AddC(v.off, i)).(*VIface)
		if !ok {
			x.unsupported("mod list element")
		}
		switch p := e.val.(type) {
		case *VPtr:
			if p.obj != nil {
				items = append(items, modItem{obj: p.obj, path: p.path, root: p.elem})
			}
		case *VSlice:
			if p.obj != nil {
				items = append(items, modItem{obj: p.obj, lo: p.off, hi: x.Add(p.off, p.len)})
			}
		case *VSymPtr:
			items = append(items, modItem{root: p.root, symID: p.id})
		case *VMap:
			if p.obj != nil {
				items = append(items, modItem{obj: p.obj})
			}
		default:
			x.unsupported(fmt.Sprintf("mod item %T", e.val))
		}
	}
	return items
}

func (x *X) applyContract(fr *Frame, st *State, con *Contract, fn *ssa.Function, args []Val) []Outcome {
	x.used[con.fnName(fn)] = true
	x.cur = st
	if con.req != nil {
		x.oblige(st, "precondition of "+con.fnName(fn), x.evalSpecBool(con.req, args, st))
	}
	if con.isLemma && fn == x.entryFn && x.entryMeasure != nil {
		m := x.lemmaMeasure(fn, args)
		x.oblige(st, "lemma recursion decreases", x.And(x.Le(x.I(0), m), x.Lt(m, x.entryMeasure)))
	}
	sig := fn.Signature
	nres := sig.Results().Len()
	if con.isLemma {
		if con.ens != nil {
			x.assume(st, x.evalSpecBool(con.ens, args, st))
		}
		return one(st, &VTuple{})
	}
	old := st.clone()
	for _, m := range x.evalMods(con.mod, args, st) {
		x.havocMod(st, m)
	}
	var ret Val = &VTuple{}
	start := x.nobj
	switch nres {
	case 0:
	case 1:
		ret = x.fresh(sig.Results().At(0).Type(), fn.Name()+".r", false)
	default:
		ret = x.fresh(sig.Results(), fn.Name()+".r", false)
	}
	if con.det != nil {
		m := ret.(*VMap)
		m.obj.init = x.detMap(con, fn, args, st).obj.init
	}
	if con.alias {
		for _, o := range x.objs[start:] {
			o.visible, o.ro = true, true
		}
	}
	// nested results may share memory with arguments: writing those later invalidates the result
	for _, a := range args {
		if s, ok := a.(*VSlice); ok && s.obj != nil {
			for _, o := range x.objs[start:] {
				if con.alias || hasPtr(o.typ) {
					st.deriv[s.obj.id] = append(st.deriv[s.obj.id][:len(st.deriv[s.obj.id]):len(st.deriv[s.obj.id])], o.id)
				}
			}
		}
	}
	x.cur = st
	if con.ens != nil {
		as := x.ensArgs(con.ens, args, ret, nres, old)
		savedOld := x.oldState
		x.oldState = old
		e := x.evalSpecBool(con.ens, as, st)
		if weak := x.weaker(fn); weak != nil {
			// the harness needs less than the contract gives; what it uses follows from the contract
			x.cur = st
			w := x.evalSpecBool(weak, x.ensArgs(weak, args, ret, nres, old), st)
			st2 := st.clone()
			x.assume(st2, e)
			x.oblige(st2, "weaker postcondition", w)
			x.cur = st
			e = w
		}
		x.oldState = savedOld
		if os.Getenv("ENSDBG") != "" {
			println("ens", e.String())
		}
		ret, e = x.defineResults(st, ret, e)
		x.assume(st, e)
	}
	return one(st, ret)
}

// defineResults replaces scalar results that the postcondition equates with a term by that term.
func (x *X) defineResults(st *State, ret Val, e *Term) (Val, *Term) {
	vars := func() map[int]*Term {
		m := map[int]*Term{}
		add := func(v Val) {
			if t, ok := v.(*Term); ok && t.op == OVar {
				m[t.id] = t
			}
		}
		add(ret)
		if t, ok := ret.(*VTuple); ok {
			for _, v := range t.v {
				add(v)
			}
		}
		return m
	}
	orig := vars()
	for round := 0; round < 8; round++ {
		rs := vars()
		for id := range rs {
			if orig[id] == nil {
				delete(rs, id)
			}
		}
		if len(rs) == 0 {
			break
		}
		var v, t *Term
		try := func(a, b *Term) {
			if v != nil || rs[a.id] == nil {
				return
			}
			vs := map[int]bool{}
			varsOf(b, vs, map[int]bool{})
			for id := range rs {
				if vs[id] {
					return
				}
			}
			v, t = a, b
		}
		for _, h := range conjuncts(e) {
			if h.bound || v != nil {
				continue
			}
			switch {
			case h.op == OVar:
				try(h, x.True)
			case h.op == ONot && h.args[0].op == OVar:
				try(h.args[0], x.False)
			case h.op == OEq && h.args[0].sort != Int:
				try(h.args[0], h.args[1])
				try(h.args[1], h.args[0])
			case h.op == OEq && h.args[0].op == OVar:
				try(h.args[0], h.args[1])
			case h.op == OEq && h.args[0].op == OLin:
				a := h.args[0]
				for i, m := range a.args {
					if rs[m.id] != nil && new(big.Int).Abs(a.coefs[i]).Cmp(bigOne) == 0 && v == nil {
						rest := x.Sub(x.Sub(a, x.MulC(m, a.coefs[i])), h.args[1])
						try(m, x.MulC(rest, new(big.Int).Neg(a.coefs[i])))
					}
				}
			}
		}
		if v == nil {
			break
		}
		if v.sort == Int {
			if r := x.Rng(v); r.lo != nil && r.hi != nil {
				x.assume(st, x.And(x.Le(x.IBig(r.lo), t), x.Le(t, x.IBig(r.hi))))
			}
		}
		m := map[int]*Term{v.id: t}
		e = x.Subst(e, m)
		sub := func(w Val) Val {
			if w, ok := w.(*Term); ok && w == v {
				return t
			}
			return w
		}
		if tu, ok := ret.(*VTuple); ok {
			n := &VTuple{v: append([]Val(nil), tu.v...)}
			for i := range n.v {
				n.v[i] = sub(n.v[i])
			}
			ret = n
		} else {
			ret = sub(ret)
		}
	}
	return ret, e
}

func hasPtr(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPtr(u.Elem())
	}
	return true
}

func (c *Contract) fnName(fn *ssa.Function) string { return fn.String() }

func (x *X) lemmaMeasure(fn *ssa.Function, args []Val) *Term {
	for i := len(fn.Params) - 1; i >= 0; i-- {
		if ii, ok := basicInfo(fn.Params[i].Type()); ok && !ii.bv {
			return args[i].(*Term)
		}
	}
	return nil
}

func (x *X) havocMod(st *State, m modItem) {
	if m.obj == nil {
		x.unsupported("callee modifies symbolic memory")
	}
	x.frame(st, m.obj, m.path, m.lo, m.hi)
	start := x.nobj
	if m.lo != nil {
		x.touch(st, m.obj)
		x.cnt++
		b := &SeqBase{fmt.Sprintf("mod'%d", x.cnt), nil, m.obj.typ}
		st.heap[m.obj.id] = x.mkCopy(x.content(st, m.obj).(Seq), m.lo, x.Sub(m.hi, m.lo), b, m.lo)
		return
	}
	if m.obj.arr {
		x.unsupported("callee modifies array cell")
	}
	c := x.content(st, m.obj)
	if mc, ok := c.(*MapC); ok {
		x.cnt++
		st.heap[m.obj.id] = &MapC{base: fmt.Sprintf("mod'%d", x.cnt), k: mc.k, v: mc.v}
		return
	}
	nv := x.fresh(m.root, "mod", false)
	for _, o := range x.objs[start:] {
		o.visible, o.ro = true, true
	}
	st.heap[m.obj.id] = x.setPath(c, m.path, nv)
}

// ---- recursive specification functions ----

func (x *X) recApp(fn *ssa.Function, args []Val, st *State) Val {
	res := fn.Signature.Results().At(0).Type()
	s := x.scalarSort(res)
	if s == nil {
		x.unsupported("rec_ function must return a scalar: " + fn.Name())
	}
	name := "rec:" + fn.Pkg.Pkg.Name() + "." + fn.Name()
	var ts []*Term
	var tmpl []Val
	for i, a := range args {
		tmpl = append(tmpl, x.recArg(st, a, fn.Params[i].Type(), &name, &ts))
	}
	app := x.App(name, s, ts...)
	if _, ok := x.unfold[name]; !ok {
		x.unfold[name] = func(as []*Term, app *Term) []*Term {
			k := 0
			var vals []Val
			// ufc_ functions are known only where the first argument is
			if strings.HasPrefix(fn.Name(), "ufc_") && !as[0].isConst() {
				return nil
			}
			for _, t := range tmpl {
				vals = append(vals, x.recInst(t, as, &k))
			}
			if strings.HasPrefix(fn.Name(), "ufc_") {
				x.ufc++
				defer func() { x.ufc-- }()
			}
			body := x.specCall(fn, vals, nil, newState())
			return []*Term{x.eqLift(app, body.(*Term))}
		}
	}
	return app
}

// eqLift is app == t with the conditions of t that have quantifiers outside the equation.
func (x *X) eqLift(app, t *Term) *Term {
	if t.op == OIte && t.sort != Bool && x.hasQuant(t, map[int]bool{}) {
		c := t.args[0]
		return x.And(x.Or(x.Not(c), x.eqLift(app, t.args[1])), x.Or(c, x.eqLift(app, t.args[2])))
	}
	return x.Eq(app, t)
}

// recArg turns an argument into key text and scalar terms.
func (x *X) recArg(st *State, a Val, t types.Type, name *string, ts *[]*Term) Val {
	switch v := a.(type) {
	case *Term:
		*ts = append(*ts, v)
		return (*Term)(nil)
	case *VSlice:
		if v.obj == nil {
			*name += ":nil"
			return v
		}
		f := x.freeze(st, v).(*VSlice)
		if b, ok := x.content(st, f.obj).(*SeqBase); ok && len(b.idx) > 0 {
			*name += ":Bx" + b.prefix
			*ts = append(append(*ts, b.idx...), v.off, v.len)
			return &recNested{b, f}
		}
		*name += ":" + x.content(st, f.obj).(Seq).Key()
		*ts = append(*ts, v.off, v.len)
		return f
	case *VStr:
		*name += ":" + v.seq.Key()
		*ts = append(*ts, v.off, v.len)
		return v
	case *VStruct:
		r := &VStruct{typ: v.typ}
		ut := under(v.typ).(*types.Struct)
		*name += "{"
		for i, f := range v.f {
			r.f = append(r.f, x.recArg(st, f, ut.Field(i).Type(), name, ts))
		}
		*name += "}"
		return r
	case *VMap:
		if v.obj == nil {
			*name += ":nilmap"
			return v
		}
		c := x.content(st, v.obj).(*MapC)
		if c.base != "" && len(c.upd) == 0 {
			*name += ":m" + c.base
			*ts = append(*ts, c.idx...)
		} else {
			*name += ":" + contentKey(x, c)
		}
		return x.freeze(st, v)
	case *VIface, *VFunc:
		*name += ":" + x.vkey(v)
		return v
	}
	x.unsupported(fmt.Sprintf("rec_ argument %T", a))
	return nil
}

func (x *X) recInst(t Val, as []*Term, k *int) Val {
	switch v := t.(type) {
	case *Term:
		*k++
		return as[*k-1]
	case *VSlice:
		if v.obj == nil {
			return v
		}
		*k += 2
		return &VSlice{v.obj, as[*k-2], as[*k-1], as[*k-1], x.False, v.elem}
	case *VStr:
		*k += 2
		return &VStr{seq: v.seq, off: as[*k-2], len: as[*k-1]}
	case *VStruct:
		r := &VStruct{typ: v.typ}
		for _, f := range v.f {
			r.f = append(r.f, x.recInst(f, as, k))
		}
		return r
	case *recNested:
		n := len(v.b.idx)
		b := &SeqBase{v.b.prefix, as[*k : *k+n], v.b.elem}
		*k += n + 2
		if x.sameIdx(b.idx, v.b.idx) {
			return &VSlice{v.s.obj, as[*k-2], as[*k-1], as[*k-1], x.False, v.s.elem}
		}
		return &VSlice{x.frozenSeq(b, v.s), as[*k-2], as[*k-1], as[*k-1], x.False, v.s.elem}
	case *VMap:
		if v.obj == nil {
			return v
		}
		c, ok := v.obj.init.(*MapC)
		if !ok || c.base == "" || len(c.upd) > 0 || len(c.idx) == 0 {
			return v
		}
		n := *c
		n.id = 0
		n.idx = as[*k : *k+len(c.idx)]
		*k += len(c.idx)
		return &VMap{x.frozenMap(&n), v.typ}
	}
	return t
}

// recNested is a slice argument whose content is a part of an element of something else.
type recNested struct {
	b *SeqBase
	s *VSlice
}

func (x *X) sameIdx(a, b []*Term) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (x *X) frozenSeq(b *SeqBase, v *VSlice) *Obj {
	key := "fzs:" + b.Key()
	if o, ok := x.liftObj[key]; ok {
		return o
	}
	o := x.newObj(v.obj.typ, true, "frozen")
	o.ro, o.visible, o.n, o.init = true, v.obj.visible, v.obj.n, b
	x.liftObj[key] = o
	return o
}

func (x *X) frozenMap(c *MapC) *Obj {
	key := "fzm:" + c.base
	for _, i := range c.idx {
		key += fmt.Sprintf(",%d", i.id)
	}
	if o, ok := x.liftObj[key]; ok {
		return o
	}
	o := x.newObj(types.NewMap(c.k, c.v), false, "frozen")
	o.ro, o.init = true, c
	x.liftObj[key] = o
	return o
}

// ---- results that are a function of a class and a key ----

// detMap is the map of the class and key that det_F gives.
func (x *X) detMap(con *Contract, fn *ssa.Function, args []Val, st *State) *VMap {
	class, key := x.detKey(con, args, st)
	mt := under(fn.Signature.Results().At(0).Type()).(*types.Map)
	return &VMap{x.frozenMap(&MapC{base: "det:" + fn.Pkg.Pkg.Name() + "." + class, idx: []*Term{key}, k: mt.Key(), v: mt.Elem()}), mt}
}

func (x *X) detKey(con *Contract, args []Val, st *State) (string, *Term) {
	t := x.specCall(con.det, args, nil, st).(*VTuple)
	cs, ok := t.v[0].(*VStr).seq.(*SeqConst)
	if !ok {
		x.unsupported("det_ class must be a constant")
	}
	return cs.s, t.v[1].(*Term)
}

// detCheck: the result has the properties of its class and key, and those leave no choice.
func (x *X) detCheck(con *Contract, fn *ssa.Function, args []Val, ret Val, st *State) {
	class, key := x.detKey(con, args, st)
	ax := x.P.specFns["detax:"+fn.Pkg.Pkg.Path()+":"+class]
	if ax == nil {
		x.unsupported("no detax_" + class)
	}
	x.oblige(st, "result has the properties of "+class, x.evalSpecBool(ax, []Val{ret, key}, st))
	s2 := st.clone()
	mt := under(fn.Signature.Results().At(0).Type()).(*types.Map)
	var ms []*VMap
	for i := 0; i < 2; i++ {
		x.cnt++
		ms = append(ms, &VMap{x.frozenMap(&MapC{base: fmt.Sprintf("det'%d", x.cnt), k: mt.Key(), v: mt.Elem()}), mt})
		x.assume(s2, x.evalSpecBool(ax, []Val{ms[i], key}, s2))
	}
	x.cur = s2
	k := x.Var(fmt.Sprintf("det'%d.k", x.cnt), x.scalarSort(mt.Key()))
	va, oka := x.mapGet(s2, ms[0], k)
	vb, okb := x.mapGet(s2, ms[1], k)
	x.oblige(s2, "the properties of "+class+" determine it", x.And(x.Eq(oka, okb), x.Eq(va.(*Term), vb.(*Term)), x.Eq(x.mapNil(s2, ms[0]), x.mapNil(s2, ms[1]))))
	x.cur = st
}

// ---- intrinsics ----

func (x *X) intrinsic(fr *Frame, st *State, name string, args []Val) ([]Outcome, bool) {
	quant := func(sort *Sort, guard func(v *Term) *Term, f *VFunc, exists bool) Val {
		v := x.FreshBound("q", sort)
		g := guard(v)
		if g.isFalse() {
			return x.B(!exists)
		}
		s2 := st.clone()
		x.assume(s2, g)
		body := x.specCall(f.fn, []Val{v}, f.free, s2).(*Term)
		if exists {
			return x.Exists([]*Term{v}, x.And(g, body))
		}
		return x.Forall([]*Term{v}, x.Implies(g, body))
	}
	switch name {
	case "vcForall", "vcExists":
		lo, hi := args[0].(*Term), args[1].(*Term)
		f := args[2].(*VFunc)
		if lo.isConst() && hi.isConst() {
			n := new(big.Int).Sub(hi.ival, lo.ival)
			if n.Cmp(big.NewInt(9)) <= 0 {
				r := x.B(name == "vcForall")
				for i := new(big.Int).Set(lo.ival); i.Cmp(hi.ival) < 0; i = new(big.Int).Add(i, bigOne) {
					b := x.specCall(f.fn, []Val{x.IBig(i)}, f.free, st).(*Term)
					if name == "vcForall" {
						r = x.And(r, b)
					} else {
						r = x.Or(r, b)
					}
				}
				return one(st, r), true
			}
		}
		return one(st, quant(Int, func(v *Term) *Term { return x.And(x.Le(lo, v), x.Lt(v, hi)) }, f, name == "vcExists")), true
	case "vcForallByte", "vcExistsByte":
		return one(st, quant(BV(8), func(v *Term) *Term { return x.True }, args[0].(*VFunc), name == "vcExistsByte")), true
	case "vcForallRune":
		return one(st, quant(BV(32), func(v *Term) *Term { return x.True }, args[0].(*VFunc), false)), true
	case "vcForallInt":
		return one(st, quant(Int, func(v *Term) *Term { return x.True }, args[0].(*VFunc), false)), true
	case "vcAssert":
		if x.spec > 0 {
			return one(st, &VTuple{}), true
		}
		x.oblige(st, "assertion", args[0].(*Term))
		x.assume(st, args[0].(*Term))
		return one(st, &VTuple{}), true
	case "vcReq":
		if x.spec == 0 {
			x.assume(st, args[0].(*Term))
			if x.quick(st, x.False) == 1 || args[0].(*Term).isFalse() {
				return nil, true
			}
		}
		return one(st, &VTuple{}), true
	case "vcOldBool", "vcOldInt":
		if x.oldState == nil {
			x.unsupported("vcOld outside a postcondition")
		}
		f := args[0].(*VFunc)
		// closure cells live in the current state
		s2 := x.oldState.clone()
		for _, c := range f.free {
			if p, ok := c.(*VPtr); ok && p.obj != nil {
				s2.heap[p.obj.id] = x.content(st, p.obj)
			}
		}
		return one(st, x.specCall(f.fn, nil, f.free, s2)), true
	case "vcSame": // do two byte slices start at the same memory
		a, b := args[0].(*VSlice), args[1].(*VSlice)
		return one(st, x.B(a.obj == b.obj && a.off == b.off)), true
	case "vcNative": // run natively only
		return one(st, &VTuple{}), true
	case "vcFor": // whether the harness being verified is one of the property
		return one(st, x.B(x.entryFn != nil && strings.HasPrefix(x.entryFn.Name(), "prop_"+litString(args[0])+"_"))), true
	case "vcNew": // allocated in this iteration, so that nothing that came before can reach it
		v := args[0]
		if i, ok := v.(*VIface); ok {
			v = i.val
		}
		s, ok := v.(*VSlice)
		if !ok {
			return one(st, x.False), true
		}
		return one(st, x.B(s.obj == nil || s.obj.born > x.loopBorn)), true
	case "vcSeen8": // position of a key in the order of iteration over a map
		return one(st, x.mapSeen(st, args[0].(*VMap), args[1].(*Term))), true
	case "vcCalls": // how often Count has been called on a counter
		id := x.ifaceID(args[0])
		return one(st, x.ghostCalls(st, id)), true
	case "vcCall": // the n-th value a counter returns
		id := x.ifaceID(args[0])
		return one(st, x.App("countval", Int, id, args[1].(*Term))), true
	case "vcSkip":
		return nil, true
	}
	return nil, false
}

func litString(v Val) string {
	if s, ok := v.(*VStr); ok {
		if c, ok := s.seq.(*SeqConst); ok {
			return c.s
		}
	}
	return "?"
}

// ghostCalls is the number of Count calls so far on counter id.
func (x *X) ghostCalls(st *State, id *Term) *Term {
	o := x.callsObj()
	seq := x.content(st, o).(Seq)
	return x.seqGet(seq, id).(*Term)
}

func (x *X) callsObj() *Obj {
	if o, ok := x.liftObj["ghost:calls"]; ok {
		return o
	}
	o := x.newObj(types.Typ[types.Int], true, "counter calls")
	o.init = Seq(&SeqBase{"ghost.calls", nil, types.Typ[types.Int]})
	o.visible = false
	x.liftObj["ghost:calls"] = o
	return o
}

// ---- interfaces ----

func (x *X) invoke(fr *Frame, st *State, m *types.Func, recv Val, args []Val, it types.Type) []Outcome {
	switch v := recv.(type) {
	case *VIface:
		if v.typ == nil {
			x.oblige(st, "nil interface method call", x.False)
			return nil
		}
		fn := x.P.ssa.LookupMethod(v.typ, m.Pkg(), m.Name())
		if fn == nil {
			x.unsupported("method " + m.Name() + " of " + v.typ.String())
		}
		x.P.ensureBuilt(fn)
		return x.callFunc(fr, st, fn, nil, append([]Val{v.val}, args...))
	case *VSymIface:
		x.oblige(st, "nil interface method call", x.Ne(v.id, x.I(0)))
		switch m.Name() {
		case "Error", "String":
			return one(st, x.fresh(types.Typ[types.String], "err", false))
		case "Count":
			n := x.ghostCalls(st, v.id)
			val := x.App("countval", Int, v.id, n)
			x.boundedT(val, minInt64, maxInt64)
			o := x.callsObj()
			st.heap[o.id] = x.mkStore(x.content(st, o).(Seq), v.id, x.AddC(n, 1))
			x.trusted["sms.Counter.Count (a user-supplied counter: any sequence of values)"] = true
			return one(st, val)
		}
		var outs []Outcome
		rest := st
		impls := x.P.implementers(it)
		if v.id.isConst() || v.id.op == OIte {
			return x.invokeIte(fr, st, m, v.id, args, it)
		}
		for _, t := range impls {
			ok, val := x.ifaceAs(rest, v.id, t)
			if ok.isFalse() {
				continue
			}
			s2 := rest.clone()
			x.assume(s2, ok)
			x.assume(rest, x.Not(ok))
			s2.dec = append(s2.dec, ok)
			rest.dec = append(rest.dec, x.Not(ok))
			x.cur = s2
			outs = append(outs, x.invoke(fr, s2, m, &VIface{t, val}, args, it)...)
		}
		x.trusted["closed world: "+types.TypeString(it, nil)+" is implemented only by types of the repository"] = true
		return outs
	}
	x.unsupported(fmt.Sprintf("invoke on %T", recv))
	return nil
}

func (x *X) invokeIte(fr *Frame, st *State, m *types.Func, id *Term, args []Val, it types.Type) []Outcome {
	if id.op == OIte {
		c := id.args[0]
		switch x.branch(st, c) {
		case 1:
			return x.invokeIte(fr, st, m, id.args[1], args, it)
		case -1:
			return x.invokeIte(fr, st, m, id.args[2], args, it)
		}
		s2 := st.clone()
		x.assume(st, c)
		x.assume(s2, x.Not(c))
		st.dec = append(st.dec, c)
		s2.dec = append(s2.dec, x.Not(c))
		outs := x.invokeIte(fr, st, m, id.args[1], args, it)
		x.cur = s2
		return append(outs, x.invokeIte(fr, s2, m, id.args[2], args, it)...)
	}
	if v, ok := x.ifaceVals[id.id]; ok {
		return x.invoke(fr, st, m, v, args, it)
	}
	if id.isConst() {
		x.oblige(st, "nil interface method call", x.False)
		return nil
	}
	return x.invoke(fr, st, m, &VSymIface{id}, args, it)
}

// ---- globals ----

func (x *X) global(g *ssa.Global) *Obj {
	if o, ok := x.globals[g]; ok {
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	if x.P.isRepo(g.Pkg) {
		x.initPkg(g.Pkg)
		if o, ok := x.globals[g]; ok {
			return o
		}
		return x.newGlobal(g, t, true)
	}
	o := x.newGlobal(g, t, false)
	start := x.nobj
	v := x.freshN(t, "g:"+clean(g.String()), true)
	for _, ob := range x.objs[start:] {
		ob.visible = true
		ob.ro = true
	}
	if s, ok := v.(*VSymIface); ok {
		x.addGlobalFact(x.Ne(s.id, x.I(0)))
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			x.foreign(s.id)
			x.trusted["error values of the standard library are of its own types"] = true
		}
	}
	o.init = v
	return o
}

func (x *X) newGlobal(g *ssa.Global, t types.Type, zero bool) *Obj {
	var o *Obj
	if a, ok := under(t).(*types.Array); ok {
		o = x.newObj(a.Elem(), true, g.Name())
		o.n = a.Len()
		if zero {
			o.init = Seq(&SeqZero{a.Elem()})
		}
	} else {
		o = x.newObj(t, false, g.Name())
		if zero {
			o.init = x.zero(t)
		}
	}
	o.visible = true
	o.global = g.String()
	x.globals[g] = o
	return o
}

// initPkg runs a repository package's initialiser concretely.
func (x *X) initPkg(pk *ssa.Package) {
	if x.inited[pk] || !x.P.isRepo(pk) {
		return
	}
	x.inited[pk] = true
	fn := pk.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	savedSpec := x.spec
	x.spec = 0
	x.dry++
	x.conc++
	saved, savedPos, savedDepth := x.cur, x.pos, x.depth
	x.depth = 0
	st := newState()
	outs := x.callFn(fn, nil, nil, st)
	if len(outs) != 1 {
		x.unsupported("package initialiser of " + pk.Pkg.Path() + " is not straight-line")
	}
	st = outs[0].st
	cold := map[int]bool{}
	for _, m := range pk.Members {
		if g, ok := m.(*ssa.Global); ok {
			o, has := x.globals[g]
			if !has {
				o = x.newGlobal(g, g.Type().(*types.Pointer).Elem(), true)
			}
			_, written := st.heap[o.id]
			cold[o.id] = !written
		}
	}
	if w := pk.Func("warm_" + pk.Pkg.Name()); w != nil && x.warm {
		o2 := x.callFn(w, nil, nil, st)
		if len(o2) != 1 {
			x.unsupported("warm-up is not straight-line")
		}
		st = o2[0].st
	}
	for id, c := range st.heap {
		x.base[id] = c
		x.objs[id-1].visible = true
	}
	for _, m := range pk.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, has := x.globals[g]; !has {
				x.newGlobal(g, g.Type().(*types.Pointer).Elem(), true)
			}
			// in a package with a warm_ function, variables that are initially zero are caches
			if o := x.globals[g]; pk.Func("warm_"+pk.Pkg.Name()) != nil && !token.IsExported(g.Name()) && cold[o.id] {
				o.cache = true
			}
		}
	}
	x.spec = savedSpec
	x.dry--
	x.conc--
	x.cur, x.pos, x.depth = saved, savedPos, savedDepth
	// only what reads the package's memory depends on whether it is warm
	if pk.Func("warm_"+pk.Pkg.Name()) != nil {
		for id := range st.heap {
			x.objs[id-1].warmable = true
		}
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				x.globals[g].warmable = true
			}
		}
	}
}

// checkDropped refuses a function part of whose contract no longer type-checks.
func (x *X) checkDropped(fn *ssa.Function) {
	if len(x.P.dropped) == 0 || fn.Pkg == nil {
		return
	}
	if n, ok := x.P.dropped[fn.Pkg.Pkg.Path()+":"+fnKey(fn)]; ok {
		x.unsupported("contract clause " + n + " does not type-check against the current code")
	}
}

// inlineHere: the harness being verified asks (inl_<harness>__<Key>) for the body, not the contract.
func (x *X) inlineHere(fn *ssa.Function) bool {
	if x.entryFn == nil {
		return false
	}
	_, ok := x.P.specFns["inl:"+x.entryFn.Name()+"__"+fnKey(fn)]
	return ok
}

// weaker is what the harness being verified asks (wkn_<harness>__<Key>) to know of the result of fn.
func (x *X) weaker(fn *ssa.Function) *ssa.Function {
	if x.entryFn == nil {
		return nil
	}
	return x.P.specFns["wkn:"+x.entryFn.Name()+"__"+fnKey(fn)]
}
