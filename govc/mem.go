package main

// Memory: pointers, slices, maps, iterators, frames.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type modItem struct {
	obj    *Obj
	path   []PE
	lo, hi *Term // slice range (nil for pointers)
	root   types.Type
	symID  *Term
}

func (x *X) alloc(st *State, t types.Type, name string) *Obj {
	if a, ok := under(t).(*types.Array); ok {
		o := x.newObj(a.Elem(), true, name)
		o.born = o.id
		o.n = a.Len()
		st.heap[o.id] = Seq(&SeqZero{a.Elem()})
		return o
	}
	o := x.newObj(t, false, name)
	st.heap[o.id] = x.zero(t)
	return o
}

func (x *X) readable(st *State, o *Obj) {
	if st.poison[o.id] && x.dry == 0 {
		x.unsupported("read of memory that may be aliased by append: " + o.name)
	}
}

func (x *X) load(st *State, p Val) Val {
	switch p := p.(type) {
	case *VPtr:
		if p.obj == nil {
			x.oblige(st, "nil dereference", x.False)
			return x.zero(p.elem)
		}
		x.readable(st, p.obj)
		c := x.content(st, p.obj)
		path := p.path
		var v Val
		if p.obj.arr {
			seq := c.(Seq)
			if len(path) == 0 {
				r := &VArr{elem: p.obj.typ}
				for i := int64(0); i < p.obj.n; i++ {
					r.e = append(r.e, x.seqGet(seq, x.I(i)))
				}
				return r
			}
			v = x.seqGet(seq, path[0].idx)
			path = path[1:]
		} else {
			var ok bool
			v, ok = c.(Val)
			if !ok {
				x.unsupported("load of map cell")
			}
		}
		return x.getPath(v, path)
	case *VSymPtr:
		return x.loadSym(st, p)
	}
	x.unsupported(fmt.Sprintf("load through %T", p))
	return nil
}

func (x *X) loadSym(st *State, p *VSymPtr) Val {
	x.oblige(st, "nil dereference", x.Ne(p.id, x.I(0)))
	return x.getPath(x.symContent(st, p.id, p.root), p.path)
}

func (x *X) symContent(st *State, id *Term, root types.Type) Val {
	if id.op == OIte {
		a, b := id.args[1], id.args[2]
		az, bz := a.isConst() && a.ival.Sign() == 0, b.isConst() && b.ival.Sign() == 0
		if az {
			return x.symContent(st, b, root)
		}
		if bz {
			return x.symContent(st, a, root)
		}
		return x.merge(id.args[0], x.symContent(st, a, root), x.symContent(st, b, root))
	}
	if id.isConst() {
		off := new(big.Int).Sub(id.ival, new(big.Int).Lsh(bigOne, 57))
		if off.Sign() > 0 && off.IsInt64() {
			if p, ok := x.ptrObj[int(off.Int64())]; ok {
				return x.load(st, p)
			}
		}
		if id.ival.Sign() == 0 {
			return x.zero(root)
		}
	}
	v := x.lift(root, "hp:"+clean(types.TypeString(root, nil)), []*Term{id})
	for _, u := range st.sym {
		if types.Identical(u.root, root) {
			e := x.Eq(id, u.id)
			switch x.quick(st, e) {
			case 1:
				v = u.val
			case -1:
			default:
				v = x.merge(e, u.val, v)
			}
		}
	}
	return v
}

func (x *X) getPath(v Val, path []PE) Val {
	for _, pe := range path {
		switch w := v.(type) {
		case *VStruct:
			v = w.f[pe.field]
		case *VArr:
			v = x.arrGet(w, pe.idx)
		case *VOpaque:
			v = x.opaqueField(w, pe.field)
		default:
			x.unsupported(fmt.Sprintf("path through %T", v))
		}
	}
	return v
}

func (x *X) setPath(v Val, path []PE, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	pe := path[0]
	switch w := v.(type) {
	case *VStruct:
		r := &VStruct{w.typ, append([]Val(nil), w.f...)}
		r.f[pe.field] = x.setPath(w.f[pe.field], path[1:], nv)
		return r
	case *VArr:
		r := &VArr{w.elem, append([]Val(nil), w.e...)}
		if pe.idx.isConst() {
			k := pe.idx.ival.Int64()
			r.e[k] = x.setPath(w.e[k], path[1:], nv)
		} else {
			for k := range w.e {
				r.e[k] = x.merge(x.Eq(pe.idx, x.I(int64(k))), x.setPath(w.e[k], path[1:], nv), w.e[k])
			}
		}
		return r
	}
	x.unsupported(fmt.Sprintf("store path through %T", v))
	return nil
}

func (x *X) opaqueField(v *VOpaque, i int) Val {
	x.unsupported("field of opaque " + v.kind)
	return nil
}

func (x *X) store(st *State, p Val, v Val) {
	switch p := p.(type) {
	case *VPtr:
		if p.obj == nil {
			x.oblige(st, "nil dereference", x.False)
			return
		}
		if p.obj.arr && len(p.path) > 0 {
			x.frame(st, p.obj, p.path, p.path[0].idx, x.AddC(p.path[0].idx, 1))
			x.touch(st, p.obj)
			seq := x.content(st, p.obj).(Seq)
			nv := v
			if len(p.path) > 1 {
				nv = x.setPath(x.seqGet(seq, p.path[0].idx), p.path[1:], v)
			}
			st.heap[p.obj.id] = x.mkStore(seq, p.path[0].idx, nv)
			return
		}
		x.frame(st, p.obj, p.path, nil, nil)
		if p.obj.arr {
			arr := v.(*VArr)
			seq := x.content(st, p.obj).(Seq)
			for i, e := range arr.e {
				seq = x.mkStore(seq, x.I(int64(i)), e)
			}
			st.heap[p.obj.id] = seq
			return
		}
		if len(p.path) == 0 {
			st.heap[p.obj.id] = v
			return
		}
		st.heap[p.obj.id] = x.setPath(x.content(st, p.obj).(Val), p.path, v)
		return
	case *VSymPtr:
		x.oblige(st, "nil dereference", x.Ne(p.id, x.I(0)))
		x.storeSym(st, p, v)
		return
	}
	x.unsupported(fmt.Sprintf("store through %T", p))
}

func (x *X) storeSym(st *State, p *VSymPtr, v Val) {
	if p.id.isConst() {
		off := new(big.Int).Sub(p.id.ival, new(big.Int).Lsh(bigOne, 57))
		if off.Sign() > 0 && off.IsInt64() {
			if q, ok := x.ptrObj[int(off.Int64())]; ok {
				x.store(st, &VPtr{q.obj, append(append([]PE{}, q.path...), p.path...), p.elem}, v)
				return
			}
		}
	}
	if p.id.op == OIte {
		// resolve by the path condition
		switch x.decide(st, p.id.args[0]) {
		case 1:
			q := *p
			q.id = p.id.args[1]
			x.storeSym(st, &q, v)
			return
		case -1:
			q := *p
			q.id = p.id.args[2]
			x.storeSym(st, &q, v)
			return
		}
		x.unsupported("store through conditional pointer")
	}
	if x.spec == 0 && x.dry == 0 {
		ok := x.False
		for _, m := range x.mods {
			if m.root != nil && types.Identical(m.root, p.root) {
				if m.symID == nil {
					ok = x.True
				} else {
					ok = x.Or(ok, x.Eq(m.symID, p.id))
				}
			}
		}
		x.oblige(st, "frame: write through pointer", ok)
	}
	nv := x.setPath(x.symContent(st, p.id, p.root), p.path, v)
	st.sym = append(st.sym[:len(st.sym):len(st.sym)], symUpd{p.root, p.id, nv})
}

// frame emits the obligation that a write to caller-visible memory is permitted.
func (x *X) frame(st *State, o *Obj, path []PE, lo, hi *Term) {
	if !o.visible && !o.ro || x.spec > 0 || x.dry > 0 || o.cache {
		return
	}
	ok := x.False
	for _, m := range x.mods {
		if m.obj != o {
			continue
		}
		if m.lo != nil {
			if lo != nil {
				ok = x.Or(ok, x.And(x.Le(m.lo, lo), x.Le(hi, m.hi)))
			}
			continue
		}
		if len(m.path) > len(path) {
			continue
		}
		same := true
		for i := range m.path {
			if m.path[i].idx != nil || path[i].idx != nil {
				if m.path[i].idx != path[i].idx {
					same = false
				}
			} else if m.path[i].field != path[i].field {
				same = false
			}
		}
		if same {
			ok = x.True
		}
	}
	if lo != nil && !ok.isTrue() {
		ok = x.Or(ok, x.Le(hi, lo))
	}
	kind := "frame: only permitted memory is written"
	if o.global != "" {
		kind += " (global " + o.global + ")"
	}
	x.oblige(st, kind, ok)
}

// touch: an element write invalidates what append may have shared.
func (x *X) touch(st *State, o *Obj) {
	x.storeTo(o)
	x.poisonKids(st, o.id)
	for p, ks := range st.deriv {
		for _, k := range ks {
			if k == o.id && !st.poison[p] {
				st.poison[p] = true
			}
		}
	}
}

// storeTo notes that the array of a loop variable is written to; see shareLoopVars.
func (x *X) storeTo(o *Obj) {
	if !o.loopVar {
		return
	}
	o.stored = true
	if o.noStore {
		x.unsupported("two loop variables share a backing array that is written to")
	}
}

// shareLoopVars: at the end of an iteration two loop variables have the same array, which the
// next iteration takes to be two.  That makes no difference as long as neither is written to,
// and with no spare capacity appending does not.
func (x *X) shareLoopVars(st *State, a, b *Obj, va, vb *VSlice) {
	x.oblige(st, "slices that share an array have no spare capacity", x.And(x.Eq(va.len, va.cap), x.Eq(vb.len, vb.cap)))
	for _, o := range []*Obj{a, b} {
		o.noStore = true
		if o.stored {
			x.storeTo(o)
		}
	}
}

func (x *X) poisonKids(st *State, id int) {
	for _, k := range st.deriv[id] {
		if !st.poison[k] {
			st.poison[k] = true
			x.poisonKids(st, k)
		}
	}
}

func (x *X) fieldAddr(st *State, p Val, f int, t types.Type) Val {
	switch p := p.(type) {
	case *VPtr:
		if p.obj == nil {
			x.oblige(st, "nil dereference", x.False)
			return &VPtr{x.alloc(st, t, "nilfield"), nil, t}
		}
		return &VPtr{p.obj, append(append([]PE{}, p.path...), PE{field: f}), t}
	case *VSymPtr:
		x.oblige(st, "nil dereference", x.Ne(p.id, x.I(0)))
		return &VSymPtr{id: p.id, root: p.root, path: append(append([]PE{}, p.path...), PE{field: f}), elem: t}
	}
	x.unsupported(fmt.Sprintf("field of %T", p))
	return nil
}

func (x *X) indexAddr(st *State, s, i Val, in *ssa.IndexAddr) Val {
	idx := x.toInt(i.(*Term), in.Index.Type())
	t := in.Type().(*types.Pointer).Elem()
	switch s := s.(type) {
	case *VSlice:
		x.oblige(st, "index in range", x.And(x.Le(x.I(0), idx), x.Lt(idx, s.len)))
		if s.obj == nil {
			if x.spec == 0 && x.dry == 0 {
				return &VPtr{x.alloc(st, t, "dead"), nil, t}
			}
			return &VPtr{x.alloc(st, t, "dead"), nil, t}
		}
		return &VPtr{s.obj, []PE{{idx: x.Add(s.off, idx)}}, t}
	case *VPtr:
		at := under(in.X.Type().(*types.Pointer).Elem()).(*types.Array)
		x.oblige(st, "index in range", x.And(x.Le(x.I(0), idx), x.Lt(idx, x.I(at.Len()))))
		return &VPtr{s.obj, append(append([]PE{}, s.path...), PE{idx: idx}), t}
	}
	x.unsupported(fmt.Sprintf("index of %T", s))
	return nil
}

func (x *X) slice(fr *Frame, st *State, in *ssa.Slice) Val {
	v := x.get(fr, in.X)
	opt := func(o ssa.Value) *Term {
		if o == nil {
			return nil
		}
		return x.toInt(x.get(fr, o).(*Term), o.Type())
	}
	lo, hi, max := opt(in.Low), opt(in.High), opt(in.Max)
	if lo == nil {
		lo = x.I(0)
	}
	switch s := v.(type) {
	case *VStr:
		if hi == nil {
			hi = s.len
		}
		x.oblige(st, "slice bounds in range", x.And(x.Le(x.I(0), lo), x.Le(lo, hi), x.Le(hi, s.len)))
		return &VStr{seq: s.seq, off: x.Add(s.off, lo), len: x.Sub(hi, lo)}
	case *VSlice:
		if hi == nil {
			hi = s.len
		} else if s.obj != nil && s.obj.indiff && x.spec == 0 && x.dry == 0 {
			if !x.decideTrue(st, x.Le(hi, s.len)) {
				x.unsupported("reslice beyond length after append")
			}
		}
		c := s.cap
		if max != nil {
			c = max
			x.oblige(st, "slice bounds in range", x.And(x.Le(x.I(0), lo), x.Le(lo, hi), x.Le(hi, max), x.Le(max, s.cap)))
		} else {
			x.oblige(st, "slice bounds in range", x.And(x.Le(x.I(0), lo), x.Le(lo, hi), x.Le(hi, s.cap)))
		}
		return &VSlice{s.obj, x.Add(s.off, lo), x.Sub(hi, lo), x.Sub(c, lo), s.isnil, s.elem}
	case *VPtr:
		at := under(in.X.Type().(*types.Pointer).Elem()).(*types.Array)
		n := x.I(at.Len())
		if len(s.path) != 0 || s.obj == nil {
			x.unsupported("slice of interior array")
		}
		if hi == nil {
			hi = n
		}
		if max == nil {
			max = n
		}
		x.oblige(st, "slice bounds in range", x.And(x.Le(x.I(0), lo), x.Le(lo, hi), x.Le(hi, max), x.Le(max, n)))
		return &VSlice{s.obj, lo, x.Sub(hi, lo), x.Sub(max, lo), x.False, at.Elem()}
	}
	x.unsupported(fmt.Sprintf("slice of %T", v))
	return nil
}

// appendSlice implements append(s, src[off:off+n]...).
func (x *X) appendSlice(st *State, s *VSlice, src Seq, off, n *Term, srcNilLen bool) []Outcome {
	if n.isConst() && n.ival.Sign() == 0 {
		return []Outcome{{st, s}}
	}
	total := x.Add(s.len, n)
	if s.obj != nil {
		x.readable(st, s.obj)
	}
	base := x.sliceSeq(st, s)
	fits := x.Le(total, s.cap)
	fresh := func(st *State, indiff bool) Val {
		o := x.newObj(s.elem, true, "append")
		o.born = o.id
		o.indiff = indiff
		var seq Seq
		if s.off.isConst() && s.off.ival.Sign() == 0 {
			seq = base
			if s.len.isConst() && s.len.ival.Sign() == 0 {
				seq = &SeqZero{s.elem}
			}
		} else {
			seq = x.mkCopy(&SeqZero{s.elem}, x.I(0), s.len, base, s.off)
		}
		if n.isConst() && n.ival.Cmp(big.NewInt(8)) <= 0 {
			for i := int64(0); i < n.ival.Int64(); i++ {
				seq = x.mkStore(seq, x.AddC(s.len, i), x.seqGet(src, x.AddC(off, i)))
			}
		} else {
			seq = x.mkCopy(seq, s.len, n, src, off)
		}
		st.heap[o.id] = seq
		xc := x.FreshInt("xcap", bigZero, maxLen)
		isnil := x.False
		if !n.isConst() {
			isnil = x.And(s.isnil, x.Eq(n, x.I(0)))
		}
		return &VSlice{o, x.I(0), total, x.Add(total, xc), isnil, s.elem}
	}
	inplace := func(st *State) Val {
		dst := x.Add(s.off, s.len)
		x.frame(st, s.obj, []PE{{idx: dst}}, dst, x.Add(dst, n))
		x.touch(st, s.obj)
		st.heap[s.obj.id] = x.mkCopy(x.content(st, s.obj).(Seq), dst, n, src, off)
		return &VSlice{s.obj, s.off, total, s.cap, s.isnil, s.elem}
	}
	if x.spec > 0 {
		o := fresh(st, true)
		return []Outcome{{st, o}}
	}
	if s.obj == nil || s.cap.isConst() && s.cap.ival.Sign() == 0 {
		if s.obj == nil {
			return []Outcome{{st, fresh(st, true)}}
		}
		// capacity zero: reallocates unless nothing is added
		return []Outcome{{st, fresh(st, true)}}
	}
	if !s.obj.visible && !s.obj.ro {
		// local memory: whether it was extended in place does not matter unless the old slice is used again
		x.poisonKids(st, s.obj.id)
		if s.obj.loopVar && (s.len != s.obj.slotLen || s.cap != s.obj.slotCap) {
			x.storeTo(s.obj) // might be written beyond the length of this slice
		}
		r := fresh(st, true).(*VSlice)
		if x.quick(st, fits) != -1 {
			st.deriv[s.obj.id] = append(st.deriv[s.obj.id][:len(st.deriv[s.obj.id]):len(st.deriv[s.obj.id])], r.obj.id)
		}
		return []Outcome{{st, r}}
	}
	switch x.decide(st, fits) {
	case 1:
		return []Outcome{{st, inplace(st)}}
	case -1:
		return []Outcome{{st, fresh(st, true)}}
	}
	if x.dry > 0 {
		return []Outcome{{st, fresh(st, true)}}
	}
	st2 := st.clone()
	x.assume(st, fits)
	x.cur = st
	v1 := inplace(st)
	x.assume(st2, x.Not(fits))
	x.cur = st2
	v2 := fresh(st2, true)
	return []Outcome{{st, v1}, {st2, v2}}
}

func (x *X) builtin(fr *Frame, st *State, call *ssa.CallCommon, b *ssa.Builtin, args []Val) []Outcome {
	one := func(v Val) []Outcome { return []Outcome{{st, v}} }
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *VSlice:
			return one(v.len)
		case *VStr:
			return one(v.len)
		case *VMap:
			return one(x.mapLen(st, v))
		case *VArr:
			return one(x.I(int64(len(v.e))))
		case *VPtr:
			return one(x.I(under(v.elem).(*types.Array).Len()))
		}
	case "cap":
		switch v := args[0].(type) {
		case *VSlice:
			return one(v.cap)
		case *VPtr:
			return one(x.I(under(v.elem).(*types.Array).Len()))
		}
	case "append":
		s := args[0].(*VSlice)
		switch v := args[1].(type) {
		case *VSlice:
			if v.obj != nil {
				x.readable(st, v.obj)
			}
			return x.appendSlice(st, s, x.sliceSeq(st, v), v.off, v.len, false)
		case *VStr:
			return x.appendSlice(st, s, v.seq, v.off, v.len, false)
		}
	case "copy":
		d := args[0].(*VSlice)
		var src Seq
		var off, n *Term
		switch v := args[1].(type) {
		case *VSlice:
			src, off, n = x.sliceSeq(st, v), v.off, v.len
		case *VStr:
			src, off, n = v.seq, v.off, v.len
		}
		m := x.Ite(x.Le(n, d.len), n, d.len)
		if d.obj != nil {
			x.frame(st, d.obj, []PE{{idx: d.off}}, d.off, x.Add(d.off, m))
			x.touch(st, d.obj)
			st.heap[d.obj.id] = x.mkCopy(x.content(st, d.obj).(Seq), d.off, m, src, off)
		}
		return one(m)
	case "delete":
		x.mapDelete(st, args[0].(*VMap), args[1])
		return one(&VTuple{})
	case "print", "println", "ssa:wrapnilchk":
		if b.Name() == "ssa:wrapnilchk" {
			return one(args[0])
		}
		return one(&VTuple{})
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if b.Name() == "min" {
				r = x.Ite(x.Le(r, t), r, t)
			} else {
				r = x.Ite(x.Le(t, r), r, t)
			}
		}
		return one(r)
	}
	x.unsupported("builtin " + b.Name())
	return nil
}

// ---- maps ----

func (x *X) mapContent(st *State, m *VMap) *MapC {
	if m.obj == nil {
		return &MapC{k: m.typ.Key(), v: m.typ.Elem(), pos: map[string]int{}}
	}
	return x.content(st, m.obj).(*MapC)
}

func (x *X) mapNil(st *State, m *VMap) *Term {
	if m.obj == nil {
		return x.True
	}
	c := x.mapContent(st, m)
	if c.base != "" && m.obj.init != nil {
		// symbolic maps may be nil
		b := c.baseArr(x, ".isnil", Bool)
		return b
	}
	return x.False
}

func (c *MapC) baseArr(x *X, suffix string, s *Sort) *Term {
	as := s
	for i := len(c.idx) - 1; i >= 0; i-- {
		as = x.Arr(c.idx[i].sort, as)
	}
	r := x.Var(c.base+suffix, as)
	for _, i := range c.idx {
		r = x.Select(r, i)
	}
	return r
}

func constKey(k Val) (string, bool) {
	switch k := k.(type) {
	case *Term:
		if k.isConst() {
			return k.sort.str + k.ival.String(), true
		}
	case *VStr:
		if c, ok := k.seq.(*SeqConst); ok && k.off.isConst() && k.len.isConst() {
			o, l := k.off.ival.Int64(), k.len.ival.Int64()
			return "s" + c.s[o:o+l], true
		}
	}
	return "", false
}

// keyTerm is the identity of a key in symbolic maps.
func (x *X) keyTerm(st *State, k Val) *Term {
	switch k := k.(type) {
	case *Term:
		return k
	case *VStr:
		return x.strID(st, k)
	}
	x.unsupported(fmt.Sprintf("symbolic map key %T", k))
	return nil
}

func (x *X) mapGet(st *State, m *VMap, k Val) (Val, *Term) {
	c := x.mapContent(st, m)
	zero := x.zero(c.v)
	if c.base == "" && len(c.keys) == 0 && len(c.upd) == 0 {
		return zero, x.False
	}
	var v Val = zero
	ok := x.False
	if c.base != "" {
		kt := x.keyTerm(st, k)
		idx := append(append([]*Term{}, c.idx...), kt)
		ok = x.lift(types.Typ[types.Bool], c.base+".dom", idx).(*Term)
		v = x.lift(c.v, c.base+".val", idx)
		if x.scalarSort(c.v) != nil {
			v = x.merge(ok, v, zero)
		} else {
			switch x.quick(st, ok) {
			case 1:
			case -1:
				v = zero
			default:
				if _, isIface := v.(*VSymPtr); isIface {
					v = x.merge(ok, v, zero)
				}
			}
		}
	} else if ck, isC := constKey(k); isC {
		if p, has := c.pos[ck]; has {
			v, ok = c.vals[p], x.True
		}
	} else if t, isT := k.(*Term); isT {
		v, ok = x.concreteLookup(st, c, t, zero)
	} else {
		for i := len(c.keys) - 1; i >= 0; i-- {
			e := x.valEq(st, k, c.keys[i], c.k)
			v = x.merge(e, c.vals[i], v)
			ok = x.Or(e, ok)
		}
	}
	for _, u := range c.upd {
		e := x.keyEq(st, k, u.k, c.k)
		switch x.quick(st, e) {
		case -1:
			continue
		}
		if u.del {
			v = x.merge(e, zero, v)
			ok = x.And(x.Not(e), ok)
		} else {
			v = x.merge(e, u.v, v)
			ok = x.Or(e, ok)
		}
	}
	return v, ok
}

func (x *X) keyEq(st *State, a, b Val, t types.Type) *Term {
	if sa, ok := a.(*VStr); ok {
		return x.Eq(x.strID(st, sa), x.strID(st, b.(*VStr)))
	}
	return x.valEq(st, a, b, t)
}

// concreteLookup builds a balanced decision over constant keys.
func (x *X) concreteLookup(st *State, c *MapC, k *Term, zero Val) (Val, *Term) {
	v := zero
	ok := x.False
	for i := len(c.keys) - 1; i >= 0; i-- {
		e := x.Eq(k, c.keys[i].(*Term))
		if e.isFalse() || x.knownFalse(e) || x.quick(st, e) == -1 {
			continue
		}
		v = x.merge(e, c.vals[i], v)
		ok = x.Or(e, ok)
	}
	return v, ok
}

func (x *X) mapUpdate(st *State, m *VMap, k, v Val) {
	x.oblige(st, "assignment to entry in nil map", x.Not(x.mapNil(st, m)))
	if m.obj == nil {
		return
	}
	x.frame(st, m.obj, nil, nil, nil)
	c := x.mapContent(st, m)
	n := *c
	n.id = 0
	if ck, isC := constKey(k); isC && c.concrete() {
		// copy-on-write of concrete maps is quadratic; share and append
		if p, has := c.pos[ck]; has {
			n.vals = append([]Val(nil), c.vals...)
			n.vals[p] = v
		} else {
			n.keys = append(c.keys[:len(c.keys):len(c.keys)], k)
			n.vals = append(c.vals[:len(c.vals):len(c.vals)], v)
			n.pos = make(map[string]int, len(c.pos)+1)
			for a, b := range c.pos {
				n.pos[a] = b
			}
			n.pos[ck] = len(c.keys)
		}
	} else {
		n.upd = append(c.upd[:len(c.upd):len(c.upd)], mapUpd{k: k, v: v})
	}
	st.heap[m.obj.id] = &n
}

func (x *X) mapDelete(st *State, m *VMap, k Val) {
	if m.obj == nil {
		return
	}
	x.frame(st, m.obj, nil, nil, nil)
	c := x.mapContent(st, m)
	n := *c
	n.id = 0
	n.upd = append(c.upd[:len(c.upd):len(c.upd)], mapUpd{k: k, del: true})
	st.heap[m.obj.id] = &n
}

func (x *X) mapLen(st *State, m *VMap) *Term {
	if m.obj == nil {
		return x.I(0)
	}
	c := x.mapContent(st, m)
	if c.concrete() {
		return x.I(int64(len(c.keys)))
	}
	if c.base != "" && len(c.upd) == 0 {
		return x.boundedT(c.baseArr(x, ".len", Int), bigZero, maxLen)
	}
	return x.boundedT(x.Var("maplen:"+contentKey(x, c), Int), bigZero, maxLen)
}

// ---- iterators ----

func (x *X) rangeIter(st *State, v Val) Val {
	switch v := v.(type) {
	case *VStr:
		o := x.newObj(nil, false, "striter")
		tx := x.text(st, v.seq, v.off, v.len)
		st.heap[o.id] = &VTuple{[]Val{x.I(0), v}}
		_ = tx
		return &VIter{o}
	case *VMap:
		o := x.newObj(nil, false, "mapiter")
		c := x.mapContent(st, v)
		x.mapSnap[o.id] = c
		st.heap[o.id] = &VTuple{[]Val{x.I(0), v, &VTuple{}}}
		if c.concrete() {
			x.mapOrder(st, o, c.sorted())
		} else if x.scalarSort(v.typ.Key()) == nil {
			x.unsupported("iteration over a symbolic map")
		}
		return &VIter{o}
	}
	x.unsupported(fmt.Sprintf("range over %T", v))
	return nil
}

func (c *MapC) sorted() []int {
	idx := make([]int, len(c.keys))
	for i := range idx {
		idx[i] = i
	}
	less := func(a, b int) bool {
		ta, oka := c.keys[a].(*Term)
		tb, okb := c.keys[b].(*Term)
		if oka && okb {
			return ta.ival.Cmp(tb.ival) < 0
		}
		ka, _ := constKey(c.keys[a])
		kb, _ := constKey(c.keys[b])
		return ka < kb
	}
	for i := 1; i < len(idx); i++ {
		for j := i; j > 0 && less(idx[j], idx[j-1]); j-- {
			idx[j], idx[j-1] = idx[j-1], idx[j]
		}
	}
	return idx
}

func (x *X) mapOrder(st *State, o *Obj, order []int) {
	t := st.heap[o.id].(*VTuple)
	m := x.mapContent(st, t.v[1].(*VMap))
	tu := &VTuple{}
	for _, i := range order {
		tu.v = append(tu.v, m.keys[i])
	}
	if opt.revMaps {
		for i, j := 0, len(tu.v)-1; i < j; i, j = i+1, j-1 {
			tu.v[i], tu.v[j] = tu.v[j], tu.v[i]
		}
	}
	st.heap[o.id] = &VTuple{[]Val{t.v[0], t.v[1], tu}}
}

func (x *X) next(st *State, it *VIter) Val {
	t := x.content(st, it.obj).(*VTuple)
	k := t.v[0].(*Term)
	switch s := t.v[1].(type) {
	case *VStr:
		tx := x.text(st, s.seq, s.off, s.len)
		ok := x.Lt(k, tx.n)
		st.heap[it.obj.id] = &VTuple{[]Val{x.AddC(k, 1), t.v[1]}}
		return &VTuple{[]Val{ok, x.runePos(tx, k), x.runeAt(tx, k)}}
	case *VMap:
		keys := t.v[2].(*VTuple).v
		mc := x.mapContent(st, s)
		if !k.isConst() || !mc.concrete() && len(keys) == 0 {
			// arbitrary order
			if contentKey(x, mc) != contentKey(x, x.mapSnap[it.obj.id]) {
				x.unsupported("map is modified while it is iterated over")
			}
			ok := x.Lt(k, x.mapLen(st, s))
			kt := x.mapKeyAt(st, s, k)
			v, _ := x.mapGet(st, s, kt)
			st.heap[it.obj.id] = &VTuple{[]Val{x.AddC(k, 1), t.v[1], t.v[2]}}
			return &VTuple{[]Val{ok, kt, v}}
		}
		i := int(k.ival.Int64())
		for i < len(keys) {
			// deleted during iteration?
			ck, _ := constKey(keys[i])
			if p, has := mc.pos[ck]; has {
				st.heap[it.obj.id] = &VTuple{[]Val{x.I(int64(i + 1)), t.v[1], t.v[2]}}
				return &VTuple{[]Val{x.True, keys[i], mc.vals[p]}}
			}
			i++
		}
		st.heap[it.obj.id] = &VTuple{[]Val{x.I(int64(i)), t.v[1], t.v[2]}}
		return &VTuple{[]Val{x.False, x.zero(s.typ.Key()), x.zero(s.typ.Elem())}}
	}
	x.unsupported("next")
	return nil
}

// mapKeyAt is the k-th key of an iteration over a map: an arbitrary enumeration of its keys.
// Its inverse, mapSeen, is the position of a key in that enumeration.
func (x *X) mapKeyAt(st *State, m *VMap, k *Term) *Term {
	x.mapEnum(st, m)
	return x.App("mk:"+contentKey(x, x.mapContent(st, m)), x.scalarSort(m.typ.Key()), k)
}

func (x *X) mapSeen(st *State, m *VMap, key *Term) *Term {
	x.mapEnum(st, m)
	return x.App("ms:"+contentKey(x, x.mapContent(st, m)), Int, key)
}

func (x *X) mapEnum(st *State, m *VMap) {
	c := x.mapContent(st, m)
	id := contentKey(x, c)
	mk, ms := "mk:"+id, "ms:"+id
	if _, ok := x.unfold[mk]; ok {
		return
	}
	n := x.mapLen(st, m)
	ks := x.scalarSort(m.typ.Key())
	fm := x.freeze(st, m).(*VMap)
	dom := func(key *Term) *Term {
		_, ok := x.mapGet(newState(), fm, key)
		return ok
	}
	x.unfold[mk] = func(as []*Term, app *Term) []*Term {
		in := x.And(x.Le(x.I(0), as[0]), x.Lt(as[0], n))
		return []*Term{x.Implies(in, x.And(dom(app), x.Eq(x.App(ms, Int, app), as[0])))}
	}
	x.unfold[ms] = func(as []*Term, app *Term) []*Term {
		return []*Term{x.Implies(dom(as[0]), x.And(x.Le(x.I(0), app), x.Lt(app, n), x.Eq(x.App(mk, ks, app), as[0])))}
	}
}
