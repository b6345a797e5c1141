package main

// Symbolic values, heap objects and sequences.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type VStruct struct {
	typ types.Type
	f   []Val
}
type VArr struct {
	elem types.Type
	e    []Val
}
type VSlice struct {
	obj                  *Obj
	off, len, cap, isnil *Term
	elem                 types.Type
}
type VStr struct {
	seq      Seq
	off, len *Term
	tag      *Term // identity for opaque strings (Sprintf, map keys), or nil
}
type PE struct {
	field int
	idx   *Term // non-nil: array index
}
type VPtr struct {
	obj  *Obj // nil: nil pointer
	path []PE
	elem types.Type
}
type VSymPtr struct {
	id   *Term
	root types.Type // type of the object id names
	path []PE
	elem types.Type
}
type VIface struct {
	typ types.Type // nil: nil interface
	val Val
}
type VSymIface struct {
	id *Term
}
type VMap struct {
	obj *Obj
	typ *types.Map
}
type VFunc struct {
	fn   *ssa.Function
	free []Val
	bi   *ssa.Builtin
}
type VTuple struct{ v []Val }
type VIter struct{ obj *Obj }
type VOpaque struct {
	kind string
	t    *Term
	v    []Val
}

// Obj is a heap object.
type Obj struct {
	id       int
	typ      types.Type // element type (arrays) or cell type
	arr      bool
	init     interface{} // content when the state has none
	visible  bool        // reachable by the caller of the function being verified
	ro       bool        // writes unsupported (aliasing unknown)
	global   string
	name     string
	n        int64 // fixed length of Go arrays
	cache    bool  // a package variable that only remembers computed tables
	warmable bool  // memory of a package whose cached tables may or may not have been computed
	born     int   // when this run allocated it (0: not known to have)
	indiff   bool  // content beyond len unspecified (indifferent append)

	// backing array of a loop variable: written to; shared with another one, so writing is unsupported
	loopVar, stored, noStore bool
	slotLen, slotCap         *Term
}

// ---- sequences ----

type Seq interface {
	Get(x *X, i *Term) Val
	Key() string
}

type SeqBase struct {
	prefix string
	idx    []*Term
	elem   types.Type
}
type SeqZero struct{ elem types.Type }
type SeqConst struct { // string constants / concrete bytes
	s string
}
type SeqStore struct {
	prev Seq
	idx  *Term
	val  Val
	key  string
}
type SeqCopy struct {
	prev   Seq
	dst, n *Term
	src    Seq
	soff   *Term
	key    string
}
type SeqIte struct {
	c    *Term
	a, b Seq
	aOff *Term // index adjustment
	bOff *Term
	key  string
}
type SeqRune struct { // UTF-8 encoding of a rune
	r *Term
}
type SeqRunes struct { // UTF-8 encoding of a rune slice
	src      Seq
	off, len *Term
	key      string
}
type SeqOf struct { // runes of a string
	text string
	key  string
}
type SeqFn struct {
	f   func(x *X, i *Term) Val
	key string
}

func (s *SeqBase) Key() string {
	var b strings.Builder
	b.WriteString("B" + s.prefix)
	for _, i := range s.idx {
		fmt.Fprintf(&b, ",%d", i.id)
	}
	return b.String()
}
func (s *SeqZero) Key() string  { return "Z" + s.elem.String() + ";" }
func (s *SeqConst) Key() string { return fmt.Sprintf("C%q", s.s) }
func (s *SeqStore) Key() string { return s.key }
func (s *SeqCopy) Key() string  { return s.key }
func (s *SeqIte) Key() string   { return s.key }
func (s *SeqRune) Key() string  { return fmt.Sprintf("R%d", s.r.id) }
func (s *SeqRunes) Key() string { return s.key }
func (s *SeqOf) Key() string    { return s.key }
func (s *SeqFn) Key() string    { return s.key }

var seqKeyIntern = map[string]string{}

func (x *X) skey(s string) string {
	if k, ok := x.seqKeys[s]; ok {
		return k
	}
	k := fmt.Sprintf("q%d", len(x.seqKeys))
	x.seqKeys[s] = k
	return k
}

func (x *X) mkStore(prev Seq, idx *Term, v Val) Seq {
	if p, ok := prev.(*SeqStore); ok && p.idx == idx {
		prev = p.prev
	}
	return &SeqStore{prev, idx, v, x.skey(fmt.Sprintf("S%s,%d,%s", prev.Key(), idx.id, x.vkey(v)))}
}
func (x *X) mkCopy(prev Seq, dst, n *Term, src Seq, soff *Term) Seq {
	if n.isConst() && n.ival.Sign() == 0 {
		return prev
	}
	return &SeqCopy{prev, dst, n, src, soff, x.skey(fmt.Sprintf("Y%s,%d,%d,%s,%d", prev.Key(), dst.id, n.id, src.Key(), soff.id))}
}
func (x *X) mkIteSeq(c *Term, a Seq, aOff *Term, b Seq, bOff *Term) Seq {
	return &SeqIte{c, a, b, aOff, bOff, x.skey(fmt.Sprintf("I%d,%s,%d,%s,%d", c.id, a.Key(), aOff.id, b.Key(), bOff.id))}
}

// vkey is an identity key for a value.
func (x *X) vkey(v Val) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case *Term:
		return fmt.Sprintf("t%d", v.id)
	case *VStruct:
		var b strings.Builder
		b.WriteString("{")
		for _, f := range v.f {
			b.WriteString(x.vkey(f) + ";")
		}
		return b.String() + "}"
	case *VArr:
		var b strings.Builder
		b.WriteString("[")
		for _, f := range v.e {
			b.WriteString(x.vkey(f) + ";")
		}
		return b.String() + "]"
	case *VSlice:
		if v.obj == nil {
			return "slnil"
		}
		return fmt.Sprintf("sl%d,%d,%d,%d", v.obj.id, v.off.id, v.len.id, v.isnil.id)
	case *VStr:
		return fmt.Sprintf("st%s,%d,%d", v.seq.Key(), v.off.id, v.len.id)
	case *VPtr:
		if v.obj == nil {
			return "pnil"
		}
		s := fmt.Sprintf("p%d", v.obj.id)
		for _, p := range v.path {
			if p.idx != nil {
				s += fmt.Sprintf("[%d]", p.idx.id)
			} else {
				s += fmt.Sprintf(".%d", p.field)
			}
		}
		return s
	case *VSymPtr:
		s := fmt.Sprintf("sp%d", v.id.id)
		for _, p := range v.path {
			if p.idx != nil {
				s += fmt.Sprintf("[%d]", p.idx.id)
			} else {
				s += fmt.Sprintf(".%d", p.field)
			}
		}
		return s
	case *VIface:
		if v.typ == nil {
			return "inil"
		}
		return "i" + v.typ.String() + x.vkey(v.val)
	case *VSymIface:
		return fmt.Sprintf("si%d", v.id.id)
	case *VMap:
		if v.obj == nil {
			return "mnil"
		}
		return fmt.Sprintf("m%d", v.obj.id)
	case *VFunc:
		if v.fn == nil {
			return "fnil"
		}
		s := "f" + v.fn.String()
		for _, f := range v.free {
			s += "," + x.vkey(f)
		}
		return s
	case *VTuple:
		s := "("
		for _, f := range v.v {
			s += x.vkey(f) + ";"
		}
		return s
	case *VOpaque:
		s := "o" + v.kind
		if v.t != nil {
			s += fmt.Sprint(v.t.id)
		}
		for _, f := range v.v {
			s += "," + x.vkey(f)
		}
		return s
	}
	x.keep = append(x.keep, v) // so that its address is not used again
	return fmt.Sprintf("%T%p", v, v)
}

func (s *SeqBase) Get(x *X, i *Term) Val {
	return x.lift(s.elem, s.prefix, append(append([]*Term{}, s.idx...), i))
}
func (s *SeqZero) Get(x *X, i *Term) Val { return x.zero(s.elem) }
func (s *SeqConst) Get(x *X, i *Term) Val {
	if i.isConst() {
		if i.ival.IsInt64() && i.ival.Int64() >= 0 && i.ival.Int64() < int64(len(s.s)) {
			return x.BVI(int64(s.s[i.ival.Int64()]), 8)
		}
		return x.BVI(0, 8)
	}
	r := x.BVI(0, 8)
	if len(s.s) > 0 {
		r = x.BVI(int64(s.s[len(s.s)-1]), 8)
	}
	for k := len(s.s) - 2; k >= 0; k-- {
		r = x.Ite(x.Eq(i, x.I(int64(k))), x.BVI(int64(s.s[k]), 8), r)
	}
	return r
}
func (s *SeqStore) Get(x *X, i *Term) Val {
	// walk the chain iteratively while decided
	var cur Seq = s
	for {
		st, ok := cur.(*SeqStore)
		if !ok {
			return cur.Get(x, i)
		}
		e := x.Eq(i, st.idx)
		if e.isTrue() {
			return st.val
		}
		if e.isFalse() || x.knownFalse(e) {
			cur = st.prev
			continue
		}
		return x.merge(e, st.val, x.seqGet(st.prev, i))
	}
}
func (s *SeqCopy) Get(x *X, i *Term) Val {
	in := x.And(x.Le(s.dst, i), x.Lt(i, x.Add(s.dst, s.n)))
	if in.isFalse() {
		return x.seqGet(s.prev, i)
	}
	v := x.seqGet(s.src, x.Add(x.Sub(i, s.dst), s.soff))
	if in.isTrue() {
		return v
	}
	return x.merge(in, v, x.seqGet(s.prev, i))
}
func (s *SeqIte) Get(x *X, i *Term) Val {
	return x.merge(s.c, x.seqGet(s.a, x.Add(i, s.aOff)), x.seqGet(s.b, x.Add(i, s.bOff)))
}
func (s *SeqRune) Get(x *X, i *Term) Val {
	return x.App("u8byte", BV(8), s.r, i)
}
func (s *SeqRunes) Get(x *X, i *Term) Val {
	return x.App("u8s:"+s.key, BV(8), i)
}
func (s *SeqOf) Get(x *X, i *Term) Val { return x.App("rn:"+s.text, BV(32), i) }
func (s *SeqFn) Get(x *X, i *Term) Val { return s.f(x, i) }

// seqGet memoises reads so that nested objects keep their identity.
func (x *X) seqGet(s Seq, i *Term) Val {
	k := s.Key() + "@" + fmt.Sprint(i.id)
	if v, ok := x.getMemo[k]; ok {
		return v
	}
	saved := x.usedPC
	x.usedPC = false
	v := s.Get(x, i)
	if !x.usedPC {
		x.getMemo[k] = v
	}
	x.usedPC = x.usedPC || saved
	return v
}

func (x *X) knownFalse(t *Term) bool {
	if x.cur == nil {
		return false
	}
	if x.cur.pcset[x.Not(t).id] {
		x.usedPC = true
		return true
	}
	return false
}

// ---- types ----

func under(t types.Type) types.Type { return t.Underlying() }

type intInfo struct {
	bits   int
	signed bool
	bv     bool
}

func basicInfo(t types.Type) (intInfo, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intInfo{64, true, false}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, false, false}, true
	case types.Int8:
		return intInfo{8, true, true}, true
	case types.Int16:
		return intInfo{16, true, true}, true
	case types.Int32, types.UntypedRune:
		return intInfo{32, true, true}, true
	case types.Uint8:
		return intInfo{8, false, true}, true
	case types.Uint16:
		return intInfo{16, false, true}, true
	case types.Uint32:
		return intInfo{32, false, true}, true
	}
	return intInfo{}, false
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (x *X) scalarSort(t types.Type) *Sort {
	if ii, ok := basicInfo(t); ok {
		if ii.bv {
			return BV(ii.bits)
		}
		return Int
	}
	if isBool(t) {
		return Bool
	}
	if isFloat(t) {
		return Real
	}
	return nil
}

func intBounds(ii intInfo) (lo, hi *big.Int) {
	if ii.signed {
		return minInt64, maxInt64
	}
	return bigZero, maxUint64
}

func isTime(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

// lift builds the value stored at a symbolic location: leaf arrays named by prefix, indexed by idx.
func (x *X) lift(t types.Type, prefix string, idx []*Term) Val {
	sel := func(name string, s *Sort) *Term {
		as := s
		for i := len(idx) - 1; i >= 0; i-- {
			as = x.Arr(idx[i].sort, as)
		}
		r := x.Var(name, as)
		for _, i := range idx {
			r = x.Select(r, i)
		}
		return r
	}
	if isTime(t) {
		return &VOpaque{kind: "time", v: []Val{x.boundedT(sel(prefix+".t", Int), nil, nil)}}
	}
	if s := x.scalarSort(t); s != nil {
		r := sel(prefix, s)
		if s == Int {
			ii, _ := basicInfo(t)
			lo, hi := intBounds(ii)
			x.boundedT(r, lo, hi)
		}
		return r
	}
	key := prefix
	for _, i := range idx {
		key += fmt.Sprintf(",%d", i.id)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if isString(t) {
			l := x.boundedT(sel(prefix+".len", Int), bigZero, maxLen)
			return &VStr{seq: &SeqBase{prefix + ".s", idx, types.Typ[types.Uint8]}, off: x.I(0), len: l}
		}
		if u.Kind() == types.UnsafePointer {
			return &VOpaque{kind: "unsafe"}
		}
	case *types.Struct:
		v := &VStruct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.f = append(v.f, x.lift(u.Field(i).Type(), prefix+"."+u.Field(i).Name(), idx))
		}
		return v
	case *types.Array:
		v := &VArr{elem: u.Elem()}
		if u.Len() > 64 {
			x.unsupported("lifting large array")
		}
		for i := int64(0); i < u.Len(); i++ {
			v.e = append(v.e, x.lift(u.Elem(), fmt.Sprintf("%s.%d", prefix, i), idx))
		}
		return v
	case *types.Slice:
		l := x.boundedT(sel(prefix+".len", Int), bigZero, maxLen)
		n := sel(prefix+".nil", Bool)
		if _, ok := x.elemFact[prefix+".nil"]; !ok {
			lens := prefix + ".len"
			x.elemFact[prefix+".nil"] = func(s *Term) *Term {
				var ix []*Term
				for a := s; a.op == OSelect; a = a.args[0] {
					ix = append([]*Term{a.args[1]}, ix...)
				}
				as := Int
				for i := len(ix) - 1; i >= 0; i-- {
					as = x.Arr(ix[i].sort, as)
				}
				r := x.Var(lens, as)
				for _, i := range ix {
					r = x.Select(r, i)
				}
				x.boundedT(r, bigZero, maxLen)
				return x.Implies(s, x.Eq(r, x.I(0)))
			}
		}
		o, ok := x.liftObj[key]
		if !ok {
			o = x.newObj(u.Elem(), true, prefix)
			o.ro = true
			o.visible = true
			o.init = Seq(&SeqBase{prefix + ".e", idx, u.Elem()})
			x.liftObj[key] = o
		}
		return &VSlice{o, x.I(0), l, l, n, u.Elem()}
	case *types.Pointer:
		id := x.boundedT(sel(prefix+".ptr", Int), bigZero, maxLen)
		return &VSymPtr{id: id, root: u.Elem(), elem: u.Elem()}
	case *types.Interface:
		id := x.boundedT(sel(prefix+".if", Int), bigZero, nil)
		return &VSymIface{id}
	case *types.Map:
		o, ok := x.liftObj[key]
		if !ok {
			o = x.newObj(t, false, prefix)
			o.ro = true
			o.visible = true
			o.init = &MapC{base: prefix, idx: idx, k: u.Key(), v: u.Elem()}
			x.liftObj[key] = o
		}
		return &VMap{o, u}
	case *types.Signature:
		return &VOpaque{kind: "func", t: sel(prefix+".fn", Int)}
	}
	x.unsupported("lift of type " + t.String())
	return nil
}

func (x *X) boundedT(t *Term, lo, hi *big.Int) *Term {
	if t.isConst() || lo == nil && hi == nil {
		return t
	}
	if _, ok := x.bounds[t.id]; !ok {
		x.SetBounds(t, lo, hi)
	}
	return t
}

// fresh makes an arbitrary value of a type.  visible marks the objects it reaches as caller visible.
func (x *X) fresh(t types.Type, name string, visible bool) Val {
	x.cnt++
	name = fmt.Sprintf("%s'%d", clean(name), x.cnt)
	return x.freshN(t, name, visible)
}

func (x *X) freshN(t types.Type, name string, visible bool) Val {
	if isTime(t) {
		return &VOpaque{kind: "time", v: []Val{x.Var(name+".t", Int)}}
	}
	if s := x.scalarSort(t); s != nil {
		r := x.Var(name, s)
		if s == Int {
			ii, _ := basicInfo(t)
			lo, hi := intBounds(ii)
			x.boundedT(r, lo, hi)
		}
		return r
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if isString(t) {
			l := x.boundedT(x.Var(name+".len", Int), bigZero, maxLen)
			return &VStr{seq: &SeqBase{name + ".s", nil, types.Typ[types.Uint8]}, off: x.I(0), len: l}
		}
		return &VOpaque{kind: "basic"}
	case *types.Struct:
		v := &VStruct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.f = append(v.f, x.freshN(u.Field(i).Type(), name+"."+u.Field(i).Name(), visible))
		}
		return v
	case *types.Array:
		v := &VArr{elem: u.Elem()}
		for i := int64(0); i < u.Len(); i++ {
			v.e = append(v.e, x.freshN(u.Elem(), fmt.Sprintf("%s.%d", name, i), visible))
		}
		return v
	case *types.Slice:
		o := x.newObj(u.Elem(), true, name)
		o.visible = visible
		o.init = Seq(&SeqBase{name + ".e", nil, u.Elem()})
		l := x.boundedT(x.Var(name+".len", Int), bigZero, maxLen)
		xc := x.boundedT(x.Var(name+".xcap", Int), bigZero, maxLen)
		n := x.Var(name+".nil", Bool)
		x.addGlobalFact(x.Implies(n, x.And(x.Eq(l, x.I(0)), x.Eq(xc, x.I(0)))))
		return &VSlice{o, x.I(0), l, x.Add(l, xc), n, u.Elem()}
	case *types.Pointer:
		o := x.newObj(u.Elem(), false, name)
		o.visible = visible
		o.init = x.freshN(u.Elem(), name+".*", visible)
		return &VPtr{o, nil, u.Elem()}
	case *types.Interface:
		return &VSymIface{x.boundedT(x.Var(name+".if", Int), bigZero, nil)}
	case *types.Map:
		o := x.newObj(t, false, name)
		o.visible = visible
		o.init = &MapC{base: name, k: u.Key(), v: u.Elem()}
		return &VMap{o, u}
	case *types.Signature:
		return &VOpaque{kind: "func", t: x.Var(name+".fn", Int)}
	case *types.Tuple:
		tu := &VTuple{}
		for i := 0; i < u.Len(); i++ {
			tu.v = append(tu.v, x.freshN(u.At(i).Type(), fmt.Sprintf("%s.r%d", name, i), visible))
		}
		return tu
	}
	x.unsupported("fresh value of type " + t.String())
	return nil
}

func (x *X) zero(t types.Type) Val {
	if isTime(t) {
		return &VOpaque{kind: "time", v: []Val{x.Var("time.zero", Int)}}
	}
	if s := x.scalarSort(t); s != nil {
		switch s.kind {
		case SBool:
			return x.False
		case SInt:
			return x.I(0)
		case SReal:
			return x.RealOp("0.0", Real)
		case SBV:
			return x.BVI(0, s.n)
		}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if isString(t) {
			return x.str("")
		}
		return &VOpaque{kind: "basic"}
	case *types.Struct:
		v := &VStruct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.f = append(v.f, x.zero(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		v := &VArr{elem: u.Elem()}
		for i := int64(0); i < u.Len(); i++ {
			v.e = append(v.e, x.zero(u.Elem()))
		}
		return v
	case *types.Slice:
		return &VSlice{nil, x.I(0), x.I(0), x.I(0), x.True, u.Elem()}
	case *types.Pointer:
		return &VPtr{nil, nil, u.Elem()}
	case *types.Interface:
		return &VIface{}
	case *types.Map:
		return &VMap{nil, u}
	case *types.Signature:
		return &VFunc{}
	case *types.Chan:
		return &VOpaque{kind: "chan"}
	case *types.Tuple:
		tu := &VTuple{}
		for i := 0; i < u.Len(); i++ {
			tu.v = append(tu.v, x.zero(u.At(i).Type()))
		}
		return tu
	}
	x.unsupported("zero value of type " + t.String())
	return nil
}

func (x *X) str(s string) *VStr {
	return &VStr{seq: &SeqConst{s}, off: x.I(0), len: x.I(int64(len(s)))}
}

// bornBefore is when the older of two arrays was allocated; a slice without room has none.
func bornBefore(a, b *VSlice) int {
	born := func(s *VSlice) int {
		if s.obj == nil {
			return 1 << 60
		}
		return s.obj.born
	}
	if born(a) < born(b) {
		return born(a)
	}
	return born(b)
}

func (x *X) newObj(t types.Type, arr bool, name string) *Obj {
	x.nobj++
	o := &Obj{id: x.nobj, typ: t, arr: arr, name: name}
	x.objs = append(x.objs, o)
	return o
}

// contentSeq returns the current content of a slice's backing array.
func (x *X) sliceSeq(st *State, s *VSlice) Seq {
	if s.obj == nil {
		return &SeqZero{s.elem}
	}
	return x.content(st, s.obj).(Seq)
}

func (x *X) content(st *State, o *Obj) interface{} {
	if o.warmable {
		x.sawWarm = true
	}
	if c, ok := st.heap[o.id]; ok {
		return c
	}
	if c, ok := x.base[o.id]; ok {
		return c
	}
	if o.init == nil {
		x.unsupported("object without content " + o.name)
	}
	return o.init
}

// ---- merging ----

func (x *X) merge(c *Term, a, b Val) Val {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	switch av := a.(type) {
	case *Term:
		if bv, ok := b.(*Term); ok {
			return x.Ite(c, av, bv)
		}
	case *VStruct:
		bv, ok := b.(*VStruct)
		if ok && len(av.f) == len(bv.f) {
			r := &VStruct{typ: av.typ}
			for i := range av.f {
				r.f = append(r.f, x.merge(c, av.f[i], bv.f[i]))
			}
			return r
		}
	case *VArr:
		bv, ok := b.(*VArr)
		if ok && len(av.e) == len(bv.e) {
			r := &VArr{elem: av.elem}
			for i := range av.e {
				r.e = append(r.e, x.merge(c, av.e[i], bv.e[i]))
			}
			return r
		}
	case *VTuple:
		bv, ok := b.(*VTuple)
		if ok && len(av.v) == len(bv.v) {
			r := &VTuple{}
			for i := range av.v {
				r.v = append(r.v, x.merge(c, av.v[i], bv.v[i]))
			}
			return r
		}
	case *VSlice:
		bv, ok := b.(*VSlice)
		if ok {
			if av.obj == bv.obj {
				return &VSlice{av.obj, x.Ite(c, av.off, bv.off), x.Ite(c, av.len, bv.len), x.Ite(c, av.cap, bv.cap), x.Ite(c, av.isnil, bv.isnil), av.elem}
			}
			st := x.cur
			k := fmt.Sprintf("mg%d,%s,%s", c.id, x.vkey(av), x.vkey(bv))
			sa, sb := x.sliceSeq(st, av), x.sliceSeq(st, bv)
			seq := x.mkIteSeq(c, sa, av.off, sb, bv.off)
			k += seq.Key()
			o, ok := x.liftObj[k]
			if !ok {
				o = x.newObj(av.elem, true, "merged")
				o.ro = true
				o.born = bornBefore(av, bv)
				o.visible = av.obj != nil && av.obj.visible || bv.obj != nil && bv.obj.visible
				o.init = seq
				x.liftObj[k] = o
			}
			return &VSlice{o, x.I(0), x.Ite(c, av.len, bv.len), x.Ite(c, av.len, bv.len), x.Ite(c, av.isnil, bv.isnil), av.elem}
		}
	case *VStr:
		bv, ok := b.(*VStr)
		if ok {
			if av.seq.Key() == bv.seq.Key() {
				return &VStr{seq: av.seq, off: x.Ite(c, av.off, bv.off), len: x.Ite(c, av.len, bv.len)}
			}
			return &VStr{seq: x.mkIteSeq(c, av.seq, av.off, bv.seq, bv.off), off: x.I(0), len: x.Ite(c, av.len, bv.len)}
		}
	case *VPtr, *VSymPtr:
		if x.vkey(a) == x.vkey(b) {
			return a
		}
		return &VSymPtr{id: x.Ite(c, x.ptrID(a), x.ptrID(b)), root: x.ptrElem(a), elem: x.ptrElem(a)}
	case *VIface, *VSymIface:
		if x.vkey(a) == x.vkey(b) {
			return a
		}
		return &VSymIface{x.Ite(c, x.ifaceID(a), x.ifaceID(b))}
	case *VOpaque:
		bv, ok := b.(*VOpaque)
		if ok && bv.kind == av.kind && len(av.v) == len(bv.v) {
			r := &VOpaque{kind: av.kind}
			if av.t != nil && bv.t != nil {
				r.t = x.Ite(c, av.t, bv.t)
			}
			for i := range av.v {
				r.v = append(r.v, x.merge(c, av.v[i], bv.v[i]))
			}
			return r
		}
	case *VMap, *VFunc:
		if x.vkey(a) == x.vkey(b) {
			return a
		}
	}
	x.unsupported(fmt.Sprintf("merge of %T and %T", a, b))
	return nil
}

func (x *X) ptrElem(v Val) types.Type {
	switch v := v.(type) {
	case *VPtr:
		return v.elem
	case *VSymPtr:
		return v.elem
	}
	return nil
}

// ptrID is an integer identity for a pointer (0 = nil).
func (x *X) ptrID(v Val) *Term {
	switch v := v.(type) {
	case *VSymPtr:
		if len(v.path) != 0 {
			x.unsupported("identity of interior pointer")
		}
		return v.id
	case *VPtr:
		if v.obj == nil {
			return x.I(0)
		}
		if len(v.path) != 0 {
			x.unsupported("identity of interior pointer")
		}
		id := new(big.Int).Add(new(big.Int).Lsh(bigOne, 57), big.NewInt(int64(v.obj.id)))
		x.ptrObj[v.obj.id] = v
		return x.IBig(id)
	}
	x.unsupported(fmt.Sprintf("ptrID of %T", v))
	return nil
}

// ifaceID is an integer identity for an interface value (0 = nil).
func (x *X) ifaceID(v Val) *Term {
	switch v := v.(type) {
	case *VSymIface:
		return v.id
	case *VIface:
		if v.typ == nil {
			return x.I(0)
		}
		k := "iface:" + v.typ.String() + ":" + x.vkey(v.val)
		if t, ok := x.ifaceIDs[k]; ok {
			return t
		}
		id := new(big.Int).Add(new(big.Int).Lsh(bigOne, 58), big.NewInt(int64(len(x.ifaceIDs))))
		t := x.IBig(id)
		x.ifaceIDs[k] = t
		x.ifaceVals[t.id] = v
		x.addGlobalFact(x.Eq(x.boundedT(x.App("iftag", Int, t), bigZero, nil), x.typeTag(v.typ)))
		return t
	}
	x.unsupported(fmt.Sprintf("ifaceID of %T", v))
	return nil
}

// ---- maps ----

// MapC is map content: a symbolic base with concrete/symbolic updates on top.
type MapC struct {
	base string // "" = empty
	idx  []*Term
	k, v types.Type
	// concrete entries, insertion order (only when every key is constant and base=="")
	keys []Val
	vals []Val
	pos  map[string]int
	// general updates (latest last)
	upd []mapUpd
	cnt *Term // length for symbolic maps
	id  int   // identity
}
type mapUpd struct {
	k   Val
	v   Val
	del bool
}

func (m *MapC) concrete() bool { return m.base == "" && len(m.upd) == 0 }
