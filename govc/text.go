package main

// Strings and UTF-8: a string's runes are a sequence attached to its byte content.

import (
	"fmt"
	"go/types"
	"math/big"
	"unicode/utf8"
)

type Text struct {
	key   string
	n     *Term
	kind  byte // 'e' empty, 'c' constant, 'r' rune, 's' runes, '+' concat, 'b' base
	runes []rune
	pos   []int
	s     string
	r     *Term
	src   Seq
	off   *Term
	a, b  *Text
	len   *Term
	valid bool // known to be valid UTF-8 starting on a boundary
}

func (x *X) runeValid(r *Term) *Term {
	return x.And(x.BvUle(r, x.BVI(0x10FFFF, 32)), x.Or(x.BvUlt(r, x.BVI(0xD800, 32)), x.BvUlt(x.BVI(0xDFFF, 32), r)))
}

func (x *X) normRune(r *Term) *Term {
	return x.Ite(x.runeValid(r), r, x.BVI(0xFFFD, 32))
}

func (x *X) runeLen(r *Term) *Term {
	r = x.normRune(r)
	return x.Ite(x.BvUlt(r, x.BVI(0x80, 32)), x.I(1), x.Ite(x.BvUlt(r, x.BVI(0x800, 32)), x.I(2), x.Ite(x.BvUlt(r, x.BVI(0x10000, 32)), x.I(3), x.I(4))))
}

func (x *X) runeStr(r *Term) Val {
	if r.isConst() {
		return x.str(string(rune(int32(r.ival.Int64()))))
	}
	return &VStr{seq: &SeqRune{r}, off: x.I(0), len: x.runeLen(r)}
}

func (x *X) constText(s string) *Text {
	k := fmt.Sprintf("c%q", s)
	if t, ok := x.texts[k]; ok {
		return t
	}
	t := &Text{key: k, kind: 'c', s: s, valid: utf8.ValidString(s)}
	for i, r := range s {
		t.runes = append(t.runes, r)
		t.pos = append(t.pos, i)
	}
	t.pos = append(t.pos, len(s))
	t.n = x.I(int64(len(t.runes)))
	t.len = x.I(int64(len(s)))
	if len(s) == 0 {
		t.kind = 'e'
	}
	if len(s) > 0 && !utf8.RuneStart(s[0]) {
		t.valid = false
	}
	x.texts[k] = t
	return t
}

func (x *X) isZero(st *State, t *Term) bool {
	return t.isConst() && t.ival.Sign() == 0 || x.quick(st, x.Eq(t, x.I(0))) == 1
}

func (x *X) text(st *State, seq Seq, off, ln *Term) *Text {
	if ln.isConst() && ln.ival.Sign() == 0 {
		return x.constText("")
	}
	key := fmt.Sprintf("%s@%d+%d", seq.Key(), off.id, ln.id)
	if t, ok := x.texts[key]; ok {
		return t
	}
	t := x.text0(st, seq, off, ln, key)
	if t.key == key { // not path dependent
		x.texts[key] = t
	}
	return t
}

func (x *X) text0(st *State, seq Seq, off, ln *Term, key string) *Text {
	switch s := seq.(type) {
	case *SeqConst:
		if off.isConst() && ln.isConst() {
			o, l := off.ival.Int64(), ln.ival.Int64()
			if o >= 0 && l >= 0 && o+l <= int64(len(s.s)) {
				return x.constText(s.s[o : o+l])
			}
		}
	case *SeqRune:
		if x.isZero(st, off) && ln == x.runeLen(s.r) {
			return &Text{key: key, kind: 'r', n: x.I(1), r: x.normRune(s.r), len: ln, valid: true}
		}
	case *SeqRunes:
		if x.isZero(st, off) && ln == x.runesLen(s) {
			return &Text{key: key, kind: 's', n: s.len, src: s.src, off: s.off, len: ln, valid: true}
		}
	case *SeqCopy:
		end := x.Add(off, ln)
		cend := x.Add(s.dst, s.n)
		if s.dst == off && s.n == ln {
			return x.text(st, s.src, s.soff, ln)
		}
		if x.quick(st, x.Le(end, s.dst)) == 1 {
			return x.text(st, s.prev, off, ln)
		}
		if end == cend && x.quick(st, x.Le(off, s.dst)) == 1 {
			b := x.text(st, s.src, s.soff, s.n)
			if b.valid {
				a := x.text(st, s.prev, off, x.Sub(s.dst, off))
				return x.catText(key, a, b, ln)
			}
		}
	case *SeqStore:
		end := x.Add(off, ln)
		if x.quick(st, x.Le(end, s.idx)) == 1 {
			return x.text(st, s.prev, off, ln)
		}
		if v, ok := s.val.(*Term); ok && x.AddC(s.idx, 1) == end && x.quick(st, x.Le(off, s.idx)) == 1 {
			if v.isConst() && v.ival.Int64() < 0x80 {
				a := x.text(st, s.prev, off, x.Sub(s.idx, off))
				b := x.constText(string(rune(v.ival.Int64())))
				return x.catText(key, a, b, ln)
			}
		}
	}
	t := &Text{key: key, kind: 'b', len: ln}
	t.n = x.boundedT(x.Var("tn:"+key, Int), bigZero, maxLen)
	x.addGlobalFact(x.And(x.Le(t.n, ln), x.Le(ln, x.MulC(t.n, big.NewInt(4)))))
	rn, rp := "rn:"+key, "rp:"+key
	x.unfold[rn] = func(args []*Term, app *Term) []*Term {
		return []*Term{x.runeValid(app)}
	}
	x.unfold[rp] = func(args []*Term, app *Term) []*Term {
		k := args[0]
		in := x.And(x.Le(x.I(0), k), x.Lt(k, t.n))
		return []*Term{
			x.Implies(in, x.And(x.Le(k, app), x.Lt(app, ln))),
			x.Implies(x.Eq(k, x.I(0)), x.Eq(app, x.I(0))),
			x.Implies(x.Eq(k, t.n), x.Eq(app, ln)),
		}
	}
	return t
}

func (x *X) catText(key string, a, b *Text, ln *Term) *Text {
	if a.kind == 'e' {
		return b
	}
	if b.kind == 'e' {
		return a
	}
	return &Text{key: key, kind: '+', a: a, b: b, n: x.Add(a.n, b.n), len: ln, valid: a.valid && b.valid}
}

func (x *X) runeAt(t *Text, k *Term) *Term {
	switch t.kind {
	case 'e':
		return x.BVI(0, 32)
	case 'c':
		r := x.BVI(int64(t.runes[len(t.runes)-1]), 32)
		for i := len(t.runes) - 2; i >= 0; i-- {
			r = x.Ite(x.Eq(k, x.I(int64(i))), x.BVI(int64(t.runes[i]), 32), r)
		}
		return r
	case 'r':
		return t.r
	case 's':
		return x.normRune(x.seqGet(t.src, x.Add(t.off, k)).(*Term))
	case '+':
		return x.Ite(x.Lt(k, t.a.n), x.runeAt(t.a, k), x.runeAt(t.b, x.Sub(k, t.a.n)))
	}
	return x.App("rn:"+t.key, BV(32), k)
}

func (x *X) runePos(t *Text, k *Term) *Term {
	switch t.kind {
	case 'e':
		return x.I(0)
	case 'c':
		r := x.I(int64(t.pos[len(t.pos)-1]))
		for i := len(t.pos) - 2; i >= 0; i-- {
			r = x.Ite(x.Eq(k, x.I(int64(i))), x.I(int64(t.pos[i])), r)
		}
		return r
	case 'r':
		return x.Ite(x.Le(k, x.I(0)), x.I(0), t.len)
	case '+':
		return x.Ite(x.Lt(k, t.a.n), x.runePos(t.a, k), x.Add(t.a.len, x.runePos(t.b, x.Sub(k, t.a.n))))
	}
	name := "rp:" + t.key
	app := x.App(name, Int, k)
	if t.kind == 's' {
		if _, ok := x.unfold[name]; !ok {
			x.unfold[name] = func(args []*Term, app *Term) []*Term {
				in := x.And(x.Le(x.I(0), args[0]), x.Lt(args[0], t.n))
				return []*Term{x.Implies(in, x.And(x.Le(args[0], app), x.Lt(app, t.len)))}
			}
		}
	}
	return app
}

func (x *X) runesLen(s *SeqRunes) *Term {
	l := x.boundedT(x.Var("u8l:"+s.key, Int), bigZero, maxLen)
	x.addGlobalFact(x.And(x.Le(s.len, l), x.Le(l, x.MulC(s.len, big.NewInt(4)))))
	return l
}

func (x *X) runesToStr(st *State, v *VSlice) Val {
	src := x.sliceSeq(st, v)
	if v.len.isConst() && v.len.ival.Sign() == 0 {
		return x.str("")
	}
	s := &SeqRunes{src, v.off, v.len, x.skey(fmt.Sprintf("U%s,%d,%d", src.Key(), v.off.id, v.len.id))}
	return &VStr{seq: s, off: x.I(0), len: x.runesLen(s)}
}

func (x *X) bytesToStr(st *State, v *VSlice) Val {
	return &VStr{seq: x.sliceSeq(st, v), off: v.off, len: v.len}
}

func (x *X) strToBytes(st *State, s *VStr, elem types.Type) Val {
	o := x.newObj(elem, true, "bytes")
	o.born = o.id
	o.init = s.seq
	o.indiff = true
	xc := x.FreshInt("xcap", bigZero, maxLen)
	return &VSlice{o, s.off, s.len, x.Add(s.len, xc), x.False, elem}
}

func (x *X) strToRunes(st *State, s *VStr, elem types.Type) Val {
	t := x.text(st, s.seq, s.off, s.len)
	o := x.newObj(elem, true, "runes")
	o.init = Seq(&SeqFn{func(x *X, i *Term) Val { return x.runeAt(t, i) }, "rn:" + t.key})
	o.indiff = true
	xc := x.FreshInt("xcap", bigZero, maxLen)
	return &VSlice{o, x.I(0), t.n, x.Add(t.n, xc), x.False, elem}
}

func (x *X) strConst(s *VStr) (string, bool) {
	if c, ok := s.seq.(*SeqConst); ok && s.off.isConst() && s.len.isConst() {
		o, l := s.off.ival.Int64(), s.len.ival.Int64()
		return c.s[o : o+l], true
	}
	if s.len.isConst() && s.len.ival.Sign() == 0 {
		return "", true
	}
	return "", false
}

func (x *X) strConcat(a, b *VStr) Val {
	if ca, ok := x.strConst(a); ok {
		if ca == "" {
			return b
		}
		if cb, ok := x.strConst(b); ok {
			return x.str(ca + cb)
		}
	}
	if cb, ok := x.strConst(b); ok && cb == "" {
		return a
	}
	return &VStr{seq: x.mkCopy(a.seq, x.Add(a.off, a.len), b.len, b.seq, b.off), off: a.off, len: x.Add(a.len, b.len)}
}

func (x *X) strEq(st *State, a, b *VStr) *Term {
	if a.tag != nil && b.tag != nil {
		return x.Eq(a.tag, b.tag)
	}
	if a.seq.Key() == b.seq.Key() && a.off == b.off && a.len == b.len {
		return x.True
	}
	ca, oka := x.strConst(a)
	cb, okb := x.strConst(b)
	if oka && okb {
		return x.B(ca == cb)
	}
	r := x.Eq(a.len, b.len)
	if r.isFalse() {
		return r
	}
	if oka || okb {
		c, o := ca, b
		if okb {
			c, o = cb, a
		}
		for i := 0; i < len(c); i++ {
			r = x.And(r, x.Eq(x.seqGet(o.seq, x.AddC(o.off, int64(i))).(*Term), x.BVI(int64(c[i]), 8)))
		}
		return r
	}
	return x.And(r, x.seqEq(a.seq, a.off, b.seq, b.off, a.len))
}

// seqEq: element-wise equality over n elements.
func (x *X) seqEq(a Seq, ao *Term, b Seq, bo *Term, n *Term) *Term {
	if a.Key() == b.Key() && ao == bo {
		return x.True
	}
	if n.isConst() && n.ival.Cmp(big.NewInt(16)) <= 0 {
		r := x.True
		for i := int64(0); i < n.ival.Int64(); i++ {
			r = x.And(r, x.valEq(x.cur, x.seqGet(a, x.AddC(ao, i)), x.seqGet(b, x.AddC(bo, i)), nil))
		}
		return r
	}
	v := x.FreshBound("i", Int)
	return x.Forall([]*Term{v}, x.Implies(x.And(x.Le(x.I(0), v), x.Lt(v, n)),
		x.valEq(x.cur, x.seqGet(a, x.Add(ao, v)), x.seqGet(b, x.Add(bo, v)), nil)))
}

func (x *X) strID(st *State, s *VStr) *Term {
	if s.tag != nil {
		return s.tag
	}
	if c, ok := x.strConst(s); ok {
		k := "const:" + c
		if t, ok := x.strTags[k]; ok {
			return t
		}
		id := new(big.Int).Add(new(big.Int).Lsh(bigOne, 59), big.NewInt(int64(len(x.strTags))))
		t := x.IBig(id)
		x.strTags[k] = t
		return t
	}
	return x.boundedT(x.App("strid:"+s.seq.Key(), Int, s.off, s.len), bigZero, nil)
}
