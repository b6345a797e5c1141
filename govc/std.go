package main

// Models of the standard library functions the code uses.  Everything else from the
// standard library is executed from its source.

import (
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *X) freshStr(tag *Term) *VStr {
	s := x.fresh(types.Typ[types.String], "str", false).(*VStr)
	s.tag = tag
	return s
}

func (x *X) timeField(id *Term, f string) *Term {
	r := x.App("time."+f, Int, id)
	lim := map[string][2]int64{"month": {1, 12}, "day": {1, 31}, "hour": {0, 23}, "minute": {0, 59}, "second": {0, 59}, "nsec": {0, 999999999}, "zone": {-1 << 31, 1 << 31}, "year": {-1 << 40, 1 << 40}}[f]
	x.boundedT(r, big.NewInt(lim[0]), big.NewInt(lim[1]))
	return r
}

// daysIn is the number of days of a month.
func (x *X) daysIn(y, m *Term) *Term {
	leap := x.And(x.Eq(x.ModE(y, x.I(4)), x.I(0)), x.Or(x.Ne(x.ModE(y, x.I(100)), x.I(0)), x.Eq(x.ModE(y, x.I(400)), x.I(0))))
	r := x.I(31)
	for _, k := range []int64{4, 6, 9, 11} {
		r = x.Ite(x.Eq(m, x.I(k)), x.I(30), r)
	}
	return x.Ite(x.Eq(m, x.I(2)), x.Ite(leap, x.I(29), x.I(28)), r)
}

func (x *X) timeFacts(id *Term) {
	x.addGlobalFact(x.Le(x.timeField(id, "day"), x.daysIn(x.timeField(id, "year"), x.timeField(id, "month"))))
}

func timeID(v Val) *Term { return v.(*VOpaque).v[0].(*Term) }

func (x *X) locOff(v Val) *Term {
	return x.boundedT(x.App("loc.off", Int, x.ptrIDAny(v)), big.NewInt(-1<<31), big.NewInt(1<<31))
}

func (x *X) ptrIDAny(v Val) *Term { return x.ptrID(v) }

// injectiveFormat: can the arguments be recovered from the formatted text?
func injectiveFormat(f string) bool {
	ns := 0
	rest := f
	first := true
	for rest != "" {
		i := strings.IndexByte(rest, '%')
		if i < 0 {
			return false
		}
		if first && i != 0 {
			return false
		}
		if !first && rest[:i] != ":" {
			return false
		}
		first = false
		rest = rest[i+1:]
		j := 0
		for j < len(rest) && rest[j] >= '0' && rest[j] <= '9' {
			j++
		}
		if j >= len(rest) {
			return false
		}
		switch rest[j] {
		case 'd', 'x', 'X':
		case 's':
			ns++
		default:
			return false
		}
		rest = rest[j+1:]
	}
	return ns <= 1
}

func (x *X) sprintf(st *State, args []Val) Val {
	f, ok := x.strConst(args[0].(*VStr))
	if !ok {
		return x.freshStr(nil)
	}
	va := args[1].(*VSlice)
	if !va.len.isConst() {
		return x.freshStr(nil)
	}
	var leafs []*Term
	seq := x.sliceSeq(st, va)
	for i := int64(0); i < va.len.ival.Int64(); i++ {
		e, ok := x.seqGet(seq, x.AddC(va.off, i)).(*VIface)
		if !ok {
			return x.freshStr(nil)
		}
		switch v := e.val.(type) {
		case *Term:
			if v.sort.kind == SBV {
				ii, _ := basicInfo(e.typ)
				if ii.signed {
					v = x.B2IS(v)
				} else {
					v = x.B2I(v)
				}
			}
			leafs = append(leafs, v)
		case *VStr:
			leafs = append(leafs, x.strID(st, v))
		default:
			return x.freshStr(nil)
		}
	}
	tag := x.boundedT(x.App("sprintf:"+f, Int, leafs...), bigZero, nil)
	if injectiveFormat(f) && !tag.bound {
		for i, l := range leafs {
			if l.sort == Int {
				x.addGlobalFact(x.Eq(x.App("spf:"+f+":"+string(rune('0'+i)), Int, tag), l))
			}
		}
		x.trusted["fmt.Sprintf("+f+") is injective in its arguments"] = true
	}
	return x.freshStr(tag)
}

func (x *X) stdCall(fr *Frame, st *State, full string, fn *ssa.Function, args []Val) ([]Outcome, bool) {
	none := &VTuple{}
	switch full {
	case "fmt.Sprintf":
		return one(st, x.sprintf(st, args)), true
	case "fmt.Errorf":
		e := x.FreshInt("errorf", bigOne, nil)
		x.foreign(e)
		return one(st, &VSymIface{e}), true
	case "strings.Join":
		return one(st, x.freshStr(nil)), true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		x.trusted["sync.Mutex: sequential execution (no interleaving is modelled)"] = true
		return one(st, none), true
	case "(*sync.Once).Do":
		return nil, false
	case "sync/atomic.AddInt64":
		v := x.wrapAlways(st, x.Add(x.load(st, args[0]).(*Term), args[1].(*Term)))
		x.store(st, args[0], v)
		x.trusted["sync/atomic: sequential semantics"] = true
		return one(st, v), true
	case "sync/atomic.LoadInt64":
		x.trusted["sync/atomic: sequential semantics"] = true
		return one(st, x.load(st, args[0])), true
	case "sync/atomic.StoreInt64":
		x.store(st, args[0], args[1])
		return one(st, none), true
	case "time.AfterFunc":
		x.trusted["time.AfterFunc: timers do not fire during a call"] = true
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		return one(st, &VSymPtr{id: x.FreshInt("timer", bigOne, maxLen), root: t, elem: t}), true
	case "(*time.Timer).Stop":
		x.oblige(st, "nil dereference", x.Not(x.ptrEq(args[0], &VPtr{nil, nil, x.ptrElem(args[0])})))
		if p, is := args[0].(*VSymPtr); is && x.spec == 0 && x.dry == 0 {
			// a running timer is state: who stops one has to be permitted to write it
			ok := x.False
			for _, m := range x.mods {
				if m.root != nil && types.Identical(m.root, p.root) && m.symID == nil {
					ok = x.True
				}
			}
			x.oblige(st, "frame: a timer is stopped", ok)
		}
		return one(st, x.Fresh("stopped", Bool)), true
	case "time.FixedZone":
		off := args[1].(*Term)
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		id := x.boundedT(x.App("loc.fixed", Int, off), bigOne, maxLen)
		x.addGlobalFact(x.Eq(x.App("loc.off", Int, id), off))
		x.trusted["time.FixedZone: a location with the given offset"] = true
		return one(st, &VSymPtr{id: id, root: t, elem: t}), true
	case "time.Date":
		x.trusted["time.Date: a valid date and time of day is stored as given"] = true
		var ts []*Term
		for _, a := range args[:7] {
			ts = append(ts, a.(*Term))
		}
		lp := args[7]
		off := x.locOff(lp)
		ts = append(ts, off)
		id := x.App("time.mk", Int, ts...)
		x.utcFact(lp)
		if !id.bound {
			in := func(t *Term, lo, hi int64) *Term { return x.And(x.Le(x.I(lo), t), x.Le(t, x.I(hi))) }
			valid := x.And(in(ts[1], 1, 12), x.Le(x.I(1), ts[2]), x.Le(ts[2], x.daysIn(ts[0], ts[1])), in(ts[3], 0, 23), in(ts[4], 0, 59), in(ts[5], 0, 59), in(ts[6], 0, 999999999))
			f := x.True
			for i, n := range []string{"year", "month", "day", "hour", "minute", "second", "nsec", "zone"} {
				f = x.And(f, x.Eq(x.timeField(id, n), ts[i]))
			}
			x.addGlobalFact(x.Implies(valid, f))
			x.addGlobalFact(x.Eq(x.timeField(id, "zone"), off))
		}
		return one(st, &VOpaque{kind: "time", v: []Val{id}}), true
	case "(time.Time).Year", "(time.Time).Month", "(time.Time).Day", "(time.Time).Hour", "(time.Time).Minute", "(time.Time).Second", "(time.Time).Nanosecond":
		id := timeID(args[0])
		n := strings.ToLower(fn.Name())
		if n == "nanosecond" {
			n = "nsec"
		}
		if !id.bound {
			x.timeFacts(id)
		}
		x.trusted["time.Time accessors: calendar fields within their ranges"] = true
		return one(st, x.timeField(id, n)), true
	case "(time.Time).Zone":
		id := timeID(args[0])
		return one(st, &VTuple{[]Val{x.freshStr(nil), x.timeField(id, "zone")}}), true
	case "(time.Time).Format":
		return one(st, x.freshStr(nil)), true
	case "math.Floor":
		return one(st, x.RealOp("to_real", Real, x.RealOp("to_int", Int, args[0].(*Term)))), true
	case "math.Ceil":
		n := x.RealOp("-", Real, args[0].(*Term))
		return one(st, x.RealOp("-", Real, x.RealOp("to_real", Real, x.RealOp("to_int", Int, n)))), true
	}
	return nil, false
}

// wrapAlways is int64 wrap-around addition.
func (x *X) wrapAlways(st *State, t *Term) *Term {
	return x.wrap(st, t, intInfo{64, true, false})
}

func (x *X) utcFact(lp Val) {
	// time.UTC is loaded from a global whose object was made fresh; its offset is 0
	if p, ok := lp.(*VPtr); ok && p.obj != nil && strings.HasPrefix(p.obj.name, "g:") {
		x.addGlobalFact(x.Eq(x.locOff(lp), x.I(0)))
		return
	}
	if p, ok := lp.(*VSymPtr); ok && p.id.op == OIte {
		for _, a := range p.id.args[1:] {
			if a.isConst() {
				off := new(big.Int).Sub(a.ival, new(big.Int).Lsh(bigOne, 57))
				if off.Sign() > 0 && off.IsInt64() {
					if q, ok := x.ptrObj[int(off.Int64())]; ok {
						x.utcFact(q)
					}
				}
			}
		}
	}
}

var _ = constant.MakeInt64
