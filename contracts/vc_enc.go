package sms

import "github.com/warthog618/sms/encoding/tpdu"

// ---- counters ----

func req_Counter_Count(c *Counter) bool { return c != nil && c.c < 1<<62 }
func mod_Counter_Count(c *Counter) []interface{} { return []interface{}{&c.c} }
func ens_Counter_Count(c *Counter, n int) bool {
	return n == int(c.c) && int(c.c) == vcOldInt(func() int { return int(c.c) })+1
}
func req_Counter_Read(c *Counter) bool      { return c != nil }
func ens_Counter_Read(c *Counter, n int) bool { return n == int(c.c) }

// a counter that was read as v is counted to v+1, and then reads so
func prop_C21_counter(c0 Counter) {
	c := &c0
	vcReq(c.c < 1<<62-2)
	v := c.Read()
	vcAssert(c.Count() == v+1)
	vcAssert(c.Read() == v+1)
	vcAssert(c.Read() == v+1)
	vcAssert(c.Count() == v+2)
	vcAssert(c.Read() == v+2)
	var d Counter
	vcAssert(d.Read() == 0)
	vcAssert(d.Count() == 1)
	vcAssert(c.Read() == v+2)
}

// spec_counters: the encoder counts messages and long messages apart.
func spec_counters(e *Encoder) bool {
	if e.MsgCount == nil || e.ConcatRef == nil || e.MsgCount == e.ConcatRef {
		return false
	}
	m, c := vcCalls(e.MsgCount), vcCalls(e.ConcatRef)
	return m >= 0 && m < 1<<40 && c >= 0 && c < 1<<40
}

// auxCounted: the TPDUs took the next references, and a long message the next one for its segments.
func auxCounted(e *Encoder, m, c int, r []tpdu.TPDU, k int) {
	vcAssert(vcCalls(e.MsgCount) == m+len(r))
	if len(r) < 2 {
		vcAssert(vcCalls(e.ConcatRef) == c)
	} else {
		vcAssert(vcCalls(e.ConcatRef) == c+1)
	}
	vcReq(0 <= k && k < len(r))
	vcAssert(r[k].MR == byte(vcCall(e.MsgCount, m+k)))
	if len(r) > 1 {
		vcAssert(tpdu.SpecNumbered(r[k].UDH, vcCall(e.ConcatRef, c), len(r), k+1))
	}
}

func auxData(e Encoder, msg []byte, k int) {
	e.sopts = nil // no option of this package adds any
	a := tpdu.SpecAlpha(e.pdu.DCS)
	vcReq(len(msg) <= 1<<30 && (a != tpdu.AlphaUCS2 || len(msg)%2 == 0))
	vcReq(spec_counters(&e) && tpdu.SpecRoom(&e.pdu, a, e.pdu.UDH, 5))
	m, c := vcCalls(e.MsgCount), vcCalls(e.ConcatRef)
	r, err := e.Encode(msg)
	vcAssert(err == nil)
	auxCounted(&e, m, c, r, k)
}

func prop_C21_data8(e Encoder, msg []byte, k int) {
	vcReq(tpdu.SpecAlpha(e.pdu.DCS) == tpdu.Alpha8Bit)
	auxData(e, msg, k)
}
func prop_C21_dataU(e Encoder, msg []byte, k int) {
	vcReq(tpdu.SpecAlpha(e.pdu.DCS) == tpdu.AlphaUCS2)
	auxData(e, msg, k)
}

// spec_textRoom: text has room in the segments of the template, whatever tables it takes.
func spec_textRoom(t *tpdu.TPDU) bool {
	return tpdu.SpecRoom(t, tpdu.Alpha7Bit, t.UDH, 5) && tpdu.SpecRoom(t, tpdu.AlphaUCS2, t.UDH, 5) && tpdu.SpecRoomN(t, tpdu.Alpha7Bit, 4, 5) && tpdu.SpecRoomN(t, tpdu.Alpha7Bit, 7, 5)
}

func spec_options(o []tpdu.UDEncodeOption) bool {
	return vcForall(0, len(o), func(i int) bool { return o[i] != nil })
}

// text is encoded by the default alphabet, by language tables, or as UCS-2
func auxText(e Encoder, msg []byte, k int) {
	e.sopts = nil
	vcReq(tpdu.SpecAlpha(e.pdu.DCS) == tpdu.Alpha7Bit)
	vcReq(len(msg) <= 1<<28 && spec_counters(&e) && spec_textRoom(&e.pdu) && spec_options(e.eopts))
	m, c := vcCalls(e.MsgCount), vcCalls(e.ConcatRef)
	r, err := e.Encode(msg)
	if err != nil {
		vcAssert(len(r) == 0)
	}
	auxCounted(&e, m, c, r, k)
}
func prop_C21_plain(e Encoder, msg []byte, k int) {
	vcReq(tpdu.SpecPlain(msg))
	auxText(e, msg, k)
}
func prop_C21_language(e Encoder, msg []byte, k int) {
	vcReq(tpdu.SpecLang(msg, e.eopts))
	auxText(e, msg, k)
}
func prop_C21_ucs2(e Encoder, msg []byte, k int) {
	vcReq(!tpdu.SpecPlain(msg) && !tpdu.SpecLang(msg, e.eopts))
	auxText(e, msg, k)
}

// what matters of the encoded text here is its size
func wkn_prop_C21_plain__EncodeUserData(msg []byte, options []tpdu.UDEncodeOption, ud tpdu.UserData, udh tpdu.UserDataHeader, alpha tpdu.Alphabet) bool {
	return len(ud) <= 4*len(msg) && udh == nil && alpha == tpdu.Alpha7Bit
}
func wkn_prop_C21_language__EncodeUserData(msg []byte, options []tpdu.UDEncodeOption, ud tpdu.UserData, udh tpdu.UserDataHeader, alpha tpdu.Alphabet) bool {
	return len(ud) <= 4*len(msg) && alpha == tpdu.Alpha7Bit && 1 <= len(udh) && len(udh) <= 2 && vcForall(0, len(udh), func(i int) bool { return len(udh[i].Data) == 1 && udh[i].ID >= 24 })
}
func wkn_prop_C21_ucs2__EncodeUserData(msg []byte, options []tpdu.UDEncodeOption, ud tpdu.UserData, udh tpdu.UserDataHeader, alpha tpdu.Alphabet) bool {
	return len(ud) <= 4*len(msg) && len(ud)%2 == 0 && alpha == tpdu.AlphaUCS2 && udh == nil
}

// ---- the choice of alphabet and tables, as it shows in the TPDUs ----

func auxChoice(e Encoder, msg []byte, k int) (tpdu.UserDataHeader, tpdu.Alphabet) {
	e.sopts, e.pdu.UDH = nil, nil
	vcReq(tpdu.SpecAlpha(e.pdu.DCS) == tpdu.Alpha7Bit)
	vcReq(len(msg) <= 1<<28 && spec_counters(&e) && spec_textRoom(&e.pdu) && spec_options(e.eopts))
	r, err := e.Encode(msg)
	vcReq(err == nil && 0 <= k && k < len(r))
	u, d := r[k].UDH, r[k].DCS
	if len(r) > 1 {
		u = u[:len(u)-1]
	}
	return u, tpdu.SpecAlpha(d)
}
func prop_C26_plain(e Encoder, msg []byte, k int) {
	vcReq(tpdu.SpecPlain(msg))
	u, a := auxChoice(e, msg, k)
	vcAssert(a == tpdu.Alpha7Bit && len(u) == 0)
}
func prop_C26_ucs2(e Encoder, msg []byte, k int) {
	vcReq(!tpdu.SpecPlain(msg) && !tpdu.SpecLang(msg, e.eopts))
	u, a := auxChoice(e, msg, k)
	vcAssert(a == tpdu.AlphaUCS2 && len(u) == 0)
}
func spec_tables(msg []byte, options []tpdu.UDEncodeOption, u tpdu.UserDataHeader) bool {
	n, id, l := tpdu.SpecTables(msg, options)
	if len(u) != n || u[0].ID != id || len(u[0].Data) != 1 || int(u[0].Data[0]) != l {
		return false
	}
	return n == 1 || u[1].ID == 24 && len(u[1].Data) == 1 && int(u[1].Data[0]) == l
}
func prop_C26_language(e Encoder, msg []byte, k int) {
	vcReq(tpdu.SpecLang(msg, e.eopts))
	o := e.eopts
	u, a := auxChoice(e, msg, k)
	vcAssert(a == tpdu.Alpha7Bit)
	vcAssert(spec_tables(msg, o, u))
}
func wkn_prop_C26_plain__EncodeUserData(msg []byte, options []tpdu.UDEncodeOption, ud tpdu.UserData, udh tpdu.UserDataHeader, alpha tpdu.Alphabet) bool {
	return len(ud) <= 4*len(msg) && udh == nil && alpha == tpdu.Alpha7Bit
}
func wkn_prop_C26_ucs2__EncodeUserData(msg []byte, options []tpdu.UDEncodeOption, ud tpdu.UserData, udh tpdu.UserDataHeader, alpha tpdu.Alphabet) bool {
	return len(ud) <= 4*len(msg) && len(ud)%2 == 0 && alpha == tpdu.AlphaUCS2 && udh == nil
}
func wkn_prop_C26_language__EncodeUserData(msg []byte, options []tpdu.UDEncodeOption, ud tpdu.UserData, udh tpdu.UserDataHeader, alpha tpdu.Alphabet) bool {
	return len(ud) <= 4*len(msg) && alpha == tpdu.Alpha7Bit && 1 <= len(udh) && len(udh) <= 2 && vcForall(0, len(udh), func(i int) bool { return len(udh[i].Data) == 1 && udh[i].ID >= 24 }) &&
		spec_tables(msg, options, udh)
}

// vcCounter is any counter.
type vcCounter struct {
	v []int
	n int
}

func (c *vcCounter) Count() int {
	c.n++
	return c.v[(c.n-1)%len(c.v)]
}
func vcCalls(c tpdu.Counter) int       { return c.(*vcCounter).n }
func vcCall(c tpdu.Counter, i int) int { v := c.(*vcCounter).v; return v[i%len(v)] }
