package sms

import "github.com/warthog618/sms/encoding/tpdu"

// ---- what is only read ----

func prop_C23_data(msg []byte, t tpdu.TPDU, mr, cr tpdu.Counter) {
	a := tpdu.SpecAlpha(t.DCS)
	e := Encoder{pdu: t, MsgCount: mr, ConcatRef: cr}
	vcReq(a == tpdu.Alpha8Bit || a == tpdu.AlphaUCS2)
	vcReq(len(msg) <= 1<<30 && (a != tpdu.AlphaUCS2 || len(msg)%2 == 0))
	vcReq(spec_counters(&e) && tpdu.SpecRoom(&e.pdu, a, e.pdu.UDH, 5))
	e.Encode(msg)
}

func auxReadText(msg []byte, t tpdu.TPDU, mr, cr tpdu.Counter, o []tpdu.UDEncodeOption) {
	e := Encoder{pdu: t, MsgCount: mr, ConcatRef: cr, eopts: o}
	vcReq(tpdu.SpecAlpha(e.pdu.DCS) == tpdu.Alpha7Bit)
	vcReq(len(msg) <= 1<<28 && spec_counters(&e) && spec_textRoom(&e.pdu) && spec_options(e.eopts))
	e.Encode(msg)
}
func prop_C23_plain(msg []byte, t tpdu.TPDU, mr, cr tpdu.Counter, o []tpdu.UDEncodeOption) {
	vcReq(tpdu.SpecPlain(msg))
	auxReadText(msg, t, mr, cr, o)
}
func prop_C23_language(msg []byte, t tpdu.TPDU, mr, cr tpdu.Counter, o []tpdu.UDEncodeOption) {
	vcReq(tpdu.SpecLang(msg, o))
	auxReadText(msg, t, mr, cr, o)
}
func prop_C23_ucs2(msg []byte, t tpdu.TPDU, mr, cr tpdu.Counter, o []tpdu.UDEncodeOption) {
	vcReq(!tpdu.SpecPlain(msg) && !tpdu.SpecLang(msg, o))
	auxReadText(msg, t, mr, cr, o)
}
func wkn_prop_C23_plain__EncodeUserData(msg []byte, options []tpdu.UDEncodeOption, ud tpdu.UserData, udh tpdu.UserDataHeader, alpha tpdu.Alphabet) bool {
	return wkn_prop_C21_plain__EncodeUserData(msg, options, ud, udh, alpha)
}
func wkn_prop_C23_language__EncodeUserData(msg []byte, options []tpdu.UDEncodeOption, ud tpdu.UserData, udh tpdu.UserDataHeader, alpha tpdu.Alphabet) bool {
	return wkn_prop_C21_language__EncodeUserData(msg, options, ud, udh, alpha)
}
func wkn_prop_C23_ucs2__EncodeUserData(msg []byte, options []tpdu.UDEncodeOption, ud tpdu.UserData, udh tpdu.UserDataHeader, alpha tpdu.Alphabet) bool {
	return wkn_prop_C21_ucs2__EncodeUserData(msg, options, ud, udh, alpha)
}

func prop_C23_unmarshalMO(b []byte) {
	vcReq(len(b) <= 1<<40)
	Unmarshal(b, AsMO)
}
func prop_C23_unmarshal(b []byte) {
	vcReq(len(b) <= 1<<40)
	Unmarshal(b)
}
func prop_C23_decode(t tpdu.TPDU) {
	vcReq(len(t.UD) <= 1<<40)
	Decode([]*tpdu.TPDU{&t})
}
// the first may end within a character
func prop_C23_decodeTwo(t, u tpdu.TPDU) {
	vcReq(len(t.UD) <= 1<<40 && len(u.UD) <= 1<<40)
	vcReq(tpdu.SpecAlpha(t.DCS) == tpdu.AlphaUCS2 && tpdu.SpecAlpha(u.DCS) == tpdu.AlphaUCS2)
	Decode([]*tpdu.TPDU{&t, &u})
}
func prop_C23_complete(t, u tpdu.TPDU) {
	IsCompleteMessage([]*tpdu.TPDU{&t, &u})
}
