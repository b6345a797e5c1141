package sms

import "github.com/warthog618/sms/encoding/tpdu"

// spec_part: the segment is number n of as many as there are, with the reference of the first.
func spec_part(segments []*tpdu.TPDU, i int) bool {
	u := segments[i].UDH
	return tpdu.SpecConcat(u) && tpdu.SpecSegments(u) == len(segments) && tpdu.SpecMref(u) == tpdu.SpecMref(segments[0].UDH) && tpdu.SpecSeqno(u) == i+1
}

// spec_complete: the segments are one complete message.
func spec_complete(segments []*tpdu.TPDU) bool {
	return len(segments) == 1 && !tpdu.SpecConcat(segments[0].UDH) ||
		len(segments) > 0 && vcForall(0, len(segments), func(i int) bool { return spec_part(segments, i) })
}

func spec_present(segments []*tpdu.TPDU) bool {
	return vcForall(0, len(segments), func(i int) bool { return segments[i] != nil })
}

func req_IsCompleteMessage(segments []*tpdu.TPDU) bool           { return spec_present(segments) }
func ens_IsCompleteMessage(segments []*tpdu.TPDU, ok bool) bool { return ok == spec_complete(segments) }
func inv_IsCompleteMessage_0(vck int, segments []*tpdu.TPDU) bool {
	return tpdu.SpecConcat(segments[0].UDH) && tpdu.SpecSegments(segments[0].UDH) == len(segments) && vcForall(0, vck, func(i int) bool { return spec_part(segments, i) })
}

// ---- any octets ----

func prop_C01_unmarshalMO(b []byte) {
	vcReq(len(b) <= 1<<40)
	t, err := Unmarshal(b, AsMO)
	vcAssert((t == nil) == (err != nil))
}
func prop_C01_unmarshalMT(b []byte) {
	vcReq(len(b) <= 1<<40)
	t, err := Unmarshal(b, AsMT)
	vcAssert((t == nil) == (err != nil))
}
func prop_C01_unmarshal(b []byte) {
	vcReq(len(b) <= 1<<40)
	t, err := Unmarshal(b)
	vcAssert((t == nil) == (err != nil))
}

// a message of one segment, whatever it holds
func prop_C01_decode(t tpdu.TPDU) {
	vcReq(len(t.UD) <= 1<<40)
	m, err := Decode([]*tpdu.TPDU{&t})
	vcAssert(err == nil || m == nil)
}
func prop_C01_decodeSome(t tpdu.TPDU, l, x int) {
	vcReq(len(t.UD) <= 1<<40)
	m, err := Decode([]*tpdu.TPDU{&t}, WithLockingCharset(l), WithShiftCharset(x))
	vcAssert(err == nil || m == nil)
}
