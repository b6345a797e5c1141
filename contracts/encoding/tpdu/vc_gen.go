package tpdu

import (
	"time"

	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/internal/vcgen"
)

func gen_stamp(r *vcgen.R) Timestamp { return Timestamp{Time: r.Time()} }

// octets of a timestamp, mostly valid
func gen_stampOctets(r *vcgen.R) []byte {
	t := gen_stamp(r)
	b, err := t.MarshalBinary()
	if err != nil || r.Chance(4) {
		b = r.Bytes(12)
	}
	b = append(b, r.Bytes(4)...)
	if len(b) > 0 && r.Chance(4) {
		b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
	}
	if r.Chance(6) {
		b = b[:r.Intn(len(b)+1)]
	}
	return b
}

func gen_vpOctets(r *vcgen.R) ([]byte, ValidityPeriodFormat) {
	f := ValidityPeriodFormat(r.Intn(5))
	switch f {
	case VpfAbsolute:
		return gen_stampOctets(r), f
	case VpfEnhanced:
		b := make([]byte, 7+r.Intn(3))
		b[0] = r.Byte()
		b[1], b[2], b[3] = byte(r.Intn(10)<<4|r.Intn(10)), byte(r.Intn(10)<<4|r.Intn(6)), byte(r.Intn(10)<<4|r.Intn(6))
		if b[0]&7 < 3 {
			b[2], b[3] = 0, 0
		}
		if b[0]&7 == 0 {
			b[1] = 0
		}
		if r.Chance(5) {
			b[r.Intn(len(b))] = r.Byte()
		}
		if r.Chance(8) {
			b = b[:r.Intn(len(b)+1)]
		}
		return b, f
	}
	return r.Bytes(9), f
}

func gen_duration(r *vcgen.R) time.Duration {
	switch r.Intn(6) {
	case 0:
		return time.Duration(r.Intn(256)) * time.Second
	case 1:
		return time.Duration(r.Intn(100*3600)) * time.Second
	case 2:
		return spec_code(byte(r.Intn(256))) + time.Duration(r.Intn(3)-1)
	case 3:
		return time.Duration(r.Intn(64*7*24*60)) * time.Minute
	case 4:
		return time.Duration(r.Int63() >> uint(r.Intn(40)))
	}
	return time.Duration(r.Intn(3*24*60)) * time.Minute
}

func gen_vp(r *vcgen.R) ValidityPeriod {
	var v ValidityPeriod
	switch r.Intn(4) {
	case 0:
		v.SetAbsolute(gen_stamp(r))
	case 1:
		v.SetRelative(gen_duration(r))
	case 2:
		v.SetEnhanced(gen_duration(r), r.Byte())
		if r.Chance(2) {
			v.EFI &= 0xf8
			v.EFI |= byte(r.Intn(4))
		}
	}
	return v
}

func gen_C15_roundtrip(r *vcgen.R) []interface{} { return []interface{}{gen_stamp(r)} }
func gen_C15_zone(r *vcgen.R) []interface{}      { return []interface{}{gen_stamp(r)} }
func gen_Timestamp_MarshalBinary(r *vcgen.R) []interface{} {
	t := gen_stamp(r)
	return []interface{}{&t}
}
func gen_Timestamp_UnmarshalBinary(r *vcgen.R) []interface{} {
	return []interface{}{&Timestamp{}, gen_stampOctets(r)}
}
func gen_ValidityPeriod_MarshalBinary(r *vcgen.R) []interface{} {
	v := gen_vp(r)
	if r.Chance(10) {
		v.Duration = -v.Duration
	}
	if r.Chance(20) {
		v.Format = ValidityPeriodFormat(r.Byte())
	}
	return []interface{}{&v}
}
func gen_ValidityPeriod_UnmarshalBinary(r *vcgen.R) []interface{} {
	b, f := gen_vpOctets(r)
	return []interface{}{&ValidityPeriod{}, b, f}
}
func gen_durationToRelative(r *vcgen.R) []interface{} { return []interface{}{gen_duration(r)} }
func gen_C16_relative(r *vcgen.R) []interface{}       { return []interface{}{gen_duration(r)} }
func gen_C16_enhanced(r *vcgen.R) []interface{} {
	b, f := gen_vpOctets(r)
	return []interface{}{b, f}
}
func gen_C16_absolute(r *vcgen.R) []interface{} { return []interface{}{gen_stamp(r)} }
func gen_C16_seconds(r *vcgen.R) []interface{} {
	return []interface{}{r.Intn(r.Pick(256, 100*3600)), r.Byte()}
}

func gen_ie(r *vcgen.R, max int) InformationElement {
	ie := InformationElement{ID: byte(r.Pick(0, 0, 8, 8, 24, 25, 5, r.Intn(256)))}
	switch n := r.Intn(8); {
	case n < 2:
		ie.Data = r.BytesN(3)
	case n < 4:
		ie.Data = r.BytesN(4)
	case n < 6:
		ie.Data = r.BytesN(r.Intn(6))
	default:
		ie.Data = r.Bytes(max)
	}
	if (ie.ID == 24 || ie.ID == 25) && r.Chance(2) {
		ie.Data = []byte{byte(r.Intn(15))}
	}
	return ie
}

// a header of at most 255 octets
func gen_udh(r *vcgen.R) UserDataHeader {
	var u UserDataHeader
	n, left := r.Pick(0, 1, 1, 2, 2, 3, 4, r.Intn(30), r.Intn(128)), 255
	for i := 0; i < n && left >= 2; i++ {
		ie := gen_ie(r, left-2)
		if 2+len(ie.Data) > left || n > 10 && r.Chance(2) {
			ie.Data = nil
		}
		left -= 2 + len(ie.Data)
		u = append(u, ie)
	}
	if left > 0 && r.Chance(4) && len(u) > 0 && len(u[len(u)-1].Data)+left <= 255 {
		u[len(u)-1].Data = append(u[len(u)-1].Data, make([]byte, left)...)
	}
	return u
}

func gen_udhOctets(r *vcgen.R) []byte {
	b, _ := gen_udh(r).MarshalBinary()
	b = append([]byte(nil), b...)
	if len(b) > 0 && r.Chance(3) {
		b[r.Intn(len(b))] = r.Byte()
	}
	if len(b) > 0 && r.Chance(4) {
		b[0] += byte(r.Intn(5)) - 2
	}
	if r.Chance(4) {
		b = b[:r.Intn(len(b)+1)]
	} else {
		b = append(b, r.Bytes(5)...)
	}
	return b
}
func gen_udhID(r *vcgen.R) (UserDataHeader, byte) {
	u := gen_udh(r)
	id := r.Byte()
	if len(u) > 0 && !r.Chance(4) {
		id = u[r.Intn(len(u))].ID
	}
	return u, id
}
func gen_C17_roundtrip(r *vcgen.R) []interface{} { return []interface{}{gen_udh(r), r.Bytes(9)} }
func gen_UserDataHeader_UnmarshalBinary(r *vcgen.R) []interface{} {
	return []interface{}{&UserDataHeader{}, gen_udhOctets(r)}
}
func gen_UserDataHeader_UDHL(r *vcgen.R) []interface{}          { return []interface{}{gen_udh(r)} }
func gen_UserDataHeader_MarshalBinary(r *vcgen.R) []interface{} { return []interface{}{gen_udh(r)} }
func gen_UserDataHeader_ConcatInfo(r *vcgen.R) []interface{}    { return []interface{}{gen_udh(r)} }
func gen_UserDataHeader_ConcatInfo8(r *vcgen.R) []interface{}   { return []interface{}{gen_udh(r)} }
func gen_UserDataHeader_ConcatInfo16(r *vcgen.R) []interface{}  { return []interface{}{gen_udh(r)} }
func gen_UserDataHeader_IE(r *vcgen.R) []interface{} {
	u, id := gen_udhID(r)
	return []interface{}{u, id}
}
func gen_UserDataHeader_IEs(r *vcgen.R) []interface{} {
	u, id := gen_udhID(r)
	return []interface{}{u, id}
}

// an address, mostly valid
func gen_addr(r *vcgen.R) Address {
	var a Address
	a.TOA = r.Byte()
	switch r.Intn(8) {
	case 0, 1:
		a.TOA = 0x91
		a.Addr = r.Digits(20)
	case 2, 3:
		a.TOA = a.TOA&0x8f | byte(r.Pick(0, 1, 2, 3, 4, 6, 7))<<4
		a.Addr = r.Digits(r.Pick(20, 255))
	case 4, 5, 6:
		a.TOA = a.TOA&0x8f | 0x50
		n := r.Intn(r.Pick(12, 150))
		rs := make([]rune, n)
		for i := range rs {
			rs[i] = spec_gsm(r)
		}
		a.Addr = string(rs)
	default:
		a.Addr = r.Text(6)
	}
	return a
}

func spec_gsm(r *vcgen.R) rune {
	const t = "@\u00a3$\u00a5\u00e8\u00e9\u00f9\u00ec\u00f2\u00c7\n\u00d8\u00f8\r\u00c5\u00e5" +
		"\u0394_\u03a6\u0393\u039b\u03a9\u03a0\u03a8\u03a3\u0398\u039e\u00c6\u00e6\u00df\u00c9" +
		" !\"#\u00a4%&'()*+,-./0123456789:;<=>?\u00a1ABCDEFGHIJKLMNOPQRSTUVWXYZ\u00c4\u00d6\u00d1\u00dc\u00a7" +
		"\u00bfabcdefghijklmnopqrstuvwxyz\u00e4\u00f6\u00f1\u00fc\u00e0"
	rs := []rune(t)
	if r.Chance(200) {
		return r.Rune()
	}
	if r.Chance(4) {
		return '@'
	}
	return rs[r.Intn(len(rs))]
}

func gen_addrOctets(r *vcgen.R) []byte {
	a := gen_addr(r)
	b, err := a.MarshalBinary()
	if err != nil || r.Chance(10) {
		b = r.Bytes(20)
	}
	if len(b) > 0 && r.Chance(4) {
		b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
	}
	if r.Chance(5) {
		b = b[:r.Intn(len(b)+1)]
	} else {
		b = append(b, r.Bytes(5)...)
	}
	return b
}
func gen_Address_MarshalBinary(r *vcgen.R) []interface{} {
	a := gen_addr(r)
	return []interface{}{&a}
}
func gen_Address_UnmarshalBinary(r *vcgen.R) []interface{} {
	return []interface{}{&Address{}, gen_addrOctets(r)}
}
func gen_C14_encode(r *vcgen.R) []interface{} { return []interface{}{gen_addr(r), r.Bytes(5)} }
func gen_C14_decode(r *vcgen.R) []interface{} {
	a := gen_addr(r)
	b, _ := a.MarshalBinary()
	return []interface{}{a, append(append([]byte(nil), b...), r.Bytes(5)...)}
}
func gen_C14_number(r *vcgen.R) []interface{} {
	n := r.Digits(12)
	if r.Chance(2) {
		n = "+" + n
	}
	return []interface{}{gen_addr(r), n}
}

// a data coding scheme, header and data that mostly fit
func gen_ud(r *vcgen.R, t *TPDU) {
	t.DCS = DCS(r.Pick(0, 0, 4, 8, 0x11, 0xf1, 0xf5, 0xe0, 0xc8, r.Intn(256)))
	if r.Chance(2) {
		t.UDH = gen_udh(r)
		if r.Chance(2) {
			t.UDH = UserDataHeader{InformationElement{ID: 0, Data: r.BytesN(3)}}
		}
	}
	h := spec_udhLen(t.UDH)
	a, _ := spec_alphabet(byte(t.DCS))
	max := 255 - h
	if a == Alpha7Bit {
		max = 255 - (h*8+6)/7
	}
	if max <= 0 {
		max = 0
	}
	n := r.Pick(r.Intn(20), r.Intn(max+1), max)
	if n > max {
		n = max
	}
	if a == AlphaUCS2 && !r.Chance(10) {
		n &^= 1
	}
	if n > 0 || r.Chance(2) {
		t.UD = r.BytesN(n)
	}
	if a == Alpha7Bit {
		for i := range t.UD {
			t.UD[i] &= 0x7f
		}
		if r.Chance(3) && n > 0 {
			t.UD[n-1] = byte(r.Pick(0, 13, 64))
		}
	}
	t.FirstOctet &^= 0x40
	if len(t.UDH) > 0 {
		t.FirstOctet |= 0x40
	}
}

// a TPDU that mostly has a binary form
func gen_tpdu(r *vcgen.R, st SmsType) (TPDU, byte) {
	var t TPDU
	t.FirstOctet = FirstOctet(r.Byte())
	t.SetSmsType(st)
	t.FCS, t.MR, t.CT, t.MN, t.ST, t.PI, t.PID = r.Byte()|1, r.Byte(), r.Byte(), r.Byte(), r.Byte(), PI(r.Byte()), r.Byte()
	t.OA, t.DA, t.RA = gen_addr(r), gen_addr(r), gen_addr(r)
	t.SCTS, t.DT = gen_stamp(r), gen_stamp(r)
	gen_ud(r, &t)
	k := byte(r.Intn(256))
	if st == SmsSubmit {
		switch r.Intn(4) {
		case 0:
			t.VP.SetAbsolute(gen_stamp(r))
		case 1:
			t.VP.SetRelative(spec_code(k))
		case 2:
			t.VP.SetEnhanced(0, r.Byte()&0xf8|byte(r.Intn(4)))
			switch t.VP.EFI & 7 {
			case 1:
				t.VP.Duration = spec_code(k)
			case 2:
				t.VP.Duration = time.Duration(r.Intn(256)) * time.Second
			case 3:
				t.VP.Duration = time.Duration(r.Intn(100*3600)) * time.Second
			}
		}
		t.FirstOctet = t.FirstOctet&^0x18 | FirstOctet(t.VP.Format)<<3
	}
	if st == SmsDeliverReport || st == SmsSubmitReport || st == SmsStatusReport {
		if t.PI&1 == 0 {
			t.PID = 0
		}
		if t.PI&2 == 0 {
			t.DCS &^= 0xff
			for i := range t.UD {
				t.UD[i] &= 0x7f
			}
		}
		if t.PI&4 == 0 {
			t.UD, t.UDH = nil, nil
		}
		if r.Chance(6) {
			t.PI, t.PID, t.DCS, t.UD, t.UDH = 0, 0, 0, nil, nil
		}
	}
	return t, k
}

func gen_encode(r *vcgen.R, st SmsType) []interface{} {
	t, _ := gen_tpdu(r, st)
	return []interface{}{t}
}
func gen_decode(r *vcgen.R, st SmsType) []interface{} {
	t, _ := gen_tpdu(r, st)
	b, _ := t.MarshalBinary()
	return []interface{}{t, append([]byte(nil), b...)}
}
func gen_C02_encodeSubmit(r *vcgen.R) []interface{} {
	t, k := gen_tpdu(r, SmsSubmit)
	return []interface{}{t, k}
}
func gen_C02_decodeSubmit(r *vcgen.R) []interface{} {
	t, k := gen_tpdu(r, SmsSubmit)
	b, _ := t.MarshalBinary()
	return []interface{}{t, k, append([]byte(nil), b...)}
}
func gen_C02_encodeDeliver(r *vcgen.R) []interface{}       { return gen_encode(r, SmsDeliver) }
func gen_C02_decodeDeliver(r *vcgen.R) []interface{}       { return gen_decode(r, SmsDeliver) }
func gen_C02_encodeDeliverReport(r *vcgen.R) []interface{} { return gen_encode(r, SmsDeliverReport) }
func gen_C02_decodeDeliverReport(r *vcgen.R) []interface{} { return gen_decode(r, SmsDeliverReport) }
func gen_C02_encodeSubmitReport(r *vcgen.R) []interface{}  { return gen_encode(r, SmsSubmitReport) }
func gen_C02_decodeSubmitReport(r *vcgen.R) []interface{}  { return gen_decode(r, SmsSubmitReport) }
func gen_C02_encodeStatusReport(r *vcgen.R) []interface{}  { return gen_encode(r, SmsStatusReport) }
func gen_C02_decodeStatusReportBare(r *vcgen.R) []interface{} {
	return gen_decode(r, SmsStatusReport)
}
func gen_C02_decodeStatusReportShort(r *vcgen.R) []interface{} {
	return gen_decode(r, SmsStatusReport)
}
func gen_C02_decodeStatusReportPID(r *vcgen.R) []interface{} {
	return gen_decode(r, SmsStatusReport)
}
func gen_C02_decodeStatusReportNoPID(r *vcgen.R) []interface{} {
	return gen_decode(r, SmsStatusReport)
}
func gen_C02_encodeCommand(r *vcgen.R) []interface{} { return gen_encode(r, SmsCommand) }
func gen_C02_decodeCommand(r *vcgen.R) []interface{} { return gen_decode(r, SmsCommand) }
func gen_TPDU_encodeUserData(r *vcgen.R) []interface{} {
	t, _ := gen_tpdu(r, SmsSubmit)
	return []interface{}{&t}
}
func gen_TPDU_decodeUserData(r *vcgen.R) []interface{} {
	t, _ := gen_tpdu(r, SmsSubmit)
	b, _ := t.encodeUserData()
	b = append([]byte(nil), b...)
	if len(b) > 0 && r.Chance(3) {
		b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
	}
	if r.Chance(4) {
		b = b[:r.Intn(len(b)+1)]
	} else if r.Chance(4) {
		b = append(b, r.Bytes(3)...)
	}
	d := TPDU{FirstOctet: t.FirstOctet, DCS: t.DCS}
	return []interface{}{&d, b}
}

// a template with room for a character in each segment, and a message of up to about 5 segments
func gen_template(r *vcgen.R, a Alphabet) TPDU {
	t := TPDU{Direction: Direction(r.Intn(2)), FirstOctet: FirstOctet(r.Byte()) &^ 3, MR: r.Byte(), PID: r.Byte(), PI: PI(r.Byte())}
	if r.Chance(3) {
		t.FirstOctet |= FirstOctet(r.Intn(4))
	} else if t.Direction == MO {
		t.FirstOctet |= 1
	}
	if r.Chance(8) {
		t.FCS = r.Byte()
	}
	t.DCS = DCS([]byte{0, 4, 8}[a]) | DCS(r.Intn(4)) | DCS(r.Pick(0, 0, 0x10))
	t.DA.Addr, t.OA.Addr = r.Digits(12), r.Digits(12)
	if r.Chance(2) {
		u, left := UserDataHeader{}, r.Pick(20, 60, 125, 130)
		for r.Chance(2) && left > 3 {
			ie := gen_ie(r, left-3)
			ie.Data = ie.Data[:len(ie.Data)%(left-2)]
			left -= 2 + len(ie.Data)
			u = append(u, ie)
		}
		t.SetUDH(u)
		if r.Chance(3) {
			t.UDH = append(make(UserDataHeader, 0, len(u)+3), u...)
		}
	} else {
		t.FirstOctet &^= 0x40
	}
	return t
}

func gen_text(r *vcgen.R, t *TPDU, a Alphabet) []byte {
	h := t.UDHL()
	if h > 0 {
		h++
	}
	u, c := spec_size(a, spec_cap(t), h), spec_size(a, spec_cap(t), spec_grown(h, r.Pick(5, 6)))
	if c < 4 {
		c = 4
	}
	if u < 4 {
		u = 4
	}
	n := r.Pick(1, u-1, u, u+1, u+2, c, c*2, c*3, r.Intn(c*4), c*r.Intn(5)) + r.Pick(0, 0, -2, -1, 1, 2)
	if n < 1 {
		n = 1
	}
	if a == AlphaUCS2 {
		n += n % 2
	}
	b := r.BytesN(n)
	switch a {
	case Alpha7Bit:
		for i := range b {
			b[i] &= 0x7f
		}
		for i := c; i < n; i += c - r.Intn(2) {
			for k := r.Intn(4); k > 0 && i-k >= 0; k-- {
				b[i-k] = 0x1b
			}
		}
	case AlphaUCS2:
		for i := c / 2 * 2; i+1 < n; i += c/2*2 - 2*r.Intn(2) {
			b[i-2], b[i] = 0xd8|byte(r.Intn(4)), 0xdc|byte(r.Intn(4))
			if r.Chance(4) && i > 4 {
				b[i-4] = 0xd8
			}
		}
	}
	return b
}

func gen_counter(r *vcgen.R) Counter {
	c := &vcCounter{n: r.Intn(5)}
	for i := 0; i < 16; i++ {
		c.v = append(c.v, r.Pick(i, 255+i, int(r.Byte()), r.Intn(1<<20)))
	}
	return c
}
func gen_seg(r *vcgen.R, a Alphabet, refs bool) []interface{} {
	t := gen_template(r, a)
	m := gen_text(r, &t, a)
	if refs {
		return []interface{}{t, m, gen_counter(r), gen_counter(r), r.Intn(r.Pick(2, 2, 3, 5))}
	}
	return []interface{}{t, m, r.Intn(r.Pick(2, 2, 3, 5))}
}
func gen_fit(r *vcgen.R) (TPDU, []byte) {
	a := Alphabet(r.Intn(3))
	t := gen_template(r, a)
	return t, gen_text(r, &t, a)
}
func gen_C04_plain7(r *vcgen.R) []interface{} { return gen_seg(r, Alpha7Bit, false) }
func gen_C04_plain8(r *vcgen.R) []interface{} { return gen_seg(r, Alpha8Bit, false) }
func gen_C04_plainU(r *vcgen.R) []interface{} { return gen_seg(r, AlphaUCS2, false) }
func gen_C04_refs7(r *vcgen.R) []interface{}  { return gen_seg(r, Alpha7Bit, true) }
func gen_C04_refs8(r *vcgen.R) []interface{}  { return gen_seg(r, Alpha8Bit, true) }
func gen_C04_refsU(r *vcgen.R) []interface{}  { return gen_seg(r, AlphaUCS2, true) }
func gen_C04_wide7(r *vcgen.R) []interface{}  { return gen_seg(r, Alpha7Bit, true) }
func gen_C04_wide8(r *vcgen.R) []interface{}  { return gen_seg(r, Alpha8Bit, true) }
func gen_C04_wideU(r *vcgen.R) []interface{}  { return gen_seg(r, AlphaUCS2, true) }
func gen_C04_single(r *vcgen.R) []interface{} {
	t, m := gen_fit(r)
	return []interface{}{t, m}
}
func gen_C04_one(r *vcgen.R) []interface{} {
	t, m := gen_fit(r)
	return []interface{}{t, m, gen_counter(r), gen_counter(r)}
}
func gen_C04_none(r *vcgen.R) []interface{} {
	t, _ := gen_fit(r)
	return []interface{}{t, gen_counter(r), gen_counter(r)}
}
func gen_chunk7Bit(r *vcgen.R) []interface{} {
	return []interface{}{r.Septets(60), 2 + r.Intn(12)}
}
func gen_chunk8Bit(r *vcgen.R) []interface{} { return []interface{}{r.Bytes(60), 1 + r.Intn(12)} }
func gen_chunkUCS2(r *vcgen.R) []interface{} {
	b := r.Bytes(60)
	for i := range b {
		if i%2 == 0 && r.Chance(2) {
			b[i] = byte(0xd8 | r.Intn(8))
		}
	}
	return []interface{}{b, 4 + 2*r.Intn(6)}
}
func gen_chunk(r *vcgen.R) []interface{} {
	a := r.Intn(3)
	b := gen_chunkUCS2(r)
	return []interface{}{b[0], Alphabet(a), b[1]}
}
func gen_TPDU_UDBlockSize(r *vcgen.R) []interface{} {
	t := gen_template(r, Alphabet(r.Intn(3)))
	return []interface{}{&t}
}

// gen_udopts lists the tables, among others.
func gen_udopts(r *vcgen.R, tables ...int) []UDEncodeOption {
	list := func() []int {
		var l []int
		for n := r.Intn(4); n > 0; n-- {
			l = append(l, r.Intn(15))
		}
		return append(l, r.Pick(tables...))
	}
	var o []UDEncodeOption
	for n := r.Intn(4); n > 0; n-- {
		switch r.Intn(8) {
		case 0:
			o = append(o, WithAllCharsets)
		case 1, 2:
			o = append(o, WithLockingCharset(list()...))
		case 3, 4:
			o = append(o, WithShiftCharset(list()...))
		default:
			o = append(o, WithCharset(list()...))
		}
	}
	return o
}

func gen_EncodeUserData(r *vcgen.R) []interface{} {
	l, x := r.Intn(14), r.Intn(14)
	if r.Chance(2) {
		x = l
	}
	return []interface{}{gsm7.GenText(r, l, x), gen_udopts(r, l, x)}
}

// for the generators of other packages
func GenTemplate(r *vcgen.R, a Alphabet) TPDU             { return gen_template(r, a) }
func GenData(r *vcgen.R, t *TPDU, a Alphabet) []byte      { return gen_text(r, t, a) }
func GenUDOpts(r *vcgen.R, tables ...int) []UDEncodeOption { return gen_udopts(r, tables...) }
func GenTPDU(r *vcgen.R, st SmsType) (TPDU, byte)         { return gen_tpdu(r, st) }

// gen_octets are those of a TPDU of the type, now and then damaged.
func gen_octets(r *vcgen.R, st SmsType) []byte {
	t, _ := gen_tpdu(r, st)
	b, err := t.MarshalBinary()
	if err != nil {
		b = append([]byte{byte(t.FirstOctet)}, r.Bytes(40)...)
	}
	b = append([]byte(nil), b...)
	switch r.Intn(6) {
	case 0:
		b = b[:r.Intn(len(b)+1)]
	case 1:
		b = append(b, r.Bytes(3)...)
	case 2, 3:
		for n := 1 + r.Intn(2); n > 0; n-- {
			i := r.Intn(len(b))
			if i > 0 {
				b[i] = byte(r.Pick(int(r.Byte()), int(b[i])+1, int(b[i])-1))
			}
		}
	}
	return b
}
func gen_C25_submit(r *vcgen.R) []interface{} { return []interface{}{gen_octets(r, SmsSubmit)} }
func gen_C25_submitPart(r *vcgen.R) []interface{} {
	b := gen_octets(r, SmsSubmit)
	return []interface{}{b, len(b) - 1 - r.Intn(r.Pick(1, 3, len(b)+1))}
}
func gen_C25_deliver(r *vcgen.R) []interface{} { return []interface{}{gen_octets(r, SmsDeliver)} }
func gen_C25_deliverPart(r *vcgen.R) []interface{} {
	b := gen_octets(r, SmsDeliver)
	return []interface{}{b, len(b) - 1 - r.Intn(r.Pick(1, 3, len(b)+1))}
}
func gen_C25_deliverReport(r *vcgen.R) []interface{} {
	return []interface{}{gen_octets(r, SmsDeliverReport)}
}
func gen_C25_submitReport(r *vcgen.R) []interface{} {
	return []interface{}{gen_octets(r, SmsSubmitReport)}
}
func gen_C25_statusReport(r *vcgen.R) []interface{} {
	return []interface{}{gen_octets(r, SmsStatusReport)}
}
func gen_C25_command(r *vcgen.R) []interface{} { return []interface{}{gen_octets(r, SmsCommand)} }

// gen_read is an object to read into, and octets of the type.
func gen_read(r *vcgen.R, st SmsType) []interface{} {
	var t TPDU
	if r.Chance(2) {
		t, _ = gen_tpdu(r, SmsType(r.Intn(7)))
	}
	return []interface{}{t, gen_octets(r, st)}
}
func GenOctets(r *vcgen.R, st SmsType) []byte          { return gen_octets(r, st) }
func gen_C01_submit(r *vcgen.R) []interface{}        { return gen_read(r, SmsSubmit) }
func gen_C01_deliver(r *vcgen.R) []interface{}       { return gen_read(r, SmsDeliver) }
func gen_C01_deliverReport(r *vcgen.R) []interface{} { return gen_read(r, SmsDeliverReport) }
func gen_C01_submitReport(r *vcgen.R) []interface{}  { return gen_read(r, SmsSubmitReport) }
func gen_C01_statusReport(r *vcgen.R) []interface{}  { return gen_read(r, SmsStatusReport) }
func gen_C01_command(r *vcgen.R) []interface{}       { return gen_read(r, SmsCommand) }

// GenText is user data, its header, and its alphabet.
func GenText(r *vcgen.R) (UserData, UserDataHeader, Alphabet) {
	u := gen_udh(r)
	for n := r.Intn(3); n > 0; n-- {
		u = append(u, InformationElement{ID: byte(24 + r.Intn(2)), Data: []byte{byte(r.Intn(15))}[:r.Pick(1, 1, 1, 0)]})
	}
	a := Alphabet(r.Pick(0, 0, 1, 2, 3))
	var b []byte
	switch a {
	case Alpha7Bit:
		b = r.Septets(20)
		for n := r.Intn(3); n > 0 && len(b) > 0; n-- {
			b[r.Intn(len(b))] = 0x1b
		}
		if r.Chance(4) {
			b = append(b, 0x1b)
		}
	case AlphaUCS2:
		b = r.Bytes(20)
		for i := range b {
			if i%2 == 0 && r.Chance(2) {
				b[i] = byte(0xd8 | r.Intn(8))
			}
		}
	default:
		b = r.Bytes(20)
	}
	return b, u, a
}
func gen_C01_text(r *vcgen.R) []interface{} {
	b, u, a := GenText(r)
	return []interface{}{b, u, a}
}
func gen_C01_plainText(r *vcgen.R) []interface{} { return gen_C01_text(r) }
func gen_C01_someText(r *vcgen.R) []interface{} {
	return append(gen_C01_text(r), r.Intn(15), r.Intn(15))
}

// ---- what is only read: slices have room to spare ----

func gen_roomy(r *vcgen.R, t *TPDU) {
	if len(t.UDH) > 0 && r.Chance(2) {
		t.UDH = append(make(UserDataHeader, 0, len(t.UDH)+1+r.Intn(3)), t.UDH...)
	}
	if len(t.UD) > 0 && r.Chance(2) {
		t.UD = gen_room(r, t.UD)
	}
}
func gen_room(r *vcgen.R, b []byte) []byte {
	c := make([]byte, len(b)+r.Pick(0, 1, 2, 8, 200))
	copy(c, b)
	for i := len(b); i < len(c); i++ {
		c[i] = r.Byte()
	}
	return c[:len(b)]
}
func gen_cut(r *vcgen.R, a Alphabet) (TPDU, []byte) {
	t := gen_template(r, a)
	gen_roomy(r, &t)
	return t, gen_room(r, gen_text(r, &t, a))
}
func gen_C23_segment7(r *vcgen.R) []interface{} {
	t, m := gen_cut(r, Alpha7Bit)
	return []interface{}{t, m, gen_counter(r), gen_counter(r)}
}
func gen_C23_segment8(r *vcgen.R) []interface{} {
	t, m := gen_cut(r, Alpha8Bit)
	return []interface{}{t, m, gen_counter(r), gen_counter(r)}
}
func gen_C23_segmentU(r *vcgen.R) []interface{} {
	t, m := gen_cut(r, AlphaUCS2)
	return []interface{}{t, m, gen_counter(r), gen_counter(r)}
}
func gen_C23_headers(r *vcgen.R) []interface{} {
	t, m := gen_cut(r, Alphabet(r.Intn(3)))
	return []interface{}{t, m, r.Intn(4), r.Intn(4), InformationElement{ID: r.Byte(), Data: r.Bytes(3)}}
}
func gen_C23_header(r *vcgen.R) []interface{} {
	t, m := gen_cut(r, Alphabet(r.Intn(3)))
	if r.Chance(2) {
		m = m[:1+r.Intn(len(m))]
	}
	return []interface{}{t, m, InformationElement{ID: r.Byte(), Data: r.Bytes(3)}}
}
func gen_marshal(r *vcgen.R, st SmsType) []interface{} {
	t, _ := gen_tpdu(r, st)
	gen_roomy(r, &t)
	return []interface{}{t}
}
func gen_C23_marshalSubmit(r *vcgen.R) []interface{}        { return gen_marshal(r, SmsSubmit) }
func gen_C23_marshalDeliver(r *vcgen.R) []interface{}       { return gen_marshal(r, SmsDeliver) }
func gen_C23_marshalDeliverReport(r *vcgen.R) []interface{} { return gen_marshal(r, SmsDeliverReport) }
func gen_C23_marshalSubmitReport(r *vcgen.R) []interface{}  { return gen_marshal(r, SmsSubmitReport) }
func gen_C23_marshalStatusReport(r *vcgen.R) []interface{}  { return gen_marshal(r, SmsStatusReport) }
func gen_C23_marshalCommand(r *vcgen.R) []interface{}       { return gen_marshal(r, SmsCommand) }
func gen_reading(r *vcgen.R, st SmsType) []interface{} {
	g := gen_read(r, st)
	return []interface{}{gen_room(r, g[1].([]byte)), g[0]}
}
func gen_C23_submit(r *vcgen.R) []interface{}        { return gen_reading(r, SmsSubmit) }
func gen_C23_deliver(r *vcgen.R) []interface{}       { return gen_reading(r, SmsDeliver) }
func gen_C23_deliverReport(r *vcgen.R) []interface{} { return gen_reading(r, SmsDeliverReport) }
func gen_C23_submitReport(r *vcgen.R) []interface{}  { return gen_reading(r, SmsSubmitReport) }
func gen_C23_statusReport(r *vcgen.R) []interface{}  { return gen_reading(r, SmsStatusReport) }
func gen_C23_command(r *vcgen.R) []interface{}       { return gen_reading(r, SmsCommand) }
func gen_C23_text(r *vcgen.R) []interface{} {
	b, u, a := GenText(r)
	return []interface{}{gen_room(r, b), u, a}
}
func gen_C23_someText(r *vcgen.R) []interface{} {
	return append(gen_C23_text(r), r.Intn(15), r.Intn(15))
}
func GenRoom(r *vcgen.R, b []byte) []byte { return gen_room(r, b) }
func GenRoomy(r *vcgen.R, t *TPDU)        { gen_roomy(r, t) }
