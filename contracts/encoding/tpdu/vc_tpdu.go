package tpdu

import "time"

// ---- values that fit their encodings ----

// spec_goodTime: a time between 1970 and 2069 in a zone of whole quarter hours.
func spec_goodTime(t time.Time) bool {
	_, z := t.Zone()
	return t.Year() >= 1970 && t.Year() <= 2069 && z%900 == 0 && z >= -79*900 && z <= 79*900
}

// spec_sameTime: the same date, time of day and zone, to the second.
func spec_sameTime(t, u time.Time) bool {
	_, z := t.Zone()
	_, uz := u.Zone()
	return u.Year() == t.Year() && u.Month() == t.Month() && u.Day() == t.Day() &&
		u.Hour() == t.Hour() && u.Minute() == t.Minute() && u.Second() == t.Second() && uz == z
}

// lem_stamp: a time that fits its binary form is found in it.
func lem_stamp(t time.Time, b []byte, n int) {
	vcAssert(b[6]>>4 <= 9)
	vcAssert(spec_century(spec_unbcd(b[0])) == t.Year())
}
func req_lem_stamp(t time.Time, b []byte, n int) bool {
	return n == 0 && spec_goodTime(t) && spec_stamp(t, b)
}
func ens_lem_stamp(t time.Time, b []byte, n int) bool { return spec_stampDigits(b) && spec_calendar(b) }

// lem_stampSame: and it is the same.
func lem_stampSame(t, u time.Time, b []byte, n int) {
	lem_stamp(t, b, 0)
	vcAssert(spec_century(spec_unbcd(b[0])) == t.Year())
}
func req_lem_stampSame(t, u time.Time, b []byte, n int) bool {
	return req_lem_stamp(t, b, n) && spec_isStamp(u, b)
}
func ens_lem_stampSame(t, u time.Time, b []byte, n int) bool { return spec_sameTime(t, u) }

// spec_goodVP: the validity period can be represented; k is the octet of a relative one.
func spec_goodVP(v ValidityPeriod, k byte) bool {
	switch v.Format {
	case VpfNotPresent:
		return true
	case VpfAbsolute:
		return spec_goodTime(v.Time.Time)
	case VpfRelative:
		return v.Duration == spec_code(k)
	case VpfEnhanced:
		s := int(v.Duration / time.Second)
		switch v.EFI & 7 {
		case 0:
			return v.Duration == 0
		case 1:
			return v.Duration == spec_code(k)
		case 2:
			return v.Duration%time.Second == 0 && s >= 0 && s <= 255
		case 3:
			return v.Duration%time.Second == 0 && s >= 0 && s < 100*3600
		}
	}
	return false
}

func spec_sameVP(v, w ValidityPeriod) bool {
	if v.Format != w.Format {
		return false
	}
	switch v.Format {
	case VpfAbsolute:
		return spec_sameTime(v.Time.Time, w.Time.Time)
	case VpfRelative:
		return v.Duration == w.Duration
	case VpfEnhanced:
		return v.EFI == w.EFI && v.Duration == w.Duration
	}
	return true
}

// spec_vpAt: b is the binary form of a representable period.
func spec_vpAt(v ValidityPeriod, b []byte) bool {
	switch v.Format {
	case VpfAbsolute:
		return spec_stamp(v.Time.Time, b)
	case VpfEnhanced:
		return spec_enhanced(v.EFI, v.Duration, b)
	case VpfRelative:
		return len(b) == 1 && ens_durationToRelative(v.Duration, b[0])
	}
	return len(b) == 0
}

// lem_code: the code of a duration that has one is that code.
func lem_code(k, c byte, n int) {}
func req_lem_code(k, c byte, n int) bool { return n == 0 && ens_durationToRelative(spec_code(k), c) }
func ens_lem_code(k, c byte, n int) bool { return k == c }

// lem_hms: hours, minutes and seconds make up the seconds.
func lem_hms(s, n int) {
	vcAssert(s/60 == s/3600*60+s/60%60)
}
func req_lem_hms(s, n int) bool { return n == 0 && s >= 0 && s < 100*3600 }
func ens_lem_hms(s, n int) bool {
	return s/3600%100 == s/3600 && s/3600*3600+s/60%60*60+s%60 == s
}

// lem_vp: a representable period is found in its binary form.
func lem_vp(v ValidityPeriod, k byte, b []byte, n int) {
	if v.Format == VpfRelative {
		lem_code(k, b[0], 0)
	}
	if v.Format == VpfEnhanced {
		if v.EFI&7 == 1 {
			lem_code(k, b[1], 0)
		}
		if v.EFI&7 == 3 {
			lem_hms(int(v.Duration/time.Second), 0)
		}
	}
}
func req_lem_vp(v ValidityPeriod, k byte, b []byte, n int) bool {
	return n == 0 && spec_goodVP(v, k) && spec_vpAt(v, b)
}
func ens_lem_vp(v ValidityPeriod, k byte, b []byte, n int) bool {
	return spec_vpOK(b, v.Format) && len(b) == spec_vpUsed(v.Format)
}

// lem_vpSame: and it is the same.
func lem_vpSame(v, w ValidityPeriod, k byte, b []byte, n int) {
	lem_vp(v, k, b, 0)
	if v.Format == VpfRelative {
		lem_code(k, b[0], 0)
	}
	if v.Format == VpfEnhanced {
		if v.EFI&7 == 1 {
			lem_code(k, b[1], 0)
		}
		if v.EFI&7 == 3 {
			lem_hms(int(v.Duration/time.Second), 0)
		}
	}
}
func req_lem_vpSame(v, w ValidityPeriod, k byte, b []byte, n int) bool {
	return req_lem_vp(v, k, b, n) && spec_vpIs(&w, b, v.Format)
}
func ens_lem_vpSame(v, w ValidityPeriod, k byte, b []byte, n int) bool { return spec_sameVP(v, w) }

// spec_goodUD: the user data fits its field, and the indicator says whether there is a header.
func spec_goodUD(t *TPDU) bool {
	return spec_alphaOK(t.DCS) && spec_udOK(spec_alpha2(t.DCS), t.UDH, t.UD) && (spec_alpha2(t.DCS) != Alpha7Bit || spec_septets(t.UD)) &&
		(t.FirstOctet>>6&1 == 1) == (len(t.UDH) > 0)
}
func spec_sameUD(t, d *TPDU) bool { return spec_sameUDH(t.UDH, d.UDH) && vcEq(t.UD, d.UD) }

// spec_addrUsed is the number of octets of an address of l semi-octets.
func spec_addrUsed(l int) int { return 2 + (l+1)/2 }

// ---- SUBMIT ----

func spec_submit(t *TPDU, k byte) bool {
	return t.Direction == MO && t.FirstOctet&3 == 1 && spec_goodAddr(t.DA) && spec_goodVP(t.VP, k) &&
		int(t.VP.Format) == int(t.FirstOctet>>3&3) && spec_goodUD(t)
}

func spec_submitAt(b []byte, t *TPDU, o int) bool {
	v := spec_vpUsed(t.VP.Format)
	return len(b) > o+2+v && b[0] == byte(t.FirstOctet) && b[1] == t.MR && spec_addrAt(b[2:], 0, t.DA) &&
		b[o] == t.PID && b[o+1] == byte(t.DCS) && spec_vpAt(t.VP, b[o+2:o+2+v]) && spec_udAt(b[o+2+v:], spec_alpha2(t.DCS), t.UDH, t.UD)
}

func prop_C02_encodeSubmit(t0 TPDU, k byte) {
	t := &t0
	vcReq(spec_submit(t, k))
	b, err := t.MarshalBinary()
	vcAssert(err == nil)
	vcAssert(len(b) > 2 && int(b[2]) == spec_addrLen(t.DA))
	o := 2 + spec_addrUsed(spec_addrLen(t.DA))
	v := spec_vpUsed(t.VP.Format)
	vcAssert(len(b) > o+2+v && b[0] == byte(t.FirstOctet) && b[1] == t.MR)
	vcAssert(spec_addrAt(b[2:], 0, t.DA))
	vcAssert(b[o] == t.PID && b[o+1] == byte(t.DCS))
	vcAssert(spec_vpAt(t.VP, b[o+2:o+2+v]))
	vcAssert(spec_udAt(b[o+2+v:], spec_alpha2(t.DCS), t.UDH, t.UD))
}

func prop_C02_decodeSubmit(t0 TPDU, k byte, b []byte) {
	t := &t0
	vcReq(spec_submit(t, k))
	lem_udhl(t.UDH, 0, len(t.UDH))
	vcReq(len(b) > 2)
	o := 2 + spec_addrUsed(int(b[2]))
	vcReq(spec_submitAt(b, t, o))
	v := 0
	if t.VP.Format == VpfRelative {
		v = 1
	}
	if t.VP.Format == VpfAbsolute || t.VP.Format == VpfEnhanced {
		v = 7
	}
	c := b[2:]
	lem_addr(c, 0, t.DA, 0)
	p := b[o+2 : o+2+v]
	lem_vp(t.VP, k, p, 0)
	u := b[o+2+v:]
	lem_udRight(u, t.DCS, b[0]>>6&1 == 1, t.UDH, t.UD, 0)
	var d0 TPDU
	d := &d0
	d.Direction = MO
	err := d.UnmarshalBinary(b)
	vcAssert(err == nil)
	vcAssert(d.FirstOctet == t.FirstOctet && d.MR == t.MR && d.PID == t.PID && d.DCS == t.DCS)
	lem_addrSame(c, 0, t.DA, d.DA, 0)
	vcAssert(spec_sameAddr(t.DA, d.DA))
	lem_vpSame(t.VP, d.VP, k, p, 0)
	vcAssert(spec_sameVP(t.VP, d.VP))
	lem_udFound(u, d.DCS, b[0]>>6&1 == 1, t.UDH, d.UDH, t.UD, d.UD, 0)
	vcAssert(spec_sameUD(t, d))
}

// ---- DELIVER ----

func spec_deliver(t *TPDU) bool {
	return t.Direction == MT && t.FirstOctet&3 == 0 && spec_goodAddr(t.OA) && spec_goodTime(t.SCTS.Time) && spec_goodUD(t)
}

func spec_deliverAt(b []byte, t *TPDU, o int) bool {
	return len(b) > o+9 && b[0] == byte(t.FirstOctet) && spec_addrAt(b[1:], 0, t.OA) &&
		b[o] == t.PID && b[o+1] == byte(t.DCS) && spec_stamp(t.SCTS.Time, b[o+2:o+9]) && spec_udAt(b[o+9:], spec_alpha2(t.DCS), t.UDH, t.UD)
}

func prop_C02_encodeDeliver(t0 TPDU) {
	t := &t0
	vcReq(spec_deliver(t))
	b, err := t.MarshalBinary()
	vcAssert(err == nil)
	vcAssert(len(b) > 1 && int(b[1]) == spec_addrLen(t.OA))
	o := 1 + spec_addrUsed(spec_addrLen(t.OA))
	vcAssert(len(b) > o+9 && b[0] == byte(t.FirstOctet))
	vcAssert(spec_addrAt(b[1:], 0, t.OA))
	vcAssert(b[o] == t.PID && b[o+1] == byte(t.DCS))
	vcAssert(spec_stamp(t.SCTS.Time, b[o+2:o+9]))
	vcAssert(spec_udAt(b[o+9:], spec_alpha2(t.DCS), t.UDH, t.UD))
}

func prop_C02_decodeDeliver(t0 TPDU, b []byte) {
	t := &t0
	vcReq(spec_deliver(t))
	lem_udhl(t.UDH, 0, len(t.UDH))
	vcReq(len(b) > 1)
	o := 1 + spec_addrUsed(int(b[1]))
	vcReq(spec_deliverAt(b, t, o))
	c := b[1:]
	lem_addr(c, 0, t.OA, 0)
	p := b[o+2 : o+9]
	lem_stamp(t.SCTS.Time, p, 0)
	u := b[o+9:]
	lem_udRight(u, t.DCS, b[0]>>6&1 == 1, t.UDH, t.UD, 0)
	var d0 TPDU
	d := &d0
	d.Direction = MT
	err := d.UnmarshalBinary(b)
	vcAssert(err == nil)
	vcAssert(d.FirstOctet == t.FirstOctet && d.PID == t.PID && d.DCS == t.DCS)
	lem_addrSame(c, 0, t.OA, d.OA, 0)
	vcAssert(spec_sameAddr(t.OA, d.OA))
	lem_stampSame(t.SCTS.Time, d.SCTS.Time, p, 0)
	vcAssert(spec_sameTime(t.SCTS.Time, d.SCTS.Time))
	lem_udFound(u, d.DCS, b[0]>>6&1 == 1, t.UDH, d.UDH, t.UD, d.UD, 0)
	vcAssert(spec_sameUD(t, d))
}

// ---- the parameter indicator ----

// spec_goodPI: what the indicator leaves out is absent.
func spec_goodPI(t *TPDU) bool {
	return (t.PI&1 != 0 || t.PID == 0) && (t.PI&2 != 0 || t.DCS == 0) &&
		(t.PI&4 != 0 && spec_goodUD(t) || t.PI&4 == 0 && len(t.UDH) == 0 && len(t.UD) == 0)
}

// spec_piUsed is the number of octets of the fields that the indicator states, before the user data.
func spec_piUsed(p PI) int {
	n := 0
	if p&1 != 0 {
		n++
	}
	if p&2 != 0 {
		n++
	}
	return n
}

// spec_piAt: b holds the fields that the indicator states, and nothing else.
func spec_piAt(b []byte, t *TPDU) bool {
	n := spec_piUsed(t.PI)
	if len(b) < n || t.PI&1 != 0 && b[0] != t.PID || t.PI&2 != 0 && b[n-1] != byte(t.DCS) {
		return false
	}
	if t.PI&4 != 0 {
		return len(b) > n && spec_udAt(b[n:], spec_alpha2(t.DCS), t.UDH, t.UD)
	}
	return len(b) == n
}

// ---- DELIVER-REPORT ----

func spec_deliverReport(t *TPDU) bool {
	return t.Direction == MO && t.FirstOctet&3 == 0 && t.FCS != 0 && spec_goodPI(t)
}

func spec_deliverReportAt(b []byte, t *TPDU) bool {
	return len(b) >= 3 && b[0] == byte(t.FirstOctet) && b[1] == t.FCS && b[2] == byte(t.PI) && spec_piAt(b[3:], t)
}

func prop_C02_encodeDeliverReport(t0 TPDU) {
	t := &t0
	vcReq(spec_deliverReport(t))
	b, err := t.MarshalBinary()
	vcAssert(err == nil)
	vcAssert(len(b) >= 3 && b[0] == byte(t.FirstOctet) && b[1] == t.FCS && b[2] == byte(t.PI))
	vcAssert(spec_piAt(b[3:], t))
}

func prop_C02_decodeDeliverReport(t0 TPDU, b []byte) {
	t := &t0
	vcReq(spec_deliverReport(t))
	lem_udhl(t.UDH, 0, len(t.UDH))
	vcReq(spec_deliverReportAt(b, t))
	n := 3
	if t.PI&1 != 0 {
		n++
	}
	if t.PI&2 != 0 {
		n++
	}
	u := b[n:]
	if t.PI&4 != 0 {
		lem_udRight(u, t.DCS, b[0]>>6&1 == 1, t.UDH, t.UD, 0)
	}
	var d0 TPDU
	d := &d0
	d.Direction = MO
	err := d.UnmarshalBinary(b)
	vcAssert(err == nil)
	vcAssert(d.FirstOctet == t.FirstOctet && d.FCS == t.FCS && d.PI == t.PI && d.PID == t.PID && d.DCS == t.DCS)
	if t.PI&4 != 0 {
		lem_udFound(u, d.DCS, b[0]>>6&1 == 1, t.UDH, d.UDH, t.UD, d.UD, 0)
	}
	vcAssert(spec_sameUD(t, d))
}

// ---- SUBMIT-REPORT ----

func spec_submitReport(t *TPDU) bool {
	return t.Direction == MT && t.FirstOctet&3 == 1 && t.FCS != 0 && spec_goodTime(t.SCTS.Time) && spec_goodPI(t)
}

func spec_submitReportAt(b []byte, t *TPDU) bool {
	return len(b) >= 10 && b[0] == byte(t.FirstOctet) && b[1] == t.FCS && b[2] == byte(t.PI) && spec_stamp(t.SCTS.Time, b[3:10]) && spec_piAt(b[10:], t)
}

func prop_C02_encodeSubmitReport(t0 TPDU) {
	t := &t0
	vcReq(spec_submitReport(t))
	b, err := t.MarshalBinary()
	vcAssert(err == nil)
	vcAssert(len(b) >= 10 && b[0] == byte(t.FirstOctet) && b[1] == t.FCS && b[2] == byte(t.PI))
	vcAssert(spec_stamp(t.SCTS.Time, b[3:10]))
	vcAssert(spec_piAt(b[10:], t))
}

func prop_C02_decodeSubmitReport(t0 TPDU, b []byte) {
	t := &t0
	vcReq(spec_submitReport(t))
	lem_udhl(t.UDH, 0, len(t.UDH))
	vcReq(spec_submitReportAt(b, t))
	p := b[3:10]
	lem_stamp(t.SCTS.Time, p, 0)
	n := 10
	if t.PI&1 != 0 {
		n++
	}
	if t.PI&2 != 0 {
		n++
	}
	u := b[n:]
	if t.PI&4 != 0 {
		lem_udRight(u, t.DCS, b[0]>>6&1 == 1, t.UDH, t.UD, 0)
	}
	var d0 TPDU
	d := &d0
	d.Direction = MT
	err := d.UnmarshalBinary(b)
	vcAssert(err == nil)
	vcAssert(d.FirstOctet == t.FirstOctet && d.FCS == t.FCS && d.PI == t.PI && d.PID == t.PID && d.DCS == t.DCS)
	lem_stampSame(t.SCTS.Time, d.SCTS.Time, p, 0)
	vcAssert(spec_sameTime(t.SCTS.Time, d.SCTS.Time))
	if t.PI&4 != 0 {
		lem_udFound(u, d.DCS, b[0]>>6&1 == 1, t.UDH, d.UDH, t.UD, d.UD, 0)
	}
	vcAssert(spec_sameUD(t, d))
}

// ---- STATUS-REPORT ----

func spec_statusReport(t *TPDU) bool {
	return t.Direction == MT && t.FirstOctet&3 == 2 && spec_goodAddr(t.RA) && spec_goodTime(t.SCTS.Time) && spec_goodTime(t.DT.Time) && spec_goodPI(t)
}

func spec_statusReportAt(b []byte, t *TPDU, o int) bool {
	if len(b) < o+15 || b[0] != byte(t.FirstOctet) || b[1] != t.MR || !spec_addrAt(b[2:], 0, t.RA) ||
		!spec_stamp(t.SCTS.Time, b[o:o+7]) || !spec_stamp(t.DT.Time, b[o+7:o+14]) || b[o+14] != t.ST {
		return false
	}
	if t.PI == 0 {
		return len(b) == o+15
	}
	return len(b) > o+15 && b[o+15] == byte(t.PI) && spec_piAt(b[o+16:], t)
}

func prop_C02_encodeStatusReport(t0 TPDU) {
	t := &t0
	vcReq(spec_statusReport(t))
	b, err := t.MarshalBinary()
	vcAssert(err == nil)
	vcAssert(len(b) > 2 && int(b[2]) == spec_addrLen(t.RA))
	o := 2 + spec_addrUsed(spec_addrLen(t.RA))
	vcAssert(len(b) >= o+15 && b[0] == byte(t.FirstOctet) && b[1] == t.MR)
	vcAssert(spec_addrAt(b[2:], 0, t.RA))
	vcAssert(spec_stamp(t.SCTS.Time, b[o:o+7]))
	vcAssert(spec_stamp(t.DT.Time, b[o+7:o+14]))
	vcAssert(b[o+14] == t.ST)
	if t.PI == 0 {
		vcAssert(len(b) == o+15)
		return
	}
	vcAssert(len(b) > o+15 && b[o+15] == byte(t.PI))
	vcAssert(spec_piAt(b[o+16:], t))
}

// the parameter indicator is absent
func prop_C02_decodeStatusReportBare(t0 TPDU, b []byte) {
	vcReq(t0.PI == 0)
	auxStatusReport(t0, b)
}

// without user data
func prop_C02_decodeStatusReportShort(t0 TPDU, b []byte) {
	vcReq(t0.PI != 0 && t0.PI&4 == 0)
	auxStatusReport(t0, b)
}

func prop_C02_decodeStatusReportPID(t0 TPDU, b []byte) {
	vcReq(t0.PI&4 != 0 && t0.PI&1 != 0)
	auxStatusReport(t0, b)
}

func prop_C02_decodeStatusReportNoPID(t0 TPDU, b []byte) {
	vcReq(t0.PI&4 != 0 && t0.PI&1 == 0)
	auxStatusReport(t0, b)
}

func auxStatusReport(t0 TPDU, b []byte) {
	t := &t0
	vcReq(spec_statusReport(t))
	lem_udhl(t.UDH, 0, len(t.UDH))
	vcReq(len(b) > 2)
	o := 2 + spec_addrUsed(int(b[2]))
	vcReq(spec_statusReportAt(b, t, o))
	c := b[2:]
	lem_addr(c, 0, t.RA, 0)
	p := b[o : o+7]
	lem_stamp(t.SCTS.Time, p, 0)
	q := b[o+7 : o+14]
	lem_stamp(t.DT.Time, q, 0)
	n := o + 16
	if t.PI&1 != 0 {
		n++
	}
	if t.PI&2 != 0 {
		n++
	}
	if t.PI&4 != 0 {
		lem_udRight(b[n:], t.DCS, b[0]>>6&1 == 1, t.UDH, t.UD, 0)
	}
	var d0 TPDU
	d := &d0
	d.Direction = MT
	err := d.UnmarshalBinary(b)
	vcAssert(err == nil)
	vcAssert(d.FirstOctet == t.FirstOctet && d.MR == t.MR && d.ST == t.ST && d.PI == t.PI && d.PID == t.PID && d.DCS == t.DCS)
	lem_addrSame(c, 0, t.RA, d.RA, 0)
	vcAssert(spec_sameAddr(t.RA, d.RA))
	lem_stampSame(t.SCTS.Time, d.SCTS.Time, p, 0)
	vcAssert(spec_sameTime(t.SCTS.Time, d.SCTS.Time))
	lem_stampSame(t.DT.Time, d.DT.Time, q, 0)
	vcAssert(spec_sameTime(t.DT.Time, d.DT.Time))
	if t.PI&4 != 0 {
		u := b[n:]
		lem_udFound(u, d.DCS, b[0]>>6&1 == 1, t.UDH, d.UDH, t.UD, d.UD, 0)
	}
	vcAssert(spec_sameUD(t, d))
}

// ---- COMMAND ----

func spec_command(t *TPDU) bool {
	return t.Direction == MO && t.FirstOctet&3 == 2 && spec_goodAddr(t.DA) && spec_udOK(Alpha8Bit, t.UDH, t.UD) &&
		(t.FirstOctet>>6&1 == 1) == (len(t.UDH) > 0)
}

func spec_commandAt(b []byte, t *TPDU, o int) bool {
	return len(b) > o && b[0] == byte(t.FirstOctet) && b[1] == t.MR && b[2] == t.PID && b[3] == t.CT && b[4] == t.MN &&
		spec_addrAt(b[5:], 0, t.DA) && spec_udAt(b[o:], Alpha8Bit, t.UDH, t.UD)
}

func prop_C02_encodeCommand(t0 TPDU) {
	t := &t0
	vcReq(spec_command(t))
	lem_udhl(t.UDH, 0, len(t.UDH))
	b, err := t.MarshalBinary()
	vcAssert(err == nil)
	vcAssert(len(b) > 5 && int(b[5]) == spec_addrLen(t.DA))
	o := 5 + spec_addrUsed(spec_addrLen(t.DA))
	vcAssert(len(b) > o && b[0] == byte(t.FirstOctet) && b[1] == t.MR && b[2] == t.PID && b[3] == t.CT && b[4] == t.MN)
	vcAssert(spec_addrAt(b[5:], 0, t.DA))
	vcAssert(spec_udAt(b[o:], Alpha8Bit, t.UDH, t.UD))
}

func prop_C02_decodeCommand(t0 TPDU, b []byte) {
	t := &t0
	vcReq(spec_command(t))
	lem_udhl(t.UDH, 0, len(t.UDH))
	vcReq(len(b) > 5)
	o := 5 + spec_addrUsed(int(b[5]))
	vcReq(spec_commandAt(b, t, o))
	c := b[5:]
	lem_addr(c, 0, t.DA, 0)
	u := b[o:]
	lem_udRight(u, Dcs8BitData, b[0]>>6&1 == 1, t.UDH, t.UD, 0)
	var d0 TPDU
	d := &d0
	d.Direction = MO
	err := d.UnmarshalBinary(b)
	vcAssert(err == nil)
	vcAssert(d.FirstOctet == t.FirstOctet && d.MR == t.MR && d.PID == t.PID && d.CT == t.CT && d.MN == t.MN)
	lem_addrSame(c, 0, t.DA, d.DA, 0)
	vcAssert(spec_sameAddr(t.DA, d.DA))
	lem_udFound(u, Dcs8BitData, b[0]>>6&1 == 1, t.UDH, d.UDH, t.UD, d.UD, 0)
	vcAssert(spec_sameUD(t, d))
}
