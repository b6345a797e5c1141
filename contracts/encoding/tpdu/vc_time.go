package tpdu

import "time"

// spec_bcd: o holds v as two decimal digits.
func spec_bcd(o byte, v int) bool  { return spec_digits(o) && spec_unbcd(o) == v }
func spec_sbcd(o byte, v int) bool { return o>>4 <= 9 && spec_unsbcd(o) == v && (o&8 != 0) == (v < 0) }

// spec_quarters is the zone offset in quarter hours.
func spec_quarters(t time.Time) int { _, z := t.Zone(); return z / 900 }

// spec_year2 is the two digit year.
func spec_year2(y int) int { return y % 100 }

// spec_stamp: b is the binary form of t.
func spec_stamp(t time.Time, b []byte) bool {
	return len(b) == 7 && spec_bcd(b[0], spec_year2(t.Year())) && spec_bcd(b[1], int(t.Month())) && spec_bcd(b[2], t.Day()) &&
		spec_bcd(b[3], t.Hour()) && spec_bcd(b[4], t.Minute()) && spec_bcd(b[5], t.Second()) && spec_sbcd(b[6], spec_quarters(t))
}

func spec_stampable(t time.Time) bool {
	return t.Year()%100 >= 0 && spec_quarters(t) >= -79 && spec_quarters(t) <= 79
}

func req_Timestamp_MarshalBinary(t *Timestamp) bool { return t != nil }
func ens_Timestamp_MarshalBinary(t *Timestamp, dst []byte, err error) bool {
	if !spec_stampable(t.Time) {
		return err != nil && dst == nil
	}
	return err == nil && spec_stamp(t.Time, dst)
}

// loop: the first fields are in place
func inv_Timestamp_MarshalBinary_0(vck int, t *Timestamp, dst []byte, f []int) bool {
	return len(dst) == 7 && len(f) == 6 &&
		f[0] == t.Year()%100 && f[1] == int(t.Month()) && f[2] == t.Day() && f[3] == t.Hour() && f[4] == t.Minute() && f[5] == t.Second() &&
		(vck == 0 || f[0] >= 0) && vcForall(0, vck, func(i int) bool { return spec_bcd(dst[i], f[i]) })
}

func spec_digits(o byte) bool { return o&15 <= 9 && o>>4 <= 9 }
func spec_unbcd(o byte) int   { return int(o&15)*10 + int(o>>4) }
func spec_unsbcd(o byte) int {
	if o&8 != 0 {
		return -(int(o&7)*10 + int(o>>4))
	}
	return int(o&7)*10 + int(o>>4)
}

func spec_stampDigits(b []byte) bool {
	return len(b) >= 7 && vcForall(0, 6, func(i int) bool { return spec_digits(b[i]) }) && b[6]>>4 <= 9
}

func spec_century(y int) int {
	if y < 70 {
		return 2000 + y
	}
	return 1900 + y
}

func spec_days(y, m int) int {
	switch m {
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// spec_calendar: the octets are a date and time of day.
func spec_calendar(b []byte) bool {
	y, m, d := spec_century(spec_unbcd(b[0])), spec_unbcd(b[1]), spec_unbcd(b[2])
	return m >= 1 && m <= 12 && d >= 1 && d <= spec_days(y, m) && spec_unbcd(b[3]) < 24 && spec_unbcd(b[4]) < 60 && spec_unbcd(b[5]) < 60
}

func spec_isStamp(t time.Time, b []byte) bool {
	_, z := t.Zone()
	return z == 900*spec_unsbcd(b[6]) &&
		(!spec_calendar(b) || t.Year() == spec_century(spec_unbcd(b[0])) && int(t.Month()) == spec_unbcd(b[1]) && t.Day() == spec_unbcd(b[2]) &&
			t.Hour() == spec_unbcd(b[3]) && t.Minute() == spec_unbcd(b[4]) && t.Second() == spec_unbcd(b[5]))
}

func req_Timestamp_UnmarshalBinary(t *Timestamp, src []byte) bool { return t != nil }
func mod_Timestamp_UnmarshalBinary(t *Timestamp, src []byte) []interface{} {
	return []interface{}{&t.Time}
}
func ens_Timestamp_UnmarshalBinary(t *Timestamp, src []byte, err error) bool {
	if !spec_stampDigits(src) {
		return err != nil && (len(src) >= 7 || err == ErrUnderflow) && spec_within(err, len(src))
	}
	return err == nil && spec_isStamp(t.Time, src)
}

func inv_Timestamp_UnmarshalBinary_0(src []byte, i []int, idx int) bool {
	return idx >= 0 && idx <= 6 && len(i) == 6 &&
		vcForall(0, idx, func(k int) bool { return spec_digits(src[k]) && i[k] == spec_unbcd(src[k]) })
}

func prop_C15_roundtrip(t Timestamp) {
	_, z := t.Zone()
	vcReq(t.Year() >= 1970 && t.Year() <= 2069 && z%900 == 0 && z >= -79*900 && z <= 79*900)
	b, err := t.MarshalBinary()
	vcAssert(err == nil && len(b) == 7)
	vcAssert(spec_stamp(t.Time, b))
	var u Timestamp
	vcAssert(u.UnmarshalBinary(b) == nil)
	_, uz := u.Zone()
	vcAssert(u.Year() == t.Year() && u.Month() == t.Month() && u.Day() == t.Day())
	vcAssert(u.Hour() == t.Hour() && u.Minute() == t.Minute() && u.Second() == t.Second() && uz == z)
}

// a zone that cannot be represented is rejected
func prop_C15_zone(t Timestamp) {
	_, z := t.Zone()
	vcReq(z%900 == 0 && (z < -79*900 || z > 79*900))
	_, err := t.MarshalBinary()
	vcAssert(err != nil)
}
