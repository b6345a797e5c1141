package tpdu

import "time"

// spec_code is the duration denoted by a relative validity period, 3GPP TS 23.040 9.2.3.12.1.
func spec_code(c byte) time.Duration {
	switch {
	case c <= 143:
		return time.Duration(c+1) * 5 * time.Minute
	case c <= 167:
		return 12*time.Hour + time.Duration(c-143)*30*time.Minute
	case c <= 196:
		return time.Duration(c-166) * 24 * time.Hour
	}
	return time.Duration(c-192) * 7 * 24 * time.Hour
}

func ens_relativeToDuration(t byte, d time.Duration) bool { return d == spec_code(t) }

// the encoded period is the longest that does not exceed the duration, or the shortest there is
func ens_durationToRelative(d time.Duration, c byte) bool {
	return (d < 0 || c == 0 || spec_code(c) <= d) && (d < 0 || c == 255 || d < spec_code(c+1))
}

func prop_C16_codes(c byte) {
	v := ValidityPeriod{}
	n, err := v.UnmarshalBinary([]byte{c}, VpfRelative)
	vcAssert(n == 1 && err == nil && v.Format == VpfRelative && v.Duration == spec_code(c))
	b, err := v.MarshalBinary()
	vcAssert(err == nil && len(b) == 1 && b[0] == c)
}

func prop_C16_relative(d time.Duration) {
	vcReq(d >= 0)
	v := ValidityPeriod{}
	v.SetRelative(d)
	vcAssert(v.Format == VpfRelative && v.Duration == d && v.EFI == 0)
	b, err := v.MarshalBinary()
	vcAssert(err == nil && len(b) == 1)
	c := b[0]
	vcAssert(c == 0 || spec_code(c) <= d)
	vcAssert(c == 255 || d < spec_code(c+1))
	if d >= 63*7*24*time.Hour {
		vcAssert(c == 255)
	}
}

func req_ValidityPeriod_MarshalBinary(v *ValidityPeriod) bool { return v != nil }
func ens_ValidityPeriod_MarshalBinary(v *ValidityPeriod, b []byte, err error) bool {
	switch v.Format {
	case VpfAbsolute:
		if !spec_stampable(v.Time.Time) {
			return err != nil
		}
		return err == nil && spec_stamp(v.Time.Time, b)
	case VpfEnhanced:
		if v.EFI&7 > 3 {
			return err != nil && b == nil
		}
		if v.EFI&7 == 3 && (v.Duration < 0 || v.Duration%time.Second != 0) {
			return true // not representable
		}
		return err == nil && spec_enhanced(v.EFI, v.Duration, b)
	case VpfRelative:
		return err == nil && len(b) == 1 && ens_durationToRelative(v.Duration, b[0])
	case VpfNotPresent:
		return err == nil && len(b) == 0
	}
	return err != nil && b == nil
}

// spec_enhanced: b is the enhanced form of a non-negative duration.
func spec_enhanced(efi byte, d time.Duration, b []byte) bool {
	if len(b) != 7 || b[0] != efi || b[4] != 0 || b[5] != 0 || b[6] != 0 {
		return false
	}
	s := int(d / time.Second)
	switch efi & 7 {
	case 0:
		return b[1] == 0 && b[2] == 0 && b[3] == 0
	case 1:
		return ens_durationToRelative(d, b[1]) && b[2] == 0 && b[3] == 0
	case 2:
		return (s < 0 || s > 255 || int(b[1]) == s) && (s <= 255 || b[1] == 255) && b[2] == 0 && b[3] == 0
	}
	return spec_bcd(b[1], s/3600%100) && spec_bcd(b[2], s/60%60) && spec_bcd(b[3], s%60)
}

func inv_ValidityPeriod_MarshalBinary_0(vck int, v *ValidityPeriod, dst []byte, f []int) bool {
	return len(dst) == 7 && len(f) == 3 && dst[0] == v.EFI && dst[4] == 0 && dst[5] == 0 && dst[6] == 0 &&
		(v.Duration < 0 || v.Duration%time.Second != 0 || f[0] == int(v.Duration/time.Hour)%100 && f[1] == int(v.Duration/time.Minute)%60 && f[2] == int(v.Duration/time.Second)%60) &&
		vcForall(0, vck, func(i int) bool { return spec_bcd(dst[i+1], f[i]) })
}

// spec_vpUsed is the number of octets of a format.
func spec_vpUsed(f ValidityPeriodFormat) int {
	switch f {
	case VpfAbsolute, VpfEnhanced:
		return 7
	case VpfRelative:
		return 1
	}
	return 0
}

// spec_vpOK: the octets are a validity period of the format.
func spec_vpOK(src []byte, f ValidityPeriodFormat) bool {
	switch f {
	case VpfNotPresent:
		return true
	case VpfRelative:
		return len(src) >= 1
	case VpfAbsolute:
		return spec_stampDigits(src)
	case VpfEnhanced:
		if len(src) < 7 || src[0]&7 > 3 || src[4] != 0 || src[5] != 0 || src[6] != 0 {
			return false
		}
		switch src[0] & 7 {
		case 0:
			return src[1] == 0 && src[2] == 0 && src[3] == 0
		case 1, 2:
			return src[2] == 0 && src[3] == 0
		}
		return spec_digits(src[1]) && spec_digits(src[2]) && spec_digits(src[3])
	}
	return false
}

// spec_vpDuration is the duration of a valid enhanced or relative period.
func spec_vpDuration(src []byte, f ValidityPeriodFormat) time.Duration {
	if f == VpfRelative {
		return spec_code(src[0])
	}
	switch src[0] & 7 {
	case 1:
		return spec_code(src[1])
	case 2:
		return time.Duration(src[1]) * time.Second
	case 3:
		return time.Duration(spec_unbcd(src[1]))*time.Hour + time.Duration(spec_unbcd(src[2]))*time.Minute + time.Duration(spec_unbcd(src[3]))*time.Second
	}
	return 0
}

func spec_vpIs(v *ValidityPeriod, src []byte, f ValidityPeriodFormat) bool {
	if v.Format != f {
		return false
	}
	switch f {
	case VpfAbsolute:
		return spec_isStamp(v.Time.Time, src)
	case VpfEnhanced:
		return v.EFI == src[0] && v.Duration == spec_vpDuration(src, f)
	case VpfRelative:
		return v.Duration == spec_vpDuration(src, f)
	}
	return true
}

func req_ValidityPeriod_UnmarshalBinary(v *ValidityPeriod, src []byte, vpf ValidityPeriodFormat) bool {
	return v != nil
}
func mod_ValidityPeriod_UnmarshalBinary(v *ValidityPeriod, src []byte, vpf ValidityPeriodFormat) []interface{} {
	return []interface{}{v}
}
func ens_ValidityPeriod_UnmarshalBinary(v *ValidityPeriod, src []byte, vpf ValidityPeriodFormat, n int, err error) bool {
	if !spec_vpOK(src, vpf) {
		return err != nil && v.Format == VpfNotPresent && spec_within(err, len(src))
	}
	return err == nil && n == spec_vpUsed(vpf) && n <= len(src) && spec_vpIs(v, src, vpf)
}

func inv_ValidityPeriod_unmarshalVPEnhanced_0(src []byte, i []int, idx int) bool {
	return idx >= 0 && idx <= 3 && len(i) == 3 &&
		vcForall(0, idx, func(k int) bool { return spec_digits(src[k+1]) && i[k] == spec_unbcd(src[k+1]) })
}

func inv_ValidityPeriod_unmarshalVPEnhanced_1(src []byte, i, pre_i int) bool {
	return i >= pre_i && i <= 7 && vcForall(pre_i, i, func(k int) bool { return src[k] == 0 })
}

func prop_C16_enhanced(b []byte, f ValidityPeriodFormat) {
	vcReq(len(b) >= 7 && f <= VpfAbsolute && spec_vpOK(b, f))
	vcReq(f != VpfAbsolute || spec_calendar(b) && spec_sbcd(b[6], spec_unsbcd(b[6])))
	vcReq(f != VpfEnhanced || b[0]&7 != 3 || b[2]&15 < 6 && b[3]&15 < 6)
	v := ValidityPeriod{}
	n, err := v.UnmarshalBinary(b, f)
	vcAssert(err == nil && v.Format == f && n == spec_vpUsed(f))
	if f == VpfEnhanced && b[0]&7 == 3 {
		h, m, s := spec_unbcd(b[1]), spec_unbcd(b[2]), spec_unbcd(b[3])
		vcAssert(h < 100 && m < 60 && s < 60)
		d := int(v.Duration / time.Second)
		vcAssert(d == h*3600+m*60+s)
		vcAssert(d%60 == s)
		vcAssert(d/60 == h*60+m)
		vcAssert(d/60%60 == m)
		vcAssert(d/3600 == h)
	}
	m, err := v.MarshalBinary()
	vcAssert(err == nil && len(m) == n)
	if f == VpfEnhanced && b[0]&7 == 3 {
		vcAssert(spec_unbcd(m[1]) == spec_unbcd(b[1]))
		vcAssert(m[1] == b[1])
		vcAssert(spec_unbcd(m[2]) == spec_unbcd(b[2]))
		vcAssert(m[2] == b[2])
		vcAssert(spec_unbcd(m[3]) == spec_unbcd(b[3]))
		vcAssert(m[3] == b[3])
	}
	vcAssert(vcForall(0, n, func(i int) bool { return m[i] == b[i] }))
}

func prop_C16_absolute(t Timestamp) {
	_, z := t.Zone()
	vcReq(t.Year() >= 1970 && t.Year() <= 2069 && z%900 == 0 && z >= -79*900 && z <= 79*900)
	v := ValidityPeriod{}
	v.SetAbsolute(t)
	b, err := v.MarshalBinary()
	vcAssert(err == nil && len(b) == 7)
	w := ValidityPeriod{}
	n, err := w.UnmarshalBinary(b, VpfAbsolute)
	vcAssert(err == nil && n == 7 && w.Format == VpfAbsolute)
	_, uz := w.Time.Zone()
	vcAssert(w.Time.Year() == t.Year() && w.Time.Month() == t.Month() && w.Time.Day() == t.Day())
	vcAssert(w.Time.Hour() == t.Hour() && w.Time.Minute() == t.Minute() && w.Time.Second() == t.Second() && uz == z)
}

// every representable duration of the enhanced formats round-trips
func prop_C16_seconds(s int, ext byte) {
	v := ValidityPeriod{}
	vcReq(s >= 0 && s < 100*3600)
	v.SetEnhanced(time.Duration(s)*time.Second, ext&0xf8|3)
	b, err := v.MarshalBinary()
	vcAssert(err == nil)
	w := ValidityPeriod{}
	n, err := w.UnmarshalBinary(b, VpfEnhanced)
	vcAssert(err == nil && n == 7 && w.EFI == v.EFI)
	vcAssert(w.Duration == v.Duration)
	vcReq(s <= 255)
	v.SetEnhanced(time.Duration(s)*time.Second, ext&0xf8|2)
	b, err = v.MarshalBinary()
	vcAssert(err == nil)
	n, err = w.UnmarshalBinary(b, VpfEnhanced)
	vcAssert(err == nil && n == 7 && w.EFI == v.EFI)
	vcAssert(w.Duration == v.Duration)
}

// ---- time.Duration ----

func ens_ext_time_Duration_Hours(d time.Duration, r float64) bool {
	return d < 0 || d%time.Second != 0 || int(r) == int(d/time.Hour)
}
func ens_ext_time_Duration_Minutes(d time.Duration, r float64) bool {
	return d < 0 || d%time.Second != 0 || int(r) == int(d/time.Minute)
}
func ens_ext_time_Duration_Seconds(d time.Duration, r float64) bool {
	return d < 0 || d%time.Second != 0 || int(r) == int(d/time.Second)
}
