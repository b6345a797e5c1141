package tpdu

import (
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/gsm7/charset"
)

// ---- semi-octets and septets within octets ----

// spec_digit is the value of a semi-octet digit, or 15.
func spec_digit(d byte) byte {
	if d >= '0' && d <= '9' {
		return d - '0'
	}
	if d == '*' {
		return 10
	}
	if d == '#' {
		return 11
	}
	if d >= 'a' && d <= 'c' {
		return d - 'a' + 12
	}
	return 15
}

// spec_semi is semi-octet k of the octets from o.
func spec_semi(b []byte, o, k int) byte {
	if k&1 == 0 {
		return b[o+(k>>1)] & 15
	}
	return b[o+(k>>1)] >> 4
}

// spec_octet is octet k, or zero beyond the end.
func spec_octet(b []byte, k int) byte {
	if k < len(b) {
		return b[k]
	}
	return 0
}

// spec_sept is the septet at bit pos of the octets from o.
func spec_sept(b []byte, o, pos int) byte {
	lo, hi := spec_octet(b, o+pos/8), spec_octet(b, o+pos/8+1)
	switch pos % 8 {
	case 0:
		return lo & 0x7f
	case 1:
		return lo >> 1
	case 2:
		return lo>>2 | hi<<6&0x7f
	case 3:
		return lo>>3 | hi<<5&0x7f
	case 4:
		return lo>>4 | hi<<4&0x7f
	case 5:
		return lo>>5 | hi<<3&0x7f
	case 6:
		return lo>>6 | hi<<2&0x7f
	default:
		return lo>>7 | hi<<1&0x7f
	}
}

// ---- addresses ----

func spec_alpha(toa byte) bool { return toa>>4&7 == 5 }

// spec_plain: a character of the default alphabet.
func spec_plain(u rune) bool { return gsm7.SpecEncN(charset.DefaultEncoder(), nil, u) == 1 }

// spec_validAddr: the number can be encoded.
func spec_validAddr(a Address) bool {
	if spec_alpha(a.TOA) {
		rs := []rune(a.Addr)
		return vcForall(0, len(rs), func(i int) bool { return spec_plain(rs[i]) })
	}
	return vcForall(0, len(a.Addr), func(i int) bool { return spec_digit(a.Addr[i]) != 15 })
}

// spec_addrLen is the number of semi-octets.
func spec_addrLen(a Address) int {
	if spec_alpha(a.TOA) {
		return (len([]rune(a.Addr))*7 + 3) / 4
	}
	return len(a.Addr)
}

// spec_addrAt: the address is encoded at o.
func spec_addrAt(b []byte, o int, a Address) bool {
	l := spec_addrLen(a)
	if o < 0 || o+2+(l+1)/2 > len(b) || l <= 255 && int(b[o]) != l || b[o+1] != a.TOA {
		return false
	}
	if spec_alpha(a.TOA) {
		rs := []rune(a.Addr)
		return vcForall(0, len(rs), func(i int) bool { return gsm7.SpecSeptet(b[o+2:o+2+(l+1)/2], 7*i) == charset.DefaultEncoder()[rs[i]] })
	}
	return vcForall(0, l, func(i int) bool { return spec_semi(b, o+2, i) == spec_digit(a.Addr[i]) }) &&
		(l&1 == 0 || spec_semi(b, o+2, l) == 15)
}

func req_Address_MarshalBinary(a *Address) bool { return a != nil }
func ens_Address_MarshalBinary(a *Address, dst []byte, err error) bool {
	if !spec_validAddr(*a) {
		return err != nil && dst == nil
	}
	return err == nil && len(dst) == 2+(spec_addrLen(*a)+1)/2 && spec_addrAt(dst, 0, *a)
}
func hnt_Address_MarshalBinary(a *Address, dst []byte, err error) {
	if spec_alpha(a.TOA) && spec_validAddr(*a) {
		gsm7.LemNoExt(charset.DefaultEncoder(), []byte(a.Addr), len([]rune(a.Addr)))
		rs := []rune(a.Addr)
		l := (len(rs)*7 + 3) / 4
		vcAssert(len(dst) == 2+(len(rs)*7+7)/8 && (l+1)/2 == (len(rs)*7+7)/8)
		vcAssert(l > 255 || int(dst[0]) == l)
		vcAssert(vcForall(0, len(rs), func(i int) bool { return gsm7.SpecSeptet(dst[2:], 7*i) == charset.DefaultEncoder()[rs[i]] }))
	}
}

// spec_addrSepts is the number of septets in l semi-octets.
func spec_addrSepts(l int) int {
	n := (l + 1) / 2 * 8 / 7
	if (n*7+3)/4 > l {
		n--
	}
	return n
}

// spec_addrText: the l semi-octets at o are characters of the default alphabet.
func spec_addrText(src []byte, o, l int) bool {
	return vcForall(0, spec_addrSepts(l), func(i int) bool {
		g := gsm7.SpecSeptet(src[o:o+(l+1)/2], 7*i)
		_, ok := charset.DefaultDecoder()[g]
		return g != 0x1b && ok
	})
}

// spec_addrDigits: the l semi-octets at o are digits, and fill.
func spec_addrDigits(src []byte, o, l int) bool {
	return vcForall(0, l, func(i int) bool { return spec_semi(src, o, i) != 15 }) && (l&1 == 0 || spec_semi(src, o, l) == 15)
}

// spec_addrFrom: the octets at o, of an address, give a.
func spec_addrFrom(src []byte, o int, a Address) bool {
	if o < 0 || o+2 > len(src) {
		return false
	}
	l := int(src[o])
	if o+2+(l+1)/2 > len(src) || a.TOA != src[o+1] {
		return false
	}
	if spec_alpha(src[o+1]) {
		if spec_addrText(src, o+2, l) {
			rs := []rune(a.Addr)
			return len(rs) == spec_addrSepts(l) && vcForall(0, len(rs), func(i int) bool {
				return rs[i] == charset.DefaultDecoder()[gsm7.SpecSeptet(src[o+2:o+2+(l+1)/2], 7*i)]
			})
		}
		return true
	}
	if len(a.Addr) != l || !vcForall(0, l, func(i int) bool { return spec_digit(a.Addr[i]) != 15 }) {
		return false
	}
	return !spec_addrDigits(src, o+2, l) || vcForall(0, l, func(i int) bool { return spec_digit(a.Addr[i]) == spec_semi(src, o+2, i) })
}

func req_Address_UnmarshalBinary(a *Address, src []byte) bool { return a != nil }
func mod_Address_UnmarshalBinary(a *Address, src []byte) []interface{} {
	return []interface{}{a}
}
func ens_Address_UnmarshalBinary(a *Address, src []byte, n int, err error) bool {
	if n < 0 || n > len(src) || !spec_within(err, len(src)) {
		return false
	}
	if len(src) < 2 || len(src) < 2+(int(src[0])+1)/2 {
		return err != nil
	}
	l := int(src[0])
	if spec_alpha(src[1]) && spec_addrText(src, 2, l) || !spec_alpha(src[1]) && spec_addrDigits(src, 2, l) {
		if err != nil {
			return false
		}
	}
	return err != nil || n == 2+(l+1)/2 && spec_addrFrom(src, 0, *a)
}
func hnt_Address_UnmarshalBinary(a *Address, src []byte, n int, err error) {
	if len(src) < 2 || len(src) < 2+(int(src[0])+1)/2 {
		return
	}
	l := int(src[0])
	if spec_alpha(src[1]) && spec_addrText(src, 2, l) {
		vcAssert(err == nil)
		vcAssert(n == 2+(l+1)/2 && a.TOA == src[1])
		rs := []rune(a.Addr)
		vcAssert(len(rs) == spec_addrSepts(l))
		vcAssert(vcForall(0, len(rs), func(i int) bool {
			return rs[i] == gsm7.SpecNorm(charset.DefaultDecoder()[gsm7.SpecSeptet(src[2:2+(l+1)/2], 7*i)])
		}))
		charset.LemTables(0)
		vcAssert(vcForall(0, len(rs), func(i int) bool {
			c := charset.DefaultDecoder()[gsm7.SpecSeptet(src[2:2+(l+1)/2], 7*i)]
			return gsm7.SpecNorm(c) == c
		}))
	}
}

// spec_sameAddr: the same address.
func spec_sameAddr(a, b Address) bool {
	if a.TOA != b.TOA {
		return false
	}
	if !spec_alpha(a.TOA) {
		return a.Addr == b.Addr
	}
	ra, rb := []rune(a.Addr), []rune(b.Addr)
	return len(ra) == len(rb) && vcForall(0, len(ra), func(i int) bool { return ra[i] == rb[i] })
}

// spec_goodAddr: the address can be encoded, with its length.
func spec_goodAddr(a Address) bool { return spec_validAddr(a) && spec_addrLen(a) <= 255 }

// lem_addr: an encoded address can be decoded.
func lem_addr(b []byte, o int, a Address, n int) {
	charset.LemTables(0)
	l := spec_addrLen(a)
	vcAssert(l == int(b[o]) && a.TOA == b[o+1])
	if spec_alpha(a.TOA) {
		rs := []rune(a.Addr)
		vcAssert(spec_addrSepts(l) == len(rs))
		vcAssert(vcForall(0, len(rs), func(i int) bool {
			g := gsm7.SpecSeptet(b[o+2:o+2+(l+1)/2], 7*i)
			return g != 0x1b && charset.DefaultDecoder()[g] == rs[i]
		}))
	}
}
func req_lem_addr(b []byte, o int, a Address, n int) bool {
	return o >= 0 && o <= 1<<40 && n == 0 && spec_goodAddr(a) && spec_addrAt(b, o, a)
}
func ens_lem_addr(b []byte, o int, a Address, n int) bool {
	l := int(b[o])
	if spec_alpha(b[o+1]) {
		return spec_addrText(b, o+2, l)
	}
	return spec_addrDigits(b, o+2, l)
}

// lem_addrSame: an encoded address is decoded as it was.
func lem_addrSame(b []byte, o int, a, d Address, n int) {
	charset.LemTables(0)
	l := spec_addrLen(a)
	if spec_alpha(a.TOA) {
		rs, ds := []rune(a.Addr), []rune(d.Addr)
		lem_addr(b, o, a, 0)
		vcAssert(len(ds) == len(rs))
		vcAssert(vcForall(0, len(rs), func(i int) bool {
			g := gsm7.SpecSeptet(b[o+2:o+2+(l+1)/2], 7*i)
			return g != 0x1b && charset.DefaultDecoder()[g] == rs[i]
		}))
		vcAssert(vcForall(0, len(rs), func(i int) bool { return ds[i] == rs[i] }))
		return
	}
	lem_addr(b, o, a, 0)
	vcAssert(len(d.Addr) == len(a.Addr))
	vcAssert(vcForall(0, l, func(i int) bool { return d.Addr[i] == a.Addr[i] }))
}
func req_lem_addrSame(b []byte, o int, a, d Address, n int) bool {
	return req_lem_addr(b, o, a, n) && spec_addrFrom(b, o, d)
}
func ens_lem_addrSame(b []byte, o int, a, d Address, n int) bool { return spec_sameAddr(a, d) }

func ens_Address_TypeOfNumber(a Address, r TypeOfNumber) bool   { return r == TypeOfNumber(a.TOA>>4&7) }
func ens_Address_NumberingPlan(a Address, r NumberingPlan) bool { return r == NumberingPlan(a.TOA&15) }
func ens_Address_Number(a Address, r string) bool {
	if a.TOA>>4&7 == 1 {
		return r == "+"+a.Addr
	}
	return r == a.Addr
}

func spec_stripPlus(s string) string {
	if len(s) > 0 && s[0] == '+' {
		return s[1:]
	}
	return s
}
func req_Address_SetNumber(a *Address, number string) bool { return a != nil }
func mod_Address_SetNumber(a *Address, number string) []interface{} { return []interface{}{a} }
func ens_Address_SetNumber(a *Address, number string) bool {
	return int(a.TOA) == vcOldInt(func() int { return int(a.TOA&0x80) }) + 0x11 && a.Addr == spec_stripPlus(number)
}
func req_Address_SetTypeOfNumber(a *Address, ton TypeOfNumber) bool { return a != nil }
func mod_Address_SetTypeOfNumber(a *Address, ton TypeOfNumber) []interface{} { return []interface{}{&a.TOA} }
func ens_Address_SetTypeOfNumber(a *Address, ton TypeOfNumber) bool {
	return int(a.TOA) == vcOldInt(func() int { return int(a.TOA&0x8f | byte(ton&7)<<4) })
}
func req_Address_SetNumberingPlan(a *Address, np NumberingPlan) bool { return a != nil }
func mod_Address_SetNumberingPlan(a *Address, np NumberingPlan) []interface{} { return []interface{}{&a.TOA} }
func ens_Address_SetNumberingPlan(a *Address, np NumberingPlan) bool {
	return int(a.TOA) == vcOldInt(func() int { return int(a.TOA&0xf0 | byte(np&15)) })
}

// an address is marshalled in the form spec_addrAt describes, whatever follows it
func prop_C14_encode(a0 Address, rest []byte) {
	a := &a0
	b, err := a.MarshalBinary()
	vcAssert((err == nil) == spec_validAddr(*a))
	if err != nil || spec_addrLen(*a) > 255 {
		return
	}
	vcAssert(len(b) == 2+(spec_addrLen(*a)+1)/2)
	vcAssert(spec_addrAt(append(append([]byte(nil), b...), rest...), 0, *a))
}

// octets of that form are unmarshalled to the address, whatever follows them
func prop_C14_decode(a Address, src []byte) {
	vcReq(spec_goodAddr(a) && spec_addrAt(src, 0, a))
	var d0 Address
	d := &d0
	lem_addr(src, 0, a, 0)
	k, err := d.UnmarshalBinary(src)
	vcAssert(err == nil)
	vcAssert(k == 2+(spec_addrLen(a)+1)/2)
	lem_addrSame(src, 0, a, *d, 0)
	vcAssert(spec_sameAddr(a, *d))
	vcAssert(d.TypeOfNumber() == a.TypeOfNumber() && d.NumberingPlan() == a.NumberingPlan())
}

// an international number prints with a single plus
func prop_C14_number(a0 Address, number string) {
	vcReq(len(number) == 0 || number[0] != '+' || len(number) == 1 || number[1] != '+')
	a := &a0
	a.SetNumber(number)
	vcAssert(a.TypeOfNumber() == TonInternational && a.NumberingPlan() == NpISDN)
	s := a.Number()
	vcAssert(s[0] == '+' && s[1:] == spec_stripPlus(number) && (len(s) < 2 || s[1] != '+'))
	n := NewAddress(FromNumber(number))
	vcAssert(n.TOA == 0x91 && n.Addr == spec_stripPlus(number))
	d := NewAddress()
	vcAssert(d.TOA == 0x80 && d.Addr == "")
}
