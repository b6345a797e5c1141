package tpdu

import "github.com/warthog618/sms/encoding/gsm7"

// ---- the user data field ----

// spec_udhLen is the number of octets of a header, with its length.
func spec_udhLen(u UserDataHeader) int {
	if len(u) == 0 {
		return 0
	}
	return 1 + rec_udhl(u, len(u))
}

// spec_fill is the number of bits between h octets of header and the next septet.
func spec_fill(h int) int {
	if h%7 == 0 {
		return 0
	}
	return 7 - h%7
}

// spec_udl is the user data length, of h octets of header and n septets or octets.
func spec_udl(a Alphabet, h, n int) int {
	if a != Alpha7Bit {
		return h + n
	}
	if n == 0 {
		return h * 8 / 7
	}
	return n + (h*8+spec_fill(h))/7
}

// spec_udOctets is the number of octets that follow the length.
func spec_udOctets(a Alphabet, h, n int) int {
	if a != Alpha7Bit || n == 0 {
		return h + n
	}
	return h + (n*7+spec_fill(h)+7)/8
}

// spec_udAt: b is the user data field.
func spec_udAt(b []byte, a Alphabet, u UserDataHeader, ud []byte) bool {
	h, n := spec_udhLen(u), len(ud)
	if len(b) != 1+spec_udOctets(a, h, n) || spec_udl(a, h, n) <= 255 && int(b[0]) != spec_udl(a, h, n) || !spec_udh(b[1:1+h], u) {
		return false
	}
	if a == Alpha7Bit {
		return vcForall(0, n, func(i int) bool { return gsm7.SpecSeptet(b[1+h:], spec_fill(h)+7*i) == ud[i] }) &&
			(n == 0 || (n*7+spec_fill(h))%8 != 1 || b[len(b)-1] <= 1)
	}
	return vcForall(0, n, func(i int) bool { return b[1+h+i] == ud[i] })
}

// spec_udPlain: the user data is far from the limits of machine arithmetic, and septets where it has to be.
func spec_udPlain(t *TPDU) bool {
	a, ok := spec_alphabet(byte(t.DCS))
	return spec_smallUDH(t.UDH) && len(t.UD) <= 1<<40 && (!ok || a != Alpha7Bit || spec_septets(t.UD))
}

func spec_septets(u []byte) bool {
	return vcForall(0, len(u), func(i int) bool { return u[i] < 0x80 })
}

// spec_udOdd: the user data has a half of a character.
func spec_udOdd(t *TPDU) bool {
	a, _ := spec_alphabet(byte(t.DCS))
	return a == AlphaUCS2 && len(t.UD)&1 == 1
}
func spec_alpha2(d DCS) Alphabet { a, _ := spec_alphabet(byte(d)); return a }
func spec_alphaOK(d DCS) bool    { _, ok := spec_alphabet(byte(d)); return ok }

func req_TPDU_encodeUserData(t *TPDU) bool { return t != nil && spec_udPlain(t) }
func ens_TPDU_encodeUserData(t *TPDU, b []byte, err error) bool {
	if !spec_alphaOK(t.DCS) || spec_udOdd(t) {
		return err != nil && b == nil
	}
	return err == nil && spec_udAt(b, spec_alpha2(t.DCS), t.UDH, t.UD)
}
func hnt_TPDU_encodeUserData(t *TPDU, b []byte, err error) {
	if err == nil {
		lem_udhl(t.UDH, 0, len(t.UDH))
		h, n := spec_udhLen(t.UDH), len(t.UD)
		a := spec_alpha2(t.DCS)
		if a == Alpha7Bit {
			vcAssert(len(b) == 1+spec_udOctets(Alpha7Bit, h, n))
			l := spec_udl(Alpha7Bit, h, n)
			vcAssert(l > 255 || int(b[0]) == l)
			vcAssert(spec_udh(b[1:1+h], t.UDH))
			vcAssert(vcForall(0, n, func(i int) bool { return gsm7.SpecSeptet(b[1+h:], spec_fill(h)+7*i) == t.UD[i] }))
			vcAssert(n == 0 || (n*7+spec_fill(h))%8 != 1 || b[len(b)-1] <= 1)
		} else {
			vcAssert(len(b) == 1+h+n)
			vcAssert(h+n > 255 || int(b[0]) == h+n)
			vcAssert(spec_udh(b[1:1+h], t.UDH))
			vcAssert(vcForall(0, n, func(i int) bool { return b[1+h+i] == t.UD[i] }))
		}
	}
}

// spec_udStated is the number of octets the user data length states.
func spec_udStated(a Alphabet, l int) int {
	if a == Alpha7Bit {
		return (l*7 + 7) / 8
	}
	return l
}

// spec_udhUsed is the number of octets of header.
func spec_udhUsed(src []byte, udhi bool) int {
	if udhi {
		return int(src[1]) + 1
	}
	return 0
}

// spec_udRest is the number of septets stated that follow the header.
func spec_udRest(src []byte, h int) int {
	return int(src[0]) - (h*8+spec_fill(h))/7
}

// spec_udSpare: the octets hold a whole further septet, that is not zero.
func spec_udSpare(src []byte, h int) bool {
	n := spec_udRest(src, h)
	return ((len(src)-1-h)*8-spec_fill(h))/7 > n && gsm7.SpecSeptet(src[1+h:], spec_fill(h)+7*n) != 0
}

// spec_udWrong: the octets are not a user data field.
func spec_udWrong(src []byte, d DCS, udhi bool) bool {
	return spec_udWrongA(src, spec_alpha2(d), spec_alphaOK(d), udhi)
}
func spec_udWrongA(src []byte, a Alphabet, ok, udhi bool) bool {
	if len(src) == 0 {
		return true
	}
	if src[0] == 0 {
		return false
	}
	if !ok || len(src) != 1+spec_udStated(a, int(src[0])) {
		return true
	}
	if udhi && spec_udhBad(src[1:]) {
		return true
	}
	h := spec_udhUsed(src, udhi)
	if len(src) == 1+h {
		return false
	}
	if a == AlphaUCS2 {
		return (len(src)-1-h)&1 == 1
	}
	return a == Alpha7Bit && spec_udSpare(src, h)
}

// spec_udFrom: the octets give the header and data.
func spec_udFrom(src []byte, a Alphabet, udhi bool, u UserDataHeader, ud []byte) bool {
	h := spec_udhUsed(src, udhi)
	if !udhi && len(u) != 0 || udhi && (rec_pos(src[1:], len(u)) != h || len(u) > 127 || !spec_ies(src[1:], u)) {
		return false
	}
	if len(src) == 1+h {
		return true
	}
	if a == Alpha7Bit {
		return len(ud) == spec_udRest(src, h) && vcForall(0, len(ud), func(i int) bool {
			return ud[i] == gsm7.SpecSeptet(src[1+h:], spec_fill(h)+7*i)
		})
	}
	return len(ud) == len(src)-1-h && vcForall(0, len(ud), func(i int) bool { return ud[i] == src[1+h+i] })
}

func req_TPDU_decodeUserData(t *TPDU, src []byte) bool { return t != nil }
func mod_TPDU_decodeUserData(t *TPDU, src []byte) []interface{} {
	return []interface{}{&t.UDH, &t.UD}
}
func ens_TPDU_decodeUserData(t *TPDU, src []byte, err error) bool {
	udhi := t.FirstOctet>>6&1 == 1
	if spec_udWrong(src, t.DCS, udhi) {
		return err != nil && spec_within(err, len(src))
	}
	if err != nil {
		return false
	}
	if src[0] == 0 {
		return len(t.UD) == vcOldInt(func() int { return len(t.UD) }) && len(t.UDH) == vcOldInt(func() int { return len(t.UDH) })
	}
	if len(src) == 1+spec_udhUsed(src, udhi) && len(t.UD) != vcOldInt(func() int { return len(t.UD) }) {
		return false
	}
	return spec_udFrom(src, spec_alpha2(t.DCS), udhi, t.UDH, t.UD)
}

// lem_rest: what remains after a header of h octets of l septets is never negative, and
// the octets hold at most one more.
func lem_rest(l, h, n int) {
	if h%7 != 0 {
		vcAssert((h*8+7-h%7)/7 == h+h/7+1)
	} else {
		vcAssert(h*8/7 == h+h/7)
	}
}
func req_lem_rest(l, h, n int) bool {
	return n == 0 && 0 <= l && l <= 255 && 0 <= h && h <= 256 && (l*7+7)/8 > h
}
func ens_lem_rest(l, h, n int) bool {
	m := l - (h*8+spec_fill(h))/7
	k := (((l*7+7)/8-h)*8 - spec_fill(h)) / 7
	return m >= 0 && k-m <= 1 && k >= m
}

func hnt_TPDU_decodeUserData(t *TPDU, src []byte, err error) {
	if len(src) < 2 || len(src) != 1+(int(src[0])*7+7)/8 || spec_alpha2(t.DCS) != Alpha7Bit || t.FirstOctet>>6&1 != 1 || len(src) <= 2+int(src[1]) {
		return
	}
	lem_rest(int(src[0]), 1+int(src[1]), 0)
}

// ---- round trip ----

// spec_udOK: the header and data are within the limits of the field.
func spec_udOK(a Alphabet, u UserDataHeader, ud []byte) bool {
	return len(u) <= 127 && spec_ieSmall(u) && len(ud) <= 255 && rec_udhl(u, len(u)) <= 255 && spec_udl(a, spec_udhLen(u), len(ud)) <= 255 &&
		(a != AlphaUCS2 || len(ud)&1 == 0)
}

// lem_udSizes: the octets are those that the length states.
func lem_udSizes(a Alphabet, h, n int) {
	f := spec_fill(h)
	if h%7 == 0 {
		vcAssert(h*8/7 == h+h/7)
	} else {
		vcAssert((h*8+7-h%7)/7 == h+h/7+1)
		vcAssert(h*8/7 == h+h/7)
	}
	vcAssert(f >= 0 && f <= 6)
}
func req_lem_udSizes(a Alphabet, h, n int) bool { return h >= 0 && h <= 256 && n >= 0 && n <= 255 }
func ens_lem_udSizes(a Alphabet, h, n int) bool {
	return spec_udStated(a, spec_udl(a, h, n)) == spec_udOctets(a, h, n)
}

// lem_udSpare: there is no further septet, or it is zero.
func lem_udSpare(b []byte, h, n, z int) {
	p := n*7 + spec_fill(h)
	o := (p + 7) / 8
	if o*8 >= p+7 {
		vcAssert(p%8 == 1)
		vcAssert(p/8 == o-1)
		vcAssert(b[1+h+o-1] <= 1)
		vcAssert(gsm7.SpecSeptet(b[1+h:], p) == 0)
	} else {
		vcAssert((o*8-spec_fill(h))/7 <= n)
	}
}
func req_lem_udSpare(b []byte, h, n, z int) bool {
	return z == 0 && h >= 0 && h <= 256 && n > 0 && n <= 255 && len(b) == 1+h+(n*7+spec_fill(h)+7)/8 &&
		((n*7+spec_fill(h))%8 != 1 || b[len(b)-1] <= 1)
}
func ens_lem_udSpare(b []byte, h, n, z int) bool {
	return ((len(b)-1-h)*8-spec_fill(h))/7 <= n || gsm7.SpecSeptet(b[1+h:], spec_fill(h)+7*n) == 0
}

// lem_udOK: a user data field is not rejected.
func lem_udOK(b []byte, a Alphabet, u UserDataHeader, ud []byte, n int) {
	h := spec_udhLen(u)
	if len(u) > 0 {
		lem_udhl(u, 0, len(u))
	}
	lem_udSizes(a, h, len(ud))
	vcAssert(h >= 0 && h <= 256)
	vcAssert(len(b) == 1+spec_udOctets(a, h, len(ud)))
	vcAssert(int(b[0]) == spec_udl(a, h, len(ud)))
	if b[0] == 0 {
		return
	}
	if len(u) > 0 {
		c := b[1:]
		vcAssert(int(c[0]) == h-1)
		vcAssert(spec_at(c, u))
		lem_layout(c, u, len(u))
		lem_notBroken(c, u, 128)
		vcAssert(!spec_udhBad(c))
	}
	if a == Alpha7Bit && len(ud) > 0 {
		vcAssert(spec_udRest(b, h) == len(ud))
		lem_udSpare(b, h, len(ud), 0)
	}
}
func req_lem_udOK(b []byte, a Alphabet, u UserDataHeader, ud []byte, n int) bool {
	return n == 0 && spec_udOK(a, u, ud) && spec_udAt(b, a, u, ud)
}
func ens_lem_udOK(b []byte, a Alphabet, u UserDataHeader, ud []byte, n int) bool {
	return !spec_udWrongA(b, a, true, len(u) > 0)
}

// lem_udhSame: an encoded header is decoded as it was.
func lem_udhSame(c []byte, u, v UserDataHeader, n int) {
	lem_udhl(u, 0, len(u))
	lem_layout(c, u, len(u))
	if len(v) < len(u) {
		lem_udhl(u, len(v), len(u))
	} else {
		lem_pos(c, len(u), len(v))
	}
	vcAssert(len(v) == len(u))
	vcAssert(vcForall(0, len(u), func(i int) bool {
		return v[i].ID == u[i].ID && len(v[i].Data) == len(u[i].Data)
	}))
	vcAssert(vcForall(0, len(u), func(i int) bool {
		return vcForall(0, len(u[i].Data), func(j int) bool { return v[i].Data[j] == u[i].Data[j] })
	}))
}
func req_lem_udhSame(c []byte, u, v UserDataHeader, n int) bool {
	return n == 0 && req_lem_layout(c, u, len(u)) && len(u) <= 127 && len(v) <= 127 && rec_pos(c, len(v)) == 1+rec_udhl(u, len(u)) && spec_ies(c, v)
}
func ens_lem_udhSame(c []byte, u, v UserDataHeader, n int) bool { return spec_sameUDH(u, v) }

// lem_udRight: a user data field is not rejected, whatever states its alphabet and header.
func lem_udRight(b []byte, d DCS, udhi bool, u UserDataHeader, ud []byte, n int) {
	lem_udOK(b, spec_alpha2(d), u, ud, 0)
}
func req_lem_udRight(b []byte, d DCS, udhi bool, u UserDataHeader, ud []byte, n int) bool {
	return spec_alphaOK(d) && udhi == (len(u) > 0) && req_lem_udOK(b, spec_alpha2(d), u, ud, n)
}
func ens_lem_udRight(b []byte, d DCS, udhi bool, u UserDataHeader, ud []byte, n int) bool {
	return !spec_udWrong(b, d, udhi)
}

// lem_udSame: a user data field gives the header and data that it was made of.
func lem_udSame(b []byte, a Alphabet, u, u2 UserDataHeader, ud, ud2 []byte, n int) {
	h := spec_udhLen(u)
	if len(u) > 0 {
		lem_udhl(u, 0, len(u))
	}
	lem_udSizes(a, h, len(ud))
	vcAssert(h >= 0 && h <= 256)
	vcAssert(len(b) == 1+spec_udOctets(a, h, len(ud)))
	vcAssert(int(b[0]) == spec_udl(a, h, len(ud)))
	if len(u) > 0 {
		c := b[1:]
		vcAssert(int(c[0]) == h-1)
		vcAssert(spec_at(c, u))
		lem_udhSame(c, u, u2, 0)
	}
	if a == Alpha7Bit && len(ud) > 0 {
		vcAssert(spec_udRest(b, h) == len(ud))
	}
	vcAssert(len(ud) == len(ud2))
	vcAssert(vcEq(ud, ud2))
}
func req_lem_udSame(b []byte, a Alphabet, u, u2 UserDataHeader, ud, ud2 []byte, n int) bool {
	return n == 0 && spec_udOK(a, u, ud) && spec_udAt(b, a, u, ud) && b[0] != 0 &&
		(len(b) != 1+spec_udhLen(u) || len(ud2) == 0) && spec_udFrom(b, a, len(u) > 0, u2, ud2)
}
func ens_lem_udSame(b []byte, a Alphabet, u, u2 UserDataHeader, ud, ud2 []byte, n int) bool {
	return spec_sameUDH(u, u2) && vcEq(ud, ud2)
}

// lem_udFound: the same, as the decoder has it.
func lem_udFound(b []byte, d DCS, udhi bool, u, u2 UserDataHeader, ud, ud2 []byte, n int) {
	if b[0] != 0 {
		if udhi {
			lem_udhl(u, 0, len(u))
			vcAssert(int(b[1])+1 == spec_udhLen(u))
			lem_udSame(b, spec_alpha2(d), u, u2, ud, ud2, 0)
		} else {
			lem_udSame(b, spec_alpha2(d), u, u2, ud, ud2, 0)
		}
	} else {
		lem_udhl(u, 0, len(u))
		lem_udSizes(spec_alpha2(d), spec_udhLen(u), len(ud))
	}
}
func req_lem_udFound(b []byte, d DCS, udhi bool, u, u2 UserDataHeader, ud, ud2 []byte, n int) bool {
	if n != 0 || udhi != (len(u) > 0) || !spec_udOK(spec_alpha2(d), u, ud) || !spec_udAt(b, spec_alpha2(d), u, ud) {
		return false
	}
	if b[0] == 0 {
		return len(u2) == 0 && len(ud2) == 0
	}
	return (len(b) != 1+spec_udhUsed(b, udhi) || len(ud2) == 0) && spec_udFrom(b, spec_alpha2(d), udhi, u2, ud2)
}
func ens_lem_udFound(b []byte, d DCS, udhi bool, u, u2 UserDataHeader, ud, ud2 []byte, n int) bool {
	return spec_sameUDH(u, u2) && vcEq(ud, ud2)
}

// spec_sameUDH: the same elements in the same order.
func spec_sameUDH(u, v UserDataHeader) bool {
	return len(u) == len(v) && vcForall(0, len(u), func(i int) bool { return u[i].ID == v[i].ID && vcEq(u[i].Data, v[i].Data) })
}
