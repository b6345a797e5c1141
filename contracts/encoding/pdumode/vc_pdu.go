package pdumode

import "github.com/warthog618/sms/encoding/semioctet"

func spec_isDigit(d byte) bool { return semioctet.SpecNibble(d) != 255 }

// spec_valid: the number is a digit string.
func spec_valid(s string) bool {
	return vcForall(0, len(s), func(i int) bool { return spec_isDigit(s[i]) })
}

// spec_smscLen is the number of octets of an address, with its length.
func spec_smscLen(s string) int {
	if len(s) == 0 {
		return 1
	}
	return 2 + (len(s)+1)/2
}

// spec_smscAt: b begins with the address.
func spec_smscAt(b []byte, toa byte, s string) bool {
	n := spec_smscLen(s)
	if len(b) < n || n <= 256 && int(b[0]) != n-1 {
		return false
	}
	return n == 1 || b[1] == toa &&
		vcForall(0, len(s), func(i int) bool { return semioctet.SpecNib(b[2:n], i) == semioctet.SpecNibble(s[i]) }) &&
		(len(s)&1 == 0 || semioctet.SpecNib(b[2:n], len(s)) == 15)
}

func req_SMSCAddress_MarshalBinary(a *SMSCAddress) bool { return a != nil }
func ens_SMSCAddress_MarshalBinary(a *SMSCAddress, dst []byte, err error) bool {
	if !spec_valid(a.Addr) {
		return err != nil && dst == nil
	}
	return err == nil && len(dst) == spec_smscLen(a.Addr) && spec_smscAt(dst, a.TOA, a.Addr)
}

// spec_smscFrom: the octets give the address.
func spec_smscFrom(src []byte, toa byte, s string) bool {
	n := int(src[0]) + 1
	d := src[2:n]
	return toa == src[1] && len(s) == semioctet.SpecDigits(d, 2*(n-2)) && spec_valid(s) &&
		vcForall(0, 2*(n-2), func(k int) bool {
			if semioctet.SpecNib(d, k) == 15 {
				return true
			}
			j := semioctet.SpecDigits(d, k)
			return j >= 0 && j < len(s) && semioctet.SpecNibble(s[j]) == semioctet.SpecNib(d, k)
		})
}

func req_SMSCAddress_UnmarshalBinary(a *SMSCAddress, src []byte) bool { return a != nil }
func mod_SMSCAddress_UnmarshalBinary(a *SMSCAddress, src []byte) []interface{} {
	return []interface{}{a}
}
func ens_SMSCAddress_UnmarshalBinary(a *SMSCAddress, src []byte, n int, err error) bool {
	if n < 0 || n > len(src) {
		return false
	}
	if len(src) == 0 || len(src) < 1+int(src[0]) {
		return err != nil
	}
	if err != nil || n != 1+int(src[0]) {
		return false
	}
	if src[0] == 0 {
		return int(a.TOA) == vcOldInt(func() int { return int(a.TOA) }) && len(a.Addr) == vcOldInt(func() int { return len(a.Addr) })
	}
	return spec_smscFrom(src, a.TOA, a.Addr)
}

// spec_split: the TPDU is what follows the address.
func spec_split(src, t []byte) bool {
	n := 1 + int(src[0])
	return len(t) == len(src)-n && vcForall(0, len(t), func(i int) bool { return t[i] == src[n+i] })
}

func req_PDU_UnmarshalBinary(p *PDU, src []byte) bool { return p != nil }
func mod_PDU_UnmarshalBinary(p *PDU, src []byte) []interface{} { return []interface{}{p} }
func alias_PDU_UnmarshalBinary()                               {}
func ens_PDU_UnmarshalBinary(p *PDU, src []byte, err error) bool {
	if len(src) == 0 || len(src) < 1+int(src[0]) {
		return err != nil
	}
	return err == nil && spec_split(src, p.TPDU) && (src[0] == 0 || spec_smscFrom(src, p.SMSC.TOA, p.SMSC.Addr)) &&
		(src[0] != 0 || int(p.SMSC.TOA) == vcOldInt(func() int { return int(p.SMSC.TOA) }) && len(p.SMSC.Addr) == vcOldInt(func() int { return len(p.SMSC.Addr) }))
}

func req_PDU_MarshalBinary(p *PDU) bool { return p != nil }
func ens_PDU_MarshalBinary(p *PDU, dst []byte, err error) bool {
	if !spec_valid(p.SMSC.Addr) {
		return err != nil && dst == nil
	}
	n := spec_smscLen(p.SMSC.Addr)
	return err == nil && len(dst) == n+len(p.TPDU) && spec_smscAt(dst, p.SMSC.TOA, p.SMSC.Addr) &&
		vcForall(0, len(p.TPDU), func(i int) bool { return dst[n+i] == p.TPDU[i] })
}

// ---- hexadecimal ----

func spec_hexVal(c byte) int {
	if c >= '0' && c <= '9' {
		return int(c - '0')
	}
	if c >= 'a' && c <= 'f' {
		return int(c-'a') + 10
	}
	if c >= 'A' && c <= 'F' {
		return int(c-'A') + 10
	}
	return -1
}

func spec_hexDigit(n byte) byte {
	if n < 10 {
		return '0' + n
	}
	return 'a' + n - 10
}

func spec_isHex(s string) bool {
	return len(s)&1 == 0 && vcForall(0, len(s), func(i int) bool { return spec_hexVal(s[i]) >= 0 })
}

// spec_unhex: s is the text of b.
func spec_unhex(s string, b []byte) bool {
	return len(s) == 2*len(b) && vcForall(0, len(b), func(i int) bool {
		return spec_hexVal(s[2*i]) == int(b[i]>>4) && spec_hexVal(s[2*i+1]) == int(b[i]&15)
	})
}

// the library's conversions
func ens_ext_hex_DecodeString(s string, b []byte, err error) bool {
	if !spec_isHex(s) {
		return err != nil
	}
	return err == nil && spec_unhex(s, b)
}
func req_ext_hex_EncodeToString(b []byte) bool { return len(b) < 1<<40 }
func ens_ext_hex_EncodeToString(b []byte, s string) bool {
	return len(s) == 2*len(b) && vcForall(0, len(b), func(i int) bool {
		return s[2*i] == spec_hexDigit(b[i]>>4) && s[2*i+1] == spec_hexDigit(b[i]&15)
	})
}

func req_ext_hex_Encode(dst, src []byte) bool {
	return len(dst) >= 2*len(src) && len(src) < 1<<40
}
func mod_ext_hex_Encode(dst, src []byte) []interface{} { return []interface{}{dst} }
func ens_ext_hex_Encode(dst, src []byte, n int) bool {
	return n == 2*len(src) && spec_enhex(dst, src, len(src))
}

func spec_enhex(dst, src []byte, k int) bool {
	return vcForall(0, k, func(i int) bool {
		return dst[2*i] == spec_hexDigit(src[i]>>4) && dst[2*i+1] == spec_hexDigit(src[i]&15)
	})
}
func inv_ext_hex_Encode_0(vck int, dst, src []byte, j int) bool {
	return j == 2*vck && vck <= len(src) && spec_enhex(dst, src, vck)
}

func req_ext_hex_Decode(dst, src []byte) bool { return len(dst) >= len(src)/2 }
func mod_ext_hex_Decode(dst, src []byte) []interface{} { return []interface{}{dst} }
func ens_ext_hex_Decode(dst, src []byte, n int, err error) bool {
	if n < 0 || n > len(src)/2 || !spec_dehex(dst, src, n) {
		return false
	}
	if len(src)&1 == 0 && vcForall(0, len(src), func(i int) bool { return spec_hexVal(src[i]) >= 0 }) {
		return err == nil && n == len(src)/2
	}
	return err != nil
}

func spec_dehex(dst, src []byte, k int) bool {
	return vcForall(0, k, func(i int) bool {
		return spec_hexVal(src[2*i]) == int(dst[i]>>4) && spec_hexVal(src[2*i+1]) == int(dst[i]&15)
	})
}
func inv_ext_hex_Decode_0(vck int, dst, src []byte, i, j int) bool {
	return i == vck && j == 2*vck && 2*vck <= len(src) && spec_dehex(dst, src, vck) &&
		vcForall(0, 2*vck, func(i int) bool { return spec_hexVal(src[i]) >= 0 })
}

// spec_hexAt: s begins with the text of the address.
func spec_hexAt(s string, toa byte, a string) bool {
	n := spec_smscLen(a)
	if len(s) < 2*n || n <= 256 && (s[0] != spec_hexDigit(byte(n-1)>>4) || s[1] != spec_hexDigit(byte(n-1)&15)) {
		return false
	}
	return n == 1 || s[2] == spec_hexDigit(toa>>4) && s[3] == spec_hexDigit(toa&15) &&
		vcForall(0, len(a), func(i int) bool { return s[5+i-2*(i&1)] == spec_hexDigit(semioctet.SpecNibble(a[i])) }) &&
		(len(a)&1 == 0 || s[3+len(a)] == 'f')
}

func req_PDU_MarshalHexString(p *PDU) bool { return p != nil && len(p.SMSC.Addr) < 1<<39 && len(p.TPDU) < 1<<39 }
func ens_PDU_MarshalHexString(p *PDU, s string, err error) bool {
	if !spec_valid(p.SMSC.Addr) {
		return err != nil && s == ""
	}
	n := spec_smscLen(p.SMSC.Addr)
	return err == nil && len(s) == 2*(n+len(p.TPDU)) && spec_hexAt(s, p.SMSC.TOA, p.SMSC.Addr) &&
		vcForall(0, len(p.TPDU), func(i int) bool {
			return s[2*n+2*i] == spec_hexDigit(p.TPDU[i]>>4) && s[2*n+2*i+1] == spec_hexDigit(p.TPDU[i]&15)
		})
}

// marshalling gives the address and then the TPDU, and its text is that of the octets
func prop_C22_encode(p0 PDU) {
	p := &p0
	vcReq(len(p.SMSC.Addr) < 1<<39 && len(p.TPDU) < 1<<39)
	b, err := p.MarshalBinary()
	vcAssert((err == nil) == spec_valid(p.SMSC.Addr))
	s, herr := p.MarshalHexString()
	vcAssert((herr == nil) == (err == nil))
	if err != nil {
		return
	}
	n := spec_smscLen(p.SMSC.Addr)
	vcAssert(len(b) == n+len(p.TPDU))
	vcAssert(spec_smscAt(b, p.SMSC.TOA, p.SMSC.Addr))
	vcAssert(vcForall(0, len(p.TPDU), func(i int) bool { return b[n+i] == p.TPDU[i] }))
	vcAssert(len(p.SMSC.Addr) > 0 || b[0] == 0)
	vcAssert(len(s) == 2*len(b))
	vcAssert(spec_hexAt(s, p.SMSC.TOA, p.SMSC.Addr))
	vcAssert(vcForall(0, len(p.TPDU), func(i int) bool {
		return s[2*n+2*i] == spec_hexDigit(p.TPDU[i]>>4) && s[2*n+2*i+1] == spec_hexDigit(p.TPDU[i]&15)
	}))
}

// unmarshalling such octets gives them back
func prop_C22_decode(toa byte, addr string, src []byte) {
	vcReq(spec_valid(addr) && len(addr) <= 508 && spec_smscAt(src, toa, addr))
	n := spec_smscLen(addr)
	if n > 1 {
		vcAssert(vcForall(0, len(addr), func(i int) bool { return semioctet.SpecNibble(addr[i]) < 15 }))
		vcAssert(vcForall(0, len(addr), func(i int) bool { return semioctet.SpecNib(src[2:n], i) < 15 }))
		semioctet.LemClean(src[2:n], len(addr))
		vcAssert(semioctet.SpecDigits(src[2:n], len(addr)) == len(addr))
	}
	p, err := UnmarshalBinary(src)
	vcAssert(err == nil && p != nil)
	vcAssert(len(p.TPDU) == len(src)-n)
	vcAssert(vcForall(0, len(p.TPDU), func(i int) bool { return p.TPDU[i] == src[n+i] }))
	if n == 1 {
		vcAssert(p.SMSC.Addr == "" && p.SMSC.TOA == 0)
		return
	}
	vcAssert(p.SMSC.TOA == toa)
	vcAssert(len(p.SMSC.Addr) == len(addr))
	vcAssert(vcForall(0, len(addr), func(i int) bool { return p.SMSC.Addr[i] == addr[i] }))
}

// only an input shorter than the address it states is rejected
func prop_C22_short(src []byte) {
	p, err := UnmarshalBinary(src)
	vcAssert((err != nil) == (len(src) == 0 || len(src) < 1+int(src[0])))
	vcAssert((err != nil) == (p == nil))
}

// the text form is that of the octets
func prop_C22_hex(s string, b []byte) {
	p, err := UnmarshalHexString(s)
	if !spec_isHex(s) {
		vcAssert(err != nil && p == nil)
		return
	}
	vcReq(spec_unhex(s, b))
	vcAssert((err != nil) == (len(b) == 0 || len(b) < 1+int(b[0])))
	if err != nil {
		vcAssert(p == nil)
		return
	}
	vcAssert(len(p.TPDU) == len(b)-1-int(b[0]))
	vcAssert(vcForall(0, len(p.TPDU), func(i int) bool { return p.TPDU[i] == b[1+int(b[0])+i] }))
	vcAssert(b[0] == 0 || p.SMSC.TOA == b[1])
}

// ---- any input ----

func prop_C01_frame(src []byte) {
	p, err := UnmarshalBinary(src)
	vcAssert(err != nil && p == nil || err == nil && p != nil && len(p.TPDU) < len(src))
}
func prop_C01_hex(s string) {
	p, err := UnmarshalHexString(s)
	vcAssert(err != nil && p == nil || err == nil && p != nil && 2*len(p.TPDU) < len(s))
}
