package pdumode

import "github.com/warthog618/sms/internal/vcgen"

func gen_number(r *vcgen.R) string {
	b := make([]byte, r.Len(40))
	for i := range b {
		b[i] = "0123456789*#abc"[r.Intn(15)]
	}
	if len(b) > 0 && r.Chance(10) {
		b[r.Intn(len(b))] = r.Byte()
	}
	return string(b)
}

// octets that begin with an address, mostly
func gen_frame(r *vcgen.R) []byte {
	b := r.Bytes(40)
	if len(b) > 0 && !r.Chance(3) {
		b[0] = byte(r.Intn(len(b)))
	}
	for i := 2; i < len(b); i++ {
		if r.Chance(6) {
			b[i] |= 0xf0 >> (4 * uint(r.Intn(2)))
		}
	}
	return b
}

func gen_SMSCAddr(r *vcgen.R) SMSCAddress {
	var a SMSCAddress
	a.TOA, a.Addr = r.Byte(), gen_number(r)
	return a
}

func gen_PDU(r *vcgen.R) PDU { return PDU{SMSC: gen_SMSCAddr(r), TPDU: r.Bytes(30)} }

func gen_SMSCAddress_MarshalBinary(r *vcgen.R) []interface{} {
	a := gen_SMSCAddr(r)
	return []interface{}{&a}
}
func gen_SMSCAddress_UnmarshalBinary(r *vcgen.R) []interface{} {
	a := gen_SMSCAddr(r)
	return []interface{}{&a, gen_frame(r)}
}
func gen_PDU_MarshalBinary(r *vcgen.R) []interface{} {
	p := gen_PDU(r)
	return []interface{}{&p}
}
func gen_PDU_MarshalHexString(r *vcgen.R) []interface{} { return gen_PDU_MarshalBinary(r) }
func gen_PDU_UnmarshalBinary(r *vcgen.R) []interface{} {
	p := gen_PDU(r)
	return []interface{}{&p, gen_frame(r)}
}
func gen_C22_encode(r *vcgen.R) []interface{} { return []interface{}{gen_PDU(r)} }
func gen_C22_decode(r *vcgen.R) []interface{} {
	p := gen_PDU(r)
	b, err := p.MarshalBinary()
	if err != nil {
		b = nil
	}
	return []interface{}{p.SMSC.TOA, p.SMSC.Addr, b}
}
func gen_C22_short(r *vcgen.R) []interface{} { return []interface{}{gen_frame(r)} }
func gen_C22_hex(r *vcgen.R) []interface{} {
	b := gen_frame(r)
	s := ""
	for _, x := range b {
		s += string("0123456789abcdef"[x>>4]) + string("0123456789ABCDEF"[x&15])
	}
	if len(s) > 0 && r.Chance(8) {
		i := r.Intn(len(s))
		s = s[:i] + string("gG/:@`xf"[r.Intn(8)]) + s[i+1:]
	}
	if r.Chance(8) {
		s += "a"
	}
	return []interface{}{s, b}
}
func gen_C01_frame(r *vcgen.R) []interface{} { return []interface{}{gen_frame(r)} }
func gen_C01_hex(r *vcgen.R) []interface{}   { return gen_C22_hex(r)[:1] }
