package ucs2

import "github.com/warthog618/sms/internal/vcgen"

func gen_runes(r *vcgen.R) []rune {
	rs := []rune(r.Text(150))
	if len(rs) > 0 && r.Chance(4) {
		rs[r.Intn(len(rs))] = rune(0xd7fe + r.Intn(0x804))
	}
	return rs
}

func gen_C09_roundtrip(r *vcgen.R) []interface{} { return []interface{}{gen_runes(r)} }
func gen_Encode(r *vcgen.R) []interface{} {
	rs := gen_runes(r)
	for i := range rs {
		if r.Chance(10) {
			rs[i] = rune(r.Int())
		}
	}
	return []interface{}{rs}
}
func gen_Decode(r *vcgen.R) []interface{} {
	if r.Chance(3) {
		return []interface{}{r.Bytes(300)}
	}
	n := r.Len(40)
	b := make([]byte, 0, 2*n+1)
	for i := 0; i < n; i++ {
		u := []uint16{0xd800, 0xd83d, 0xdbff, 0xdc00, 0xde00, 0xdfff, 0x41, 0xd7ff, 0xe000, uint16(r.Intn(0x10000))}[r.Intn(10)]
		b = append(b, byte(u>>8), byte(u))
	}
	if r.Chance(8) {
		b = append(b, r.Byte())
	}
	return []interface{}{b}
}
