package ucs2

import "unicode/utf16"

// spec_valid: a Unicode scalar value.
func spec_valid(r rune) bool { return 0 <= r && r < 0xd800 || 0xe000 <= r && r <= 0x10ffff }

func spec_wide(r rune) bool { return 0x10000 <= r && r <= 0x10ffff }

// rec_units is the number of UTF-16 units of the first n runes.
func rec_units(s []rune, n int) int {
	if n <= 0 {
		return 0
	}
	if spec_wide(s[n-1]) {
		return rec_units(s, n-1) + 2
	}
	return rec_units(s, n-1) + 1
}

// spec_hi, spec_lo: the surrogates of a supplementary character.
func spec_hi(r rune) uint16 { return uint16(0xd800 + (r-0x10000)>>10) }
func spec_lo(r rune) uint16 { return uint16(0xdc00 + (r-0x10000)&0x3ff) }

// spec_repl is the character that is encoded for r.
func spec_repl(r rune) rune {
	if spec_valid(r) {
		return r
	}
	return 0xfffd
}

// spec_at16: the units at k are those of r.
func spec_at16(u []uint16, k int, r rune) bool {
	if spec_wide(r) {
		return k >= 0 && k+1 < len(u) && u[k] == spec_hi(r) && u[k+1] == spec_lo(r)
	}
	return k >= 0 && k < len(u) && u[k] == uint16(spec_repl(r))
}

// ---- unicode/utf16.Encode ----

func ens_ext_utf16_Encode(s []rune, u []uint16) bool {
	return len(u) == rec_units(s, len(s)) && len(u) >= len(s) &&
		vcForall(0, len(s), func(i int) bool { return spec_at16(u, rec_units(s, i), s[i]) })
}

func inv_ext_utf16_Encode_0(vck int, s []rune, n int) bool {
	return n-len(s) >= rec_units(s, vck)-vck && n-len(s) <= vck && rec_units(s, vck) >= vck
}

func inv_ext_utf16_Encode_1(vck int, s []rune, a []uint16, n int) bool {
	return n == rec_units(s, vck) && n >= vck && n <= len(a) &&
		len(a)-n >= rec_units(s, len(s))-rec_units(s, vck) &&
		vcForall(0, vck, func(i int) bool { return spec_at16(a[:n], rec_units(s, i), s[i]) })
}

var _ = utf16.Encode

// lem_units: every rune has at least one unit.
func lem_units(s []rune, a, b int) {
	if b > a {
		lem_units(s, a, b-1)
	}
}
func req_lem_units(s []rune, a, b int) bool { return 0 <= a && a <= b && b <= len(s) }
func ens_lem_units(s []rune, a, b int) bool { return rec_units(s, b)-rec_units(s, a) >= b-a }

func beg_ext_utf16_Encode_1(vck int, s []rune) {
	if vck < len(s) {
		lem_units(s, vck+1, len(s))
	}
}

// ---- Encode ----

// spec_u16 is unit k of b.
func spec_u16(b []byte, k int) uint16 { return uint16(b[2*k])<<8 | uint16(b[2*k+1]) }

// spec_enc: the units at k are those of r.
func spec_enc(b []byte, k int, r rune) bool {
	if spec_wide(r) {
		return k >= 0 && 2*k+3 < len(b) && spec_u16(b, k) == spec_hi(r) && spec_u16(b, k+1) == spec_lo(r)
	}
	return k >= 0 && 2*k+1 < len(b) && spec_u16(b, k) == uint16(spec_repl(r))
}

func ens_Encode(src []rune, b []byte) bool {
	return len(b) == 2*rec_units(src, len(src)) &&
		vcForall(0, len(src), func(i int) bool { return spec_enc(b, rec_units(src, i), src[i]) })
}

func inv_Encode_0(vck int, u []uint16, dst []byte, wi int) bool {
	return wi == 2*vck && len(dst) == 2*len(u) &&
		vcForall(0, vck, func(k int) bool { return spec_u16(dst, k) == u[k] })
}

// ---- Decode ----

func spec_isHi(u uint16) bool { return u&0xfc00 == 0xd800 }
func spec_isLo(u uint16) bool { return u&0xfc00 == 0xdc00 }

// spec_start: unit k begins a character.
func spec_start(b []byte, k int) bool {
	return k == 0 || !spec_isLo(spec_u16(b, k)) || !spec_isHi(spec_u16(b, k-1))
}

// rec_chars is the number of characters that begin before unit k.
func rec_chars(b []byte, k int) int {
	if k <= 0 {
		return 0
	}
	if spec_start(b, k-1) {
		return rec_chars(b, k-1) + 1
	}
	return rec_chars(b, k-1)
}

// spec_char is the character that begins at unit k of n.
func spec_char(b []byte, k, n int) rune {
	u := spec_u16(b, k)
	if spec_isHi(u) && k+1 < n && spec_isLo(spec_u16(b, k+1)) {
		return (rune(u)-0xd800)<<10 | (rune(spec_u16(b, k+1)) - 0xdc00) + 0x10000
	}
	if spec_isHi(u) || spec_isLo(u) {
		return 0xfffd
	}
	return rune(u)
}

func spec_chars(b []byte, n int, r []rune, m int) bool {
	return len(r) == rec_chars(b, m) &&
		vcForall(0, m, func(k int) bool {
			return !spec_start(b, k) || 0 <= rec_chars(b, k) && rec_chars(b, k) < len(r) && r[rec_chars(b, k)] == spec_char(b, k, n)
		})
}

func ens_Decode(src []byte, r []rune, err error) bool {
	if len(src)%2 == 1 {
		return err == ErrInvalidLength && r == nil
	}
	n := len(src) / 2
	if n > 0 && spec_isHi(spec_u16(src, n-1)) {
		e, ok := err.(ErrDanglingSurrogate)
		return ok && len(e) == 2 && e[0] == src[len(src)-2] && e[1] == src[len(src)-1] &&
			spec_chars(src, n, r, n-1)
	}
	return err == nil && spec_chars(src, n, r, n)
}

func inv_Decode_0(vck int, src []byte, dst []rune, ri int) bool {
	return ri >= 0 && ri <= len(src) && ri%2 == 0 && len(dst) <= ri/2 &&
		(ri == len(src) && (ri == 0 || !spec_isHi(spec_u16(src, ri/2-1))) || ri < len(src) && spec_start(src, ri/2)) && spec_chars(src, len(src)/2, dst, ri/2)
}

func dec_Decode_0(src []byte, ri int) int { return len(src) - ri }
