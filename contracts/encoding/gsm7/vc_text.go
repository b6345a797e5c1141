package gsm7

import "github.com/warthog618/sms/encoding/gsm7/charset"

// ---- text ----

// spec_encN is the number of septets a character takes: one from the base table,
// two from the extension table, none if it is in neither.
func spec_encN(set, ext charset.Encoder, u rune) int {
	g, ok := set[u]
	if ok && g != 0x1b {
		return 1
	}
	g, ok = ext[u]
	if ok && g != 0x1b {
		return 2
	}
	return 0
}

// rec_encLen is the number of septets of the first k characters.
func rec_encLen(set, ext charset.Encoder, src []byte, k int) int {
	if k <= 0 {
		return 0
	}
	return rec_encLen(set, ext, src, k-1) + spec_encN(set, ext, []rune(string(src))[k-1])
}

// spec_encAt: the septets of a character are at p.
func spec_encAt(set, ext charset.Encoder, u rune, r []byte, p int) bool {
	switch spec_encN(set, ext, u) {
	case 1:
		return p >= 0 && p < len(r) && r[p] == set[u]
	case 2:
		return p >= 0 && p+1 < len(r) && r[p] == 0x1b && r[p+1] == ext[u]
	}
	return false
}

// spec_septTables: the tables hold septets.
func spec_septTables(e *Encoder) bool {
	return vcForallRune(func(u rune) bool { return e.set[u] < 0x80 && e.ext[u] < 0x80 })
}

func req_Encoder_Encode(e *Encoder, src []byte) bool { return e != nil }
func ens_Encoder_Encode(e *Encoder, src []byte, r []byte, err error) bool {
	rs := []rune(string(src))
	if err != nil {
		return r == nil && vcExists(0, len(rs), func(k int) bool { return spec_encN(e.set, e.ext, rs[k]) == 0 })
	}
	return len(r) == rec_encLen(e.set, e.ext, src, len(rs)) && (!spec_septTables(e) || spec_septets(r)) &&
		vcForall(0, len(rs), func(k int) bool {
			return spec_encAt(e.set, e.ext, rs[k], r, rec_encLen(e.set, e.ext, src, k))
		})
}
func inv_Encoder_Encode_0(vck int, e *Encoder, src, dst []byte) bool {
	rs := []rune(string(src))
	return vck <= len(rs) && len(dst) == rec_encLen(e.set, e.ext, src, vck) && (!spec_septTables(e) || spec_septets(dst)) &&
		vcForall(0, vck, func(k int) bool {
			return spec_encAt(e.set, e.ext, rs[k], dst, rec_encLen(e.set, e.ext, src, k))
		})
}

// rec_escaped: septet i follows an escape.
func rec_escaped(src []byte, i int) bool {
	if i <= 0 {
		return false
	}
	return !rec_escaped(src, i-1) && src[i-1] == 0x1b
}

// spec_emits: septet i stands for a character (it is not an escape).
func spec_emits(src []byte, i int) bool { return rec_escaped(src, i) || src[i] != 0x1b }

// rec_decLen is the number of characters of the first i septets.
func rec_decLen(src []byte, i int) int {
	if i <= 0 {
		return 0
	}
	if spec_emits(src, i-1) {
		return rec_decLen(src, i-1) + 1
	}
	return rec_decLen(src, i-1)
}

func spec_norm(r rune) rune {
	if r >= 0 && r < 0xd800 || r > 0xdfff && r <= 0x10ffff {
		return r
	}
	return 0xfffd
}

// spec_invalid: strict decoding rejects the septet.
func spec_invalid(d *Decoder, g byte, escaped bool) bool {
	if !d.strict || escaped && g == 0x1b {
		return false
	}
	if escaped {
		_, ok := d.ext[g]
		return !ok
	}
	_, ok := d.set[g]
	return !ok
}

// spec_decode is the character of a septet.
func spec_decode(d *Decoder, g byte, escaped bool) rune {
	if escaped {
		if g == 0x1b {
			return ' '
		}
		if r, ok := d.ext[g]; ok {
			return spec_norm(r)
		}
	}
	if r, ok := d.set[g]; ok {
		return spec_norm(r)
	}
	return ' '
}

// spec_plainText: no escapes.
func spec_plainText(src []byte) bool {
	return vcForall(0, len(src), func(i int) bool { return src[i] != 0x1b })
}

// lem_plain: without escapes each septet is a character.
func lem_plain(src []byte, n int) {
	if n > 0 {
		lem_plain(src, n-1)
	}
}
func req_lem_plain(src []byte, n int) bool { return 0 <= n && n <= len(src) && spec_plainText(src) }
func ens_lem_plain(src []byte, n int) bool {
	return !rec_escaped(src, n) && rec_decLen(src, n) == n && vcForall(0, n, func(i int) bool {
		return !rec_escaped(src, i) && rec_decLen(src, i) == i
	})
}
func hnt_Decoder_Decode(d *Decoder, src []byte, r []byte, err error) {
	if spec_plainText(src) {
		lem_plain(src, len(src))
	}
}

// spec_decodedPlain is the result without escapes.
func spec_decodedPlain(d *Decoder, src []byte, r []byte, err error) bool {
	if err != nil {
		return vcExists(0, len(src), func(i int) bool { return spec_invalid(d, src[i], false) })
	}
	rs := []rune(string(r))
	return len(rs) == len(src) && vcForall(0, len(src), func(i int) bool {
		return !spec_invalid(d, src[i], false) && rs[i] == spec_decode(d, src[i], false)
	})
}

func req_Decoder_Decode(d *Decoder, src []byte) bool { return d != nil }
func ens_Decoder_Decode(d *Decoder, src []byte, r []byte, err error) bool {
	n := len(src)
	if spec_plainText(src) && !spec_decodedPlain(d, src, r, err) {
		return false
	}
	if err != nil {
		if _, ok := err.(ErrInvalidSeptet); !ok {
			return false
		}
		return r == nil && vcExists(0, n, func(i int) bool {
			return spec_emits(src, i) && spec_invalid(d, src[i], rec_escaped(src, i))
		})
	}
	rs := []rune(string(r))
	if rec_escaped(src, n) {
		if !(len(rs) == rec_decLen(src, n)+1 && rs[len(rs)-1] == ' ') {
			return false
		}
	} else if len(rs) != rec_decLen(src, n) {
		return false
	}
	return spec_decoded(d, src, n, rs)
}

func spec_decoded(d *Decoder, src []byte, n int, rs []rune) bool {
	return vcForall(0, n, func(i int) bool {
		return !spec_emits(src, i) || !spec_invalid(d, src[i], rec_escaped(src, i)) &&
			rec_decLen(src, i) >= 0 && rec_decLen(src, i) < len(rs) && rs[rec_decLen(src, i)] == spec_decode(d, src[i], rec_escaped(src, i))
	})
}

func inv_Decoder_Decode_0(vck int, d *Decoder, src, dst []byte, escaped bool) bool {
	rs := []rune(string(dst))
	return escaped == rec_escaped(src, vck) && len(rs) == rec_decLen(src, vck) && spec_decoded(d, src, vck, rs)
}
