package gsm7

import (
	"github.com/warthog618/sms/encoding/gsm7/charset"
	"github.com/warthog618/sms/internal/vcgen"
)

func gen_set(r *vcgen.R) (int, charset.Decoder, charset.Encoder) {
	n := r.Intn(14)
	return n, charset.NewDecoder(n), charset.NewEncoder(n)
}

func gen_tables(r *vcgen.R) (Encoder, Decoder) {
	n, x := r.Intn(14), r.Intn(14)
	e := Encoder{set: charset.NewEncoder(n), ext: charset.NewExtEncoder(x)}
	d := Decoder{set: charset.NewDecoder(n), ext: charset.NewExtDecoder(x), strict: r.Chance(3)}
	if r.Chance(4) {
		e.ext, d.ext = nil, nil
	}
	return e, d
}

// gen_text is mostly of characters in the tables.
func gen_text(r *vcgen.R, e Encoder) []byte {
	if r.Chance(4) {
		return []byte(r.Text(30))
	}
	var pool []rune
	for _, m := range []charset.Encoder{e.set, e.ext} {
		least, n := rune(-1), r.Intn(140)
		for i := 0; i < n; i++ {
			next := rune(-1)
			for u := range m {
				if u > least && (next < 0 || u < next) {
					next = u
				}
			}
			if next < 0 {
				break
			}
			least = next
		}
		if least >= 0 {
			pool = append(pool, least)
		}
	}
	pool = append(pool, []rune("a[€\u001bΩ\n\r")...)
	n := r.Len(30)
	var b []byte
	for i := 0; i < n; i++ {
		u := pool[r.Intn(len(pool))]
		if r.Chance(2) {
			u = rune(0x20 + r.Intn(0x5f))
			if _, ok := e.set[u]; !ok {
				u = 'a'
			}
		}
		b = append(b, string(u)...)
	}
	return b
}

func gen_septets(r *vcgen.R) []byte {
	b := r.Septets(40)
	for i := range b {
		if r.Chance(5) {
			b[i] = esc
		}
		if r.Chance(40) {
			b[i] |= 0x80
		}
	}
	return b
}

func gen_Encoder_Encode(r *vcgen.R) []interface{} {
	e, _ := gen_tables(r)
	return []interface{}{&e, gen_text(r, e)}
}
func gen_Decoder_Decode(r *vcgen.R) []interface{} {
	_, d := gen_tables(r)
	return []interface{}{&d, gen_septets(r)}
}
func gen_C07_inverse(r *vcgen.R) []interface{} {
	e, d := gen_tables(r)
	return []interface{}{e, d, gen_text(r, e)}
}
func gen_C07_select(r *vcgen.R) []interface{} { return []interface{}{r.Intn(16) - 1, r.Intn(16) - 1} }
func gen_C07_with(r *vcgen.R) []interface{} {
	e, d := gen_tables(r)
	_, ds, es := gen_set(r)
	return []interface{}{e, d, es, ds}
}
func gen_nlis(r *vcgen.R) (int, int, Encoder) {
	n, x := r.Intn(15), r.Intn(15)
	return n, x, Encoder{set: charset.NewEncoder(n), ext: charset.NewExtEncoder(x)}
}
func gen_C07_encode(r *vcgen.R) []interface{} {
	n, x, e := gen_nlis(r)
	return []interface{}{gen_text(r, e), n, x}
}
func gen_C07_roundtrip(r *vcgen.R) []interface{} { return gen_C07_encode(r) }
func gen_C07_decode(r *vcgen.R) []interface{} {
	return []interface{}{gen_septets(r), r.Intn(15), r.Intn(15)}
}

func gen_C05_roundtrip(r *vcgen.R) []interface{} { return []interface{}{r.Septets(300), r.Intn(7)} }
func gen_C06_roundtrip(r *vcgen.R) []interface{} { return []interface{}{r.Septets(300)} }
func gen_Pack7Bit(r *vcgen.R) []interface{}      { return []interface{}{r.Septets(300), r.Intn(7)} }
func gen_Pack7BitUSSD(r *vcgen.R) []interface{} {
	return []interface{}{r.Septets(300), r.Intn(7) * r.Intn(2)}
}
func gen_Unpack7Bit(r *vcgen.R) []interface{} { return []interface{}{r.Bytes(300), r.Intn(7)} }
func gen_Unpack7BitUSSD(r *vcgen.R) []interface{} {
	return []interface{}{r.Bytes(300), r.Intn(7) * r.Intn(2)}
}

// GenText is a text of characters mostly in the given tables.
func GenText(r *vcgen.R, l, x int) []byte {
	return gen_text(r, Encoder{set: charset.NewEncoder(l), ext: charset.NewExtEncoder(x)})
}

func gen_C26_default(r *vcgen.R) []interface{} { return []interface{}{GenText(r, 0, 0)} }
func gen_C26_locking(r *vcgen.R) []interface{} {
	n, _, e := gen_nlis(r)
	e.ext = charset.DefaultExtEncoder()
	return []interface{}{gen_text(r, e), n}
}
func gen_C26_shift(r *vcgen.R) []interface{} {
	_, x, e := gen_nlis(r)
	e.set = charset.DefaultEncoder()
	return []interface{}{gen_text(r, e), x}
}
func gen_C26_both(r *vcgen.R) []interface{} {
	n, x, e := gen_nlis(r)
	return []interface{}{gen_text(r, e), n, x}
}
