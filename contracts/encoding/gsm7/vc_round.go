package gsm7

import "github.com/warthog618/sms/encoding/gsm7/charset"

// spec_undoes: the decoder tables map back every septet the encoder tables give.
func spec_undoes(e Encoder, d Decoder) bool {
	return vcForallRune(func(u rune) bool {
		g, ok := e.set[u]
		if !ok || g == 0x1b {
			return true
		}
		r, has := d.set[g]
		return has && r == u
	}) && vcForallRune(func(u rune) bool {
		g, ok := e.ext[u]
		if !ok || g == 0x1b {
			return true
		}
		r, has := d.ext[g]
		return has && r == u
	})
}

// spec_encoded: r holds the septets of src.
func spec_encoded(set, ext charset.Encoder, src, r []byte) bool {
	rs := []rune(string(src))
	return len(r) == rec_encLen(set, ext, src, len(rs)) && vcForall(0, len(rs), func(k int) bool {
		return spec_encAt(set, ext, rs[k], r, rec_encLen(set, ext, src, k))
	})
}

// lem_text: decoding the septets of src meets its characters in order.
func lem_text(e Encoder, src, r []byte, n int) {
	if n > 0 {
		lem_text(e, src, r, n-1)
	}
}
func req_lem_text(e Encoder, src, r []byte, n int) bool {
	return 0 <= n && n <= len([]rune(string(src))) && spec_encoded(e.set, e.ext, src, r)
}
func ens_lem_text(e Encoder, src, r []byte, n int) bool {
	p := rec_encLen(e.set, e.ext, src, n)
	return p >= n && p <= len(r) && !rec_escaped(r, p) && rec_decLen(r, p) == n
}

// lem_textAll: the same for every character, and every septet is valid.
func lem_textAll(e Encoder, d Decoder, src, r []byte, n int) {
	lem_text(e, src, r, n)
	if n > 0 {
		lem_textAll(e, d, src, r, n-1)
	}
}
func req_lem_textAll(e Encoder, d Decoder, src, r []byte, n int) bool {
	return req_lem_text(e, src, r, n) && spec_undoes(e, d)
}
func ens_lem_textAll(e Encoder, d Decoder, src, r []byte, n int) bool {
	return ens_lem_text(e, src, r, n) && vcForall(0, n, func(k int) bool {
		p := rec_encLen(e.set, e.ext, src, k)
		return p >= k && p <= len(r) && !rec_escaped(r, p) && rec_decLen(r, p) == k
	}) && vcForall(0, rec_encLen(e.set, e.ext, src, n), func(i int) bool {
		return !spec_emits(r, i) || !spec_invalid(&d, r[i], rec_escaped(r, i))
	})
}

// spec_same: the same characters.
func spec_same(a, b []byte) bool {
	ra, rb := []rune(string(a)), []rune(string(b))
	return len(ra) == len(rb) && vcForall(0, len(ra), func(k int) bool { return ra[k] == rb[k] })
}

// what one encoder encodes, a decoder with the inverse tables decodes
func prop_C07_inverse(e Encoder, d Decoder, src []byte) {
	vcReq(spec_undoes(e, d))
	r, err := e.Encode(src)
	if err != nil {
		return
	}
	lem_textAll(e, d, src, r, len([]rune(string(src))))
	t, err := d.Decode(r)
	vcAssert(err == nil)
	vcAssert(spec_same(src, t))
}

// ---- options ----

func spec_sameTable(a, b charset.Encoder) bool {
	return vcForallRune(func(u rune) bool {
		g, ok := a[u]
		h, has := b[u]
		return ok == has && g == h
	})
}
// the options select the tables they say
func prop_C07_select(nli, xnli int) {
	e := NewEncoder()
	d := NewDecoder()
	vcAssert(charset.SpecIsEnc(e.set, 0) && charset.SpecIsXEnc(e.ext, 0))
	vcAssert(charset.SpecIsDec(d.set, 0) && charset.SpecIsXDec(d.ext, 0) && !d.strict)
	e = NewEncoder(WithCharset(nli))
	d = NewDecoder(WithCharset(nli))
	vcAssert(charset.SpecIsEnc(e.set, nli) && charset.SpecIsXEnc(e.ext, 0))
	vcAssert(charset.SpecIsDec(d.set, nli) && charset.SpecIsXDec(d.ext, 0) && !d.strict)
	e = NewEncoder(WithExtCharset(xnli))
	d = NewDecoder(WithExtCharset(xnli))
	vcAssert(charset.SpecIsEnc(e.set, 0) && charset.SpecIsXEnc(e.ext, xnli))
	vcAssert(charset.SpecIsDec(d.set, 0) && charset.SpecIsXDec(d.ext, xnli) && !d.strict)
	e = NewEncoder(WithCharset(nli), WithExtCharset(xnli))
	d = NewDecoder(WithCharset(nli), Strict, WithExtCharset(xnli))
	vcAssert(charset.SpecIsEnc(e.set, nli) && charset.SpecIsXEnc(e.ext, xnli))
	vcAssert(charset.SpecIsDec(d.set, nli) && charset.SpecIsXDec(d.ext, xnli) && d.strict)
	d = NewDecoder(WithoutExtCharset)
	vcAssert(charset.SpecIsDec(d.set, 0) && len(d.ext) == 0 && !d.strict)
}

func prop_C07_with(e Encoder, d Decoder, es charset.Encoder, ds charset.Decoder) {
	e1, e2, d1, d2, d3 := e.WithCharset(es), e.WithExtCharset(es), d.WithCharset(ds), d.WithExtCharset(ds), d.Strict()
	vcAssert(spec_sameTable(e1.set, es) && spec_sameTable(e1.ext, e.ext))
	vcAssert(spec_sameTable(e2.set, e.set) && spec_sameTable(e2.ext, es))
	vcAssert(spec_sameDec(d1.set, ds) && spec_sameDec(d1.ext, d.ext) && d1.strict == d.strict)
	vcAssert(spec_sameDec(d2.set, d.set) && spec_sameDec(d2.ext, ds) && d2.strict == d.strict)
	vcAssert(spec_sameDec(d3.set, d.set) && spec_sameDec(d3.ext, d.ext) && d3.strict)
}

func spec_sameDec(a, b charset.Decoder) bool {
	return vcForallByte(func(k byte) bool {
		r, ok := a[k]
		q, has := b[k]
		return ok == has && r == q
	})
}

// encoding and decoding with options is so with the tables they select
func prop_C07_encode(src []byte, nli, xnli int) {
	r, err := Encode(src, WithCharset(nli), WithExtCharset(xnli))
	e := Encoder{set: charset.NewEncoder(nli), ext: charset.NewExtEncoder(xnli)}
	vcAssert(ens_Encoder_Encode(&e, src, r, err))
	r, err = Encode(src)
	e = Encoder{set: charset.DefaultEncoder(), ext: charset.DefaultExtEncoder()}
	vcAssert(ens_Encoder_Encode(&e, src, r, err))
}

func prop_C07_decode(src []byte, nli, xnli int) {
	r, err := Decode(src, WithCharset(nli), WithExtCharset(xnli))
	d := Decoder{set: charset.NewDecoder(nli), ext: charset.NewExtDecoder(xnli)}
	vcAssert(ens_Decoder_Decode(&d, src, r, err))
	r, err = Decode(src, Strict)
	d = Decoder{set: charset.DefaultDecoder(), ext: charset.DefaultExtDecoder(), strict: true}
	vcAssert(ens_Decoder_Decode(&d, src, r, err))
}

// encoding and decoding with the same tables returns the text
func prop_C07_roundtrip(src []byte, nli, xnli int) {
	charset.LemTables(nli)
	charset.LemTables(xnli)
	r, err := Encode(src, WithCharset(nli), WithExtCharset(xnli))
	if err != nil {
		return
	}
	e := Encoder{set: charset.NewEncoder(nli), ext: charset.NewExtEncoder(xnli)}
	d := Decoder{set: charset.NewDecoder(nli), ext: charset.NewExtDecoder(xnli)}
	lem_textAll(e, d, src, r, len([]rune(string(src))))
	t, err := Decode(r, WithCharset(nli), WithExtCharset(xnli))
	vcAssert(err == nil)
	vcAssert(spec_same(src, t))
}

// ---- for the contracts of other packages ----

// lem_noExt: without an extension table each character takes one septet.
func lem_noExt(set charset.Encoder, src []byte, n int) {
	if n > 0 {
		lem_noExt(set, src, n-1)
	}
}
func req_lem_noExt(set charset.Encoder, src []byte, n int) bool {
	rs := []rune(string(src))
	return 0 <= n && n <= len(rs) && vcForall(0, n, func(k int) bool { return spec_encN(set, nil, rs[k]) == 1 })
}
func ens_lem_noExt(set charset.Encoder, src []byte, n int) bool {
	return rec_encLen(set, nil, src, n) == n && vcForall(0, n, func(k int) bool { return rec_encLen(set, nil, src, k) == k })
}

func SpecEncN(set, ext charset.Encoder, u rune) int { return spec_encN(set, ext, u) }
func LemNoExt(set charset.Encoder, src []byte, n int) { lem_noExt(set, src, n) }

// SpecSeptet is the septet at bit pos.
func SpecSeptet(p []byte, pos int) byte { return spec_septet(p, 0, pos) }

// SpecNorm is the character, or the replacement of an invalid one.
func SpecNorm(r rune) rune { return spec_norm(r) }

// SpecCan: the locking table l and the shift table x have every character of msg.
func SpecCan(l, x int, msg []byte) bool {
	rs := []rune(string(msg))
	return vcForall(0, len(rs), func(k int) bool { return spec_has(l, x, rs[k]) })
}

func spec_has(l, x int, u rune) bool {
	return charset.SpecEncHas(l, u) && charset.SpecEnc(l, u) != 0x1b || charset.SpecXEncHas(x, u) && charset.SpecXEnc(x, u) != 0x1b
}

// SpecText: d is msg encoded with the locking table l and the shift table x.
func SpecText(l, x int, msg, d []byte) bool {
	return spec_text(charset.NewEncoder(l), charset.NewExtEncoder(x), msg, d)
}

func spec_text(set, ext charset.Encoder, msg, d []byte) bool {
	rs := []rune(string(msg))
	return len(d) == rec_encLen(set, ext, msg, len(rs)) && spec_septets(d) &&
		vcForall(0, len(rs), func(k int) bool { return spec_encAt(set, ext, rs[k], d, rec_encLen(set, ext, msg, k)) })
}

// the result of Encode, in terms of the identifiers of the tables
func spec_encodedAs(l, x int, src, d []byte, err error) bool {
	return (err == nil) == SpecCan(l, x, src) && (err != nil || SpecText(l, x, src, d))
}

func prop_C26_default(src []byte) {
	d, err := Encode(src)
	vcAssert(spec_encodedAs(0, 0, src, d, err))
}
func prop_C26_locking(src []byte, nli int) {
	d, err := Encode(src, WithCharset(nli))
	vcAssert(spec_encodedAs(nli, 0, src, d, err))
}
func prop_C26_shift(src []byte, nli int) {
	d, err := Encode(src, WithExtCharset(nli))
	vcAssert(spec_encodedAs(0, nli, src, d, err))
}
func prop_C26_both(src []byte, nli, xnli int) {
	d, err := Encode(src, WithCharset(nli), WithExtCharset(xnli))
	vcAssert(spec_encodedAs(nli, xnli, src, d, err))
}

// lem_most: each character takes at most two septets.
func lem_most(set, ext charset.Encoder, src []byte, n int) {
	if n > 0 {
		lem_most(set, ext, src, n-1)
	}
}
func req_lem_most(set, ext charset.Encoder, src []byte, n int) bool {
	return 0 <= n && n <= len([]rune(string(src)))
}
func ens_lem_most(set, ext charset.Encoder, src []byte, n int) bool {
	return rec_encLen(set, ext, src, n) >= 0 && rec_encLen(set, ext, src, n) <= 2*n
}

// LemMost is so for the tables l and x.
func LemMost(l, x int, src []byte) {
	lem_most(charset.NewEncoder(l), charset.NewExtEncoder(x), src, len([]rune(string(src))))
}
