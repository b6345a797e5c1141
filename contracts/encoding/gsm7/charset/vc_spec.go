package charset

// vcSeen8 is the position of a key in the order of iteration over a map.
func vcSeen8(d Decoder, k byte) int { return 0 }

// spec_inverse: e maps each character of d to the least septet of it.
func spec_inverse(d Decoder, e Encoder) bool {
	return vcForallByte(func(k byte) bool {
		r, ok := d[k]
		if !ok {
			return true
		}
		g, has := e[r]
		return has && g <= k
	}) && vcForallRune(func(r rune) bool {
		g, ok := e[r]
		if !ok {
			return true
		}
		q, has := d[g]
		return has && q == r
	})
}

func ens_generateEncoder(d Decoder, e Encoder) bool { return e != nil && spec_inverse(d, e) }

func inv_generateEncoder_0(vck int, d Decoder, e Encoder) bool {
	return vcForallByte(func(k byte) bool {
		r, ok := d[k]
		if !ok || vcSeen8(d, k) >= vck {
			return true
		}
		g, has := e[r]
		return has && g <= k
	}) && vcForallRune(func(r rune) bool {
		g, ok := e[r]
		if !ok {
			return true
		}
		q, has := d[g]
		return has && q == r
	})
}

// spec_tables: the decoder and encoder are inverse, on septets.
func spec_tables(d Decoder, e Encoder) bool {
	return vcForallByte(func(k byte) bool {
		r, ok := d[k]
		if !ok {
			return true
		}
		_, has := e[r]
		return has && k < 0x80 && r >= 0 && r <= 0x10ffff && !(r >= 0xd800 && r <= 0xdfff)
	}) && vcForallRune(func(r rune) bool {
		g, ok := e[r]
		if !ok {
			return true
		}
		q, has := d[g]
		return g < 0x80 && has && q == r
	})
}

func spec_sameDec(a, b Decoder) bool {
	return vcForallByte(func(k byte) bool {
		x, okx := a[k]
		y, oky := b[k]
		return okx == oky && x == y
	})
}
func spec_sameEnc(a, b Encoder) bool {
	return vcForallRune(func(k rune) bool {
		x, okx := a[k]
		y, oky := b[k]
		return okx == oky && x == y
	})
}

// ---- the tables as functions ----
//
// The functions below give the tables of each language, as the code first
// produces them; the contracts say that every lookup returns those, whatever
// was looked up before.  lem_tables states their properties.

func ufc_decHas(nli int, k byte) bool { _, ok := NewDecoder(nli)[k]; return ok }
func ufc_dec(nli int, k byte) rune    { return NewDecoder(nli)[k] }
func ufc_encHas(nli int, r rune) bool { _, ok := NewEncoder(nli)[r]; return ok }
func ufc_enc(nli int, r rune) byte    { return NewEncoder(nli)[r] }

func ufc_xdecHas(nli int, k byte) bool { _, ok := NewExtDecoder(nli)[k]; return ok }
func ufc_xdec(nli int, k byte) rune    { return NewExtDecoder(nli)[k] }
func ufc_xencHas(nli int, r rune) bool { _, ok := NewExtEncoder(nli)[r]; return ok }
func ufc_xenc(nli int, r rune) byte    { return NewExtEncoder(nli)[r] }

func spec_isDec(d Decoder, nli int) bool {
	return d != nil && vcForallByte(func(k byte) bool {
		r, ok := d[k]
		return ok == ufc_decHas(nli, k) && r == ufc_dec(nli, k)
	})
}
func spec_isXDec(d Decoder, nli int) bool {
	return d != nil && vcForallByte(func(k byte) bool {
		r, ok := d[k]
		return ok == ufc_xdecHas(nli, k) && r == ufc_xdec(nli, k)
	})
}
func spec_isEnc(e Encoder, nli int) bool {
	return e != nil && vcForallRune(func(r rune) bool {
		g, ok := e[r]
		return ok == ufc_encHas(nli, r) && g == ufc_enc(nli, r) && g < 0x80
	})
}
func spec_isXEnc(e Encoder, nli int) bool {
	return e != nil && vcForallRune(func(r rune) bool {
		g, ok := e[r]
		return ok == ufc_xencHas(nli, r) && g == ufc_xenc(nli, r) && g < 0x80
	})
}

// spec_canon: unknown identifiers select the default tables.
func spec_canon(nli int) int {
	if nli < 0 || nli > 13 {
		return 0
	}
	return nli
}

func ens_DefaultDecoder(d Decoder) bool             { return spec_isDec(d, 0) }
func ens_DefaultEncoder(e Encoder) bool             { return spec_isEnc(e, 0) }
func ens_DefaultExtDecoder(d Decoder) bool          { return spec_isXDec(d, 0) }
func ens_DefaultExtEncoder(e Encoder) bool          { return spec_isXEnc(e, 0) }
func ens_NewDecoder(nli int, d Decoder) bool        { return spec_isDec(d, spec_canon(nli)) }
func ens_NewEncoder(nli int, e Encoder) bool        { return spec_isEnc(e, spec_canon(nli)) }
func ens_NewExtDecoder(nli int, d Decoder) bool     { return spec_isXDec(d, spec_canon(nli)) }
func ens_NewExtEncoder(nli int, e Encoder) bool     { return spec_isXEnc(e, spec_canon(nli)) }
func split_NewDecoder(nli int) (v, lo, hi int)      { return nli, 0, 13 }
func split_NewEncoder(nli int) (v, lo, hi int)      { return nli, 0, 13 }
func split_NewExtDecoder(nli int) (v, lo, hi int)   { return nli, 0, 13 }
func split_NewExtEncoder(nli int) (v, lo, hi int)   { return nli, 0, 13 }

func spec_char(r rune) bool { return r >= 0 && r < 0xd800 || r > 0xdfff && r <= 0x10ffff }

// lem_tables: the tables are inverse, and hold septets and characters.
func lem_tables(nli int) {}
func split_lem_tables(nli int) (v, lo, hi int) { return nli, 0, 13 }
func req_lem_tables(nli int) bool              { return nli >= 0 && nli <= 13 }
func ens_lem_tables(nli int) bool {
	return vcForallByte(func(k byte) bool {
		return !ufc_decHas(nli, k) || k < 0x80 && spec_char(ufc_dec(nli, k)) && ufc_encHas(nli, ufc_dec(nli, k))
	}) && vcForallRune(func(r rune) bool {
		return !ufc_encHas(nli, r) || ufc_enc(nli, r) < 0x80 && ufc_decHas(nli, ufc_enc(nli, r)) && ufc_dec(nli, ufc_enc(nli, r)) == r
	}) && vcForallByte(func(k byte) bool {
		return !ufc_xdecHas(nli, k) || k < 0x80 && spec_char(ufc_xdec(nli, k)) && ufc_xencHas(nli, ufc_xdec(nli, k))
	}) && vcForallRune(func(r rune) bool {
		return !ufc_xencHas(nli, r) || ufc_xenc(nli, r) < 0x80 && ufc_xdecHas(nli, ufc_xenc(nli, r)) && ufc_xdec(nli, ufc_xenc(nli, r)) == r
	})
}

// base and extension tables of every national language
func prop_C08_tables(nli int) {
	lem_tables(spec_canon(nli))
	vcAssert(spec_tables(NewDecoder(nli), NewEncoder(nli)))
	vcAssert(spec_tables(NewExtDecoder(nli), NewExtEncoder(nli)))
}

// an unknown identifier selects the default tables
func prop_C08_unknown(nli int) {
	vcReq(nli < 1 || nli > 13)
	vcAssert(spec_sameDec(NewDecoder(nli), DefaultDecoder()))
	vcAssert(spec_sameEnc(NewEncoder(nli), DefaultEncoder()))
	vcAssert(spec_sameDec(NewExtDecoder(nli), DefaultExtDecoder()))
	vcAssert(spec_sameEnc(NewExtEncoder(nli), DefaultExtEncoder()))
}

// repeated lookups return the same tables, whatever is looked up in between
func prop_C08_repeat(nli, other int) {
	d, e, xd, xe := NewDecoder(nli), NewEncoder(nli), NewExtDecoder(nli), NewExtEncoder(nli)
	NewDecoder(other)
	NewEncoder(other)
	NewExtDecoder(other)
	NewExtEncoder(other)
	vcAssert(spec_sameDec(d, NewDecoder(nli)))
	vcAssert(spec_sameEnc(e, NewEncoder(nli)))
	vcAssert(spec_sameDec(xd, NewExtDecoder(nli)))
	vcAssert(spec_sameEnc(xe, NewExtEncoder(nli)))
}

// the alphabet of 3GPP TS 23.038 section 6.2.1; position 0x1b is the escape
const spec_alphabet = "@\u00a3$\u00a5\u00e8\u00e9\u00f9\u00ec\u00f2\u00c7\n\u00d8\u00f8\r\u00c5\u00e5" +
	"\u0394_\u03a6\u0393\u039b\u03a9\u03a0\u03a8\u03a3\u0398\u039e\x1b\u00c6\u00e6\u00df\u00c9" +
	" !\"#\u00a4%&'()*+,-./0123456789:;<=>?" +
	"\u00a1ABCDEFGHIJKLMNOPQRSTUVWXYZ\u00c4\u00d6\u00d1\u00dc\u00a7" +
	"\u00bfabcdefghijklmnopqrstuvwxyz\u00e4\u00f6\u00f1\u00fc\u00e0"

func spec_default(k byte) rune {
	if k >= 0x80 {
		return -1
	}
	return []rune(spec_alphabet)[k]
}

// spec_defaultExt is the default extension table, 3GPP TS 23.038 section 6.2.1.1.
func spec_defaultExt(k byte) rune {
	switch k {
	case 0x0a:
		return '\f'
	case 0x0d:
		return '\n'
	case 0x14:
		return '^'
	case 0x28:
		return '{'
	case 0x29:
		return '}'
	case 0x2f:
		return '\\'
	case 0x3c:
		return '['
	case 0x3d:
		return '~'
	case 0x3e:
		return ']'
	case 0x40:
		return '|'
	case 0x65:
		return 0x20ac
	}
	return -1
}

func spec_decIs(d Decoder, f func(k byte) rune) bool {
	return vcForallByte(func(k byte) bool {
		r, ok := d[k]
		return ok == (f(k) >= 0) && (!ok || r == f(k))
	})
}

// the default alphabet and its extension are those of the standard
func prop_C08_default() {
	vcAssert(spec_decIs(DefaultDecoder(), spec_default))
	vcAssert(spec_decIs(DefaultExtDecoder(), spec_defaultExt))
}

// ---- for the contracts of other packages ----

func SpecCanon(nli int) int              { return spec_canon(nli) }
func SpecIsDec(d Decoder, nli int) bool  { return spec_isDec(d, spec_canon(nli)) }
func SpecIsXDec(d Decoder, nli int) bool { return spec_isXDec(d, spec_canon(nli)) }
func SpecIsEnc(e Encoder, nli int) bool  { return spec_isEnc(e, spec_canon(nli)) }
func SpecIsXEnc(e Encoder, nli int) bool { return spec_isXEnc(e, spec_canon(nli)) }
func LemTables(nli int)                  { lem_tables(spec_canon(nli)) }

// The tables depend on the canonical identifier alone.
func det_NewDecoder(nli int) (string, int)    { return "dec", spec_canon(nli) }
func det_NewEncoder(nli int) (string, int)    { return "enc", spec_canon(nli) }
func det_NewExtDecoder(nli int) (string, int) { return "xdec", spec_canon(nli) }
func det_NewExtEncoder(nli int) (string, int) { return "xenc", spec_canon(nli) }
func det_DefaultDecoder() (string, int)       { return "dec", 0 }
func det_DefaultEncoder() (string, int)       { return "enc", 0 }
func det_DefaultExtDecoder() (string, int)    { return "xdec", 0 }
func det_DefaultExtEncoder() (string, int)    { return "xenc", 0 }
func detax_dec(d Decoder, nli int) bool       { return spec_isDec(d, nli) }
func detax_xdec(d Decoder, nli int) bool      { return spec_isXDec(d, nli) }
func detax_enc(e Encoder, nli int) bool       { return spec_isEnc(e, nli) }
func detax_xenc(e Encoder, nli int) bool      { return spec_isXEnc(e, nli) }

// the tables as functions of the identifier
func SpecEncHas(nli int, r rune) bool  { return ufc_encHas(spec_canon(nli), r) }
func SpecEnc(nli int, r rune) byte     { return ufc_enc(spec_canon(nli), r) }
func SpecXEncHas(nli int, r rune) bool { return ufc_xencHas(spec_canon(nli), r) }
func SpecXEnc(nli int, r rune) byte    { return ufc_xenc(spec_canon(nli), r) }
