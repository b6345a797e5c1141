package ucs2

// lem_back: the characters of an encoded text begin where they were put.
func lem_back(s []rune, e []byte, n int) {
	if n > 0 {
		lem_back(s, e, n-1)
	}
}
func req_lem_back(s []rune, e []byte, n int) bool {
	return 0 <= n && n <= len(s) && ens_Encode(s, e) &&
		vcForall(0, len(s), func(i int) bool { return spec_valid(s[i]) })
}
func ens_lem_back(s []rune, e []byte, n int) bool {
	return rec_chars(e, rec_units(s, n)) == n && rec_units(s, n) >= n &&
		(n == len(s) || spec_start(e, rec_units(s, n))) &&
		(n == 0 || !spec_isHi(spec_u16(e, rec_units(s, n)-1))) &&
		vcForall(0, n, func(i int) bool {
			return rec_chars(e, rec_units(s, i)) == i && spec_start(e, rec_units(s, i))
		})
}

func prop_C09_roundtrip(s []rune) {
	vcReq(vcForall(0, len(s), func(i int) bool { return spec_valid(s[i]) }))
	e := Encode(s)
	lem_back(s, e, len(s))
	r, err := Decode(e)
	vcAssert(err == nil)
	vcAssert(len(r) == len(s))
	vcAssert(vcForall(0, len(s), func(i int) bool { return r[i] == s[i] }))
}

// SpecEncoded: b is the UTF-16 of s.
func SpecEncoded(s []rune, b []byte) bool { return ens_Encode(s, b) }

// LemMost: each character takes at most two units.
func LemMost(s []rune) { lem_most(s, len(s)) }
func lem_most(s []rune, n int) {
	if n > 0 {
		lem_most(s, n-1)
	}
}
func req_lem_most(s []rune, n int) bool { return 0 <= n && n <= len(s) }
func ens_lem_most(s []rune, n int) bool { return rec_units(s, n) >= 0 && rec_units(s, n) <= 2*n }
