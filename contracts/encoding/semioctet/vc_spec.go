package semioctet

// spec_nibble is the value of a digit, or 255.
func spec_nibble(d byte) byte {
	if d >= '0' && d <= '9' {
		return d - '0'
	}
	if d == '*' {
		return 10
	}
	if d == '#' {
		return 11
	}
	if d >= 'a' && d <= 'c' {
		return d - 'a' + 12
	}
	return 255
}

func spec_isDigit(d byte) bool { return spec_nibble(d) != 255 }

// spec_nib is the k-th semi-octet.
func spec_nib(src []byte, k int) byte {
	if k&1 == 0 {
		return src[k>>1] & 15
	}
	return src[k>>1] >> 4
}

func ens_Encode(src []byte, r []byte, err error) bool {
	if vcForall(0, len(src), func(i int) bool { return spec_isDigit(src[i]) }) {
		return err == nil && len(r) == (len(src)+1)/2 &&
			vcForall(0, len(src), func(i int) bool { return spec_nib(r, i) == spec_nibble(src[i]) }) &&
			(len(src)&1 == 0 || spec_nib(r, len(src)) == 15)
	}
	return err != nil && r == nil
}

func inv_Encode_0(vck int, src, b []byte, hi bool, p, wi int) bool {
	return wi == vck/2 && hi == (vck&1 == 1) && len(b) == (len(src)+1)/2 &&
		vcForall(0, vck, func(i int) bool { return spec_isDigit(src[i]) }) &&
		(!hi || p == int(spec_nibble(src[vck-1]))) &&
		vcForall(0, wi, func(i int) bool {
			return b[i] == spec_nibble(src[2*i])|spec_nibble(src[2*i+1])<<4
		})
}

// Decode writes into dst, and its result is the filled part of dst.
func alias_Decode()                             {}
func mod_Decode(dst, src []byte) []interface{} { return []interface{}{dst} }

// spec_clean: the first n semi-octets of src are digits, followed by fill if n is odd.
func spec_clean(src []byte, n int) bool {
	return len(src) >= (n+1)/2 &&
		vcForall(0, n, func(i int) bool { return spec_nib(src, i) != 15 }) &&
		(n&1 == 0 || spec_nib(src, n) == 15)
}

// rec_digits is the number of digits in the first k semi-octets.
func rec_digits(src []byte, k int) int {
	if k <= 0 {
		return 0
	}
	if spec_nib(src, k-1) == 15 {
		return rec_digits(src, k-1)
	}
	return rec_digits(src, k-1) + 1
}

// spec_digits: r holds the digits of the first n semi-octets, in order.
func spec_digits(r, src []byte, n int) bool {
	return vcForall(0, n, func(k int) bool {
		if spec_nib(src, k) == 15 {
			return true
		}
		j := rec_digits(src, k)
		return j >= 0 && j < len(r) && spec_nibble(r[j]) == spec_nib(src, k)
	})
}

func ens_Decode(dst, src []byte, r []byte, n int, err error) bool {
	if n < 0 || n > len(src) || len(r) > len(dst) {
		return false
	}
	if err != nil {
		return r == nil && !spec_clean(src, len(dst)) && len(dst) < 2*len(src) && err == ErrMissingFill
	}
	if !vcForall(0, len(r), func(i int) bool { return spec_isDigit(r[i]) }) {
		return false
	}
	if len(r) < len(dst) && n < len(src) || len(r) > 2*n {
		return false
	}
	if len(r) != rec_digits(src, 2*n) || !spec_digits(r, src, 2*n) {
		return false
	}
	if spec_clean(src, len(dst)) {
		return len(r) == len(dst) && n == (len(dst)+1)/2 &&
			vcForall(0, len(r), func(i int) bool { return spec_nibble(r[i]) == spec_nib(src, i) })
	}
	return true
}

func inv_Decode_0(vck int, dst, src []byte, wi, ri int) bool {
	return ri == vck && 0 <= wi && wi <= len(dst) && wi <= 2*ri && ri <= len(src) &&
		vcForall(0, wi, func(i int) bool { return spec_isDigit(dst[i]) }) &&
		wi == rec_digits(src, 2*ri) && spec_digits(dst[:wi], src, 2*ri) &&
		(!spec_clean(src, len(dst)) ||
			(wi == 2*ri || (wi == len(dst) && ri == (wi+1)/2)) &&
				vcForall(0, wi, func(i int) bool { return spec_nibble(dst[i]) == spec_nib(src, i) }))
}

func hnt_Decode_0(vck int, dst, src []byte, wi, ri int) {
	vcAssert(wi == rec_digits(src, 2*ri))
	vcAssert(vcForall(0, wi, func(i int) bool { return spec_isDigit(dst[i]) }))
	vcAssert(spec_digits(dst[:wi], src, 2*ri-2))
	vcAssert(spec_digits(dst[:wi], src, 2*ri-1))
	vcAssert(spec_digits(dst[:wi], src, 2*ri))
}

func dec_Decode_0(src []byte, ri int) int { return len(src) - ri }

// lem_clean: without fill every semi-octet is a digit.
func lem_clean(src []byte, n int) {
	if n > 0 {
		lem_clean(src, n-1)
	}
}
func req_lem_clean(src []byte, n int) bool {
	return 0 <= n && n <= 2*len(src) && vcForall(0, n, func(i int) bool { return spec_nib(src, i) != 15 })
}
func ens_lem_clean(src []byte, n int) bool {
	return rec_digits(src, n) == n && vcForall(0, n, func(i int) bool { return rec_digits(src, i) == i })
}

// ---- for the contracts of other packages ----

func LemClean(src []byte, n int)       { lem_clean(src, n) }
func SpecDigits(src []byte, k int) int { return rec_digits(src, k) }
func SpecNib(src []byte, k int) byte   { return spec_nib(src, k) }
func SpecNibble(d byte) byte           { return spec_nibble(d) }
