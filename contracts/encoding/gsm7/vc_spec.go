package gsm7

// spec_oct is octet o of p, extended with the partial octet r and then zeros.
func spec_oct(p []byte, r byte, o int) byte {
	if o < len(p) {
		return p[o]
	}
	if o == len(p) {
		return r
	}
	return 0
}

// spec_septet is the septet at bit offset pos (little-endian bit order).
func spec_septet(p []byte, r byte, pos int) byte {
	lo, hi := spec_oct(p, r, pos/8), spec_oct(p, r, pos/8+1)
	switch pos % 8 {
	case 0:
		return lo & 0x7f
	case 1:
		return lo >> 1
	case 2:
		return lo>>2 | hi<<6&0x7f
	case 3:
		return lo>>3 | hi<<5&0x7f
	case 4:
		return lo>>4 | hi<<4&0x7f
	case 5:
		return lo>>5 | hi<<3&0x7f
	case 6:
		return lo>>6 | hi<<2&0x7f
	default:
		return lo>>7 | hi<<1&0x7f
	}
}

func spec_septets(u []byte) bool {
	return vcForall(0, len(u), func(i int) bool { return u[i] < 0x80 })
}

// spec_low: the bits of b below bit n.
func spec_low(b byte, n int) byte {
	switch n {
	case 0:
		return 0
	case 1:
		return b & 1
	case 2:
		return b & 3
	case 3:
		return b & 7
	case 4:
		return b & 15
	case 5:
		return b & 31
	case 6:
		return b & 63
	case 7:
		return b & 127
	}
	return b
}

func req_Pack7Bit(u []byte, fillBits int) bool {
	return 0 <= fillBits && fillBits <= 6 && spec_septets(u)
}

func ens_Pack7Bit(u []byte, fillBits int, p []byte) bool {
	if len(u) == 0 {
		return len(p) == 0
	}
	return len(p) == (len(u)*7+fillBits+7)/8 &&
		vcForall(0, len(u), func(i int) bool { return spec_septet(p, 0, fillBits+7*i) == u[i] }) &&
		spec_low(p[0], fillBits) == 0 &&
		((len(u)*7+fillBits)%8 == 0 || spec_low(p[len(p)-1], (len(u)*7+fillBits)%8) == p[len(p)-1])
}

func inv_Pack7Bit_0(vck int, u []byte, fillBits int, p []byte, rbits uint, r byte) bool {
	return len(p) == (vck*7+fillBits)/8 && int(rbits) == (vck*7+fillBits)%8 &&
		spec_low(spec_oct(p, r, 0), fillBits) == 0 &&
		spec_low(r, int(rbits)) == r &&
		vcForall(0, vck, func(i int) bool { return spec_septet(p, r, fillBits+7*i) == u[i] })
}

// ---- unpacking ----

func req_Unpack7Bit(p []byte, fillBits int) bool { return 0 <= fillBits && fillBits <= 6 }

func ens_Unpack7Bit(p []byte, fillBits int, u []byte) bool {
	if len(p) == 0 {
		return len(u) == 0
	}
	return len(u) == (len(p)*8-fillBits)/7 &&
		vcForall(0, len(u), func(i int) bool { return u[i] == spec_septet(p, 0, fillBits+7*i) })
}

func alias_Unpack7Bit() {}

// the bits that precede the first octet's, to complete the septet holding the fill
func spec_lead(fillBits int) int {
	if fillBits == 0 {
		return 0
	}
	return 7 - fillBits
}

func inv_Unpack7Bit_0(vck int, p []byte, fillBits int, u []byte, rbits uint, r byte) bool {
	v := spec_lead(fillBits)
	if len(u) != (8*vck+v)/7 || int(rbits) != (8*vck+v)%7 {
		return false
	}
	if vck > 0 && r != spec_high(p[vck-1], int(rbits)) || vck == 0 && r != 0 {
		return false
	}
	if vck > 0 && len(u) == 0 {
		return false
	}
	return vcForall(0, len(u), func(i int) bool {
		return i == 0 && v > 0 || u[i] == spec_septet(p, 0, 7*i-v)
	})
}

// spec_high: the n high bits of b.
func spec_high(b byte, n int) byte {
	switch n {
	case 0:
		return 0
	case 1:
		return b >> 7
	case 2:
		return b >> 6
	case 3:
		return b >> 5
	case 4:
		return b >> 4
	case 5:
		return b >> 3
	}
	return b >> 2
}

// ---- USSD ----

func req_Pack7BitUSSD(u []byte, fillBits int) bool { return req_Pack7Bit(u, fillBits) }

func ens_Pack7BitUSSD(u []byte, fillBits int, p []byte) bool {
	n := len(u)
	if n == 0 {
		return len(p) == 0
	}
	bits := n*7 + fillBits
	l := (bits + 7) / 8
	if bits%8 == 1 && u[n-1] != 0 {
		return len(p) == l && p[l-1]>>1 == 0x0d && spec_body(p, u, fillBits, l-1)
	}
	if fillBits != 0 {
		return len(p) >= l && len(p) <= l+1
	}
	if n%8 == 0 && u[n-1] == 0x0d {
		return len(p) == l+1 && p[l] == 0x0d && spec_body(p, u, fillBits, l)
	}
	return len(p) == l && spec_body(p, u, fillBits, l) &&
		(bits%8 == 0 || spec_low(p[l-1], bits%8) == p[l-1])
}

// spec_body: p packs u; the unused bits of octet n on are not considered.
func spec_body(p, u []byte, fillBits, n int) bool {
	return vcForall(0, len(u), func(i int) bool { return spec_septet(p, 0, fillBits+7*i) == u[i] }) &&
		spec_low(p[0], fillBits) == 0
}

func req_Unpack7BitUSSD(p []byte, fillBits int) bool { return 0 <= fillBits && fillBits <= 6 }
func alias_Unpack7BitUSSD()                          {}

func ens_Unpack7BitUSSD(p []byte, fillBits int, u []byte) bool {
	if len(p) == 0 {
		return len(u) == 0
	}
	n := (len(p)*8 - fillBits) / 7
	rem := (len(p)*8 - fillBits) % 7
	if len(p) > 1 && (rem == 0 && p[len(p)-1]>>1 == 0x0d ||
		rem == 1 && p[len(p)-1] == 0x0d && p[len(p)-2]>>1 == 0x0d) {
		n--
	}
	return len(u) == n &&
		vcForall(0, n, func(i int) bool { return u[i] == spec_septet(p, 0, fillBits+7*i) })
}
