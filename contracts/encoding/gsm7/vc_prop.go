package gsm7

func prop_C05_roundtrip(u []byte, fillBits int) {
	vcReq(0 <= fillBits && fillBits <= 6 && spec_septets(u))
	v := Unpack7Bit(Pack7Bit(u, fillBits), fillBits)
	n := len(u)
	vcAssert(len(v) == n || len(v) == n+1)
	vcAssert(vcForall(0, n, func(i int) bool { return v[i] == u[i] }))
	if len(v) == n+1 {
		vcAssert(v[n] == 0)
		vcAssert((8-(n*7+fillBits)%8)%8 == 7)
	}
}

func prop_C06_roundtrip(u []byte) {
	vcReq(spec_septets(u))
	n := len(u)
	vcReq(n == 0 || u[n-1] != 0)
	vcReq(n < 2 || u[n-1] != 0x0d || u[n-2] != 0x0d || n%8 != 1)
	v := Unpack7BitUSSD(Pack7BitUSSD(u, 0), 0)
	vcAssert(len(v) == n)
	vcAssert(vcForall(0, n, func(i int) bool { return v[i] == u[i] }))
}
