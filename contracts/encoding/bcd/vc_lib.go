package bcd

// Specification vocabulary.  The verifier gives these their logical meaning; the
// definitions below are used when a harness is run natively.

type vcSkipped struct{}
type vcFailed struct{ msg string }

func vcForall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func vcExists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

func vcForallByte(f func(b byte) bool) bool {
	for i := 0; i < 256; i++ {
		if !f(byte(i)) {
			return false
		}
	}
	return true
}

func vcForallRune(f func(r rune) bool) bool {
	for r := rune(0); r < 0x110000; r++ {
		if !f(r) {
			return false
		}
	}
	return true
}

func vcAssert(b bool) {
	if !b {
		panic(vcFailed{"assertion"})
	}
}

func vcReq(b bool) {
	if !b {
		panic(vcSkipped{})
	}
}

func vcOldBool(f func() bool) bool { return f() }
func vcOldInt(f func() int) int    { return f() }

func vcSame(a, b []byte) bool {
	return cap(a) > 0 && cap(b) > 0 && &a[:1][0] == &b[:1][0]
}

func vcEq(a, b []byte) bool {
	return len(a) == len(b) && vcForall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

// vcNative: f is run natively, and is nothing to the verifier.
func vcNative(f func()) { f() }

// vcFor: the harness being verified is one of the property.
func vcFor(property string) bool { return false }

// vcNew: the array was allocated in the iteration.
func vcNew(s interface{}) bool { return true }
