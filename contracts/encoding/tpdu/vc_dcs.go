package tpdu

// 3GPP TS 23.038 section 4, by coding group.

func spec_alphabet(d byte) (Alphabet, bool) {
	switch g := d >> 4; {
	case g < 8: // general data coding, automatic deletion
		if v := d >> 2 & 3; v < 3 {
			return Alphabet(v), true
		}
		return Alpha7Bit, true // the reserved alphabet is treated as the default
	case g < 12:
		return Alpha7Bit, false
	case g < 14:
		return Alpha7Bit, true
	case g == 14:
		return AlphaUCS2, true
	}
	return Alphabet(d >> 2 & 1), true
}

func spec_class(d byte) (MessageClass, bool) {
	switch g := d >> 4; {
	case g < 8 && g%2 == 1, g == 15:
		return MessageClass(d & 3), true
	case g == 12, g == 13, g == 14:
		return MClassUnknown, true
	}
	return MClassUnknown, false
}

func spec_compressed(d byte) bool { g := d >> 4; return g == 2 || g == 3 || g == 6 || g == 7 }

// spec_classSettable: the group has class bits (and for general coding a bit that enables them).
func spec_withClass(d byte, c MessageClass) (byte, bool) {
	if c < 0 || c > 3 {
		return d, false
	}
	switch g := d >> 4; {
	case g < 8:
		return d&0xfc | 0x10 | byte(c), true
	case g == 15:
		return d&0xfc | byte(c), true
	}
	return d, false
}

func spec_withAlphabet(d byte, a Alphabet) (byte, bool) {
	if a < 0 || a > 3 {
		return d, false
	}
	switch g := d >> 4; {
	case g < 8:
		return d&0xf3 | byte(a)<<2, true
	case g == 12, g == 13:
		return d, a == Alpha7Bit
	case g == 14:
		return d, a == AlphaUCS2
	case g == 15:
		if a > 1 {
			return d, false
		}
		return d&0xf3 | byte(a)<<2, true
	}
	return d, false
}

func ens_DCS_Alphabet(d DCS, a Alphabet, err error) bool {
	w, ok := spec_alphabet(byte(d))
	return a == w && (err == nil) == ok && (ok || err == ErrInvalid)
}

func ens_DCS_Class(d DCS, c MessageClass, err error) bool {
	w, ok := spec_class(byte(d))
	return c == w && (err == nil) == ok && (ok || err == ErrInvalid)
}

func ens_DCS_Compressed(d DCS, r bool) bool { return r == spec_compressed(byte(d)) }

func ens_DCS_WithAlphabet(d DCS, a Alphabet, r DCS, err error) bool {
	w, ok := spec_withAlphabet(byte(d), a)
	return byte(r) == w && (err == nil) == ok && (ok || err == ErrInvalid)
}

func ens_DCS_WithClass(d DCS, c MessageClass, r DCS, err error) bool {
	w, ok := spec_withClass(byte(d), c)
	return byte(r) == w && (err == nil) == ok && (ok || err == ErrInvalid)
}

func ens_DCS_ApplyTPDUOption(d DCS, t *TPDU, err error) bool {
	return err == nil && t.DCS == d && t.PI == PI(vcOldInt(func() int { return int(t.PI) }))|PiDCS
}
func mod_DCS_ApplyTPDUOption(d DCS, t *TPDU) []interface{} {
	return []interface{}{&t.DCS, &t.PI}
}
func req_DCS_ApplyTPDUOption(d DCS, t *TPDU) bool { return t != nil }

func prop_C11_alphabet(d DCS, a Alphabet) {
	r, err := d.WithAlphabet(a)
	if err != nil {
		vcAssert(r == d)
		return
	}
	vcAssert(a >= Alpha7Bit && a <= AlphaReserved)
	got, err := r.Alphabet()
	vcAssert(err == nil)
	vcAssert(got == a || a == AlphaReserved && got == Alpha7Bit)
	vcAssert((r^d)&0xf3 == 0)
	c0, e0 := d.Class()
	c1, e1 := r.Class()
	vcAssert(c0 == c1 && (e0 == nil) == (e1 == nil))
	vcAssert(r.Compressed() == d.Compressed())
}

func prop_C11_class(d DCS, c MessageClass) {
	r, err := d.WithClass(c)
	if err != nil {
		vcAssert(r == d)
		return
	}
	vcAssert(c >= MClass0 && c <= MClass3)
	got, err := r.Class()
	vcAssert(err == nil && got == c)
	vcAssert((r^d)&0xec == 0)
	a0, e0 := d.Alphabet()
	a1, e1 := r.Alphabet()
	vcAssert(a0 == a1 && e0 == nil && e1 == nil)
	vcAssert(r.Compressed() == d.Compressed())
}

// every value can be set where the group provides for it
func prop_C11_settable(d DCS, a Alphabet, c MessageClass) {
	_, err := d.WithAlphabet(a)
	if a >= Alpha7Bit && a <= AlphaUCS2 && d < 0x80 {
		vcAssert(err == nil)
	}
	_, err = d.WithClass(c)
	if c >= MClass0 && c <= MClass3 && (d < 0x80 || d >= 0xf0) {
		vcAssert(err == nil)
	}
}
