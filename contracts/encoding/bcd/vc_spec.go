package bcd

// bcd: decimal digits in swapped nibbles; 0xF never appears in a valid value.

func spec_valid(b byte) bool { return b&0xf < 10 && b>>4 < 10 }

func ens_Decode(bcd byte, r int, err error) bool {
	if !spec_valid(bcd) {
		return err == ErrInvalidOctet(bcd) && r == 0
	}
	return err == nil && r == int(bcd&0xf)*10+int(bcd>>4)
}

func ens_Encode(i int, r byte, err error) bool {
	if i < 0 || i > 99 {
		return err == ErrInvalidInteger(i) && r == 0
	}
	return err == nil && spec_valid(r) && int(r&0xf)*10+int(r>>4) == i
}

func ens_DecodeSigned(bcd byte, r int, err error) bool {
	if bcd>>4 > 9 {
		return err == ErrInvalidOctet(bcd) && r == 0
	}
	m := int(bcd&7)*10 + int(bcd>>4)
	if bcd&8 != 0 {
		m = -m
	}
	return err == nil && r == m
}

func ens_EncodeSigned(s int, r byte, err error) bool {
	if s < -79 || s > 79 {
		return err == ErrInvalidInteger(s) && r == 0
	}
	m := int(r&7)*10 + int(r>>4)
	if s < 0 {
		m = -m
	}
	return err == nil && r>>4 <= 9 && m == s && (r&8 != 0) == (s < 0)
}
