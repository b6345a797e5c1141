package tpdu

// ---- what is accepted has the length it states, and an error tells where the octets are wrong ----

// spec_within: a decoding error is at an octet of the n, or where the next would be.
func spec_within(err error, n int) bool {
	if d, ok := err.(DecodeError); ok {
		return d.Offset >= 0 && d.Offset <= n
	}
	return true
}

// spec_stated: the octets from o are a length, and user data of that length.
func spec_stated(b []byte, d DCS, o int) bool {
	return o < len(b) && (b[o] == 0 || spec_alphaOK(d) && len(b) == o+1+spec_udStated(spec_alpha2(d), int(b[o])))
}

func auxRead(b []byte, d Direction) (TPDU, error) {
	var t TPDU
	t.Direction = d
	err := t.UnmarshalBinary(b)
	vcAssert(spec_within(err, len(b)))
	return t, err
}

// spec_udSubmit is where the user data of a SUBMIT starts.
func spec_udSubmit(b []byte) int {
	return 4 + spec_addrUsed(int(b[2])) + spec_vpUsed(ValidityPeriodFormat(b[0]>>3&3))
}

func prop_C25_submit(b []byte) {
	vcReq(len(b) > 0 && len(b) <= 1<<40 && b[0]&3 == 1)
	t, err := auxRead(b, MO)
	if err == nil {
		vcAssert(len(b) > 2 && spec_udSubmit(b) < len(b))
		vcAssert(byte(t.DCS) == b[3+spec_addrUsed(int(b[2]))])
		vcAssert(spec_stated(b, t.DCS, spec_udSubmit(b)))
	}
}

// no part of a SUBMIT that ends with its user data is one
func prop_C25_submitPart(b []byte, k int) {
	vcReq(len(b) > 0 && len(b) <= 1<<40 && b[0]&3 == 1 && 0 <= k && k < len(b))
	t, err := auxRead(b, MO)
	vcReq(err == nil)
	vcAssert(spec_stated(b, t.DCS, spec_udSubmit(b)))
	vcReq(b[spec_udSubmit(b)] != 0 || len(b) == spec_udSubmit(b)+1)
	c := b[:k]
	u, err := auxRead(c, MO)
	if err == nil {
		vcAssert(k > 2 && spec_stated(c, u.DCS, spec_udSubmit(c)))
		vcAssert(u.DCS == t.DCS)
		vcAssert(false)
	}
}

// spec_udDeliver is where the user data of a DELIVER starts.
func spec_udDeliver(b []byte) int { return 10 + spec_addrUsed(int(b[1])) }

func prop_C25_deliver(b []byte) {
	vcReq(len(b) > 0 && len(b) <= 1<<40 && b[0]&3 == 0)
	t, err := auxRead(b, MT)
	if err == nil {
		vcAssert(len(b) > 1 && spec_udDeliver(b) < len(b))
		vcAssert(byte(t.DCS) == b[2+spec_addrUsed(int(b[1]))])
		vcAssert(spec_stated(b, t.DCS, spec_udDeliver(b)))
	}
}

func prop_C25_deliverPart(b []byte, k int) {
	vcReq(len(b) > 0 && len(b) <= 1<<40 && b[0]&3 == 0 && 0 <= k && k < len(b))
	t, err := auxRead(b, MT)
	vcReq(err == nil)
	vcAssert(spec_stated(b, t.DCS, spec_udDeliver(b)))
	vcReq(b[spec_udDeliver(b)] != 0 || len(b) == spec_udDeliver(b)+1)
	c := b[:k]
	u, err := auxRead(c, MT)
	if err == nil {
		vcAssert(k > 1 && spec_stated(c, u.DCS, spec_udDeliver(c)))
		vcAssert(u.DCS == t.DCS)
		vcAssert(false)
	}
}

// auxOptional: the fields at o that the parameter indicator states.
func auxOptional(b []byte, t TPDU, p PI, o int) {
	vcAssert(t.PI == p)
	if p&4 != 0 {
		n := o
		if p&1 != 0 {
			n++
		}
		if p&2 != 0 {
			n++
		}
		vcAssert(n < len(b))
		vcAssert(spec_stated(b, t.DCS, n))
	}
}

func prop_C25_deliverReport(b []byte) {
	vcReq(len(b) > 0 && len(b) <= 1<<40 && b[0]&3 == 0)
	t, err := auxRead(b, MO)
	if err == nil {
		vcAssert(len(b) > 2)
		auxOptional(b, t, PI(b[2]), 3)
	}
}

func prop_C25_submitReport(b []byte) {
	vcReq(len(b) > 0 && len(b) <= 1<<40 && b[0]&3 == 1)
	t, err := auxRead(b, MT)
	if err == nil {
		vcAssert(len(b) > 9)
		auxOptional(b, t, PI(b[2]), 10)
	}
}

func prop_C25_statusReport(b []byte) {
	vcReq(len(b) > 0 && len(b) <= 1<<40 && b[0]&3 == 2)
	t, err := auxRead(b, MT)
	if err == nil {
		vcAssert(len(b) > 2)
		o := 2 + spec_addrUsed(int(b[2])) + 15
		vcAssert(o <= len(b))
		if o < len(b) {
			auxOptional(b, t, PI(b[o]), o+1)
		} else {
			vcAssert(t.PI == 0)
		}
	}
}

func prop_C25_command(b []byte) {
	vcReq(len(b) > 0 && len(b) <= 1<<40 && b[0]&3 == 2)
	t, err := auxRead(b, MO)
	if err == nil {
		vcAssert(len(b) > 5)
		o := 5 + spec_addrUsed(int(b[5]))
		vcAssert(o < len(b))
		vcAssert(b[o] == 0 || len(b) == o+1+int(b[o]))
		vcAssert(t.DCS == Dcs8BitData && spec_stated(b, t.DCS, o))
	}
}

// the type that no direction has
func prop_C25_none(b []byte, d Direction) {
	vcReq(len(b) <= 1<<40 && d <= MO && (len(b) == 0 || b[0]&3 == 3))
	_, err := auxRead(b, d)
	vcAssert(err != nil)
}
