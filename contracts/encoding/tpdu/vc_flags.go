package tpdu

func ens_FirstOctet_LP(f FirstOctet, r bool) bool   { return r == (f>>3&1 == 1) }
func ens_FirstOctet_MMS(f FirstOctet, r bool) bool  { return r == (f>>2&1 == 1) }
func ens_FirstOctet_RD(f FirstOctet, r bool) bool   { return r == (f>>2&1 == 1) }
func ens_FirstOctet_RP(f FirstOctet, r bool) bool   { return r == (f>>7&1 == 1) }
func ens_FirstOctet_SRI(f FirstOctet, r bool) bool  { return r == (f>>5&1 == 1) }
func ens_FirstOctet_SRR(f FirstOctet, r bool) bool  { return r == (f>>5&1 == 1) }
func ens_FirstOctet_SRQ(f FirstOctet, r bool) bool  { return r == (f>>5&1 == 1) }
func ens_FirstOctet_UDHI(f FirstOctet, r bool) bool { return r == (f>>6&1 == 1) }
func ens_FirstOctet_MTI(f FirstOctet, r MessageType) bool {
	return r == MessageType(f&3)
}
func ens_FirstOctet_VPF(f FirstOctet, r ValidityPeriodFormat) bool {
	return r == ValidityPeriodFormat(f>>3&3)
}
func ens_FirstOctet_WithMTI(f FirstOctet, mti MessageType, r FirstOctet) bool {
	return r == f&0xfc|FirstOctet(mti)&3
}
func ens_FirstOctet_WithVPF(f FirstOctet, vpf ValidityPeriodFormat, r FirstOctet) bool {
	return r == f&0xe7|FirstOctet(vpf)&3<<3
}

func ens_PI_PID(p PI, r bool) bool { return r == (p&1 == 1) }
func ens_PI_DCS(p PI, r bool) bool { return r == (p>>1&1 == 1) }
func ens_PI_UDL(p PI, r bool) bool { return r == (p>>2&1 == 1) }

// spec_type is the message type of a TPDU, by direction and message type indicator.
func spec_type(dir Direction, mti byte) SmsType {
	if dir == MT {
		switch mti {
		case 0:
			return SmsDeliver
		case 1:
			return SmsSubmitReport
		case 2:
			return SmsStatusReport
		}
		return 6
	}
	switch mti {
	case 0:
		return SmsDeliverReport
	case 1:
		return SmsSubmit
	case 2:
		return SmsCommand
	}
	return 7
}

func spec_dir(d Direction) bool { return d == MT || d == MO }

func ens_TPDU_SmsType(t *TPDU, r SmsType) bool {
	return !spec_dir(t.Direction) || r == spec_type(t.Direction, byte(t.FirstOctet)&3)
}
func ens_TPDU_MTI(t *TPDU, r MessageType) bool { return r == MessageType(t.FirstOctet&3) }
func ens_TPDU_UDHI(t *TPDU, r bool) bool       { return r == (t.FirstOctet>>6&1 == 1) }


func ens_SmsType_MTI(st SmsType, r MessageType) bool {
	return st < 0 || st > SmsCommand || r >= 0 && r <= MtCommand && spec_type(Direction(st&1), byte(r)) == st
}
func ens_SmsType_Direction(st SmsType, r Direction) bool {
	return st < 0 || st > SmsCommand || r == MT && (st == SmsDeliver || st == SmsSubmitReport || st == SmsStatusReport) ||
		r == MO && (st == SmsDeliverReport || st == SmsSubmit || st == SmsCommand)
}

// spec_same: everything but first octet, direction and parameter indicator is unchanged.
func spec_same(a, b *TPDU) bool {
	return a.FCS == b.FCS && a.MR == b.MR && a.CT == b.CT && a.MN == b.MN && a.ST == b.ST && a.OA == b.OA && a.DA == b.DA && a.RA == b.RA &&
		a.SCTS == b.SCTS && a.DT == b.DT
}

func prop_C24_type(t0 TPDU, st SmsType) {
	t := &t0
	o := *t
	err := t.SetSmsType(st)
	vcAssert(spec_same(t, &o) && t.PI == o.PI && t.PID == o.PID && t.DCS == o.DCS && t.VP == o.VP && spec_eqUD(t, &o) && spec_eqUDH(t, &o))
	vcAssert((err == nil) == (st >= SmsDeliver && st <= SmsCommand))
	if err != nil {
		vcAssert(err == ErrInvalid && t.FirstOctet == o.FirstOctet && t.Direction == o.Direction)
		return
	}
	vcAssert(t.SmsType() == st && t.MTI() == st.MTI() && t.Direction == st.Direction())
	vcAssert((t.FirstOctet^o.FirstOctet)&^3 == 0)
}

func spec_eqUD(a, b *TPDU) bool {
	return len(a.UD) == len(b.UD) && (len(a.UD) == 0 || &a.UD[0] == &b.UD[0]) && (a.UD == nil) == (b.UD == nil)
}
func spec_eqUDH(a, b *TPDU) bool {
	return len(a.UDH) == len(b.UDH) && (len(a.UDH) == 0 || &a.UDH[0] == &b.UDH[0]) && (a.UDH == nil) == (b.UDH == nil)
}

func prop_C24_dcs(t0 TPDU, d byte) {
	t := &t0
	o := *t
	t.SetDCS(d)
	vcAssert(t.DCS == DCS(d) && t.PI == o.PI|2 && t.PI.DCS())
	vcAssert(spec_same(t, &o) && t.FirstOctet == o.FirstOctet && t.Direction == o.Direction && t.PID == o.PID && t.VP == o.VP && spec_eqUD(t, &o) && spec_eqUDH(t, &o))
}

func prop_C24_pid(t0 TPDU, d byte) {
	t := &t0
	o := *t
	t.SetPID(d)
	vcAssert(t.PID == d && t.PI == o.PI|1 && t.PI.PID())
	vcAssert(spec_same(t, &o) && t.FirstOctet == o.FirstOctet && t.Direction == o.Direction && t.DCS == o.DCS && t.VP == o.VP && spec_eqUD(t, &o) && spec_eqUDH(t, &o))
}

func prop_C24_vp(t0 TPDU, vp ValidityPeriod) {
	t := &t0
	o := *t
	t.SetVP(vp)
	vcAssert(t.VP == vp && t.FirstOctet == o.FirstOctet&0xe7|FirstOctet(vp.Format)&3<<3)
	if vp.Format >= VpfNotPresent && vp.Format <= VpfAbsolute {
		vcAssert(t.FirstOctet.VPF() == vp.Format)
	}
	vcAssert(spec_same(t, &o) && t.PI == o.PI && t.Direction == o.Direction && t.PID == o.PID && t.DCS == o.DCS && spec_eqUD(t, &o) && spec_eqUDH(t, &o))
}

func prop_C24_ud(t0 TPDU, ud UserData) {
	t := &t0
	o := *t
	t.SetUD(ud)
	w := TPDU{UD: ud}
	vcAssert(spec_eqUD(t, &w))
	vcAssert(t.PI.UDL() == (ud != nil) && t.PI&0xfb == o.PI&0xfb)
	vcAssert(spec_same(t, &o) && t.FirstOctet == o.FirstOctet && t.Direction == o.Direction && t.PID == o.PID && t.DCS == o.DCS && t.VP == o.VP && spec_eqUDH(t, &o))
}

func prop_C24_udh(t0 TPDU, udh UserDataHeader) {
	t := &t0
	o := *t
	t.SetUDH(udh)
	w := TPDU{UDH: udh}
	vcAssert(spec_eqUDH(t, &w))
	vcAssert(t.UDHI() == (udh != nil) && t.FirstOctet&0xbf == o.FirstOctet&0xbf)
	if udh != nil {
		vcAssert(t.PI == o.PI|4)
	} else {
		vcAssert(t.PI == o.PI)
	}
	vcAssert(spec_same(t, &o) && t.Direction == o.Direction && t.PID == o.PID && t.DCS == o.DCS && t.VP == o.VP && spec_eqUD(t, &o))
}

func prop_C24_options(o1 Address, udh UserDataHeader, d DCS, st SmsType) {
	vcReq(st >= SmsDeliver && st <= SmsCommand)
	t, err := New(st, WithOA(o1), WithDA(o1), d)
	vcAssert(err == nil && t.OA == o1 && t.DA == o1 && t.SmsType() == st && t.DCS == d && t.PI == 2)
	t, err = New(WithUDH(udh), st.MTI(), st.Direction())
	w := TPDU{UDH: udh}
	vcAssert(err == nil && spec_eqUDH(t, &w) && t.UDHI() == (udh != nil) && t.SmsType() == st)
	t, err = NewSubmit()
	vcAssert(err == nil && t.SmsType() == SmsSubmit)
	t, err = NewDeliver()
	vcAssert(err == nil && t.SmsType() == SmsDeliver)
}
