package tpdu

// ---- what is only read ----

func auxCutting(t TPDU, msg []byte, mr, cr Counter) {
	vcReq(mr != nil && cr != nil && mr != cr)
	vcReq(vcCalls(mr) >= 0 && vcCalls(mr) < 1<<40 && vcCalls(cr) >= 0 && vcCalls(cr) < 1<<40)
	vcReq(spec_long(&t, msg, 5))
	t.Segment(msg)
	t.Segment(msg, WithMR(mr), WithConcatRef(cr))
}
func prop_C23_segment7(t TPDU, msg []byte, mr, cr Counter) {
	vcReq(spec_alpha2(t.DCS) == Alpha7Bit)
	auxCutting(t, msg, mr, cr)
}
func prop_C23_segment8(t TPDU, msg []byte, mr, cr Counter) {
	vcReq(spec_alpha2(t.DCS) == Alpha8Bit)
	auxCutting(t, msg, mr, cr)
}
func prop_C23_segmentU(t TPDU, msg []byte, mr, cr Counter) {
	vcReq(spec_alpha2(t.DCS) == AlphaUCS2)
	auxCutting(t, msg, mr, cr)
}

// auxReplace: replacing and adding elements of one header changes no other; the loop over the
// segments allocates each (hnt_TPDU_Segment_1).
func auxReplace(r []TPDU, k, j int, ie InformationElement) {
	vcNative(func() {
		if j < 0 || j >= len(r) || j == k {
			j = k
		}
		n := len(r[j].UDH)
		var old UserDataHeader
		for _, e := range r[j].UDH {
			old = append(old, e)
		}
		u := append(r[k].UDH, ie)
		for i := range r[k].UDH {
			r[k].UDH[i] = ie
		}
		for i := range u {
			u[i] = ie
		}
		if j != k {
			vcAssert(len(r[j].UDH) == n)
			for i := range old {
				vcAssert(r[j].UDH[i].ID == old[i].ID && vcEq(r[j].UDH[i].Data, old[i].Data))
			}
		}
	})
}
func prop_C23_headers(t TPDU, msg []byte, k, j int, ie InformationElement) {
	vcReq(spec_long(&t, msg, 5))
	r := t.Segment(msg)
	vcReq(0 <= k && k < len(r))
	auxReplace(r, k, j, ie)
}
func prop_C23_header(t TPDU, msg []byte, ie InformationElement) {
	vcReq(spec_template(&t) && len(msg) > 0 && len(msg) <= 1<<40 && (spec_alpha2(t.DCS) != AlphaUCS2 || len(msg)%2 == 0))
	vcReq(spec_fits(spec_alpha2(t.DCS), spec_cap(&t), spec_udhLen(t.UDH), len(msg)))
	r := t.Segment(msg)
	vcReq(len(t.UDH) > 0)
	r[0].UDH[0] = ie
	r[0].UDH = append(r[0].UDH, ie)
}

// marshalling only reads the TPDU
func auxMarshal(t TPDU, st SmsType) {
	vcReq(spec_type(t.Direction, byte(t.FirstOctet&3)) == st && spec_udPlain(&t))
	t.MarshalBinary()
}
func prop_C23_marshalSubmit(t TPDU)        { auxMarshal(t, SmsSubmit) }
func prop_C23_marshalDeliver(t TPDU)       { auxMarshal(t, SmsDeliver) }
func prop_C23_marshalDeliverReport(t TPDU) { auxMarshal(t, SmsDeliverReport) }
func prop_C23_marshalSubmitReport(t TPDU)  { auxMarshal(t, SmsSubmitReport) }
func prop_C23_marshalStatusReport(t TPDU)  { auxMarshal(t, SmsStatusReport) }
func prop_C23_marshalCommand(t TPDU)       { auxMarshal(t, SmsCommand) }

// unmarshalling only reads the octets
func prop_C23_submit(b []byte, t0 TPDU) {
	vcReq(spec_len(b) && (len(b) == 0 || b[0]&3 == 1))
	auxUnmarshal(t0, b, MO)
}
func prop_C23_deliver(b []byte, t0 TPDU) {
	vcReq(spec_len(b) && (len(b) == 0 || b[0]&3 == 0))
	auxUnmarshal(t0, b, MT)
}
func prop_C23_deliverReport(b []byte, t0 TPDU) {
	vcReq(spec_len(b) && (len(b) == 0 || b[0]&3 == 0))
	auxUnmarshal(t0, b, MO)
}
func prop_C23_submitReport(b []byte, t0 TPDU) {
	vcReq(spec_len(b) && (len(b) == 0 || b[0]&3 == 1))
	auxUnmarshal(t0, b, MT)
}
func prop_C23_statusReport(b []byte, t0 TPDU) {
	vcReq(spec_len(b) && (len(b) == 0 || b[0]&3 == 2))
	auxUnmarshal(t0, b, MT)
}
func prop_C23_command(b []byte, t0 TPDU) {
	vcReq(spec_len(b) && (len(b) == 0 || b[0]&3 == 2))
	auxUnmarshal(t0, b, MO)
}

// text is only read, and so are the user data and header it is read from
func prop_C23_text(ud UserData, udh UserDataHeader, a Alphabet) {
	vcReq(len(ud) <= 1<<40)
	DecodeUserData(ud, udh, a, WithAllCharsets)
}
func prop_C23_someText(ud UserData, udh UserDataHeader, a Alphabet, l, x int) {
	vcReq(len(ud) <= 1<<40)
	DecodeUserData(ud, udh, a, WithLockingCharset(l), WithShiftCharset(x))
}
