package tpdu

// ---- any octets, any direction, any object to read into ----

func spec_len(b []byte) bool { return len(b) <= 1<<40 }

func prop_C01_submit(t0 TPDU, b []byte) {
	vcReq(spec_len(b) && (len(b) == 0 || b[0]&3 == 1))
	auxUnmarshal(t0, b, MO)
}
func prop_C01_deliver(t0 TPDU, b []byte) {
	vcReq(spec_len(b) && (len(b) == 0 || b[0]&3 == 0))
	auxUnmarshal(t0, b, MT)
}
func prop_C01_deliverReport(t0 TPDU, b []byte) {
	vcReq(spec_len(b) && (len(b) == 0 || b[0]&3 == 0))
	auxUnmarshal(t0, b, MO)
}
func prop_C01_submitReport(t0 TPDU, b []byte) {
	vcReq(spec_len(b) && (len(b) == 0 || b[0]&3 == 1))
	auxUnmarshal(t0, b, MT)
}
func prop_C01_statusReport(t0 TPDU, b []byte) {
	vcReq(spec_len(b) && (len(b) == 0 || b[0]&3 == 2))
	auxUnmarshal(t0, b, MT)
}
func prop_C01_command(t0 TPDU, b []byte) {
	vcReq(spec_len(b) && (len(b) == 0 || b[0]&3 == 2))
	auxUnmarshal(t0, b, MO)
}
func prop_C01_reserved(t0 TPDU, b []byte, d Direction) {
	vcReq(spec_len(b) && d <= MO && (len(b) == 0 || b[0]&3 == 3))
	auxUnmarshal(t0, b, d)
}
func auxUnmarshal(t0 TPDU, b []byte, d Direction) {
	t := &t0
	t.Direction = d
	t.UnmarshalBinary(b)
	t.Alphabet()
}

// whatever the user data of a TPDU is
func prop_C01_text(ud UserData, udh UserDataHeader, a Alphabet) {
	vcReq(len(ud) <= 1<<40)
	DecodeUserData(ud, udh, a, WithAllCharsets)
}
func prop_C01_plainText(ud UserData, udh UserDataHeader, a Alphabet) {
	vcReq(len(ud) <= 1<<40)
	DecodeUserData(ud, udh, a)
}
func prop_C01_someText(ud UserData, udh UserDataHeader, a Alphabet, l, x int) {
	vcReq(len(ud) <= 1<<40)
	DecodeUserData(ud, udh, a, WithLockingCharset(l), WithShiftCharset(x))
}
