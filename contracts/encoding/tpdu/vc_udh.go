package tpdu

// rec_udhl is the encoded length of the first n elements.
func rec_udhl(u UserDataHeader, n int) int {
	if n <= 0 {
		return 0
	}
	return rec_udhl(u, n-1) + 2 + len(u[n-1].Data)
}

// spec_smallUDH: lengths are far from the limits of machine arithmetic.
func spec_smallUDH(u UserDataHeader) bool {
	return len(u) <= 1<<20 && vcForall(0, len(u), func(i int) bool { return len(u[i].Data) <= 1<<20 })
}

func req_UserDataHeader_UDHL(udh UserDataHeader) bool          { return spec_smallUDH(udh) }
func req_UserDataHeader_MarshalBinary(udh UserDataHeader) bool { return spec_smallUDH(udh) }
func ens_UserDataHeader_UDHL(udh UserDataHeader, r int) bool { return r == rec_udhl(udh, len(udh)) && r >= 2*len(udh) && r <= len(udh)<<21 }
func inv_UserDataHeader_UDHL_0(vck int, udh UserDataHeader, udhl int) bool {
	return udhl == rec_udhl(udh, vck) && udhl >= 2*vck && udhl <= vck<<21
}

// spec_ie: b holds the element at k.
func spec_ie(b []byte, k int, ie InformationElement) bool {
	return k >= 0 && k+2+len(ie.Data) <= len(b) && b[k] == ie.ID && (len(ie.Data) > 255 || int(b[k+1]) == len(ie.Data)) &&
		vcForall(0, len(ie.Data), func(j int) bool { return b[k+2+j] == ie.Data[j] })
}

// spec_udh: b is the binary form of the header.
func spec_udh(b []byte, u UserDataHeader) bool {
	if len(u) == 0 {
		return len(b) == 0
	}
	return len(b) == 1+rec_udhl(u, len(u)) && (rec_udhl(u, len(u)) > 255 || int(b[0]) == rec_udhl(u, len(u))) &&
		vcForall(0, len(u), func(i int) bool { return spec_ie(b, 1+rec_udhl(u, i), u[i]) })
}

func ens_UserDataHeader_MarshalBinary(udh UserDataHeader, b []byte, err error) bool {
	return err == nil && spec_udh(b, udh)
}

func inv_UserDataHeader_MarshalBinary_0(vck int, udh UserDataHeader, udhl int, b []byte) bool {
	return len(b) == 1+rec_udhl(udh, vck) && (udhl > 255 || int(b[0]) == udhl) && rec_udhl(udh, vck) >= 2*vck && rec_udhl(udh, vck) <= vck<<21 &&
		vcForall(0, vck, func(i int) bool { return spec_ie(b, 1+rec_udhl(udh, i), udh[i]) })
}

// lem_udhl: lengths increase.
func lem_udhl(u UserDataHeader, a, b int) {
	if b > a {
		lem_udhl(u, a, b-1)
	}
}
func req_lem_udhl(u UserDataHeader, a, b int) bool { return 0 <= a && a <= b && b <= len(u) }
func ens_lem_udhl(u UserDataHeader, a, b int) bool { return rec_udhl(u, b)-rec_udhl(u, a) >= 2*(b-a) }

func hnt_UserDataHeader_MarshalBinary_0(vck int, udh UserDataHeader, b []byte) {
	vcAssert(spec_ie(b, 1+rec_udhl(udh, vck-1), udh[vck-1]))
	vcAssert(vcForall(0, vck-1, func(i int) bool { return spec_ie(b, 1+rec_udhl(udh, i), udh[i]) }))
}

// ---- unmarshalling ----

// rec_pos is where element i begins.
func rec_pos(src []byte, i int) int {
	if i <= 0 {
		return 1
	}
	p := rec_pos(src, i-1)
	if p+1 < 0 || p+1 >= len(src) {
		return p + 2
	}
	return p + 2 + int(src[p+1])
}

// lem_pos: positions increase.
func lem_pos(src []byte, a, b int) {
	if b > a {
		lem_pos(src, a, b-1)
	} else if a > 0 {
		lem_pos(src, 0, a-1)
	}
}
func req_lem_pos(src []byte, a, b int) bool { return 0 <= a && a <= b }
func ens_lem_pos(src []byte, a, b int) bool {
	return rec_pos(src, b)-rec_pos(src, a) >= 2*(b-a) && rec_pos(src, a) >= 1 && rec_pos(src, b)-rec_pos(src, a) <= 257*(b-a)
}

// spec_broken: element k does not fit within udhl octets.
func spec_broken(src []byte, k, udhl int) bool {
	p := rec_pos(src, k)
	return p < udhl && (p+2 > udhl || p+2+int(src[p+1]) > udhl)
}

func spec_ies(src []byte, u UserDataHeader) bool {
	return vcForall(0, len(u), func(i int) bool { return spec_ie(src, rec_pos(src, i), u[i]) && len(u[i].Data) <= 255 })
}

func req_UserDataHeader_UnmarshalBinary(udh *UserDataHeader, src []byte) bool { return udh != nil }
func mod_UserDataHeader_UnmarshalBinary(udh *UserDataHeader, src []byte) []interface{} {
	return []interface{}{udh}
}
func ens_UserDataHeader_UnmarshalBinary(udh *UserDataHeader, src []byte, n int, err error) bool {
	if spec_udhBad(src) {
		return err != nil && n >= 0 && n <= len(src) && spec_within(err, len(src))
	}
	u := *udh
	return err == nil && len(src) >= 1 && n == int(src[0])+1 && n <= len(src) && rec_pos(src, len(u)) == n && len(u) <= 127 && spec_ies(src, u)
}


// spec_udhBad: the header does not fit the octets.
func spec_udhBad(src []byte) bool {
	return len(src) < 1 || len(src) < int(src[0])+1 || vcExists(0, 128, func(k int) bool { return spec_broken(src, k, int(src[0])+1) })
}

// lem_end: nothing is broken where the header has ended.
func lem_end(src []byte, a, b, n int) {
	if b > a {
		lem_end(src, a, b-1, n-1)
		lem_pos(src, a, b-1)
	}
}
func req_lem_end(src []byte, a, b, n int) bool {
	return len(src) > 0 && 0 <= a && a <= b && n == b-a && rec_pos(src, a) == int(src[0])+1
}
func ens_lem_end(src []byte, a, b, n int) bool {
	return vcForall(a, b, func(k int) bool { return !spec_broken(src, k, int(src[0])+1) })
}
func hnt_UserDataHeader_UnmarshalBinary(udh *UserDataHeader, src []byte, n int, err error) {
	if err == nil {
		u := *udh
		vcAssert(rec_pos(src, len(u)) == n && len(u) <= 127)
		lem_end(src, len(u), 128, 128-len(u))
	}
}

func inv_UserDataHeader_UnmarshalBinary_0(src []byte, udhl, ri int, ies []InformationElement) bool {
	return vcForall(0, len(ies), func(k int) bool { return !spec_broken(src, k, udhl) }) && ri >= 1 && ri <= udhl && 2*len(ies) < ri && ri == rec_pos(src, len(ies)) && spec_ies(src, UserDataHeader(ies))
}
func dec_UserDataHeader_UnmarshalBinary_0(udhl, ri int) int { return udhl - ri }

// ---- round trip ----

// lem_layout: the elements of an encoded header are found where they were put.
func lem_layout(b []byte, u UserDataHeader, n int) {
	if n > 0 {
		lem_layout(b, u, n-1)
		lem_udhl(u, 0, n-1)
		lem_udhl(u, n, len(u))
		vcAssert(spec_ie(b, 1+rec_udhl(u, n-1), u[n-1]))
		vcAssert(rec_pos(b, n) == 1+rec_udhl(u, n))
	}
}

func spec_ieSmall(u UserDataHeader) bool {
	return vcForall(0, len(u), func(i int) bool { return len(u[i].Data) <= 255 })
}
// spec_at: b holds all the elements.
func spec_at(b []byte, u UserDataHeader) bool {
	return vcForall(0, len(u), func(i int) bool { return spec_ie(b, 1+rec_udhl(u, i), u[i]) })
}
func req_lem_layout(b []byte, u UserDataHeader, n int) bool {
	return 0 < len(u) && 0 <= n && n <= len(u) && rec_udhl(u, len(u)) <= 255 && 1+rec_udhl(u, len(u)) <= len(b) && spec_at(b, u) && spec_ieSmall(u)
}
func ens_lem_layout(b []byte, u UserDataHeader, n int) bool {
	return vcForall(0, n+1, func(i int) bool { return rec_pos(b, i) == 1+rec_udhl(u, i) })
}

func prop_C17_roundtrip(u UserDataHeader, more []byte) {
	vcReq(len(u) <= 127 && spec_ieSmall(u) && u.UDHL() <= 255)
	b, err := u.MarshalBinary()
	vcAssert(err == nil && spec_udh(b, u))
	if len(u) == 0 {
		return
	}
	n := len(b)
	b = append(b, more...)
	vcAssert(spec_at(b, u))
	lem_layout(b, u, len(u))
	vcAssert(rec_pos(b, len(u)) == n && int(b[0])+1 == n)
	var w UserDataHeader
	m, err := w.UnmarshalBinary(b)
	if err != nil {
		lem_notBroken(b, u, 128)
	}
	vcAssert(err == nil)
	vcAssert(m == n)
	lem_pos(b, len(u), len(w))
	lem_pos(b, len(w), len(u))
	vcAssert(len(w) == len(u))
	vcAssert(vcForall(0, len(u), func(i int) bool {
		return w[i].ID == u[i].ID && len(w[i].Data) == len(u[i].Data)
	}))
	vcAssert(vcForall(0, len(u), func(i int) bool {
		return vcForall(0, len(u[i].Data), func(j int) bool { return w[i].Data[j] == u[i].Data[j] })
	}))
}

// lem_notBroken: no element of an encoded header is broken.
func lem_notBroken(b []byte, u UserDataHeader, n int) {
	if n > 0 {
		lem_notBroken(b, u, n-1)
		if n-1 < len(u) {
			lem_udhl(u, 0, n-1)
			lem_udhl(u, n, len(u))
			vcAssert(spec_ie(b, 1+rec_udhl(u, n-1), u[n-1]))
		} else {
			lem_pos(b, len(u), n-1)
		}
	}
}
func req_lem_notBroken(b []byte, u UserDataHeader, n int) bool {
	return n >= 0 && req_lem_layout(b, u, len(u)) && ens_lem_layout(b, u, len(u)) && rec_udhl(u, len(u)) <= 255 && int(b[0]) == rec_udhl(u, len(u))
}
func ens_lem_notBroken(b []byte, u UserDataHeader, n int) bool {
	return !vcExists(0, n, func(k int) bool { return spec_broken(b, k, int(b[0])+1) })
}

// ---- lookups ----

// rec_last is the index of the last of the first n elements that has the identifier, or -1.
func rec_last(u UserDataHeader, id byte, n int) int {
	if n <= 0 {
		return -1
	}
	if u[n-1].ID == id {
		return n - 1
	}
	return rec_last(u, id, n-1)
}

// lem_last: it is one of the elements, and has the identifier, or there is none.
func lem_last(u UserDataHeader, id byte, n int) {
	if n > 0 {
		lem_last(u, id, n-1)
	}
}
func req_lem_last(u UserDataHeader, id byte, n int) bool { return n >= 0 && n <= len(u) }
func ens_lem_last(u UserDataHeader, id byte, n int) bool {
	i := rec_last(u, id, n)
	if i < 0 {
		return i == -1 && vcForall(0, n, func(j int) bool { return u[j].ID != id })
	}
	return i < n && u[i].ID == id && vcForall(i+1, n, func(j int) bool { return u[j].ID != id })
}

// SpecLast is the index of the last element that has the identifier, or -1.
func SpecLast(u UserDataHeader, id byte) int { return rec_last(u, id, len(u)) }

func ens_UserDataHeader_IE(udh UserDataHeader, id byte, ie InformationElement, ok bool) bool {
	i := SpecLast(udh, id)
	if i < 0 {
		return !ok && ie.ID == 0 && len(ie.Data) == 0
	}
	return ok && i < len(udh) && ie.ID == id && len(ie.Data) == len(udh[i].Data) &&
		vcForall(0, len(ie.Data), func(j int) bool { return ie.Data[j] == udh[i].Data[j] })
}

// the element's data is shared with the header
func alias_UserDataHeader_IE() {}

func inv_UserDataHeader_IE_0(vck int, udh UserDataHeader, id byte) bool {
	return vck <= len(udh) && rec_last(udh, id, len(udh)) == rec_last(udh, id, len(udh)-vck)
}

// rec_count counts the elements with an identifier.
func rec_count(u UserDataHeader, id byte, n int) int {
	if n <= 0 {
		return 0
	}
	if u[n-1].ID == id {
		return rec_count(u, id, n-1) + 1
	}
	return rec_count(u, id, n-1)
}

// spec_collected: ies holds, in order, the elements of the first n that have the identifier.
func spec_collected(u UserDataHeader, id byte, n int, ies []InformationElement) bool {
	return len(ies) == rec_count(u, id, n) && vcForall(0, n, func(i int) bool {
		return u[i].ID != id || rec_count(u, id, i) < len(ies) && ies[rec_count(u, id, i)].ID == id &&
			len(ies[rec_count(u, id, i)].Data) == len(u[i].Data) &&
			vcForall(0, len(u[i].Data), func(j int) bool { return ies[rec_count(u, id, i)].Data[j] == u[i].Data[j] })
	})
}
func ens_UserDataHeader_IEs(udh UserDataHeader, id byte, ies []InformationElement) bool {
	return spec_collected(udh, id, len(udh), ies)
}
func hnt_UserDataHeader_IE(udh UserDataHeader, id byte, ie InformationElement, ok bool) {
	lem_last(udh, id, len(udh))
}
func inv_UserDataHeader_IEs_0(vck int, udh UserDataHeader, id byte, ies []InformationElement) bool {
	return len(ies) <= vck && spec_collected(udh, id, vck, ies)
}

// The concatenation details are those of the last element with the identifier, provided it
// has the right size; the short form comes first.
func spec_has8(u UserDataHeader) bool {
	i := SpecLast(u, 0)
	return i >= 0 && len(u[i].Data) == 3
}
func spec_has16(u UserDataHeader) bool {
	i := SpecLast(u, 8)
	return i >= 0 && len(u[i].Data) == 4
}
func spec_concat8(u UserDataHeader, segments, seqno, mref int) bool {
	i := SpecLast(u, 0)
	return mref == int(u[i].Data[0]) && segments == int(u[i].Data[1]) && seqno == int(u[i].Data[2])
}
func spec_concat16(u UserDataHeader, segments, seqno, mref int) bool {
	i := SpecLast(u, 8)
	return mref == int(u[i].Data[0])*256+int(u[i].Data[1]) && segments == int(u[i].Data[2]) && seqno == int(u[i].Data[3])
}

// SpecConcat: the header has concatenation details, and SpecSegments, SpecSeqno and SpecMref are they.
func SpecConcat(u UserDataHeader) bool { return spec_has8(u) || spec_has16(u) }
func SpecSegments(u UserDataHeader) int {
	if spec_has8(u) {
		return int(u[SpecLast(u, 0)].Data[1])
	}
	if spec_has16(u) {
		return int(u[SpecLast(u, 8)].Data[2])
	}
	return 0
}
func SpecSeqno(u UserDataHeader) int {
	if spec_has8(u) {
		return int(u[SpecLast(u, 0)].Data[2])
	}
	if spec_has16(u) {
		return int(u[SpecLast(u, 8)].Data[3])
	}
	return 0
}
func SpecMref(u UserDataHeader) int {
	if spec_has8(u) {
		return int(u[SpecLast(u, 0)].Data[0])
	}
	if spec_has16(u) {
		return int(u[SpecLast(u, 8)].Data[0])*256 + int(u[SpecLast(u, 8)].Data[1])
	}
	return 0
}

func ens_UserDataHeader_ConcatInfo8(udh UserDataHeader, segments, seqno, mref int, ok bool) bool {
	if !spec_has8(udh) {
		return !ok && segments == 0 && seqno == 0 && mref == 0
	}
	return ok && spec_concat8(udh, segments, seqno, mref)
}
func ens_UserDataHeader_ConcatInfo16(udh UserDataHeader, segments, seqno, mref int, ok bool) bool {
	if !spec_has16(udh) {
		return !ok && segments == 0 && seqno == 0 && mref == 0
	}
	return ok && spec_concat16(udh, segments, seqno, mref)
}
func hnt_UserDataHeader_ConcatInfo8(udh UserDataHeader, segments, seqno, mref int, ok bool) {
	lem_last(udh, 0, len(udh))
}
func hnt_UserDataHeader_ConcatInfo16(udh UserDataHeader, segments, seqno, mref int, ok bool) {
	lem_last(udh, 8, len(udh))
}
func ens_UserDataHeader_ConcatInfo(udh UserDataHeader, segments, seqno, mref int, ok bool) bool {
	return ok == SpecConcat(udh) && segments == SpecSegments(udh) && seqno == SpecSeqno(udh) && mref == SpecMref(udh) &&
		(!ok || segments >= 0 && segments <= 255 && seqno >= 0 && seqno <= 255 && mref >= 0 && mref <= 65535)
}
