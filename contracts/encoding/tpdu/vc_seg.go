package tpdu

// ---- dividing user data into segments ----

// spec_part: p is the octets of msg from a up to b.
func spec_part(msg, p []byte, a, b int) bool {
	return 0 <= a && a < b && b <= len(msg) && len(p) == b-a && vcForall(0, len(p), func(j int) bool { return p[j] == msg[a+j] })
}

func spec_min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func spec_cuts(msg []byte, bs int) bool { return bs >= 1 && bs <= 1<<20 && len(msg) <= 1<<40 }

// spec_parts8: the first n parts are the message in order, each of bs octets.
func spec_parts8(msg []byte, c [][]byte, bs, n int) bool {
	return vcForall(0, n, func(i int) bool { return spec_part(msg, c[i], i*bs, spec_min((i+1)*bs, len(msg))) })
}

func req_chunk8Bit(msg []byte, bs int) bool { return spec_cuts(msg, bs) }
func ens_chunk8Bit(msg []byte, bs int, c [][]byte) bool {
	if len(msg) == 0 {
		return len(c) == 0
	}
	return len(c) >= 1 && (len(c)-1)*bs < len(msg) && len(c)*bs >= len(msg) && spec_parts8(msg, c, bs, len(c))
}
func inv_chunk8Bit_0(vck int, msg []byte, bs int, chunks [][]byte, bstart, bend int) bool {
	return len(chunks) == vck && bstart == vck*bs && bend == bstart+bs && bstart < len(msg) && spec_parts8(msg, chunks, bs, vck)
}
func dec_chunk8Bit_0(msg []byte, bend int) int { return len(msg) - bend }

// rec_open: the septet at k is escaped by the one before it.
func rec_open(msg []byte, k int) bool {
	if k <= 0 || k > len(msg) {
		return false
	}
	return msg[k-1] == 0x1b && !rec_open(msg, k-1)
}

// rec_cut7 is where part i begins: parts of bs septets, less one where an escape would be cut off.
func rec_cut7(msg []byte, bs, i int) int {
	if i <= 0 {
		return 0
	}
	e := rec_cut7(msg, bs, i-1) + bs
	if e < len(msg) && rec_open(msg, e) {
		return e - 1
	}
	return e
}

func spec_parts7(msg []byte, c [][]byte, bs, n int) bool {
	return vcForall(0, n, func(i int) bool {
		return spec_part(msg, c[i], rec_cut7(msg, bs, i), spec_min(rec_cut7(msg, bs, i+1), len(msg))) && len(c[i]) <= bs
	}) && vcForall(0, n, func(i int) bool { return !rec_open(msg, rec_cut7(msg, bs, i)) })
}

func req_chunk7Bit(msg []byte, bs int) bool { return spec_cuts(msg, bs) && bs >= 2 }
func ens_chunk7Bit(msg []byte, bs int, c [][]byte) bool {
	if len(msg) == 0 {
		return len(c) == 0
	}
	return len(c) >= 1 && rec_cut7(msg, bs, len(c)-1) < len(msg) && rec_cut7(msg, bs, len(c)) >= len(msg) && spec_parts7(msg, c, bs, len(c))
}
func inv_chunk7Bit_0(vck int, msg []byte, bs int, chunks [][]byte, bstart, bend int) bool {
	return len(chunks) == vck && bstart == rec_cut7(msg, bs, vck) && bstart >= 0 && bend == bstart+bs && bstart < len(msg) && !rec_open(msg, bstart) && spec_parts7(msg, chunks, bs, vck)
}
func dec_chunk7Bit_0(msg []byte, bend int) int { return len(msg) - bend }
func inv_chunk7Bit_1(vck int, msg []byte, bs, bend, run int) bool {
	return run == vck && run >= 0 && run <= bs && rec_open(msg, bend) == (rec_open(msg, bend-run) != (run%2 == 1))
}

// ---- UCS-2 ----

// spec_hi: the unit before k is a high surrogate.
func spec_hi(msg []byte, k int) bool {
	return k >= 2 && k < len(msg) && msg[k-2]&0xfc == 0xd8
}

// rec_cutU is where part i begins: parts of bs octets, less one unit where that ends the part with a high surrogate.
func rec_cutU(msg []byte, bs, i int) int {
	if i <= 0 {
		return 0
	}
	e := rec_cutU(msg, bs, i-1) + bs
	if spec_hi(msg, e) {
		return e - 2
	}
	return e
}

func spec_split(msg []byte, k int) bool {
	return k >= 2 && k+2 <= len(msg) && msg[k-2]&0xfc == 0xd8 && msg[k]&0xfc == 0xdc
}

func spec_partsU(msg []byte, c [][]byte, bs, n int) bool {
	return vcForall(0, n, func(i int) bool {
		return spec_part(msg, c[i], rec_cutU(msg, bs, i), spec_min(rec_cutU(msg, bs, i+1), len(msg))) && len(c[i]) <= bs
	})
}

// spec_unitsU: the first n parts begin with a character.
func spec_unitsU(msg []byte, bs, n int) bool {
	return vcForall(0, n, func(i int) bool { return !spec_split(msg, rec_cutU(msg, bs, i)) }) &&
		vcForall(0, n, func(i int) bool { return rec_cutU(msg, bs, i)%2 == 0 })
}

func req_chunkUCS2(msg []byte, bs int) bool { return spec_cuts(msg, bs) && bs >= 4 && bs%2 == 0 }
func ens_chunkUCS2(msg []byte, bs int, c [][]byte) bool {
	if len(msg) == 0 {
		return len(c) == 0
	}
	return len(c) >= 1 && rec_cutU(msg, bs, len(c)-1) < len(msg) && rec_cutU(msg, bs, len(c)) >= len(msg) && spec_partsU(msg, c, bs, len(c)) && spec_unitsU(msg, bs, len(c))
}
func inv_chunkUCS2_0(vck int, msg []byte, old_bs, bs int, chunks [][]byte, bstart, bend int) bool {
	b := old_bs
	return bs == b && len(chunks) == vck && bstart == rec_cutU(msg, b, vck) && bstart >= 0 && bstart%2 == 0 && bend == bstart+b && bstart < len(msg) && !spec_split(msg, bstart) &&
		spec_partsU(msg, chunks, b, vck) && spec_unitsU(msg, b, vck+1)
}
func dec_chunkUCS2_0(msg []byte, bend int) int { return len(msg) - bend }

// ---- capacity ----

// spec_cap is the number of octets the user data of a message type can have.
func spec_cap(t *TPDU) int {
	ack := 0
	if t.FCS != 0 {
		ack = 1
	}
	switch spec_type(t.Direction, byte(t.FirstOctet&3)) {
	case SmsSubmit, SmsDeliver:
		return 140
	case SmsCommand:
		return 146
	case SmsSubmitReport:
		return 152 - ack
	case SmsDeliverReport:
		return 159 - ack
	case SmsStatusReport:
		return 131
	}
	return 0
}

// spec_fits: n septets or octets fit in c octets together with a header of h.
func spec_fits(a Alphabet, c, h, n int) bool {
	if a == Alpha7Bit {
		return h*8+spec_fill(h)+7*n <= c*8
	}
	return h+n <= c
}

// spec_block is the most that fits.
func spec_block(a Alphabet, c, h, n int) bool {
	return spec_fits(a, c, h, n) && (!spec_fits(a, c, h, n+1) || a == AlphaUCS2 && n%2 == 0 && !spec_fits(a, c, h, n+2)) && (a != AlphaUCS2 || n%2 == 0)
}

func req_TPDU_UDBlockSize(t *TPDU) bool { return t != nil && spec_smallUDH(t.UDH) && spec_dir(t.Direction) }
func ens_TPDU_UDBlockSize(t *TPDU, r int) bool {
	a, c, h := spec_alpha2(t.DCS), spec_cap(t), spec_udhLen(t.UDH)
	return spec_block(a, c, h, r)
}
func hnt_TPDU_UDBlockSize(t *TPDU, r int) { lem_udhl(t.UDH, 0, len(t.UDH)) }

func spec_chunks(msg []byte, c [][]byte, a Alphabet, bs int) bool {
	switch a {
	case Alpha8Bit:
		return ens_chunk8Bit(msg, bs, c)
	case AlphaUCS2:
		return ens_chunkUCS2(msg, bs, c)
	}
	return ens_chunk7Bit(msg, bs, c)
}

func req_chunk(msg []byte, alpha Alphabet, bs int) bool {
	return spec_cuts(msg, bs) && spec_blockOK(alpha, bs)
}
func ens_chunk(msg []byte, alpha Alphabet, bs int, c [][]byte) bool {
	return spec_chunks(msg, c, alpha, bs)
}

// spec_blockOK: there is room for a character.
func spec_blockOK(a Alphabet, bs int) bool {
	return a == Alpha8Bit && bs >= 1 || a == AlphaUCS2 && bs >= 4 && bs%2 == 0 || a != Alpha8Bit && a != AlphaUCS2 && bs >= 2
}

// ---- segmentation ----

// spec_as: the segment is the template but for reference, user data and header.
func spec_as(a, b *TPDU) bool {
	return a.Direction == b.Direction && a.FCS == b.FCS && a.CT == b.CT && a.MN == b.MN && a.ST == b.ST && a.OA == b.OA && a.DA == b.DA && a.RA == b.RA &&
		a.SCTS == b.SCTS && a.DT == b.DT && a.PID == b.PID && a.DCS == b.DCS && a.VP == b.VP && (a.FirstOctet^b.FirstOctet)&^0x40 == 0 && (a.PI^b.PI)&^4 == 0
}

// spec_ref: the element numbers the segment.
func spec_ref(ie InformationElement, wide bool, ref, n, i int) bool {
	d := ie.Data
	if wide {
		return ie.ID == 8 && len(d) == 4 && d[0] == byte(uint16(ref)>>8) && d[1] == byte(uint16(ref)) && d[2] == byte(n) && d[3] == byte(i)
	}
	return ie.ID == 0 && len(d) == 3 && d[0] == byte(ref) && d[1] == byte(n) && d[2] == byte(i)
}

// spec_header: the header is that of the template, followed by the number of the segment.
func spec_header(u, base UserDataHeader, wide bool, ref, n, i int) bool {
	return len(u) == len(base)+1 && spec_ref(u[len(base)], wide, ref, n, i) &&
		vcForall(0, len(base), func(j int) bool { return u[j].ID == base[j].ID && vcEq(u[j].Data, base[j].Data) })
}

func spec_seg(p, t *TPDU, base UserDataHeader, wide bool, ref, n, i int) bool {
	return spec_as(p, t) && p.FirstOctet&0x40 != 0 && p.PI&4 != 0 && spec_header(p.UDH, base, wide, ref, n, i)
}

func inv_TPDU_Segment_1(vck int, t TPDU, base UserDataHeader, chunks [][]byte, pdus []TPDU, count, concatRef int, cfg segmentationConfig) bool {
	wide := cfg.ief(0, 0, 0).ID == 8
	n := 0
	if cfg.cr != nil && cfg.cr != cfg.mr && vcCalls(cfg.cr) != vcOldInt(func() int { return vcCalls(cfg.cr) }) {
		return false
	}
	if cfg.mr != nil {
		n = vcOldInt(func() int { return vcCalls(cfg.mr) })
		if vcCalls(cfg.mr) != n+vck {
			return false
		}
	}
	return len(pdus) == count &&
		vcForall(0, vck, func(i int) bool { return spec_seg(&pdus[i], &t, base, wide, concatRef, count, i+1) }) &&
		vcForall(0, vck, func(i int) bool { return vcEq(pdus[i].UD, chunks[i]) }) &&
		vcForall(0, vck, func(i int) bool { return spec_mr(&pdus[i], &t, cfg.mr, n+i) })
}
func spec_mr(p, t *TPDU, mr Counter, n int) bool {
	return mr == nil && p.MR == t.MR || mr != nil && p.MR == byte(vcCall(mr, n))
}
func hnt_TPDU_Segment_1(vck int, t TPDU, base UserDataHeader, chunks [][]byte, pdus []TPDU, count, concatRef int, cfg segmentationConfig) {
	wide := cfg.ief(0, 0, 0).ID == 8
	n := 0
	if cfg.mr != nil {
		n = vcCalls(cfg.mr) - vck
	}
	if vcFor("C23") {
		vcAssert(vcNew(pdus[vck-1].UDH))
	}
	vcAssert(spec_seg(&pdus[vck-1], &t, base, wide, concatRef, count, vck))
	vcAssert(vcEq(pdus[vck-1].UD, chunks[vck-1]))
	vcAssert(spec_mr(&pdus[vck-1], &t, cfg.mr, n+vck-1))
	vcAssert(vcForall(0, vck-1, func(i int) bool { return spec_seg(&pdus[i], &t, base, wide, concatRef, count, i+1) }))
	vcAssert(vcForall(0, vck-1, func(i int) bool { return vcEq(pdus[i].UD, chunks[i]) }))
	vcAssert(vcForall(0, vck-1, func(i int) bool { return spec_mr(&pdus[i], &t, cfg.mr, n+i) }))
}

// vcCounter is any counter.
type vcCounter struct {
	v []int
	n int
}

func (c *vcCounter) Count() int {
	c.n++
	return c.v[(c.n-1)%len(c.v)]
}
func vcCalls(c Counter) int     { return c.(*vcCounter).n }
func vcCall(c Counter, i int) int { v := c.(*vcCounter).v; return v[i%len(v)] }

func spec_template(t *TPDU) bool {
	return spec_smallUDH(t.UDH) && spec_dir(t.Direction) && spec_alphaOK(t.DCS)
}

// a message that fits is one segment
func prop_C04_single(t TPDU, msg []byte) {
	vcReq(spec_template(&t) && len(msg) > 0 && len(msg) <= 1<<40 && (spec_alpha2(t.DCS) != AlphaUCS2 || len(msg)%2 == 0))
	vcReq(spec_fits(spec_alpha2(t.DCS), spec_cap(&t), spec_udhLen(t.UDH), len(msg)))
	t0 := t
	r := t.Segment(msg)
	vcAssert(len(r) == 1)
	vcAssert(spec_as(&r[0], &t0) && r[0].FirstOctet == t0.FirstOctet && r[0].PI == t0.PI && r[0].MR == t0.MR)
	vcAssert(spec_sameUDH(r[0].UDH, t0.UDH) && vcEq(r[0].UD, msg))
}

// spec_size is the most septets or octets that fit in c octets together with a header of h.
func spec_size(a Alphabet, c, h int) int {
	switch a {
	case Alpha8Bit:
		return c - h
	case AlphaUCS2:
		if (c-h)%2 != 0 {
			return c - h - 1
		}
		return c - h
	}
	return (c*8 - h*8 - spec_fill(h)) / 7
}

// spec_cut is where segment i begins.
func spec_cut(a Alphabet, msg []byte, bs, i int) int {
	switch a {
	case Alpha8Bit:
		return i * bs
	case AlphaUCS2:
		return rec_cutU(msg, bs, i)
	}
	return rec_cut7(msg, bs, i)
}

// spec_long: the message does not fit the template, and there is room for a character in each segment.
func spec_long(t *TPDU, msg []byte, ie int) bool {
	if !spec_template(t) || len(t.UDH) > 200 || len(msg) == 0 || len(msg) > 1<<30 {
		return false
	}
	a, h := spec_alpha2(t.DCS), spec_udhLen(t.UDH)
	if h > 300 || spec_fits(a, spec_cap(t), h, len(msg)) || a == AlphaUCS2 && len(msg)%2 == 1 {
		return false
	}
	return spec_fits(a, spec_cap(t), spec_grown(h, ie), spec_least(a))
}

// spec_grown is the length of a header of h octets with ie more octets of elements.
func spec_grown(h, ie int) int {
	if h == 0 {
		return 1 + ie
	}
	return h + ie
}

func spec_least(a Alphabet) int {
	switch a {
	case Alpha8Bit:
		return 1
	case AlphaUCS2:
		return 4
	}
	return 2
}

// auxSegments: the segments divide the message, each fits, and is the template but for user data, header and reference.
func auxSegments(t *TPDU, msg []byte, r []TPDU, wide bool, ref, k int) {
	vcReq(0 <= k && k < len(r))
	ie := 5
	if wide {
		ie = 6
	}
	n := len(r)
	a, h := spec_alpha2(t.DCS), spec_grown(spec_udhLen(t.UDH), ie)
	bs := spec_size(a, spec_cap(t), h)
	p := &r[k]
	vcAssert(n >= 2)
	vcAssert(spec_as(p, t) && p.FirstOctet&0x40 != 0 && p.PI&4 != 0)
	vcAssert(spec_header(p.UDH, t.UDH, wide, ref, n, k+1))
	lem_udhlSame(p.UDH, t.UDH, len(t.UDH))
	vcAssert(spec_udhLen(p.UDH) == h)
	vcAssert(len(p.UD) > 0 && len(p.UD) <= bs)
	vcAssert(spec_fits(a, spec_cap(p), h, len(p.UD)))
	vcAssert(spec_cut(a, msg, bs, 0) == 0 && spec_cut(a, msg, bs, n-1) < len(msg) && spec_cut(a, msg, bs, n) >= len(msg))
	vcAssert(spec_part(msg, p.UD, spec_cut(a, msg, bs, k), spec_min(spec_cut(a, msg, bs, k+1), len(msg))))
	switch a {
	case Alpha8Bit:
	case AlphaUCS2:
		vcAssert(!spec_split(msg, spec_cut(a, msg, bs, k)) && spec_cut(a, msg, bs, k)%2 == 0)
	default:
		vcAssert(!rec_open(msg, spec_cut(a, msg, bs, k)))
	}
}


func auxPlain(t TPDU, msg []byte, k int) {
	vcReq(spec_long(&t, msg, 5))
	t0 := t
	r := t.Segment(msg)
	auxSegments(&t0, msg, r, false, 1, k)
	vcAssert(r[k].MR == t0.MR)
}

func auxRefs(t TPDU, msg []byte, mr, cr Counter, wide bool, k int) {
	vcReq(mr != nil && cr != nil && mr != cr)
	t0 := t
	m, c := vcCalls(mr), vcCalls(cr)
	vcReq(m >= 0 && m < 1<<40 && c >= 0 && c < 1<<40)
	var r []TPDU
	if wide {
		vcReq(spec_long(&t, msg, 6))
		r = t.Segment(msg, With16BitConcatRef, WithMR(mr), WithConcatRef(cr))
	} else {
		vcReq(spec_long(&t, msg, 5))
		r = t.Segment(msg, WithMR(mr), WithConcatRef(cr))
	}
	auxSegments(&t0, msg, r, wide, vcCall(cr, c), k)
	vcAssert(r[k].MR == byte(vcCall(mr, m+k)))
	vcAssert(vcCalls(mr) == m+len(r) && vcCalls(cr) == c+1)
}
func prop_C04_refs7(t TPDU, msg []byte, mr, cr Counter, k int) {
	vcReq(spec_alpha2(t.DCS) == Alpha7Bit)
	auxRefs(t, msg, mr, cr, false, k)
}
func prop_C04_refs8(t TPDU, msg []byte, mr, cr Counter, k int) {
	vcReq(spec_alpha2(t.DCS) == Alpha8Bit)
	auxRefs(t, msg, mr, cr, false, k)
}
func prop_C04_refsU(t TPDU, msg []byte, mr, cr Counter, k int) {
	vcReq(spec_alpha2(t.DCS) == AlphaUCS2)
	auxRefs(t, msg, mr, cr, false, k)
}
func prop_C04_wide7(t TPDU, msg []byte, mr, cr Counter, k int) {
	vcReq(spec_alpha2(t.DCS) == Alpha7Bit)
	auxRefs(t, msg, mr, cr, true, k)
}
func prop_C04_wide8(t TPDU, msg []byte, mr, cr Counter, k int) {
	vcReq(spec_alpha2(t.DCS) == Alpha8Bit)
	auxRefs(t, msg, mr, cr, true, k)
}
func prop_C04_wideU(t TPDU, msg []byte, mr, cr Counter, k int) {
	vcReq(spec_alpha2(t.DCS) == AlphaUCS2)
	auxRefs(t, msg, mr, cr, true, k)
}

// one segment takes one reference, and no number for the set
func prop_C04_one(t TPDU, msg []byte, mr, cr Counter) {
	vcReq(mr != nil && cr != nil && mr != cr)
	vcReq(spec_template(&t) && len(msg) > 0 && len(msg) <= 1<<40 && (spec_alpha2(t.DCS) != AlphaUCS2 || len(msg)%2 == 0))
	vcReq(spec_fits(spec_alpha2(t.DCS), spec_cap(&t), spec_udhLen(t.UDH), len(msg)))
	t0 := t
	m, c := vcCalls(mr), vcCalls(cr)
	vcReq(m >= 0 && m < 1<<40 && c >= 0 && c < 1<<40)
	r := t.Segment(msg, WithMR(mr), WithConcatRef(cr))
	vcAssert(len(r) == 1)
	vcAssert(spec_as(&r[0], &t0) && r[0].FirstOctet == t0.FirstOctet && r[0].PI == t0.PI && r[0].MR == byte(vcCall(mr, m)))
	vcAssert(spec_sameUDH(r[0].UDH, t0.UDH) && vcEq(r[0].UD, msg))
	vcAssert(vcCalls(mr) == m+1 && vcCalls(cr) == c)
}

// nothing to send is no segments
func prop_C04_none(t TPDU, mr, cr Counter) {
	vcReq(mr != nil && cr != nil && mr != cr)
	m, c := vcCalls(mr), vcCalls(cr)
	vcAssert(len(t.Segment(nil, WithMR(mr), WithConcatRef(cr))) == 0 && vcCalls(mr) == m && vcCalls(cr) == c)
}

func prop_C04_plain7(t TPDU, msg []byte, k int) {
	vcReq(spec_alpha2(t.DCS) == Alpha7Bit)
	auxPlain(t, msg, k)
}
func prop_C04_plain8(t TPDU, msg []byte, k int) {
	vcReq(spec_alpha2(t.DCS) == Alpha8Bit)
	auxPlain(t, msg, k)
}
func prop_C04_plainU(t TPDU, msg []byte, k int) {
	vcReq(spec_alpha2(t.DCS) == AlphaUCS2)
	auxPlain(t, msg, k)
}

// lem_udhlSame: headers that begin with elements of the same sizes have the same lengths.
func lem_udhlSame(u, v UserDataHeader, n int) {
	if n > 0 {
		lem_udhlSame(u, v, n-1)
	}
}
func req_lem_udhlSame(u, v UserDataHeader, n int) bool {
	return n >= 0 && n <= len(u) && n <= len(v) && vcForall(0, n, func(i int) bool { return len(u[i].Data) == len(v[i].Data) })
}
func ens_lem_udhlSame(u, v UserDataHeader, n int) bool { return rec_udhl(u, n) == rec_udhl(v, n) }

func atc_TPDU_Segment_TPDU_UDBlockSize(t TPDU, base UserDataHeader) {
	lem_udhl(base, 0, len(base))
	lem_udhlSame(t.UDH, base, len(base))
}

func atc_TPDU_Segment_chunk(t TPDU, base UserDataHeader, bs int, cfg segmentationConfig) {
	h := spec_grown(spec_udhLen(base), 2+len(cfg.ief(0, 0, 0).Data))
	vcAssert(bs == spec_size(spec_alpha2(t.DCS), spec_cap(&t), h))
}

// ---- for the contracts of other packages ----

// SpecRoom: a message of alphabet a has room for a character in each segment of the template,
// beside a header as long as u and ie more octets.
func SpecRoom(t *TPDU, a Alphabet, u UserDataHeader, ie int) bool {
	h := spec_udhLen(u)
	return spec_template(t) && spec_smallUDH(u) && len(u) <= 200 && h <= 300 && spec_fits(a, spec_cap(t), spec_grown(h, ie), spec_least(a))
}

// SpecAlpha is the alphabet of the template.
func SpecAlpha(d DCS) Alphabet { return spec_alpha2(d) }

// SpecFits: the message fits the template.
func SpecFits(t *TPDU, n int) bool {
	return spec_fits(spec_alpha2(t.DCS), spec_cap(t), spec_udhLen(t.UDH), n)
}

// SpecNumbered: the last header element numbers the segment.
func SpecNumbered(u UserDataHeader, ref, n, i int) bool {
	return len(u) > 0 && spec_ref(u[len(u)-1], false, ref, n, i)
}

// SpecRoomN: as SpecRoom, for a header of h octets.
func SpecRoomN(t *TPDU, a Alphabet, h, ie int) bool {
	return spec_template(t) && spec_fits(a, spec_cap(t), spec_grown(h, ie), spec_least(a))
}
