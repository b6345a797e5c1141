package sms

import (
	"time"

	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/internal/vcgen"
)

func gen_concat(r *vcgen.R, n, i, ref int) tpdu.UserDataHeader {
	if r.Chance(2) {
		return tpdu.UserDataHeader{{ID: 0, Data: []byte{byte(ref), byte(n), byte(i)}}}
	}
	return tpdu.UserDataHeader{{ID: 8, Data: []byte{byte(ref >> 8), byte(ref), byte(n), byte(i)}}}
}

func gen_segments(r *vcgen.R) []*tpdu.TPDU {
	n := r.Pick(0, 1, 1, 2, 3, 4, r.Intn(300))
	ref := r.Intn(1 << 16)
	if r.Chance(2) {
		ref &= 0xff
	}
	var s []*tpdu.TPDU
	for i := 0; i < n; i++ {
		t := &tpdu.TPDU{UDH: gen_concat(r, n, i+1, ref)}
		if r.Chance(4) {
			t.UDH = append(tpdu.UserDataHeader{{ID: byte(r.Pick(0, 8, 24, 5)), Data: r.Bytes(4)}}, t.UDH...)
		}
		if r.Chance(4) {
			t.UDH = append(t.UDH, tpdu.InformationElement{ID: byte(r.Pick(24, 25, 5)), Data: r.Bytes(4)})
		}
		s = append(s, t)
	}
	if n > 0 && r.Chance(2) {
		i := r.Intn(n)
		switch u := s[i].UDH; r.Intn(5) {
		case 0:
			s[i].UDH = nil
		case 1:
			s[i].UDH = gen_concat(r, n, i+1, ref+1)
		case 2:
			s[i].UDH = gen_concat(r, n+1, i+1, ref)
		case 3:
			s[i].UDH = gen_concat(r, n, i+r.Intn(3), ref)
		case 4:
			if len(u[len(u)-1].Data) > 0 {
				u[len(u)-1].Data[r.Intn(len(u[len(u)-1].Data))] = r.Byte()
			}
		}
	}
	return s
}

func gen_IsCompleteMessage(r *vcgen.R) []interface{} { return []interface{}{gen_segments(r)} }

func gen_encoder(r *vcgen.R, a tpdu.Alphabet) Encoder {
	count := func() tpdu.Counter {
		c := &vcCounter{n: r.Intn(5)}
		for i := 0; i < 16; i++ {
			c.v = append(c.v, r.Pick(i, 255+i, int(r.Byte()), r.Intn(1<<20)))
		}
		return c
	}
	t := tpdu.GenTemplate(r, a)
	if r.Chance(2) {
		t.FirstOctet, t.UDH = t.FirstOctet&^0x40, nil
	}
	return Encoder{pdu: t, MsgCount: count(), ConcatRef: count()}
}
func gen_encodeData(r *vcgen.R, a tpdu.Alphabet) []interface{} {
	e := gen_encoder(r, a)
	return []interface{}{e, tpdu.GenData(r, &e.pdu, a), r.Intn(r.Pick(1, 2, 3, 5))}
}

// text mostly in some tables, long enough for a few segments now and then
func gen_encodeText(r *vcgen.R, l, x int, options bool) []interface{} {
	e := gen_encoder(r, tpdu.Alpha7Bit)
	if options {
		e.eopts = tpdu.GenUDOpts(r, l, x)
	}
	m := gsm7.GenText(r, l, x)
	if r.Chance(2) {
		m = append(m, gsm7.GenText(r, l, x)...)
		for n := r.Intn(200); len(m) > 0 && len(m) < n; {
			m = append(m, m...)
		}
	}
	return []interface{}{e, m, r.Intn(r.Pick(1, 1, 2, 3))}
}
func gen_encodeLanguage(r *vcgen.R) []interface{} {
	l, x := r.Intn(14), r.Intn(14)
	switch r.Intn(3) {
	case 0:
		x = l
	case 1:
		x = 0
	default:
		l = 0
	}
	return gen_encodeText(r, l, x, true)
}
func gen_C21_data8(r *vcgen.R) []interface{}    { return gen_encodeData(r, tpdu.Alpha8Bit) }
func gen_C21_dataU(r *vcgen.R) []interface{}    { return gen_encodeData(r, tpdu.AlphaUCS2) }
func gen_C21_plain(r *vcgen.R) []interface{}    { return gen_encodeText(r, 0, 0, r.Chance(2)) }
func gen_C21_language(r *vcgen.R) []interface{} { return gen_encodeLanguage(r) }
func gen_C21_ucs2(r *vcgen.R) []interface{}     { return gen_encodeText(r, r.Intn(14), r.Intn(14), r.Chance(2)) }
func gen_C26_plain(r *vcgen.R) []interface{}    { return gen_encodeText(r, 0, 0, r.Chance(2)) }
func gen_C26_language(r *vcgen.R) []interface{} { return gen_encodeLanguage(r) }
func gen_C26_ucs2(r *vcgen.R) []interface{}     { return gen_encodeText(r, r.Intn(14), r.Intn(14), r.Chance(2)) }
func gen_count(r *vcgen.R) Counter {
	return Counter{c: int64(r.Pick(0, 1, r.Intn(300), 1<<31-2, 1<<32-1, 1<<53))}
}
func gen_C21_counter(r *vcgen.R) []interface{} { return []interface{}{gen_count(r)} }
func gen_Counter_Read(r *vcgen.R) []interface{} {
	c := gen_count(r)
	return []interface{}{&c}
}

func gen_C01_unmarshalMO(r *vcgen.R) []interface{} {
	return []interface{}{tpdu.GenOctets(r, tpdu.SmsType(r.Pick(1, 3, 5)))}
}
func gen_C01_unmarshalMT(r *vcgen.R) []interface{} {
	return []interface{}{tpdu.GenOctets(r, tpdu.SmsType(r.Pick(0, 2, 4)))}
}
func gen_C01_unmarshal(r *vcgen.R) []interface{} { return gen_C01_unmarshalMT(r) }

// gen_segment is a TPDU with text.
func gen_segment(r *vcgen.R) tpdu.TPDU {
	b, u, a := tpdu.GenText(r)
	var t tpdu.TPDU
	t.UD, t.UDH, t.DCS = b, u, tpdu.DCS([]byte{0, 4, 8, 0xc0}[a])
	return t
}
func gen_C01_decode(r *vcgen.R) []interface{}     { return []interface{}{gen_segment(r)} }
func gen_C01_decodeSome(r *vcgen.R) []interface{} { return []interface{}{gen_segment(r), r.Intn(15), r.Intn(15)} }

func gen_readData(r *vcgen.R, text bool) []interface{} {
	a := tpdu.Alphabet(1 + r.Intn(2))
	e := gen_encoder(r, a)
	tpdu.GenRoomy(r, &e.pdu)
	return []interface{}{tpdu.GenRoom(r, tpdu.GenData(r, &e.pdu, a)), e.pdu, e.MsgCount, e.ConcatRef}
}
func gen_readText(r *vcgen.R, g []interface{}) []interface{} {
	e := g[0].(Encoder)
	tpdu.GenRoomy(r, &e.pdu)
	return []interface{}{tpdu.GenRoom(r, g[1].([]byte)), e.pdu, e.MsgCount, e.ConcatRef, e.eopts}
}
func gen_C23_data(r *vcgen.R) []interface{}     { return gen_readData(r, false) }
func gen_C23_plain(r *vcgen.R) []interface{}    { return gen_readText(r, gen_C21_plain(r)) }
func gen_C23_language(r *vcgen.R) []interface{} { return gen_readText(r, gen_C21_language(r)) }
func gen_C23_ucs2(r *vcgen.R) []interface{}     { return gen_readText(r, gen_C21_ucs2(r)) }
func gen_C23_unmarshal(r *vcgen.R) []interface{} {
	return []interface{}{tpdu.GenRoom(r, gen_C01_unmarshalMT(r)[0].([]byte))}
}
func gen_C23_unmarshalMO(r *vcgen.R) []interface{} {
	return []interface{}{tpdu.GenRoom(r, gen_C01_unmarshalMO(r)[0].([]byte))}
}
func gen_readable(r *vcgen.R) tpdu.TPDU {
	t := gen_segment(r)
	tpdu.GenRoomy(r, &t)
	return t
}
func gen_C23_decode(r *vcgen.R) []interface{} { return []interface{}{gen_readable(r)} }
func gen_C23_decodeTwo(r *vcgen.R) []interface{} {
	t, u := gen_readable(r), gen_readable(r)
	t.DCS, u.DCS = 8, 8
	t.UD = t.UD[:len(t.UD)/2*2]
	u.UD = u.UD[:len(u.UD)/2*2]
	if n := len(t.UD); n >= 2 && r.Chance(2) {
		t.UD[n-2] = 0xd8 | byte(r.Intn(4))
	}
	return []interface{}{t, u}
}
func gen_C23_complete(r *vcgen.R) []interface{} {
	for {
		if s := gen_segments(r); len(s) > 1 {
			return []interface{}{*s[0], *s[1]}
		}
	}
}

// gen_collector is a collector with buffered segments, and a TPDU: often one that belongs to the buffered messages.
func gen_collector(r *vcgen.R, kind int) []interface{} {
	c := NewCollector()
	if r.Chance(4) {
		c.duration = time.Minute
	}
	t := tpdu.TPDU{Direction: tpdu.Direction(r.Intn(2))}
	t.FirstOctet = tpdu.FirstOctet(byte(t.Direction))
	addr := func(t *tpdu.TPDU) {
		a := tpdu.Address{TOA: 0x91, Addr: []string{"", "1", "123"}[r.Intn(3)]}
		t.OA, t.DA = a, a
	}
	addr(&t)
	n := r.Pick(2, 3, 4, r.Intn(256))
	i := r.Pick(1, n, 1+r.Intn(n+1))
	ref := r.Intn(3)
	if kind == 1 {
		i = r.Pick(0, n+1, 255)
	}
	if kind == 2 {
		t.FirstOctet = 2
	}
	if kind == 3 && i > n {
		i = n
	}
	t.UDH = gen_concat(r, n, i, ref)
	for k := r.Intn(4); k > 0; k-- {
		u := t
		u.UDH = gen_concat(r, r.Pick(n, 2, 3), r.Pick(1, 2, i), r.Intn(3))
		addr(&u)
		c.Collect(u)
	}
	if kind == 3 {
		c.Collect(t)
	}
	c.closed = kind == 0
	return []interface{}{*c, t}
}
func gen_C19_closed(r *vcgen.R) []interface{}    { return gen_collector(r, 0) }
func gen_C19_range(r *vcgen.R) []interface{}     { return gen_collector(r, 1) }
func gen_C19_type(r *vcgen.R) []interface{}      { return gen_collector(r, 2) }
func gen_C19_duplicate(r *vcgen.R) []interface{} { return gen_collector(r, 3) }
func gen_other(r *vcgen.R, t tpdu.TPDU) tpdu.TPDU {
	u := t
	u.OA.Addr, u.DA.Addr = []string{"", "1", "123"}[r.Intn(3)], []string{"", "1", "123"}[r.Intn(3)]
	return u
}
func gen_C19_first(r *vcgen.R) []interface{} {
	a := gen_collector(r, 4)
	return append(a, gen_other(r, a[1].(tpdu.TPDU)), r.Pick(2, 3), r.Intn(3))
}
func gen_C19_key(r *vcgen.R) []interface{} {
	t := gen_collector(r, 4)[1].(tpdu.TPDU)
	return []interface{}{t, gen_other(r, t), r.Intn(3), r.Intn(3), r.Intn(3), r.Intn(3)}
}
