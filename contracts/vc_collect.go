package sms

import (
	"fmt"

	"github.com/warthog618/sms/encoding/tpdu"
)

// buffered is what is buffered, for the search for failing inputs; to the verifier it is the frame that says that nothing is written.
func buffered(c *Collector) string {
	return fmt.Sprint(c.closed, c.Pipes(), len(c.pipes), func() (n int) {
		for _, p := range c.pipes {
			n += p.frags
			if p.cleanup != nil && p.cleanup.Stop() { // it was running
				p.cleanup.Reset(c.duration)
				n += 1 << 20
			}
		}
		return
	}())
}

// ---- segments that are rejected: nothing the caller can reach is written (the frame of a harness is empty) ----

// after it is closed
func prop_C19_closed(c Collector, t tpdu.TPDU) {
	vcReq(c.closed)
	var b string
	vcNative(func() { b = buffered(&c) })
	d, err := c.Collect(t)
	vcAssert(len(d) == 0 && err == ErrClosed)
	vcNative(func() { vcAssert(buffered(&c) == b) })
}

// numbered zero, or past the number of segments
func prop_C19_range(c Collector, t tpdu.TPDU) {
	vcReq(!c.closed)
	vcReq(tpdu.SpecConcat(t.UDH))
	n, i := tpdu.SpecSegments(t.UDH), tpdu.SpecSeqno(t.UDH)
	vcReq(n >= 2 && (i < 1 || i > n))
	var b string
	vcNative(func() { b = buffered(&c) })
	d, err := c.Collect(t)
	vcAssert(len(d) == 0 && err == ErrReassemblyInconsistency)
	vcNative(func() { vcAssert(buffered(&c) == b) })
}

// of a type that has no address to collect by
func prop_C19_type(c Collector, t tpdu.TPDU) {
	vcReq(!c.closed)
	vcReq(tpdu.SpecConcat(t.UDH))
	n, i := tpdu.SpecSegments(t.UDH), tpdu.SpecSeqno(t.UDH)
	vcReq(n >= 2 && i >= 1 && i <= n)
	st := t.SmsType()
	vcReq((t.Direction == tpdu.MT || t.Direction == tpdu.MO) && st != tpdu.SmsSubmit && st != tpdu.SmsDeliver)
	var b string
	vcNative(func() { b = buffered(&c) })
	d, err := c.Collect(t)
	vcAssert(len(d) == 0)
	_, ok := err.(tpdu.ErrUnsupportedSmsType)
	vcAssert(ok)
	vcNative(func() { vcAssert(buffered(&c) == b) })
}
// of a message that is not divided: returned at once, and nothing is kept
func prop_C18_single(c Collector, t tpdu.TPDU) {
	vcReq(!c.closed)
	vcReq(!tpdu.SpecConcat(t.UDH) || tpdu.SpecSegments(t.UDH) < 2)
	d, err := c.Collect(t)
	vcAssert(err == nil && len(d) == 1 && d[0] != nil)
	vcAssert(d[0].MR == t.MR && d[0].DCS == t.DCS && vcEq(d[0].UD, t.UD) && len(d[0].UDH) == len(t.UDH))
}

// that is there already
func prop_C19_duplicate(c Collector, t tpdu.TPDU) {
	vcReq(!c.closed)
	vcReq(tpdu.SpecConcat(t.UDH))
	n, i := tpdu.SpecSegments(t.UDH), tpdu.SpecSeqno(t.UDH)
	vcReq(n >= 2 && i >= 1 && i <= n)
	vcReq(t.Direction == tpdu.MT || t.Direction == tpdu.MO)
	key, err := pduKey(t, n, tpdu.SpecMref(t.UDH))
	vcReq(err == nil)
	p, ok := c.pipes[key]
	vcReq(ok && p != nil && len(p.segments) == n && p.segments[i-1] != nil)
	var b string
	vcNative(func() { b = buffered(&c) })
	d, err := c.Collect(t)
	vcAssert(len(d) == 0 && err == ErrDuplicateSegment)
	vcNative(func() { vcAssert(buffered(&c) == b) })
}

// spec_part: the TPDU is segment i of n of a message, and of a type that is collected.
func spec_segment(t *tpdu.TPDU) bool {
	n, i := tpdu.SpecSegments(t.UDH), tpdu.SpecSeqno(t.UDH)
	return tpdu.SpecConcat(t.UDH) && n >= 2 && i >= 1 && i <= n && (t.Direction == tpdu.MT || t.Direction == tpdu.MO)
}

// the first segment of a message opens a buffer of exactly n slots with only that segment in it, and leaves every other message's alone;
// with the key telling different counts apart (below) this is what prop_C19_duplicate requires of the buffers
func prop_C19_first(c Collector, t, u tpdu.TPDU, m, s int) {
	vcReq(!c.closed && c.pipes != nil && c.duration == 0 && spec_segment(&t))
	n, i := tpdu.SpecSegments(t.UDH), tpdu.SpecSeqno(t.UDH)
	key, err := pduKey(t, n, tpdu.SpecMref(t.UDH))
	vcReq(err == nil)
	k2, err := pduKey(u, m, s)
	vcReq(err == nil && key != k2)
	_, ok := c.pipes[key]
	vcReq(!ok)
	q, has := c.pipes[k2]
	_, err = c.Collect(t)
	vcAssert(err == nil)
	p, ok := c.pipes[key]
	vcAssert(ok && p != nil && len(p.segments) == n && p.segments[i-1] != nil && p.frags == 1)
	r, still := c.pipes[k2]
	vcAssert(still == has && r == q)
}
func mod_prop_C19_first(c Collector, t, u tpdu.TPDU, m, s int) []interface{} {
	return []interface{}{c.pipes}
}

// messages with different counts of segments, references or types have different keys
func prop_C19_key(t, u tpdu.TPDU, n, m, r, s int) {
	vcReq((t.Direction == tpdu.MT || t.Direction == tpdu.MO) && (u.Direction == tpdu.MT || u.Direction == tpdu.MO))
	a, e := pduKey(t, n, r)
	b, f := pduKey(u, m, s)
	vcReq(e == nil && f == nil && a == b)
	vcAssert(n == m && r == s && t.SmsType() == u.SmsType())
}
