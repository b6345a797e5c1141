From bb829d784a372455a5cec4e34f1a98f3dd8a2259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:02 +0000
Subject: [PATCH 01/15] fix: add and remove USSD filler CR only at octet
 boundaries

Pack7BitUSSD took any final octet with its upper seven bits clear as having
seven unused bits, corrupting messages such as "123456", and
Unpack7BitUSSD took a final octet that resembles a CR as filler even if it
holds parts of two septets, dropping the last digit of "14".
---
 encoding/gsm7/7bit.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/encoding/gsm7/7bit.go b/encoding/gsm7/7bit.go
index 986e099..533add5 100644
--- a/encoding/gsm7/7bit.go
+++ b/encoding/gsm7/7bit.go
@@ -91,7 +91,7 @@ func Pack7BitUSSD(u []byte, fillBits int) []byte {
 		return append(b[:0:0], b...)
 	}
 	last := len(b) - 1
-	if b[last]&^0x1 == 0 && u[len(u)-1] != 0 {
+	if (len(u)*7+fillBits)&0x7 == 1 && u[len(u)-1] != 0 {
 		b[last] = b[last] | (cr << 1)
 	} else if len(u)&0x7 == 0 && u[len(u)-1] == cr {
 		b = append(b, cr)
@@ -111,8 +111,20 @@ func Pack7BitUSSD(u []byte, fillBits int) []byte {
 func Unpack7BitUSSD(p []byte, fillBits int) []byte {
 	u := Unpack7Bit(p, fillBits)
 	// remove any trailing filler
-	if len(p) > 1 && ((p[len(p)-1]>>1 == cr) || (p[len(p)-1] == cr && p[len(p)-2]>>1 == cr)) {
-		u = u[:len(u)-1]
+	if len(p) > 1 {
+		last := p[len(p)-1]
+		switch (len(p)*8 - fillBits) % 7 {
+		case 0:
+			// last septet ends on an octet boundary
+			if last>>1 == cr {
+				u = u[:len(u)-1]
+			}
+		case 1:
+			// last septet starts on an octet boundary
+			if last == cr && p[len(p)-2]>>1 == cr {
+				u = u[:len(u)-1]
+			}
+		}
 	}
 	return u
 }
-- 
2.43.0


From 28f4297eb5ce5b19ff8f73672ea58ab7978fa77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:59 +0000
Subject: [PATCH 02/15] fix: do not encode U+001B as a lone GSM7 escape septet

---
 encoding/gsm7/gsm7.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/gsm7/gsm7.go b/encoding/gsm7/gsm7.go
index 25e77d6..cc9fe89 100644
--- a/encoding/gsm7/gsm7.go
+++ b/encoding/gsm7/gsm7.go
@@ -219,7 +219,7 @@ func (e *Encoder) Encode(src []byte) ([]byte, error) {
 	dst := make([]byte, 0, len(src))
 	for _, u := range string(src) {
 		g, ok := e.set[u]
-		if ok {
+		if ok && g != esc { // a lone esc is not a character
 			dst = append(dst, g)
 			continue
 		}
-- 
2.43.0


From 13b9d0f56e5d717defcc33b41a9ee108cd455d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:01 +0000
Subject: [PATCH 03/15] fix: encode a 5 minute relative validity period as 5
 minutes

---
 encoding/tpdu/validityperiod.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/validityperiod.go b/encoding/tpdu/validityperiod.go
index e0dce80..f983bb8 100644
--- a/encoding/tpdu/validityperiod.go
+++ b/encoding/tpdu/validityperiod.go
@@ -215,7 +215,7 @@ func durationToRelative(d time.Duration) byte {
 	switch {
 	case d < time.Hour*12:
 		t := byte(d / (time.Minute * 5))
-		if t > 1 {
+		if t > 0 {
 			t--
 		}
 		return t
-- 
2.43.0


From 0b4f55db8f04ebc681f45330ee7a4b9d88a7a9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:02 +0000
Subject: [PATCH 04/15] fix: reject UDH information elements that overrun the
 UDH

---
 encoding/tpdu/userdata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/userdata.go b/encoding/tpdu/userdata.go
index de19912..60fd1f1 100644
--- a/encoding/tpdu/userdata.go
+++ b/encoding/tpdu/userdata.go
@@ -85,7 +85,7 @@ func (udh *UserDataHeader) UnmarshalBinary(src []byte) (int, error) {
 		ri++
 		iedl := int(src[ri])
 		ri++
-		if len(src) < ri+iedl {
+		if udhl < ri+iedl {
 			return ri, NewDecodeError("ied", ri, ErrUnderflow)
 		}
 		ie.Data = append([]byte(nil), src[ri:ri+iedl]...)
-- 
2.43.0


From 75da51a5a23ad8880a923fb976dc984589a506d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:03 +0000
Subject: [PATCH 05/15] fix: do not collect TPDUs with unsupported types

---
 collect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collect.go b/collect.go
index 445585e..ca35b0b 100644
--- a/collect.go
+++ b/collect.go
@@ -107,6 +107,9 @@ func (c *Collector) Collect(pdu tpdu.TPDU) (d []*tpdu.TPDU, err error) {
 		return nil, ErrReassemblyInconsistency
 	}
 	key, err := pduKey(pdu, segments, concatRef)
+	if err != nil {
+		return nil, err
+	}
 	p, ok := c.pipes[key]
 	if ok {
 		if p.segments[seqno-1] != nil {
-- 
2.43.0


From 6942e090091cb339dcbe373f80889addaa88b765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:04 +0000
Subject: [PATCH 06/15] fix: return a snapshot of the segments from
 Collector.Pipes

---
 collect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collect.go b/collect.go
index ca35b0b..591e674 100644
--- a/collect.go
+++ b/collect.go
@@ -82,7 +82,7 @@ func (c *Collector) Pipes() map[string][]*tpdu.TPDU {
 	c.Lock()
 	m := map[string][]*tpdu.TPDU{}
 	for k, v := range c.pipes {
-		m[k] = v.segments
+		m[k] = append([]*tpdu.TPDU(nil), v.segments...)
 	}
 	c.Unlock()
 	return m
-- 
2.43.0


From eba6d43e232ee4013d7fa520533a74882e4e91d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:20 +0000
Subject: [PATCH 07/15] fix: do not share the template UDH with the segments

---
 encoding/tpdu/tpdu.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index b6ca697..5abf0de 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -198,15 +198,16 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	if len(msg) <= bs {
 		// single segment
 		t.UD = msg
+		t.UDH = append(t.UDH[:0:0], t.UDH...)
 		if cfg.mr != nil {
 			t.MR = byte(cfg.mr.Count())
 		}
 		return []TPDU{t}
 	}
 	// add contcat IE and recalc bs
-	t.SetUDH(append(t.UDH, cfg.ief(0, 0, 0)))
+	base := t.UDH
+	t.SetUDH(append(base[:len(base):len(base)], cfg.ief(0, 0, 0)))
 	bs = t.UDBlockSize()
-	t.UDH = t.UDH[:len(t.UDH)-1]
 	alpha, _ := t.Alphabet()
 	chunks := chunk(msg, alpha, bs)
 	count := len(chunks)
@@ -220,7 +221,7 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 		if cfg.mr != nil {
 			pdus[i].MR = byte(cfg.mr.Count())
 		}
-		udh := append(t.UDH[:0:0], t.UDH...)
+		udh := append(base[:0:0], base...)
 		udh = append(udh, cfg.ief(concatRef, count, i+1))
 		pdus[i].SetUDH(udh)
 		pdus[i].UD = chunks[i]
-- 
2.43.0


From 0199878f74927e2fc87d684f17efd5404f8aaf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:22 +0000
Subject: [PATCH 08/15] fix: carry a split surrogate between segments without
 touching the segments

---
 sms.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sms.go b/sms.go
index 8deb5cd..486125d 100644
--- a/sms.go
+++ b/sms.go
@@ -35,7 +35,10 @@ func Decode(segments []*tpdu.TPDU, options ...DecodeOption) ([]byte, error) {
 		a, _ := s.Alphabet()
 		ud := s.UD
 		if danglingSurrogate != nil {
-			ud = append([]byte(danglingSurrogate), ud...)
+			if a != tpdu.AlphaUCS2 {
+				return nil, danglingSurrogate
+			}
+			ud = append(append([]byte(nil), danglingSurrogate...), ud...)
 			danglingSurrogate = nil
 		}
 		d, err := tpdu.DecodeUserData(ud, s.UDH, a, cfg.dopts...)
-- 
2.43.0


From 1ccac6f7f11bbfaa34fb97b48ce79a6ed90116cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:23 +0000
Subject: [PATCH 09/15] fix: include the UDH when marshalling SMS-COMMAND

---
 encoding/tpdu/tpdu.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 5abf0de..ebef7d9 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -406,12 +406,18 @@ func (t *TPDU) marshalCommand() ([]byte, error) {
 	if err != nil {
 		return nil, EncodeError("da", err)
 	}
-	cdl := len(t.UD)
+	udh, err := t.UDH.MarshalBinary()
+	if err != nil {
+		// never trips as UDH marshalling never fails...
+		return nil, EncodeError("udh", err)
+	}
+	cdl := len(udh) + len(t.UD)
 	l := 6 + len(da) + cdl
 	b := make([]byte, 0, l)
 	b = append(b, byte(t.FirstOctet), t.MR, t.PID, t.CT, t.MN)
 	b = append(b, da...)
 	b = append(b, byte(cdl))
+	b = append(b, udh...)
 	b = append(b, t.UD...)
 	return b, nil
 }
-- 
2.43.0


From c97a55a24093ab01ecc96503e96070934c7125be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:25 +0000
Subject: [PATCH 10/15] fix: set the TP-UDHI flag when a UDH is provided by
 WithUDH

---
 encoding/tpdu/options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/options.go b/encoding/tpdu/options.go
index d1956f9..c7a6557 100644
--- a/encoding/tpdu/options.go
+++ b/encoding/tpdu/options.go
@@ -48,7 +48,7 @@ type UDHOption struct {
 
 // ApplyTPDUOption applies the UDH to the TPDU.
 func (o UDHOption) ApplyTPDUOption(t *TPDU) error {
-	t.UDH = o.udh
+	t.SetUDH(o.udh)
 	return nil
 }
 
-- 
2.43.0


From 374b979e6717e3bc25a1d9def1c90044bdda6b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:27 +0000
Subject: [PATCH 11/15] fix: reject alphabets and classes that do not fit in
 the DCS

---
 encoding/tpdu/dcs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding/tpdu/dcs.go b/encoding/tpdu/dcs.go
index 0317180..9b507d8 100644
--- a/encoding/tpdu/dcs.go
+++ b/encoding/tpdu/dcs.go
@@ -83,6 +83,8 @@ func (d DCS) String() string {
 // An error is returned if the state is incompatible with setting the alphabet.
 func (d DCS) WithAlphabet(a Alphabet) (DCS, error) {
 	switch {
+	case a < Alpha7Bit || a > AlphaReserved:
+		return d, ErrInvalid
 	case d&0x80 == 0x00: // 0xxx
 		return d&^0x0c | (DCS(a) << 2), nil
 	case d&0xe0 == 0xc0 && a == Alpha7Bit: // 110x is 7Bit
@@ -145,6 +147,8 @@ func (d DCS) Class() (MessageClass, error) {
 // class.
 func (d DCS) WithClass(c MessageClass) (DCS, error) {
 	switch {
+	case c < MClass0 || c > MClass3:
+		return d, ErrInvalid
 	case d&0x80 == 0x00: // 0xxx
 		return (d&^0x03 | 0x10 | DCS(c)), nil
 	case d&0xf0 == 0xf0: // 1111
-- 
2.43.0


From 1db55476ff851bc6ab992cf7cbfab822a090a31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:29 +0000
Subject: [PATCH 12/15] fix: confine MTI and VPF to their fields in the first
 octet

---
 encoding/tpdu/firstoctet.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/tpdu/firstoctet.go b/encoding/tpdu/firstoctet.go
index 9acaefa..5e7d573 100644
--- a/encoding/tpdu/firstoctet.go
+++ b/encoding/tpdu/firstoctet.go
@@ -55,14 +55,14 @@ func (f FirstOctet) VPF() ValidityPeriodFormat {
 // WithMTI returns a FirstOctet with the TP-MTI field set.
 func (f FirstOctet) WithMTI(mti MessageType) FirstOctet {
 	f &^= FoMTIMask
-	f |= FirstOctet(mti << FoMTIShift)
+	f |= FirstOctet(mti<<FoMTIShift) & FoMTIMask
 	return f
 }
 
 // WithVPF returns a FirstOctet with the TP-VPF field set.
 func (f FirstOctet) WithVPF(vpf ValidityPeriodFormat) FirstOctet {
 	f &^= FoVPFMask
-	f |= FirstOctet(vpf << FoVPFShift)
+	f |= FirstOctet(vpf<<FoVPFShift) & FoVPFMask
 	return f
 }
 
-- 
2.43.0


From c6c86b4aacad2a06dcc322fd407f9dad6ff4089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:31 +0000
Subject: [PATCH 13/15] fix: do not split an escape that follows a double
 escape

---
 encoding/tpdu/tpdu.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index ebef7d9..86eee7b 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -1141,8 +1141,12 @@ func chunk7Bit(msg []byte, bs int) [][]byte {
 	bstart := 0
 	bend := bs
 	for bend < len(msg) {
-		// don't split escapes
-		if msg[bend-1] == esc && msg[bend-2] != esc {
+		// don't split escapes - an odd run of esc ends with an escape
+		run := 0
+		for run < bs && msg[bend-1-run] == esc {
+			run++
+		}
+		if run%2 == 1 {
 			bend--
 		}
 		chunks = append(chunks, msg[bstart:bend])
-- 
2.43.0


From 976236cb8b514fc9e7f44e52602c98c1b1feb01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:32 +0000
Subject: [PATCH 14/15] fix: do not drop the unit following an unpaired
 surrogate

---
 encoding/ucs2/ucs2.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/encoding/ucs2/ucs2.go b/encoding/ucs2/ucs2.go
index 8ecc83c..d412006 100644
--- a/encoding/ucs2/ucs2.go
+++ b/encoding/ucs2/ucs2.go
@@ -9,9 +9,13 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"unicode"
 	"unicode/utf16"
 )
 
+// lowSurrogate is the first of the low surrogates.
+const lowSurrogate = 0xdc00
+
 // Decode converts an array of UCS2 characters into an array of runes.
 //
 // As the UCS2 characters are packed into a byte array, the length of the byte
@@ -28,12 +32,18 @@ func Decode(src []byte) ([]rune, error) {
 	for ri := 0; ri < len(src)-1; ri = ri + 2 {
 		r := rune(binary.BigEndian.Uint16(src[ri:]))
 		if utf16.IsSurrogate(r) {
+			if r >= lowSurrogate {
+				// not preceded by a high surrogate
+				dst = append(dst, unicode.ReplacementChar)
+				continue
+			}
 			if ri >= len(src)-3 {
 				return dst, ErrDanglingSurrogate(src[ri:])
 			}
-			ri += 2
-			r2 := rune(binary.BigEndian.Uint16(src[ri:]))
-			r = utf16.DecodeRune(r, r2)
+			r = utf16.DecodeRune(r, rune(binary.BigEndian.Uint16(src[ri+2:])))
+			if r != unicode.ReplacementChar {
+				ri += 2
+			}
 		}
 		dst = append(dst, r)
 	}
-- 
2.43.0


From 4dbfd555b7b1ee3b4c72488a1e81bf5072fe8ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:04 +0000
Subject: [PATCH 15/15] fix: do not encode U+001B as a double GSM7 escape

---
 encoding/gsm7/gsm7.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/gsm7/gsm7.go b/encoding/gsm7/gsm7.go
index cc9fe89..232ce78 100644
--- a/encoding/gsm7/gsm7.go
+++ b/encoding/gsm7/gsm7.go
@@ -224,7 +224,7 @@ func (e *Encoder) Encode(src []byte) ([]byte, error) {
 			continue
 		}
 		g, ok = e.ext[u]
-		if ok {
+		if ok && g != esc { // nor is a double esc
 			dst = append(dst, esc, g)
 			continue
 		}
-- 
2.43.0

