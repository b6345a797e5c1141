#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source for the property texts)."""
import json,sys,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
T="encoding/tpdu/"
p("C01","Decoding arbitrary bytes never panics and always terminates",
 "For every byte string and every message direction, unmarshalling a TPDU, any of its fields (address, timestamp, validity period, user data header) or a PDU-mode frame, and decoding the user data of any successfully unmarshalled TPDU, returns a value or an error; it never panics, never indexes outside its input and never loops forever. A byte count returned together with a nil error is never larger than the input.",
 ["inputs"],"every byte string (any length, any content), both directions, every validity period format",
 "The tests decode a few dozen hand-written frames; a crash needs one particular combination of length octets, alphabet, header length and truncation point that a sample does not hit.",
 ["sms.go",T+"tpdu.go",T+"userdata.go",T+"address.go",T+"timestamp.go",T+"validityperiod.go","encoding/pdumode/pdu.go","encoding/pdumode/smscaddress.go","encoding/semioctet/semioctet.go","encoding/gsm7/7bit.go","encoding/gsm7/gsm7.go","encoding/ucs2/ucs2.go","encoding/bcd/bcd.go"],
 [("length checks before each field read",T+"tpdu.go unmarshal*"),("user data length/alphabet checks",T+"tpdu.go decodeUserData"),("IE bounds",T+"userdata.go UserDataHeader.UnmarshalBinary")],
 observe=["sms.Unmarshal","tpdu.TPDU.UnmarshalBinary","pdumode.UnmarshalBinary","sms.Decode"])
p("C02","TPDU binary form round-trips for all six message types",
 "For every well-formed TPDU of each of the six types whose fields fit their encodings, marshalling succeeds and unmarshalling the result in the same direction yields a TPDU with the same type flags, addresses, times, indicators, user data header and user data. Fields that the type (or its parameter indicator) does not carry are not read from the wire. For report types this holds with a non-zero failure cause.",
 ["inputs"],"every TPDU with representable field values: all first octets, alphabets, header lengths, user data lengths up to the field limits and parameter indicators",
 "Tests compare fixed TPDUs against fixed hex; the interaction of alphabet, header length (fill bits), user data length and optional fields is a product space no sample covers.",
 [T+"tpdu.go",T+"userdata.go",T+"address.go",T+"timestamp.go",T+"validityperiod.go"],
 [("marshalX/unmarshalX pairs",T+"tpdu.go"),("encodeUserData/decodeUserData",T+"tpdu.go")],
 observe=["tpdu.TPDU.MarshalBinary","tpdu.TPDU.UnmarshalBinary"])
p("C03","Encoding a text message and decoding its segments returns the text",
 "For every valid UTF-8 message that segments into at most 255 parts and every selection of national character sets, encoding the message into SMS-SUBMIT or SMS-DELIVER TPDUs and decoding the resulting segments in order returns exactly the original message. The same holds for explicit 8-bit data and for explicit well-formed UTF-16 data converted to UTF-8.",
 ["inputs","configurations"],"every valid UTF-8 message, every list of available character sets, every DCS hint that is compatible",
 "Tests encode a handful of short messages; loss at a segment boundary, escape or surrogate needs a particular length and content.",
 ["sms.go","encode.go","options.go",T+"userdata.go",T+"tpdu.go","encoding/gsm7/gsm7.go","encoding/ucs2/ucs2.go"],
 [("alphabet selection",T+"userdata.go EncodeUserData"),("segmentation",T+"tpdu.go Segment"),("segment concatenation","sms.go Decode")],
 observe=["sms.Encode","sms.Decode"])
p("C04","Segmentation partitions the message within the single-TPDU size limit",
 "For every template TPDU whose header leaves room for at least one character per segment and every non-empty message, the segments' user data concatenate, in order, to exactly the message, every segment is non-empty and together with its header fits the user data capacity of its message type (140 octets for SUBMIT and DELIVER), and a message that fits one TPDU gives exactly one segment with the template's header. A multi-segment result carries, after the template's header elements, one concatenation element with one common reference, the total count and the sequence numbers 1..n in order; no segment boundary separates an escape septet from the septet it escapes or the two halves of a surrogate pair.",
 ["inputs","configurations"],"every message length and content, every alphabet, every template header leaving room for at least one character, 8 and 16 bit references, message types; at most 255 segments",
 "Boundary behaviour depends on message length modulo block size and on the content exactly at each boundary; tests try a few.",
 [T+"tpdu.go",T+"userdata.go"],
 [("block size",T+"tpdu.go UDBlockSize"),("chunking",T+"tpdu.go chunk7Bit chunk8Bit chunkUCS2"),("concat IE",T+"tpdu.go newInfoElement newInfoElement16bit")],
 observe=["tpdu.TPDU.Segment","tpdu.TPDU.UDBlockSize"])
p("C05","7-bit packing is bit exact and unpacking is its inverse",
 "For every septet string and every fill of 0 to 6 bits, septet i of the input occupies bits fill+7i .. fill+7i+6 of the packed octets in little-endian bit order, all other bits are zero, and exactly ceil((7n+fill)/8) octets are produced. Unpacking reads septet i from the same bit positions, so unpacking a packed string returns it, followed by at most one zero septet, which appears only when seven or more padding bits remain.",
 ["inputs"],"all septet strings of any length, all fill values 0..6, and all octet strings for unpacking",
 "The packer is a loop carrying residual bits with a period of eight; tests check short strings for a few fill values.",
 ["encoding/gsm7/7bit.go"],
 [("Pack7Bit","encoding/gsm7/7bit.go"),("Unpack7Bit","encoding/gsm7/7bit.go")],observe=["gsm7.Pack7Bit","gsm7.Unpack7Bit"])
p("C06","USSD packing adds and removes exactly the carriage-return filler",
 "For every septet string and zero fill bits, USSD packing equals plain packing, except that a final seven unused bits following a non-zero septet hold a CR, and a CR octet is appended when the string's length is a multiple of eight and its last septet is CR. USSD unpacking returns the original string for every string that has no NUL as its last septet and whose last septet is not a CR that is indistinguishable from filler.",
 ["inputs"],"all septet strings of any length, zero fill",
 "Whether filler is added depends on the length modulo eight and on the final septets; tests try a few.",
 ["encoding/gsm7/7bit.go"],[("Pack7BitUSSD","encoding/gsm7/7bit.go"),("Unpack7BitUSSD","encoding/gsm7/7bit.go")],observe=["gsm7.Pack7BitUSSD","gsm7.Unpack7BitUSSD"])
p("C07","GSM7 text conversion follows the selected tables and is lossless",
 "For every text and every choice of base and extension character set, encoding maps each character in order to its base septet, or else to escape plus its extension septet, and fails exactly when some character is in neither; it never drops, reorders or substitutes a character. Decoding applies the inverse rule to every septet string (escaped septet from the extension table, falling back to the base table when lenient; a double or dangling escape becomes a space, and so does an unmapped septet, which is an error in strict mode instead). The escape septet stands for no character of its own, so U+001B cannot be encoded. So decoding an encoded text with the same tables returns the text.",
 ["inputs","configurations"],"every text, every septet string, all base/extension character set pairs, strict and lenient",
 "Tests run a few short strings per table; escape handling depends on position and neighbouring septets.",
 ["encoding/gsm7/gsm7.go","encoding/gsm7/charset/charset.go"],[("Encoder.Encode","encoding/gsm7/gsm7.go"),("Decoder.Decode","encoding/gsm7/gsm7.go")],observe=["gsm7.Encode","gsm7.Decode"])
p("C08","Every character set's encoder and decoder tables are consistent inverses",
 "For every national language identifier, encoding any character of the base or extension table yields a septet that the corresponding decoder maps back to that character, every character a decoder can produce is encodable, all septets are below 128, and an unknown identifier selects the default table. The default alphabet and its extension are those of 3GPP TS 23.038, and repeated lookups return the same tables.",
 ["inputs","configurations"],"all identifiers (any integer) and all characters and septets of the four tables of each",
 "Tests compare table sizes and a sample of mappings, not every entry in both directions for every language.",
 ["encoding/gsm7/charset/charset.go","encoding/gsm7/charset/default.go"],[("table generation","encoding/gsm7/charset/charset.go generateEncoder generateEncoderFromRunes generateDecoderFromRunes"),("selection","encoding/gsm7/charset/charset.go NewDecoder NewEncoder NewExtDecoder NewExtEncoder")],observe=["charset.NewEncoder","charset.NewDecoder","charset.NewExtEncoder","charset.NewExtDecoder"])
p("C09","UCS-2 conversion is UTF-16 big endian and lossless",
 "For every string of valid Unicode characters, encoding yields its UTF-16 big-endian form, and decoding that returns the same characters. For every even-length octet string, decoding yields one character per code unit or surrogate pair and fails only when it ends within a pair, in which case the characters before it are returned along with exactly the two leftover octets; an odd length is rejected.",
 ["inputs"],"all rune strings and all octet strings of any length",
 "Tests use a few characters; surrogate handling depends on position, order and end of input.",
 ["encoding/ucs2/ucs2.go"],[("Encode","encoding/ucs2/ucs2.go"),("Decode","encoding/ucs2/ucs2.go")],observe=["ucs2.Encode","ucs2.Decode"])
p("C10","Decoding segments concatenates their texts and rejoins split characters",
 "For every list of TPDUs, decoding returns the concatenation, in order, of the texts of the segments, each decoded according to its own alphabet and header. A UTF-16 character split between two consecutive UCS-2 segments at any code unit boundary is rejoined as if it had not been split, a segment that ends in the middle of such a pair with nothing following is an error, and 8-bit segments are returned unchanged.",
 ["inputs"],"every list of TPDUs of any length, alphabets and contents, every split point",
 "Tests decode two or three fixed segments.",
 ["sms.go",T+"userdata.go","encoding/ucs2/ucs2.go"],[("dangling surrogate carry-over","sms.go Decode"),("per-segment decode",T+"userdata.go DecodeUserData")],observe=["sms.Decode","tpdu.DecodeUserData"])
p("C11","Data coding scheme queries and updates follow 3GPP TS 23.038",
 "For each of the 256 data coding scheme octets, the alphabet, message class and compression it reports (or the error for reserved groups) are those defined by 3GPP TS 23.038 section 4. Setting a defined alphabet or class either returns an octet that reports exactly the requested value with all unrelated bits unchanged, or returns an error and the unchanged octet; a value outside the defined range is always rejected.",
 ["inputs"],"all 256 octets, all alphabet and message class values",
 "Tests check the groups the author thought of; update-then-query over all octets and values is not checked.",
 [T+"dcs.go"],[("Alphabet/WithAlphabet",T+"dcs.go"),("Class/WithClass",T+"dcs.go"),("Compressed",T+"dcs.go")],observe=["tpdu.DCS"])
p("C12","Swapped-nibble BCD encoding and decoding are exact inverses",
 "For every integer, BCD encoding succeeds exactly for 0..99 (signed: -79..79), puts the tens digit in the low nibble and the units in the high nibble (signed: sign in bit 3), and decoding returns the integer. Decoding any octet fails exactly when a digit nibble exceeds nine, and otherwise re-encoding the result returns the octet (except for a signed minus zero).",
 ["inputs"],"every integer and all 256 octets","Tests sample some values.",
 ["encoding/bcd/bcd.go"],[("Encode/Decode","encoding/bcd/bcd.go"),("EncodeSigned/DecodeSigned","encoding/bcd/bcd.go")],observe=["bcd.Encode","bcd.Decode","bcd.EncodeSigned","bcd.DecodeSigned"])
p("C13","Semi-octet digit strings round-trip and only valid digits are accepted",
 "For every string over the digits 0-9, *, #, a, b and c, encoding gives ceil(n/2) octets holding digit i in nibble i (low nibble first), with a final fill nibble of all ones when n is odd, and decoding into a buffer of n digits returns the string having read every octet. Any other character is rejected, and decoding never yields a character outside that alphabet, never yields more than the requested number of digits and never reads past the source.",
 ["inputs"],"all byte strings and all destination sizes","Tests sample a few numbers.",
 ["encoding/semioctet/semioctet.go"],[("Encode","encoding/semioctet/semioctet.go"),("Decode","encoding/semioctet/semioctet.go")],observe=["semioctet.Encode","semioctet.Decode"])
p("C14","Addresses round-trip and encode length, type and digits correctly",
 "For every address whose number is a semi-octet digit string of at most 255 digits, or for the alphanumeric type a text in the default alphabet without escapes that packs within 255 semi-octets, marshalling produces the semi-octet count, the type-of-address octet and the packed address, and unmarshalling returns the same address consuming exactly those octets even when further octets follow. Setting type of number, numbering plan or number changes only the corresponding bits, and an international number prints with a single leading plus.",
 ["inputs"],"all addresses of every type of number, with any trailing octets; an alphanumeric text is not required to end in '@' where that is indistinguishable from padding",
 "Tests sample a few numbers and two alphanumeric texts; padding depends on the length modulo eight.",
 [T+"address.go"],[("MarshalBinary/UnmarshalBinary",T+"address.go"),("setters",T+"address.go")],observe=["tpdu.Address"])
p("C15","Service centre timestamps round-trip to the second and quarter hour",
 "For every time in the years 1970 to 2069 with a zone offset that is a multiple of fifteen minutes between -79 and +79 quarters, marshalling gives the seven swapped-nibble octets year, month, day, hour, minute, second and signed zone, and unmarshalling them gives the same local date, time of day and zone offset. An offset outside that range and an octet with an invalid digit are rejected, and input shorter than seven octets is an error.",
 ["inputs"],"every representable time and offset and every seven octets","Tests use a few dates.",
 [T+"timestamp.go","encoding/bcd/bcd.go"],[("MarshalBinary/UnmarshalBinary",T+"timestamp.go")],observe=["tpdu.Timestamp"])
p("C16","Validity periods round-trip in every format and match their stated codes",
 "For each of the 256 relative codes, the duration it denotes is the one in 3GPP TS 23.040 and encoding that duration gives the code back; for any non-negative duration up to 63 weeks the encoded relative period is within one step of the requested duration, and longer durations saturate at the maximum. Absolute and all enhanced formats round-trip for every representable value, reserved enhanced formats and non-zero padding are rejected, and the number of octets consumed is exactly that of the format.",
 ["inputs"],"all relative codes, all durations, all enhanced indicators and contents","Tests sample one or two durations per range and miss range boundaries.",
 [T+"validityperiod.go"],[("durationToRelative/relativeToDuration",T+"validityperiod.go"),("Marshal/Unmarshal",T+"validityperiod.go")],observe=["tpdu.ValidityPeriod"])
p("C17","User data headers round-trip and stay within their stated length",
 "For every header whose elements have at most 255 data octets and 255 octets in total, marshalling gives the header length followed by identifier, length and data of each element in order, and unmarshalling returns the same elements and consumes exactly that many octets. Unmarshalling any octets never takes element data from beyond the stated header length, and looking up an identifier returns the last matching element, from which concatenation details (8 bit first, then 16 bit) are reported only if it has the exact size.",
 ["inputs"],"all headers and all octet strings","Tests use a few headers; overrunning elements need a particular mix of lengths.",
 [T+"userdata.go"],[("MarshalBinary/UnmarshalBinary",T+"userdata.go"),("IE/ConcatInfo",T+"userdata.go")],observe=["tpdu.UserDataHeader"])
p("C18","The collector returns exactly the complete in-order set of a message",
 "For every sequence of received TPDUs, a multi-segment message is returned when, and only when, its last missing segment arrives; the result then holds each segment exactly once, in sequence order, all with the same type, address, reference and segment count, and the collector forgets the message. Single-segment TPDUs are returned at once, and segments that differ in any of type, address, reference or count are never combined. Accepting a segment of one message never alters the buffered segments of another.",
 ["histories","inputs"],"every history of collected TPDUs of any length and interleaving",
 "Tests feed a few fixed arrival orders; mixing depends on key collisions and on histories.",
 ["collect.go"],[("per-message buffers","collect.go Collect"),("message key","collect.go pduKey")],
 state=[("pipes","incomplete messages by key","collect.go Collector"),("frags","count of stored segments","collect.go pipe")],observe=["sms.Collector.Collect","sms.Collector.Pipes"])
p("C19","Rejected segments leave the collector's state unchanged",
 "For every collector state, a duplicate segment, a segment whose sequence number is zero or exceeds its segment count, a multi-segment TPDU of an unsupported type, or any TPDU after the collector is closed is rejected with the corresponding error and returns no segments, and the buffered messages stay exactly as they were.",
 ["histories","inputs"],"every collector state and every TPDU","Tests try single rejections on small states.",
 ["collect.go"],[("validity checks","collect.go Collect")],state=[("pipes","incomplete messages by key","collect.go Collector")],observe=["sms.Collector.Collect","sms.Collector.Pipes"])
p("C20","A segment list is reported complete exactly when it is",
 "For every list of TPDUs, the completeness test is true exactly when the list is a single TPDU without concatenation details, or every TPDU carries concatenation details with the same reference, a segment count equal to the list length, and the sequence numbers 1, 2, ..., n in order. The test does not modify the TPDUs.",
 ["inputs"],"every list of TPDUs of any length","Tests use lists of up to three TPDUs.",
 ["sms.go",T+"userdata.go"],[("IsCompleteMessage","sms.go")],observe=["sms.IsCompleteMessage"])
p("C21","Message references count every TPDU and concat references every long message",
 "Across every sequence of messages encoded by one encoder, the n-th TPDU produced carries message reference n modulo 256, and each message needing several segments uses one fresh concatenation reference, increasing by one per such message, in all its segments; single-segment messages consume no concatenation reference. A counter's reads equal the number of counts so far.",
 ["histories","inputs"],"every sequence of encoded messages and options","Tests encode one or two messages.",
 ["encode.go",T+"tpdu.go"],[("Counter","encode.go"),("Segment counters",T+"tpdu.go Segment")],observe=["sms.Encoder.Encode","sms.Counter"])
p("C22","PDU-mode framing round-trips and splits at the right octet",
 "For every service centre address of at most 254 digits and every TPDU, marshalling gives the octet count (including the type octet), type and digits followed by the TPDU unchanged, an absent address gives a single zero octet, and unmarshalling returns the same address and the same TPDU octets; the hexadecimal form is the hex of the binary form. Unmarshalling fails exactly when the input is shorter than the address length it states, and non-hex text is rejected.",
 ["inputs"],"all addresses, all TPDU octets, all octet strings","Tests use two frames.",
 ["encoding/pdumode/pdu.go","encoding/pdumode/smscaddress.go"],[("PDU","encoding/pdumode/pdu.go"),("SMSCAddress","encoding/pdumode/smscaddress.go")],observe=["pdumode.PDU","pdumode.SMSCAddress"])
p("C23","Encoding, marshalling and decoding leave their inputs unmodified",
 "For every input, encoding, segmenting, marshalling, unmarshalling and decoding leave the caller's message bytes, octet buffers, TPDUs and header elements, including the spare capacity of slices, exactly as they were; only the object being unmarshalled into, or a destination buffer passed for that purpose, changes. Header elements of a result may be appended or replaced without affecting the template or another segment.",
 ["inputs"],"every input and every slice capacity","Tests compare outputs, and hardly ever inputs or spare capacity, after a call.",
 ["sms.go","encode.go",T+"tpdu.go",T+"userdata.go","encoding/gsm7/7bit.go"],[("copies of headers and user data",T+"tpdu.go Segment"),("decode copies",T+"tpdu.go decodeUserData")],observe=["tpdu.TPDU.Segment","sms.Decode","sms.Encode"])
p("C24","Flag and field accessors of a TPDU touch only their own bits",
 "For every first octet and parameter indicator, each accessor reports exactly its 3GPP TS 23.040 bit or field, setting the message type, validity period format, header, data coding scheme, protocol identifier or user data changes only the corresponding bits and field, and setting any of the six message types makes the TPDU report that type while an out-of-range type is rejected without change.",
 ["inputs"],"all first octets, indicators and field values","Tests set a few values on zero TPDUs.",
 [T+"firstoctet.go",T+"parameterindicator.go",T+"tpdu.go"],[("FirstOctet",T+"firstoctet.go"),("PI",T+"parameterindicator.go"),("setters",T+"tpdu.go SetVP SetUDH SetUD SetDCS SetPID SetSmsType")],observe=["tpdu.FirstOctet","tpdu.PI","tpdu.TPDU"])
p("C25","User data whose stated length disagrees with the octets is rejected",
 "For every TPDU that carries user data with a non-zero length, unmarshalling succeeds only if the octets present are exactly those the user data length states for the alphabet, and otherwise reports a decoding error rather than a shortened or padded message. Every strict prefix of the binary form of a SUBMIT or DELIVER TPDU is rejected, and the offset in a decoding error lies within the input.",
 ["inputs"],"every octet string and every truncation point or extension of a valid TPDU","Tests truncate a few frames at a few places.",
 [T+"tpdu.go",T+"error.go"],[("decodeUserData length checks",T+"tpdu.go"),("NewDecodeError offsets",T+"error.go")],observe=["tpdu.TPDU.UnmarshalBinary","sms.Unmarshal"])
p("C26","The alphabet and language chosen for a text follow the documented order",
 "For every text and list of available character sets, encoding uses the default 7-bit alphabet if it can represent the whole text, else the first listed set that can do so as locking table, else as shift table, else as both, and otherwise UCS-2. The header produced names exactly the chosen tables, and the user data is the text encoded with them.",
 ["inputs","configurations"],"every text and every list of character sets","Tests use a few texts with one or two sets.",
 [T+"userdata.go","encode.go","options.go"],[("EncodeUserData",T+"userdata.go")],observe=["tpdu.EncodeUserData","sms.Encode"])
p("C27","Concurrent use of one encoder, collector or character set is race free",
 "For every interleaving of goroutines sharing a collector, an encoder or the character set tables, no memory is accessed concurrently without synchronisation, and every result equals one that some sequential order of the calls would give.",
 ["schedules"],"every interleaving of any number of goroutines","The tests are sequential.",
 ["collect.go","encode.go","encoding/gsm7/charset/charset.go"],[("Collector mutex","collect.go"),("atomic counter","encode.go Counter"),("lazily initialised tables","encoding/gsm7/charset/charset.go")],observe=["sms.Collector","sms.Encoder"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,s)
print(len(P))
