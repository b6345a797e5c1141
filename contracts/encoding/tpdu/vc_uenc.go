package tpdu

import (
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/ucs2"
)

// ---- choice of alphabet and language tables ----

// spec_can: locking table l and shift table x can represent msg.
func spec_can(l, x int, msg []byte) bool { return gsm7.SpecCan(l, x, msg) }

// rec_locks is the number of locking tables listed by the first k options.
func rec_locks(options []UDEncodeOption, k int) int {
	if k <= 0 {
		return 0
	}
	switch o := options[k-1].(type) {
	case CharsetOption:
		return rec_locks(options, k-1) + len(o.nli)
	case LockingCharsetOption:
		return rec_locks(options, k-1) + len(o.nli)
	case AllCharsetsOption:
		return 13
	}
	return rec_locks(options, k-1)
}

// rec_shifts is the number of shift tables listed by the first k options.
func rec_shifts(options []UDEncodeOption, k int) int {
	if k <= 0 {
		return 0
	}
	switch o := options[k-1].(type) {
	case CharsetOption:
		return rec_shifts(options, k-1) + len(o.nli)
	case ShiftCharsetOption:
		return rec_shifts(options, k-1) + len(o.nli)
	case AllCharsetsOption:
		return 13
	}
	return rec_shifts(options, k-1)
}

// rec_lock is locking table j of those listed by the first k options.
func rec_lock(options []UDEncodeOption, j, k int) int {
	if k <= 0 {
		return 0
	}
	n := rec_locks(options, k-1)
	switch o := options[k-1].(type) {
	case CharsetOption:
		if j >= n && j < n+len(o.nli) {
			return o.nli[j-n]
		}
	case LockingCharsetOption:
		if j >= n && j < n+len(o.nli) {
			return o.nli[j-n]
		}
	case AllCharsetsOption:
		return j + 1
	}
	return rec_lock(options, j, k-1)
}

// rec_shift is shift table j of those listed by the first k options.
func rec_shift(options []UDEncodeOption, j, k int) int {
	if k <= 0 {
		return 0
	}
	n := rec_shifts(options, k-1)
	switch o := options[k-1].(type) {
	case CharsetOption:
		if j >= n && j < n+len(o.nli) {
			return o.nli[j-n]
		}
	case ShiftCharsetOption:
		if j >= n && j < n+len(o.nli) {
			return o.nli[j-n]
		}
	case AllCharsetsOption:
		return j + 1
	}
	return rec_shift(options, j, k-1)
}

func req_EncodeUserData(msg []byte, options []UDEncodeOption) bool {
	return vcForall(0, len(options), func(i int) bool { return options[i] != nil })
}

func inv_EncodeUserData_0(vck int, options []UDEncodeOption, cfg udEncodeConfig) bool {
	return len(cfg.locking) == rec_locks(options, vck) && len(cfg.shift) == rec_shifts(options, vck) &&
		vcForall(0, len(cfg.locking), func(j int) bool { return cfg.locking[j] == rec_lock(options, j, vck) }) &&
		vcForall(0, len(cfg.shift), func(j int) bool { return cfg.shift[j] == rec_shift(options, j, vck) })
}

func spec_locks(options []UDEncodeOption) int  { return rec_locks(options, len(options)) }
func spec_shifts(options []UDEncodeOption) int { return rec_shifts(options, len(options)) }
func spec_lock(options []UDEncodeOption, j int) int  { return rec_lock(options, j, len(options)) }
func spec_shift(options []UDEncodeOption, j int) int { return rec_shift(options, j, len(options)) }

// rec_asLock is the first of the last d listed locking tables that represents msg with the default
// shift table; the number of the locking tables if none does.
func rec_asLock(msg []byte, options []UDEncodeOption, d int) int {
	n := spec_locks(options)
	if d <= 0 {
		return n
	}
	if spec_can(spec_lock(options, n-d), 0, msg) {
		return n - d
	}
	return rec_asLock(msg, options, d-1)
}

// rec_asShift is the first of the last d listed shift tables that represents msg with the default locking table.
func rec_asShift(msg []byte, options []UDEncodeOption, d int) int {
	n := spec_shifts(options)
	if d <= 0 {
		return n
	}
	if spec_can(0, spec_shift(options, n-d), msg) {
		return n - d
	}
	return rec_asShift(msg, options, d-1)
}

// rec_listed: l is one of the last d listed shift tables.
func rec_listed(options []UDEncodeOption, l, d int) bool {
	if d <= 0 {
		return false
	}
	return spec_shift(options, spec_shifts(options)-d) == l || rec_listed(options, l, d-1)
}

// rec_asBoth is the first of the last d listed locking tables that is also listed as shift table
// and represents msg as both.
func rec_asBoth(msg []byte, options []UDEncodeOption, d int) int {
	n := spec_locks(options)
	if d <= 0 {
		return n
	}
	l := spec_lock(options, n-d)
	if rec_listed(options, l, spec_shifts(options)) && spec_can(l, l, msg) {
		return n - d
	}
	return rec_asBoth(msg, options, d-1)
}

func inv_EncodeUserData_1(vck int, msg []byte, options []UDEncodeOption) bool {
	n := spec_locks(options)
	return rec_asLock(msg, options, n-vck) == rec_asLock(msg, options, n)
}
func inv_EncodeUserData_2(vck int, msg []byte, options []UDEncodeOption) bool {
	n := spec_shifts(options)
	return rec_asShift(msg, options, n-vck) == rec_asShift(msg, options, n)
}
func inv_EncodeUserData_3(vck int, msg []byte, options []UDEncodeOption) bool {
	n := spec_locks(options)
	return rec_asBoth(msg, options, n-vck) == rec_asBoth(msg, options, n)
}
func inv_EncodeUserData_4(vck int, msg []byte, options []UDEncodeOption, nli int) bool {
	n := spec_shifts(options)
	return (!spec_can(nli, nli, msg) || !rec_listed(options, nli, n) || rec_listed(options, nli, n-vck)) &&
		(!rec_listed(options, nli, n-vck) || rec_listed(options, nli, n))
}

// spec_named: the header has n elements, the i-th of them names table l.
func spec_named(udh UserDataHeader, n, i int, id byte, l int) bool {
	return len(udh) == n && udh[i].ID == id && len(udh[i].Data) == 1 && int(udh[i].Data[0]) == l
}

func spec_chosen(msg []byte, options []UDEncodeOption, udh UserDataHeader, alpha Alphabet) bool {
	if spec_can(0, 0, msg) {
		return alpha == Alpha7Bit && udh == nil
	}
	n, m := spec_locks(options), spec_shifts(options)
	if j := rec_asLock(msg, options, n); j < n {
		return alpha == Alpha7Bit && spec_named(udh, 1, 0, lockingIEI, spec_lock(options, j))
	}
	if j := rec_asShift(msg, options, m); j < m {
		return alpha == Alpha7Bit && spec_named(udh, 1, 0, shiftIEI, spec_shift(options, j))
	}
	if j := rec_asBoth(msg, options, n); j < n {
		l := spec_lock(options, j)
		return alpha == Alpha7Bit && spec_named(udh, 2, 0, lockingIEI, l) && spec_named(udh, 2, 1, shiftIEI, l)
	}
	return alpha == AlphaUCS2 && udh == nil
}

// spec_text: the user data is the text, encoded as the header and alphabet say.
func spec_text(msg []byte, ud UserData, udh UserDataHeader, alpha Alphabet) bool {
	if alpha == AlphaUCS2 {
		return ucs2.SpecEncoded([]rune(string(msg)), ud)
	}
	if len(udh) == 0 {
		return gsm7.SpecText(0, 0, msg, ud)
	}
	if len(udh) == 2 {
		return gsm7.SpecText(int(udh[0].Data[0]), int(udh[0].Data[0]), msg, ud)
	}
	if udh[0].ID == lockingIEI {
		return gsm7.SpecText(int(udh[0].Data[0]), 0, msg, ud)
	}
	return gsm7.SpecText(0, int(udh[0].Data[0]), msg, ud)
}

func ens_EncodeUserData(msg []byte, options []UDEncodeOption, ud UserData, udh UserDataHeader, alpha Alphabet) bool {
	return spec_chosen(msg, options, udh, alpha) && spec_text(msg, ud, udh, alpha) && len(ud) <= 4*len(msg) && (alpha != AlphaUCS2 || len(ud)%2 == 0)
}

func hnt_EncodeUserData(msg []byte, options []UDEncodeOption, ud UserData, udh UserDataHeader, alpha Alphabet) {
	if alpha == AlphaUCS2 {
		ucs2.LemMost([]rune(string(msg)))
	} else if len(udh) == 0 {
		gsm7.LemMost(0, 0, msg)
	} else if len(udh) == 2 {
		gsm7.LemMost(int(udh[0].Data[0]), int(udh[0].Data[0]), msg)
	} else if udh[0].ID == lockingIEI {
		gsm7.LemMost(int(udh[0].Data[0]), 0, msg)
	} else {
		gsm7.LemMost(0, int(udh[0].Data[0]), msg)
	}
}

// ---- for the contracts of other packages ----

// SpecPlain: the default tables represent msg.
func SpecPlain(msg []byte) bool { return spec_can(0, 0, msg) }

// SpecLang: the default tables do not, but language tables that are listed do.
func SpecLang(msg []byte, options []UDEncodeOption) bool {
	n, m := spec_locks(options), spec_shifts(options)
	return !spec_can(0, 0, msg) && (rec_asLock(msg, options, n) < n || rec_asShift(msg, options, m) < m || rec_asBoth(msg, options, n) < n)
}

// SpecChosen is the choice that EncodeUserData documents.
func SpecChosen(msg []byte, options []UDEncodeOption, udh UserDataHeader, alpha Alphabet) bool {
	return spec_chosen(msg, options, udh, alpha)
}

// SpecTables tells how many elements name the language tables chosen for a text, the identity of the first, and the table.
func SpecTables(msg []byte, options []UDEncodeOption) (int, byte, int) {
	n, m := spec_locks(options), spec_shifts(options)
	a, b, c := rec_asLock(msg, options, n), rec_asShift(msg, options, m), rec_asBoth(msg, options, n)
	if a < n {
		return 1, lockingIEI, spec_lock(options, a)
	}
	if b < m {
		return 1, shiftIEI, spec_shift(options, b)
	}
	return 2, lockingIEI, spec_lock(options, c)
}
