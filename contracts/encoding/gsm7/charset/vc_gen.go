package charset

import "github.com/warthog618/sms/internal/vcgen"

func gen_nli(r *vcgen.R) int {
	if r.Chance(6) {
		return int(r.Int())
	}
	return r.Intn(16) - 1
}
func gen_C08_tables(r *vcgen.R) []interface{}  { return []interface{}{gen_nli(r)} }
func gen_C08_unknown(r *vcgen.R) []interface{} { return []interface{}{gen_nli(r)} }
func gen_C08_repeat(r *vcgen.R) []interface{}  { return []interface{}{gen_nli(r), gen_nli(r)} }
func gen_NewDecoder(r *vcgen.R) []interface{}  { return []interface{}{gen_nli(r)} }
func gen_NewEncoder(r *vcgen.R) []interface{}  { return []interface{}{gen_nli(r)} }
func gen_NewExtDecoder(r *vcgen.R) []interface{} {
	return []interface{}{gen_nli(r)}
}
func gen_NewExtEncoder(r *vcgen.R) []interface{} {
	return []interface{}{gen_nli(r)}
}
