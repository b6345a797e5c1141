package charset

// warm_charset fills every cache: each proof is done from the initial state of
// the package and from this one.
func warm_charset() {
	DefaultDecoder()
	DefaultEncoder()
	DefaultExtDecoder()
	DefaultExtEncoder()
	for nli := 0; nli <= 14; nli++ {
		NewDecoder(nli)
		NewEncoder(nli)
		NewExtDecoder(nli)
		NewExtEncoder(nli)
	}
}
