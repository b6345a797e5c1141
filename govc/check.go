package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// CheckCfg is what decides one property.
type CheckCfg struct {
	Entries []string `json:"entries"`
	Assume  []string `json:"assume"`
	Note    string   `json:"note"`
}

var trustedBase = []string{
	"the verifier itself (/verif/govc: golang.org/x/tools/go/ssa, the symbolic semantics of SSA instructions, the condition generator) and its back ends z3 and cvc5",
	"the Go compiler and runtime implement the language specification",
	"distinct reference arguments of one call do not overlap unless a contract says so",
	"no slice or string is longer than 2^48 elements and memory is not exhausted",
	"machine integers: int is 64-bit; every int addition, subtraction, multiplication and conversion is either proved in range or wrapped explicitly; smaller integers are bit-vectors",
	"calls are executed one at a time (no interleaving is modelled)",
}

type failure struct{ id, text string }

func runCheck(base, root, contracts, propsFile, prop, evidence, replay string, noNative, native bool) int {
	t0 := time.Now()
	tier := opt.tier
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if evidence == "" {
		evidence = filepath.Join(base, "evidence", prop+".json")
	}
	if replay == "" {
		replay = filepath.Join(base, "evidence", "replay")
	}
	var cfgs map[string]CheckCfg
	if b, err := os.ReadFile(propsFile); err == nil {
		if err := json.Unmarshal(b, &cfgs); err != nil {
			fmt.Println("configuration:", err)
		}
	}
	cfg := cfgs[prop]
	var fails []failure
	fail := func(id, f string, a ...interface{}) { fails = append(fails, failure{id, fmt.Sprintf(f, a...)}) }

	p, err := load(root, contracts)
	var rs []*EntryResult
	var es []Entry
	if err != nil {
		p = nil
		fail("load", "%v", err)
	} else {
		for _, s := range cfg.Entries {
			e, err := p.entry(s)
			if err != nil {
				fail(s, "function under contract is missing: %s", s)
				continue
			}
			es = append(es, e)
		}
		for _, h := range p.props {
			if strings.HasPrefix(h.Name(), "prop_"+prop+"_") {
				es = append(es, Entry{fn: h, kind: "harness", label: h.String()})
			}
		}
		for _, d := range p.droppedNames {
			if strings.Contains(d, ":prop_"+prop+"_") {
				fail(d, "statement of the property does not type-check against the code: %s", d)
			}
		}
		if !native {
			if tier == "thorough" {
				opt.portSecs, opt.entrySecs = 60, 1800
				rs = pool(p, es, true, t0.Add(3*time.Hour))
			} else {
				rs = pool(p, es, true, t0.Add(480*time.Second))
			}
		}
	}
	nobl, nok := 0, 0
	backend := map[string]int{}
	var solverMs int64
	trusted, inlined := map[string]bool{}, map[string]bool{}
	type fnRec struct {
		Function    string `json:"function"`
		Kind        string `json:"kind"`
		Obligations int    `json:"obligations"`
		Discharged  int    `json:"discharged"`
		Ms          int64  `json:"ms"`
	}
	var fns []fnRec
	nfixed := len(fails)
	tally := func() {
		fails = fails[:nfixed]
		nobl, nok, solverMs, fns = 0, 0, 0, nil
		backend = map[string]int{}
		for _, r := range rs {
			f := fnRec{Function: r.label, Kind: r.kind, Ms: r.Ms}
			for _, o := range r.Obls {
				f.Obligations++
				if o.Status == "proved" {
					f.Discharged++
					backend[o.Backend]++
				} else {
					fail(r.label+"|"+o.Kind, "obligation not discharged: %s: %s at %s\n%s", o.Name, o.Kind, o.Where, o.Detail)
				}
				solverMs += o.Ms
			}
			nobl += f.Obligations
			nok += f.Discharged
			if r.Err != "" {
				fail(r.label+"|verifier", "%s", r.Err)
			} else if f.Obligations == 0 {
				fail(r.label+"|empty", "no obligations were generated for %s", r.label)
			}
			for _, t := range r.Trusted {
				trusted[t] = true
			}
			for _, t := range r.Inlined {
				inlined[t] = true
			}
			fns = append(fns, f)
		}
	}
	tally()
	if len(rs) == 0 && !native && len(fails) == 0 {
		fail("empty", "no entries are configured for %s", prop)
	}
	var nrs []NativeResult
	if !noNative {
		d, procs := 4*time.Second, 2
		if tier == "thorough" {
			d, procs = 120*time.Second, 8
		}
		if len(fails) > 0 {
			d, procs = 45*time.Second, 8
		}
		keys := append([]string{}, cfg.Entries...)
		if p != nil {
			// the contracts used are executed as well
			have := map[string]bool{}
			for _, k := range keys {
				have[k] = true
			}
			for _, r := range rs {
				if r.kind == "contract" && r.fn.Pkg != nil {
					dir := strings.TrimPrefix(strings.TrimPrefix(r.fn.Pkg.Pkg.Path(), p.module), "/")
					if dir == "" {
						dir = "."
					}
					k := dir + ":" + fnKey(r.fn)
					if !have[k] {
						have[k] = true
						keys = append(keys, k)
					}
				}
			}
		}
		nrs, err = runNative(p, base, root, contracts, prop, keys, seed, d, procs)
		if err != nil {
			fmt.Println("note: native run:", err)
			if len(fails) == 0 {
				fail("native", "native run: %v", err)
			}
		}
	}
	tried, distinct := 0, 0
	var samples []interface{}
	var cex *NativeResult
	for i, n := range nrs {
		tried += n.Accepted
		distinct += n.Distinct
		for _, s := range n.Samples {
			if len(samples) < 6 {
				samples = append(samples, map[string]string{"harness": n.Name, "args": s})
			}
		}
		if n.Failed && cex == nil {
			cex = &nrs[i]
		}
	}
	if cex == nil && len(fails) > nfixed && nfixed == 0 && !native && p != nil {
		// no input shows a failure: what was not discharged is tried again with more time and fewer at once
		left := 840*time.Second - time.Since(t0)
		if tier == "thorough" {
			left = time.Hour
		}
		if left > time.Minute {
			retry(p, rs, left)
			tally()
		}
	}
	known := knownFindings(filepath.Join(base, "known-findings.txt"), prop)
	nviol := 0
	var rest []failure
	for _, f := range fails {
		if w, ok := known[f.id]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, w)
			continue
		}
		rest = append(rest, f)
	}
	if cex != nil {
		if w, ok := known[cex.Pkg+":"+cex.Name]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, w)
			cex = nil
		}
	}
	if len(rest) > 0 || cex != nil {
		nviol = 1
	}
	cov := map[string]interface{}{
		"obligations": nobl, "discharged": nok,
		"checker_cmd":              fmt.Sprintf("%s/bin/govc -prop %s", base, prop),
		"trusted_base":             append(append([]string{}, trustedBase...), sortedKeys(trusted)...),
		"functions_under_contract": fns,
		"inlined_without_contract": sortedKeys(inlined),
		"by_back_end":              backend,
		"obligation_ms":            solverMs,
		"rule":                     "every obligation generated from the current source of the functions listed, for all inputs; the evaluations are a cross-check: the same harnesses and contracts executed natively on generated inputs, distinct by argument value, counted when the precondition holds",
		"evaluations":              tried, "distinct_nontrivial": distinct, "samples": samples,
		"native": nrs,
	}
	if samples == nil {
		cov["samples"] = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": cov, "assumptions": append(append([]string{}, cfg.Assume...), sortedKeys(trusted)...), "wall_s": time.Since(t0).Seconds(), "violations": nviol,
	}
	os.MkdirAll(filepath.Dir(evidence), 0o755)
	var bb bytes.Buffer
	enc := json.NewEncoder(&bb)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	enc.Encode(ev)
	os.WriteFile(evidence, bb.Bytes(), 0o644)
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %d native evaluations, %.1f s\n", prop, nobl, nok, len(fns), tried, time.Since(t0).Seconds())
	if opt.trace || opt.verbose {
		for _, n := range nrs {
			fmt.Printf("  native %s:%s accepted %d of %d, distinct %d\n", n.Pkg, n.Name, n.Accepted, n.Tried, n.Distinct)
		}
	}
	if nviol == 0 {
		return 0
	}
	os.MkdirAll(replay, 0o755)
	path := filepath.Join(replay, fmt.Sprintf("%s-%d.txt", prop, time.Now().UnixNano()))
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n\n", prop)
	if cex != nil {
		fmt.Fprintf(&sb, "failing input against the real code\n  package  %s\n  harness  %s\n  args     %s\n  result   %s\n  seed %d iteration %d\n  rerun: VERIF_SEED=%d %s/bin/govc -prop %s -native\n\n", cex.Pkg, cex.Name, cex.Args, cex.Msg, cex.Seed, cex.Iter, seed, base, prop)
		fmt.Printf("failing input: %s:%s(%s): %s\n", cex.Pkg, cex.Name, clip(cex.Args, 600), clip(cex.Msg, 600))
	}
	sort.SliceStable(rest, func(i, j int) bool { return rest[i].id < rest[j].id })
	for _, f := range rest {
		fmt.Fprintf(&sb, "%s\n%s\n\n", f.id, f.text)
		fmt.Println("FAILED", clip(f.id+" "+strings.SplitN(f.text, "\n", 2)[0], 300))
	}
	os.WriteFile(path, []byte(sb.String()), 0o644)
	if cex != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
	}
	return 1
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// knownFindings reads lines "finding: property=Cxx id=<obligation or harness> <what fails>".
func knownFindings(file, prop string) map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(file)
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" id=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+prop+" id=")
		f := strings.SplitN(l, " ", 2)
		if len(f) == 2 {
			m[f[0]] = f[1]
		}
	}
	return m
}

// retry verifies again the entries with obligations that were not discharged.
func retry(p *Prog, rs []*EntryResult, left time.Duration) {
	opt.slow = 4
	defer func() { opt.slow = 1 }()
	end := time.Now().Add(left)
	sem := make(chan struct{}, 3)
	var wg sync.WaitGroup
	for i, r := range rs {
		bad := r.Err != "" && strings.Contains(r.Err, "budget")
		for _, o := range r.Obls {
			bad = bad || o.Status != "proved"
		}
		if !bad || r.Err != "" && !strings.Contains(r.Err, "budget") {
			continue
		}
		wg.Add(1)
		go func(i int, r *EntryResult) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if time.Until(end) < 20*time.Second {
				return
			}
			fmt.Println("trying again:", r.label)
			rs[i] = verifyBy(p, r.Entry, end)
		}(i, r)
	}
	wg.Wait()
}
