package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var opt struct {
	trace, verbose, hurry, revMaps, noSimp, noJoin, noRel, noSkolem bool
	maxFail, portSecs, maxPaths                                     int
	slow                                                            int
	dump                                                            string
	entrySecs                                                       int
	tier                                                            string
	stack                                                           bool
}

var z3ver = "4"

// Entry is one function to verify.
type Entry struct {
	fn    *ssa.Function
	kind  string // contract, lemma, harness, safety
	cse   *ssa.Function
	label string
}

type EntryResult struct {
	Entry
	Obls    []*Obl
	Err     string
	Used    []string
	Trusted []string
	Inlined []string
	Ms      int64
	Cases   int
}

func newX(p *Prog, name string) *X {
	x := &X{Ctx: NewCtx(), P: p, name: name, seqKeys: map[string]string{}, getMemo: map[string]Val{}, liftObj: map[string]*Obj{}, base: map[int]interface{}{}, ptrObj: map[int]*VPtr{}, ifaceIDs: map[string]*Term{}, ifaceVals: map[int]*VIface{}, factSet: map[int]bool{}, used: map[string]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{}, globals: map[*ssa.Global]*Obj{}, inited: map[*ssa.Package]bool{}, texts: map[string]*Text{}, typeTags: map[string]int{}, strTags: map[string]*Term{}, mapSnap: map[int]*MapC{}}
	return x
}

// verify runs every variant of an entry.
func verify(p *Prog, e Entry) *EntryResult { return verifyBy(p, e, time.Time{}) }

func verifyBy(p *Prog, e Entry, end time.Time) *EntryResult {
	r := &EntryResult{Entry: e}
	t0 := time.Now()
	used, trusted, inlined := map[string]bool{}, map[string]bool{}, map[string]bool{}
	con := p.cons[e.fn]
	// the cases are each value in a range of an integer parameter, below it, and above it
	cases := []*splitCase{nil}
	if con != nil && con.split != nil {
		x := newX(p, e.label)
		lo, hi, err := x.splitRange(con.split)
		x.be.close()
		if err != "" {
			r.Err = err
			return r
		}
		cases = []*splitCase{{fn: con.split, v: lo - 1, below: true}}
		for v := lo; v <= hi; v++ {
			cases = append(cases, &splitCase{fn: con.split, v: v})
		}
		cases = append(cases, &splitCase{fn: con.split, v: hi + 1, above: true})
	}
	deadline := time.Now().Add(time.Duration(opt.entrySecs) * time.Second)
	if !end.IsZero() && end.Before(deadline) {
		deadline = end
	}
	for _, c := range cases {
		for warm := 0; warm < 2; warm++ {
			x := newX(p, e.label)
			if c != nil {
				x.name += "/" + c.String()
			}
			if warm == 1 {
				x.name += "/warm"
			}
			x.warm = warm == 1
			x.deadline = deadline
			err := x.runEntry(e, con, c)
			x.be.close()
			r.Cases++
			r.Obls = append(r.Obls, x.obls...)
			for k := range x.used {
				used[k] = true
			}
			for k := range x.trusted {
				trusted[k] = true
			}
			for k := range x.inlined {
				inlined[k] = true
			}
			if err != "" {
				r.Err = x.name + ": " + err
				break
			}
			if !x.sawWarm {
				break
			}
		}
	}
	r.Used, r.Trusted, r.Inlined = sortedKeys(used), sortedKeys(trusted), sortedKeys(inlined)
	r.Ms = time.Since(t0).Milliseconds()
	return r
}

type splitCase struct {
	fn           *ssa.Function
	v            int64
	below, above bool
}

func (c *splitCase) String() string {
	if c.below {
		return fmt.Sprintf("<=%d", c.v)
	}
	if c.above {
		return fmt.Sprintf(">=%d", c.v)
	}
	return fmt.Sprint(c.v)
}

// splitRange evaluates split_F, which returns the parameter to split on and its range.
func (x *X) splitRange(fn *ssa.Function) (lo, hi int64, err string) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Sprint("split: ", r)
		}
	}()
	st := newState()
	x.cur = st
	var args []Val
	for _, p := range fn.Params {
		args = append(args, x.fresh(p.Type(), p.Name(), true))
	}
	t := x.specCall(fn, args, nil, st).(*VTuple)
	return t.v[1].(*Term).ival.Int64(), t.v[2].(*Term).ival.Int64(), ""
}

func (x *X) runEntry(e Entry, con *Contract, cse *splitCase) (err string) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsup:
				err = "outside the verifier's reach: " + r.msg
				if opt.stack {
					debug.PrintStack()
				}
			case abortEntry:
				err = r.msg
			default:
				err = fmt.Sprintf("verifier failure: %v", r)
				if opt.stack || opt.trace {
					fmt.Println(err)
					debug.PrintStack()
				}
			}
		}
	}()
	fn := e.fn
	x.entryFn = fn
	st := newState()
	x.cur = st
	var args []Val
	for _, p := range fn.Params {
		v := x.fresh(p.Type(), p.Name(), true)
		args = append(args, v)
		x.symNames = append(x.symNames, symParam{p.Name(), v, p.Type()})
	}
	if cse != nil {
		sv := x.specCall(cse.fn, args, nil, st).(*VTuple).v[0].(*Term)
		found := false
		for i, a := range args {
			if a != Val(sv) {
				continue
			}
			found = true
			switch {
			case cse.below:
				x.assume(st, x.Le(sv, x.I(cse.v)))
			case cse.above:
				x.assume(st, x.Le(x.I(cse.v), sv))
			default:
				args[i] = x.I(cse.v)
			}
		}
		if !found {
			x.unsupported("split is not on a parameter")
		}
	}
	x.cur = st
	x.checkDropped(fn)
	if con != nil && con.req != nil {
		x.assume(st, x.evalSpecBool(con.req, args, st))
	}
	if con != nil && con.mod != nil {
		x.mods = x.evalMods(con.mod, args, st)
	}
	if con != nil && con.isLemma {
		x.entryMeasure = x.lemmaMeasure(fn, args)
	}
	x.pos = fn.Pos()
	if cse != nil && (cse.below || cse.above) && x.fast(st, x.False) {
		return "" // the precondition excludes the values outside the split
	}
	// vacuity: the precondition must be satisfiable
	if len(st.pc) > 0 {
		o := &Obl{Name: x.name, Kind: "precondition is satisfiable", Status: "proved", Backend: "z3-" + z3ver, Where: x.P.posStr(fn.Pos())}
		if x.fast(st, x.False) {
			o.Status = "failed"
			x.nfail++
		}
		x.obls = append(x.obls, o)
	}
	old := st.clone()
	x.oldState = old
	outs := x.callFn(fn, args, nil, st)
	reached := false
	nres := fn.Signature.Results().Len()
	for _, o := range outs {
		x.cur = o.st
		x.pos = fn.Pos()
		states := []*State{o.st}
		if con != nil && con.hint != nil {
			states = x.ghostCases(con.hint, x.ensArgs(con.hint, args, o.ret, nres, old), o.st)
		}
		for _, st := range states {
			x.cur = st
			if e.kind == "contract" && (con == nil || !con.alias) && nres > 0 {
				x.checkFresh(st, o.ret)
			}
			if con != nil && con.ens != nil && e.kind != "safety" {
				x.pos = con.ens.Pos()
				g := x.evalSpecBool(con.ens, x.ensArgs(con.ens, args, o.ret, nres, old), st)
				x.oblige(st, "postcondition", g)
				if con.det != nil {
					x.detCheck(con, fn, args, o.ret, st)
				}
			}
		}
		if !reached && !x.fast(o.st, x.False) {
			reached = true
		}
	}
	if !reached {
		x.obls = append(x.obls, &Obl{Name: x.name, Kind: "some path returns (vacuity)", Status: "failed", Where: x.P.posStr(fn.Pos())})
		x.nfail++
	}
	return ""
}

// checkFresh: returned memory is not the caller's.
func (x *X) checkFresh(st *State, v Val) {
	switch v := v.(type) {
	case *VSlice:
		if v.obj != nil && (v.obj.visible || v.obj.ro && v.obj.name != "merged" && v.obj.name != "frozen") {
			x.oblige(st, "result does not alias caller memory", x.Eq(v.cap, x.I(0)))
		}
	case *VStruct:
		for _, f := range v.f {
			x.checkFresh(st, f)
		}
	case *VTuple:
		for _, f := range v.v {
			x.checkFresh(st, f)
		}
	}
}

func pool(p *Prog, entries []Entry, follow bool, budget time.Time) []*EntryResult {
	var mu sync.Mutex
	var wg sync.WaitGroup
	seen := map[string]bool{}
	var results []*EntryResult
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	sem := make(chan struct{}, n)
	var add func(e Entry)
	add = func(e Entry) {
		k := e.kind + ":" + e.fn.String()
		mu.Lock()
		if seen[k] {
			mu.Unlock()
			return
		}
		seen[k] = true
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			var r *EntryResult
			if time.Now().After(budget) {
				r = &EntryResult{Entry: e, Err: "check budget exhausted"}
			} else {
				r = verify(p, e)
			}
			<-sem
			mu.Lock()
			results = append(results, r)
			mu.Unlock()
			if opt.trace {
				np, nf := 0, 0
				for _, o := range r.Obls {
					if o.Status == "proved" {
						np++
					} else {
						nf++
					}
				}
				fmt.Printf("%-60s %4d proved %3d failed %6d ms %s\n", e.kind+" "+e.label, np, nf, r.Ms, r.Err)
			}
			if follow {
				for _, u := range r.Used {
					if fn := p.byName(u); fn != nil {
						con := p.cons[fn]
						if con == nil {
							continue
						}
						kind := "contract"
						if con.isLemma {
							kind = "lemma"
						}
						add(Entry{fn: fn, kind: kind, label: u})
					}
				}
			}
		}()
	}
	for _, e := range entries {
		add(e)
	}
	wg.Wait()
	sort.Slice(results, func(i, j int) bool { return results[i].label < results[j].label })
	return results
}

func (p *Prog) byName(n string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	for fn := range p.cons {
		if fn.String() == n {
			return fn
		}
	}
	return nil
}

// find resolves "dir:Key" (contract key) to a function.
func (p *Prog) find(spec string) *ssa.Function {
	dir, key := ".", spec
	if i := strings.Index(spec, ":"); i >= 0 {
		dir, key = spec[:i], spec[i+1:]
	}
	path := p.module
	if dir != "." && dir != "" {
		path += "/" + dir
	}
	sp := p.byPath[path]
	if sp == nil {
		return nil
	}
	var hit *ssa.Function
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || fn.Synthetic != "" {
			return
		}
		if fnKey(fn) == key {
			hit = fn
		}
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, m := range sp.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range typesOf(m) {
				ms := p.ssa.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					fn := p.ssa.MethodValue(ms.At(i))
					if fn != nil && fn.Pkg == sp {
						add(fn)
					}
				}
			}
		}
	}
	return hit
}

func main() {
	var root, contracts, entry, prop, evidence, replay, propsFile string
	var follow, list, native, noNative bool
	flag.StringVar(&root, "root", "/repo", "repository")
	flag.StringVar(&contracts, "contracts", "", "contract overlay directory")
	flag.StringVar(&entry, "entry", "", "comma-separated entries dir:Key to verify")
	flag.StringVar(&prop, "prop", "", "property to check")
	flag.StringVar(&evidence, "evidence", "", "evidence file")
	flag.StringVar(&replay, "replay", "", "replay directory")
	flag.StringVar(&propsFile, "config", "", "property configuration")
	flag.BoolVar(&follow, "follow", false, "also verify the contracts used")
	flag.BoolVar(&list, "list", false, "list contracts")
	flag.BoolVar(&native, "native", false, "only run the native harnesses")
	flag.BoolVar(&noNative, "nonative", false, "skip the native harnesses")
	flag.BoolVar(&opt.trace, "trace", false, "")
	flag.BoolVar(&opt.verbose, "v", false, "")
	flag.BoolVar(&opt.stack, "stack", false, "")
	flag.BoolVar(&opt.hurry, "hurry", true, "")
	flag.BoolVar(&opt.noSimp, "nosimp", false, "")
	flag.BoolVar(&opt.noRel, "norel", false, "")
	flag.BoolVar(&opt.noSkolem, "noskolem", false, "")
	flag.BoolVar(&opt.noJoin, "nojoin", false, "")
	flag.IntVar(&opt.maxFail, "maxfail", 3, "")
	flag.IntVar(&opt.portSecs, "portsecs", 45, "")
	flag.IntVar(&opt.maxPaths, "maxpaths", 4000, "")
	flag.IntVar(&opt.entrySecs, "entrysecs", 300, "")
	flag.StringVar(&opt.dump, "dump", "", "")
	flag.StringVar(&opt.tier, "tier", os.Getenv("VERIF_TIER"), "")
	flag.Parse()
	exe, _ := os.Executable()
	base := filepath.Dir(filepath.Dir(exe))
	if contracts == "" {
		contracts = filepath.Join(base, "contracts")
	}
	if propsFile == "" {
		propsFile = filepath.Join(base, "checks.json")
	}
	if b, err := exec.Command("z3", "--version").Output(); err == nil {
		f := strings.Fields(string(b))
		if len(f) >= 3 {
			z3ver = f[2]
		}
	}
	if prop != "" {
		os.Exit(runCheck(base, root, contracts, propsFile, prop, evidence, replay, noNative, native))
	}
	p, err := load(root, contracts)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if list {
		for fn, c := range p.cons {
			fmt.Println(fn.String(), c.name, c.isLemma)
		}
		return
	}
	var es []Entry
	for _, s := range strings.Split(entry, ",") {
		if s == "" {
			continue
		}
		e, err := p.entry(s)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		es = append(es, e)
	}
	rs := pool(p, es, follow, time.Now().Add(time.Hour))
	bad := 0
	for _, r := range rs {
		if r.Err != "" {
			bad++
			fmt.Println("ERROR", r.Err)
		}
		for _, o := range r.Obls {
			if o.Status != "proved" {
				bad++
				fmt.Println("FAILED", o.Name, o.Kind, o.Where)
				if opt.verbose {
					fmt.Println(o.Detail)
				}
			}
		}
	}
	if opt.verbose {
		b, _ := json.Marshal(stats.queries)
		fmt.Println(string(b))
	}
	if bad > 0 {
		os.Exit(1)
	}
}

// entry parses "[safety!]dir:Key".
func (p *Prog) entry(s string) (Entry, error) {
	kind := ""
	if i := strings.Index(s, "!"); i >= 0 {
		kind = s[:i]
		s = s[i+1:]
	}
	fn := p.find(s)
	if fn == nil {
		return Entry{}, fmt.Errorf("no function %s", s)
	}
	if kind == "" {
		con := p.cons[fn]
		switch {
		case strings.HasPrefix(fn.Name(), "prop_"):
			kind = "harness"
		case con != nil && con.isLemma:
			kind = "lemma"
		case con != nil:
			kind = "contract"
		default:
			kind = "safety"
		}
	}
	return Entry{fn: fn, kind: kind, label: fn.String()}, nil
}

// pace stretches the time solvers are given.
func pace() int {
	if opt.slow > 1 {
		return opt.slow
	}
	return 1
}
