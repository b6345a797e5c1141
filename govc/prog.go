package main

// Loading of /repo with the contract overlay; contract index; loop structure.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	dropped      map[string]string
	droppedNames []string
	fset         *token.FileSet
	ssa          *ssa.Program
	repo         []*ssa.Package
	byPath       map[string]*ssa.Package
	mu           sync.Mutex
	infos        map[*ssa.Function]*fnInfo
	built        map[*ssa.Package]bool
	cons         map[*ssa.Function]*Contract
	ext          map[string]*Contract // external functions: "pkg.Func"
	specFns      map[string]*ssa.Function
	props        []*ssa.Function
	lemmas       []*ssa.Function
	overlay      map[string]bool // overlay file names
	module       string
	root         string
	pkgs         []*packages.Package
	impls        map[string][]types.Type
}

type Contract struct {
	name           string
	fn             *ssa.Function
	req, ens, mod  *ssa.Function
	hint           *ssa.Function
	alias          bool
	inv, dec, hnt  map[int]*ssa.Function
	beg            map[int]*ssa.Function
	split          *ssa.Function // proof by cases on the value of an integer parameter
	det            *ssa.Function // the result is a function of this class and key
	isLemma, isExt bool
	inline         bool
}

type fnInfo struct {
	num    map[ssa.Value]int
	n      int
	nphi   map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]*loopInfo
	hasInv bool
	vars   map[string][]varDef
	con    *Contract
}

type varDef struct {
	blk *ssa.BasicBlock
	pos int
	val ssa.Value
	ptr bool
}

type loopInfo struct {
	header             *ssa.BasicBlock
	blocks             map[*ssa.BasicBlock]bool
	ord                int
	inv, dec, hnt, beg *ssa.Function
	hasIf              bool
	cond               *ssa.If
	rng                ssa.Value // iterator of a Next in the header
}

func (p *Prog) posStr(pos token.Pos) string {
	q := p.fset.Position(pos)
	if q.Filename == "" {
		return "?"
	}
	f := q.Filename
	if r, err := filepath.Rel(p.root, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else {
		f = filepath.Base(filepath.Dir(f)) + "/" + filepath.Base(f)
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Prog) dump(name, script string) {
	os.MkdirAll(opt.dump, 0o755)
	p.mu.Lock()
	dumpN++
	n := dumpN
	p.mu.Unlock()
	os.WriteFile(filepath.Join(opt.dump, fmt.Sprintf("%s-%d.smt2", clean(name), n)), []byte(script+"\n(check-sat)\n"), 0o644)
}

var dumpN int

// overlayFiles maps contract files in dir (laid out like the repository) to overlay paths.
func overlayFiles(dir, root string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	err := filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "vc_gen.go") {
			return nil
		}
		r, _ := filepath.Rel(dir, path)
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		ov[filepath.Join(root, r)] = b
		return nil
	})
	return ov, err
}

func load(root, contracts string) (*Prog, error) {
	ov, err := overlayFiles(contracts, root)
	if err != nil {
		return nil, err
	}
	var pkgs []*packages.Package
	var dropped []string
	for try := 0; ; try++ {
		cfg := &packages.Config{
			Mode:    packages.LoadAllSyntax,
			Dir:     root,
			Overlay: ov,
			Env:     append(os.Environ(), "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0"),
		}
		pkgs, err = packages.Load(cfg, ".", "./encoding/...")
		if err != nil {
			return nil, err
		}
		var errs []packages.Error
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			errs = append(errs, p.Errors...)
		})
		if len(errs) == 0 {
			break
		}
		n := 0
		for _, e := range errs {
			// a contract that no longer fits the code is set aside; a check that needs it fails
			f := strings.Split(e.Pos, ":")
			if len(f) < 2 {
				continue
			}
			src, ok := ov[f[0]]
			line, err := strconv.Atoi(f[1])
			if !ok || err != nil {
				continue
			}
			if os.Getenv("DROPDBG") != "" {
				fmt.Println("set aside:", e.Error())
			}
			ns, name := dropDecl(src, line)
			if name != "" {
				ov[f[0]] = ns
				r, _ := filepath.Rel(root, filepath.Dir(f[0]))
				dropped = append(dropped, r+":"+name)
				n++
			}
		}
		if n == 0 || try > 8 {
			var ss []string
			for _, e := range errs {
				ss = append(ss, e.Error())
			}
			return nil, fmt.Errorf("contracts and code do not type-check together:\n%s", strings.Join(ss, "\n"))
		}
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	p := &Prog{ssa: prog, fset: prog.Fset, byPath: map[string]*ssa.Package{}, infos: map[*ssa.Function]*fnInfo{}, built: map[*ssa.Package]bool{}, cons: map[*ssa.Function]*Contract{}, ext: map[string]*Contract{}, specFns: map[string]*ssa.Function{}, overlay: map[string]bool{}, root: root, pkgs: pkgs, impls: map[string][]types.Type{}}
	for f := range ov {
		p.overlay[f] = true
	}
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		sp.Build()
		p.built[sp] = true
		p.repo = append(p.repo, sp)
	}
	prog.Build()
	for _, sp := range prog.AllPackages() {
		p.built[sp] = true
		p.byPath[sp.Pkg.Path()] = sp
	}
	p.module = modulePath(root)
	p.index()
	p.dropped = map[string]string{}
	for _, d := range dropped {
		i := strings.Index(d, ":")
		dir, n := d[:i], d[i+1:]
		path := p.module
		if dir != "." {
			path += "/" + dir
		}
		p.droppedNames = append(p.droppedNames, d)
		if j := strings.Index(n, "_"); j >= 0 {
			switch n[:j] {
			case "req", "ens", "mod", "alias", "inline", "hnt", "split", "inv", "dec", "beg":
				k := n[j+1:]
				if n[:j] == "inv" || n[:j] == "dec" || n[:j] == "beg" {
					if m := strings.LastIndex(k, "_"); m >= 0 {
						k = k[:m]
					}
				}
				p.dropped[path+":"+k] = n
			}
		}
	}
	return p, nil
}

// dropDecl blanks the function declaration at a line, keeping line numbers.
func dropDecl(src []byte, line int) ([]byte, string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, 0)
	if err != nil {
		return nil, ""
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fset.Position(d.Pos()).Line > line || fset.Position(d.End()).Line < line {
			continue
		}
		out := append([]byte{}, src...)
		for i := fset.Position(d.Pos()).Offset; i < fset.Position(d.End()).Offset; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
		return out, fd.Name.Name
	}
	// unused imports
	for _, im := range f.Imports {
		if fset.Position(im.Pos()).Line == line {
			out := append([]byte{}, src...)
			i := fset.Position(im.Pos()).Offset
			rest := append([]byte("_ "), src[i:]...)
			return append(out[:i], rest...), "import"
		}
	}
	return nil, ""
}

func (p *Prog) ensureBuilt(fn *ssa.Function) {
	if p.built[fn.Pkg] || fn.Blocks != nil {
		return
	}
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil {
		return
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.built[pk] {
		pk.Build()
		p.built[pk] = true
	}
}

func (p *Prog) isRepo(pk *ssa.Package) bool {
	return pk != nil && (pk.Pkg.Path() == p.module || strings.HasPrefix(pk.Pkg.Path(), p.module+"/"))
}

// fnKey is the contract name of a function: F, T_M or F_c1 for closures.
func fnKey(fn *ssa.Function) string {
	if fn.Parent() != nil {
		n := fn.Name()
		if i := strings.LastIndex(n, "$"); i >= 0 {
			return fnKey(fn.Parent()) + "_c" + n[i+1:]
		}
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "_" + fn.Name()
		}
	}
	return fn.Name()
}

func (p *Prog) inOverlay(fn *ssa.Function) bool {
	return fn.Pos().IsValid() && p.overlay[p.fset.Position(fn.Pos()).Filename]
}

func (p *Prog) index() {
	for _, sp := range p.repo {
		funcs := map[string]*ssa.Function{}
		var add func(fn *ssa.Function)
		add = func(fn *ssa.Function) {
			if fn == nil || fn.Synthetic != "" {
				return
			}
			funcs[fnKey(fn)] = fn
			for _, a := range fn.AnonFuncs {
				add(a)
			}
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.ssa.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						fn := p.ssa.MethodValue(ms.At(i))
						if fn != nil && fn.Pkg == sp {
							add(fn)
						}
					}
				}
			}
		}
		con := map[string]*Contract{}
		get := func(name string) *Contract {
			c := con[name]
			if c == nil {
				c = &Contract{name: name, beg: map[int]*ssa.Function{}, inv: map[int]*ssa.Function{}, dec: map[int]*ssa.Function{}, hnt: map[int]*ssa.Function{}}
				con[name] = c
			}
			return c
		}
		var names []string
		for n := range funcs {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			fn := funcs[n]
			if !p.inOverlay(fn) || fn.Parent() != nil {
				continue
			}
			i := strings.Index(n, "_")
			if i < 0 {
				continue
			}
			pre, rest := n[:i], n[i+1:]
			ord := -1
			if j := strings.LastIndex(rest, "_"); j >= 0 {
				if k, err := strconv.Atoi(rest[j+1:]); err == nil {
					ord = k
				}
			}
			base := rest
			if ord >= 0 {
				base = rest[:strings.LastIndex(rest, "_")]
			}
			switch pre {
			case "req":
				get(rest).req = fn
			case "ens":
				get(rest).ens = fn
			case "mod":
				get(rest).mod = fn
			case "alias":
				get(rest).alias = true
			case "inline":
				get(rest).inline = true
			case "wkn":
				p.specFns["wkn:"+rest] = fn
			case "inl":
				p.specFns["inl:"+rest] = fn
			case "inv":
				get(base).inv[ord] = fn
			case "dec":
				get(base).dec[ord] = fn
			case "beg":
				get(base).beg[ord] = fn
			case "hnt":
				if ord >= 0 {
					get(base).hnt[ord] = fn
				} else {
					get(rest).hint = fn
				}
			case "split":
				get(rest).split = fn
			case "det":
				get(rest).det = fn
			case "detax":
				p.specFns["detax:"+sp.Pkg.Path()+":"+rest] = fn
			case "atc":
				p.specFns["atc:"+sp.Pkg.Path()+":"+rest] = fn
			case "lem":
				p.lemmas = append(p.lemmas, fn)
				get(n).isLemma = true
			case "prop":
				p.props = append(p.props, fn)
			}
		}
		for n, c := range con {
			if strings.HasPrefix(n, "ext_") {
				c.isExt = true
				q := strings.SplitN(strings.TrimPrefix(n, "ext_"), "_", 2)
				for _, pk := range p.ssa.AllPackages() {
					if len(q) == 2 && pk.Pkg.Name() == q[0] && !p.isRepo(pk) && pk.Func(q[1]) != nil {
						c.fn = pk.Func(q[1])
						p.cons[c.fn] = c
					} else if len(q) == 2 && pk.Pkg.Name() == q[0] && !p.isRepo(pk) {
						tm := strings.SplitN(q[1], "_", 2)
						if t := pk.Type(tm[0]); t != nil && len(tm) == 2 {
							if m := p.ssa.LookupMethod(t.Type(), pk.Pkg, tm[1]); m != nil {
								c.fn = m
								p.cons[m] = c
							}
						}
					}
				}
				if c.fn == nil {
					p.specFns["missing:"+sp.Pkg.Path()+":"+n] = nil
				}
				continue
			}
			fn := funcs[n]
			if fn == nil {
				// the code no longer has this function; report when a check needs it
				c.fn = nil
				p.specFns["missing:"+sp.Pkg.Path()+":"+n] = nil
				continue
			}
			c.fn = fn
			p.cons[fn] = c
		}
	}
}

func (p *Prog) missing(pkg string) []string {
	var r []string
	for k := range p.specFns {
		if strings.HasPrefix(k, "missing:"+pkg+":") {
			r = append(r, strings.TrimPrefix(k, "missing:"+pkg+":"))
		}
	}
	sort.Strings(r)
	return r
}

func (p *Prog) info(fn *ssa.Function) *fnInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.infos[fn]; ok {
		return i
	}
	in := &fnInfo{num: map[ssa.Value]int{}, nphi: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}, vars: map[string][]varDef{}}
	add := func(v ssa.Value) {
		in.num[v] = in.n
		in.n++
	}
	for _, q := range fn.Params {
		add(q)
	}
	for _, q := range fn.FreeVars {
		add(q)
	}
	for _, b := range fn.Blocks {
		for k, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
			switch ins := ins.(type) {
			case *ssa.Phi:
				in.nphi[b]++
				if ins.Comment != "" {
					in.vars[ins.Comment] = append(in.vars[ins.Comment], varDef{b, k, ins, false})
				}
			case *ssa.Alloc:
				if ins.Comment != "" {
					in.vars[ins.Comment] = append(in.vars[ins.Comment], varDef{b, k, ins, true})
				}
			case *ssa.DebugRef:
				if id, ok := ins.Expr.(*ast.Ident); ok && !ins.IsAddr {
					in.vars[id.Name] = append(in.vars[id.Name], varDef{b, k, ins.X, false})
				}
			}
		}
	}
	con := p.cons[fn]
	in.con = con
	// natural loops
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			li := in.loops[h]
			if li == nil {
				li = &loopInfo{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				in.loops[h] = li
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				c := work[len(work)-1]
				work = work[:len(work)-1]
				if li.blocks[c] {
					continue
				}
				li.blocks[c] = true
				work = append(work, c.Preds...)
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range in.loops {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	for i, h := range hs {
		li := in.loops[h]
		li.ord = i
		if con != nil {
			li.inv, li.dec, li.hnt, li.beg = con.inv[i], con.dec[i], con.hnt[i], con.beg[i]
			if li.inv != nil || li.dec != nil || li.hnt != nil {
				in.hasInv = true
			}
		}
		if c, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok {
			in1, in2 := li.blocks[h.Succs[0]], li.blocks[h.Succs[1]]
			if in1 != in2 {
				li.hasIf = true
				li.cond = c
			}
		}
		for _, ins := range h.Instrs {
			if nx, ok := ins.(*ssa.Next); ok {
				li.rng = nx.Iter
			}
		}
	}
	p.infos[fn] = in
	return in
}

// implementers returns the in-repo concrete types implementing an interface.
func (p *Prog) implementers(t types.Type) []types.Type {
	it := under(t).(*types.Interface)
	key := types.TypeString(t, nil)
	p.mu.Lock()
	defer p.mu.Unlock()
	if r, ok := p.impls[key]; ok {
		return r
	}
	var r []types.Type
	var names []string
	byName := map[string]types.Type{}
	for _, sp := range p.repo {
		for n, m := range sp.Members {
			tm, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(tm.Type()) {
				continue
			}
			if types.Implements(tm.Type(), it) {
				byName[sp.Pkg.Path()+"."+n] = tm.Type()
				names = append(names, sp.Pkg.Path()+"."+n)
			} else if pt := types.NewPointer(tm.Type()); types.Implements(pt, it) {
				byName[sp.Pkg.Path()+"."+n] = pt
				names = append(names, sp.Pkg.Path()+"."+n)
			}
		}
	}
	sort.Strings(names)
	for _, n := range names {
		r = append(r, byName[n])
	}
	p.impls[key] = r
	return r
}

func typesOf(m *ssa.Type) []types.Type {
	return []types.Type{m.Type(), types.NewPointer(m.Type())}
}

func modulePath(root string) string {
	b, _ := os.ReadFile(filepath.Join(root, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "module" {
			return f[1]
		}
	}
	return "github.com/warthog618/sms"
}
