package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// NativeResult is what one executable harness reported.
type NativeResult struct {
	Name     string
	Pkg      string
	Tried    int
	Accepted int
	Distinct int
	Failed   bool
	Msg      string
	Args     string
	Iter     int
	Seed     int64
	Samples  []string
}

type ovDecl struct {
	name string
	node ast.Node
	src  string
	file *ovFile
}

type ovFile struct {
	ast *ast.File
	src []byte
}

type ovPkg struct {
	dir   string
	name  string
	decls map[string]*ovDecl
	files []*ovFile
}

func parseOverlay(contracts string) (map[string]*ovPkg, *token.FileSet, error) {
	fset := token.NewFileSet()
	pkgs := map[string]*ovPkg{}
	err := filepath.Walk(contracts, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, path, b, parser.ParseComments)
		if err != nil {
			return err
		}
		dir, _ := filepath.Rel(contracts, filepath.Dir(path))
		pk := pkgs[dir]
		if pk == nil {
			pk = &ovPkg{dir: dir, name: f.Name.Name, decls: map[string]*ovDecl{}}
			pkgs[dir] = pk
		}
		of := &ovFile{f, b}
		pk.files = append(pk.files, of)
		text := func(n ast.Node) string {
			return string(b[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				n := d.Name.Name
				if d.Recv != nil {
					t := d.Recv.List[0].Type
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					}
					n = "(" + t.(*ast.Ident).Name + ")." + n
				}
				pk.decls[n] = &ovDecl{n, d, text(d), of}
			case *ast.GenDecl:
				if d.Tok == token.IMPORT {
					continue
				}
				for _, s := range d.Specs {
					od := &ovDecl{"", d, text(d), of}
					switch s := s.(type) {
					case *ast.TypeSpec:
						od.name = s.Name.Name
						pk.decls[s.Name.Name] = od
					case *ast.ValueSpec:
						for _, n := range s.Names {
							pk.decls[n.Name] = od
						}
					}
				}
			}
		}
		return nil
	})
	return pkgs, fset, err
}

// closure is the set of declarations reachable from the roots.
func (pk *ovPkg) closure(roots []string) []*ovDecl {
	seen := map[*ovDecl]bool{}
	var out []*ovDecl
	var add func(n string)
	add = func(n string) {
		d := pk.decls[n]
		if d == nil || seen[d] {
			return
		}
		seen[d] = true
		out = append(out, d)
		ast.Inspect(d.node, func(m ast.Node) bool {
			if id, ok := m.(*ast.Ident); ok {
				add(id.Name)
				if t := pk.decls[id.Name]; t != nil {
					if _, ok := t.node.(*ast.GenDecl); ok {
						for k := range pk.decls {
							if strings.HasPrefix(k, "("+id.Name+").") {
								add(k)
							}
						}
					}
				}
			}
			return true
		})
	}
	for _, r := range roots {
		add(r)
	}
	return out
}

func mentionsOld(pk *ovPkg, name string, seen map[string]bool) bool {
	d := pk.decls[name]
	if d == nil || seen[name] {
		return false
	}
	seen[name] = true
	found := false
	ast.Inspect(d.node, func(m ast.Node) bool {
		if id, ok := m.(*ast.Ident); ok {
			found = found || id.Name == "vcOldInt" || id.Name == "vcOldBool" || mentionsOld(pk, id.Name, seen)
		}
		return !found
	})
	return found
}

// frameOf is the number of leading arguments a harness must leave as they were: in those of C23
// all but counters and the objects read into (named t0).
func frameOf(pk *ovPkg, prop, name string) int {
	f, ok := pk.decls[name].node.(*ast.FuncDecl)
	if !ok || prop != "C23" {
		return -1
	}
	n := 0
	for _, p := range f.Type.Params.List {
		t := p.Type
		if s, ok := t.(*ast.SelectorExpr); ok {
			t = s.Sel
		}
		if id, ok := t.(*ast.Ident); ok && id.Name == "Counter" || p.Names[0].Name == "t0" {
			break
		}
		n += len(p.Names)
	}
	return n
}

// nativeSource generates the executable form of the harnesses and contracts of one package.
func nativeSource(p *Prog, pk *ovPkg, module, prop string, keys []string) (string, bool) {
	var roots []string
	type hn struct {
		name, fn, gen string
		frame         int
	}
	var hs []hn
	imports := map[string]string{"vcgen": module + "/internal/vcgen"}
	var body strings.Builder
	var names []string
	for n := range pk.decls {
		names = append(names, n)
	}
	sort.Strings(names)
	gen := func(n string) string {
		if pk.decls[n] != nil {
			roots = append(roots, n)
			return n
		}
		return ""
	}
	for _, n := range names {
		if strings.HasPrefix(n, "prop_"+prop+"_") {
			roots = append(roots, n)
			hs = append(hs, hn{n, n, gen("gen_" + strings.TrimPrefix(n, "prop_")), frameOf(pk, prop, n)})
		}
	}
	for _, k := range keys {
		if p == nil {
			continue
		}
		path := module
		if pk.dir != "." {
			path += "/" + pk.dir
		}
		fn := p.find(pk.dir + ":" + k)
		if fn == nil || fn.Parent() != nil {
			continue
		}
		con := p.cons[fn]
		if con == nil || con.isLemma || con.ens == nil || p.inOverlay(fn) {
			continue
		}
		if mentionsOld(pk, "ens_"+k, map[string]bool{}) {
			continue // compares with a state that is gone by the time it runs
		}
		g := gen("gen_" + k)
		w, ok := wrapper(p, fn, con, k, imports, g != "")
		if !ok {
			continue
		}
		for _, q := range []string{"req_" + k, "ens_" + k} {
			roots = append(roots, q)
		}
		body.WriteString(w)
		fr := len(fn.Params)
		if con.mod != nil || con.alias && false {
			fr = -1
		}
		hs = append(hs, hn{"contract " + k, "vcw_" + k, g, fr})
	}
	// exported names are for the contracts of other packages
	exported := false
	for _, n := range names {
		if ast.IsExported(n) {
			roots = append(roots, n)
			exported = true
		}
	}
	if len(hs) == 0 && !exported {
		return "", false
	}
	roots = append(roots, "vcReq", "vcAssert")
	ds := pk.closure(roots)
	for _, d := range ds {
		ast.Inspect(d.node, func(m ast.Node) bool {
			if s, ok := m.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok {
					for _, im := range d.file.ast.Imports {
						path := strings.Trim(im.Path.Value, `"`)
						n := path[strings.LastIndex(path, "/")+1:]
						if im.Name != nil {
							n = im.Name.Name
						}
						if n == id.Name {
							imports[n] = path
						}
					}
				}
			}
			return true
		})
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n", pk.name)
	var ins []string
	for n := range imports {
		ins = append(ins, n)
	}
	sort.Strings(ins)
	for _, n := range ins {
		fmt.Fprintf(&sb, "\t%s %q\n", n, imports[n])
	}
	sb.WriteString(")\n\n")
	done := map[ast.Node]bool{}
	for _, d := range ds {
		if done[d.node] {
			continue
		}
		done[d.node] = true
		sb.WriteString(d.src + "\n\n")
	}
	sb.WriteString(body.String())
	sb.WriteString("func VCHarnesses() []vcgen.Harness {\n\treturn []vcgen.Harness{\n")
	for _, h := range hs {
		g := "nil"
		if h.gen != "" {
			g = h.gen
		}
		fmt.Fprintf(&sb, "\t\t{Name: %q, Fn: %s, Gen: %s, Frame: %d},\n", h.name, h.fn, g, h.frame)
	}
	sb.WriteString("\t}\n}\n")
	return sb.String(), true
}

func wrapper(p *Prog, fn *ssa.Function, con *Contract, key string, imports map[string]string, hasGen bool) (string, bool) {
	ok := true
	q := func(pk *types.Package) string {
		if pk == fn.Pkg.Pkg {
			return ""
		}
		imports[pk.Name()] = pk.Path()
		return pk.Name()
	}
	var ps, as []string
	for i, pa := range fn.Params {
		n := fmt.Sprintf("a%d", i)
		t := pa.Type()
		if !hasGen && !generable(t, 0) {
			ok = false
		}
		ps = append(ps, n+" "+types.TypeString(t, q))
		as = append(as, n)
	}
	if !ok {
		return "", false
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "func vcw_%s(%s) {\n", key, strings.Join(ps, ", "))
	if con.req != nil {
		fmt.Fprintf(&sb, "\tvcReq(req_%s(%s))\n", key, strings.Join(as, ", "))
	}
	es := append([]string{}, as...)
	var rs []string
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		rs = append(rs, fmt.Sprintf("r%d", i))
	}
	es = append(es, rs...)
	for _, pa := range con.ens.Params {
		if strings.HasPrefix(pa.Name(), "old_") {
			for i, r := range con.ens.Params {
				if r.Name() == pa.Name()[4:] {
					t := types.TypeString(fn.Params[i].Type(), q)
					fmt.Fprintf(&sb, "\to%d := vcgen.Clone(a%d).(%s)\n", i, i, t)
					es = append(es, fmt.Sprintf("o%d", i))
				}
			}
		}
	}
	call := as
	f := fn.Name()
	if fn.Signature.Recv() != nil {
		f = "a0." + f
		call = as[1:]
	}
	v := ""
	if fn.Signature.Variadic() {
		v = "..."
	}
	lhs := ""
	if len(rs) > 0 {
		lhs = strings.Join(rs, ", ") + " := "
	}
	fmt.Fprintf(&sb, "\t%s%s(%s%s)\n", lhs, f, strings.Join(call, ", "), v)
	fmt.Fprintf(&sb, "\tvcAssert(ens_%s(%s))\n}\n\n", key, strings.Join(es, ", "))
	return sb.String(), true
}

func generable(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
		return n.Obj().Name() == "Time" || n.Obj().Name() == "Duration"
	}
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsBoolean|types.IsString) != 0
	case *types.Slice:
		return generable(u.Elem(), d+1)
	case *types.Array:
		return generable(u.Elem(), d+1)
	case *types.Pointer:
		return generable(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !generable(u.Field(i).Type(), d+1) {
				return false
			}
		}
		return true
	}
	return false
}

const nativeMain = `package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"runtime/debug"
	"time"

	"%s/internal/vcgen"
%s)

func main() {
	seed := flag.Int64("seed", 1, "")
	ms := flag.Int("ms", 1000, "")
	only := flag.String("only", "", "")
	flag.Parse()
	debug.SetMemoryLimit(3 << 30)
	type ph struct {
		pkg string
		h   vcgen.Harness
	}
	var hs []ph
%s	n := 0
	for _, h := range hs {
		if *only == "" || *only == h.h.Name {
			n++
		}
	}
	for _, h := range hs {
		if *only != "" && *only != h.h.Name {
			continue
		}
		fmt.Printf("START %%s\t%%s\n", h.pkg, h.h.Name)
		vcgen.Run(h.h, *seed, time.Duration(*ms)*time.Millisecond/time.Duration(n), func(r vcgen.Result) {
			b, _ := json.Marshal(r)
			fmt.Printf("RESULT %%s\t%%s\n", h.pkg, b)
		})
	}
}
`

// runNative builds and runs the executable form of a property's harnesses and contracts.
func runNative(p *Prog, base, root, contracts, prop string, entries []string, seed int64, d time.Duration, procs int) ([]NativeResult, error) {
	ov, _, err := parseOverlay(contracts)
	if err != nil {
		return nil, err
	}
	module := modulePath(root)
	tmp, err := os.MkdirTemp("", "vcnative")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	repl := map[string]string{}
	put := func(rel, src string) {
		f := filepath.Join(tmp, fmt.Sprintf("f%d.go", len(repl)))
		os.WriteFile(f, []byte(src), 0o644)
		repl[filepath.Join(root, rel)] = f
	}
	lib, err := os.ReadFile(filepath.Join(base, "tools/vcgen/vcgen.go.src"))
	if err != nil {
		return nil, err
	}
	put("internal/vcgen/vcgen.go", string(lib))
	keys := map[string][]string{}
	for _, e := range entries {
		if i := strings.Index(e, "!"); i >= 0 {
			e = e[i+1:]
		}
		dir, key := ".", e
		if i := strings.Index(e, ":"); i >= 0 {
			dir, key = e[:i], e[i+1:]
		}
		if !strings.HasPrefix(key, "prop_") {
			keys[dir] = append(keys[dir], key)
		}
	}
	var dirs []string
	for d := range ov {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	var imps, uses strings.Builder
	n := 0
	for _, dir := range dirs {
		src, ok := nativeSource(p, ov[dir], module, prop, keys[dir])
		if !ok {
			continue
		}
		n++
		put(filepath.Join(dir, "vcn_native.go"), src)
		path := module
		if dir != "." {
			path += "/" + dir
		}
		fmt.Fprintf(&imps, "\tp%d %q\n", n, path)
		fmt.Fprintf(&uses, "\tfor _, h := range p%d.VCHarnesses() {\n\t\ths = append(hs, ph{%q, h})\n\t}\n", n, dir)
	}
	if n == 0 {
		return nil, nil
	}
	put("internal/vcnative/main.go", fmt.Sprintf(nativeMain, module, imps.String(), uses.String()))
	j, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, j, 0o644)
	bin := filepath.Join(tmp, "vcnative")
	env := append(os.Environ(), "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0")
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
	defer cancel()
	c := exec.CommandContext(ctx, "go", "build", "-overlay", ovf, "-o", bin, "./internal/vcnative")
	c.Dir = root
	c.Env = env
	out, err := c.CombinedOutput()
	if err != nil {
		if os.Getenv("VC_KEEP") != "" {
			for k, f := range repl {
				b, _ := os.ReadFile(f)
				fmt.Println("=====", k)
				fmt.Println(string(b))
			}
		}
		return nil, fmt.Errorf("native harness does not build: %s", out)
	}
	type res struct {
		rs  []NativeResult
		err error
	}
	ch := make(chan res)
	for i := 0; i < procs; i++ {
		go func(sd int64) {
			ctx, cancel := context.WithTimeout(context.Background(), 3*d+90*time.Second)
			defer cancel()
			c := exec.CommandContext(ctx, bin, "-seed", fmt.Sprint(sd), "-ms", fmt.Sprint(d.Milliseconds()))
			c.Dir = tmp
			var so, se bytes.Buffer
			c.Stdout, c.Stderr = &so, &se
			err := c.Run()
			var r res
			cur := ""
			for _, l := range strings.Split(so.String(), "\n") {
				if strings.HasPrefix(l, "START ") {
					cur = l[6:]
				}
				if strings.HasPrefix(l, "RESULT ") {
					f := strings.SplitN(l[7:], "\t", 2)
					var x NativeResult
					if len(f) == 2 && json.Unmarshal([]byte(f[1]), &x) == nil {
						x.Pkg, x.Seed = f[0], sd
						r.rs = append(r.rs, x)
					}
					cur = ""
				}
			}
			if err != nil {
				f := strings.SplitN(cur+"\t", "\t", 3)
				if ctx.Err() == nil {
					e := se.String()
					if len(e) > 3000 {
						e = e[:3000]
					}
					r.rs = append(r.rs, NativeResult{Name: f[1], Pkg: f[0], Seed: sd, Failed: true, Msg: "the program crashed: " + err.Error() + "\n" + e})
				} else {
					r.err = fmt.Errorf("native harness timed out in %s", cur)
				}
			}
			ch <- r
		}(seed*1000 + int64(i))
	}
	byName := map[string]int{}
	var all []NativeResult
	for i := 0; i < procs; i++ {
		r := <-ch
		if r.err != nil {
			err = r.err
		}
		for _, x := range r.rs {
			k := x.Pkg + ":" + x.Name
			j, ok := byName[k]
			if !ok {
				byName[k] = len(all)
				all = append(all, x)
				continue
			}
			y := &all[j]
			y.Tried += x.Tried
			y.Accepted += x.Accepted
			y.Distinct += x.Distinct
			if x.Failed && !y.Failed {
				y.Failed, y.Msg, y.Args, y.Iter, y.Seed = true, x.Msg, x.Args, x.Iter, x.Seed
			}
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg+all[i].Name < all[j].Pkg+all[j].Name })
	return all, err
}
