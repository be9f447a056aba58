package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/yanun0323/goast"
const zzvPath = modPath + "/zzv"

// Overlay maps virtual file paths under the repository to their contents.
type Overlay map[string][]byte

var jobRe = regexp.MustCompile(`(?m)^func (Z[A-Z]\d+_\w+)\(\)`)

// shims replaces these imports in the module's own non-test files, for the
// properties whose environment (file system, formatter) is symbolic.
var fsShims = map[string]string{
	"os":                         modPath + "/zzos",
	"go/format":                  modPath + "/zzformat",
	"golang.org/x/tools/imports": modPath + "/zzimports",
	"io/ioutil":                  modPath + "/zzioutil",
}

var testShims = map[string]string{"testing": modPath + "/zztesting"}

// shimsOf lists the replaced imports per property.
var shimsOf = map[string]map[string]string{"C16": fsShims, "C17": fsShims, "C18": fsShims, "C19": fsShims, "C24": fsShims, "C26": fsShims, "C22": testShims}

func buildOverlay(repo, verif, prop string) (Overlay, []string, error) {
	ov := Overlay{}
	hd := filepath.Join(verif, "harness")
	var jobs []string
	add := func(src, dst string) error {
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		ov[dst] = b
		return nil
	}
	fs, _ := filepath.Glob(filepath.Join(hd, "goast", "*.go"))
	low := strings.ToLower(prop)
	for _, f := range fs {
		n := filepath.Base(f)
		if !strings.HasPrefix(n, "common_") && !strings.HasPrefix(n, low+"_") {
			continue
		}
		dst := filepath.Join(repo, "zz_verif_"+n)
		if err := add(f, dst); err != nil {
			return nil, nil, err
		}
		for _, m := range jobRe.FindAllSubmatch(ov[dst], -1) {
			if strings.HasPrefix(string(m[1]), "Z"+prop+"_") {
				jobs = append(jobs, string(m[1]))
			}
		}
	}
	sort.Strings(jobs)
	dirs := []string{"zzv", "zzreplay"}
	shims := shimsOf[prop]
	for _, sh := range shims {
		dirs = append(dirs, sh[len(modPath)+1:])
	}
	for _, d := range dirs {
		fs, _ := filepath.Glob(filepath.Join(hd, d, "*.go"))
		for _, f := range fs {
			if err := add(f, filepath.Join(repo, d, filepath.Base(f))); err != nil {
				return nil, nil, err
			}
		}
	}
	var sb strings.Builder
	sb.WriteString("package goast\n\n// ZZRun runs a harness by name.\nfunc ZZRun(name string) bool {\n\tswitch name {\n")
	for _, j := range jobs {
		fmt.Fprintf(&sb, "\tcase %q:\n\t\t%s()\n", j, j)
	}
	sb.WriteString("\tdefault:\n\t\treturn false\n\t}\n\treturn true\n}\n")
	ov[filepath.Join(repo, "zz_verif_registry.go")] = []byte(sb.String())
	if len(shims) != 0 {
		if err := shimImports(repo, ov, shims); err != nil {
			return nil, nil, err
		}
	}
	return ov, jobs, nil
}

func shimImports(repo string, ov Overlay, shims map[string]string) error {
	return filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			n := d.Name()
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ImportsOnly)
		if err != nil || f.Name.Name == "main" {
			return nil
		}
		type edit struct {
			at, end int
			txt     string
		}
		var es []edit
		for _, is := range f.Imports {
			path, _ := strconv.Unquote(is.Path.Value)
			sh, ok := shims[path]
			if !ok {
				continue
			}
			base := path[strings.LastIndex(path, "/")+1:]
			e := edit{fset.Position(is.Path.Pos()).Offset, fset.Position(is.Path.End()).Offset, strconv.Quote(sh)}
			if is.Name == nil {
				e.txt = base + " " + e.txt
			}
			es = append(es, e)
		}
		if len(es) == 0 {
			return nil
		}
		for i := len(es) - 1; i >= 0; i-- {
			src = append(src[:es[i].at:es[i].at], append([]byte(es[i].txt), src[es[i].end:]...)...)
		}
		ov[p] = src
		return nil
	})
}

var _ = ast.NewIdent

// std packages whose initialisers are executed; globals of all others are unknown.
var initStd = map[string]bool{
	"errors": true, "unicode/utf8": true, "strings": true, "bytes": true, "io": true, "io/fs": true,
	"internal/oserror": true, "path": true, "path/filepath": true, "slices": true, "sort": true, "strconv": true,
	"unicode": true, "internal/stringslite": true, "internal/bytealg": true, "cmp": true, "iter": true, "maps": true,
	"internal/filepathlite": true, "math/bits": true, "math": true, "internal/race": true, "errors/internal": true, "regexp/syntax": false, "bufio": true,
	"internal/itoa": true, "internal/strconv": true, "internal/cpu": true, "internal/reflectlite": false,
}

func loadProgram(repo string, ov Overlay, tier int) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local")}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, root: spkgs[0], models: map[string]*ssa.Function{}, globals: map[*ssa.Global]Ptr{}, outputs: map[string]Ptr{},
		globNames: map[int32]string{}, initRoot: map[*ssa.Function]bool{}, fast: map[string]func([]Value) (Value, bool){},
		sizes: types.SizesFor("gc", runtime.GOARCH)}
	p.setupIntrinsics(tier)
	p.setupReflect()
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(tp *types.Package)
	visit = func(tp *types.Package) {
		if seen[tp] {
			return
		}
		seen[tp] = true
		for _, im := range tp.Imports() {
			visit(im)
		}
		if sp := prog.Package(tp); sp != nil {
			order = append(order, sp)
		}
	}
	visit(p.root.Pkg)
	zz := prog.ImportedPackage(zzvPath)
	if zz == nil {
		return nil, fmt.Errorf("zzv package not loaded")
	}
	for n, m := range zz.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "M_") {
			p.models[n[2:]] = f
		}
	}
	x := &Explorer{prog: p, noFork: true, maxDepth: 500, maxSteps: 50_000_000}
	base := &State{owner: newOwner(), x: x}
	base.heap.owner = base.owner
	base.heap.next = 1
	p.base = base
	for _, sp := range order {
		path := sp.Pkg.Path()
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		inMod := path == modPath || strings.HasPrefix(path, modPath+"/")
		for _, n := range names {
			g, ok := sp.Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			et := g.Type().Underlying().(*types.Pointer).Elem()
			var q Ptr
			if inMod || initStd[path] {
				if at, ok := et.Underlying().(*types.Array); ok && at.Len() <= 1<<16 {
					arr := make([]Value, at.Len())
					z := zeroValue(at.Elem())
					for i := range arr {
						arr[i] = z
					}
					q = base.allocArr(arr)
				} else {
					q = base.allocVal(zeroValue(et))
				}
			} else {
				q = base.allocVal(Poison{"package-level variable " + path + "." + n})
			}
			if path == "os" && (n == "Stdout" || n == "Stderr") {
				f := base.allocVal(Poison{"os." + n})
				q = base.allocVal(f)
				if n == "Stdout" {
					p.stdout = f
				} else {
					p.stderr = f
				}
			}
			if path == modPath+"/zzv" && (n == "OutText" || n == "ErrText") {
				p.outputs[n] = q
			}
			p.globals[g] = q
			p.globNames[q.obj] = path + "." + n
		}
	}
	x.jobs = nil
	for _, sp := range order {
		path := sp.Pkg.Path()
		inMod := path == modPath || strings.HasPrefix(path, modPath+"/")
		if !inMod && !initStd[path] {
			continue
		}
		fn := sp.Func("init")
		if fn == nil || fn.Blocks == nil {
			continue
		}
		p.initRoot[fn] = true
		j := newJob(fn, "init "+path)
		st := base.fork0()
		st.x = x
		st.job = j
		fi := p.fnInfo(fn)
		st.frames = []*Frame{{fi: fi, regs: make([]Value, fi.nregs), owner: st.owner, dst: -1, prev: -1}}
		w := &Worker{x: x}
		x.deadline = farFuture
		w.run(st)
		if j.ended["done"] != 1 {
			for k := range j.incompl {
				p.initNotes = append(p.initNotes, path+": "+k)
			}
			for k := range j.viol {
				p.initNotes = append(p.initNotes, path+": "+k)
			}
			if inMod {
				return nil, fmt.Errorf("initialisation of %s: %v", path, p.initNotes)
			}
		}
		nb := st
		nb.frames = nil
		p.base = nb
		base = nb
	}
	base.conds, base.nondet, base.obs, base.globW = nil, nil, nil, nil
	p.usedFns.Clear()
	return p, nil
}
