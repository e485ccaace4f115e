package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	repoMod  = "github.com/kodaimura/ddlparse"
	harnessP = repoMod + "/internal/zzverif"
)

// Engine holds the program: the repository's current source plus the harness, in SSA form.
type Engine struct {
	z3         string
	repo       string
	prog       *ssa.Program
	pkgs       map[string]*ssa.Package
	runtimeErr types.Type
	mu         sync.Mutex
	pureMemo   map[*ssa.Function]int
	sizes      types.Sizes
	natives    map[string]nativeFn
	nativeMemo sync.Map
	errPkg     map[string]types.Type
	hookUse    bool
	halt       atomic.Bool
	memLevel   atomic.Int32
}

type nativeFn func(w *Worker, args []V) V

// harnessFiles maps overlay paths inside the repository to the harness sources.
func harnessFiles(verif, repo string) map[string]string {
	out := map[string]string{}
	root := filepath.Join(verif, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			out[filepath.Join(repo, "internal", "zzverif", rel)] = p
		}
		return nil
	})
	return out
}

func loadEngine(verif, repo, z3 string) (*Engine, error) {
	ov := map[string][]byte{}
	for dst, src := range harnessFiles(verif, repo) {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Overlay: ov,
		Env:     append(os.Environ(), "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, harnessP+"/h")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e := &Engine{z3: z3, repo: repo, prog: prog, pkgs: map[string]*ssa.Package{}, pureMemo: map[*ssa.Function]int{},
		sizes: types.SizesFor("gc", "amd64"), natives: map[string]nativeFn{}, errPkg: map[string]types.Type{}}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	for path, p := range e.pkgs {
		if strings.HasPrefix(path, repoMod) {
			p.Build()
		}
	}
	tn := types.NewTypeName(token.NoPos, nil, "runtimeError", nil)
	e.runtimeErr = types.NewNamed(tn, types.Typ[types.String], nil)
	e.registerNatives()
	return e, nil
}

func (e *Engine) build(f *ssa.Function) {
	if len(f.Blocks) > 0 {
		return
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if f.Pkg != nil {
		f.Pkg.Build()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
}

func (e *Engine) buildPkg(p *ssa.Package) {
	e.mu.Lock()
	defer e.mu.Unlock()
	p.Build()
}

func (e *Engine) noInit(path string) bool {
	switch path {
	case "runtime", "os", "syscall", "reflect", "sync", "time", "errors", "io", "io/fs", "fmt", "sync/atomic", "unsafe", "regexp", "regexp/syntax":
		return true
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime/")
}

func (e *Engine) sizeof(t types.Type) int { return int(e.sizes.Sizeof(t)) }

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	e.mu.Lock()
	defer e.mu.Unlock()
	sel := e.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

func isRepoFn(f *ssa.Function) bool {
	p := f.Pkg
	if p == nil {
		if o := f.Origin(); o != nil {
			p = o.Pkg
		}
	}
	if p == nil {
		if f.Parent() != nil {
			return isRepoFn(f.Parent())
		}
		return false
	}
	path := p.Pkg.Path()
	return strings.HasPrefix(path, repoMod) && !strings.HasPrefix(path, harnessP)
}

// pureFn is a static filter: functions that look free of side effects are run on all of their local
// paths and merged. Soundness does not depend on it: a store to older memory aborts the merge.
func (e *Engine) pureFn(f *ssa.Function) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.pureRec(f, 0)
}

func (e *Engine) pureRec(f *ssa.Function, depth int) bool {
	if r, ok := e.pureMemo[f]; ok {
		return r != 2
	}
	if depth > 12 {
		return false
	}
	if f.Pkg != nil && !strings.HasPrefix(f.Pkg.Pkg.Path(), repoMod) {
		f.Pkg.Build()
	}
	if len(f.Blocks) == 0 {
		return e.natives[f.String()] != nil && !impureNative(f.String())
	}
	e.pureMemo[f] = 0
	ok := true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !localAddr(x.Addr) {
					ok = false
				}
			case *ssa.MapUpdate:
				if _, l := x.Map.(*ssa.MakeMap); !l {
					ok = false
				}
			case *ssa.Go, *ssa.Send, *ssa.Defer, *ssa.Select:
				ok = false
			case *ssa.Call:
				if x.Call.IsInvoke() {
					ok = false
					break
				}
				switch g := x.Call.Value.(type) {
				case *ssa.Builtin:
				case *ssa.Function:
					if e.natives[g.String()] != nil {
						if impureNative(g.String()) {
							ok = false
						}
					} else if !e.pureRec(g, depth+1) {
						ok = false
					}
				}
			}
			if !ok {
				break
			}
		}
		if !ok {
			break
		}
	}
	e.pureMemo[f] = 1
	if !ok {
		e.pureMemo[f] = 2
	}
	return ok
}

func impureNative(n string) bool {
	return strings.Contains(n, "sync") || strings.Contains(n, harnessP+"/zz.") || strings.Contains(n, "Builder)") || strings.Contains(n, "Buffer)")
}

func localAddr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localAddr(x.X)
	case *ssa.IndexAddr:
		return localAddr(x.X)
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		return localAddr(x.X)
	}
	return false
}

// usedRepoFns lists the repository functions that were executed symbolically.
func usedRepoFns(ws []*Worker) []string {
	m := map[string]bool{}
	for _, w := range ws {
		for f, fn := range w.fns {
			if isRepoFn(f) && fn != nil && f.Synthetic == "" {
				m[strings.ReplaceAll(fn.name, repoMod+"/", "")] = true
			}
		}
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// hook: the lexer is replaced by its token list on texts that are given as token lists (the lemma
// that it returns exactly these tokens is checked separately, see the vocabulary filter).
func (e *Engine) hook(w *Worker, f *ssa.Function, args []V) (V, bool) {
	if !isRepoFn(f) {
		return V{}, false
	}
	for _, a := range args {
		r, ok := a.o.(*Rope)
		if !ok || r.toks == nil {
			continue
		}
		res := f.Signature.Results()
		if res.Len() == 0 {
			return V{}, false
		}
		st, ok := res.At(0).Type().Underlying().(*types.Slice)
		if !ok {
			return V{}, false
		}
		if b, ok := st.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			return V{}, false
		}
		if !strings.HasSuffix(f.Pkg.Pkg.Path(), "lexer") && !strings.Contains(strings.ToLower(f.Name()), "lex") && !strings.Contains(strings.ToLower(f.Name()), "token") {
			return V{}, false
		}
		e.hookUse = true
		w.hooked++
		cp := 1
		for cp < len(r.toks) {
			cp *= 2
		}
		cs := w.mkCells(len(r.toks), cp, types.Typ[types.String])
		for i, t := range r.toks {
			cs[i].v = t
		}
		if res.Len() == 1 {
			return V{o: cs}, true
		}
		tp := make(tuple, res.Len())
		tp[0] = V{o: cs}
		for i := 1; i < res.Len(); i++ {
			tp[i] = w.zero(res.At(i).Type())
		}
		return V{o: tp}, true
	}
	return V{}, false
}
