package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	rootMod = "github.com/xhd2015/xgo"
	rtMod   = "github.com/xhd2015/xgo/runtime"
)

// Prog is one loaded module: syntax, types and SSA of the repository's
// packages plus everything they import.
type Prog struct {
	Dir     string
	Fset    *token.FileSet
	Pkgs    map[string]*packages.Package
	Initial []*packages.Package
	SSA     *ssa.Program

	// Funcs are all functions whose source is in the analysed packages
	// (initial ones), closures included.
	Funcs   []*ssa.Function
	inRepo  map[*ssa.Function]bool
	callers map[*ssa.Function][]ssa.CallInstruction
	// uses of a function as a value (not in call position)
	valueUses map[*ssa.Function][]ssa.Instruction
	closures  map[*ssa.Function][]*ssa.MakeClosure
	// stores to struct fields: key types.Var (field object)
	fieldStores map[*types.Var][]*ssa.Store
	globStores  map[*ssa.Global][]*ssa.Store
	// NoteErrs: type errors in initial packages
	Errs []string
	// Inlined: files rewritten because they call functions the pinned tree
	// does not have; hidden: those functions
	Inlined     int
	InlineNotes []string
	hidden      map[*types.Func]bool
}

var debugOn = os.Getenv("XGOVERIF_DEBUG") != ""

var stubTables = map[string]string{
	"cmd/xgo/internal/vendir/golang.org/x/text/collate/tables.go": `package collate

var availableLocales = ""
var locales = []tableIndex{}
var mainLookup, mainValues, mainExpandElem, mainCTEntries, mainContractElem = []uint16{}, []uint32{}, []uint32{}, []struct{ L, H, N, I uint8 }{}, []uint32{}

const varTop = 0
`,
}

// LoadProg loads the packages matching pats in dir, from source, with the
// build configuration env.
func LoadProg(dir string, env []string, buildFlags []string, pats ...string) (*Prog, error) {
	return LoadOverlay(dir, env, buildFlags, nil, pats...)
}

// LoadOverlay: as LoadProg, with files that take the place of those on disk.
func LoadOverlay(dir string, env []string, buildFlags []string, extra map[string][]byte, pats ...string) (*Prog, error) {
	overlay := map[string][]byte{}
	for f, b := range extra {
		overlay[f] = b
	}
	for rel, content := range stubTables {
		p := filepath.Join(dir, rel)
		if _, err := os.Stat(filepath.Dir(p)); err != nil {
			continue
		}
		if _, err := os.Stat(p); err != nil {
			overlay[p] = []byte(content)
		}
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax | packages.NeedModule,
		Dir:        dir,
		Fset:       fset,
		Env:        append(append(os.Environ(), "GOFLAGS=", "CGO_ENABLED=0", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"), env...),
		BuildFlags: buildFlags,
		Overlay:    overlay,
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages match %v in %s", pats, dir)
	}
	p := &Prog{Dir: dir, Fset: fset, Pkgs: map[string]*packages.Package{}, Initial: pkgs}
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if _, dup := p.Pkgs[pk.PkgPath]; !dup {
			p.Pkgs[pk.PkgPath] = pk
		}
	})
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			if strings.Contains(pk.PkgPath, "internal/vendir") {
				continue
			}
			p.Errs = append(p.Errs, fmt.Sprintf("%s: %v", pk.PkgPath, e))
		}
	}
	if len(p.Errs) > 0 {
		sort.Strings(p.Errs)
		return nil, fmt.Errorf("the source does not type-check: %s", strings.Join(p.Errs, "; "))
	}
	root := repoRoot(dir)
	if texts, gone, notes := inlineNew(root, pkgs, overlay); len(texts) > 0 {
		p.InlineNotes = notes
		for f, b := range texts {
			overlay[f] = b
			if debugOn {
				os.WriteFile("/tmp/inl_"+filepath.Base(f), b, 0o644)
			}
		}
		cfg.Fset = token.NewFileSet()
		pkgs2, err := packages.Load(cfg, pats...)
		bad := err != nil
		for _, pk := range pkgs2 {
			if len(pk.Errors) > 0 && !strings.Contains(pk.PkgPath, "internal/vendir") {
				bad = true
				if debugOn {
					fmt.Fprintln(os.Stderr, "inline reload:", pk.Errors[0])
				}
			}
		}
		if !bad {
			pkgs = pkgs2
			p.Fset, p.Initial, p.Pkgs = cfg.Fset, pkgs, map[string]*packages.Package{}
			packages.Visit(pkgs, nil, func(pk *packages.Package) {
				if _, dup := p.Pkgs[pk.PkgPath]; !dup {
					p.Pkgs[pk.PkgPath] = pk
				}
			})
			p.hide(root, gone)
			p.Inlined = len(texts)
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug*0)
	prog.Build()
	p.SSA = prog
	p.dropHidden()
	p.index()
	return p, nil
}

func repoRoot(dir string) string {
	d, err := filepath.Abs(dir)
	if err != nil {
		return dir
	}
	if filepath.Base(d) == "runtime" {
		if _, err := os.Stat(filepath.Join(d, "..", "go.mod")); err == nil {
			return filepath.Dir(d)
		}
	}
	return d
}

// hide drops functions all calls of which were expanded.
func (p *Prog) hide(root string, gone map[string]bool) {
	p.hidden = map[*types.Func]bool{}
	for _, pk := range p.Initial {
		for _, f := range pk.Syntax {
			rel := relDir(root, p.Fset.File(f.FileStart).Name())
			var keep []ast.Decl
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && gone[funcKey(rel, fd)] {
					if fo, ok := pk.TypesInfo.Defs[fd.Name].(*types.Func); ok {
						p.hidden[fo] = true
					}
				}
				keep = append(keep, d)
			}
			f.Decls = keep
		}
	}
}

// dropHidden removes the hidden functions from the syntax, after SSA is built.
func (p *Prog) dropHidden() {
	for _, pk := range p.Initial {
		for _, f := range pk.Syntax {
			var keep []ast.Decl
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if fo, ok := pk.TypesInfo.Defs[fd.Name].(*types.Func); ok && p.hidden[fo] {
						continue
					}
				}
				keep = append(keep, d)
			}
			f.Decls = keep
		}
	}
}

func (p *Prog) isHidden(fn *ssa.Function) bool {
	if len(p.hidden) == 0 {
		return false
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	fo, ok := fn.Object().(*types.Func)
	return ok && p.hidden[fo]
}

func isRepoPath(path string) bool {
	return (path == rootMod || strings.HasPrefix(path, rootMod+"/")) && !strings.Contains(path, "internal/vendir")
}

func (p *Prog) index() {
	p.inRepo = map[*ssa.Function]bool{}
	p.callers = map[*ssa.Function][]ssa.CallInstruction{}
	p.valueUses = map[*ssa.Function][]ssa.Instruction{}
	p.closures = map[*ssa.Function][]*ssa.MakeClosure{}
	p.fieldStores = map[*types.Var][]*ssa.Store{}
	p.globStores = map[*ssa.Global][]*ssa.Store{}
	all := ssautil.AllFunctions(p.SSA)
	for fn := range all {
		if pk := fnPkg(fn); pk != nil && isRepoPath(pk.Path()) && !p.isHidden(fn) {
			p.inRepo[fn] = true
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					f := mc.Fn.(*ssa.Function)
					p.closures[f] = append(p.closures[f], mc)
				}
				var callVal ssa.Value
				if c, ok := ins.(ssa.CallInstruction); ok {
					callVal = c.Common().Value
					if callee := c.Common().StaticCallee(); callee != nil {
						p.callers[callee] = append(p.callers[callee], c)
					}
				}
				if st, ok := ins.(*ssa.Store); ok {
					switch a := st.Addr.(type) {
					case *ssa.FieldAddr:
						if fv := fieldVar(a.X.Type(), a.Field); fv != nil {
							p.fieldStores[fv] = append(p.fieldStores[fv], st)
						}
					case *ssa.Global:
						p.globStores[a] = append(p.globStores[a], st)
					}
				}
				var ops [10]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					f, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if f == callVal {
						// may also be passed as an argument; count args
						n := 0
						if c, ok := ins.(ssa.CallInstruction); ok {
							for _, a := range c.Common().Args {
								if a == f {
									n++
								}
							}
						}
						if n == 0 {
							continue
						}
					}
					if _, isMC := ins.(*ssa.MakeClosure); isMC {
						continue
					}
					p.valueUses[f] = append(p.valueUses[f], ins)
				}
			}
		}
	}
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
		if o := f.Origin(); o != nil && o != f {
			if o.Pkg != nil {
				return o.Pkg.Pkg
			}
		}
	}
	return nil
}

func (p *Prog) pkg(path string) *ssa.Package {
	for _, sp := range p.SSA.AllPackages() {
		if sp.Pkg.Path() == path {
			return sp
		}
	}
	return nil
}

// Func finds a package-level function or a method "(T).M" / "T.M".
func (p *Prog) Func(pkgPath, name string) *ssa.Function {
	sp := p.pkg(pkgPath)
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		obj := sp.Pkg.Scope().Lookup(tn)
		if obj == nil {
			return nil
		}
		for _, t := range []types.Type{obj.Type(), types.NewPointer(obj.Type())} {
			if sel := p.SSA.MethodSets.MethodSet(t).Lookup(sp.Pkg, mn); sel != nil {
				f := p.SSA.MethodValue(sel)
				if f != nil && f.Synthetic != "" {
					// promoted/pointer wrapper: find the declared one
					if fo, ok := sel.Obj().(*types.Func); ok {
						if d := p.SSA.FuncValue(fo); d != nil {
							return d
						}
					}
				}
				return f
			}
		}
		return nil
	}
	return sp.Func(name)
}

func (p *Prog) Global(pkgPath, name string) *ssa.Global {
	sp := p.pkg(pkgPath)
	if sp == nil {
		return nil
	}
	return sp.Var(name)
}

// FuncsIn lists repository functions (closures included) of the packages
// for which keep returns true.
func (p *Prog) FuncsIn(keep func(pkgPath string) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		if pk := fnPkg(fn); pk != nil && keep(pk.Path()) && len(fn.Blocks) > 0 {
			out = append(out, fn)
		}
	}
	return out
}

// Pos renders a position relative to the repository.
func (c *Ctx) Pos(p *Prog, pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if rel, err := filepath.Rel(c.Repo, f); err == nil && !strings.HasPrefix(rel, "..") {
		f = rel
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func fieldVar(t types.Type, i int) *types.Var {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return nil
	}
	return st.Field(i)
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

func isNamed(t types.Type, pkg, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

// fileOf finds the syntax file holding pos.
func (p *Prog) fileOf(pos token.Pos) (*packages.Package, *ast.File) {
	for _, pk := range p.Initial {
		for _, f := range pk.Syntax {
			if f.FileStart <= pos && pos < f.FileEnd {
				return pk, f
			}
		}
	}
	return nil, nil
}
