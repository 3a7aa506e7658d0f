package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked, SSA-lowered view of /repo that every rule works on.
type Program struct {
	libSet map[*ssa.Function]bool
	Repo   string
	Module string
	Pkgs   []*packages.Package
	Prog   *ssa.Program
	Fset   *token.FileSet

	All     []*ssa.Function // every function of the module with a body (closures included)
	Lib     []*ssa.Function // those belonging to library packages (no commands, examples, test programs)
	inMod   map[*ssa.Function]bool
	isLib   map[*ssa.Function]bool
	LibPkgs []*ssa.Package

	callers   map[*ssa.Function][]ssa.CallInstruction // static + resolved interface callers inside the module
	addrUsed  map[*ssa.Function]bool                  // function value escapes (used other than as callee)
	implMemo  map[string][]*ssa.Function
	aliasMemo *Alias
	flowMemo  *Flow
	escMemo   map[*ssa.Function]*escKind
}

func libraryPath(module, path string) bool {
	rel := strings.TrimPrefix(strings.TrimPrefix(path, module), "/")
	first := strings.SplitN(rel, "/", 2)[0]
	switch first {
	case "cmd", "examples", "tests", "acroform_fill", "scripts", "internal_test":
		return false
	}
	return true
}

func Load(repo string) (*Program, error) {
	env := os.Environ()
	set := func(k, v string) { env = append(env, k+"="+v) }
	set("GOFLAGS", "-mod=readonly")
	set("GOPROXY", "off")
	set("GOTOOLCHAIN", "local")
	set("GOWORK", "off")
	set("CGO_ENABLED", "0")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule,
		Dir:   repo,
		Env:   env,
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages found in %s", repo)
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	p := &Program{Repo: repo, Pkgs: pkgs, Prog: prog, Fset: prog.Fset, inMod: map[*ssa.Function]bool{}, isLib: map[*ssa.Function]bool{}}
	for _, pk := range pkgs {
		if pk.Module != nil {
			p.Module = pk.Module.Path
			break
		}
	}
	if p.Module == "" {
		return nil, fmt.Errorf("no module path")
	}
	modPkg := map[*ssa.Package]bool{}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("package %s not built", pkgs[i].PkgPath)
		}
		modPkg[sp] = true
		if libraryPath(p.Module, sp.Pkg.Path()) {
			p.LibPkgs = append(p.LibPkgs, sp)
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		pk := fnPackage(fn)
		if pk == nil || !modPkg[pk] || len(fn.Blocks) == 0 {
			continue
		}
		if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "package init") && fn.Syntax() == nil {
			// wrappers, thunks, bound methods: transparent; their targets are analysed
			if !strings.HasPrefix(fn.Synthetic, "instance of") {
				continue
			}
		}
		p.All = append(p.All, fn)
		p.inMod[fn] = true
		if libraryPath(p.Module, pk.Pkg.Path()) {
			p.Lib = append(p.Lib, fn)
			p.isLib[fn] = true
		}
	}
	less := func(s []*ssa.Function) func(i, j int) bool {
		return func(i, j int) bool {
			a, b := s[i], s[j]
			if a.RelString(nil) != b.RelString(nil) {
				return a.RelString(nil) < b.RelString(nil)
			}
			return a.Pos() < b.Pos()
		}
	}
	sort.Slice(p.All, less(p.All))
	sort.Slice(p.Lib, less(p.Lib))
	if len(p.Lib) < 500 {
		return nil, fmt.Errorf("only %d library functions found; expected at least 500", len(p.Lib))
	}
	p.buildCallers()
	return p, nil
}

func fnPackage(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if f.Origin() != nil && f.Origin() != f {
			return fnPackage(f.Origin())
		}
	}
	return nil
}

func (p *Program) buildCallers() {
	p.callers = map[*ssa.Function][]ssa.CallInstruction{}
	p.addrUsed = map[*ssa.Function]bool{}
	p.implMemo = map[string][]*ssa.Function{}
	for _, fn := range p.All {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					for _, t := range p.Callees(c) {
						p.callers[t] = append(p.callers[t], c)
					}
				}
				if _, ok := ins.(*ssa.DebugRef); ok {
					continue
				}
				var ops [12]*ssa.Value
				for i, op := range ins.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					var f *ssa.Function
					switch v := (*op).(type) {
					case *ssa.Function:
						f = v
					}
					if f == nil {
						continue
					}
					if c, ok := ins.(ssa.CallInstruction); ok && i == 0 && !c.Common().IsInvoke() && c.Common().Value == f {
						continue
					}
					if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == f {
						continue // judged by the uses of the closure value
					}
					p.addrUsed[f] = true
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					if !closureOnlyCalled(mc) {
						p.addrUsed[mc.Fn.(*ssa.Function)] = true
					}
				}
			}
		}
	}
}

// closureOnlyCalled reports whether the closure value is used only as the callee of calls.
func closureOnlyCalled(mc *ssa.MakeClosure) bool {
	refs := mc.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			if r.Common().Value != mc {
				return false
			}
			for _, a := range r.Common().Args {
				if a == mc {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// Callees resolves a call to the functions of the program it may reach: static callees,
// closures called directly, and for interface calls every implementation in the module.
func (p *Program) Callees(c ssa.CallInstruction) []*ssa.Function {
	com := c.Common()
	if com.IsInvoke() {
		return p.implementations(com)
	}
	if f := com.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	return nil
}

func (p *Program) implementations(com *ssa.CallCommon) []*ssa.Function {
	iface, ok := com.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := com.Value.Type().String() + "." + com.Method.Name()
	if r, ok := p.implMemo[key]; ok {
		return r
	}
	var out []*ssa.Function
	for _, pkg := range p.Prog.AllPackages() {
		if !strings.HasPrefix(pkg.Pkg.Path(), p.Module) {
			continue
		}
		for _, m := range pkg.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			for _, typ := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.IsInterface(typ) || !types.Implements(typ, iface) {
					continue
				}
				sel := p.Prog.MethodSets.MethodSet(typ).Lookup(com.Method.Pkg(), com.Method.Name())
				if sel == nil {
					continue
				}
				if f := p.Prog.MethodValue(sel); f != nil {
					// resolve pointer wrappers to the declared method
					if obj, ok := sel.Obj().(*types.Func); ok {
						if d := p.Prog.FuncValue(obj); d != nil {
							f = d
						}
					}
					dup := false
					for _, o := range out {
						if o == f {
							dup = true
						}
					}
					if !dup {
						out = append(out, f)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].RelString(nil) < out[j].RelString(nil) })
	p.implMemo[key] = out
	return out
}

// Pos formats a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Repo, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d:%d", rel, ps.Line, ps.Column)
}

// InstrPos finds the best position for an instruction.
func (p *Program) InstrPos(ins ssa.Instruction) string {
	pos := ins.Pos()
	if !pos.IsValid() {
		if v, ok := ins.(ssa.Value); ok {
			if refs := v.Referrers(); refs != nil {
				for _, r := range *refs {
					if r.Pos().IsValid() {
						pos = r.Pos()
						break
					}
				}
			}
		}
	}
	if !pos.IsValid() {
		for _, i2 := range ins.Block().Instrs {
			if i2.Pos().IsValid() {
				pos = i2.Pos()
				break
			}
		}
	}
	if !pos.IsValid() {
		pos = ins.Parent().Pos()
	}
	return p.Pos(pos)
}

// FuncName is a short stable name for a function: package-relative, closures numbered by go/ssa.
func (p *Program) FuncName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	return strings.ReplaceAll(s, p.Module+"/", "")
}

func exportedAPI(fn *ssa.Function) bool {
	if fn.Parent() != nil || fn.Object() == nil {
		return false
	}
	if !fn.Object().Exported() {
		return false
	}
	if recv := fn.Signature.Recv(); recv != nil {
		t := recv.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Exported()
		}
	}
	return true
}

// calleeFullName gives e.g. "fmt.Printf", "(*bytes.Buffer).Write", "(io.Writer).Write".
func calleeFullName(c ssa.CallInstruction) string {
	com := c.Common()
	if com.IsInvoke() {
		return "(" + com.Value.Type().String() + ")." + com.Method.Name()
	}
	switch v := com.Value.(type) {
	case *ssa.Builtin:
		return "builtin." + v.Name()
	}
	if f := com.StaticCallee(); f != nil {
		if f.Origin() != nil {
			f = f.Origin()
		}
		return f.RelString(nil)
	}
	return ""
}
