package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C06"] = checkC06 }

// initOnly: package initialisers and functions reachable only from them.
func (p *Program) initOnly() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	isInit := func(fn *ssa.Function) bool {
		if fn.Parent() != nil {
			return false
		}
		return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") || strings.HasPrefix(fn.Synthetic, "package init")
	}
	for _, fn := range p.All {
		if isInit(fn) {
			out[fn] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.All {
			if out[fn] || p.addrUsed[fn] || exportedAPI(fn) {
				continue
			}
			cs := p.callers[fn]
			if len(cs) == 0 {
				continue
			}
			ok := true
			for _, c := range cs {
				if !out[c.Parent()] {
					ok = false
				}
			}
			if ok {
				out[fn] = true
				changed = true
			}
		}
	}
	return out
}

// rootGlobal follows address arithmetic to a package variable.
func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return nil
			}
			v = x.X
		default:
			return nil
		}
	}
}

// library types whose methods do not change them although they have pointer receivers
func immutableStd(name string) bool {
	for _, pre := range []string{"(*regexp.Regexp).", "(*strings.Replacer).", "(*time.Location).", "(*math/big.Int).Cmp", "(*errors.", "(*encoding/base64.Encoding).", "(*encoding/base32.Encoding).", "(*hash/crc32."} {
		if strings.HasPrefix(name, pre) {
			return name != "(*regexp.Regexp).Longest"
		}
	}
	return false
}

var processState = []string{"os.Setenv", "os.Unsetenv", "os.Clearenv", "os.Chdir", "log.SetOutput", "log.SetFlags", "log.SetPrefix", "math/rand.Seed", "runtime.GOMAXPROCS", "runtime/debug.", "flag.Set", "time.LoadLocation-", "os/signal.", "(*log.Logger).Set"}

func checkC06(p *Program, tier string) *Result {
	r := &Result{Explanation: "Whole-module origin analysis starting from every package-level variable of the library: outside package initialisation no instruction may assign such a variable, nor write an element, map entry or field of memory loaded from one, nor call a state-changing method of a standard library value held in one; no call changes process-wide library state and no goroutine writes memory it shares."}
	a := p.Alias()
	inits := p.initOnly()
	var roots []*node
	for _, sp := range p.LibPkgs {
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			r.Count("package_variables", 1)
			n := a.global(g)
			roots = append(roots, n, a.elem(n))
		}
	}
	// memory allocated during initialisation and captured by function values
	for _, fn := range p.All {
		if !inits[fn] || !p.isLib[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					cf := mc.Fn.(*ssa.Function)
					for i := range mc.Bindings {
						n := a.free(cf, i)
						roots = append(roots, n, a.elem(n))
					}
				}
			}
		}
	}
	from := a.reach(roots)
	hit := func(s nodeset) *node {
		for _, n := range s.sorted() {
			if _, ok := from[n]; ok {
				return n
			}
		}
		return nil
	}
	inInit := func(fn *ssa.Function) bool {
		// closures defined in init but stored for later use are not initialisation
		return inits[fn]
	}
	for _, fn := range p.Lib {
		if inInit(fn) {
			r.Count("initialiser_functions", 1)
			continue
		}
		r.Count("functions_analysed", 1)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					r.Count("write_sites", 1)
					if g := rootGlobal(x.Addr); g != nil {
						r.Violate("package-variable-assigned", p.FuncName(fn)+"|"+g.Name(), p.InstrPos(ins),
							"%s assigns package variable %s after initialisation", p.FuncName(fn), g.Name())
						continue
					}
					if fv, ok := x.Addr.(*ssa.FreeVar); ok {
						for i, f := range fn.FreeVars {
							if f == fv {
								if n := a.free(fn, i); hitOne(from, n) {
									r.Violate("package-state-written", constructName(p, ins, "captured variable"), p.InstrPos(ins),
										"%s changes variable %s created at program start: %s", p.FuncName(fn), fv.Name(), path(from, n))
								}
							}
						}
						continue
					}
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						base := ssa.Value(fa.X)
						for {
							if f2, ok := base.(*ssa.FieldAddr); ok {
								base = f2.X
								continue
							}
							break
						}
						if _, isAlloc := base.(*ssa.Alloc); isAlloc {
							continue
						}
						if n := hit(a.Of(base)); n != nil {
							r.Violate("package-state-written", constructName(p, ins, "field "+fieldName(fa)), p.InstrPos(ins),
								"%s writes field %s of a value held in a package variable: %s", p.FuncName(fn), fieldName(fa), path(from, n))
						}
					}
				case *ssa.Go:
					r.Count("goroutines", 1)
					for _, t := range a.targets(x) {
						if ins2 := sharedWrite(t); ins2 != nil {
							r.Violate("goroutine-shared-write", p.FuncName(fn), p.InstrPos(ins2),
								"goroutine started by %s writes memory it shares without synchronisation", p.FuncName(fn))
						}
					}
				case ssa.CallInstruction:
					name := calleeFullName(x)
					for _, ps := range processState {
						if name == ps || (strings.HasSuffix(ps, ".") && strings.HasPrefix(name, ps)) || (strings.HasSuffix(ps, ").Set") && strings.HasPrefix(name, ps)) {
							r.Violate("process-state-changed", p.FuncName(fn)+"|"+name, p.InstrPos(ins), "%s calls %s, which changes process-wide state", p.FuncName(fn), name)
						}
					}
					com := x.Common()
					if com.IsInvoke() || len(com.Args) == 0 {
						continue
					}
					sc := com.StaticCallee()
					if sc == nil || p.inMod[sc] || sc.Signature.Recv() == nil {
						continue
					}
					if _, ok := sc.Signature.Recv().Type().(*types.Pointer); !ok || immutableStd(name) {
						continue
					}
					recv := com.Args[0]
					g := rootGlobal(recv)
					if g == nil {
						if u, ok := recv.(*ssa.UnOp); ok && u.Op == token.MUL {
							g = rootGlobal(u.X)
						}
					}
					if g != nil && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), p.Module) {
						r.Violate("package-state-written", p.FuncName(fn)+"|"+g.Name()+"|"+name, p.InstrPos(ins),
							"%s calls %s on package variable %s", p.FuncName(fn), name, g.Name())
					}
				}
			}
		}
	}
	for _, m := range a.muts {
		fn := m.ins.Parent()
		if !p.isLib[fn] || inInit(fn) {
			continue
		}
		r.Count("write_sites", 1)
		if n := hit(m.nodes); n != nil {
			if g := onlyGlobalStore(m.ins); g {
				continue
			}
			r.Violate("package-state-written", constructName(p, m.ins, m.what), p.InstrPos(m.ins),
				"%s in %s may write memory held in a package variable: %s", m.what, p.FuncName(fn), strings.ReplaceAll(path(from, n), p.Module+"/", ""))
		}
	}
	// package-wide containers handed out to callers could be changed by them
	for _, fn := range p.Lib {
		if !exportedAPI(fn) {
			continue
		}
		for i, rs := range a.ret[fn] {
			t := fn.Signature.Results().At(i).Type()
			switch t.Underlying().(type) {
			case *types.Slice, *types.Map:
			default:
				continue
			}
			for _, n := range rs.sorted() {
				if n.kind == nGlobal && strings.HasPrefix(n.glob.Pkg.Pkg.Path(), p.Module) {
					r.Violate("package-state-exposed", p.FuncName(fn)+"|"+n.glob.Name(), p.Pos(fn.Pos()),
						"%s returns the package variable %s itself; a caller changing the result changes it for every other call", p.FuncName(fn), n.glob.Name())
				}
			}
		}
	}
	r.Floor("package_variables", 20)
	r.Floor("write_sites", 800)
	return r
}

func hitOne(from map[*node]*node, n *node) bool { _, ok := from[n]; return ok }

// onlyGlobalStore: already reported as an assignment of the variable itself.
func onlyGlobalStore(ins ssa.Instruction) bool {
	s, ok := ins.(*ssa.Store)
	return ok && rootGlobal(s.Addr) != nil
}

// sharedWrite finds a write to captured or passed memory in a function run as a goroutine.
func sharedWrite(fn *ssa.Function) ssa.Instruction {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok && strings.HasPrefix(calleeFullName(c), "(*sync.Mutex).Lock") {
				return nil
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Alloc); !ok {
					if _, ok := x.Addr.(*ssa.IndexAddr); !ok {
						return ins
					}
				}
			case *ssa.MapUpdate:
				return ins
			}
		}
	}
	return nil
}
