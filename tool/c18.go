package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C18"] = checkC18 }

func verboseName(s string) bool {
	s = strings.ToLower(s)
	return strings.Contains(s, "verbose") || s == "debug"
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// outputCall: does the call write to standard output, standard error or the log?
func outputCall(c ssa.CallInstruction) string {
	name := calleeFullName(c)
	switch {
	case name == "builtin.print", name == "builtin.println":
		return name
	case name == "fmt.Print", name == "fmt.Printf", name == "fmt.Println":
		return name
	case strings.HasPrefix(name, "log.Print"), strings.HasPrefix(name, "log.Fatal"), strings.HasPrefix(name, "log.Panic"), name == "log.Output", name == "log.Default", name == "log.Writer":
		return name
	case strings.HasPrefix(name, "(*log.Logger)."):
		return name
	case strings.HasPrefix(name, "log/slog."):
		return name
	case name == "runtime/debug.PrintStack", name == "testing.Verbose":
		return name
	}
	return ""
}

type verb struct {
	p    *Program
	f    *Flow
	busy map[ssa.Value]bool
	memo map[ssa.Value]string
}

// guarded: is the block only reached when a verbose setting is true? why names an improper source of a
// guard that looks like one.
func (v *verb) guarded(b *ssa.BasicBlock) (ok bool, why string) {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pb := d.Preds[0]
		iff, isIf := pb.Instrs[len(pb.Instrs)-1].(*ssa.If)
		if !isIf || pb.Succs[0] == pb.Succs[1] {
			continue
		}
		pol := pb.Succs[0] == d
		if w := v.verboseCond(iff.Cond, pol); w == "" {
			return true, ""
		} else if w != "-" {
			why = w
		}
	}
	return false, why
}

// verboseCond: "" when cond having value pol implies verbose; "-" unrelated; else the improper source.
func (v *verb) verboseCond(cond ssa.Value, pol bool) string {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return v.verboseCond(x.X, !pol)
		}
	case *ssa.BinOp:
		// verbose == true and the like
		if x.Op == token.EQL || x.Op == token.NEQ {
			for _, o := range []struct{ a, c ssa.Value }{{x.X, x.Y}, {x.Y, x.X}} {
				if c, ok := o.c.(*ssa.Const); ok && c.Value != nil && isBool(c.Type()) {
					t := c.Value.String() == "true"
					if x.Op == token.NEQ {
						t = !t
					}
					return v.verboseCond(o.a, pol == t)
				}
			}
		}
	}
	if !pol {
		return "-"
	}
	if !isBool(cond.Type()) {
		return "-"
	}
	return v.source(cond)
}

// source: "" if the bool is true only when a caller asked for verbose output.
func (v *verb) source(x ssa.Value) string {
	if s, ok := v.memo[x]; ok {
		return s
	}
	if v.busy[x] {
		return ""
	}
	v.busy[x] = true
	s := v.source1(x)
	delete(v.busy, x)
	if len(v.busy) == 0 {
		v.memo[x] = s
	}
	return s
}

func (v *verb) source1(x ssa.Value) string {
	switch x := x.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.String() == "false" {
			return ""
		}
		return "constant true"
	case *ssa.Phi:
		for i, e := range x.Edges {
			if s := v.source(e); s != "" {
				if ok, _ := v.guarded(x.Block().Preds[i]); ok {
					continue
				}
				// an edge taken on the true side of a verbose test
				pb := x.Block().Preds[i]
				if iff, isIf := pb.Instrs[len(pb.Instrs)-1].(*ssa.If); isIf && pb.Succs[0] != pb.Succs[1] {
					if v.verboseCond(iff.Cond, pb.Succs[0] == x.Block()) == "" {
						continue
					}
				}
				return s
			}
		}
		return ""
	case *ssa.BinOp:
		if x.Op == token.AND && (v.source(x.X) == "" || v.source(x.Y) == "") {
			return ""
		}
		return "-"
	case *ssa.Parameter:
		fn := x.Parent()
		if exportedAPI(fn) && v.p.isLib[fn] {
			if !verboseName(x.Name()) {
				return "-"
			}
			// callers inside the library must pass their own setting on
		} else if fn.Name() == "init" {
			return "-"
		}
		idx := -1
		for i, pr := range fn.Params {
			if pr == x {
				idx = i
			}
		}
		cs := append(append([]ssa.CallInstruction{}, v.p.callers[fn]...), v.f.dynCallers[fn]...)
		for _, c := range cs {
			if !v.p.isLib[c.Parent()] {
				continue
			}
			as := argsFor(c.Common())
			if idx >= len(as) {
				continue
			}
			if s := v.source(as[idx]); s != "" {
				if ok, _ := v.guarded(c.Block()); ok {
					continue
				}
				if s == "-" {
					return "-"
				}
				if strings.Contains(s, " passed by ") {
					return s
				}
				return s + " passed by " + v.p.FuncName(c.Parent())
			}
		}
		return ""
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch ad := x.X.(type) {
			case *ssa.FieldAddr:
				return v.fieldSource(ad.X.Type(), ad.Field)
			case *ssa.Alloc:
				return v.all(v.f.allocStores[ad])
			case *ssa.FreeVar:
				fn := ad.Parent()
				for i, fv := range fn.FreeVars {
					if fv != ad {
						continue
					}
					for _, mc := range v.f.mkClosures[fn] {
						if al, ok := mc.Bindings[i].(*ssa.Alloc); ok {
							if s := v.all(v.f.allocStores[al]); s != "" {
								return s
							}
						} else {
							return "-"
						}
					}
				}
				return v.all(v.f.cellStores[ad])
			}
		}
		return "-"
	case *ssa.FreeVar:
		fn := x.Parent()
		for i, fv := range fn.FreeVars {
			if fv != x {
				continue
			}
			for _, mc := range v.f.mkClosures[fn] {
				if s := v.source(mc.Bindings[i]); s != "" {
					return s
				}
			}
		}
		return ""
	case *ssa.Field:
		return v.fieldSource(x.X.Type(), x.Field)
	case *ssa.Call:
		ts := v.f.a.targets(x)
		if len(ts) == 0 {
			return "-"
		}
		for _, t := range ts {
			for _, b := range t.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
					if s := v.source(ret.Results[0]); s != "" {
						return s
					}
				}
			}
		}
		return ""
	case *ssa.ChangeType:
		return v.source(x.X)
	}
	return "-"
}

func (v *verb) all(vals []ssa.Value) string {
	for _, s := range vals {
		if r := v.source(s); r != "" {
			return r
		}
	}
	return ""
}

func (v *verb) fieldSource(t types.Type, idx int) string {
	k := fieldKeyOf(t, idx)
	name := k[strings.LastIndex(k, ".")+1:]
	stores := v.f.fieldStores[k]
	exported := token.IsExported(name)
	if exported && !verboseName(name) {
		return "-"
	}
	if !exported && len(stores) == 0 {
		return "" // never set: false
	}
	if !verboseName(name) && !isBoolField(t, idx) {
		return "-"
	}
	return v.all(stores)
}

func isBoolField(t types.Type, idx int) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	return ok && isBool(st.Field(idx).Type())
}

// neverCalled: an unexported function without callers.
func (v *verb) silentAt(ins ssa.Instruction, seen map[*ssa.Function]bool) string {
	ok, why := v.guarded(ins.Block())
	if ok {
		return ""
	}
	fn := ins.Parent()
	if why != "" {
		return why
	}
	if exportedAPI(fn) || fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
		return "no verbose test on the way to it in " + v.p.FuncName(fn)
	}
	if seen[fn] {
		return ""
	}
	seen[fn] = true
	cs := append(append([]ssa.CallInstruction{}, v.p.callers[fn]...), v.f.dynCallers[fn]...)
	for _, c := range cs {
		if !v.p.isLib[c.Parent()] {
			continue
		}
		if w := v.silentAt(c, seen); w != "" {
			return w
		}
	}
	return ""
}

func checkC18(p *Program, tier string) *Result {
	r := &Result{Explanation: "Control-dependence and provenance of every output site (fmt.Print*, log.*, println, any use of os.Stdout/os.Stderr): each must be dominated by the true edge of a test of a value that, through all parameters, fields and results, is true only if a caller set a verbose option; unguarded helpers are judged at their call sites. Calls inside an operation that has a verbose setting must not pass on a louder one."}
	f := p.Flow()
	v := &verb{p: p, f: f, busy: map[ssa.Value]bool{}, memo: map[ssa.Value]string{}}
	for _, fn := range p.Lib {
		r.Count("functions_analysed", 1)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				what := ""
				if c, ok := ins.(ssa.CallInstruction); ok {
					what = outputCall(c)
				}
				if what == "" {
					if _, dbg := ins.(*ssa.DebugRef); dbg {
						continue
					}
					var ops [12]*ssa.Value
					for i, op := range ins.Operands(ops[:0]) {
						if op == nil || *op == nil {
							continue
						}
						if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr") {
							what = "os." + g.Name()
						}
						// printing functions used as values
						if fv, ok := (*op).(*ssa.Function); ok {
							nm := fv.RelString(nil)
							if strings.HasPrefix(nm, "fmt.Print") || strings.HasPrefix(nm, "log.Print") {
								if c, ok := ins.(ssa.CallInstruction); !ok || i != 0 || c.Common().IsInvoke() {
									what = nm + " as a value"
								}
							}
						}
					}
				}
				if what == "" {
					continue
				}
				r.Count("output_sites", 1)
				if w := v.silentAt(ins, map[*ssa.Function]bool{}); w != "" {
					r.Violate("output-without-verbose", constructName(p, ins, what), p.InstrPos(ins),
						"%s in %s can run although verbose output was not requested: %s", what, p.FuncName(fn), w)
				}
			}
		}
		// propagation: a call to an operation with a verbose parameter gets this operation's own setting
		own := verboseParams(fn)
		if len(own) == 0 {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, t := range p.Callees(c) {
					if !p.isLib[t] {
						continue
					}
					as := argsFor(c.Common())
					for i, pr := range t.Params {
						if i >= len(as) || !isBool(pr.Type()) || !verboseName(pr.Name()) {
							continue
						}
						r.Count("settings_passed_on", 1)
						if k, ok := as[i].(*ssa.Const); ok {
							if g, _ := v.guarded(c.Block()); g || k.Value.String() == "false" {
								continue // quieter than asked for, or only when asked for
							}
							r.Violate("verbose-not-passed-on", p.FuncName(fn)+"|"+p.FuncName(t), p.InstrPos(ins),
								"%s has a verbose setting but passes the constant %s to %s", p.FuncName(fn), k.Value.String(), p.FuncName(t))
						} else if u, ok := as[i].(*ssa.UnOp); ok && u.Op == token.NOT {
							r.Violate("verbose-not-passed-on", p.FuncName(fn)+"|"+p.FuncName(t), p.InstrPos(ins),
								"%s passes the negation of its verbose setting to %s", p.FuncName(fn), p.FuncName(t))
						}
					}
				}
			}
		}
	}
	r.Floor("output_sites", 150)
	r.Floor("settings_passed_on", 100)
	return r
}

func verboseParams(fn *ssa.Function) []*ssa.Parameter {
	var out []*ssa.Parameter
	for _, pr := range fn.Params {
		if isBool(pr.Type()) && verboseName(pr.Name()) {
			out = append(out, pr)
		}
	}
	return out
}
