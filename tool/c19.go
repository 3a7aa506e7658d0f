package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C19"] = checkC19 }

// exported operations documented to work on named files or directories
var fileHelpers = map[string]bool{
	"content/extract.ExtractToDirectory":         true,
	"content/extract.ExtractToDirectoryFromFile": true,
}

// which path arguments a permitted file operation takes
var fileOps = map[string][]int{
	"os.ReadFile": {0}, "os.Open": {0}, "os.MkdirAll": {0}, "os.Mkdir": {0}, "os.WriteFile": {0}, "os.Create": {0},
	"os.OpenFile": {0}, "os.Stat": {0}, "os.Lstat": {0}, "os.Rename": {0, 1},
	"os.IsNotExist": {}, "os.IsExist": {}, "os.IsPermission": {},
}

var hostPkgs = map[string]bool{
	"os": true, "os/exec": true, "os/user": true, "os/signal": true, "net": true, "syscall": true, "io/ioutil": true, "plugin": true,
	"testing": true, "runtime/debug": true, "runtime/pprof": true, "runtime/trace": true, "embed": false, "flag": true, "expvar": true, "log/syslog": true,
	"mime": true, "unsafe": true, "database/sql": true, "debug/buildinfo": true, "go/build": true,
}

func hostFunction(full, pkg string) bool {
	if hostPkgs[pkg] || strings.HasPrefix(pkg, "net/") && pkg != "net/url" && pkg != "net/netip" || strings.HasPrefix(pkg, "golang.org/x/sys") {
		return true
	}
	switch full {
	case "path/filepath.Walk", "path/filepath.WalkDir", "path/filepath.Glob", "path/filepath.EvalSymlinks", "path/filepath.Abs",
		"time.LoadLocation", "html/template.ParseFiles", "text/template.ParseFiles", "html/template.ParseGlob", "text/template.ParseGlob",
		"runtime.GOROOT", "runtime.Version", "runtime.NumCPU", "runtime.Caller", "runtime.Callers", "runtime.ReadMemStats":
		return true
	}
	return false
}

func checkC19(p *Program, tier string) *Result {
	r := &Result{Explanation: "Who-may-call and path provenance: every reference to a function or variable of a package that reaches files, processes, the network or the host is enumerated; each must be a permitted file operation reached only from the documented file helpers, and every path it is given must be built, on all backward value-flow paths, only from the helper's own path parameters, constants and integers."}
	f := p.Flow()
	for _, fn := range p.Lib {
		r.Count("functions_analysed", 1)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if _, ok := ins.(*ssa.DebugRef); ok {
					continue
				}
				if c, ok := ins.(ssa.CallInstruction); ok {
					r.Count("call_sites", 1)
					_ = c
				}
				var ops [12]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					var name, pkg string
					switch v := (*op).(type) {
					case *ssa.Function:
						if p.inMod[v] || fnPackage(v) == nil && v.Object() == nil {
							continue
						}
						if v.Object() != nil && v.Object().Pkg() != nil {
							pkg = v.Object().Pkg().Path()
						}
						name = v.RelString(nil)
					case *ssa.Global:
						if v.Pkg != nil {
							pkg = v.Pkg.Pkg.Path()
						}
						name = pkg + "." + v.Name()
						if name == "os.Stdout" || name == "os.Stderr" || pkg == "os" && strings.HasPrefix(v.Name(), "Err") {
							continue // output is C18's business
						}
					default:
						continue
					}
					if strings.HasPrefix(pkg, p.Module) || !hostFunction(name, pkg) {
						continue
					}
					r.Count("host_references", 1)
					if strings.HasPrefix(name, "(*os.File).") || strings.HasPrefix(name, "(*os.PathError)") {
						continue // the file itself was opened by a checked call
					}
					args, permitted := fileOps[name]
					c, isCall := ins.(ssa.CallInstruction)
					if !permitted || !isCall {
						r.Violate("host-access", p.FuncName(fn)+"|"+name, p.InstrPos(ins), "%s uses %s", p.FuncName(fn), name)
						continue
					}
					var outside []string
					for _, e := range p.entriesReaching(fn) {
						if !fileHelpers[p.FuncName(e)] {
							outside = append(outside, p.FuncName(e))
						}
					}
					if len(outside) > 0 {
						sort.Strings(outside)
						r.Violate("host-access", p.FuncName(fn)+"|"+name, p.InstrPos(ins), "%s calls %s and is reached from %s, which is no documented file helper", p.FuncName(fn), name, strings.Join(outside[:min(len(outside), 4)], ", "))
						continue
					}
					for _, ai := range args {
						r.Count("path_arguments", 1)
						if ai >= len(c.Common().Args) {
							continue
						}
						if bad := f.badPathLeaf(c.Common().Args[ai]); bad != "" {
							r.Violate("path-from-content", p.FuncName(fn)+"|"+name+fmt.Sprintf("|arg%d", ai), p.InstrPos(ins), "the path given to %s in %s may contain %s", name, p.FuncName(fn), bad)
						}
					}
				}
			}
		}
	}
	r.Floor("path_arguments", 3)
	r.Floor("functions_analysed", 500)
	return r
}

// badPathLeaf: what, other than helper path parameters, constants and numbers, flows into the path?
func (f *Flow) badPathLeaf(v ssa.Value) string {
	bad := ""
	f.Backward(v, nil, FlowOpts{Stop: func(vis *Visit) bool {
		switch x := vis.V.(type) {
		case *ssa.Const:
			return true
		case *ssa.Parameter:
			fn := x.Parent()
			if vis.St == nil && exportedAPI(fn) && f.p.isLib[fn] {
				if x.Type().String() == "string" && fileHelpers[f.p.FuncName(fn)] {
					return false // callers inside the module are checked as well
				}
				bad = fmt.Sprintf("parameter %s of %s", x.Name(), f.p.FuncName(fn))
				return true
			}
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if n := len(f.fieldLoad(fa, vis.St)); n == 0 {
					bad = "field " + fieldKeyOf(fa.X.Type(), fa.Field)
				}
			}
		case *ssa.Call:
			name := calleeFullName(x)
			if strings.HasPrefix(name, "os.") || strings.HasPrefix(name, "crypto/rand") {
				bad = "the result of " + name
				return true
			}
		}
		return bad != ""
	}})
	return strings.ReplaceAll(bad, f.p.Module+"/", "")
}

// entriesReaching returns the exported library operations from which fn can be called.
func (p *Program) entriesReaching(fn *ssa.Function) []*ssa.Function {
	f := p.Flow()
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		if exportedAPI(fn) && p.isLib[fn] {
			out = append(out, fn)
		}
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			out = append(out, fn)
		}
		for _, c := range p.callers[fn] {
			if p.isLib[c.Parent()] {
				walk(c.Parent())
			}
		}
		for _, c := range f.dynCallers[fn] {
			if p.isLib[c.Parent()] {
				walk(c.Parent())
			}
		}
		if fn.Parent() != nil {
			walk(fn.Parent())
		}
	}
	walk(fn)
	sort.Slice(out, func(i, j int) bool { return out[i].RelString(nil) < out[j].RelString(nil) })
	return out
}
