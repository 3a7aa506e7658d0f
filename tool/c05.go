package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C05"] = checkC05 }

// dataParam: caller data whose content must survive the call: byte and other slices, maps
// (not pointers to library objects, which are edited on purpose).
func dataParam(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Interface:
		return t.String() == "interface{}" || t.String() == "any"
	}
	return false
}

func constructName(p *Program, ins ssa.Instruction, what string) string {
	// ordinal among same-kind constructs of the function
	n := 0
	for _, b := range ins.Parent().Blocks {
		for _, i2 := range b.Instrs {
			if fmt.Sprintf("%T", i2) == fmt.Sprintf("%T", ins) && instrWhat(i2) == instrWhat(ins) {
				if i2 == ins {
					return fmt.Sprintf("%s|%s#%d", p.FuncName(ins.Parent()), what, n)
				}
				n++
			}
		}
	}
	return p.FuncName(ins.Parent()) + "|" + what
}

func instrWhat(i ssa.Instruction) string {
	if c, ok := i.(ssa.CallInstruction); ok {
		return calleeFullName(c)
	}
	return ""
}

func checkC05(p *Program, tier string) *Result {
	r := &Result{Explanation: "Origin/mutation analysis over the SSA of all packages: every element store, map update, copy, append without capacity limit, in-place cipher call, sort and buffer write in the module is an obligation; the memory it writes must not be reachable (through parameters, fields, captured variables and container elements) from a slice or map parameter of an exported library function."}
	a := p.Alias()
	var roots []*node
	for _, fn := range p.Lib {
		if !exportedAPI(fn) {
			continue
		}
		off := 0
		if fn.Signature.Recv() != nil {
			off = 1
		}
		for i := off; i < len(fn.Params); i++ {
			if dataParam(fn.Params[i].Type()) {
				n := a.param(fn, i)
				roots = append(roots, n, a.elem(n))
				r.Count("caller_data_parameters", 1)
			}
		}
	}
	from := a.reach(roots)
	for _, m := range a.muts {
		if !p.isLib[m.ins.Parent()] {
			continue
		}
		r.Count("write_sites", 1)
		var bad *node
		for _, n := range m.nodes.sorted() {
			if _, ok := from[n]; ok {
				bad = n
				break
			}
		}
		if bad == nil {
			continue
		}
		r.Violate("caller-memory-written", constructName(p, m.ins, m.what), p.InstrPos(m.ins),
			"%s in %s may write into memory passed by the caller: %s", m.what, p.FuncName(m.ins.Parent()), strings.ReplaceAll(path(from, bad), p.Module+"/", ""))
	}
	r.Floor("caller_data_parameters", 100)
	r.Floor("write_sites", 300)
	return r
}
