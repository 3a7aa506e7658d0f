package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C23"] = checkC23 }

// The operations that exist to change something, per receiver type: the methods that change their receiver, with
// "/n" for those that also change argument n (the receiver is 0). Every other exported operation is read-only.
var changing = map[string]string{
	"content/extract.FontDecoder":      "SetBaseEncoding SetDifferences SetToUnicode ParseDifferencesArray ParseToUnicodeCMap",
	"core/manipulate.PDFManipulator":   "DeletePage DeletePages InsertPage RotatePage RotateAllPages",
	"core/write.PDFWriter":             "UseObjectStream UseXRefStream",
	"core/write.PageBuilder":           "Build AddEmbeddedFont/1",
	"core/write.SimplePDFBuilder":      "FinalizePage/1",
	"core/write.XFABuilder":            "BuildFromOriginal BuildFromXFA",
	"forms/acroform.AppearanceBuilder": "CreateButtonAppearance CreateCheckboxAppearance CreateTextAppearance",
	"forms/acroform.FieldBuilder":      "Build",
	"forms/acroform.FormBuilder":       "BuildForm",
	"forms/xfa.PDFStream":              "Read ReadByte Seek",
	"resources/font.Font":              "ToPDFObjects", // caches the subset prefix
	"types.WarningCollector":           "Clear Disable Enable",
}

// What an operation uses as its own working storage, although it is reachable from its receiver.
var workingStorage = map[string][]string{
	// the manipulator's own writer is refilled from its object table on every rebuild
	"core/manipulate.PDFManipulator.Rebuild": {"core/write.PDFWriter", "core/write.PDFObject"},
}

// the verbs of methods that change their receiver
var changingVerbs = []string{"Add", "Set", "Insert", "Delete", "Remove", "Append", "Clear", "Reset", "Enable", "Disable", "With"}

func mayChange(p *Program, fn *ssa.Function, arg int) bool {
	pkg := shortPkg(fn)
	recv := fn.Signature.Recv()
	if recv == nil {
		// functions that add something to a writer
		return strings.HasPrefix(fn.Name(), "Add") && strings.HasSuffix(fn.Params[arg].Type().String(), "/core/write.PDFWriter")
	}
	typ := pkg + "." + namedOf(recv.Type())
	if typ == "core/write.ContentStream" && arg == 0 {
		return fn.Name() != "Bytes" && fn.Name() != "String"
	}
	for _, m := range strings.Fields(changing[typ]) {
		name, extra, more := strings.Cut(m, "/")
		if name == fn.Name() && (arg == 0 || more && extra == fmt.Sprint(arg)) {
			return true
		}
	}
	if arg == 0 {
		for _, v := range changingVerbs {
			if strings.HasPrefix(fn.Name(), v) {
				return true
			}
		}
	}
	return false
}

func checkC23(p *Program, tier string) *Result {
	r := &Result{Explanation: "Entry-specific points-to analysis with symbolic inputs: for every exported operation, all code reachable from it is analysed and every store, map update, append, in-place library call is checked against the memory reachable from the entry's receiver and reference arguments; a write to it is a violation, a write to memory allocated below the entry is not. Only the operations that exist to change something (table changing, verbs changingVerbs) may write to the argument they exist to change."}
	for _, fn := range p.Lib {
		if !exportedAPI(fn) || fn.Pkg == nil || strings.Contains(shortPkg(fn), "internal/") {
			continue
		}
		var roots []int
		for i, pr := range fn.Params {
			if _, isI := pr.Type().Underlying().(*types.Interface); isI {
				continue // destinations such as writers
			}
			if refType(pr.Type()) && !mayChange(p, fn, i) {
				roots = append(roots, i)
			}
		}
		if len(roots) == 0 {
			continue
		}
		r.Count("read_only_entries", 1)
		r.Count("read_only_arguments", len(roots))
		if fn.Signature.Recv() != nil && roots[0] == 0 {
			r.Count("read_only_methods", 1)
		}
		h := p.NewHeap(fn, roots)
		r.Count("functions_analysed", len(h.reach))
		scratch := []string{}
		if recv := fn.Signature.Recv(); recv != nil {
			scratch = workingStorage[shortPkg(fn)+"."+namedOf(recv.Type())+"."+fn.Name()]
		}
		for _, root := range roots {
		mutLoop:
			for _, ins := range h.MutOf(root) {
				for _, sc := range scratch {
					all := true
					for o := range h.MutObjs[ins] {
						if o.root == root && !strings.HasSuffix(o.typ, sc) {
							all = false
						}
					}
					if all {
						continue mutLoop
					}
				}
				r.Violate("inspection-mutates", p.FuncName(fn)+"|"+fn.Params[root].Name()+"|"+constructName(p, ins, instrWhat(ins)), p.InstrPos(ins),
					"%s, reached from read-only operation %s, writes memory reachable from its argument %s (%s)", p.FuncName(ins.Parent()), p.FuncName(fn), fn.Params[root].Name(), h.What[ins])
			}
		}
	}
	r.Floor("read_only_entries", 150)
	r.Floor("read_only_methods", 30)
	return r
}

func namedOf(t types.Type) string {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// shortPkg is the path of a function's package within the module
func shortPkg(fn *ssa.Function) string {
	return strings.TrimPrefix(fn.Pkg.Pkg.Path(), "github.com/benedoc-inc/pdfer/")
}
