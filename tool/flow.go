package main

// Demand-driven backward value flow over SSA with call-string matching.
//
// Starting at a value, every value that may contribute content to it is visited. Returns of module
// functions are entered with the call site pushed, parameters leave through the matching call site
// (through every call site when the string is empty). Memory is field based; contents of slices,
// maps and buffers are attached to the origins computed by the Alias analysis.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callStr struct {
	c  ssa.CallInstruction
	up *callStr
	n  int
}

const maxCallStr = 8

func (s *callStr) push(c ssa.CallInstruction) *callStr {
	for q := s; q != nil; q = q.up {
		if q.c == c { // recursion: fold
			return q
		}
	}
	if s != nil && s.n >= maxCallStr {
		s = s.keep(maxCallStr - 1) // the outermost caller is forgotten
	}
	n := 1
	if s != nil {
		n = s.n + 1
	}
	return &callStr{c, s, n}
}

func (s *callStr) keep(n int) *callStr {
	if s == nil || n == 0 {
		return nil
	}
	return &callStr{s.c, s.up.keep(n - 1), n}
}

type flowState struct {
	v     ssa.Value
	stack string
}

type flowStep struct {
	v   ssa.Value
	st  *callStr
	ins ssa.Instruction // the instruction that wrote v into memory, if that is how it got here
}

type memWrite struct {
	val ssa.Value
	ins ssa.Instruction
}

type passArg struct {
	c ssa.CallInstruction
	t *ssa.Function
	i int
}

type Flow struct {
	p           *Program
	a           *Alias
	fieldStores map[string][]ssa.Value
	globStores  map[*ssa.Global][]ssa.Value
	writes      map[*node][]memWrite
	passes      map[*node][]passArg
	allocStores map[*ssa.Alloc][]ssa.Value
	cellStores  map[*ssa.FreeVar][]ssa.Value
	dynCallers  map[*ssa.Function][]ssa.CallInstruction
	ids         map[interface{}]int
	mkClosures  map[*ssa.Function][]*ssa.MakeClosure
	captures    map[*node][]*node
}

func (p *Program) Flow() *Flow {
	if p.flowMemo != nil {
		return p.flowMemo
	}
	a := p.Alias()
	f := &Flow{p: p, a: a, fieldStores: map[string][]ssa.Value{}, globStores: map[*ssa.Global][]ssa.Value{}, writes: map[*node][]memWrite{},
		passes: map[*node][]passArg{}, allocStores: map[*ssa.Alloc][]ssa.Value{}, cellStores: map[*ssa.FreeVar][]ssa.Value{},
		dynCallers: map[*ssa.Function][]ssa.CallInstruction{}, ids: map[interface{}]int{}, mkClosures: map[*ssa.Function][]*ssa.MakeClosure{}, captures: map[*node][]*node{}}
	put := func(ns nodeset, v ssa.Value, ins ssa.Instruction) {
		for n := range ns {
			f.writes[n] = append(f.writes[n], memWrite{v, ins})
		}
	}
	for _, fn := range p.All {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.MakeClosure:
					cf := x.Fn.(*ssa.Function)
					f.mkClosures[cf] = append(f.mkClosures[cf], x)
				case *ssa.Store:
					addr := x.Addr
					base := addr
					for {
						if fa, ok := base.(*ssa.FieldAddr); ok {
							f.fieldStores[fieldKeyOf(fa.X.Type(), fa.Field)] = append(f.fieldStores[fieldKeyOf(fa.X.Type(), fa.Field)], x.Val)
							base = fa.X
							continue
						}
						if ia, ok := base.(*ssa.IndexAddr); ok {
							put(a.Of(ia.X), x.Val, ins)
							if _, isPtr := ia.X.Type().Underlying().(*types.Pointer); isPtr {
								base = ia.X
								continue
							}
						}
						break
					}
					switch ad := base.(type) {
					case *ssa.Alloc:
						f.allocStores[ad] = append(f.allocStores[ad], x.Val)
					case *ssa.Global:
						f.globStores[ad] = append(f.globStores[ad], x.Val)
					case *ssa.FreeVar:
						f.cellStores[ad] = append(f.cellStores[ad], x.Val)
					default:
						if base == addr {
							put(a.Of(addr), x.Val, ins)
						}
					}
				case *ssa.MapUpdate:
					put(a.Of(x.Map), x.Key, ins)
					put(a.Of(x.Map), x.Value, ins)
				case ssa.CallInstruction:
					com := x.Common()
					name := calleeFullName(x)
					ts := a.targets(x)
					for _, t := range ts {
						for i, arg := range argsFor(com) {
							if i < len(t.Params) && refType(arg.Type()) {
								for n := range a.Of(arg) {
									f.passes[n] = append(f.passes[n], passArg{x, t, i})
								}
							}
						}
						if com.StaticCallee() == nil && !com.IsInvoke() {
							f.dynCallers[t] = append(f.dynCallers[t], x)
						}
					}
					if len(ts) > 0 {
						continue
					}
					switch {
					case name == "builtin.copy":
						put(a.Of(com.Args[0]), com.Args[1], ins)
					case name == "builtin.append":
					case strings.HasPrefix(name, "fmt.Fprint") || name == "io.WriteString" || name == "encoding/binary.Write":
						for _, v := range com.Args[1:] {
							put(a.Of(com.Args[0]), v, ins)
						}
					case name == "io.Copy":
						put(a.Of(com.Args[0]), com.Args[1], ins)
					default:
						for _, i := range stdWrites(name) {
							dst := callArg(com, i)
							if dst == nil {
								continue
							}
							for _, v := range com.Args {
								if v != dst {
									put(a.Of(dst), v, ins)
								}
							}
							if cv, ok := ins.(ssa.Value); ok {
								put(a.Of(dst), cv, ins)
							}
						}
						// writer-like receivers collect what is written to them
						if isWriterMethod(name) {
							var recv ssa.Value
							var rest []ssa.Value
							if com.IsInvoke() {
								recv, rest = com.Value, com.Args
							} else if len(com.Args) > 0 {
								recv, rest = com.Args[0], com.Args[1:]
							}
							for _, v := range rest {
								put(a.Of(recv), v, ins)
							}
						}
					}
				}
			}
		}
	}
	for _, n := range a.all {
		if n.kind == nFree {
			for m := range n.in {
				f.captures[m] = append(f.captures[m], n)
			}
		}
	}
	p.flowMemo = f
	return f
}

func isWriterMethod(name string) bool {
	i := strings.LastIndex(name, ").")
	if i < 0 {
		return false
	}
	switch name[i+2:] {
	case "Write", "WriteString", "WriteByte", "WriteRune", "EncodeToken", "Encode", "EncodeElement":
		return true
	}
	return false
}

func (f *Flow) id(x interface{}) int {
	if i, ok := f.ids[x]; ok {
		return i
	}
	f.ids[x] = len(f.ids) + 1
	return len(f.ids)
}

func (f *Flow) key(s *callStr) string {
	var b strings.Builder
	for q := s; q != nil; q = q.up {
		b.WriteString(itoa(f.id(q.c)))
		b.WriteByte('.')
	}
	return b.String()
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var d []byte
	for n > 0 {
		d = append([]byte{byte('0' + n%10)}, d...)
		n /= 10
	}
	return string(d)
}

// carries: can a value of this type carry text content?
func carries(t types.Type, ints bool) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.String, types.UntypedString, types.Uint8, types.Int32, types.UntypedRune:
			return true
		case types.Bool, types.UntypedBool:
			return false
		case types.UntypedNil, types.Invalid:
			return false
		}
		return ints
	}
	return true
}

// Visit is one reached value.
type Visit struct {
	V    ssa.Value
	St   *callStr
	Path []ssa.Value // from the start value to V
}

type FlowOpts struct {
	Ints bool
	// Stop is asked for every reached value; true stops expansion there.
	Stop func(v *Visit) bool
	// Call may replace the predecessors of a call value (sanitisers, summaries). ok=false: default.
	Call func(c *ssa.Call, name string, v *Visit) (args []ssa.Value, ok bool)
	// NoMem disables following memory contents.
	NoMem bool
	Limit int
}

// Backward explores everything that may flow into start. It returns false when the limit was hit.
func (f *Flow) Backward(start ssa.Value, st *callStr, o FlowOpts) bool {
	type item struct {
		v    ssa.Value
		st   *callStr
		prev *item
	}
	seen := map[flowState]bool{}
	limit := o.Limit
	if limit == 0 {
		limit = 60000
	}
	work := []*item{{start, st, nil}}
	pathOf := func(it *item) []ssa.Value {
		var p []ssa.Value
		for ; it != nil; it = it.prev {
			p = append([]ssa.Value{it.v}, p...)
		}
		return p
	}
	n := 0
	for len(work) > 0 {
		it := work[0]
		work = work[1:]
		if it.v == nil || !carries(it.v.Type(), o.Ints) {
			continue
		}
		k := flowState{it.v, f.key(it.st)}
		if seen[k] {
			continue
		}
		seen[k] = true
		n++
		if n > limit {
			return false
		}
		vis := &Visit{it.v, it.st, pathOf(it)}
		if o.Stop != nil && o.Stop(vis) {
			continue
		}
		for _, s := range f.preds(it.v, it.st, o, vis) {
			work = append(work, &item{s.v, s.st, it})
		}
	}
	return true
}

func (f *Flow) preds(v ssa.Value, st *callStr, o FlowOpts, vis *Visit) []flowStep {
	var out []flowStep
	add := func(x ssa.Value, s *callStr) {
		if x != nil {
			out = append(out, flowStep{x, s, nil})
		}
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	case *ssa.Parameter:
		fn := x.Parent()
		idx := -1
		for i, pr := range fn.Params {
			if pr == x {
				idx = i
			}
		}
		if st != nil {
			as := argsFor(st.c.Common())
			if idx < len(as) {
				add(as[idx], st.up)
			}
			break
		}
		for _, c := range f.p.callers[fn] {
			as := argsFor(c.Common())
			if idx < len(as) {
				add(as[idx], nil)
			}
		}
		for _, c := range f.dynCallers[fn] {
			as := argsFor(c.Common())
			if idx < len(as) {
				add(as[idx], nil)
			}
		}
	case *ssa.FreeVar:
		fn := x.Parent()
		for i, fv := range fn.FreeVars {
			if fv != x {
				continue
			}
			for _, mc := range f.mkClosures[fn] {
				add(mc.Bindings[i], nil)
			}
		}
		for _, s := range f.cellStores[x] {
			add(s, st)
		}
	case *ssa.Global:
		for _, s := range f.globStores[x] {
			add(s, nil)
		}
	case *ssa.Alloc:
		for _, s := range f.allocStores[x] {
			add(s, st)
		}
		// captured cells written by closures
		if refs := x.Referrers(); refs != nil {
			for _, r := range *refs {
				if mc, ok := r.(*ssa.MakeClosure); ok {
					cf := mc.Fn.(*ssa.Function)
					for i, b := range mc.Bindings {
						if b == x && i < len(cf.FreeVars) {
							for _, s := range f.cellStores[cf.FreeVars[i]] {
								add(s, nil)
							}
						}
					}
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			add(e, st)
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return nil
		}
		add(x.X, st)
		add(x.Y, st)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			add(x.X, st)
			break
		}
		switch ad := x.X.(type) {
		case *ssa.FieldAddr:
			out = append(out, f.fieldLoad(ad, st)...)
		case *ssa.IndexAddr:
			add(ad.X, st)
		default:
			add(x.X, st)
		}
	case *ssa.FieldAddr:
		out = append(out, f.fieldLoad(x, st)...)
	case *ssa.Field:
		k := fieldKeyOf(x.X.Type(), x.Field)
		for _, s := range f.fieldStores[k] {
			add(s, nil)
		}
		add(x.X, st)
	case *ssa.IndexAddr:
		add(x.X, st)
	case *ssa.Index:
		add(x.X, st)
	case *ssa.Lookup:
		add(x.X, st)
	case *ssa.Slice:
		add(x.X, st)
	case *ssa.ChangeType:
		add(x.X, st)
	case *ssa.ChangeInterface:
		add(x.X, st)
	case *ssa.Convert:
		add(x.X, st)
	case *ssa.MakeInterface:
		add(x.X, st)
	case *ssa.TypeAssert:
		add(x.X, st)
	case *ssa.SliceToArrayPointer:
		add(x.X, st)
	case *ssa.MakeClosure:
		return nil
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			out = append(out, f.callPreds(t, x.Index, st, o, vis)...)
		case *ssa.Lookup:
			if x.Index == 0 {
				add(t.X, st)
			}
		case *ssa.TypeAssert:
			if x.Index == 0 {
				add(t.X, st)
			}
		case *ssa.Next:
			if x.Index > 0 {
				if r, ok := t.Iter.(*ssa.Range); ok {
					add(r.X, st)
				}
			}
		}
	case *ssa.Call:
		out = append(out, f.callPreds(x, 0, st, o, vis)...)
	}
	if !o.NoMem && containerLike(v.Type()) {
		seen := map[string]bool{}
		for n := range f.a.Of(v) {
			f.content(n, v.Parent(), st, seen, &out, 0)
		}
	}
	return out
}

func containerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer, *types.Interface:
		return true
	case *types.Struct:
		_ = u
		return false
	}
	return false
}

// content adds everything written into the memory of n by fn, by the functions fn passes it to and by
// closures capturing it.
func (f *Flow) content(n *node, fn *ssa.Function, st *callStr, seen map[string]bool, out *[]flowStep, depth int) {
	k := itoa(n.id) + "/" + f.key(st)
	if seen[k] || depth > 6 {
		return
	}
	seen[k] = true
	framed := n.kind == nAlloc || n.kind == nParam || n.kind == nElem && (n.base.kind == nAlloc || n.base.kind == nParam)
	for _, w := range f.writes[n] {
		if framed {
			if w.ins.Parent() != fn {
				continue
			}
			*out = append(*out, flowStep{w.val, st, w.ins})
		} else {
			*out = append(*out, flowStep{w.val, nil, w.ins})
		}
	}
	for _, pa := range f.passes[n] {
		if framed && pa.c.Parent() != fn {
			continue
		}
		var up *callStr
		if framed {
			up = st
		}
		f.content(f.a.param(pa.t, pa.i), pa.t, up.push(pa.c), seen, out, depth+1)
	}
	for _, fr := range f.captures[n] {
		for _, w := range f.writes[fr] {
			*out = append(*out, flowStep{w.val, nil, w.ins})
		}
		for _, pa := range f.passes[fr] {
			var none *callStr
			f.content(f.a.param(pa.t, pa.i), pa.t, none.push(pa.c), seen, out, depth+1)
		}
	}
}

func (f *Flow) fieldLoad(fa *ssa.FieldAddr, st *callStr) []flowStep {
	var out []flowStep
	// a local struct that never leaves the function: only its own stores
	if al, ok := fa.X.(*ssa.Alloc); ok && localOnly(al) {
		for _, r := range *al.Referrers() {
			if f2, ok := r.(*ssa.FieldAddr); ok && f2.Field == fa.Field {
				for _, rr := range *f2.Referrers() {
					if s, ok := rr.(*ssa.Store); ok && s.Addr == f2 {
						out = append(out, flowStep{s.Val, st, nil})
					}
				}
			}
			if s, ok := r.(*ssa.Store); ok && s.Addr == al {
				out = append(out, flowStep{s.Val, st, nil})
			}
		}
		return out
	}
	for _, s := range f.fieldStores[fieldKeyOf(fa.X.Type(), fa.Field)] {
		out = append(out, flowStep{s, nil, nil})
	}
	return out
}

// localOnly: the struct variable is only accessed through its fields or as a whole, never by address elsewhere.
func localOnly(al *ssa.Alloc) bool {
	if al.Heap {
		return false
	}
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr, *ssa.DebugRef:
		case *ssa.UnOp:
		case *ssa.Store:
			if r.Addr != al {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// errors of these calls quote their input
func errQuotesInput(name string) bool {
	return strings.HasPrefix(name, "strconv.") || strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "errors.") ||
		strings.HasPrefix(name, "time.Parse") || strings.HasPrefix(name, "net/url.") || strings.HasPrefix(name, "encoding/json.") || strings.HasPrefix(name, "os.")
}

func (f *Flow) callPreds(c *ssa.Call, idx int, st *callStr, o FlowOpts, vis *Visit) []flowStep {
	var out []flowStep
	name := calleeFullName(c)
	if o.Call != nil {
		if args, ok := o.Call(c, name, vis); ok {
			for _, a := range args {
				out = append(out, flowStep{a, st, nil})
			}
			return out
		}
	}
	ts := f.a.targets(c)
	if len(ts) > 0 {
		for _, t := range ts {
			for _, b := range t.Blocks {
				if len(b.Instrs) == 0 {
					continue
				}
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
					out = append(out, flowStep{ret.Results[idx], st.push(c), nil})
				}
			}
		}
		return out
	}
	com := c.Common()
	if name == "builtin.len" || name == "builtin.cap" {
		if o.Ints {
			out = append(out, flowStep{com.Args[0], st, nil})
		}
		return out
	}
	// which result?
	var rt types.Type = c.Type()
	if tp, ok := rt.(*types.Tuple); ok {
		if idx >= tp.Len() {
			return nil
		}
		rt = tp.At(idx).Type()
	}
	if isErrorType(rt) && !errQuotesInput(name) {
		return nil
	}
	if com.IsInvoke() {
		out = append(out, flowStep{com.Value, st, nil})
	} else if com.StaticCallee() == nil {
		out = append(out, flowStep{com.Value, st, nil})
	}
	for _, a := range com.Args {
		out = append(out, flowStep{a, st, nil})
	}
	return out
}
