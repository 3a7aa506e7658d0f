package main

// Entry-specific points-to analysis with symbolic input objects.
//
// For one entry function, chosen parameters are bound to symbolic objects standing for everything
// reachable from the argument (one object per root and static type); every allocation site is one
// object; struct fields are kept apart by path. Every function reachable from the entry is analysed.
// A store, map update, append without capacity limit, or in-place library call whose base is a
// symbolic object is a write to memory the caller can see; writes to objects allocated below the
// entry are invisible to it.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type hobj struct {
	id   int
	root int // >=0: symbolic object of that root
	typ  string
	site ssa.Value
}

func (o *hobj) String() string {
	if o.root >= 0 {
		return fmt.Sprintf("sym%d<%s>", o.root, o.typ)
	}
	return fmt.Sprintf("alloc %s@%s", o.site.Name(), o.site.Parent().Name())
}

type hloc struct {
	o    *hobj
	path string
}

type locset map[hloc]bool

type Heap struct {
	p       *Program
	a       *Alias
	entry   *ssa.Function
	syms    map[string]*hobj
	allocs  map[ssa.Value]*hobj
	n       int
	pts     map[ssa.Value]locset
	heap    map[hloc]locset
	byObj   map[*hobj]map[string]bool // paths with heap content
	back    map[hloc]map[int]bool     // struct region copied from symbolic memory of a root
	rets    map[*ssa.Function][]locset
	reach   []*ssa.Function
	inReach map[*ssa.Function]bool
	changed bool
	killed  map[*ssa.Alloc]map[string]bool
	// Mut: instruction -> roots written
	Mut     map[ssa.Instruction]map[int]bool
	What    map[ssa.Instruction]string
	MutObjs map[ssa.Instruction]map[*hobj]bool
}

// NewHeap analyses entry with the parameters in roots bound to symbolic objects (root number = param index).
func (p *Program) NewHeap(entry *ssa.Function, roots []int) *Heap {
	h := &Heap{p: p, a: p.Alias(), entry: entry, syms: map[string]*hobj{}, allocs: map[ssa.Value]*hobj{},
		pts: map[ssa.Value]locset{}, heap: map[hloc]locset{}, byObj: map[*hobj]map[string]bool{}, back: map[hloc]map[int]bool{},
		rets: map[*ssa.Function][]locset{}, inReach: map[*ssa.Function]bool{}, killed: map[*ssa.Alloc]map[string]bool{},
		Mut: map[ssa.Instruction]map[int]bool{}, What: map[ssa.Instruction]string{}, MutObjs: map[ssa.Instruction]map[*hobj]bool{}}
	isRoot := map[int]bool{}
	for _, r := range roots {
		isRoot[r] = true
	}
	for i, pr := range entry.Params {
		r := i
		if !isRoot[i] {
			r = 1000 + i
		}
		h.add(pr, h.symVal(r, pr.Type()))
	}
	h.addReach(entry)
	for round := 0; round < 80; round++ {
		h.changed = false
		for i := 0; i < len(h.reach); i++ {
			fn := h.reach[i]
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					h.instr(fn, ins)
				}
			}
		}
		if !h.changed {
			break
		}
	}
	return h
}

func (h *Heap) addReach(fn *ssa.Function) {
	if h.inReach[fn] || len(fn.Blocks) == 0 {
		return
	}
	h.inReach[fn] = true
	h.reach = append(h.reach, fn)
	h.changed = true
}

func symKey(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return types.TypeString(u.Elem(), nil)
	case *types.Slice:
		return "[]" + types.TypeString(u.Elem(), nil)
	case *types.Map:
		return types.TypeString(u, nil)
	case *types.Interface:
		return "iface"
	case *types.Struct, *types.Array:
		return "val " + types.TypeString(t, nil)
	case *types.Signature:
		return "func"
	}
	return types.TypeString(t, nil)
}

func (h *Heap) sym(root int, typ string) *hobj {
	k := fmt.Sprintf("%d|%s", root, typ)
	if o, ok := h.syms[k]; ok {
		return o
	}
	h.n++
	o := &hobj{id: h.n, root: root, typ: typ}
	h.syms[k] = o
	return o
}

func (h *Heap) symVal(root int, t types.Type) locset {
	if !refType(t) {
		return nil
	}
	if tup, ok := t.(*types.Tuple); ok {
		s := locset{}
		for i := 0; i < tup.Len(); i++ {
			for l := range h.symVal(root, tup.At(i).Type()) {
				s[l] = true
			}
		}
		return s
	}
	return locset{hloc{h.sym(root, symKey(t)), ""}: true}
}

func (h *Heap) alloc(v ssa.Value) *hobj {
	if o, ok := h.allocs[v]; ok {
		return o
	}
	h.n++
	o := &hobj{id: h.n, root: -1, site: v}
	h.allocs[v] = o
	return o
}

func (h *Heap) add(v ssa.Value, s locset) {
	if len(s) == 0 {
		return
	}
	d := h.pts[v]
	if d == nil {
		d = locset{}
		h.pts[v] = d
	}
	for l := range s {
		if !d[l] {
			d[l] = true
			h.changed = true
		}
	}
}

// Of returns what a value may point to (for struct values: the regions it was copied from).
func (h *Heap) Of(v ssa.Value) locset {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Builtin, *ssa.Function:
		return nil
	case *ssa.Global:
		return locset{hloc{h.sym(2000, "global "+x.String()), ""}: true}
	}
	return h.pts[v]
}

func clip(path string) string {
	if strings.Count(path, ".")+strings.Count(path, "[]") > 5 {
		return path[:strings.LastIndexAny(path, ".[")] + ""
	}
	return path
}

func (h *Heap) put(d hloc, s locset) {
	if len(s) == 0 || d.o.root >= 0 && d.o.root >= 1000 && false {
		return
	}
	if h.isKilledPath(d) {
		// content arriving by direct field store is kept; only struct copies are killed (see copyStruct)
	}
	m := h.heap[d]
	if m == nil {
		m = locset{}
		h.heap[d] = m
		if h.byObj[d.o] == nil {
			h.byObj[d.o] = map[string]bool{}
		}
		h.byObj[d.o][d.path] = true
	}
	for l := range s {
		if !m[l] {
			m[l] = true
			h.changed = true
		}
	}
}

func (h *Heap) isKilledPath(d hloc) bool {
	if d.o.root >= 0 {
		return false
	}
	al, ok := d.o.site.(*ssa.Alloc)
	if !ok {
		return false
	}
	ks, ok := h.killed[al]
	if !ok {
		ks = killedFields(al)
		h.killed[al] = ks
	}
	if len(ks) == 0 || !strings.HasPrefix(d.path, ".") {
		return false
	}
	f := d.path[1:]
	if i := strings.IndexAny(f, ".["); i >= 0 {
		f = f[:i]
	}
	return ks[f]
}

// killedFields: fields of a local struct that are overwritten right after a whole-struct copy,
// before the struct is used in any other way, so the copied content of the field is never seen.
func killedFields(al *ssa.Alloc) map[string]bool {
	out := map[string]bool{}
	refs := al.Referrers()
	if refs == nil {
		return out
	}
	var whole []*ssa.Store
	fieldStores := map[string][]*ssa.Store{}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == al {
				whole = append(whole, x)
			}
		case *ssa.FieldAddr:
			if x.X != al {
				continue
			}
			name := fieldName(x)
			for _, r2 := range *x.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == x {
					fieldStores[name] = append(fieldStores[name], st)
				}
			}
		}
	}
	if len(whole) == 0 {
		return out
	}
	for name, sts := range fieldStores {
	next:
		for _, s2 := range sts {
			for _, s1 := range whole {
				if !instrDominates(s1, s2) {
					continue next
				}
			}
			for _, r := range *refs {
				switch x := r.(type) {
				case *ssa.DebugRef:
					continue
				case *ssa.Store:
					if x.Addr == al {
						continue
					}
				case *ssa.FieldAddr:
					if fieldName(x) != name {
						continue
					}
					for _, r2 := range *x.Referrers() {
						if _, ok := r2.(*ssa.DebugRef); ok {
							continue
						}
						if st, ok := r2.(*ssa.Store); ok && st.Addr == x {
							continue
						}
						if !instrDominates(s2, r2) {
							continue next
						}
					}
					continue
				}
				if !instrDominates(s2, r) {
					continue next
				}
			}
			out[name] = true
			break
		}
	}
	return out
}

func fieldName(x *ssa.FieldAddr) string {
	st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return st.Field(x.Field).Name()
}

func instrIndex(i ssa.Instruction) int {
	for k, x := range i.Block().Instrs {
		if x == i {
			return k
		}
	}
	return -1
}

func instrDominates(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}

// load reads a value of type t at the location.
func (h *Heap) load(l hloc, t types.Type) locset {
	if !refType(t) {
		return nil
	}
	if isStructLike(t) {
		return locset{l: true} // by reference to the region
	}
	out := locset{}
	for x := range h.heap[l] {
		out[x] = true
	}
	if l.o.root >= 0 {
		for x := range h.symVal(l.o.root, t) {
			out[x] = true
		}
		return out
	}
	if !h.isKilledPath(l) {
		for pre, roots := range h.backsOf(l.o) {
			if strings.HasPrefix(l.path, pre) {
				for r := range roots {
					for x := range h.symVal(r, t) {
						out[x] = true
					}
				}
			}
		}
	}
	return out
}

func isStructLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (h *Heap) backsOf(o *hobj) map[string]map[int]bool {
	out := map[string]map[int]bool{}
	for l, r := range h.back {
		if l.o == o {
			out[l.path] = r
		}
	}
	return out
}

func (h *Heap) setBack(d hloc, root int) {
	m := h.back[d]
	if m == nil {
		m = map[int]bool{}
		h.back[d] = m
	}
	if !m[root] {
		m[root] = true
		h.changed = true
	}
}

// store writes val (of its type) to the location.
func (h *Heap) store(d hloc, val ssa.Value) {
	t := val.Type()
	if !refType(t) {
		return
	}
	if isStructLike(t) {
		for s := range h.Of(val) {
			h.copyStruct(d, s)
		}
		return
	}
	h.put(d, h.Of(val))
}

func (h *Heap) copyStruct(d, s hloc) {
	if d == s {
		return
	}
	if s.o.root >= 0 {
		h.setBack(d, s.o.root)
	}
	for path := range h.byObj[s.o] {
		if strings.HasPrefix(path, s.path) {
			dd := hloc{d.o, clip(d.path + path[len(s.path):])}
			if h.isKilledPath(dd) {
				continue
			}
			h.put(dd, h.heap[hloc{s.o, path}])
		}
	}
	for pre, roots := range h.backsOf(s.o) {
		if strings.HasPrefix(pre, s.path) || strings.HasPrefix(s.path, pre) {
			suffix := ""
			if len(pre) > len(s.path) {
				suffix = pre[len(s.path):]
			}
			dd := hloc{d.o, clip(d.path + suffix)}
			for r := range roots {
				h.setBack(dd, r)
			}
		}
	}
}

func (h *Heap) elemLocs(v ssa.Value) locset {
	out := locset{}
	for l := range h.Of(v) {
		if strings.HasSuffix(l.path, "[]") && l.path != "" && l.o.root >= 0 {
			out[l] = true
			continue
		}
		out[hloc{l.o, clip(l.path + "[]")}] = true
	}
	return out
}

func (h *Heap) loadAll(ls locset, t types.Type) locset {
	out := locset{}
	for l := range ls {
		for x := range h.load(l, t) {
			out[x] = true
		}
	}
	return out
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func (h *Heap) mut(ins ssa.Instruction, ls locset, what string) {
	for l := range ls {
		if l.o.root >= 0 {
			m := h.Mut[ins]
			if m == nil {
				m = map[int]bool{}
				h.Mut[ins] = m
			}
			if !m[l.o.root] {
				m[l.o.root] = true
				h.changed = true
			}
			if h.MutObjs[ins] == nil {
				h.MutObjs[ins] = map[*hobj]bool{}
			}
			h.MutObjs[ins][l.o] = true
			h.What[ins] = what + " on " + l.o.String() + l.path
		}
	}
}

func (h *Heap) instr(fn *ssa.Function, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Alloc:
		h.add(x, locset{hloc{h.alloc(x), ""}: true})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := x.(ssa.Value)
		h.add(v, locset{hloc{h.alloc(v), ""}: true})
	case *ssa.MakeClosure:
		cf := x.Fn.(*ssa.Function)
		h.addReach(cf)
		for i, b := range x.Bindings {
			h.add(cf.FreeVars[i], h.Of(b))
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			h.add(x, h.Of(e))
		}
	case *ssa.Slice:
		h.add(x, h.Of(x.X))
	case *ssa.ChangeType:
		h.add(x, h.Of(x.X))
	case *ssa.ChangeInterface:
		h.add(x, h.Of(x.X))
	case *ssa.SliceToArrayPointer:
		h.add(x, h.Of(x.X))
	case *ssa.MakeInterface:
		if refType(x.X.Type()) {
			h.add(x, h.Of(x.X))
		}
	case *ssa.TypeAssert:
		s := locset{}
		for l := range h.Of(x.X) {
			if l.o.root >= 0 && l.o.typ == "iface" && l.path == "" {
				for y := range h.symVal(l.o.root, x.AssertedType) {
					s[y] = true
				}
			} else {
				s[l] = true
			}
		}
		h.add(x, s)
	case *ssa.Convert:
		if refType(x.Type()) {
			if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
				h.add(x, locset{hloc{h.alloc(x), ""}: true})
			} else {
				h.add(x, h.Of(x.X))
			}
		}
	case *ssa.Extract:
		if !refType(x.Type()) {
			return
		}
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			h.add(x, h.callResult(t, x.Index, x.Type()))
		case *ssa.Lookup:
			h.add(x, h.loadAll(h.elemLocs(t.X), x.Type()))
		case *ssa.TypeAssert:
			h.add(x, h.Of(t))
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok {
				h.add(x, h.loadAll(h.elemLocs(r.X), x.Type()))
			}
		case *ssa.UnOp:
			h.add(x, h.loadAll(h.elemLocs(t.X), x.Type()))
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && refType(x.Type()) {
			h.add(x, h.loadAll(h.Of(x.X), x.Type()))
		}
	case *ssa.FieldAddr:
		s := locset{}
		for l := range h.Of(x.X) {
			s[hloc{l.o, clip(l.path + "." + fieldName(x))}] = true
		}
		h.add(x, s)
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		if refType(x.Type()) {
			s := locset{}
			for l := range h.Of(x.X) {
				s[hloc{l.o, clip(l.path + "." + st.Field(x.Field).Name())}] = true
			}
			h.add(x, h.loadAll(s, x.Type()))
		}
	case *ssa.IndexAddr:
		h.add(x, h.elemLocs(x.X))
	case *ssa.Index:
		if refType(x.Type()) {
			h.add(x, h.loadAll(h.elemLocs(x.X), x.Type()))
		}
	case *ssa.Lookup:
		if !x.CommaOk && refType(x.Type()) {
			h.add(x, h.loadAll(h.elemLocs(x.X), x.Type()))
		}
	case *ssa.Store:
		ls := h.Of(x.Addr)
		if _, ok := x.Addr.(*ssa.Global); ok {
			ls = h.Of(x.Addr)
		}
		for l := range ls {
			h.store(l, x.Val)
		}
		h.mut(ins, ls, "store")
	case *ssa.MapUpdate:
		ls := h.elemLocs(x.Map)
		for l := range ls {
			h.store(l, x.Value)
		}
		h.mut(ins, h.Of(x.Map), "map update")
	case *ssa.Return:
		rs := h.rets[fn]
		if rs == nil {
			rs = make([]locset, len(x.Results))
			h.rets[fn] = rs
		}
		for i, r := range x.Results {
			for l := range h.Of(r) {
				if rs[i] == nil {
					rs[i] = locset{}
				}
				if !rs[i][l] {
					rs[i][l] = true
					h.changed = true
				}
			}
		}
	case ssa.CallInstruction:
		h.call(fn, x)
	}
}

func (h *Heap) targets(c ssa.CallInstruction) []*ssa.Function { return h.a.targets(c) }

func (h *Heap) call(fn *ssa.Function, c ssa.CallInstruction) {
	com := c.Common()
	args := argsFor(com)
	for _, t := range h.targets(c) {
		h.addReach(t)
		for i, arg := range args {
			if i < len(t.Params) && refType(arg.Type()) {
				h.add(t.Params[i], h.Of(arg))
			}
		}
	}
	name := calleeFullName(c)
	if name == "builtin.append" && len(com.Args) == 2 {
		if v, ok := c.(*ssa.Call); ok {
			et := elemType(com.Args[0].Type())
			dst := hloc{h.alloc(v), "[]"}
			if et != nil && refType(et) {
				srcs := []ssa.Value{com.Args[0], com.Args[1]}
				for _, s := range srcs {
					for l := range h.elemLocs(s) {
						if isStructLike(et) {
							h.copyStruct(dst, l)
							for d := range h.elemLocs(com.Args[0]) {
								h.copyStruct(d, l)
							}
						} else {
							x := h.load(l, et)
							h.put(dst, x)
							if s == com.Args[1] {
								for d := range h.elemLocs(com.Args[0]) {
									h.put(d, x)
								}
							}
						}
					}
				}
			}
			h.add(v, h.Of(com.Args[0]))
			h.add(v, locset{hloc{h.alloc(v), ""}: true})
		}
	} else if v, ok := c.(*ssa.Call); ok {
		if _, tup := v.Type().(*types.Tuple); !tup && refType(v.Type()) {
			h.add(v, h.callResult(v, 0, v.Type()))
		}
	}
	if stdChangesReceiver(name) && len(com.Args) > 0 {
		// not the memory a reader made from a byte slice was given
		ls := locset{}
		for l := range h.Of(com.Args[0]) {
			if l.path != "" || !strings.HasPrefix(l.o.typ, "[]") {
				ls[l] = true
			}
		}
		h.mut(c, ls, name)
	}
	for _, i := range stdWrites(name) {
		v := callArg(com, i)
		if v == nil || (name == "builtin.append" && capped(v)) {
			continue
		}
		h.mut(c, h.Of(v), name)
	}
}

func (h *Heap) callResult(c *ssa.Call, idx int, t types.Type) locset {
	com := c.Common()
	ts := h.targets(c)
	out := locset{}
	if len(ts) == 0 {
		for _, i := range stdAliasArgs(calleeFullName(c)) {
			if v := callArg(com, i); v != nil {
				for l := range h.Of(v) {
					out[l] = true
				}
			}
		}
		out[hloc{h.alloc(c), ""}] = true
		return out
	}
	for _, f := range ts {
		rs := h.rets[f]
		if idx < len(rs) {
			for l := range rs[idx] {
				out[l] = true
			}
		}
	}
	return out
}

// MutOf lists the instructions writing memory of the given root, in a stable order.
func (h *Heap) MutOf(root int) []ssa.Instruction {
	var out []ssa.Instruction
	for ins, rs := range h.Mut {
		if rs[root] {
			out = append(out, ins)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := h.p.InstrPos(out[i]), h.p.InstrPos(out[j])
		if a != b {
			return a < b
		}
		return instrIndex(out[i]) < instrIndex(out[j])
	})
	return out
}

// mayMutate reports whether the call may write memory of the root (transitively).
func (h *Heap) mayMutate(fn *ssa.Function, root int, memo map[*ssa.Function]int) bool {
	if v, ok := memo[fn]; ok {
		return v == 1
	}
	memo[fn] = 0
	res := false
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if h.Mut[ins][root] {
				res = true
			}
			if c, ok := ins.(ssa.CallInstruction); ok && !res {
				for _, t := range h.targets(c) {
					if h.mayMutate(t, root, memo) {
						res = true
					}
				}
			}
			if mc, ok := ins.(*ssa.MakeClosure); ok && !res {
				if h.mayMutate(mc.Fn.(*ssa.Function), root, memo) {
					res = true
				}
			}
		}
	}
	if res {
		memo[fn] = 1
	}
	return res
}
