package main

// Order analysis: is what a loop over an unordered collection leaves behind independent of the order
// in which the iterations run?
//
// A region is the body of such a loop, or the whole body of a function called from it. Values are
// classified as invariant, injective in the iteration key, dependent on the iteration only, or
// dependent on the order of iterations. Every effect of the region on memory that outlives an
// iteration must commute with the same effect of the other iterations; lists built by appending are
// followed to their uses, each of which must come after a sort or be order-insensitive itself.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ordCls int8

const (
	oInv ordCls = iota
	oKey
	oIter
	oOrd
)

type ordPlace int8

const (
	plFresh ordPlace = iota // created in this iteration
	plOwn                   // belongs to the element of this iteration
	plOuter
)

type ordIssue struct {
	ins ssa.Instruction
	why string
}

type orderAn struct {
	p    *Program
	a    *Alias
	busy map[string]bool
	memo map[string]*region
}

type region struct {
	od      *orderAn
	fn      *ssa.Function
	in      map[*ssa.BasicBlock]bool
	loop    map[*ssa.BasicBlock]bool // part of the region that can start another iteration
	head    *ssa.BasicBlock
	next    *ssa.Next
	ranged  ssa.Value // the collection iterated over
	elems   map[ssa.Value]bool
	cls     map[ssa.Value]ordCls
	parPl   map[*ssa.Parameter]ordPlace
	content map[ssa.Value]ordCls // iteration-local memory: class of what was stored
	wkeys   map[string]bool      // outer memory written by the region
	wnodes  nodeset
	issues  []ordIssue
	appends []ssa.Value // addresses or header phis that collect one element per iteration
	invs    map[string]string
	effects int
	retCls  []ordCls
	depth   int
	pass    int
	root    *region
}

func (od *orderAn) newRegion(fn *ssa.Function) *region {
	return &region{od: od, fn: fn, in: map[*ssa.BasicBlock]bool{}, loop: map[*ssa.BasicBlock]bool{}, elems: map[ssa.Value]bool{}, cls: map[ssa.Value]ordCls{},
		parPl: map[*ssa.Parameter]ordPlace{}, content: map[ssa.Value]ordCls{}, wkeys: map[string]bool{}, wnodes: nodeset{}, invs: map[string]string{}}
}

func (g *region) id() string {
	if g.root != nil {
		return fmt.Sprintf("%p", g.root)
	}
	return fmt.Sprintf("%p", g)
}

func (g *region) inside(v ssa.Value) bool {
	ins, ok := v.(ssa.Instruction)
	return ok && ins.Parent() == g.fn && g.in[ins.Block()]
}

func (g *region) issue(ins ssa.Instruction, f string, a ...interface{}) {
	g.issues = append(g.issues, ordIssue{ins, fmt.Sprintf(f, a...)})
}

func maxCls(a, b ordCls) ordCls {
	if a > b {
		return a
	}
	return b
}

func loose(c ordCls) ordCls {
	if c == oKey {
		return oIter
	}
	return c
}

func (g *region) c(v ssa.Value) ordCls {
	if c, ok := g.cls[v]; ok {
		return c
	}
	return oInv
}

// place tells where the memory a reference points to lives.
func (g *region) place(v ssa.Value) ordPlace { return g.placeD(v, map[ssa.Value]bool{}) }

func (g *region) placeD(v ssa.Value, seen map[ssa.Value]bool) ordPlace {
	if seen[v] {
		return plFresh
	}
	seen[v] = true
	if !g.inside(v) {
		if pr, ok := v.(*ssa.Parameter); ok {
			if pl, ok := g.parPl[pr]; ok {
				return pl
			}
		}
		if _, ok := v.(*ssa.Const); ok {
			return plFresh
		}
		if al, ok := v.(*ssa.Alloc); ok && g.perIteration(al) {
			return plFresh
		}
		return plOuter
	}
	if g.elems[v] {
		return plOwn
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure:
		return plFresh
	case *ssa.FieldAddr:
		return g.placeD(x.X, seen)
	case *ssa.IndexAddr:
		pl := g.placeD(x.X, seen)
		if pl == plOuter && g.c(x.Index) == oKey {
			return plOwn
		}
		return pl
	case *ssa.Slice:
		return g.placeD(x.X, seen)
	case *ssa.ChangeType:
		return g.placeD(x.X, seen)
	case *ssa.Convert:
		return plFresh
	case *ssa.MakeInterface:
		return g.placeD(x.X, seen)
	case *ssa.ChangeInterface:
		return g.placeD(x.X, seen)
	case *ssa.TypeAssert:
		return g.placeD(x.X, seen)
	case *ssa.Field:
		return g.placeD(x.X, seen)
	case *ssa.Phi:
		if x.Block() == g.head && g.next != nil {
			return plOuter
		}
		pl := plFresh
		for _, e := range x.Edges {
			if q := g.placeD(e, seen); q > pl {
				pl = q
			}
		}
		return pl
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			return plOwn
		case *ssa.Lookup:
			return g.lookupPlace(t, seen)
		case *ssa.TypeAssert:
			return g.placeD(t.X, seen)
		case *ssa.Call:
			return g.callPlace(t, x.Index, seen)
		}
		return plOuter
	case *ssa.Lookup:
		return g.lookupPlace(x, seen)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return g.placeD(x.Call.Args[0], seen)
		}
		return g.callPlace(x, 0, seen)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return plOuter
		}
		if al, ok := x.X.(*ssa.Alloc); ok && (g.inside(al) || g.perIteration(al)) {
			pl := plFresh
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al {
					if q := g.placeD(st.Val, seen); q > pl {
						pl = q
					}
				}
			}
			return pl
		}
		pl := g.placeD(x.X, seen)
		if pl == plOwn {
			// reached directly: element of the keyed slot; deeper pointers may be shared
			if _, isPtr := x.Type().Underlying().(*types.Pointer); isPtr {
				if ia, ok := x.X.(*ssa.IndexAddr); ok && g.c(ia.Index) == oKey {
					return plOwn
				}
				return plOuter
			}
			return plOwn
		}
		if pl == plFresh {
			// pointer held in memory made in this iteration: unknown origin unless made here too
			for n := range g.od.a.Of(v) {
				if n.kind == nField && len(n.in) > 0 {
					for m := range n.in {
						if m.kind != nAlloc || !g.inside(m.site) {
							return plOuter
						}
					}
					continue
				}
				if n.kind != nAlloc || !g.inside(n.site) {
					return plOuter
				}
			}
			return plFresh
		}
		return plOuter
	}
	return plOuter
}

func (g *region) lookupPlace(x *ssa.Lookup, seen map[ssa.Value]bool) ordPlace {
	if g.c(x.Index) == oKey {
		return plOwn
	}
	return g.placeD(x.X, seen)
}

func (g *region) callPlace(c *ssa.Call, idx int, seen map[ssa.Value]bool) ordPlace {
	ts := g.od.a.targets(c)
	if len(ts) == 0 {
		// standard library: views of arguments, otherwise new memory
		pl := plFresh
		for _, i := range stdAliasArgs(calleeFullName(c)) {
			if arg := callArg(&c.Call, i); arg != nil {
				if q := g.placeD(arg, seen); q > pl {
					pl = q
				}
			}
		}
		return pl
	}
	pl := plFresh
	for _, t := range ts {
		for _, b := range t.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || idx >= len(ret.Results) {
				continue
			}
			for n := range g.od.a.Of(ret.Results[idx]) {
				switch {
				case n.kind == nAlloc && n.site.Parent() != nil:
				case n.kind == nParam && n.fn == t && n.idx < len(argsFor(&c.Call)):
					if q := g.placeD(argsFor(&c.Call)[n.idx], seen); q > pl {
						pl = q
					}
				default:
					return plOuter
				}
			}
		}
	}
	return pl
}

// perIteration: a variable declared outside the region whose every use lies inside it, after being
// set in the same iteration (a loop variable whose address is taken).
func (g *region) perIteration(al *ssa.Alloc) bool {
	if g.inside(al) || al.Parent() != g.fn || al.Referrers() == nil {
		return false
	}
	var stores []ssa.Instruction
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == al && g.in[st.Block()] {
			stores = append(stores, st)
		}
	}
	if len(stores) == 0 {
		return false
	}
	for _, r := range *al.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		if !g.in[r.Block()] {
			if st, ok := r.(*ssa.Store); ok && st.Addr == al {
				continue
			}
			return false
		}
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == al {
				return false
			}
			continue
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr:
		case *ssa.Call:
			if g.od.retains(x, al) {
				return false
			}
		default:
			return false
		}
		ok := false
		for _, st := range stores {
			if instrDominates(st, r) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// retains: the call's results or other arguments may hold on to the memory of al.
func (od *orderAn) retains(c *ssa.Call, al *ssa.Alloc) bool {
	n := od.a.alloc(al)
	if od.a.Of(c)[n] {
		return true
	}
	if refs := c.Referrers(); refs != nil {
		for _, r := range *refs {
			if e, ok := r.(*ssa.Extract); ok && od.a.Of(e)[n] {
				return true
			}
		}
	}
	// held by a field, a package variable or a container
	for _, m := range od.a.all {
		if (m.kind == nField || m.kind == nGlobal || m.kind == nElem) && m.in[n] {
			return true
		}
	}
	return false
}

func (g *region) writtenOuter(addr ssa.Value) bool {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		if g.wkeys[fieldKeyOf(x.X.Type(), x.Field)] {
			return true
		}
		return g.writtenOuter(x.X) && false
	case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		return g.wkeys["cell:"+cellKey(addr)]
	}
	for n := range g.od.a.Of(addr) {
		if g.wnodes[n] {
			return true
		}
	}
	if ia, ok := addr.(*ssa.IndexAddr); ok {
		for n := range g.od.a.Of(ia.X) {
			if g.wnodes[n] {
				return true
			}
		}
	}
	return false
}

func cellKey(v ssa.Value) string {
	if v.Parent() != nil {
		return v.Parent().String() + "." + v.Name()
	}
	return v.String()
}

func (g *region) markWritten(addr ssa.Value) {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		g.wkeys[fieldKeyOf(x.X.Type(), x.Field)] = true
		return
	case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		g.wkeys["cell:"+cellKey(addr)] = true
		return
	case *ssa.IndexAddr:
		for n := range g.od.a.Of(x.X) {
			g.wnodes[n] = true
		}
		return
	}
	for n := range g.od.a.Of(addr) {
		g.wnodes[n] = true
	}
}

func (g *region) memWritten(v ssa.Value) bool { // container or buffer v was changed by the region
	for n := range g.od.a.Of(v) {
		if g.wnodes[n] {
			return true
		}
	}
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		return g.writtenOuter(ld.X)
	}
	return false
}

// ordered: the block runs only under a condition that depends on iteration order.
func (g *region) ordered(b *ssa.BasicBlock) bool {
	for d := b; d != nil && g.in[d]; d = d.Idom() {
		id := d.Idom()
		if id == nil || !g.in[id] {
			break
		}
		if iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok && g.c(iff.Cond) == oOrd {
			for _, s := range id.Succs {
				if s.Dominates(b) && len(s.Preds) == 1 {
					return true
				}
			}
		}
	}
	return false
}

func rootAlloc(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			if _, ok := x.X.(*ssa.Alloc); !ok {
				return v
			}
			v = x.X
		default:
			return v
		}
	}
}

func (g *region) classify(v ssa.Value) ordCls {
	if g.elems[v] {
		return oKey
	}
	var ops [16]*ssa.Value
	joinOps := func() ordCls {
		c := oInv
		for _, op := range v.(ssa.Instruction).Operands(ops[:0]) {
			if *op != nil {
				c = maxCls(c, loose(g.c(*op)))
			}
		}
		return c
	}
	switch x := v.(type) {
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if nx == g.next {
				switch x.Index {
				case 0:
					return oInv
				case 1:
					return oKey
				}
				return oIter
			}
			return oIter
		}
		return g.c(x.Tuple)
	case *ssa.Phi:
		if x.Block() == g.head {
			return oOrd
		}
		c := oInv
		for i, e := range x.Edges {
			if i == 0 {
				c = g.c(e)
			} else {
				n := g.c(e)
				if n != c || n == oKey {
					n = loose(n)
					c = loose(c)
				}
				c = maxCls(c, n)
			}
		}
		// which edge was taken may itself depend on order
		for _, pr := range x.Block().Preds {
			if g.in[pr] {
				id := x.Block().Idom()
				for d := pr; d != nil && g.in[d]; d = d.Idom() {
					if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && g.c(iff.Cond) == oOrd {
						return oOrd
					}
					if d == id {
						break
					}
				}
			}
		}
		return c
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return joinOps()
		}
		switch g.place(x.X) {
		case plFresh:
			root := rootAlloc(x.X)
			return maxCls(g.content[root], g.c(x.X)*0)
		case plOwn:
			return oIter
		}
		if g.writtenOuter(x.X) {
			return oOrd
		}
		return loose(g.c(x.X))
	case *ssa.Lookup:
		ci := g.c(x.Index)
		pl := g.place(x.X)
		if pl == plFresh {
			return maxCls(loose(ci), g.content[rootAlloc(x.X)])
		}
		if ci == oKey || pl == plOwn {
			return oIter
		}
		if pl == plOuter && g.memWritten(x.X) {
			return oOrd
		}
		return maxCls(loose(ci), loose(g.c(x.X)))
	case *ssa.Next:
		return oIter
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.MakeChan:
		return oInv
	case *ssa.BinOp:
		a, b := g.c(x.X), g.c(x.Y)
		if (x.Op == token.ADD || x.Op == token.SUB) && (a == oKey && b == oInv || a == oInv && b == oKey) {
			return oKey
		}
		return maxCls(loose(a), loose(b))
	case *ssa.Convert:
		return g.c(x.X)
	case *ssa.ChangeType:
		return g.c(x.X)
	case *ssa.MakeInterface:
		return g.c(x.X)
	case *ssa.ChangeInterface:
		return g.c(x.X)
	case *ssa.TypeAssert:
		return g.c(x.X)
	case *ssa.Slice:
		c := joinOps()
		if g.inside(x.X) || true {
			if root := rootAlloc(x.X); root != x.X || g.content[root] > 0 {
				c = maxCls(c, g.content[root])
			}
		}
		return c
	case *ssa.Call:
		return g.callClass(x)
	}
	return joinOps()
}

func (g *region) callClass(x *ssa.Call) ordCls {
	name := calleeFullName(x)
	if name == "fmt.Sprintf" || name == "fmt.Sprint" {
		if vs, ok := variadic(x.Call.Args[len(x.Call.Args)-1]); ok {
			keys, rest := 0, oInv
			for _, v := range vs {
				c := g.c(unwrapIface(v))
				if c == oKey {
					keys++
				} else {
					rest = maxCls(rest, c)
				}
			}
			if keys == 1 && rest == oInv {
				return oKey
			}
			if keys > 0 {
				return maxCls(oIter, rest)
			}
			return rest
		}
	}
	c := oInv
	args := argsFor(&x.Call)
	for _, a := range args {
		c = maxCls(c, loose(g.c(a)))
		root := rootAlloc(a)
		if cc, ok := g.content[root]; ok {
			c = maxCls(c, cc)
		}
		if _, isRef := a.Type().Underlying().(*types.Basic); !isRef && g.place(a) == plOuter && g.memWritten(a) {
			c = oOrd
		}
	}
	if ts := g.od.a.targets(x); len(ts) > 0 {
		for _, t := range ts {
			if sub := g.sub(x, t); sub != nil {
				for _, rc := range sub.retCls {
					if rc == oOrd {
						c = oOrd
					}
				}
				_ = sub
			}
		}
	}
	switch name {
	case "strconv.Itoa", "strconv.FormatInt", "strconv.Quote":
		if len(args) > 0 && g.c(args[0]) == oKey && c == oIter {
			return oKey
		}
	case "time.Now":
		return oOrd
	}
	return c
}

// sub analyses a module function called from the region, with its parameters classified by the call.
func (g *region) sub(c ssa.CallInstruction, t *ssa.Function) *region {
	if g.depth > 5 || len(t.Blocks) == 0 {
		return nil
	}
	s := g.od.newRegion(t)
	s.depth = g.depth + 1
	s.root = g.root
	if s.root == nil {
		s.root = g
	}
	key := t.String()
	for i, a := range argsFor(c.Common()) {
		if i >= len(t.Params) {
			break
		}
		pr := t.Params[i]
		s.cls[pr] = g.c(a)
		if cc, ok := g.content[rootAlloc(a)]; ok {
			s.cls[pr] = maxCls(s.cls[pr], cc)
		}
		s.parPl[pr] = g.place(a)
		if k, ok := a.(*ssa.Const); ok && k.IsNil() {
			s.parPl[pr] = plFresh
		}
		key += fmt.Sprintf("|%d.%d", s.cls[pr], s.parPl[pr])
	}
	if g.od.busy[key] {
		return nil
	}
	// what the callee reads of the memory the region has written so far
	mkey := key + fmt.Sprintf("|%d|%d|%d|%s", s.depth, len(g.wkeys), len(g.wnodes), g.id())
	if g.od.memo == nil {
		g.od.memo = map[string]*region{}
	}
	if m, ok := g.od.memo[mkey]; ok {
		return m
	}
	defer func() { g.od.memo[mkey] = s }()
	g.od.busy[key] = true
	defer delete(g.od.busy, key)
	for _, b := range t.Blocks {
		s.in[b] = true
		s.loop[b] = true
	}
	for k := range g.wkeys {
		s.wkeys[k] = true
	}
	for n := range g.wnodes {
		s.wnodes[n] = true
	}
	s.run()
	return s
}

// run classifies the values of the region and judges its effects.
func (g *region) run() {
	for pass := 0; pass < 2; pass++ {
		for changed, round := true, 0; changed && round < 12; round++ {
			changed = false
			for _, b := range g.fn.Blocks {
				if !g.in[b] {
					continue
				}
				for _, ins := range b.Instrs {
					if v, ok := ins.(ssa.Value); ok {
						if c := g.classify(v); c > g.cls[v] {
							g.cls[v] = c
							changed = true
						}
					}
					if st, ok := ins.(*ssa.Store); ok && g.place(st.Addr) == plFresh {
						root := rootAlloc(st.Addr)
						if c := loose(g.c(st.Val)); c > g.content[root] {
							g.content[root] = c
							changed = true
						}
						if g.content[root] == 0 {
							g.content[root] = 0
						}
					}
					if mu, ok := ins.(*ssa.MapUpdate); ok && g.place(mu.Map) == plFresh {
						root := rootAlloc(mu.Map)
						if c := maxCls(loose(g.c(mu.Value)), loose(g.c(mu.Key))); c > g.content[root] {
							g.content[root] = c
							changed = true
						}
					}
					if call, ok := ins.(ssa.CallInstruction); ok {
						// data written into local buffers
						for _, w := range g.stdWritten(call) {
							if g.place(w) == plFresh {
								root := rootAlloc(w)
								for _, a := range argsFor(call.Common()) {
									c := loose(g.c(a))
									if vs, ok := variadic(a); ok {
										for _, v := range vs {
											c = maxCls(c, loose(g.c(unwrapIface(v))))
										}
									}
									if a != w && c > g.content[root] {
										g.content[root] = c
										changed = true
									}
								}
							}
						}
					}
				}
			}
		}
		g.issues, g.appends, g.effects = nil, nil, 0
		g.invs = map[string]string{}
		g.pass = pass
		for _, b := range g.fn.Blocks {
			if !g.in[b] {
				continue
			}
			for _, ins := range b.Instrs {
				g.judge(ins)
			}
		}
	}
	for _, b := range g.fn.Blocks {
		if !g.in[b] || g.head != nil {
			continue
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for i, v := range ret.Results {
				for len(g.retCls) <= i {
					g.retCls = append(g.retCls, oInv)
				}
				c := g.c(v)
				if g.ordered(b) {
					c = oOrd
				}
				g.retCls[i] = maxCls(g.retCls[i], c)
			}
		}
	}
}

// stdWritten lists the arguments a standard library call writes to.
func (g *region) stdWritten(c ssa.CallInstruction) []ssa.Value {
	if len(g.od.a.targets(c)) > 0 {
		return nil
	}
	com := c.Common()
	name := calleeFullName(c)
	var out []ssa.Value
	if name == "builtin.append" {
		return nil
	}
	for _, i := range stdWrites(name) {
		if v := callArg(com, i); v != nil {
			out = append(out, v)
		}
	}
	if strings.HasPrefix(name, "fmt.Fprint") || name == "io.WriteString" || name == "encoding/binary.Write" || name == "io.Copy" {
		out = append(out, com.Args[0])
	}
	if isWriterMethod(name) || (strings.HasPrefix(name, "(*") && statefulMethod(name)) {
		if com.IsInvoke() {
			out = append(out, com.Value)
		} else if len(com.Args) > 0 {
			out = append(out, com.Args[0])
		}
	}
	return out
}

// statefulMethod: methods of standard library types whose order of calls matters.
func statefulMethod(name string) bool {
	for _, pre := range []string{"(*encoding/xml.Encoder).", "(*encoding/json.Encoder).", "(*compress/", "(*bufio.", "(*text/", "(*strings.Builder).Write", "(*bytes.Buffer).Write", "(*bytes.Buffer).Reset", "(*strings.Builder).Reset"} {
		if strings.HasPrefix(name, pre) {
			return true
		}
	}
	return false
}

func isPrintCall(name string) bool {
	return strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.Logger).") || strings.HasPrefix(name, "builtin.print")
}

func (g *region) judge(ins ssa.Instruction) {
	ctrl := g.ordered(ins.Block())
	switch x := ins.(type) {
	case *ssa.Store:
		pl := g.place(x.Addr)
		if pl == plFresh {
			return
		}
		val := g.c(x.Val)
		if pl == plOwn {
			if val == oOrd || ctrl {
				g.issue(ins, "stores a value that depends on the order of iterations")
			}
			g.effects++
			return
		}
		g.markWritten(x.Addr)
		g.effects++
		switch {
		case g.isAppendTo(x.Val, x.Addr):
			if ctrl {
				g.issue(ins, "which elements are collected depends on the order of iterations")
			}
			g.appends = append(g.appends, x.Addr)
		case val == oOrd && g.commutes(x.Val, x.Addr):
		case g.minmaxStore(x):
		case val == oInv:
			if k := g.addrKey(x.Addr); k != "" {
				if old, ok := g.invs[k]; ok && old != valKey(x.Val) {
					g.issue(ins, "the last iteration to run decides which of several values is kept")
				}
				g.invs[k] = valKey(x.Val)
			}
			if ctrl {
				g.issue(ins, "stores under a condition that depends on the order of iterations")
			}
		default:
			g.issue(ins, "keeps the value of whichever iteration runs last")
		}
	case *ssa.MapUpdate:
		pl := g.place(x.Map)
		if pl == plFresh {
			return
		}
		g.effects++
		if pl == plOwn {
			if g.c(x.Value) == oOrd || ctrl {
				g.issue(ins, "stores a value that depends on the order of iterations")
			}
			return
		}
		for n := range g.od.a.Of(x.Map) {
			g.wnodes[n] = true
		}
		k, v := g.c(x.Key), g.c(x.Value)
		same := g.ranged != nil && sameValue(x.Map, g.ranged)
		switch {
		case k == oKey && v != oOrd && !ctrl:
			if same && !g.isRangeKey(x.Key) {
				g.issue(ins, "adds entries to the map while iterating over it")
			}
		case k == oKey && !ctrl && g.selfUpdate(x):
		case k <= oIter && v == oInv && !ctrl:
			if same {
				g.issue(ins, "adds entries to the map while iterating over it")
			}
		case k <= oIter && g.commutesMap(x):
		default:
			if k == oKey {
				g.issue(ins, "stores a value that depends on the order of iterations")
			} else {
				g.issue(ins, "two iterations may set the same map entry; the last one to run wins")
			}
		}
	case *ssa.Send:
		g.issue(ins, "sends values in iteration order")
	case *ssa.Go:
		g.issue(ins, "starts goroutines in iteration order")
	case *ssa.Select:
		g.issue(ins, "selects in iteration order")
	case *ssa.Return:
		// handled as an exit for loops
	case ssa.CallInstruction:
		g.judgeCall(x, ctrl)
	}
}

func valKey(v ssa.Value) string {
	if k, ok := v.(*ssa.Const); ok {
		return "const " + k.String()
	}
	return fmt.Sprintf("%p", v)
}

func (g *region) addrKey(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return fieldKeyOf(x.X.Type(), x.Field)
	case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		return cellKey(a)
	}
	return ""
}

func (g *region) isRangeKey(v ssa.Value) bool {
	e, ok := v.(*ssa.Extract)
	return ok && g.next != nil && e.Tuple == g.next && e.Index == 1
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	fa, ok1 := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 && fa.Field == fb.Field && types.Identical(fa.X.Type(), fb.X.Type()) {
		return sameAddr(fa.X, fb.X) || sameValue(fa.X, fb.X)
	}
	ia, ok1 := a.(*ssa.IndexAddr)
	ib, ok2 := b.(*ssa.IndexAddr)
	if ok1 && ok2 {
		return sameValue(ia.Index, ib.Index) && (sameAddr(ia.X, ib.X) || sameValue(ia.X, ib.X))
	}
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && la.Op == token.MUL && lb.Op == token.MUL {
		return sameAddr(la.X, lb.X)
	}
	return false
}

func isLoadOf(v, addr ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	return ok && u.Op == token.MUL && sameAddr(u.X, addr)
}

// isAppendTo: v is the list at addr with elements of this iteration appended.
func (g *region) isAppendTo(v, addr ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
		return false
	}
	if !isLoadOf(c.Call.Args[0], addr) && !g.isAppendTo(c.Call.Args[0], addr) {
		return false
	}
	return g.appendedCls(c) != oOrd
}

func (g *region) appendedCls(c *ssa.Call) ordCls {
	cl := oInv
	for _, a := range c.Call.Args[1:] {
		if vs, ok := variadic(a); ok {
			for _, v := range vs {
				cl = maxCls(cl, g.c(v))
				if cc, ok := g.content[rootAlloc(v)]; ok {
					cl = maxCls(cl, cc)
				}
			}
			continue
		}
		cl = maxCls(cl, g.c(a))
	}
	return cl
}

func intLike(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

func commutativeOp(op token.Token) bool {
	switch op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		return true
	}
	return false
}

// commutes: v is (load of addr) op x with a commutative integer operator.
func (g *region) commutes(v, addr ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || !intLike(b.Type()) {
		return false
	}
	if isLoadOf(b.X, addr) && g.c(b.Y) != oOrd && (commutativeOp(b.Op) || b.Op == token.SUB) {
		return true
	}
	return isLoadOf(b.Y, addr) && g.c(b.X) != oOrd && commutativeOp(b.Op)
}

func (g *region) selfUpdate(x *ssa.MapUpdate) bool { // m[k] = f(m[k]) on the entry of this iteration
	return g.commutesMap(x) || g.appendsMap(x)
}

func (g *region) ownEntry(v ssa.Value, x *ssa.MapUpdate) bool {
	l, ok := v.(*ssa.Lookup)
	if !ok {
		if e, ok2 := v.(*ssa.Extract); ok2 {
			l, ok = e.Tuple.(*ssa.Lookup)
		}
	}
	return ok && sameValue(l.X, x.Map) && sameValue(l.Index, x.Key)
}

func (g *region) commutesMap(x *ssa.MapUpdate) bool {
	b, ok := x.Value.(*ssa.BinOp)
	if !ok || !intLike(b.Type()) || !commutativeOp(b.Op) {
		return false
	}
	return g.ownEntry(b.X, x) && g.c(b.Y) != oOrd || g.ownEntry(b.Y, x) && g.c(b.X) != oOrd
}

func (g *region) appendsMap(x *ssa.MapUpdate) bool {
	c, ok := x.Value.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append" && g.ownEntry(c.Call.Args[0], x) && g.appendedCls(c) != oOrd
}

// minmaxStore: if x > *addr { *addr = x }.
func (g *region) minmaxStore(st *ssa.Store) bool {
	for d := st.Block(); d != nil && g.in[d]; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			break
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		b, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !ordOp(b.Op) {
			continue
		}
		val := stripOffset(st.Val)
		if g.sameExpr(b.X, val) && isLoadOf(b.Y, st.Addr) || g.sameExpr(b.Y, val) && isLoadOf(b.X, st.Addr) {
			return g.c(st.Val) != oOrd
		}
	}
	return false
}

// stripOffset: v without a constant added to it.
func stripOffset(v ssa.Value) ssa.Value {
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if _, ok := b.Y.(*ssa.Const); ok {
			return b.X
		}
		if _, ok := b.X.(*ssa.Const); ok && b.Op == token.ADD {
			return b.Y
		}
	}
	return v
}

// sameExpr: two computations of the same expression, over memory the region does not change.
func (g *region) sameExpr(a, b ssa.Value) bool {
	if sameValue(a, b) {
		return true
	}
	switch x := a.(type) {
	case *ssa.Convert:
		y, ok := b.(*ssa.Convert)
		return ok && types.Identical(x.Type(), y.Type()) && g.sameExpr(x.X, y.X)
	case *ssa.ChangeType:
		y, ok := b.(*ssa.ChangeType)
		return ok && g.sameExpr(x.X, y.X)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		if !ok || x.Op != y.Op {
			return false
		}
		if x.Op == token.MUL {
			return sameAddr(x.X, y.X) && !g.writtenOuter(x.X)
		}
		return g.sameExpr(x.X, y.X)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && g.sameExpr(x.X, y.X)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok || len(x.Call.Args) != 1 || len(y.Call.Args) != 1 {
			return false
		}
		n := calleeFullName(x)
		return n == calleeFullName(y) && n == "builtin.len" && g.sameExpr(x.Call.Args[0], y.Call.Args[0])
	}
	return false
}

func ordOp(op token.Token) bool {
	return op == token.LSS || op == token.GTR || op == token.LEQ || op == token.GEQ
}

func (g *region) judgeCall(c ssa.CallInstruction, ctrl bool) {
	com := c.Common()
	name := calleeFullName(c)
	if _, ok := c.(*ssa.Defer); ok && g.root == nil {
		g.issue(c, "defers calls in iteration order")
		return
	}
	if isPrintCall(name) || name == "builtin.append" || name == "builtin.panic" {
		return
	}
	if name == "builtin.delete" {
		if g.place(com.Args[0]) == plOuter {
			for n := range g.od.a.Of(com.Args[0]) {
				g.wnodes[n] = true
			}
			g.effects++
			if ctrl || g.c(com.Args[1]) == oOrd {
				g.issue(c, "deletes depending on the order of iterations")
			}
		}
		return
	}
	ts := g.od.a.targets(c)
	if len(ts) == 0 {
		for _, w := range g.stdWritten(c) {
			pl := g.place(w)
			if pl == plOuter {
				g.markWritten(w)
				for n := range g.od.a.Of(w) {
					g.wnodes[n] = true
				}
				g.effects++
				if strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort") {
					continue
				}
				g.issue(c, "writes to the output in iteration order (%s)", name)
			}
		}
		if name == "" && com.StaticCallee() == nil && !com.IsInvoke() {
			g.issue(c, "calls an unknown function once per iteration")
		}
		return
	}
	for _, t := range ts {
		s := g.sub(c, t)
		if s == nil {
			continue
		}
		for k := range s.wkeys {
			g.wkeys[k] = true
		}
		for n := range s.wnodes {
			g.wnodes[n] = true
		}
		g.effects += s.effects
		for _, a := range s.appends {
			s.issue(c, "appends to a list in iteration order (%s)", g.od.p.InstrPos(instrOf(a, c)))
		}
		if ctrl && s.effects > 0 {
			g.issue(c, "calls %s under a condition that depends on the order of iterations", g.od.p.FuncName(t))
		}
		if len(s.issues) > 0 {
			g.issue(c, "%s: %s at %s", g.od.p.FuncName(t), s.issues[0].why, g.od.p.InstrPos(s.issues[0].ins))
		}
	}
}

func instrOf(v ssa.Value, def ssa.Instruction) ssa.Instruction {
	if i, ok := v.(ssa.Instruction); ok {
		return i
	}
	return def
}

// ---- loops ----

// loopRegion builds the region of the loop with the given head block; body is its entry.
func (od *orderAn) loopRegion(head, body *ssa.BasicBlock) *region {
	g := od.newRegion(head.Parent())
	g.head = head
	g.in[head] = true
	for _, b := range head.Parent().Blocks {
		if body.Dominates(b) {
			g.in[b] = true
		}
	}
	// natural loop part
	work := []*ssa.BasicBlock{}
	for _, pr := range head.Preds {
		if g.in[pr] && pr != head {
			work = append(work, pr)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if g.loop[b] || !g.in[b] || b == head {
			continue
		}
		g.loop[b] = true
		work = append(work, b.Preds...)
	}
	return g
}

// checkLoop judges a loop; it returns the issues and the lists it builds.
func (g *region) checkLoop() (issues []ordIssue, lists []ssa.Value) {
	g.run()
	issues = append(issues, g.issues...)
	lists = append(lists, g.appends...)
	liveOut := 0
	// values carried from iteration to iteration
	for _, ins := range g.head.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		outside := false
		for _, r := range *phi.Referrers() {
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			if !g.in[r.Block()] || (r.Block() != g.head && !g.loop[r.Block()]) {
				outside = true
			}
		}
		if !outside {
			// may still leave through inner values (phi updated in the last iteration)
			continue
		}
		liveOut++
		kind, bad := g.carried(phi)
		if bad != "" {
			issues = append(issues, ordIssue{phi, bad})
			continue
		}
		if kind == "append" {
			lists = append(lists, phi)
		}
	}
	// leaving early
	type exit struct {
		from   *ssa.BasicBlock
		ret    *ssa.Return
		to     *ssa.BasicBlock
		unique bool
	}
	var exits []exit
	for _, b := range g.fn.Blocks {
		if !g.in[b] || b == g.head {
			continue
		}
		last := b.Instrs[len(b.Instrs)-1]
		if ret, ok := last.(*ssa.Return); ok {
			exits = append(exits, exit{b, ret, nil, g.uniqueMatch(b)})
			continue
		}
		for _, s := range b.Succs {
			if !g.in[s] {
				exits = append(exits, exit{b, nil, s, g.uniqueMatch(b)})
			}
		}
	}
	var first *exit
	for i := range exits {
		e := &exits[i]
		where := ssa.Instruction(e.from.Instrs[len(e.from.Instrs)-1])
		if (g.effects > 0 || liveOut > 0) && !e.unique {
			issues = append(issues, ordIssue{where, "leaves the loop early: which elements were handled before depends on the order of iterations"})
			continue
		}
		var vals []ssa.Value
		if e.ret != nil {
			vals = e.ret.Results
		} else {
			for _, ins := range e.to.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				for j, pr := range e.to.Preds {
					if pr == e.from {
						vals = append(vals, phi.Edges[j])
					}
				}
			}
		}
		limit := oInv
		if e.unique {
			limit = oIter
		}
		for _, v := range vals {
			if isErrorType(v.Type()) && g.c(v) <= limit {
				continue
			}
			if g.c(v) > limit || g.content[rootAlloc(v)] > limit {
				issues = append(issues, ordIssue{where, "leaves the loop with a value of whichever matching element comes first"})
				break
			}
		}
		if !e.unique {
			if first == nil {
				first = e
			} else if e.ret != nil && first.ret != nil && !sameResults(e.ret, first.ret) || e.to != first.to {
				issues = append(issues, ordIssue{where, "several early exits: the element that comes first decides which is taken"})
			}
		}
	}
	return
}

func sameResults(a, b *ssa.Return) bool {
	for i := range a.Results {
		if valKey(a.Results[i]) != valKey(b.Results[i]) {
			return false
		}
	}
	return true
}

// uniqueMatch: the block runs only for the one element whose key equals a fixed value.
func (g *region) uniqueMatch(b *ssa.BasicBlock) bool {
	for d := b; d != nil && g.in[d]; d = d.Idom() {
		id := d.Idom()
		if id == nil || !g.in[id] {
			break
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		s := 0
		if c.Op == token.NEQ {
			s = 1
		} else if c.Op != token.EQL {
			continue
		}
		if !(id.Succs[s].Dominates(b) && len(id.Succs[s].Preds) == 1) {
			continue
		}
		a, e := g.c(c.X), g.c(c.Y)
		if a == oKey && e == oInv || a == oInv && e == oKey {
			return true
		}
	}
	return false
}

// carried judges how a loop-carried value is updated.
func (g *region) carried(phi *ssa.Phi) (kind, bad string) {
	kinds := map[string]bool{}
	inv := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value, from *ssa.BasicBlock) // v becomes the next value
	traces := func(v ssa.Value) bool { return g.tracesTo(v, phi, map[ssa.Value]bool{}) }
	visit = func(v ssa.Value, from *ssa.BasicBlock) {
		if v == phi {
			return
		}
		if x, ok := v.(*ssa.Phi); ok && g.inside(x) && x.Block() != g.head {
			if seen[v] {
				return
			}
			seen[v] = true
			for i, e := range x.Edges {
				visit(e, x.Block().Preds[i])
			}
			return
		}
		if call, ok := v.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "append":
					if traces(call.Call.Args[0]) && g.appendedCls(call) != oOrd && !g.ordered(call.Block()) {
						kinds["append"] = true
						visit(call.Call.Args[0], from)
						return
					}
				case "min", "max":
					ok := false
					for _, a := range call.Call.Args {
						if traces(a) {
							ok = true
						}
					}
					if ok {
						kinds[b.Name()] = true
						return
					}
				}
			}
		}
		if b, ok := v.(*ssa.BinOp); ok && intLike(b.Type()) && (commutativeOp(b.Op) || b.Op == token.SUB) {
			op := b.Op.String()
			if b.Op == token.SUB {
				op = "+"
			}
			if traces(b.X) && g.c(b.Y) != oOrd || traces(b.Y) && g.c(b.X) != oOrd && b.Op != token.SUB {
				if !g.ordered(b.Block()) {
					kinds[op] = true
					if traces(b.X) {
						visit(b.X, from)
					} else {
						visit(b.Y, from)
					}
					return
				}
			}
		}
		if g.c(v) == oInv {
			kinds["set"] = true
			inv[valKey(v)] = true
			return
		}
		// min / max by comparison
		if g.c(v) != oOrd && from != nil {
			for d := from; d != nil && g.in[d]; d = d.Idom() {
				id := d
				if iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok {
					if b, ok := iff.Cond.(*ssa.BinOp); ok && ordOp(b.Op) {
						if w := stripOffset(v); g.sameExpr(b.X, w) && traces(b.Y) || g.sameExpr(b.Y, w) && traces(b.X) {
							kinds["minmax"] = true
							return
						}
					}
				}
			}
		}
		bad = "keeps the value of whichever iteration runs last, or joins values in iteration order"
	}
	for i, e := range phi.Edges {
		if g.in[phi.Block().Preds[i]] {
			visit(e, phi.Block().Preds[i])
		}
	}
	if bad == "" && (len(kinds) > 1 || len(inv) > 1) {
		bad = "is updated in ways that do not commute"
	}
	if bad != "" {
		return "", bad
	}
	for k := range kinds {
		kind = k
	}
	return kind, ""
}

func (g *region) tracesTo(v ssa.Value, phi *ssa.Phi, seen map[ssa.Value]bool) bool {
	if v == phi {
		return true
	}
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		if !g.inside(x) {
			return false
		}
		for _, e := range x.Edges {
			if !g.tracesTo(e, phi, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return g.tracesTo(x.Call.Args[0], phi, seen)
		}
	case *ssa.BinOp:
		if intLike(x.Type()) && (commutativeOp(x.Op) || x.Op == token.SUB) {
			return g.tracesTo(x.X, phi, seen) && g.c(x.Y) != oOrd || g.tracesTo(x.Y, phi, seen) && g.c(x.X) != oOrd
		}
	}
	return false
}
