package main

// C04: the same calls give the same results. Sources of nondeterminism in a Go program without
// goroutines are the iteration order of maps, the clock, random numbers, addresses turned into
// values, and select among several ready channels. Every one in the library must be on the list of
// those the property allows, or must not reach a result.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C04"] = checkC04 }

type orderCheck struct {
	od   *orderAn
	r    *Result
	p    *Program
	done map[string]bool
}

func isSortCall(name string) bool {
	switch name {
	case "sort.Ints", "sort.Strings", "sort.Float64s", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable",
		"slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		return true
	}
	return false
}

func genericName(name string) string {
	if i := strings.Index(name, "["); i > 0 && !strings.HasPrefix(name, "(") {
		return name[:i]
	}
	return name
}

func checkC04(p *Program, tier string) *Result {
	r := &Result{}
	a := p.Alias()
	oc := &orderCheck{od: &orderAn{p: p, a: a, busy: map[string]bool{}}, r: r, p: p, done: map[string]bool{}}
	for _, fn := range p.Lib {
		r.Count("functions", 1)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Next:
					if x.IsString {
						continue
					}
					rg, ok := x.Iter.(*ssa.Range)
					if !ok {
						continue
					}
					if _, ok := rg.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					r.Count("map loops", 1)
					iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
					if !ok {
						continue
					}
					if os.Getenv("PDF_DEBUG") != "" {
						fmt.Println("maploop", p.InstrPos(x))
					}
					g := oc.od.loopRegion(b, b.Succs[0])
					_ = iff
					g.next, g.ranged = x, rg.X
					oc.loop(g, x, "map order")
				case *ssa.Select:
					if len(x.States) > 1 {
						r.Violate("select", p.FuncName(fn), p.InstrPos(x), "%s chooses among ready channels at random", p.FuncName(fn))
					}
				case ssa.CallInstruction:
					oc.source(fn, x)
				}
			}
		}
	}
	r.Floor("map loops", 5)
	r.Floor("functions", 400)
	r.Floor("clock or random uses", 5)

	r.Explanation = "every loop over a map: the effects of one iteration on what outlives it must commute with those of the others, lists collected in it must be sorted before any use that depends on their order; every use of the clock, of random numbers, of printed addresses and of select is on the list the property allows"
	return r
}

func (oc *orderCheck) loop(g *region, at ssa.Instruction, what string) {
	key := fmt.Sprintf("%p", at)
	if oc.done[key] {
		return
	}
	oc.done[key] = true
	issues, lists := g.checkLoop()
	fn := at.Parent()
	for i, is := range issues {
		if i > 0 {
			break
		}
		oc.r.Violate("order", oc.p.FuncName(fn)+"|"+rangedName(g.ranged), oc.p.InstrPos(at), "%s iterates in unspecified order (%s) and %s (%s)", oc.p.FuncName(fn), what, is.why, oc.p.InstrPos(is.ins))
	}
	if len(issues) > 0 {
		return
	}
	oc.r.Sample("%s: loop in %s, effects commute, %d list(s) followed", oc.p.InstrPos(at), oc.p.FuncName(fn), len(lists))
	for _, l := range lists {
		oc.list(l, g, at)
	}
}

func rangedName(v ssa.Value) string {
	if v == nil {
		return "-"
	}
	return types.TypeString(v.Type(), func(p *types.Package) string { return p.Name() })
}

// ---- lists in unspecified order ----

type listTrack struct {
	oc     *orderCheck
	fn     *ssa.Function
	vals   map[ssa.Value]bool
	addrs  []ssa.Value
	skip   func(*ssa.BasicBlock) bool
	sorts  map[ssa.Instruction]bool
	origin string
}

func (oc *orderCheck) list(l ssa.Value, g *region, at ssa.Instruction) {
	oc.r.Count("lists followed", 1)
	t := &listTrack{oc: oc, fn: g.fn, vals: map[ssa.Value]bool{}, sorts: map[ssa.Instruction]bool{}, origin: oc.p.InstrPos(at)}
	t.skip = func(b *ssa.BasicBlock) bool { return b != g.head && g.loop[b] }
	if _, isPhi := l.(*ssa.Phi); isPhi {
		t.vals[l] = true
	} else {
		t.addrs = append(t.addrs, l)
	}
	// start: the first instruction after the loop (every block outside the loop reachable from head)
	var starts []*ssa.BasicBlock
	for _, s := range g.head.Succs {
		if !g.loop[s] && s != g.head {
			starts = append(starts, s)
		}
	}
	for b := range g.loop {
		for _, s := range b.Succs {
			if !g.loop[s] && s != g.head {
				starts = append(starts, s)
			}
		}
	}
	t.run(starts, 0, 0)
}

func (t *listTrack) isAlias(v ssa.Value) bool {
	if t.vals[v] {
		return true
	}
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		for _, a := range t.addrs {
			if sameAddr(ld.X, a) {
				return true
			}
		}
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		return t.isAlias(x.X)
	case *ssa.MakeInterface:
		return t.isAlias(x.X)
	case *ssa.Slice:
		return x.Low == nil && x.High == nil && t.isAlias(x.X)
	}
	return false
}

// grow finds the other names of the list.
func (t *listTrack) grow() {
	for changed := true; changed; {
		changed = false
		for _, b := range t.fn.Blocks {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || t.vals[v] {
					if st, ok := ins.(*ssa.Store); ok && t.isAlias(st.Val) {
						// kept in a local variable or a field
						known := false
						for _, a := range t.addrs {
							if sameAddr(a, st.Addr) {
								known = true
							}
						}
						if !known {
							t.addrs = append(t.addrs, st.Addr)
							changed = true
						}
					}
					continue
				}
				hit := t.isAlias(v)
				if !hit {
					switch x := v.(type) {
					case *ssa.Phi:
						if !t.skip(x.Block()) {
							for i, e := range x.Edges {
								if t.isAlias(e) && !t.skip(x.Block().Preds[i]) {
									hit = true
								}
							}
						}
					case *ssa.Call:
						if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && !t.skip(b) {
							for _, a := range x.Call.Args {
								if t.isAlias(a) {
									hit = true
								}
							}
						}
						if n := genericName(calleeFullName(x)); n == "slices.Clone" && t.isAlias(x.Call.Args[0]) {
							hit = true
						}
						if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" && t.isAlias(x.Call.Args[1]) && !t.vals[x.Call.Args[0]] {
							t.vals[x.Call.Args[0]] = true
							changed = true
						}
					}
				}
				if hit {
					t.vals[v] = true
					changed = true
				}
			}
		}
	}
}

// sorted: after this instruction the list is in a fixed order.
func (t *listTrack) sorted(ins ssa.Instruction, depth int) bool {
	c, ok := ins.(*ssa.Call)
	if !ok {
		return false
	}
	name := genericName(calleeFullName(c))
	if isSortCall(name) {
		if len(c.Call.Args) > 1 && partialOrder(c.Call.Args[1]) {
			return false
		}
		return t.sortsArg(c.Call.Args[0])
	}
	if depth > 2 {
		return false
	}
	for _, callee := range t.oc.od.a.targets(c) {
		for i, a := range argsFor(&c.Call) {
			if i < len(callee.Params) && t.sortsArg(a) && sortsParam(t.oc, callee, i, depth) {
				return true
			}
		}
	}
	return false
}

// partialOrder: the comparison looks at one lossy property of the elements, such as their length, so
// that different elements compare equal and keep their unspecified order.
func partialOrder(less ssa.Value) bool {
	var fn *ssa.Function
	switch x := less.(type) {
	case *ssa.MakeClosure:
		fn, _ = x.Fn.(*ssa.Function)
	case *ssa.Function:
		fn = x
	case *ssa.ChangeType:
		return partialOrder(x.X)
	}
	if fn == nil {
		return false
	}
	cmps, lossyCmps := 0, 0
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.BinOp:
				if x.Op == token.LSS || x.Op == token.GTR || x.Op == token.LEQ || x.Op == token.GEQ || x.Op == token.SUB && len(fn.Params) == 2 && intLike(x.Type()) {
					cmps++
					if lossy(x.X) && lossy(x.Y) {
						lossyCmps++
					}
				}
			case *ssa.Call:
				if !strings.HasPrefix(calleeFullName(x), "builtin.") && intLike(x.Type()) && len(x.Call.Args) == 2 {
					cmps++
					if lossy(x.Call.Args[0]) && lossy(x.Call.Args[1]) {
						lossyCmps++
					}
				}
			}
		}
	}
	return cmps > 0 && cmps == lossyCmps
}

func lossy(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		switch calleeFullName(x) {
		case "builtin.len", "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Count", "strings.Index":
			return true
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO, token.REM, token.SHR, token.AND:
			return true
		}
	case *ssa.Lookup:
		_, isStr := x.X.Type().Underlying().(*types.Basic)
		return isStr // one byte of a string
	}
	return false
}

func (t *listTrack) sortsArg(a ssa.Value) bool {
	for {
		if t.isAlias(a) {
			return true
		}
		switch x := a.(type) {
		case *ssa.MakeInterface:
			a = x.X
		case *ssa.ChangeType:
			a = x.X
		case *ssa.Call:
			if calleeFullName(x) != "sort.Reverse" {
				return false
			}
			a = x.Call.Args[0]
		default:
			return false
		}
	}
}

// sortsParam: the function sorts its parameter on every path (or when there is more than one element).
func sortsParam(oc *orderCheck, fn *ssa.Function, i, depth int) bool {
	t := &listTrack{oc: oc, fn: fn, vals: map[ssa.Value]bool{fn.Params[i]: true}, skip: func(*ssa.BasicBlock) bool { return false }}
	if len(fn.Blocks) == 0 {
		return false
	}
	t.grow()
	bad := false
	t.walk([]*ssa.BasicBlock{fn.Blocks[0]}, 0, depth+1, func(ins ssa.Instruction) {
		if _, ok := ins.(*ssa.Return); ok {
			bad = true
		}
	})
	return !bad
}

// walk visits the instructions reachable before the list is sorted.
func (t *listTrack) walk(starts []*ssa.BasicBlock, from int, depth int, f func(ssa.Instruction)) {
	seen := map[*ssa.BasicBlock]bool{}
	type item struct {
		b *ssa.BasicBlock
		i int
	}
	var work []item
	for _, s := range starts {
		work = append(work, item{s, from})
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.i == 0 {
			if seen[it.b] || t.skip(it.b) {
				continue
			}
			seen[it.b] = true
		}
		stop := false
		for _, ins := range it.b.Instrs[it.i:] {
			if t.sorted(ins, depth) {
				stop = true
				break
			}
			f(ins)
		}
		if stop {
			continue
		}
		succs := it.b.Succs
		if iff, ok := it.b.Instrs[len(it.b.Instrs)-1].(*ssa.If); ok && t.lenTest(iff.Cond) {
			// if len(list) > n { sort }: the other branch has nothing to order
			for k, s := range succs {
				for _, ins := range s.Instrs {
					if t.sorted(ins, depth) && len(s.Preds) == 1 {
						succs = []*ssa.BasicBlock{s}
						_ = k
					}
				}
			}
		}
		for _, s := range succs {
			work = append(work, item{s, 0})
		}
	}
}

func (t *listTrack) lenTest(c ssa.Value) bool {
	b, ok := c.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, v := range []ssa.Value{b.X, b.Y} {
		if call, ok := v.(*ssa.Call); ok {
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && t.isAlias(call.Call.Args[0]) {
				return true
			}
		}
	}
	return false
}

func (t *listTrack) run(starts []*ssa.BasicBlock, from, depth int) {
	oc := t.oc
	t.grow()
	name := oc.p.FuncName(t.fn)
	reported := false
	report := func(ins ssa.Instruction, f string, a ...interface{}) {
		if reported {
			return
		}
		reported = true
		oc.r.Violate("order", name+"|list", oc.p.InstrPos(ins), "%s: a list collected in unspecified order (%s) %s", name, t.origin, fmt.Sprintf(f, a...))
	}
	t.walk(starts, from, 0, func(ins ssa.Instruction) {
		uses := false
		var ops [16]*ssa.Value
		for _, op := range ins.Operands(ops[:0]) {
			if *op != nil && t.isAlias(*op) {
				uses = true
			}
		}
		if c, ok := ins.(ssa.CallInstruction); ok && !uses && !isPrintCall(calleeFullName(c)) {
			for _, a := range argsFor(c.Common()) {
				if t.carries(a) && !t.sameFieldOnly(c) {
					report(ins, "is passed on unsorted inside a structure")
				}
			}
		}
		switch x := ins.(type) {
		case *ssa.Return:
			for i, v := range x.Results {
				if !t.isAlias(v) && !t.holds(v) {
					continue
				}
				t.returned(x, i, v, depth, report)
			}
			// memory reachable from parameters or package variables
			for _, a := range t.addrs {
				if t.outlives(a) && t.reachesFrom(a) {
					report(x, "is kept in %s unsorted", a.Name())
				}
			}
			return
		}
		if !uses {
			return
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.Store, *ssa.ChangeType, *ssa.MakeInterface, *ssa.DebugRef, *ssa.UnOp, *ssa.FieldAddr, *ssa.Field:
			return
		case *ssa.BinOp:
			return // compared with nil
		case *ssa.Slice:
			if x.Low == nil && x.High == nil {
				return
			}
			report(ins, "is cut before it is sorted")
		case *ssa.MapUpdate:
			report(ins, "is stored unsorted")
		case *ssa.IndexAddr:
			t.indexed(x, report)
		case *ssa.Range:
			return
		case ssa.CallInstruction:
			t.called(x, depth, report)
		default:
			report(ins, "is used unsorted (%T)", ins)
		}
	})
}

// carries: v is the structure, or a pointer to it, that keeps the list.
func (t *listTrack) carries(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return t.carries(x.X)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		al, ok := x.X.(*ssa.Alloc)
		return ok && t.holds(al) && isStructLike(x.Type())
	case *ssa.Alloc:
		return t.holds(x) && isStructLike(x.Type().Underlying().(*types.Pointer).Elem())
	}
	return false
}

// sameFieldOnly: a method of the module that never reads the list before sorting it.
func (t *listTrack) sameFieldOnly(c ssa.CallInstruction) bool {
	ts := t.oc.od.a.targets(c)
	if len(ts) == 0 {
		return false
	}
	keys := map[string]bool{}
	for _, a := range t.addrs {
		if fa, ok := a.(*ssa.FieldAddr); ok {
			keys[fieldKeyOf(fa.X.Type(), fa.Field)] = true
		}
	}
	for _, callee := range ts {
		for _, b := range callee.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if ok && keys[fieldKeyOf(fa.X.Type(), fa.Field)] {
					return false
				}
			}
		}
	}
	return true
}

// holds: v is a structure one of whose fields is the list.
func (t *listTrack) holds(v ssa.Value) bool {
	al := rootAlloc(v)
	for _, a := range t.addrs {
		if rootAlloc(a) == al && !sameAddr(a, v) {
			if _, ok := al.(*ssa.Alloc); ok {
				return true
			}
		}
	}
	return false
}

func (t *listTrack) outlives(addr ssa.Value) bool {
	switch x := addr.(type) {
	case *ssa.Alloc:
		return false
	case *ssa.FieldAddr:
		root := rootAlloc(x)
		_, isAlloc := root.(*ssa.Alloc)
		return !isAlloc
	case *ssa.IndexAddr:
		root := rootAlloc(x)
		if _, ok := root.(*ssa.Alloc); ok {
			return false
		}
		if _, ok := root.(*ssa.MakeSlice); ok {
			return false
		}
		return true
	}
	return true
}

func (t *listTrack) reachesFrom(a ssa.Value) bool { return true }

func (t *listTrack) returned(ret *ssa.Return, i int, v ssa.Value, depth int, report func(ssa.Instruction, string, ...interface{})) {
	if exportedAPI(t.fn) || t.fn.Parent() != nil || depth > 3 {
		report(ret, "is returned unsorted")
		return
	}
	if !t.isAlias(v) {
		report(ret, "is returned unsorted inside a structure")
		return
	}
	callers := t.oc.p.callers[t.fn]
	if len(callers) == 0 {
		return
	}
	for _, c := range callers {
		cc, ok := c.(*ssa.Call)
		if !ok {
			continue
		}
		var res ssa.Value = cc
		if t.fn.Signature.Results().Len() > 1 {
			res = nil
			if cc.Referrers() != nil {
				for _, rf := range *cc.Referrers() {
					if e, ok := rf.(*ssa.Extract); ok && e.Index == i {
						res = e
					}
				}
			}
		}
		if res == nil {
			continue
		}
		key := fmt.Sprintf("ret%p", res)
		if t.oc.done[key] {
			continue
		}
		t.oc.done[key] = true
		n := &listTrack{oc: t.oc, fn: cc.Parent(), vals: map[ssa.Value]bool{res: true}, skip: func(*ssa.BasicBlock) bool { return false }, origin: t.origin}
		n.run([]*ssa.BasicBlock{cc.Block()}, instrIndex(cc)+1, depth+1)
	}
}

// indexed: the list is read element by element.
func (t *listTrack) indexed(x *ssa.IndexAddr, report func(ssa.Instruction, string, ...interface{})) {
	head, body := sliceLoop(x)
	if head == nil {
		report(x, "is indexed before it is sorted")
		return
	}
	g := t.oc.od.loopRegion(head, body)
	if x.Referrers() != nil {
		for _, r := range *x.Referrers() {
			if ld, ok := r.(*ssa.UnOp); ok && ld.Op == token.MUL {
				g.elems[ld] = true
			}
		}
	}
	g.elems[x] = true
	g.ranged = x.X
	t.oc.loop(g, x, "list collected at "+t.origin)
}

// sliceLoop finds the loop that runs over all elements of the indexed slice.
func sliceLoop(x *ssa.IndexAddr) (head, body *ssa.BasicBlock) {
	for b := x.Block(); b != nil; b = b.Idom() {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok || c.Op != token.LSS || !sameValue(c.X, x.Index) && !stepOf(c.X, x.Index) {
			continue
		}
		back := false
		for _, pr := range b.Preds {
			if b.Dominates(pr) {
				back = true
			}
		}
		if back && b.Succs[0].Dominates(x.Block()) {
			return b, b.Succs[0]
		}
	}
	return nil, nil
}

func stepOf(a, b ssa.Value) bool { return a == b }

func (t *listTrack) called(c ssa.CallInstruction, depth int, report func(ssa.Instruction, string, ...interface{})) {
	com := c.Common()
	name := genericName(calleeFullName(c))
	if isPrintCall(name) {
		return
	}
	switch name {
	case "builtin.len", "builtin.cap", "builtin.append", "builtin.copy", "slices.Clone", "slices.Contains", "sort.SearchStrings":
		return
	}
	ts := t.oc.od.a.targets(c)
	if len(ts) == 0 || depth > 3 {
		report(c, "is passed unsorted to %s", name)
		return
	}
	for _, callee := range ts {
		for i, a := range argsFor(com) {
			if i >= len(callee.Params) || !t.isAlias(a) {
				continue
			}
			key := fmt.Sprintf("par%p", callee.Params[i])
			if t.oc.done[key] || len(callee.Blocks) == 0 {
				continue
			}
			t.oc.done[key] = true
			n := &listTrack{oc: t.oc, fn: callee, vals: map[ssa.Value]bool{callee.Params[i]: true}, skip: func(*ssa.BasicBlock) bool { return false }, origin: t.origin}
			n.run([]*ssa.BasicBlock{callee.Blocks[0]}, 0, depth+1)
		}
	}
}

// ---- clock, randomness, addresses ----

func (oc *orderCheck) source(fn *ssa.Function, c ssa.CallInstruction) {
	name := calleeFullName(c)
	p, r := oc.p, oc.r
	if strings.HasPrefix(name, "fmt.") || strings.HasSuffix(name, "f") && strings.HasPrefix(name, "log.") {
		for _, a := range c.Common().Args {
			if s, ok := constString(a); ok && strings.Contains(s, "%p") && !isPrintCall(name) {
				r.Violate("address", p.FuncName(fn), p.InstrPos(c), "%s formats an address, which differs from run to run", p.FuncName(fn))
			}
		}
	}
	if fn.Synthetic != "" && strings.HasSuffix(name, ".init") {
		return
	}
	switch {
	case name == "time.Now" || name == "time.Since" || name == "time.Until":
		r.Count("clock or random uses", 1)
		if oc.warningStamp(c) {
			return
		}
		if w := oc.chain(fn, c, emptyTest, nil); w != "" {
			r.Violate("clock", p.FuncName(fn), p.InstrPos(c), "%s lets the clock decide a result other than a date the caller left empty: %s", p.FuncName(fn), w)
		}
	case strings.HasPrefix(name, "math/rand.") || strings.HasPrefix(name, "(*math/rand.") || strings.HasPrefix(name, "math/rand/v2.") || strings.HasPrefix(name, "(*math/rand/v2."):
		r.Count("clock or random uses", 1)
		r.Violate("random", p.FuncName(fn), p.InstrPos(c), "%s uses %s", p.FuncName(fn), name)
	case strings.HasPrefix(name, "crypto/rand."):
		r.Count("clock or random uses", 1)
		if w := oc.chain(fn, c, encryptionTest, buildsEncryption); w != "" {
			r.Violate("random", p.FuncName(fn), p.InstrPos(c), "%s draws random bytes outside encryption: %s", p.FuncName(fn), w)
		}
	case name == "os.Getpid" || name == "os.Hostname" || name == "os.Getenv" || name == "os.LookupEnv" || name == "os.Environ" || name == "os.Getwd" || strings.HasPrefix(name, "runtime.") && name != "runtime.KeepAlive":
		r.Count("clock or random uses", 1)
		r.Violate("environment", p.FuncName(fn), p.InstrPos(c), "%s reads %s", p.FuncName(fn), name)
	case strings.HasPrefix(name, "hash/maphash."), name == "(reflect.Value).MapKeys", name == "(reflect.Value).MapRange", name == "(*sync.Map).Range", name == "maps.Keys", name == "maps.Values", name == "maps.All":
		r.Violate("environment", p.FuncName(fn), p.InstrPos(c), "%s uses %s, which differs from run to run", p.FuncName(fn), name)
	}
}

// warningStamp: the time is only recorded in a warning.
func (oc *orderCheck) warningStamp(c ssa.CallInstruction) bool {
	v := c.Value()
	return v != nil && oc.stampOnly(v, 0)
}

func (oc *orderCheck) stampOnly(v ssa.Value, depth int) bool {
	if v.Referrers() == nil || depth > 3 {
		return false
	}
	n := 0
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok || x.Val != v || !strings.Contains(fieldKeyOf(fa.X.Type(), fa.Field), "Warning.Timestamp") {
				return false
			}
			n++
		case *ssa.Return:
			if exportedAPI(x.Parent()) {
				return false
			}
			for _, call := range oc.p.callers[x.Parent()] {
				cv, ok := call.(*ssa.Call)
				if !ok || !oc.stampOnly(cv, depth+1) {
					return false
				}
				n++
			}
		case *ssa.Call:
			for _, t := range oc.od.a.targets(x) {
				for i, a := range argsFor(&x.Call) {
					if a == v && (i >= len(t.Params) || !oc.stampOnly(t.Params[i], depth+1)) {
						return false
					}
				}
				n++
			}
		default:
			return false
		}
	}
	return n > 0
}

// chain follows the callers of a use until the condition holds; it returns a chain on which it never does.
func (oc *orderCheck) chain(fn *ssa.Function, at ssa.Instruction, cond func(*ssa.BasicBlock, *ssa.BasicBlock) bool, owner func(*ssa.Function) bool) string {
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function, at ssa.Instruction) string
	walk = func(fn *ssa.Function, at ssa.Instruction) string {
		if guardedBy(at.Block(), cond) || owner != nil && owner(fn) {
			return ""
		}
		if seen[fn] {
			return ""
		}
		seen[fn] = true
		if exportedAPI(fn) {
			return "reached from " + oc.p.FuncName(fn)
		}
		if strings.HasPrefix(fn.Name(), "init") && fn.Signature.Recv() == nil {
			return "runs at start-up"
		}
		var sites []ssa.CallInstruction
		sites = append(sites, oc.p.callers[fn]...)
		sites = append(sites, oc.p.Flow().dynCallers[fn]...)
		for _, c := range sites {
			if !oc.p.isLib[c.Parent()] {
				continue
			}
			if w := walk(c.Parent(), c); w != "" {
				return w + " through " + oc.p.FuncName(fn)
			}
		}
		return ""
	}
	return walk(fn, at)
}

// guardedBy: some branch edge that satisfies cond dominates the block.
func guardedBy(b *ssa.BasicBlock, cond func(from, to *ssa.BasicBlock) bool) bool {
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			return false
		}
		for _, s := range id.Succs {
			if len(s.Preds) == 1 && s.Dominates(b) && cond(id, s) {
				return true
			}
		}
	}
	return false
}

// emptyTest: the edge is taken when a string is empty.
func emptyTest(from, to *ssa.BasicBlock) bool {
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	eq := from.Succs[0] == to
	switch c.Op {
	case token.EQL:
	case token.NEQ, token.GTR:
		eq = !eq
	default:
		return false
	}
	x, y := c.X, c.Y
	if _, ok := x.(*ssa.Const); ok && c.Op != token.GTR {
		x, y = y, x
	}
	if s, ok := constString(y); ok && s == "" {
		return eq
	}
	if k, ok := y.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "0" {
		if call, ok := x.(*ssa.Call); ok && calleeFullName(call) == "builtin.len" && strings.Contains(call.Call.Args[0].Type().Underlying().String(), "string") {
			return eq
		}
	}
	return false
}

// encryptionTest: the edge is taken when an encryption is set.
func encryptionTest(from, to *ssa.BasicBlock) bool {
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.EQL && c.Op != token.NEQ {
		return false
	}
	ne := (c.Op == token.NEQ) == (from.Succs[0] == to)
	for _, v := range []ssa.Value{c.X, c.Y} {
		if strings.HasSuffix(v.Type().String(), "types.PDFEncryption") {
			return ne
		}
	}
	return false
}

// buildsEncryption: an operation that sets up encryption, directly or through what it calls.
func buildsEncryption(fn *ssa.Function) bool {
	if !exportedAPI(fn) {
		return false
	}
	return buildsEnc(fn, map[*ssa.Function]bool{})
}

func buildsEnc(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Alloc:
				if strings.HasSuffix(x.Type().String(), "types.PDFEncryption") {
					return true
				}
			case *ssa.Call:
				if t := x.Call.StaticCallee(); t != nil && len(t.Blocks) > 0 && buildsEnc(t, seen) {
					return true
				}
			}
		}
	}
	return false
}
