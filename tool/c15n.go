package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- object numbers

// writerTable: the map is the object table of a writer, read from a field of the struct whose counter is another field.
func writerTable(m ssa.Value) (*ssa.FieldAddr, bool) {
	mt, ok := m.Type().Underlying().(*types.Map)
	if !ok || !isInt(mt.Key()) {
		return nil, false
	}
	pt, ok := mt.Elem().Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok || !isStreamObject(st) {
		return nil, false
	}
	fa, ok := loadOfField(m)
	return fa, ok
}

// counterField: the field that object numbers are taken from: it is somewhere set to itself plus one.
func (x *offsets) counterField(t *types.Struct) int {
	if k, ok := x.counterOf[t]; ok {
		return k
	}
	k := -1
	for _, f := range x.p.Lib {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || structOf(fa) != t {
					continue
				}
				bin, ok := st.Val.(*ssa.BinOp)
				if !ok || bin.Op != token.ADD {
					continue
				}
				if fb, ok := loadOfField(bin.X); ok && structOf(fb) == t && fb.Field == fa.Field {
					k = fa.Field
				}
			}
		}
	}
	x.counterOf[t] = k
	return k
}

func structOf(fa *ssa.FieldAddr) *types.Struct {
	st, _ := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return st
}

// counterStore: the instruction changes a counter of object numbers
func (x *offsets) counterStore(ins ssa.Instruction) *ssa.FieldAddr {
	st, ok := ins.(*ssa.Store)
	if !ok {
		return nil
	}
	return x.counterAddr(st.Addr)
}

func (x *offsets) counterAddr(a ssa.Value) *ssa.FieldAddr {
	fa, ok := a.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	t := structOf(fa)
	if t == nil || x.tables[t] == nil || x.counterField(t) != fa.Field {
		return nil
	}
	return fa
}

// counterLoad: the value is the counter as it was at some moment
func (x *offsets) counterLoad(v ssa.Value) ssa.Instruction {
	if call, ok := v.(*ssa.Call); ok {
		// a function that returns the counter
		g := call.Call.StaticCallee()
		if g == nil || !x.p.inLib(g) || len(g.Blocks) != 1 || g.Signature.Results().Len() != 1 || !isInt(call.Type()) || x.takes[g] {
			return nil
		}
		ret, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return)
		if !ok || x.counterLoad(ret.Results[0]) == nil {
			return nil
		}
		return call
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || x.counterAddr(u.X) == nil {
		return nil
	}
	return u
}

// findTables: the structs that have a table of objects
func (x *offsets) findTables() {
	x.tables = map[*types.Struct]*ssa.FieldAddr{}
	x.counterOf = map[*types.Struct]int{}
	for _, f := range x.p.Lib {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if mu, ok := ins.(*ssa.MapUpdate); ok {
					if fa, ok := writerTable(mu.Map); ok {
						if t := structOf(fa); t != nil {
							x.tables[t] = fa
						}
					}
				}
			}
		}
	}
	// what takes numbers, directly or through others
	x.takes = map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range x.p.Lib {
			if x.takes[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					take := x.counterStore(ins) != nil
					if call, ok := ins.(ssa.CallInstruction); ok {
						for _, g := range x.p.Callees(call) {
							take = take || x.takes[g]
						}
					}
					if take && !x.takes[f] {
						x.takes[f] = true
						changed = true
					}
				}
			}
		}
	}
}

// raises: the store sets the counter to at least k+1, or to the greater of that and what it was.
func (x *offsets) raises(st *ssa.Store, k ssa.Value) bool {
	if l := x.ideal.Lin(st.Val).add(x.ideal.Lin(k), -1); len(l.t) == 0 {
		return l.c >= 1
	}
	if call, ok := st.Val.(*ssa.Call); ok {
		if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "max" {
			for _, a := range call.Call.Args {
				if l := x.ideal.Lin(a).add(x.ideal.Lin(k), -1); len(l.t) == 0 && l.c >= 1 {
					return true
				}
			}
		}
	}
	return false
}

// above: the branch from b to s is only taken when the counter is above k already.
func (x *offsets) above(b, s *ssa.BasicBlock, k ssa.Value) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return false
	}
	cond, neg := iff.Cond, b.Succs[1] == s
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, neg = u.X, !neg
	}
	bin, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	op, l, r := bin.Op, bin.X, bin.Y
	if neg {
		op = negate(op)
	}
	switch op {
	case token.GTR, token.GEQ:
		l, r = r, l
		if op == token.GTR {
			op = token.LSS
		} else {
			op = token.LEQ
		}
	case token.LSS, token.LEQ:
	default:
		return false
	}
	// l < r or l <= r:  the counter is r + c
	a, c := r, int64(0)
	if op == token.LEQ {
		c = -1
	}
	rl := x.ideal.Lin(a)
	for at, n := range rl.t {
		if n != 1 || len(rl.t) != 1 || at.len || x.counterLoad(at.v) == nil {
			return false
		}
	}
	if len(rl.t) != 1 {
		return false
	}
	// counter + rl.c >= l + 1 + c, so counter - k >= (l - k) + 1 + c - rl.c
	d := x.ideal.Lin(l).add(x.ideal.Lin(k), -1)
	return len(d.t) == 0 && d.c+1+c-rl.c >= 1
}

// reserve: on all paths from an instruction on, the number k is taken off the counter before another number is taken.
// With soon not set, only paths on which k is put into a table before need to take it.
func (x *offsets) reserve(ins ssa.Instruction, k ssa.Value, put bool) (bad ssa.Instruction, why string) {
	type state struct {
		b   *ssa.BasicBlock
		put bool
	}
	seen := map[state]bool{}
	var walk func(b *ssa.BasicBlock, i int, put bool)
	walk = func(b *ssa.BasicBlock, i int, put bool) {
		if bad != nil {
			return
		}
		if i == 0 {
			if seen[state{b, put}] {
				return
			}
			seen[state{b, put}] = true
		}
		for ; i < len(b.Instrs); i++ {
			ins := b.Instrs[i]
			if st, ok := ins.(*ssa.Store); ok && x.counterStore(ins) != nil {
				if !x.raises(st, k) {
					bad, why = ins, "changes the counter"
				}
				return
			}
			if mu, ok := ins.(*ssa.MapUpdate); ok {
				if _, ok := writerTable(mu.Map); ok && x.sameNumber(mu.Key, k) {
					put = true
				}
			}
			if call, ok := ins.(ssa.CallInstruction); ok {
				took := false
				for _, g := range x.p.Callees(call) {
					if !x.takes[g] {
						continue
					}
					took = true
					done := false
					for j := range g.Params {
						if a := argFor(call, g, j); a != nil && isInt(a.Type()) && x.sameNumber(a, k) && x.keeps(g, j) {
							done = true
						}
					}
					if !done {
						bad, why = ins, "takes another number"
						return
					}
				}
				if took {
					return
				}
			}
			if _, ok := ins.(*ssa.Return); ok {
				if put {
					bad, why = ins, "returns"
				}
				return
			}
		}
		for _, s := range b.Succs {
			if !x.above(b, s, k) {
				walk(s, 0, put)
			}
		}
	}
	walk(ins.Block(), indexIn(ins)+1, put)
	return
}

func (x *offsets) sameNumber(a, b ssa.Value) bool {
	l := x.ideal.Lin(a).add(x.ideal.Lin(b), -1)
	if a == b || len(l.t) == 0 && l.c == 0 {
		return true
	}
	// a variable that got the number
	if phi, ok := a.(*ssa.Phi); ok && !isLoopHead(phi.Block()) {
		for _, e := range phi.Edges {
			if e == b {
				return true
			}
		}
	}
	return false
}

// keeps: when the function returns the counter is above its parameter, which it puts into the table or not.
func (x *offsets) keeps(g *ssa.Function, i int) bool {
	key := keptKey{g, i}
	if r, ok := x.kept[key]; ok {
		return r
	}
	x.kept[key] = false
	if len(g.Blocks) == 0 {
		return false
	}
	first := g.Blocks[0].Instrs[0]
	bad, _ := x.reserve0(first, g.Params[i])
	x.kept[key] = bad == nil
	return bad == nil
}

type keptKey struct {
	g *ssa.Function
	i int
}

// reserve0 is reserve from and with an instruction, as if the number had been put into the table before.
func (x *offsets) reserve0(ins ssa.Instruction, k ssa.Value) (ssa.Instruction, string) {
	if x.counterStore(ins) != nil {
		if x.raises(ins.(*ssa.Store), k) {
			return nil, ""
		}
		return ins, "changes the counter"
	}
	return x.reserve(ins, k, true)
}

// covered: the counter is above k on every path to the instruction, through a branch, a store or a call before it.
func (x *offsets) covered(ins ssa.Instruction, k ssa.Value) bool {
	seen := map[*ssa.BasicBlock]bool{}
	ok := true
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for i--; i >= 0 && ok; i-- {
			in := b.Instrs[i]
			if st, is := in.(*ssa.Store); is && x.counterStore(in) != nil && x.raises(st, k) {
				return
			}
			if v, is := k.(ssa.Instruction); is && in == v {
				ok = false
				return
			}
			if call, is := in.(ssa.CallInstruction); is {
				for _, g := range x.p.Callees(call) {
					for j := range g.Params {
						if a := argFor(call, g, j); a != nil && isInt(a.Type()) && x.sameNumber(a, k) && x.keeps(g, j) {
							return
						}
					}
				}
			}
		}
		if len(b.Preds) == 0 {
			ok = false
			return
		}
		for _, p := range b.Preds {
			if x.above(p, b, k) || seen[p] {
				continue
			}
			seen[p] = true
			walk(p, len(p.Instrs))
		}
	}
	walk(ins.Block(), indexIn(ins))
	return ok
}

// number judges an object number that is put into a table (or handed to a function that does that).
func (x *offsets) number(at ssa.Instruction, k ssa.Value, d int) string {
	k = stripConv(k)
	if x.fromTableKey(k, 0) || x.existing(at, k) {
		return ""
	}
	if x.counterLoad(k) != nil {
		return "" // judged where it was read
	}
	if x.covered(at, k) {
		return ""
	}
	if bad, why := x.reserve(at, k, true); bad == nil {
		return ""
	} else if _, ok := k.(*ssa.Parameter); !ok && !isResult(k) {
		return "the counter is not raised above it before the function " + why
	}
	if phi, ok := k.(*ssa.Phi); ok {
		for _, e := range phi.Edges {
			if s := x.number(at, e, d+1); d > 3 || s != "" {
				return s
			}
		}
		return ""
	}
	if isResult(k) {
		if x.fresh(k, 0) {
			return ""
		}
		return "it is the result of a call that does not take it off the counter"
	}
	pa := k.(*ssa.Parameter)
	calls := x.p.callers[pa.Parent()]
	if d > 3 || exportedAPI(pa.Parent()) || x.p.addrUsed[pa.Parent()] || len(calls) == 0 {
		return "the counter is not raised above it"
	}
	for _, call := range calls {
		a := argFor(call, pa.Parent(), paramIndex(pa))
		if a == nil {
			return "it is not known"
		}
		if s := x.number(call.(ssa.Instruction), a, d+1); s != "" {
			return s
		}
	}
	return ""
}

func isResult(v ssa.Value) bool {
	if e, ok := v.(*ssa.Extract); ok {
		v = e.Tuple
	}
	_, ok := v.(*ssa.Call)
	return ok
}

// fresh: the value is a number that the called function took off the counter.
func (x *offsets) fresh(v ssa.Value, d int) bool {
	k := 0
	if e, ok := v.(*ssa.Extract); ok {
		k, v = e.Index, e.Tuple
	}
	call, ok := v.(*ssa.Call)
	if !ok || d > 4 {
		return false
	}
	g := call.Call.StaticCallee()
	if g == nil || !x.p.inMod[g] || len(g.Blocks) == 0 {
		return false
	}
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || failing(ret) {
			continue
		}
		r := ret.Results[k]
		if l := x.counterLoad(r); l != nil {
			if bad, _ := x.reserve(l, r, true); bad != nil {
				return false
			}
			continue
		}
		if !x.fresh(r, d+1) {
			return false
		}
	}
	return true
}

// fromTableKey: the number comes from ranging over a table, or a list of its keys.
func (x *offsets) fromTableKey(k ssa.Value, d int) bool {
	isTable := func(v ssa.Value) bool {
		_, ok := writerTable(v)
		return ok
	}
	switch y := k.(type) {
	case *ssa.Extract:
		nx, ok := y.Tuple.(*ssa.Next)
		if !ok || y.Index != 1 {
			return false
		}
		rg, ok := nx.Iter.(*ssa.Range)
		return ok && isTable(rg.X)
	case *ssa.UnOp:
		ia, ok := y.X.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		if call, ok := ia.X.(*ssa.Call); ok {
			for _, a := range call.Call.Args {
				if isTable(a) {
					return true
				}
			}
		}
	}
	return false
}

// existing: the number was found in the table before.
func (x *offsets) existing(at ssa.Instruction, k ssa.Value) bool {
	for _, b := range at.Parent().Blocks {
		for _, ins := range b.Instrs {
			l, ok := ins.(*ssa.Lookup)
			if !ok || !l.CommaOk || !x.sameNumber(l.Index, k) {
				continue
			}
			if _, ok := writerTable(l.X); !ok {
				continue
			}
			for _, ref := range *l.Referrers() {
				e, ok := ref.(*ssa.Extract)
				if !ok || e.Index != 1 {
					continue
				}
				for _, ref := range *e.Referrers() {
					if iff, ok := ref.(*ssa.If); ok {
						s := iff.Block().Succs[0]
						if len(s.Preds) == 1 && s.Dominates(at.Block()) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (x *offsets) numbers(f *ssa.Function) {
	name := x.p.FuncName(f)
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch y := ins.(type) {
			case *ssa.MapUpdate:
				fa, ok := writerTable(y.Map)
				if !ok || x.counterField(structOf(fa)) < 0 {
					continue
				}
				x.r.Count("numbers_used", 1)
				if why := x.number(ins, y.Key, 0); why != "" {
					x.r.Violate("number", name, x.p.InstrPos(ins), "%s puts an object into the table under a number, and %s", name, why)
				}
			case *ssa.UnOp, *ssa.Call:
				y2 := ins.(ssa.Value)
				l := x.counterLoad(y2)
				if l == nil || !x.asNumber(y2, 0) {
					continue
				}
				x.r.Count("numbers_taken", 1)
				if bad, why := x.reserve(ins, y2, false); bad != nil {
					x.r.Violate("number", name, x.p.InstrPos(ins), "%s uses the next object number, and %s (%s) before the counter is above it", name, why, x.p.InstrPos(bad))
				}
			case *ssa.Store:
				fa := x.counterStore(ins)
				if fa == nil {
					continue
				}
				x.r.Count("counter_changes", 1)
				if _, ok := fa.X.(*ssa.Alloc); ok && isConst(y.Val) {
					continue // a new writer
				}
				if !x.grows(y) {
					x.r.Violate("number", name, x.p.InstrPos(ins), "%s sets the counter of object numbers to a value that may be lower than it was", name)
				}
			}
		}
	}
}

// asNumber: the value is used as the number of an object: more than for comparing, counting on and printing.
func (x *offsets) asNumber(v ssa.Value, d int) bool {
	if v.Referrers() == nil || d > 4 {
		return false
	}
	for _, ref := range *v.Referrers() {
		switch y := ref.(type) {
		case *ssa.MapUpdate:
			if y.Key == v {
				return true
			}
		case *ssa.Store:
			if fa, ok := y.Addr.(*ssa.FieldAddr); ok && y.Val == v && x.counterAddr(fa) == nil {
				return true
			}
		case *ssa.Phi:
			if x.asNumber(y, d+1) {
				return true
			}
		case ssa.CallInstruction:
			for _, g := range x.p.Callees(y) {
				if x.p.inMod[g] {
					return true
				}
			}
		}
	}
	return false
}

// grows: the value is the counter's plus something, or shown to be above it.
func (x *offsets) grows(st *ssa.Store) bool {
	if call, ok := st.Val.(*ssa.Call); ok {
		if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "max" {
			for _, a := range call.Call.Args {
				if x.counterLoad(a) != nil {
					return true
				}
			}
		}
	}
	l := x.ideal.Lin(st.Val)
	for a, k := range l.t {
		if u := x.counterLoad(a.v); u != nil && k == 1 && len(l.t) == 1 && l.c >= 0 {
			return x.untouched(u, st)
		}
	}
	// on every path the counter was compared with the new value
	seen := map[*ssa.BasicBlock]bool{}
	ok := true
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for i--; i >= 0 && ok; i-- {
			in := b.Instrs[i]
			if x.counterStore(in) != nil {
				ok = false
			}
			if call, is := in.(ssa.CallInstruction); is {
				for _, g := range x.p.Callees(call) {
					ok = ok && !x.takes[g]
				}
			}
		}
		if len(b.Preds) == 0 {
			ok = false
		}
		for _, p := range b.Preds {
			if ok && !seen[p] && !x.below(p, b, st.Val) {
				seen[p] = true
				walk(p, len(p.Instrs))
			}
		}
	}
	walk(st.Block(), indexIn(st))
	return ok
}

// below: the branch is only taken when the counter is at most v.
func (x *offsets) below(b, s *ssa.BasicBlock, v ssa.Value) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return false
	}
	f := &facts{nils: map[ssa.Value]int{}}
	x.ideal.assume(f, iff.Cond, b.Succs[0] == s, 0)
	for _, fc := range f.list {
		if fc.ne {
			continue
		}
		// fc.l = w - counter + c >= 0, and v - w >= c
		for a, k := range fc.l.t {
			if k == -1 && x.counterLoad(a.v) != nil {
				g := x.ideal.Lin(v).add(x.ideal.self(a.v), -1).add(fc.l, -1)
				if len(g.t) == 0 && g.c >= 0 {
					return true
				}
			}
		}
	}
	return false
}

// untouched: no other number can have been taken between the two.
func (x *offsets) untouched(from, to ssa.Instruction) bool {
	ok := true
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for i--; i >= 0 && ok; i-- {
			in := b.Instrs[i]
			if in == from {
				return
			}
			if x.counterStore(in) != nil {
				ok = false
			}
			if call, is := in.(ssa.CallInstruction); is {
				for _, g := range x.p.Callees(call) {
					ok = ok && !x.takes[g]
				}
			}
		}
		for _, p := range b.Preds {
			if !seen[p] && ok {
				seen[p] = true
				walk(p, len(p.Instrs))
			}
		}
	}
	walk(to.Block(), indexIn(to))
	return ok
}
