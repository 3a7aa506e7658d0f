package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// entries: a recorded position is written as it is.
func (d *docBuffer) entries(records []event) {
	maps := map[fval]bool{}
	for _, m := range records {
		maps[d.x.c.deep(fval{m.ins.(*ssa.MapUpdate).Map, m.fr, false})] = true
	}
	d.all(func(e event) {
		l, ok := e.ins.(*ssa.Lookup)
		if !ok || !isMap(l.X.Type()) || !maps[d.x.c.deep(fval{l.X, e.fr, false})] {
			return
		}
		d.x.r.Count("positions_used", 1)
		var uses func(v ssa.Value, depth int)
		uses = func(v ssa.Value, depth int) {
			if v.Referrers() == nil || depth > 4 {
				return
			}
			for _, ref := range *v.Referrers() {
				switch y := ref.(type) {
				case *ssa.Extract:
					if y.Index == 0 {
						uses(y, depth+1)
					}
				case *ssa.Convert:
					if isInt(y.Type()) && !intRangeSmall(y.Type()) {
						uses(y, depth+1)
					} else if isInt(y.Type()) {
						d.bad("entry", e, "cuts the recorded position of an object")
					}
				case *ssa.BinOp:
					if y.Op == token.ADD || y.Op == token.SUB || y.Op == token.MUL || y.Op == token.QUO || y.Op == token.REM {
						d.bad("entry", e, "changes the recorded position of an object before it is used")
					}
				}
			}
		}
		uses(l, 0)
	})
}

// intRangeSmall: the type holds less than positions in large files need.
func intRangeSmall(t types.Type) bool {
	_, hi, ok := intRange(t)
	return ok && hi < 1<<40
}

// ---- object streams

// pair is the writing of an object number and the position of its data.
type pair struct {
	ins  *ssa.Call
	num  ssa.Value
	len  *ssa.Call // of the data buffer
	head ssa.Value
	data ssa.Value
}

func bufferLen(v ssa.Value) *ssa.Call {
	call, ok := stripConv(v).(*ssa.Call)
	if !ok {
		return nil
	}
	switch calleeFullName(call) {
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		return call
	}
	return nil
}

// objectStream: in a function that makes an object stream the header tells where the data of each object starts.
func (x *offsets) objectStream(f *ssa.Function) {
	var kind *ssa.MapUpdate
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if mu, ok := ins.(*ssa.MapUpdate); ok {
				if t, ok := constText(unwrapIface(mu.Value)); ok && t == "/ObjStm" {
					kind = mu
				}
			}
		}
	}
	if kind == nil {
		return
	}
	x.r.Count("object_streams", 1)
	name := x.p.FuncName(f)
	fns := []*ssa.Function{f}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if call, ok := ins.(*ssa.Call); ok {
				if g := call.Call.StaticCallee(); g != nil && x.p.inLib(g) && len(g.Blocks) > 0 {
					fns = append(fns, g)
				}
			}
		}
	}
	var pairs []pair
	for _, g := range fns {
		pairs = append(pairs, x.pairs(g)...)
	}
	if len(pairs) == 0 {
		x.r.Violate("object-stream", name, x.p.InstrPos(kind), "%s makes an object stream, and no pair of an object number and the position of its data (the length of the data at that moment) is written", name)
		return
	}
	for _, p := range pairs {
		x.pairData(p)
		x.order(p)
	}
	// First is the length of the header
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			mu, ok := ins.(*ssa.MapUpdate)
			if !ok || mu.Map != kind.Map {
				continue
			}
			switch k, _ := constText(unwrapIface(mu.Key)); k {
			case "/First", "First":
				if !x.isFirst(f, stripConv(unwrapIface(mu.Value)), pairs) {
					x.r.Violate("object-stream", name, x.p.InstrPos(mu), "%s gives as the start of the data in an object stream something else than the length of what is written before the data", name)
				}
			case "/N", "N":
				if pairs[0].ins.Parent() == f && len(pairs) == 1 {
					x.counted(f, pairs[0], mu)
				}
			}
		}
	}
}

func (x *offsets) pairs(g *ssa.Function) (out []pair) {
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			ps, recv := x.written(ins)
			if recv == nil {
				continue
			}
			for i := 0; i+2 < len(ps); i++ {
				if ps[i].arg == nil || ps[i+1].text != " " || ps[i+2].arg == nil {
					continue
				}
				num, l := unwrapIface(ps[i].arg), bufferLen(unwrapIface(ps[i+2].arg))
				if l == nil || !isInt(num.Type()) {
					continue
				}
				out = append(out, pair{ins.(*ssa.Call), num, l, recv, unwrapIface(l.Call.Args[0])})
			}
			// number and position may be written one after the other
			if len(ps) > 0 && ps[0].arg != nil && len(ps) <= 2 {
				l := bufferLen(unwrapIface(ps[0].arg))
				if l == nil {
					continue
				}
				if n := x.numberBefore(ins, recv); n != nil {
					out = append(out, pair{ins.(*ssa.Call), n, l, recv, unwrapIface(l.Call.Args[0])})
				}
			}
		}
	}
	return out
}

// numberBefore: the number that was written to the buffer just before, in the same block
func (x *offsets) numberBefore(ins ssa.Instruction, recv ssa.Value) ssa.Value {
	b := ins.Block()
	for i := indexIn(ins) - 1; i >= 0; i-- {
		ps, r := x.written(b.Instrs[i])
		if r != recv {
			continue
		}
		for j := len(ps) - 1; j >= 0; j-- {
			if ps[j].arg != nil {
				if v := unwrapIface(ps[j].arg); isInt(v.Type()) {
					return v
				}
				return nil
			}
			if ps[j].text != " " {
				return nil
			}
		}
	}
	return nil
}

// pairData: what is written to the data next after its length was taken is the content of the object.
func (x *offsets) pairData(p pair) {
	f := p.ins.Parent()
	name := x.p.FuncName(f)
	x.r.Count("object_stream_pairs", 1)
	ok, found := true, false
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs) && ok; i++ {
			ins := b.Instrs[i]
			ps, recv := x.written(ins)
			if recv == nil || recv != p.data {
				if ins == ssa.Instruction(p.len) {
					ok = false
				}
				continue
			}
			good := false
			if len(ps) == 1 && ps[0].arg != nil {
				good = x.contentOf(ps[0].arg, p.num)
			}
			if !good {
				ok = false
			}
			found = true
			return
		}
		if r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet && !failing(r) {
			ok = false
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	walk(p.len.Block(), indexIn(p.len)+1)
	if !ok || !found {
		x.r.Violate("object-stream", name, x.p.InstrPos(p.ins), "%s writes a number and a position into the header of an object stream, and what is written at that position is not shown to be the content of that object", name)
	}
}

// contentOf: the value is the content of the object with the number, or belongs to the same element as the number.
func (x *offsets) contentOf(v, num ssa.Value) bool {
	v = x.c.strip(fval{v, nil, false}).v
	fa, ok := loadOfField(v)
	if !ok {
		if fl, is := v.(*ssa.Field); is {
			if nf, is := num.(*ssa.Field); is {
				return fl.X == nf.X
			}
		}
		return false
	}
	obj := fa.X
	if l := lookedUpObject(obj); l != nil {
		return x.sameNumber(l.Index, num)
	}
	if nf, ok := loadOfField(num); ok {
		return nf.X == fa.X || x.n.sameVal(nf.X, fa.X)
	}
	return false
}

func lookedUpObject(v ssa.Value) *ssa.Lookup {
	if e, ok := v.(*ssa.Extract); ok && e.Index == 0 {
		v = e.Tuple
	}
	l, ok := v.(*ssa.Lookup)
	if !ok || !isMap(l.X.Type()) {
		return nil
	}
	return l
}

// isFirst: the value is the length of the header, and the header is then not written to any more.
func (x *offsets) isFirst(f *ssa.Function, v ssa.Value, pairs []pair) bool {
	var head ssa.Value
	var at ssa.Instruction
	if l := bufferLen(v); l != nil {
		head, at = unwrapIface(l.Call.Args[0]), l
	} else if call, ok := v.(*ssa.Call); ok {
		bi, is := call.Call.Value.(*ssa.Builtin)
		if !is || bi.Name() != "len" {
			return false
		}
		s := x.c.strip(fval{call.Call.Args[0], nil, false}).v
		br := bufferRead(s)
		if br == nil {
			return s.Parent() == f && pairs[0].ins.Parent() != f // made by a helper
		}
		head, at = unwrapIface(br.Call.Args[0]), br
	} else if pairs[0].ins.Parent() != f {
		return isResult(v)
	}
	if head == nil {
		return false
	}
	header := false
	for _, p := range pairs {
		header = header || p.head == head || p.ins.Parent() != f
	}
	if !header {
		// the combined data: the header has been written to it, and nothing else
		n := 0
		x.before(at, head, func(ps []textPiece) {
			n++
			if len(ps) == 1 && ps[0].arg != nil {
				if br := bufferRead(x.c.strip(fval{ps[0].arg, nil, false}).v); br != nil {
					for _, p := range pairs {
						header = header || p.head == unwrapIface(br.Call.Args[0])
					}
				}
			}
		})
		return header && n == 1
	}
	// nothing is added to the header afterwards
	clean := true
	x.after(at, func(ins ssa.Instruction) bool {
		if ps, recv := x.written(ins); recv == head && !x.isData(ps, pairs) {
			clean = false
		}
		return ins != at
	})
	return clean
}

// isData: the data of the objects is appended
func (x *offsets) isData(ps []textPiece, pairs []pair) bool {
	if len(ps) != 1 || ps[0].arg == nil {
		return false
	}
	br := bufferRead(x.c.strip(fval{ps[0].arg, nil, false}).v)
	return br != nil && unwrapIface(br.Call.Args[0]) == pairs[0].data
}

func (x *offsets) after(at ssa.Instruction, visit func(ssa.Instruction) bool) {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			if !visit(b.Instrs[i]) {
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	walk(at.Block(), indexIn(at)+1)
}

func (x *offsets) before(at ssa.Instruction, buf ssa.Value, visit func([]textPiece)) {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for i--; i >= 0; i-- {
			if ps, recv := x.written(b.Instrs[i]); recv == buf {
				visit(ps)
			}
		}
		for _, p := range b.Preds {
			if !seen[p] {
				seen[p] = true
				walk(p, len(p.Instrs))
			}
		}
	}
	walk(at.Block(), indexIn(at))
}

// order: header and data are put together in this order with nothing in between.
func (x *offsets) order(p pair) {
	f := p.ins.Parent()
	name := x.p.FuncName(f)
	x.all(f, func(ins ssa.Instruction) {
		if call, ok := ins.(*ssa.Call); ok {
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				reads := func(v, buf ssa.Value) bool {
					br := bufferRead(x.c.strip(fval{v, nil, false}).v)
					return br != nil && unwrapIface(br.Call.Args[0]) == buf
				}
				if reads(call.Call.Args[0], p.data) || reads(call.Call.Args[1], p.data) && !reads(call.Call.Args[0], p.head) {
					x.r.Violate("object-stream", name, x.p.InstrPos(ins), "%s puts the data of an object stream where not just its header is before it", name)
				}
			}
		}
		ps, recv := x.written(ins)
		if recv == nil || recv == p.data || !x.isData(ps, []pair{p}) {
			return
		}
		x.r.Count("object_stream_data", 1)
		if recv == p.head {
			return
		}
		// what was written before to the same place
		ok := false
		b := ins.Block()
		done := false
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock, i int)
		walk = func(b *ssa.BasicBlock, i int) {
			for i--; i >= 0; i-- {
				ps, r := x.written(b.Instrs[i])
				if r != recv {
					continue
				}
				good := false
				if len(ps) == 1 && ps[0].arg != nil {
					if br := bufferRead(x.c.strip(fval{ps[0].arg, nil, false}).v); br != nil && unwrapIface(br.Call.Args[0]) == p.head {
						good = true
					}
				}
				if !done {
					ok = good
				}
				ok = ok && good
				done = true
				return
			}
			if len(b.Preds) == 0 {
				ok, done = false, true
			}
			for _, pr := range b.Preds {
				if !seen[pr] {
					seen[pr] = true
					walk(pr, len(pr.Instrs))
				}
			}
		}
		walk(b, indexIn(ins))
		if !ok {
			x.r.Violate("object-stream", name, x.p.InstrPos(ins), "%s writes the data of an object stream where not just its header was written before", name)
		}
	})
}

func (x *offsets) all(f *ssa.Function, visit func(ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			visit(ins)
		}
	}
}

// counted: N is the number of pairs, and the index recorded for an object is the number of pairs before its own.
func (x *offsets) counted(f *ssa.Function, p pair, n *ssa.MapUpdate) {
	name := x.p.FuncName(f)
	c := &counting{n: x.ideal, fn: f, init: [2]ghost{{kind: ghostFree}, {kind: ghostIs}}}
	c.step = func(ins ssa.Instruction, s [2]ghost) [2]ghost {
		if ins == ssa.Instruction(p.ins) && s[1].kind == ghostIs {
			s[1].l = s[1].l.minus(-1)
		}
		return s
	}
	c.run()
	for b, s := range c.in {
		for _, ins := range b.Instrs {
			if ins == ssa.Instruction(n) {
				v := x.ideal.Lin(stripConv(unwrapIface(n.Value)))
				if s[1].kind != ghostIs || !c.zero(s[1].l.add(v, -1), ins) {
					x.r.Violate("object-stream", name, x.p.InstrPos(n), "%s gives the number of objects in an object stream, and it is not shown to be the number of pairs written", name)
				}
			}
			if mu, ok := ins.(*ssa.MapUpdate); ok {
				if st, ok := mu.Value.Type().Underlying().(*types.Struct); ok && isInt(mu.Key.Type()) {
					x.index(mu, st, p, c, s)
				}
			}
			s = c.step(ins, s)
		}
	}
}

// index: one of the numbers recorded for an object is its index among the pairs.
func (x *offsets) index(mu *ssa.MapUpdate, st *types.Struct, p pair, c *counting, s [2]ghost) {
	f := mu.Parent()
	name := x.p.FuncName(f)
	x.r.Count("object_stream_places", 1)
	want := s[1].l
	if p.ins.Block().Dominates(mu.Block()) && (p.ins.Block() != mu.Block() || indexIn(p.ins) < indexIn(mu)) {
		want = want.minus(1)
	}
	if s[1].kind != ghostIs || !x.sameNumber(mu.Key, p.num) {
		x.r.Violate("object-stream", name, x.p.InstrPos(mu), "%s records the place of an object in an object stream, and it is not shown to be the place of its pair", name)
		return
	}
	u, ok := mu.Value.(*ssa.UnOp)
	if !ok {
		return
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return
	}
	for _, ref := range *al.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok || !isInt(st.Field(fa.Field).Type()) {
			continue
		}
		for _, ref := range *fa.Referrers() {
			if sto, ok := ref.(*ssa.Store); ok && c.zero(want.add(x.ideal.Lin(sto.Val), -1), mu) {
				return
			}
		}
	}
	x.r.Violate("object-stream", name, x.p.InstrPos(mu), "%s records the place of an object in an object stream, and none of the numbers is shown to be the number of pairs before its own", name)
}
