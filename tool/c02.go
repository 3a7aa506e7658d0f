package main

// C02: every loop comes closer to its end in every iteration, and every recursion to its bottom.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C02"] = checkC02 }

type c02 struct {
	movesM map[moveKey][2]int
	pathsM map[pathKey]bool
	steps  map[*ssa.Function]bool

	p     *Program
	n     *Num
	r     *Result
	limM  map[limKey]int
	edges map[[2]*ssa.BasicBlock]*facts
	open  int // counters that are being looked at and were met again
	// products count only when one side is fixed or both are sizes of what is in memory: two 16-bit numbers make 4 GB
	strict bool
}

func checkC02(p *Program, tier string) *Result {
	r := &Result{Explanation: "Every loop of the library (natural loops of the SSA form) needs an argument why it ends: it runs over a collection that it does not extend; or a linear measure over its variables and lengths gets closer to a bound on every way round and the distance is limited by the size of the data, a constant or a number the caller passed; or it halves a number; or it inserts a key that was absent into a set in every iteration; or it reads on from a reader on every way round. Every cycle of the call graph needs a set of visited numbers that is checked and extended before the recursive call, a depth that is counted and compared with a limit, or arguments that are parts of what the function was given. Loops and recursive calls without such an argument are reported."}
	c := newC02(p, r)
	for _, f := range p.Lib {
		c.loops(f)
	}
	c.recursion()
	return r
}

func newC02(p *Program, r *Result) *c02 {
	return &c02{p: p, n: NewNum(p), r: r, pathsM: map[pathKey]bool{}, movesM: map[moveKey][2]int{}, steps: map[*ssa.Function]bool{}, limM: map[limKey]int{}, edges: map[[2]*ssa.BasicBlock]*facts{}}
}

// ---- loops

func (c *c02) loops(f *ssa.Function) {
	loops := c.n.loopsOf(f)
	var heads []*ssa.BasicBlock
	for h := range loops {
		heads = append(heads, h)
	}
	sort.Slice(heads, func(i, j int) bool { return heads[i].Index < heads[j].Index })
	for _, h := range heads {
		c.r.Count("loops", 1)
		body := loops[h]
		how := c.terminates(f, h, body)
		if how == "" {
			c.r.Violate("loop", c.p.FuncName(f), c.loopPos(h, body), "no measure shows that this loop of %s comes to an end within a number of iterations limited by the size of the input", c.p.FuncName(f))
		} else {
			c.r.Count("loops_"+how, 1)
		}
	}
}

func (c *c02) loopPos(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) string {
	for _, ins := range h.Instrs {
		if _, ok := ins.(*ssa.Phi); !ok && ins.Pos().IsValid() {
			return c.p.InstrPos(ins)
		}
	}
	best := ""
	for _, b := range h.Parent().Blocks {
		if body[b] {
			for _, ins := range b.Instrs {
				if ins.Pos().IsValid() && best == "" {
					best = c.p.InstrPos(ins)
				}
			}
		}
	}
	return best
}

func (c *c02) terminates(f *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) string {
	if c.overCollection(h, body) {
		return "collection"
	}
	if c.measured(h, body) {
		return "measure"
	}
	if c.halves(h, body) {
		return "halving"
	}
	if c.remembers(h, body) {
		return "visited"
	}
	if c.consumes(h, body) {
		return "consuming"
	}
	return ""
}

// overCollection: a range over a map or string that existed before the loop and that the loop does not extend.
func (c *c02) overCollection(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	for _, ins := range h.Instrs {
		nx, ok := ins.(*ssa.Next)
		if !ok {
			continue
		}
		rg, ok := nx.Iter.(*ssa.Range)
		if !ok || body[rg.Block()] {
			return false
		}
		if !isMap(rg.X.Type()) {
			return true
		}
		for b := range body {
			for _, i := range b.Instrs {
				if mu, ok := i.(*ssa.MapUpdate); ok && c.n.sameVal(mu.Map, rg.X) {
					if ex, ok := mu.Key.(*ssa.Extract); !ok || ex.Tuple != ssa.Value(nx) {
						return false
					}
				}
			}
		}
		return true
	}
	return false
}

type measure struct {
	phis []*ssa.Phi
	sign []int64
}

// value of the measure when phi k has value vals[k]
func (c *c02) eval(m measure, vals []ssa.Value) lin {
	l := konst(0)
	for i, phi := range m.phis {
		if isInt(phi.Type()) {
			l = l.add(c.ideal(vals[i], 0), m.sign[i])
		} else {
			l = l.add(c.n.Len(vals[i]), m.sign[i])
		}
	}
	return l
}

// ideal is the number as if there were no wrapping round: a 64-bit number that takes part in a measure starts small,
// changes in limited steps and is compared with a limited number, so it does not get near its ends.
func (c *c02) ideal(v ssa.Value, d int) lin {
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) && d < 6 {
		if _, _, narrow := intRange(b.Type()); !narrow && !unsigned(b.Type()) {
			k := int64(1)
			if b.Op == token.SUB {
				k = -1
			}
			x, y := c.ideal(b.X, d+1), c.ideal(b.Y, d+1)
			if len(y.t) == 0 && y.c < 1<<20 && y.c > -(1<<20) || c.small(b.X, true, 0) && c.small(b.X, false, 0) && c.small(b.Y, true, 0) && c.small(b.Y, false, 0) {
				return x.add(y, k)
			}
		}
	}
	return c.n.Lin(v)
}

func (c *c02) self(m measure) lin {
	l := konst(0)
	for i, phi := range m.phis {
		l = l.add(lin{t: map[atom]int64{{v: phi, len: !isInt(phi.Type())}: 1}}, m.sign[i])
	}
	return l
}

func (c *c02) measured(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	var phis []*ssa.Phi
	for _, ins := range h.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if isInt(phi.Type()) || isString(phi.Type()) || isSlice(phi.Type()) {
			phis = append(phis, phi)
		}
	}
	for _, phi := range phis {
		for _, s := range []int64{1, -1} {
			if s == 1 && !isInt(phi.Type()) {
				continue
			}
			if c.ranks(measure{[]*ssa.Phi{phi}, []int64{s}}, h, body) {
				return true
			}
		}
	}
	for i, a := range phis {
		for _, b := range phis[i+1:] {
			for _, s := range [][]int64{{1, 1}, {-1, -1}, {1, -1}, {-1, 1}} {
				if c.ranks(measure{[]*ssa.Phi{a, b}, s}, h, body) {
					return true
				}
			}
		}
	}
	return false
}

func isSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

func (c *c02) ranks(m measure, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	self := c.self(m)
	// grows on every way back to the head
	var bounds, lows []lin
	first, paths := true, false
	for i, p := range h.Preds {
		if !body[p] {
			continue
		}
		vals := make([]ssa.Value, len(m.phis))
		for k, phi := range m.phis {
			vals[k] = phi.Edges[i]
		}
		if !paths && !c.grows(c.eval(m, vals).add(self, -1).minus(1), p, h, body, 0) {
			if len(m.phis) > 1 || !c.growsOnPaths(m, h, body) {
				return false
			}
			paths = true
		}
		if first {
			bounds, lows = c.bounds(m, self, p, h, body)
			first = false
		}
	}
	latched := func(l lin) bool {
		for _, p := range h.Preds {
			if body[p] && !c.showOn(l, p, h) {
				return false
			}
		}
		return true
	}
	entered := func(l func(i int) lin) bool {
		for i, p := range h.Preds {
			if !body[p] && !c.limited(l(i), p, h) {
				return false
			}
		}
		return true
	}
	for _, u := range bounds {
		// the number of iterations is limited by the first value
		if entered(func(i int) lin {
			vals := make([]ssa.Value, len(m.phis))
			for k, phi := range m.phis {
				vals[k] = phi.Edges[i]
			}
			return u.add(c.eval(m, vals), -1)
		}) && latched(u.add(self, -1)) {
			return true
		}
	}
	for _, u := range bounds {
		// or by the smallest value that can stay in the loop
		for _, lo := range lows {
			if entered(func(int) lin { return u.add(lo, -1) }) && latched(u.add(self, -1)) && latched(self.add(lo, -1)) {
				return true
			}
		}
	}
	return false
}

// edge is what is known when control goes from p to s.
func (c *c02) edge(p, s *ssa.BasicBlock) *facts {
	key := [2]*ssa.BasicBlock{p, s}
	if f, ok := c.edges[key]; ok {
		return f
	}
	up := c.n.factsAt(p, len(p.Instrs))
	f := &facts{nils: map[ssa.Value]int{}, strong: up.strong, sharp: map[int]bool{}}
	f.list = append(f.list, up.list...)
	f.extra = append(f.extra, up.extra...)
	for k := range up.sharp {
		f.sharp[k] = true
	}
	for k, v := range up.nils {
		f.nils[k] = v
	}
	was := len(f.list)
	c.n.edgeFacts(f, p, s)
	for _, g := range f.list[was:] {
		f.strong = f.strong && !g.ne
	}
	c.edges[key] = f
	return f
}

func (c *c02) showOn(goal lin, p, s *ssa.BasicBlock) bool {
	if len(goal.t) == 0 {
		return goal.c >= 0
	}
	e := c.edge(p, s)
	for _, f := range e.list {
		if !f.ne {
			if d := goal.add(f.l, -1); len(d.t) == 0 && d.c >= 0 {
				return true
			}
		}
	}
	// without going into disequalities
	c.n.work, c.n.limit = 0, 20000
	if q := c.n.newProof(&facts{list: e.list, extra: e.extra, nils: e.nils, strong: true, sharp: e.sharp}, p, nil, 1); q.show(goal, 2) || q.show(goal, 4) {
		return true
	}
	c.n.work, c.n.limit = 0, 60000
	q := c.n.newProof(e, p, nil, 2)
	return q.show(goal, 2) || q.show(goal, 4) || q.show(goal, 6)
}

// grows: goal >= 0 on the edge from p to s; where its values come together at a join, on all the ways into that.
func (c *c02) grows(goal lin, p, s *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, d int) bool {
	if len(goal.t) == 0 {
		return goal.c >= 0
	}
	var join *ssa.BasicBlock
	for a := range goal.t {
		if phi, ok := a.v.(*ssa.Phi); ok && body[phi.Block()] && !isLoopHead(phi.Block()) && (join == nil || phi.Block().Index > join.Index) {
			join = phi.Block()
		}
	}
	if join == nil || d > 8 {
		return c.showOn(goal, p, s)
	}
	split := true
	for i, q := range join.Preds {
		in := goal
		for a, k := range goal.t {
			if phi, ok := a.v.(*ssa.Phi); ok && phi.Block() == join {
				v := c.n.Len
				if !a.len {
					v = func(v ssa.Value) lin { return c.ideal(v, 0) }
				}
				in = in.add(lin{t: map[atom]int64{a: 1}}, -k).add(v(phi.Edges[i]), k)
			}
		}
		if !c.grows(in, q, join, body, d+1) {
			split = false
			break
		}
	}
	return split || c.showOn(goal, p, s)
}

// bounds: upper and lower bounds of the measure that do not change in the loop, taken from what is known at the latch.
func (c *c02) bounds(m measure, self lin, p, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (ups, lows []lin) {
	fixed := func(u lin) bool {
		for a := range u.t {
			if ins, ok := a.v.(ssa.Instruction); ok && body[ins.Block()] {
				return false
			}
		}
		return true
	}
	put := func(list *[]lin, u lin) {
		if !fixed(u) {
			return
		}
		for _, o := range *list {
			if c.n.str(o) == c.n.str(u) {
				return
			}
		}
		*list = append(*list, u)
	}
	for _, f := range c.edge(p, h).list {
		if f.ne {
			continue
		}
		up, low := false, false
		for i, phi := range m.phis {
			switch f.l.t[atom{v: phi, len: !isInt(phi.Type())}] {
			case -m.sign[i]:
				up = true
			case m.sign[i]:
				low = true
			}
		}
		if up {
			put(&ups, f.l.add(self, 1))
		}
		if low {
			put(&lows, self.add(f.l, -1))
		}
	}
	put(&ups, konst(0))
	put(&lows, konst(0))
	for _, f := range c.edge(p, h).list {
		for a := range f.l.t {
			if a.len && !f.ne {
				put(&ups, lin{t: map[atom]int64{a: 1}})
				put(&lows, lin{t: map[atom]int64{a: -1}})
			}
		}
	}
	return ups, lows
}

// limited: the number is bounded by the size of the data, a fixed limit or something the caller asked for.
func (c *c02) limited(l lin, p, s *ssa.BasicBlock) bool { return c.limitedAt(l, p, s, 0) }

func (c *c02) limitedAt(l lin, p, s *ssa.BasicBlock, d int) bool {
	return c.limitedWith(l, c.edge(p, s), p, d)
}

// limitedWith: as above, with what is known at some place in block p.
func (c *c02) limitedWith(l lin, known *facts, p *ssa.BasicBlock, d int) bool {
	if c.limitedLin(l) {
		return true
	}
	var fs []lin
	for _, f := range known.list {
		if !f.ne {
			fs = append(fs, f.l)
			// as if sums did not wrap round
			id := lin{c: f.l.c}
			for a, k := range f.l.t {
				if a.len {
					id = id.add(lin{t: map[atom]int64{a: 1}}, k)
				} else {
					id = id.add(c.ideal(a.v, 0), k)
				}
			}
			if c.n.str(id) != c.n.str(f.l) {
				fs = append(fs, id)
			}
		}
	}
	for _, f := range fs {
		if c.limitedLin(l.add(f, 1)) {
			return true
		}
	}
	for i, f := range fs {
		for _, g := range fs[:i] {
			if c.limitedLin(l.add(f, 1).add(g, 1)) {
				return true
			}
		}
	}
	if d > 4 {
		return false
	}
	// on all the ways into a join of values
	var join *ssa.BasicBlock
	for a := range l.t {
		if phi, ok := a.v.(*ssa.Phi); ok && !a.len && !isLoopHead(phi.Block()) && (phi.Block() == p || phi.Block().Dominates(p)) && (join == nil || phi.Block().Index > join.Index) {
			join = phi.Block()
		}
	}
	if join == nil {
		return false
	}
	for i, q := range join.Preds {
		in := l
		for a, k := range l.t {
			if phi, ok := a.v.(*ssa.Phi); ok && !a.len && phi.Block() == join {
				in = in.add(lin{t: map[atom]int64{a: 1}}, -k).add(c.ideal(phi.Edges[i], 0), k)
			}
		}
		if !c.limitedAt(in, q, join, d+1) {
			return false
		}
	}
	return true
}

func (c *c02) limitedLin(l lin) bool {
	if l.c > 1<<30 || c.strict && l.c > 1<<28 {
		return false
	}
	for a, k := range l.t {
		if a.len {
			continue
		}
		if !c.small(a.v, k > 0, 0) {
			return false
		}
	}
	return true
}

type limKey struct {
	v  ssa.Value
	up bool
}

// small: the value is bounded from above (up) or below by the size of the data or a fixed limit. A loop counter is,
// because all loops are: it changes by a bounded amount in each of a bounded number of iterations.
func (c *c02) small(v ssa.Value, up bool, d int) bool {
	if lo, hi, ok := intRange(v.Type()); ok && (up && hi <= 1<<16 || !up && lo >= -(1<<16)) {
		return true
	}
	key := limKey{v, up}
	if k, ok := c.limM[key]; ok {
		if k == 0 {
			c.open++
		}
		return k >= 0
	}
	if d > 20 {
		return false
	}
	c.limM[key] = 0
	was := c.open
	r := c.small1(v, up, d)
	if !r {
		c.limM[key] = -1
	} else if was == c.open || d == 0 {
		c.limM[key] = 1
	} else {
		delete(c.limM, key)
	}
	if d == 0 {
		c.open = 0
	}
	return r
}

func (c *c02) small1(v ssa.Value, up bool, d int) bool {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return true
		}
		i, ok := constant.Int64Val(constant.ToInt(x.Value))
		return ok && i < 1<<30 && i > -(1<<30) && !(c.strict && i > 1<<28)
	case *ssa.Convert:
		return isInt(x.X.Type()) && c.small(x.X, up, d+1)
	case *ssa.ChangeType:
		return c.small(x.X, up, d+1)
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB, token.MUL:
			was := c.open
			if x.Op == token.MUL && c.strict && !isConst(x.X) && !isConst(x.Y) && !(c.inMemory(x.X) && c.inMemory(x.Y)) {
				return false
			}
			if !c.small(x.X, up, d+1) {
				return false
			}
			one := c.open > was
			was = c.open
			side := up
			if x.Op == token.SUB {
				side = !up
			}
			if !c.small(x.Y, side, d+1) || x.Op == token.MUL && (!c.small(x.X, !up, d+1) || !c.small(x.Y, !up, d+1)) {
				return false
			}
			// not a number that is doubled in every iteration
			two := c.open > was
			return !(one && two) && !(x.Op == token.MUL && (one || two))
		case token.REM, token.AND:
			return c.small(x.Y, up, d+1) || c.small(x.X, up, d+1)
		case token.QUO, token.SHR:
			return c.small(x.X, up, d+1)
		}
		return false
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !c.small(e, up, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "copy":
				return true
			case "min", "max":
				for _, a := range x.Call.Args {
					if !c.small(a, up, d+1) {
						return false
					}
				}
				return true
			}
			return false
		}
		if n := calleeFullName(x); tameResult[n] || n == "(image.Rectangle).Dx" || n == "(image.Rectangle).Dy" {
			return true
		}
		if f := x.Call.StaticCallee(); f != nil && c.p.inMod[f] && f.Signature.Results().Len() == 1 {
			return c.smallResult(f, 0, up, d)
		}
		return false
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			_, str := t.Iter.(*ssa.Range)
			return str && t.IsString
		case *ssa.Call:
			if tameResult[calleeFullName(t)] {
				return true
			}
			if f := t.Call.StaticCallee(); f != nil && c.p.inMod[f] {
				return c.smallResult(f, x.Index, up, d)
			}
		}
		return false
	case *ssa.UnOp:
		switch x.Op {
		case token.SUB:
			return c.small(x.X, !up, d+1)
		case token.MUL:
			if k := c.n.canon(x); k != ssa.Value(x) {
				return c.small(k, up, d+1)
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok && c.n.positions(ia.X, 0) {
				return true
			}
			inside := false
			if c.askedFor(x.X, d, &inside) && !inside {
				return true
			}
			key := locKey(x.X)
			if key == "" || d > 8 {
				return false
			}
			c.n.scanStores()
			ss, ok := storesOf[key]
			if !ok || leaked[key] && !inside {
				return false
			}
			for _, s := range ss {
				if !c.small(s.Val, up, d+1) {
					return false
				}
			}
			return true
		}
		return false
	case *ssa.Parameter:
		f := x.Parent()
		// an exported function is asked for it by its caller
		if !exportedAPI(f) && (c.p.addrUsed[f] || len(c.p.callers[f]) == 0) || d > 12 {
			return false
		}
		i := paramIndex(x)
		for _, call := range c.p.callers[f] {
			a := argFor(call, f, i)
			if a == nil || !c.small(a, up, d+1) && !(up && c.limitedArg(a, call, d+1)) {
				return false
			}
		}
		return true
	}
	return false
}

// limitedArg: the number is limited by what is known at the call it is passed to.
func (c *c02) limitedArg(a ssa.Value, call ssa.CallInstruction, d int) bool {
	if d > 6 {
		return false
	}
	for i, ins := range call.Block().Instrs {
		if ins == ssa.Instruction(call) {
			return c.limitedVal(a, call, c.n.factsAt(call.Block(), i), 0)
		}
	}
	return false
}

// limitedVal: the number is limited at the instruction, with what is known there; also products and quotients.
func (c *c02) limitedVal(v ssa.Value, at ssa.Instruction, known *facts, d int) bool {
	if c.limitedWith(c.ideal(v, 0), known, at.Block(), 2) || c.limitedWith(c.n.Lin(v), known, at.Block(), 2) {
		return true
	}
	if d > 6 {
		return false
	}
	notNegative := func(v ssa.Value) bool {
		k, ok := v.(*ssa.Const)
		return ok && k.Int64() >= 0 || unsigned(v.Type()) || c.n.Prove(c.n.Lin(v), at)
	}
	fixed := func(v ssa.Value) bool {
		return notNegative(v) && c.n.Prove(lessEq(c.n.Lin(v), konst(1<<16)), at)
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return isInt(x.X.Type()) && c.limitedVal(x.X, at, known, d+1)
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			return c.limitedVal(x.X, at, known, d+1) && c.limitedVal(x.Y, at, known, d+1)
		case token.QUO, token.SHR:
			return c.limitedVal(x.X, at, known, d+1)
		case token.MUL:
			product := func(v ssa.Value) bool { // of factors that are not negative
				b, ok := v.(*ssa.BinOp)
				return notNegative(v) || ok && b.Op == token.MUL && notNegative(b.X) && notNegative(b.Y)
			}
			bounded := func(v ssa.Value) bool {
				b, ok := v.(*ssa.BinOp)
				return fixed(v) || ok && b.Op == token.MUL && fixed(b.X) && fixed(b.Y)
			}
			return bounded(x.X) && product(x.Y) && c.limitedVal(x.Y, at, known, d+1) ||
				bounded(x.Y) && product(x.X) && c.limitedVal(x.X, at, known, d+1)
		}
	}
	return false
}

func (c *c02) smallResult(f *ssa.Function, k int, up bool, d int) bool {
	if d > 12 {
		return false
	}
	found := false
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			found = true
			if !c.small(ret.Results[k], up, d+1) && !(up && d < 6 && c.limitedVal(ret.Results[k], ret, c.n.factsAt(b, len(b.Instrs)-1), 3)) {
				return false
			}
		}
	}
	return found
}

// askedFor: the address lies in a structure an exported function was given by its caller; inside is set when that caller
// may also be the library.
func (c *c02) askedFor(a ssa.Value, d int, inside *bool) bool {
	for i := 0; i < 10; i++ {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			a = x.X
		case *ssa.Alloc:
			// a local copy
			var src ssa.Value
			for _, ref := range *x.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					if src != nil {
						return false
					}
					src = st.Val
				}
			}
			if src == nil {
				return false
			}
			a = src
		case *ssa.Parameter:
			f := x.Parent()
			if f.Signature.Recv() != nil && x == f.Params[0] || d > 12 {
				return false
			}
			calls := c.p.callers[f]
			if !exportedAPI(f) && (c.p.addrUsed[f] || len(calls) == 0) {
				return false
			}
			for _, call := range calls {
				if v := argFor(call, f, paramIndex(x)); v == nil || !c.askedFor(v, d+1, inside) {
					if !exportedAPI(f) {
						return false
					}
					*inside = true
				}
			}
			return true
		default:
			return false
		}
	}
	return false
}

// halves: a number above zero is divided or shifted down in every iteration.
func (c *c02) halves(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	for _, ins := range h.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if !isInt(phi.Type()) {
			continue
		}
		good, any := true, false
		for i, p := range h.Preds {
			if !body[p] {
				continue
			}
			any = true
			b, ok := phi.Edges[i].(*ssa.BinOp)
			if !ok || b.X != ssa.Value(phi) || b.Op != token.QUO && b.Op != token.SHR || !c.showOn(c.n.Lin(phi).minus(1), p, h) {
				good = false
				break
			}
			k, ok := b.Y.(*ssa.Const)
			if !ok || k.Value == nil {
				good = false
				break
			}
			v, ok := constant.Int64Val(constant.ToInt(k.Value))
			if !ok || b.Op == token.QUO && v < 2 || b.Op == token.SHR && v < 1 {
				good = false
				break
			}
		}
		if good && any {
			return true
		}
	}
	return false
}

// remembers: every iteration enters a number into a set and goes on only with one that is not in it yet.
func (c *c02) remembers(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	for b := range body {
		for _, ins := range b.Instrs {
			mu, ok := ins.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			if d, ok := mu.Map.(ssa.Instruction); ok && body[d.Block()] {
				continue
			}
			key, ok := mu.Key.(*ssa.Phi)
			if !ok || key.Block() != h {
				continue
			}
			good := true
			for i, p := range h.Preds {
				if !body[p] {
					continue
				}
				// the number is entered on every way round, and was or will be looked up
				if !mu.Block().Dominates(p) || !(c.absent(mu, key, p, h) || c.absent(mu, key.Edges[i], p, h)) {
					good = false
					break
				}
			}
			if good && !c.deletes(mu.Map, body) {
				return true
			}
		}
	}
	return false
}

func (c *c02) deletes(m ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	for b := range body {
		for _, ins := range b.Instrs {
			if call, ok := ins.(*ssa.Call); ok {
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" && c.n.sameVal(call.Call.Args[0], m) {
					return true
				}
			}
		}
	}
	return false
}

// absent: on the edge it is known that a lookup of key in the map of mu found nothing.
func (c *c02) absent(mu *ssa.MapUpdate, key ssa.Value, p, s *ssa.BasicBlock) bool {
	return c.absentIn(mu.Map, key, isTrue(mu.Value), c.edge(p, s))
}

func (c *c02) absentIn(m, key ssa.Value, bools bool, f *facts) bool {
	for v, t := range f.nils {
		if t != -1 {
			continue
		}
		switch x := v.(type) {
		case *ssa.Extract:
			l, ok := x.Tuple.(*ssa.Lookup)
			if ok && l.CommaOk && x.Index == 1 && c.n.sameVal(l.X, m) && c.n.sameVal(l.Index, key) {
				return true
			}
		case *ssa.Lookup:
			if bools && !x.CommaOk && isBoolType(x.Type()) && c.n.sameVal(x.X, m) && c.n.sameVal(x.Index, key) {
				return true
			}
		}
	}
	return false
}

func isTrue(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value)
}

// ---- loops that read from something with a position

// consumes: every way round the loop moves the position of one reader forward, and it cannot pass the end.
func (c *c02) consumes(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	seen := map[ssa.Value]bool{}
	for b := range body {
		for _, ins := range b.Instrs {
			call, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			for _, a := range call.Call.Args {
				if seen[a] || !c.isReader(a.Type()) {
					continue
				}
				seen[a] = true
				if d, ok := a.(ssa.Instruction); ok && body[d.Block()] {
					continue
				}
				if c.advances(a, h, body) >= 1 {
					return true
				}
			}
		}
	}
	return false
}

// stdReaders: methods that move forward whenever they succeed.
var stdReaders = map[string]map[string]bool{
	"*encoding/xml.Decoder":  {"Token": true, "RawToken": true},
	"*encoding/json.Decoder": {"Token": true},
	"*bufio.Reader":          {"ReadByte": true, "ReadRune": true, "ReadBytes": true, "ReadString": true},
	"*bytes.Reader":          {"ReadByte": true, "ReadRune": true},
	"*bytes.Buffer":          {"ReadByte": true, "ReadRune": true},
	"*strings.Reader":        {"ReadByte": true, "ReadRune": true},
}

func (c *c02) isReader(t types.Type) bool {
	if stdReaders[t.String()] != nil {
		return true
	}
	return c.readByteOf(t) != nil
}

// readByteOf is the ReadByte method of a reader of this module.
func (c *c02) readByteOf(t types.Type) *ssa.Function {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return nil
	}
	nt, ok := pt.Elem().(*types.Named)
	if !ok || nt.Obj().Pkg() == nil {
		return nil
	}
	sel := c.p.Prog.MethodSets.MethodSet(t).Lookup(nt.Obj().Pkg(), "ReadByte")
	if sel == nil {
		return nil
	}
	f := c.p.Prog.MethodValue(sel)
	if f == nil || !c.p.inMod[f] || f.Signature.Results().Len() != 2 {
		return nil
	}
	return f
}

const gone = -1 << 20 // the position may be anywhere

type progress struct {
	least   int
	pending map[*ssa.Call]int // more, when this call turns out to have succeeded
}

// advances is the least distance the position of s moves from the head of the loop to its latches.
func (c *c02) advances(s ssa.Value, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) int {
	least := 1 << 20
	c.follow(s, h, body, func(p *ssa.BasicBlock, out progress) {
		if out.least < least {
			least = out.least
		}
	}, nil)
	return least
}

// follow works out the least distance from block from on; latch gets what arrives back at it, ret what reaches a return.
func (c *c02) follow(s ssa.Value, from *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, latch func(*ssa.BasicBlock, progress), ret func(*ssa.Return, progress)) {
	in := map[*ssa.BasicBlock]*progress{from: {pending: map[*ssa.Call]int{}}}
	tells := map[*ssa.Call]int{}
	work := []*ssa.BasicBlock{from}
	rounds := map[*ssa.BasicBlock]int{}
	ends := map[*ssa.BasicBlock]progress{}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		st := progress{in[b].least, map[*ssa.Call]int{}}
		for k, v := range in[b].pending {
			st.pending[k] = v
		}
		if rounds[b]++; rounds[b] > 20 {
			st.least = gone
		}
		if rounds[b] > 40 {
			continue
		}
		for _, ins := range b.Instrs {
			c.move(s, ins, &st, tells)
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && ret != nil {
			ret(r, st)
		}
		for _, t := range b.Succs {
			if body != nil && !body[t] {
				continue
			}
			out := progress{st.least, map[*ssa.Call]int{}}
			f := &facts{nils: map[ssa.Value]int{}}
			c.n.edgeFacts(f, b, t)
			for call, more := range st.pending {
				ok := false
				for v, k := range f.nils {
					if k == -1 && errOf(v) == call {
						ok = true
					}
				}
				if ok {
					out.least += more
				} else {
					out.pending[call] = more
				}
			}
			if t == from && latch != nil {
				ends[b] = out
				continue
			}
			old := in[t]
			if old == nil {
				in[t] = &out
				work = append(work, t)
				continue
			}
			// after both ways: the lesser distance, without and with the call having succeeded
			changed := false
			both := map[*ssa.Call]bool{}
			for call := range old.pending {
				both[call] = true
			}
			for call := range out.pending {
				both[call] = true
			}
			least := min(old.least, out.least)
			next := map[*ssa.Call]int{}
			for call := range both {
				was := old.least + old.pending[call]
				sum := min(was, out.least+out.pending[call])
				changed = changed || sum < was
				if sum > least {
					next[call] = sum - least
				}
			}
			changed = changed || least < old.least
			old.least, old.pending = least, next
			if changed {
				work = append(work, t)
			}
		}
	}
	for b, p := range ends {
		latch(b, p)
	}
}

// errOf is the call whose error v is.
func errOf(v ssa.Value) *ssa.Call {
	switch x := v.(type) {
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && isErrorType(x.Type()) {
			return c
		}
	case *ssa.Call:
		if isErrorType(x.Type()) {
			return x
		}
	}
	return nil
}

func (c *c02) move(s ssa.Value, ins ssa.Instruction, st *progress, tells map[*ssa.Call]int) {
	call, ok := ins.(*ssa.Call)
	if !ok {
		switch x := ins.(type) {
		case *ssa.Store:
			if x.Val == s {
				st.least = gone // someone else may move it
			} else if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fa.X == s {
				st.least = gone
			}
		case *ssa.MakeClosure, *ssa.Defer, *ssa.Go, *ssa.MakeInterface, *ssa.Send:
			for _, op := range ins.Operands(nil) {
				if *op == s {
					st.least = gone
				}
			}
		}
		return
	}
	delete(st.pending, call)
	at := -1
	for i, a := range call.Call.Args {
		if a == s {
			at = i
		}
	}
	if at < 0 {
		return
	}
	g := call.Call.StaticCallee()
	if g == nil {
		st.least = gone
		return
	}
	t := s.Type()
	method := at == 0 && g.Signature.Recv() != nil
	if std := stdReaders[t.String()]; std != nil && method {
		switch g.Name() {
		case "Seek", "Reset", "UnreadByte", "UnreadRune", "Write", "WriteByte", "WriteString", "WriteRune", "ReadFrom", "Truncate":
			st.least = gone
		default:
			if std[g.Name()] {
				st.pending[call] = 1
			}
		}
		return
	}
	if !c.p.inMod[g] {
		st.least = gone
		return
	}
	if method && types.Identical(t, g.Signature.Recv().Type()) && c.readByteOf(t) != nil {
		switch g.Name() {
		case "ReadByte":
			if c.stepsForward(g) {
				st.pending[call] = 1
			} else {
				st.least = gone
			}
			return
		case "Read", "Peek", "Len", "Size":
			return
		case "Tell":
			tells[call] = st.least
			return
		case "Seek":
			c.seek(s, call, st, tells)
			return
		}
	}
	all, nice := c.moves(g, at)
	st.least += all
	if st.least < gone {
		st.least = gone
	}
	if nice > all && all > gone {
		st.pending[call] = nice - all
	}
}

// seek follows the contract of io.Seeker.
func (c *c02) seek(s ssa.Value, call *ssa.Call, st *progress, tells map[*ssa.Call]int) {
	args := call.Call.Args
	if len(args) != 3 {
		st.least = gone
		return
	}
	whence, ok := args[2].(*ssa.Const)
	if !ok || whence.Value == nil {
		st.least = gone
		return
	}
	switch k, _ := constant.Int64Val(whence.Value); k {
	case 1:
		if d := c.n.Lin(args[1]); len(d.t) == 0 && d.c > -1000 {
			if d.c < 0 {
				st.least += int(d.c)
			}
			return
		}
	case 0:
		for t, least := range tells {
			if t.Block().Dominates(call.Block()) && c.atLeast(args[1], t, call) {
				st.least = least
				return
			}
		}
	}
	st.least = gone
}

func (c *c02) atLeast(v ssa.Value, tell *ssa.Call, at ssa.Instruction) bool {
	base := []ssa.Value{tell}
	for _, r := range *tell.Referrers() {
		if cv, ok := r.(*ssa.Convert); ok {
			base = append(base, cv)
		}
	}
	val := []ssa.Value{v}
	if cv, ok := v.(*ssa.Convert); ok {
		val = append(val, cv.X)
	}
	for _, x := range val {
		for _, y := range base {
			if c.n.Prove(c.n.Lin(x).add(c.n.Lin(y), -1), at) {
				return true
			}
		}
	}
	return false
}

// moves: the least distance over all returns of g, and over those with a nil error.
func (c *c02) moves(g *ssa.Function, at int) (int, int) {
	key := moveKey{g, at}
	if m, ok := c.movesM[key]; ok {
		return m[0], m[1]
	}
	c.movesM[key] = [2]int{gone, gone}
	if len(g.Blocks) == 0 || at >= len(g.Params) {
		return gone, gone
	}
	all, nice := 1<<20, 1<<20
	ei := errIndex(g.Signature)
	c.follow(g.Params[at], g.Blocks[0], nil, nil, func(r *ssa.Return, st progress) {
		l := st.least
		if l < all {
			all = l
		}
		if ei >= 0 {
			e := r.Results[ei]
			if k, ok := e.(*ssa.Const); ok && k.Value == nil {
				// succeeded
			} else if call := errOf(e); call != nil && st.pending[call] > 0 {
				l += st.pending[call]
			} else if c.n.factsAt(r.Block(), len(r.Block().Instrs)).nils[e] == 1 || alwaysNew(e) {
				return
			}
		}
		if l < nice {
			nice = l
		}
	})
	if all == 1<<20 {
		all = 0 // does not come back
	}
	if nice == 1<<20 {
		nice = all
	}
	c.movesM[key] = [2]int{all, nice}
	return all, nice
}

// alwaysNew: a call that makes an error.
func alwaysNew(e ssa.Value) bool {
	call, ok := e.(*ssa.Call)
	if !ok {
		return false
	}
	switch calleeFullName(call) {
	case "fmt.Errorf", "errors.New":
		return true
	}
	return false
}

type moveKey struct {
	f  *ssa.Function
	at int
}

// stepsForward: whenever the function returns a nil error, the position in its receiver has become greater, and it has
// not passed the end of the data.
func (c *c02) stepsForward(f *ssa.Function) bool {
	if k, ok := c.steps[f]; ok {
		return k
	}
	good := true
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		e := r.Results[len(r.Results)-1]
		if c.n.factsAt(b, len(b.Instrs)).nils[e] == 1 || alwaysNew(e) {
			continue
		}
		if u, ok := e.(*ssa.UnOp); ok && u.Op == token.MUL {
			if _, ok := u.X.(*ssa.Global); ok {
				continue // io.EOF
			}
		}
		ok = false
		if call := errOf(e); call != nil && len(call.Call.Args) == 1 && call.Call.Args[0] == ssa.Value(f.Params[0]) {
			// whatever the function it hands the reader on to does
			if g := call.Call.StaticCallee(); g != nil && c.p.inMod[g] && g.Signature.Results().Len() == 2 && len(g.Blocks) > 0 && g != f && c.stepsForward(g) && c.onlyUse(f, call) {
				continue
			}
		}
		for _, bb := range f.Blocks {
			for _, ins := range bb.Instrs {
				st, k := ins.(*ssa.Store)
				if k && bb.Dominates(b) && c.stepStore(f, st) {
					ok = true
				}
			}
		}
		good = good && ok
	}
	c.steps[f] = good
	return good
}

// onlyUse: the function does nothing else with its receiver.
func (c *c02) onlyUse(f *ssa.Function, call *ssa.Call) bool {
	for _, r := range *f.Params[0].Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok && r != ssa.Instruction(call) {
			return false
		}
	}
	return true
}

func (c *c02) stepStore(f *ssa.Function, st *ssa.Store) bool {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok || fa.X != ssa.Value(f.Params[0]) || !isInt(st.Val.Type()) {
		return false
	}
	up, in := false, false
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			u, ok := ins.(*ssa.UnOp)
			if !ok || u.Op != token.MUL || !b.Dominates(st.Block()) {
				continue
			}
			g, ok := u.X.(*ssa.FieldAddr)
			if !ok || g.X != fa.X {
				continue
			}
			if g.Field == fa.Field && !up && c.unwritten(f, fa.Field, u, st) {
				up = c.n.Prove(c.ideal(st.Val, 0).add(c.n.Lin(u), -1).minus(1), st)
			}
			if (isSlice(u.Type()) || isString(u.Type())) && !in {
				in = c.n.Prove(c.n.Len(u).add(c.n.Lin(st.Val), -1), st)
			}
		}
	}
	return up && in
}

// unwritten: st is the only store to the field.
func (c *c02) unwritten(f *ssa.Function, field int, u *ssa.UnOp, st *ssa.Store) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok && s != st {
				if g, ok := s.Addr.(*ssa.FieldAddr); ok && g.Field == field && types.Identical(g.X.Type(), f.Params[0].Type()) {
					return false
				}
			}
		}
	}
	return true
}

// ---- ways round a loop, one by one

// A zlin is a number as a sum of named unknowns; the names stand for what the path has computed, so that two loads of the
// same element are one unknown.
type zlin struct {
	c int64
	t map[string]int64
}

func (z zlin) add(o zlin, k int64) zlin {
	r := zlin{z.c + k*o.c, map[string]int64{}}
	for n, v := range z.t {
		r.t[n] = v
	}
	for n, v := range o.t {
		if r.t[n] += k * v; r.t[n] == 0 {
			delete(r.t, n)
		}
	}
	return r
}

func (z zlin) key() string {
	var ns []string
	for n := range z.t {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	s := ""
	for _, n := range ns {
		s += fmt.Sprintf("%+d*%s", z.t[n], n)
	}
	return s
}

func name(n string) zlin { return zlin{0, map[string]int64{n: 1}} }

// zone is what a path has found out: lower bounds for sums of unknowns, and sums that are not zero.
type zone struct {
	low map[string]int64 // key of the sum -> lower bound
	sum map[string]zlin  // the sum without its constant
	not []zlin
}

func (z *zone) copy() *zone {
	r := &zone{low: map[string]int64{}, sum: map[string]zlin{}}
	for k, v := range z.low {
		r.low[k] = v
	}
	for k, v := range z.sum {
		r.sum[k] = v
	}
	r.not = append(r.not, z.not...)
	return r
}

// ge records l >= 0.
func (z *zone) ge(l zlin) {
	if len(l.t) == 0 {
		if l.c < 0 {
			z.low[""] = 1 // a contradiction
			z.sum[""] = zlin{}
		}
		return
	}
	b := zlin{0, l.t}
	k := b.key()
	if old, ok := z.low[k]; !ok || -l.c > old {
		z.low[k] = -l.c
		z.sum[k] = b
	}
}

// shows: l >= 0 follows from the recorded bounds, at most three of them added up.
func (z *zone) shows(l zlin, depth int) bool {
	if _, ok := z.low[""]; ok {
		return true
	}
	if len(l.t) == 0 {
		return l.c >= 0
	}
	b := zlin{0, l.t}
	if old, ok := z.low[b.key()]; ok && old >= -l.c {
		return true
	}
	if depth == 0 || len(l.t) > 4 {
		return false
	}
	for k, s := range z.sum {
		hit := false
		for n, v := range s.t {
			if l.t[n]*v > 0 {
				hit = true
			}
		}
		if hit && z.shows(l.add(s, -1).add(zlin{c: z.low[k]}, 1), depth-1) {
			return true
		}
	}
	return false
}

func (z *zone) dead() bool {
	if _, ok := z.low[""]; ok {
		return true
	}
	for _, n := range z.not {
		if z.shows(n, 2) && z.shows(zlin{}.add(n, -1), 2) {
			return true
		}
	}
	for k, s := range z.sum {
		// a sum whose opposite is bounded the other way
		if z.shows(zlin{z.low[k] - 1, nil}.add(s, -1), 2) {
			return true
		}
	}
	return false
}

type pathWalk struct {
	c     *c02
	m     measure
	h     *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	stepM map[*ssa.Phi]int64
	steps int
	bad   bool
}

type pathState struct {
	env    map[ssa.Value]zlin
	seen   map[*ssa.BasicBlock]int
	z      *zone
	rounds map[*ssa.BasicBlock]int
	mem    int
	bools  map[ssa.Value]int
}

func (s *pathState) copy() *pathState {
	r := &pathState{env: map[ssa.Value]zlin{}, seen: map[*ssa.BasicBlock]int{}, rounds: map[*ssa.BasicBlock]int{}, z: s.z.copy(), mem: s.mem, bools: map[ssa.Value]int{}}
	for k, v := range s.env {
		r.env[k] = v
	}
	for k, v := range s.seen {
		r.seen[k] = v
	}
	for k, v := range s.rounds {
		r.rounds[k] = v
	}
	for k, v := range s.bools {
		r.bools[k] = v
	}
	return r
}

// growsOnPaths follows all ways from the head of the loop back to it; of an inner loop, the first test and what is true
// after any number of iterations.
func (c *c02) growsOnPaths(m measure, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	key := pathKey{h, c.n.str(c.self(m))}
	if k, ok := c.pathsM[key]; ok {
		return k
	}
	w := &pathWalk{c: c, m: m, h: h, body: body, stepM: map[*ssa.Phi]int64{}}
	st := &pathState{env: map[ssa.Value]zlin{}, seen: map[*ssa.BasicBlock]int{}, rounds: map[*ssa.BasicBlock]int{}, z: &zone{low: map[string]int64{}, sum: map[string]zlin{}}, bools: map[ssa.Value]int{}}
	for _, ins := range h.Instrs {
		if phi, ok := ins.(*ssa.Phi); ok {
			st.env[phi] = name("h" + phi.Name())
		}
	}
	w.block(h, st)
	good := !w.bad && w.steps < 60000
	c.pathsM[key] = good
	return good
}

type pathKey struct {
	h *ssa.BasicBlock
	m string
}

func (w *pathWalk) eval(v ssa.Value, st *pathState, d int) zlin {
	if z, ok := st.env[v]; ok {
		return z
	}
	l := w.c.ideal(v, 0)
	r := zlin{c: l.c}
	for a, k := range l.t {
		r = r.add(w.atom(a, v, st, d), k)
	}
	return r
}

func (w *pathWalk) atom(a atom, self ssa.Value, st *pathState, d int) zlin {
	if z, ok := st.env[a.v]; ok && !a.len {
		return z
	}
	n := w.id(a.v, st, d)
	if a.len {
		z := name("len " + n)
		st.z.ge(z)
		return z
	}
	if lo, hi, ok := intRange(a.v.Type()); ok && hi < 1<<20 {
		st.z.ge(name(n).add(zlin{c: lo}, -1))
		st.z.ge(zlin{c: hi}.add(name(n), -1))
	}
	return name(n)
}

// id names a value: an element by what it is an element of and its number, others by instruction and iteration.
func (w *pathWalk) id(v ssa.Value, st *pathState, d int) string {
	if d < 4 {
		switch x := v.(type) {
		case *ssa.Lookup:
			if !isMap(x.X.Type()) {
				i := w.eval(x.Index, st, d+1)
				return fmt.Sprintf("(%s)[%s%+d]", w.id(x.X, st, d+1), i.key(), i.c)
			}
		case *ssa.Index:
			i := w.eval(x.Index, st, d+1)
			return fmt.Sprintf("(%s)[%s%+d]", w.id(x.X, st, d+1), i.key(), i.c)
		case *ssa.UnOp:
			if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
				i := w.eval(ia.Index, st, d+1)
				return fmt.Sprintf("(%s)[%s%+d]@%d", w.id(ia.X, st, d+1), i.key(), i.c, st.mem)
			}
		case *ssa.Convert:
			if isInt(x.X.Type()) && isInt(x.Type()) {
				return w.id(x.X, st, d+1)
			}
		}
	}
	if ins, ok := v.(ssa.Instruction); ok && w.body[ins.Block()] {
		return fmt.Sprintf("%s#%d", v.Name(), st.seen[ins.Block()])
	}
	return v.Name()
}

func (w *pathWalk) block(b *ssa.BasicBlock, st *pathState) {
	if w.steps++; w.steps >= 60000 || w.bad {
		return
	}
	st.seen[b]++
	for _, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.Store:
			st.mem++
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() == "copy" || b.Name() == "append" {
				st.mem++
			}
		case *ssa.Slice:
			// it did not panic
			if x.Low != nil && x.High != nil {
				st.z.ge(w.eval(x.High, st, 0).add(w.eval(x.Low, st, 0), -1))
			}
		}
	}
	switch t := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Jump:
		w.edge(b, b.Succs[0], st)
	case *ssa.If:
		for k, s := range b.Succs {
			if !w.body[s] {
				continue
			}
			n := st.copy()
			if w.assume(t.Cond, k == 0, n) && !n.z.dead() {
				w.edge(b, s, n)
			}
		}
	}
}

func (w *pathWalk) assume(cond ssa.Value, truth bool, st *pathState) bool {
	want := -1
	if truth {
		want = 1
	}
	if k, ok := st.bools[cond]; ok {
		return k == want
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return w.assume(x.X, !truth, st)
		}
	case *ssa.Const:
		return constant.BoolVal(x.Value) == truth
	case *ssa.BinOp:
		if !isInt(x.X.Type()) {
			break
		}
		a, b := w.eval(x.X, st, 0), w.eval(x.Y, st, 0)
		d := a.add(b, -1)
		op := x.Op
		if !truth {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		one := zlin{c: 1}
		neg := zlin{}.add(d, -1)
		switch op {
		case token.LSS:
			st.z.ge(neg.add(one, -1))
		case token.LEQ:
			st.z.ge(neg)
		case token.GTR:
			st.z.ge(d.add(one, -1))
		case token.GEQ:
			st.z.ge(d)
		case token.EQL:
			st.z.ge(d)
			st.z.ge(neg)
		case token.NEQ:
			st.z.not = append(st.z.not, d)
			if st.z.shows(d, 2) {
				st.z.ge(d.add(one, -1))
			} else if st.z.shows(neg, 2) {
				st.z.ge(neg.add(one, -1))
			}
		}
	}
	return true
}

func (w *pathWalk) edge(p, b *ssa.BasicBlock, st *pathState) {
	if !w.body[b] {
		return
	}
	at := -1
	for i, q := range b.Preds {
		if q == p {
			at = i
		}
	}
	if b == w.h {
		// all the way round: the measure has grown
		g := zlin{c: -1}
		for i, phi := range w.m.phis {
			if !isInt(phi.Type()) {
				w.bad = true
				return
			}
			g = g.add(w.eval(phi.Edges[at], st, 0), w.m.sign[i]).add(name("h"+phi.Name()), -w.m.sign[i])
		}
		if !st.z.shows(g, 3) {
			w.bad = true
		}
		return
	}
	var phis []*ssa.Phi
	for _, ins := range b.Instrs {
		if phi, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, phi)
		}
	}
	inner := w.c.n.loopsOf(b.Parent())[b]
	if inner != nil && inner[p] {
		// some iterations of an inner loop later
		if st.rounds[b] > 0 {
			return // covers the further ones
		}
		vals := map[ssa.Value]zlin{}
		for _, phi := range phis {
			if !isInt(phi.Type()) {
				continue
			}
			first := st.env[phi]
			v := name(fmt.Sprintf("%s~%d", phi.Name(), w.steps))
			if k, ok := w.step(phi, b, inner); ok {
				st.z.ge(v.add(first, -1).add(zlin{c: -k}, 1))
			}
			vals[phi] = v
		}
		for k, v := range vals {
			st.env[k] = v
		}
		for _, phi := range phis {
			delete(st.bools, phi)
		}
		st.mem += 1000
		st.rounds[b]++
		w.block(b, st)
		return
	}
	vals := map[ssa.Value]zlin{}
	bs := map[ssa.Value]int{}
	for _, phi := range phis {
		if isInt(phi.Type()) {
			vals[phi] = w.eval(phi.Edges[at], st, 0)
		} else if isBoolType(phi.Type()) {
			e := phi.Edges[at]
			if k, ok := e.(*ssa.Const); ok && k.Value != nil {
				bs[phi] = -1
				if constant.BoolVal(k.Value) {
					bs[phi] = 1
				}
			} else if k, ok := st.bools[e]; ok {
				bs[phi] = k
			}
		}
	}
	for k, v := range vals {
		st.env[k] = v
	}
	for _, phi := range phis {
		delete(st.bools, phi)
	}
	for k, v := range bs {
		st.bools[k] = v
	}
	if inner != nil {
		st.rounds[b] = 0
	}
	w.block(b, st)
}

// step: the phi of an inner loop grows by at least k in each iteration.
func (w *pathWalk) step(phi *ssa.Phi, b *ssa.BasicBlock, inner map[*ssa.BasicBlock]bool) (int64, bool) {
	if k, ok := w.stepM[phi]; ok {
		return k, k >= 0
	}
	w.stepM[phi] = -1
	m := measure{[]*ssa.Phi{phi}, []int64{1}}
	for _, k := range []int64{1, 0} {
		all := true
		for i, q := range b.Preds {
			if inner[q] && !w.c.grows(w.c.eval(m, []ssa.Value{phi.Edges[i]}).add(w.c.self(m), -1).minus(k), q, b, inner, 0) {
				all = false
				break
			}
		}
		if all {
			w.stepM[phi] = k
			return k, true
		}
	}
	return 0, false
}

// ---- recursion

type callEdge struct {
	from, to *ssa.Function
	site     ssa.CallInstruction // nil: from makes the closure to
}

func (c *c02) recursion() {
	edges := map[*ssa.Function][]callEdge{}
	byType := map[string][]*ssa.Function{}
	for _, f := range c.p.Lib {
		if c.p.addrUsed[f] {
			byType[f.Signature.String()] = append(byType[f.Signature.String()], f)
		}
	}
	for _, f := range c.p.Lib {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					if g, ok := mc.Fn.(*ssa.Function); ok {
						edges[f] = append(edges[f], callEdge{f, g, nil})
					}
				}
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				gs := c.p.Callees(call)
				if len(gs) == 0 {
					if _, builtin := call.Common().Value.(*ssa.Builtin); !builtin && !call.Common().IsInvoke() {
						if gs = closuresOf(call.Common().Value); gs == nil {
							gs = byType[call.Common().Signature().String()]
						}
					}
				}
				for _, g := range gs {
					if c.p.isLib[g] {
						edges[f] = append(edges[f], callEdge{f, g, call})
						c.r.Count("calls", 1)
					}
				}
			}
		}
	}
	for _, comp := range components(c.p.Lib, edges) {
		in := map[*ssa.Function]bool{}
		for _, f := range comp {
			in[f] = true
		}
		var inner []callEdge
		for _, f := range comp {
			for _, e := range edges[f] {
				if in[e.to] {
					inner = append(inner, e)
				}
			}
		}
		if len(inner) == 0 {
			continue
		}
		c.r.Count("recursive_groups", 1)
		c.r.Count("recursive_calls", len(inner))
		how := ""
		switch {
		case c.remembered(inner):
			how = "visited"
		case c.counted(inner):
			how = "depth"
		case c.structural(inner):
			how = "structure"
		}
		if how != "" {
			c.r.Count("recursion_"+how, 1)
			continue
		}
		where := c.p.FuncName(comp[0])
		for _, e := range inner {
			if e.site != nil && !c.guarded(e) {
				c.r.Violate("recursion", c.p.FuncName(e.from)+"->"+c.p.FuncName(e.to), c.p.InstrPos(e.site), "the recursive call of %s in %s is not limited by a set of the numbers already visited, a depth that is compared with a limit, or going down into a part of what the function was given", c.p.FuncName(e.to), c.p.FuncName(e.from))
				where = ""
			}
		}
		if where != "" {
			c.r.Violate("recursion", where, c.p.Pos(comp[0].Pos()), "nothing limits the recursion through %s", where)
		}
	}
}

// closuresOf: the functions a local function variable can hold, nil if that is not known.
func closuresOf(v ssa.Value) []*ssa.Function {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		if f, ok := x.Fn.(*ssa.Function); ok {
			return []*ssa.Function{f}
		}
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.UnOp:
		cell := x.X
		if fv, ok := cell.(*ssa.FreeVar); ok {
			cell = binding(fv)
		}
		a, ok := cell.(*ssa.Alloc)
		if !ok {
			return nil
		}
		var out []*ssa.Function
		for _, r := range *a.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
				if k, ok := st.Val.(*ssa.Const); ok && k.Value == nil {
					continue
				}
				if _, ok := st.Val.(*ssa.UnOp); ok {
					return nil
				}
				fs := closuresOf(st.Val)
				if fs == nil {
					return nil
				}
				out = append(out, fs...)
			}
		}
		return out
	}
	return nil
}

// binding is what a free variable stands for where its closure is made.
func binding(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	at := -1
	for i, v := range f.FreeVars {
		if v == fv {
			at = i
		}
	}
	if f.Parent() == nil || at < 0 {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
				if up, ok := mc.Bindings[at].(*ssa.FreeVar); ok {
					return binding(up)
				}
				return mc.Bindings[at]
			}
		}
	}
	return nil
}

// components are the strongly connected parts of the call graph.
func components(fs []*ssa.Function, edges map[*ssa.Function][]callEdge) [][]*ssa.Function {
	index, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	var out [][]*ssa.Function
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		index[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		for _, e := range edges[f] {
			if index[e.to] == 0 {
				visit(e.to)
				low[f] = min(low[f], low[e.to])
			} else if on[e.to] {
				low[f] = min(low[f], index[e.to])
			}
		}
		if low[f] == index[f] {
			var comp []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				comp = append(comp, g)
				if g == f {
					break
				}
			}
			sort.Slice(comp, func(i, j int) bool { return comp[i].Pos() < comp[j].Pos() })
			out = append(out, comp)
		}
	}
	for _, f := range fs {
		if index[f] == 0 {
			visit(f)
		}
	}
	return out
}

// cyclic: the edges for which keep holds form a circle.
func circular(edges []callEdge, keep func(callEdge) bool) bool {
	out := map[*ssa.Function][]callEdge{}
	var fs []*ssa.Function
	for _, e := range edges {
		if keep(e) {
			if e.from == e.to {
				return true
			}
			if out[e.from] == nil {
				fs = append(fs, e.from)
			}
			out[e.from] = append(out[e.from], e)
		}
	}
	for _, comp := range components(fs, out) {
		if len(comp) > 1 {
			return true
		}
	}
	return false
}

func (c *c02) guarded(e callEdge) bool {
	return c.remembered([]callEdge{e}) || c.counted([]callEdge{e}) || c.structural([]callEdge{e})
}

// remembered: without the calls before which a new number is entered into a set, there is no recursion, and the set is
// always the same.
func (c *c02) remembered(edges []callEdge) bool {
	sets := map[callEdge]bool{}
	for _, e := range edges {
		m := c.entered(e)
		if m == nil {
			continue
		}
		sets[e] = true
	}
	if len(sets) == 0 || circular(edges, func(e callEdge) bool { return !sets[e] }) {
		return false
	}
	// every call passes the set on
	for _, e := range edges {
		if !c.passesSet(e) {
			return false
		}
	}
	return true
}

// entered is the set into which a number that was not in it is entered before the call.
func (c *c02) entered(e callEdge) ssa.Value {
	if e.site == nil {
		return nil
	}
	at := e.site.Block()
	f := c.n.factsAt(at, len(at.Instrs))
	for _, b := range e.from.Blocks {
		for _, ins := range b.Instrs {
			mu, ok := ins.(*ssa.MapUpdate)
			if !ok || !b.Dominates(at) || b == at && !before(mu, e.site) {
				continue
			}
			if !c.sharedSet(mu.Map, e.from) || c.deletesAny(e.from, mu.Map) {
				continue
			}
			if c.absentIn(mu.Map, mu.Key, isTrue(mu.Value), f) {
				return mu.Map
			}
		}
	}
	return nil
}

func (c *c02) deletesAny(f *ssa.Function, m ssa.Value) bool {
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		all[b] = true
	}
	return c.deletes(m, all)
}

// sharedSet: the map belongs to something the function was given: a parameter, a field of one, a variable around it.
func (c *c02) sharedSet(m ssa.Value, f *ssa.Function) bool {
	for i := 0; i < 6; i++ {
		switch x := m.(type) {
		case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
			return true
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			m = x.X
		case *ssa.FieldAddr:
			m = x.X
		case *ssa.ChangeType:
			m = x.X
		case *ssa.Alloc:
			return false
		default:
			return false
		}
	}
	return false
}

// passesSet: the call hands on the set, or what it belongs to, as it was.
func (c *c02) passesSet(e callEdge) bool {
	if e.site == nil {
		return false
	}
	roots := map[ssa.Value]bool{}
	for _, b := range e.from.Blocks {
		for _, ins := range b.Instrs {
			if mu, ok := ins.(*ssa.MapUpdate); ok {
				m := mu.Map
				for {
					if u, ok := m.(*ssa.UnOp); ok {
						m = u.X
					} else if fa, ok := m.(*ssa.FieldAddr); ok {
						m = fa.X
					} else if ct, ok := m.(*ssa.ChangeType); ok {
						m = ct.X
					} else {
						break
					}
				}
				roots[m] = true
			}
		}
	}
	for m := range roots {
		switch x := m.(type) {
		case *ssa.Global:
			return true
		case *ssa.FreeVar:
			if e.from == e.to {
				return true
			}
		case *ssa.Parameter:
			for _, a := range e.site.Common().Args {
				if a == ssa.Value(x) {
					return e.from != e.to || argFor(e.site, e.to, paramIndex(x)) == ssa.Value(x)
				}
			}
		}
	}
	// a function in between that only hands it on
	if e.from != e.to {
		for _, a := range e.site.Common().Args {
			if p, ok := a.(*ssa.Parameter); ok && isMap(p.Type()) {
				return true
			}
		}
	}
	return false
}

// counted: a number goes up (or down) with every call and is compared with a limit before it.
func (c *c02) counted(edges []callEdge) bool {
	for _, sign := range []int64{1, -1} {
		at := map[*ssa.Function]int{} // the parameter that counts
		for _, e := range edges {
			for i, p := range e.to.Params {
				if _, ok := at[e.to]; !ok && e.site != nil && isInt(p.Type()) && c.counts(e, p, i, sign) {
					at[e.to] = i
				}
			}
		}
		strict := map[callEdge]bool{}
		ok := len(at) > 0
		for _, e := range edges {
			i, have := at[e.to]
			j, from := at[e.from]
			if !have || !from || e.site == nil {
				ok = false
				break
			}
			d := c.n.Lin(argFor(e.site, e.to, i)).add(c.n.Lin(e.from.Params[j]), -1).scale(sign)
			if len(d.t) != 0 || d.c < 0 {
				ok = false
				break
			}
			strict[e] = d.c > 0 && c.limitKnown(e, e.from.Params[j], sign)
		}
		if ok && !circular(edges, func(e callEdge) bool { return !strict[e] }) {
			return true
		}
	}
	return false
}

func (c *c02) counts(e callEdge, p *ssa.Parameter, i int, sign int64) bool {
	a := argFor(e.site, e.to, i)
	if a == nil {
		return false
	}
	for _, q := range e.from.Params {
		if isInt(q.Type()) {
			if d := c.n.Lin(a).add(c.n.Lin(q), -1).scale(sign); len(d.t) == 0 && d.c > 0 {
				return true
			}
		}
	}
	return false
}

func (c *c02) limitKnown(e callEdge, p *ssa.Parameter, sign int64) bool {
	at := e.site.Block()
	for _, f := range c.n.factsAt(at, len(at.Instrs)).list {
		if f.ne || f.l.t[atom{v: p}] != -sign {
			continue
		}
		rest := f.l.add(c.n.Lin(p), sign)
		if len(rest.t) == 0 && rest.c < 1<<16 && rest.c > -(1<<16) {
			return true
		}
	}
	return false
}

// structural: every call is given what its caller was given or a part of it, and on every circle there is a part.
func (c *c02) structural(edges []callEdge) bool {
	var pick func(k int, at map[*ssa.Function]int, fs []*ssa.Function) bool
	seen := map[*ssa.Function]bool{}
	var fs []*ssa.Function
	for _, e := range edges {
		for _, f := range []*ssa.Function{e.from, e.to} {
			if !seen[f] {
				seen[f] = true
				fs = append(fs, f)
			}
		}
	}
	pick = func(k int, at map[*ssa.Function]int, fs []*ssa.Function) bool {
		if k == len(fs) {
			part := map[callEdge]bool{}
			for _, e := range edges {
				if e.site == nil {
					return false
				}
				a := argFor(e.site, e.to, at[e.to])
				if a == nil {
					return false
				}
				steps := c.within(a, e.from.Params[at[e.from]], map[ssa.Value]bool{}, 0)
				if steps < 0 {
					return false
				}
				part[e] = steps > 0
			}
			return !circular(edges, func(e callEdge) bool { return !part[e] })
		}
		for i, p := range fs[k].Params {
			switch p.Type().Underlying().(type) {
			case *types.Basic, *types.Signature:
				continue
			}
			at[fs[k]] = i
			if pick(k+1, at, fs) {
				return true
			}
		}
		return false
	}
	return len(fs) <= 4 && pick(0, map[*ssa.Function]int{}, fs)
}

// within is the number of steps from p down to v, -1 if v is not a part of p.
func (c *c02) within(v ssa.Value, p *ssa.Parameter, seen map[ssa.Value]bool, d int) int {
	if v == ssa.Value(p) {
		return 0
	}
	if d > 25 || seen[v] {
		return -1
	}
	seen[v] = true
	defer delete(seen, v)
	down := func(w ssa.Value) int {
		if k := c.within(w, p, seen, d+1); k >= 0 {
			return k + 1
		}
		return -1
	}
	same := func(w ssa.Value) int { return c.within(w, p, seen, d+1) }
	switch x := v.(type) {
	case *ssa.ChangeType:
		return same(x.X)
	case *ssa.ChangeInterface:
		return same(x.X)
	case *ssa.MakeInterface:
		return same(x.X)
	case *ssa.TypeAssert:
		return same(x.X)
	case *ssa.Slice:
		return same(x.X)
	case *ssa.Field:
		return down(x.X)
	case *ssa.Index:
		return down(x.X)
	case *ssa.Lookup:
		return down(x.X)
	case *ssa.FieldAddr:
		return down(x.X)
	case *ssa.IndexAddr:
		return down(x.X)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			return same(t.X)
		case *ssa.Lookup:
			return down(t.X)
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok && x.Index == 2 {
				return down(rg.X)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return same(x.X)
		}
	case *ssa.Alloc:
		// a local copy
		var src ssa.Value
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
				if src != nil {
					return -1
				}
				src = st.Val
			}
		}
		if src != nil {
			return same(src)
		}
	case *ssa.Phi:
		best := -1
		for _, e := range x.Edges {
			k := same(e)
			if k < 0 {
				return -1
			}
			if best < 0 || k < best {
				best = k
			}
		}
		return best
	}
	return -1
}
