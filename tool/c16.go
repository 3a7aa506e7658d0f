package main

// C16: the declared length of every stream is the length of the bytes emitted.

import (
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C16"] = checkC16 }

// frame is an activation of a function: how it was entered.
type frame struct {
	fn   *ssa.Function
	call ssa.CallInstruction
	up   *frame
}

// fval is a value in an activation; with of set, the data of the stream object that the value points to.
type fval struct {
	v  ssa.Value
	fr *frame
	of bool
}

type lengths struct {
	p      *Program
	n      *Num
	r      *Result
	steps  int
	assume map[dictKey]dictStates
	grown  bool
	open   map[dictKey]bool
}

func checkC16(p *Program, tier string) *Result {
	r := &Result{Explanation: "For every place that writes the endstream keyword the text written before it is followed backwards, through buffers, append chains, formats and helper functions, on all paths: exactly one piece of data lies between the stream keyword and endstream, and the dictionary in front declares /Length once, computed as the length of that very piece of data, with other declarations removed (key spelled with and without slash, entries of the caller's dictionary, text of an earlier dictionary). For every stream object put into a writer's table the Length entry of its dictionary is in the same way the length of its data."}
	c := &lengths{p: p, n: NewNum(p), r: r}
	for _, f := range p.Lib {
		if !c.called(f, map[*ssa.Function]bool{}) {
			continue
		}
		for _, b := range f.Blocks {
			for i, ins := range b.Instrs {
				c.emission(f, b, i, ins)
				c.object(f, b, i, ins)
			}
		}
	}
	r.Floor("stream_emissions", 4)
	r.Floor("stream_objects", 4)
	return r
}

// called: the function can be reached from the API.
func (c *lengths) called(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if exportedAPI(f) || f.Parent() != nil || c.p.addrUsed[f] || f.Name() == "init" {
		return true
	}
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, call := range c.p.callers[f] {
		if c.called(call.Parent(), seen) {
			return true
		}
	}
	return false
}

// ---- values

// deep strips conversions and goes up through parameters.
func (c *lengths) deep(x fval) fval {
	for i := 0; i < 40; i++ {
		switch v := x.v.(type) {
		case *ssa.MakeInterface:
			x.v = v.X
		case *ssa.ChangeInterface:
			x.v = v.X
		case *ssa.ChangeType:
			x.v = v.X
		case *ssa.Convert:
			x.v = v.X
		case *ssa.Slice:
			if v.Low != nil || v.High != nil || v.Max != nil || isPointer(v.X.Type()) {
				return x
			}
			x.v = v.X
		case *ssa.Parameter:
			if x.fr == nil || x.fr.call == nil || x.fr.fn != v.Parent() {
				return x
			}
			a := argFor(x.fr.call, v.Parent(), paramIndex(v))
			if a == nil {
				return x
			}
			x.v, x.fr = a, x.fr.up
		case *ssa.UnOp:
			if v.Op != token.MUL {
				return x
			}
			if fa, ok := v.X.(*ssa.FieldAddr); ok && isObjectField(fa, "Stream") {
				b := c.deep(fval{fa.X, x.fr, false})
				return fval{b.v, b.fr, true}
			}
			k := c.n.canon(v)
			if k == ssa.Value(v) {
				return x
			}
			x.v = k
		default:
			return x
		}
	}
	return x
}

func isPointer(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// isObjectField: the named field of a stream object (a struct with stream data and a dictionary)
func isObjectField(fa *ssa.FieldAddr, name string) bool {
	st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return ok && isStreamObject(st) && st.Field(fa.Field).Name() == name
}

func isStreamObject(st *types.Struct) bool {
	stream, dict := false, false
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		stream = stream || f.Name() == "Stream" && isByteSlice(f.Type())
		dict = dict || f.Name() == "Dict" && isMap(f.Type())
	}
	return stream && dict
}

// same: two values are the same one.
func (c *lengths) same(a, b fval) bool {
	a, b = c.deep(a), c.deep(b)
	if a.of != b.of || a.v == nil || b.v == nil {
		return false
	}
	if a.fr != b.fr {
		return false
	}
	if a.v == b.v || c.n.sameVal(a.v, b.v) {
		return true
	}
	if fa, ok := loadOfField(a.v); ok {
		if fb, ok := loadOfField(b.v); ok && fa.Field == fb.Field && c.same(fval{fa.X, a.fr, false}, fval{fb.X, b.fr, false}) && types.Identical(fa.X.Type(), fb.X.Type()) {
			return true
		}
	}
	x, y := bufferRead(a.v), bufferRead(b.v)
	if x != nil && y != nil && x.Parent() == y.Parent() {
		return c.same(fval{x.Call.Args[0], a.fr, false}, fval{y.Call.Args[0], b.fr, false}) && c.unchanged(x, y)
	}
	return false
}

func loadOfField(v ssa.Value) (*ssa.FieldAddr, bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return fa, ok
}

// bufferRead: the content of a buffer
func bufferRead(v ssa.Value) *ssa.Call {
	call, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	switch calleeFullName(call) {
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String":
		return call
	}
	return nil
}

// unchanged: between the two reads of a buffer nothing is called that could write to it.
func (c *lengths) unchanged(x, y *ssa.Call) bool {
	if x == y {
		return true
	}
	for _, o := range [2][2]*ssa.Call{{x, y}, {y, x}} {
		if !c.clean(o[0], o[1]) {
			return false
		}
	}
	return true
}

// clean: no path from one call to the other has a writing call.
func (c *lengths) clean(from, to *ssa.Call) bool {
	buf := from.Call.Args[0]
	tainted := map[ssa.Value]bool{buf: true}
	for more := true; more; {
		more = false
		for _, b := range from.Parent().Blocks {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || tainted[v] {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && tainted[*op] && bufferRead(v) == nil && !isInt(v.Type()) && !isStringType(v.Type()) && !isByteSlice(v.Type()) {
						tainted[v] = true
						more = true
					}
				}
			}
		}
	}
	writes := func(ins ssa.Instruction) bool {
		call, ok := ins.(ssa.CallInstruction)
		if !ok {
			return false
		}
		switch n := calleeFullName(call); {
		case n == "(*bytes.Buffer).Len", n == "(*bytes.Buffer).Bytes", n == "(*bytes.Buffer).String", n == "(*strings.Builder).Len", n == "(*strings.Builder).String":
			return false
		}
		if call.Common().IsInvoke() && tainted[call.Common().Value] {
			return true
		}
		for _, a := range call.Common().Args {
			if tainted[a] {
				return true
			}
		}
		return false
	}
	// backwards from to; only what lies on a path from from counts
	seen := map[*ssa.BasicBlock]bool{}
	var reach func(b *ssa.BasicBlock, i int, dirty bool) bool
	reach = func(b *ssa.BasicBlock, i int, dirty bool) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == ssa.Instruction(to) {
				return !dirty
			}
			dirty = dirty || writes(b.Instrs[i])
			if b.Instrs[i] == ssa.Instruction(from) {
				dirty = false
			}
		}
		for _, s := range b.Succs {
			if seen[s] && !dirty {
				continue
			}
			if dirty && canReach(s, to.Block()) {
				// within a loop the first read comes again before the second
				if from.Block().Dominates(to.Block()) && !reachAvoiding(s, to.Block(), from.Block()) {
					continue
				}
				return false
			}
			if !dirty {
				seen[s] = true
				if !reach(s, 0, dirty) {
					return false
				}
			}
		}
		return true
	}
	for i, ins := range from.Block().Instrs {
		if ins == ssa.Instruction(from) {
			return reach(from.Block(), i+1, false)
		}
	}
	return false
}

func canReach(a, b *ssa.BasicBlock) bool { return reachAvoiding(a, b, nil) }

func reachAvoiding(a, b, not *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{a}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == not || seen[x] {
			continue
		}
		if x == b {
			return true
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// isLen: the number is the length of the data.
func (c *lengths) isLen(n, d fval, depth int) bool {
	n = c.deep(n)
	if n.of || depth > 6 {
		return false
	}
	dd := c.deep(d)
	switch x := n.v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" && c.same(fval{x.Call.Args[0], n.fr, false}, d)
		}
		switch calleeFullName(x) {
		case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
			y := bufferRead(dd.v)
			return y != nil && !dd.of && y.Parent() == x.Parent() && c.same(fval{x.Call.Args[0], n.fr, false}, fval{y.Call.Args[0], dd.fr, false}) && c.unchanged(x, y)
		}
		g := x.Call.StaticCallee()
		if g == nil || !c.p.inMod[g] || g.Signature.Results().Len() != 1 || len(g.Blocks) == 0 {
			return false
		}
		fr := &frame{g, x, n.fr}
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !c.isLen(fval{ret.Results[0], fr, false}, d, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Phi:
		dp, ok := dd.v.(*ssa.Phi)
		both := ok && !dd.of && dp.Block() == x.Block() && dd.fr == n.fr
		for i, e := range x.Edges {
			de := dd
			if both {
				de.v = dp.Edges[i]
			}
			if !c.isLen(fval{e, n.fr, false}, de, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// ---- dictionaries

// what the entry Length and the entry /Length of a dictionary hold
const (
	absent = iota
	right
	wrong
)

type dictState [2]uint8
type dictStates map[dictState]bool

type dictKey struct {
	dict ssa.Value
	fr   *frame
	b    *ssa.BasicBlock
	d    fval
}

var lengthKeys = []string{"Length", "/Length"}

func states(ss ...dictState) dictStates {
	m := dictStates{}
	for _, s := range ss {
		m[s] = true
	}
	return m
}

func (m dictStates) join(o dictStates) dictStates {
	for s := range o {
		m[s] = true
	}
	return m
}

func (m dictStates) set(k int, v uint8) dictStates {
	out := dictStates{}
	for s := range m {
		s[k] = v
		out[s] = true
	}
	return out
}

// stateAt: what the dictionary may hold in front of instruction i of block b, with respect to the data d.
func (c *lengths) stateAt(dict fval, b *ssa.BasicBlock, i int, d fval) dictStates {
	if c.assume != nil {
		return c.walkDict(dict, b, i, d, 0)
	}
	defer func() { c.assume, c.open = nil, nil }()
	var out dictStates
	for n := 0; n < 10; n++ {
		if c.assume == nil {
			c.assume = map[dictKey]dictStates{}
		}
		c.open, c.grown, c.steps = map[dictKey]bool{}, false, 0
		out = c.walkDict(dict, b, i, d, 0)
		if !c.grown {
			break
		}
	}
	return out
}

func (c *lengths) strip(x fval) fval {
	for {
		switch v := x.v.(type) {
		case *ssa.ChangeType:
			x.v = v.X
		case *ssa.Convert:
			x.v = v.X
		case *ssa.MakeInterface:
			x.v = v.X
		case *ssa.UnOp:
			k := c.n.canon(v)
			if k == ssa.Value(v) {
				return x
			}
			x.v = k
		default:
			return x
		}
	}
}

func (c *lengths) walkDict(dict fval, b *ssa.BasicBlock, i int, d fval, depth int) dictStates {
	c.steps++
	if depth > 200 || c.steps > 20000 {
		return states(dictState{wrong, wrong})
	}
	dict = c.strip(dict)
	if con, ok := dict.v.(*ssa.Const); ok && con.Value == nil {
		return states(dictState{})
	}
	var object ssa.Value
	if fa, ok := loadOfField(dict.v); ok {
		object = fa.X
	}
	for j := i - 1; j >= 0; j-- {
		ins := b.Instrs[j]
		if v, ok := ins.(ssa.Value); ok && v == object {
			if _, phi := v.(*ssa.Phi); !phi {
				return c.entered(dict, d, depth)
			}
		}
		if v, ok := ins.(ssa.Value); ok && v == dict.v {
			if _, phi := v.(*ssa.Phi); !phi {
				return c.born(dict, b, j, d, depth)
			}
			break
		}
		switch x := ins.(type) {
		case *ssa.MapUpdate:
			if !c.same(fval{x.Map, dict.fr, false}, dict) {
				continue
			}
			key, known := c.keyText(fval{x.Key, dict.fr, false})
			if !known {
				return c.walkDict(dict, b, j, d, depth+1).set(0, wrong).set(1, wrong)
			}
			for k, name := range lengthKeys {
				if key == name {
					v := uint8(wrong)
					if c.isLen(fval{x.Value, dict.fr, false}, d, 0) {
						v = right
					}
					return c.walkDict(dict, b, j, d, depth+1).set(k, v)
				}
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
				if bi.Name() != "delete" && bi.Name() != "clear" || !c.same(fval{x.Call.Args[0], dict.fr, false}, dict) {
					continue
				}
				if bi.Name() == "clear" {
					return states(dictState{})
				}
				if key, known := c.keyText(fval{x.Call.Args[1], dict.fr, false}); known {
					for k, name := range lengthKeys {
						if key == name {
							return c.walkDict(dict, b, j, d, depth+1).set(k, absent)
						}
					}
				}
				continue
			}
			g := x.Call.StaticCallee()
			if g == nil || !c.p.inMod[g] || len(g.Blocks) == 0 {
				continue
			}
			for _, p := range g.Params {
				if !isMap(p.Type()) || !c.changesMap(g, p) {
					continue
				}
				a := argFor(x, g, paramIndex(p))
				if a == nil || !c.same(fval{a, dict.fr, false}, dict) {
					continue
				}
				out := dictStates{}
				fr := &frame{g, x, dict.fr}
				for _, gb := range g.Blocks {
					if ret, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return); ok {
						_ = ret
						out.join(c.walkDict(fval{p, fr, false}, gb, len(gb.Instrs)-1, d, depth+1))
					}
				}
				return out
			}
		}
	}
	if phi, ok := dict.v.(*ssa.Phi); ok && phi.Block() == b && !isLoopHead(b) {
		out := dictStates{}
		for k, p := range b.Preds {
			out.join(c.walkDict(fval{phi.Edges[k], dict.fr, false}, p, len(p.Instrs), c.along(d, dict.fr, b, k), depth+1))
		}
		return out
	}
	if phi, ok := dict.v.(*ssa.Phi); ok && phi.Block() == b {
		return states(dictState{wrong, wrong})
	}
	if len(b.Preds) == 0 {
		return c.entered(dict, d, depth)
	}
	key := dictKey{dict.v, dict.fr, b, d}
	if c.open[key] {
		return c.assume[key]
	}
	c.open[key] = true
	out := dictStates{}
	for k, p := range b.Preds {
		out.join(c.walkDict(dict, p, len(p.Instrs), c.along(d, dict.fr, b, k), depth+1))
	}
	delete(c.open, key)
	if was := c.assume[key]; len(was) != len(out) {
		c.grown = true
		c.assume[key] = dictStates{}.join(was).join(out)
	}
	return out
}

// along: the data seen from the end of the k-th predecessor of a block
func (c *lengths) along(d fval, fr *frame, b *ssa.BasicBlock, k int) fval {
	if up := c.deep(d); d.fr != fr {
		d = up
	}
	if phi, ok := d.v.(*ssa.Phi); ok && !d.of && d.fr == fr && phi.Block() == b {
		d.v = phi.Edges[k]
	}
	return d
}

// entered: at the entry of the function
func (c *lengths) entered(dict, d fval, depth int) dictStates {
	if fa, ok := loadOfField(dict.v); ok && isObjectField(fa, "Dict") {
		dd := c.deep(d)
		if base := c.deep(fval{fa.X, dict.fr, false}); dd.of && (base.v == dd.v || c.n.sameVal(base.v, dd.v)) && base.fr == dd.fr {
			return states(dictState{right, absent}, dictState{absent, right})
		}
		return states(dictState{wrong, absent}, dictState{absent, wrong})
	}
	p, ok := dict.v.(*ssa.Parameter)
	if !ok {
		return states(dictState{wrong, wrong})
	}
	if dict.fr != nil && dict.fr.call != nil {
		call := dict.fr.call
		a := argFor(call, p.Parent(), paramIndex(p))
		if a == nil {
			return states(dictState{wrong, wrong})
		}
		return c.walkDict(fval{a, dict.fr.up, false}, call.Block(), indexIn(call), d, depth+1)
	}
	calls := c.p.callers[p.Parent()]
	if dict.fr == nil || exportedAPI(p.Parent()) || c.p.addrUsed[p.Parent()] || len(calls) == 0 {
		return states(dictState{wrong, wrong})
	}
	out := dictStates{}
	for _, call := range calls {
		dict.fr.call, dict.fr.up = call, &frame{fn: call.Parent()}
		out.join(c.entered(dict, d, depth+1))
	}
	dict.fr.call, dict.fr.up = nil, nil
	return out
}

func indexIn(ins ssa.Instruction) int {
	for i, o := range ins.Block().Instrs {
		if o == ins {
			return i
		}
	}
	return 0
}

// born: the dictionary where its value is defined
func (c *lengths) born(dict fval, b *ssa.BasicBlock, i int, d fval, depth int) dictStates {
	switch x := dict.v.(type) {
	case *ssa.MakeMap:
		return states(dictState{})
	case *ssa.UnOp:
		if fa, ok := loadOfField(x); ok && isObjectField(fa, "Dict") {
			// what was done to it before it was loaded here
			return c.walkDict(dict, b, i, d, depth+1)
		}
	case *ssa.Call, *ssa.Extract:
		k := 0
		call, ok := dict.v.(*ssa.Call)
		if e, isE := dict.v.(*ssa.Extract); isE {
			call, ok = e.Tuple.(*ssa.Call)
			k = e.Index
		}
		if !ok {
			break
		}
		g := call.Call.StaticCallee()
		if g == nil || !c.p.inMod[g] || len(g.Blocks) == 0 {
			if n := calleeFullName(call); n == "maps.Clone" {
				return c.walkDict(fval{call.Call.Args[0], dict.fr, false}, b, i, d, depth+1)
			}
			break
		}
		if p := copyOf(g, k); p != nil {
			if a := argFor(call, g, paramIndex(p)); a != nil {
				return c.walkDict(fval{a, dict.fr, false}, call.Block(), indexIn(call), d, depth+1)
			}
		}
		fr := &frame{g, call, dict.fr}
		out := dictStates{}
		for _, gb := range g.Blocks {
			if ret, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return); ok {
				d := d
				if e, ok := d.v.(*ssa.Extract); ok && e.Tuple == ssa.Value(call) && d.fr == dict.fr && !d.of {
					d = fval{ret.Results[e.Index], fr, false} // both come from this call
				}
				out.join(c.walkDict(fval{ret.Results[k], fr, false}, gb, len(gb.Instrs)-1, d, depth+1))
			}
		}
		return out
	}
	return states(dictState{wrong, wrong})
}

// copyOf: the k-th result is a copy of the map in a parameter.
func copyOf(g *ssa.Function, k int) *ssa.Parameter {
	var from *ssa.Parameter
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			mu, ok := ins.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			if look, ok := mu.Value.(*ssa.Lookup); ok && look.Index == mu.Key {
				p, ok := look.X.(*ssa.Parameter)
				if _, made := mu.Map.(*ssa.MakeMap); !ok || !made || from != nil && from != p {
					return nil
				}
				from = p
				continue
			}
			key, ok1 := mu.Key.(*ssa.Extract)
			val, ok2 := mu.Value.(*ssa.Extract)
			if !ok1 || !ok2 || key.Tuple != val.Tuple || key.Index != 1 || val.Index != 2 {
				return nil
			}
			nx, ok := key.Tuple.(*ssa.Next)
			if !ok {
				return nil
			}
			p, ok := nx.Iter.(*ssa.Range).X.(*ssa.Parameter)
			if !ok || from != nil && from != p {
				return nil
			}
			if _, ok := mu.Map.(*ssa.MakeMap); !ok {
				return nil
			}
			from = p
		}
	}
	if from == nil || k >= g.Signature.Results().Len() || !isMap(g.Signature.Results().At(k).Type()) {
		return nil
	}
	return from
}

func (c *lengths) changesMap(g *ssa.Function, p *ssa.Parameter) bool {
	for v := range derivedOf(p) {
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.MapUpdate:
				if x.Map == v {
					return true
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
					return true
				}
				if h := x.Call.StaticCallee(); h != nil && h != g && c.p.inMod[h] {
					for i, a := range x.Call.Args {
						if a == v && i < len(h.Params) && isMap(h.Params[i].Type()) && c.changesMap(h, h.Params[i]) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (c *lengths) keyText(k fval) (string, bool) {
	k = c.deep(k)
	if s, ok := constString(k.v); ok {
		return s, true
	}
	if b, ok := k.v.(*ssa.BinOp); ok && b.Op == token.ADD {
		x, ok := c.keyText(fval{b.X, k.fr, false})
		y, ok2 := c.keyText(fval{b.Y, k.fr, false})
		return x + y, ok && ok2
	}
	return "", false
}

// declares: the dictionary, written with the given keys, declares the length of the data and nothing else.
func (m dictStates) declares(keys [2]bool) bool {
	for s := range m {
		n := 0
		for k := range s {
			if keys[k] && s[k] == wrong {
				return false
			}
			if keys[k] && s[k] == right {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	return len(m) > 0
}

// ---- stream objects

// object: a stream object is put into a writer's table, or gets other data.
func (c *lengths) object(f *ssa.Function, b *ssa.BasicBlock, i int, ins ssa.Instruction) {
	fr := &frame{fn: f}
	switch x := ins.(type) {
	case *ssa.MapUpdate:
		pt, ok := x.Value.Type().Underlying().(*types.Pointer)
		if !ok {
			return
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok || !isStreamObject(st) {
			return
		}
		if _, ok := loadOfField(x.Map); !ok {
			if _, made := x.Map.(*ssa.MakeMap); made {
				// a table of its own; it becomes a writer's table where that is stored
				stored := false
				for _, ref := range *x.Map.(*ssa.MakeMap).Referrers() {
					s, ok := ref.(*ssa.Store)
					stored = stored || ok && s.Val == x.Map
				}
				if !stored {
					return
				}
			}
		}
		sources, ok := c.objects(fval{x.Value, fr, false}, b, i, 0)
		if !ok {
			c.r.Violate("object", c.p.FuncName(f), c.p.InstrPos(ins), "%s puts a stream object of unknown origin into the table of a document", c.p.FuncName(f))
			return
		}
		for _, o := range sources {
			c.r.Count("stream_objects", 1)
			if !c.sound(o) {
				c.r.Violate("object", c.p.FuncName(f), c.p.InstrPos(ins), "the dictionary of the stream object that %s puts into the table of a document does not have exactly one Length entry with the length of its data", c.p.FuncName(f))
				return
			}
		}
	case *ssa.Store:
		fa, ok := x.Addr.(*ssa.FieldAddr)
		if !ok || !isObjectField(fa, "Stream") {
			return
		}
		if al, ok := fa.X.(*ssa.Alloc); ok {
			_ = al // judged where it is put into a table
			return
		}
		c.r.Count("stream_objects", 1)
		// the dictionary has to be right at the end of the function
		var dict ssa.Value
		for _, fb := range f.Blocks {
			for _, o := range fb.Instrs {
				if u, ok := o.(*ssa.UnOp); ok {
					if da, ok := loadOfField(u); ok && isObjectField(da, "Dict") && c.same(fval{da.X, fr, false}, fval{fa.X, fr, false}) {
						dict = u
					}
				}
			}
		}
		okay := dict != nil
		for _, fb := range f.Blocks {
			if ret, isRet := fb.Instrs[len(fb.Instrs)-1].(*ssa.Return); isRet && okay && canReach(b, fb) {
				_ = ret
				okay = c.stateAt(fval{dict, fr, false}, fb, len(fb.Instrs)-1, fval{x.Val, fr, false}).declares([2]bool{true, true})
			}
		}
		if !okay {
			c.r.Violate("object", c.p.FuncName(f), c.p.InstrPos(ins), "%s replaces the data of a stream object and does not set the Length entry of its dictionary to the length of the new data", c.p.FuncName(f))
		}
	}
}

// madeObject is an object that is made in an activation and complete in front of instruction i of block b.
type madeObject struct {
	al *ssa.Alloc
	fr *frame
	b  *ssa.BasicBlock
	i  int
}

// objects: where an object put into a table is made
func (c *lengths) objects(x fval, b *ssa.BasicBlock, i, d int) (out []madeObject, ok bool) {
	if d > 6 {
		return nil, false
	}
	if c.fromTable(x.v, 0) {
		return nil, true
	}
	k := 0
	switch v := x.v.(type) {
	case *ssa.Const:
		return nil, true
	case *ssa.Alloc:
		return []madeObject{{v, x.fr, b, i}}, true
	case *ssa.Phi:
		for _, e := range v.Edges {
			os, ok := c.objects(fval{e, x.fr, false}, b, i, d+1)
			if !ok {
				return nil, false
			}
			out = append(out, os...)
		}
		return out, true
	case *ssa.UnOp:
		if u := c.n.canon(v); u != ssa.Value(v) {
			return c.objects(fval{u, x.fr, false}, b, i, d+1)
		}
	case *ssa.Parameter:
		g := v.Parent()
		if x.fr != nil && x.fr.call != nil && x.fr.fn == g {
			a := argFor(x.fr.call, g, paramIndex(v))
			if a == nil {
				return nil, false
			}
			return c.objects(fval{a, x.fr.up, false}, x.fr.call.Block(), indexIn(x.fr.call), d+1)
		}
		calls := c.p.callers[g]
		if exportedAPI(g) || c.p.addrUsed[g] || len(calls) == 0 {
			return nil, false
		}
		for _, call := range calls {
			a := argFor(call, g, paramIndex(v))
			if a == nil {
				return nil, false
			}
			os, ok := c.objects(fval{a, &frame{fn: call.Parent()}, false}, call.Block(), indexIn(call), d+1)
			if !ok {
				return nil, false
			}
			out = append(out, os...)
		}
		return out, true
	case *ssa.Call, *ssa.Extract:
		call, isCall := x.v.(*ssa.Call)
		if e, ok := x.v.(*ssa.Extract); ok {
			call, isCall = e.Tuple.(*ssa.Call)
			k = e.Index
		}
		if !isCall {
			return nil, false
		}
		g := call.Call.StaticCallee()
		if g == nil || !c.p.inMod[g] || len(g.Blocks) == 0 {
			return nil, false
		}
		fr := &frame{g, call, x.fr}
		for _, gb := range g.Blocks {
			if ret, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return); ok {
				os, ok := c.objects(fval{ret.Results[k], fr, false}, gb, len(gb.Instrs)-1, d+1)
				if !ok {
					return nil, false
				}
				out = append(out, os...)
			}
		}
		return out, true
	}
	return nil, false
}

// sound: the dictionary of the object declares the length of its data.
func (c *lengths) sound(o madeObject) bool {
	var data, dict ssa.Value
	whole := fval{}
	for _, ref := range *o.al.Referrers() {
		switch s := ref.(type) {
		case *ssa.Store:
			if u, ok := s.Val.(*ssa.UnOp); ok && s.Addr == ssa.Value(o.al) {
				whole = c.deep(fval{u.X, o.fr, false})
			}
		case *ssa.FieldAddr:
			for _, fs := range *s.Referrers() {
				if store, ok := fs.(*ssa.Store); ok && store.Addr == ssa.Value(s) {
					switch {
					case isObjectField(s, "Stream"):
						data = store.Val
					case isObjectField(s, "Dict"):
						dict = store.Val
					}
				}
			}
		}
	}
	switch {
	case data == nil && dict == nil && whole.v == nil:
		return true // no stream
	case data == nil && whole.v == nil:
		return true
	case dict == nil:
		return whole.v != nil && data == nil
	}
	d := fval{data, o.fr, false}
	if data == nil {
		d = fval{whole.v, whole.fr, true}
	}
	return c.stateAt(fval{dict, o.fr, false}, o.b, o.i, d).declares([2]bool{true, true})
}

// fromTable: the object comes out of a table itself.
func (c *lengths) fromTable(v ssa.Value, d int) bool {
	switch x := v.(type) {
	case *ssa.Lookup:
		_, ok := loadOfField(x.X)
		return ok
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			_, ok := loadOfField(t.X)
			return ok
		case *ssa.Next:
			r, ok := t.Iter.(*ssa.Range)
			if ok {
				_, ok = loadOfField(r.X)
			}
			return ok
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if d > 4 || !c.fromTable(e, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// ---- emissions

type emit struct {
	data  fval
	phase int // 0: before endstream, 1: before the data, 2: in front of the stream keyword
	num   *fval
	found bool
	bad   string
}

var (
	endsWithStream = regexp.MustCompile(`(^|[\s>])stream\r?\n$`)
	endsWithLength = regexp.MustCompile(`/Length\s+$`)
	fixedLength    = regexp.MustCompile(`/Length\s+\d`)
	endsWithObj    = regexp.MustCompile(`\bobj\s*(<<\s*)?$`)
	startsWithEnd  = regexp.MustCompile(`^\s*endstream\b`)
)

type walker struct {
	c     *lengths
	seen  map[walkKey]bool
	bad   string
	ends  int
	steps int
}

type walkKey struct {
	b     *ssa.BasicBlock
	fr    *frame
	data  fval
	phase int
	found bool
	num   bool
	v     ssa.Value
}

func (c *lengths) emission(f *ssa.Function, b *ssa.BasicBlock, i int, ins ssa.Instruction) {
	call, ok := ins.(*ssa.Call)
	fr := &frame{fn: f}
	w := &walker{c: c}
	start := func(run func(s emit)) {
		c.r.Count("stream_emissions", 1)
		walk := func() string {
			w.seen, w.bad, w.ends, w.steps = map[walkKey]bool{}, "", 0, 0
			run(emit{})
			if w.bad == "" && w.ends == 0 {
				return "no way from the start of the object to its end was found"
			}
			return w.bad
		}
		// what the function cannot answer by itself is asked of each of its callers
		var judge func(top *frame, d int) string
		judge = func(top *frame, d int) string {
			bad := walk()
			calls := c.p.callers[top.fn]
			if bad == "" || d > 3 || exportedAPI(top.fn) || c.p.addrUsed[top.fn] || len(calls) == 0 {
				return bad
			}
			defer func() { top.call, top.up = nil, nil }()
			for _, call := range calls {
				top.call, top.up = call, &frame{fn: call.Parent()}
				if bad := judge(top.up, d+1); bad != "" {
					return bad
				}
			}
			return ""
		}
		if bad := judge(fr, 0); bad != "" {
			c.r.Violate("stream", c.p.FuncName(f), c.p.InstrPos(ins), "%s writes a stream: %s", c.p.FuncName(f), bad)
		}
	}
	done := func(s emit) { w.end(s) }
	if !ok {
		bin, ok := ins.(*ssa.BinOp)
		if !ok || bin.Op != token.ADD {
			return
		}
		if t, ok := constString(bin.Y); ok && startsWithEnd.MatchString(t) {
			start(func(s emit) { w.value(fval{bin.X, fr, false}, s, done) })
		}
		return
	}
	if bi, ok := call.Call.Value.(*ssa.Builtin); ok {
		if bi.Name() != "append" || len(call.Call.Args) < 2 {
			return
		}
		if t, ok := bytesConst(call.Call.Args[1]); ok && startsWithEnd.MatchString(t) {
			start(func(s emit) { w.value(fval{call.Call.Args[0], fr, false}, s, done) })
		}
		return
	}
	if recv, rest, ok := textWriter(call); ok && len(rest) == 1 {
		if t, ok := bytesConst(rest[0]); ok && startsWithEnd.MatchString(t) {
			start(func(s emit) { w.builder(fval{recv, fr, false}, b, i, s, done) })
			return
		}
	}
	// a format with the keyword in it
	format, args, recv := formatOf(call)
	if at := strings.Index(format, "endstream"); at >= 0 {
		pieces := splitFormat(format[:at], args)
		start(func(s emit) {
			w.pieces(pieces, fr, s, func(s emit) {
				if recv != nil {
					w.builder(fval{recv, fr, false}, b, i, s, done)
				} else {
					done(s)
				}
			})
		})
	}
}

func bytesConst(v ssa.Value) (string, bool) {
	if cv, ok := v.(*ssa.Convert); ok {
		v = cv.X
	}
	return constText(v)
}

func formatOf(call *ssa.Call) (format string, args []ssa.Value, recv ssa.Value) {
	k := 0
	switch calleeFullName(call) {
	case "fmt.Sprintf":
	case "fmt.Fprintf":
		k, recv = 1, call.Call.Args[0]
	case "fmt.Appendf":
		k, recv = 1, nil
	default:
		return "", nil, nil
	}
	format, ok := constText(call.Call.Args[k])
	if !ok {
		return "", nil, nil
	}
	args, _ = variadic(call.Call.Args[k+1])
	if mi, ok := recv.(*ssa.MakeInterface); ok {
		recv = mi.X
	}
	return format, args, recv
}

// textPiece is constant text, or an argument
type textPiece struct {
	text string
	verb byte
	arg  ssa.Value
}

func splitFormat(f string, args []ssa.Value) (out []textPiece) {
	n := 0
	text := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			text += f[i : i+1]
			continue
		}
		for i++; i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0; i++ {
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			text += "%"
			continue
		}
		if text != "" {
			out = append(out, textPiece{text: text})
			text = ""
		}
		p := textPiece{verb: f[i]}
		if n < len(args) {
			p.arg = args[n]
		}
		n++
		out = append(out, p)
	}
	if text != "" {
		out = append(out, textPiece{text: text})
	}
	return out
}

func (w *walker) fail(why string) {
	if w.bad == "" {
		w.bad = why
	}
}

// end: the start of the object or of its text is reached.
func (w *walker) end(s emit) {
	w.ends++
	switch {
	case s.bad != "":
		w.fail(s.bad)
	case s.phase < 2:
		w.fail("its data is not preceded by the stream keyword")
	case !s.found:
		w.fail("on some way to it the length of the data written is not declared")
	}
}

func (w *walker) pieces(ps []textPiece, fr *frame, s emit, k func(emit)) {
	if len(ps) == 0 {
		k(s)
		return
	}
	last, rest := ps[len(ps)-1], ps[:len(ps)-1]
	next := func(s emit) { w.pieces(rest, fr, s, k) }
	switch {
	case last.text != "":
		w.text(last.text, s, next)
	case last.arg == nil:
		w.opaque(fval{}, s, next)
	case last.verb == 'd':
		w.number(fval{last.arg, fr, false}, s, next)
	case last.verb == 's' || last.verb == 'v':
		if isInt(unwrapIface(last.arg).Type()) {
			w.number(fval{last.arg, fr, false}, s, next)
		} else {
			w.operand(fval{last.arg, fr, false}, s, next)
		}
	default:
		w.opaque(fval{last.arg, fr, false}, s, next)
	}
}

// text: constant text
func (w *walker) text(t string, s emit, k func(emit)) {
	switch s.phase {
	case 0:
		if strings.TrimSpace(t) == "" {
			k(s)
			return
		}
		w.fail("constant text takes the place of its data")
		return
	case 1:
		m := endsWithStream.FindStringIndex(t)
		if m == nil {
			w.fail("its data is not preceded directly by the stream keyword")
			return
		}
		s.phase = 2
		t = strings.TrimSuffix(strings.TrimSuffix(strings.TrimSuffix(t, "\n"), "\r"), "stream")
		if strings.TrimSpace(t) == "" {
			k(s)
			return
		}
	}
	if s.num != nil {
		if endsWithLength.MatchString(t) {
			if s.found {
				w.fail("its length is declared twice")
				return
			}
			if !w.c.isLen(*s.num, s.data, 0) {
				w.fail("the length declared is not the length of the data written")
				return
			}
			s.found = true
		}
		s.num = nil
	}
	if fixedLength.MatchString(t) {
		w.fail("its length is a constant")
		return
	}
	if endsWithObj.MatchString(t) {
		w.end(s)
		return
	}
	k(s)
}

func (w *walker) number(n fval, s emit, k func(emit)) {
	if s.phase < 2 {
		w.fail("a number is written where its data should be")
		return
	}
	s.num = &n
	k(s)
}

// operand: a text that is written as a whole
func (w *walker) operand(v fval, s emit, k func(emit)) {
	if t, ok := bytesConst(w.c.deep(v).v); ok {
		w.text(t, s, k)
		return
	}
	switch s.phase {
	case 0:
		for {
			if cv, ok := v.v.(*ssa.Convert); ok {
				v.v = cv.X
			} else if mi, ok := v.v.(*ssa.MakeInterface); ok {
				v.v = mi.X
			} else {
				break
			}
		}
		s.data, s.phase = v, 1
		k(s)
	case 1:
		// the keyword may be the end of a text put together before
		w.value(v, s, k)
	default:
		w.value(v, s, k)
	}
}

// opaque: text that is not known; it must not declare a length of its own.
func (w *walker) opaque(v fval, s emit, k func(emit)) {
	if s.phase == 1 {
		w.fail("its data is not preceded directly by the stream keyword")
		return
	}
	if s.found && v.v != nil && beforeObject(v.v) {
		w.end(s)
		return
	}
	if v.v == nil || !w.c.lengthFree(v, 0) {
		w.fail("the dictionary text in front of it may declare another length")
		return
	}
	s.num = nil
	k(s)
}

// beforeObject: the document up to the header of an object
func beforeObject(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High == nil {
		return false
	}
	high := sl.High
	for {
		b, ok := high.(*ssa.BinOp) // an offset of the text searched
		if !ok || b.Op != token.ADD {
			break
		}
		if _, ok := b.Y.(*ssa.UnOp); ok {
			high = b.Y
		} else {
			high = b.X
		}
	}
	u, ok := high.(*ssa.UnOp)
	if !ok {
		return false
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	if con, isC := ia.Index.(*ssa.Const); !isC || con.Int64() != 0 {
		return false
	}
	find, ok := ia.X.(*ssa.Call)
	if !ok || !strings.HasPrefix(calleeFullName(find), "(*regexp.Regexp).Find") {
		return false
	}
	comp, ok := find.Call.Args[0].(*ssa.Call)
	if !ok || !strings.HasPrefix(calleeFullName(comp), "regexp.") {
		return false
	}
	pat := comp.Call.Args[0]
	if f, ok := pat.(*ssa.Call); ok {
		format, _, _ := formatOf(f)
		return strings.Contains(format, `obj`)
	}
	t, _ := constText(pat)
	return strings.Contains(t, `obj`)
}

// value: a text from its end to its start
func (w *walker) value(v fval, s emit, k func(emit)) {
	if w.steps++; w.steps > 20000 {
		w.fail("too many ways lead to it")
		return
	}
	for {
		if cv, ok := v.v.(*ssa.Convert); ok {
			v.v = cv.X
		} else if ct, ok := v.v.(*ssa.ChangeType); ok {
			v.v = ct.X
		} else if mi, ok := v.v.(*ssa.MakeInterface); ok {
			v.v = mi.X
		} else {
			break
		}
	}
	switch x := v.v.(type) {
	case *ssa.Const:
		if t, ok := constText(x); ok {
			w.operand(fval{x, v.fr, false}, s, k)
			_ = t
			return
		}
		k(s) // nil
		return
	case *ssa.BinOp:
		if x.Op == token.ADD {
			w.part(fval{x.Y, v.fr, false}, s, func(s emit) { w.part(fval{x.X, v.fr, false}, s, k) })
			return
		}
	case *ssa.Phi:
		key := walkKey{x.Block(), v.fr, s.data, s.phase, s.found, s.num != nil, x}
		if w.seen[key] {
			return
		}
		w.seen[key] = true
		for i, e := range x.Edges {
			t := s
			t.data = w.c.along(s.data, v.fr, x.Block(), i)
			w.value(fval{e, v.fr, false}, t, k)
		}
		return
	case *ssa.Parameter:
		if up := w.c.deep(v); up.v != v.v {
			w.value(up, s, k)
			return
		}
	case *ssa.MakeSlice:
		if con, ok := x.Len.(*ssa.Const); ok && con.Int64() == 0 {
			k(s)
			return
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			if len(x.Call.Args) < 2 {
				w.value(fval{x.Call.Args[0], v.fr, false}, s, k)
				return
			}
			if es, ok := variadic(x.Call.Args[1]); ok && es != nil {
				t := ""
				for _, e := range es {
					con, ok := e.(*ssa.Const)
					if !ok {
						w.opaque(fval{}, s, k)
						return
					}
					t += string(rune(con.Int64()))
				}
				w.text(t, s, func(s emit) { w.value(fval{x.Call.Args[0], v.fr, false}, s, k) })
				return
			}
			w.part(fval{x.Call.Args[1], v.fr, false}, s, func(s emit) { w.value(fval{x.Call.Args[0], v.fr, false}, s, k) })
			return
		}
		if f, args, recv := formatOf(x); f != "" && recv == nil {
			w.pieces(splitFormat(f, args), v.fr, s, func(s emit) {
				if calleeFullName(x) == "fmt.Appendf" {
					w.value(fval{x.Call.Args[0], v.fr, false}, s, k)
					return
				}
				k(s)
			})
			return
		}
		switch calleeFullName(x) {
		case "strconv.Itoa", "strconv.FormatInt", "fmt.Sprint":
			a := x.Call.Args[0]
			if es, ok := variadic(a); ok && len(es) == 1 {
				a = es[0]
			}
			w.number(fval{a, v.fr, false}, s, k)
			return
		case "strconv.AppendInt":
			w.number(fval{x.Call.Args[1], v.fr, false}, s, func(s emit) { w.value(fval{x.Call.Args[0], v.fr, false}, s, k) })
			return
		case "bytes.Join", "strings.Join":
			if es, ok := variadic(x.Call.Args[0]); ok && len(es) > 0 {
				sep, okSep := bytesConst(x.Call.Args[1])
				if isNilConst(x.Call.Args[1]) {
					sep, okSep = "", true
				}
				if okSep {
					w.joined(es, sep, v.fr, s, k)
					return
				}
			}
		}
		if n := calleeFullName(x); strings.HasPrefix(n, "(*regexp.Regexp).ReplaceAll") && !strings.HasSuffix(n, "Func") && s.phase == 2 {
			if pat, ok := w.c.p.patternOf(x.Call.Args[0]); ok && findsLength(pat, 0) {
				// the old entries are gone; the new text stands in their place, if there were any
				known := w.c.matches(x.Call.Args[1], x.Block())
				if known >= 0 {
					w.value(fval{x.Call.Args[2], v.fr, false}, s, k)
				}
				if known <= 0 {
					k(s)
				}
				return
			}
		}
		if r := bufferRead(x); r != nil {
			w.builder(fval{x.Call.Args[0], v.fr, false}, x.Block(), indexIn(x), s, k)
			return
		}
		if g := x.Call.StaticCallee(); g != nil && w.c.p.inMod[g] && len(g.Blocks) > 0 {
			w.call(g, x, 0, v, s, k)
			return
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if g := call.Call.StaticCallee(); g != nil && w.c.p.inMod[g] && len(g.Blocks) > 0 {
				w.call(g, call, x.Index, v, s, k)
				return
			}
		}
	case *ssa.Slice:
		if x.Low == nil && x.High == nil && !isPointer(x.X.Type()) {
			w.value(fval{x.X, v.fr, false}, s, k)
			return
		}
		if con, ok := x.High.(*ssa.Const); ok && con.Int64() == 0 { // x[:0]
			k(s)
			return
		}
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if arr, ok := pt.Elem().Underlying().(*types.Array); ok && arr.Len() == 0 { // []byte{}
				k(s)
				return
			}
		}
	case *ssa.Alloc:
	}
	if s.phase == 0 {
		s.data, s.phase = v, 1
		k(s)
		return
	}
	w.opaque(v, s, k)
}

// part: an operand of a larger text; the data itself is not taken apart.
func (w *walker) part(v fval, s emit, k func(emit)) {
	if b, ok := v.v.(*ssa.BinOp); ok && b.Op == token.ADD {
		w.value(v, s, k)
		return
	}
	w.operand(v, s, k)
}

func (w *walker) joined(es []ssa.Value, sep string, fr *frame, s emit, k func(emit)) {
	w.operand(fval{es[len(es)-1], fr, false}, s, func(s emit) {
		if len(es) == 1 {
			k(s)
			return
		}
		next := func(s emit) { w.joined(es[:len(es)-1], sep, fr, s, k) }
		if sep == "" {
			next(s)
			return
		}
		w.text(sep, s, next)
	})
}

// call: the text comes from a function of the module.
func (w *walker) call(g *ssa.Function, x *ssa.Call, k int, v fval, s emit, next func(emit)) {
	if s.phase == 2 {
		for i, p := range g.Params {
			if !isMap(p.Type()) {
				continue
			}
			keys, ok := w.c.formats(g, p)
			if !ok {
				continue
			}
			a := argFor(x, g, i)
			if a == nil {
				continue
			}
			if s.found {
				w.fail("its length is declared twice")
				return
			}
			if !w.c.stateAt(fval{a, v.fr, false}, x.Block(), indexIn(x), s.data).declares(keys) {
				w.fail("its dictionary does not have exactly one Length entry with the length of the data written")
				return
			}
			s.found, s.num = true, nil
			next(s)
			return
		}
	}
	depth := 0
	for f := v.fr; f != nil; f = f.up {
		if depth++; f.fn == g || depth > 6 {
			w.opaque(v, s, next)
			return
		}
	}
	fr := &frame{g, x, v.fr}
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k < len(ret.Results) {
			if isNilConst(ret.Results[k]) {
				if e := errIndex(g.Signature); e >= 0 && !isNilConst(ret.Results[e]) {
					continue // failed
				}
			}
			w.value(fval{ret.Results[k], fr, false}, s, next)
		}
	}
}

// formats: the function writes out the dictionary it is given; the keys say which spellings of Length it looks at.
func (c *lengths) formats(g *ssa.Function, p *ssa.Parameter) (keys [2]bool, ok bool) {
	res := g.Signature.Results()
	if res.Len() == 0 || !isStringType(res.At(0).Type()) && !isByteSlice(res.At(0).Type()) {
		return keys, false
	}
	for v := range derivedOf(p) {
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Range:
				return [2]bool{true, true}, true
			case *ssa.Lookup:
				if t, is := constString(x.Index); is {
					for i, name := range lengthKeys {
						if t == name {
							keys[i] = true
						}
					}
					ok = true
				}
			case *ssa.Call:
				if h := x.Call.StaticCallee(); h != nil && h != g && c.p.inMod[h] {
					for i, a := range x.Call.Args {
						if a == v && i < len(h.Params) && isMap(h.Params[i].Type()) {
							if hk, is := c.formats(h, h.Params[i]); is {
								return hk, true
							}
						}
					}
				}
			}
		}
	}
	return keys, ok
}

// builder: what was written to a buffer before instruction i of block b
func (w *walker) builder(recv fval, b *ssa.BasicBlock, i int, s emit, k func(emit)) {
	if w.steps++; w.steps > 20000 {
		w.fail("too many ways lead to it")
		return
	}
	recv = w.c.strip(recv)
	for j := i - 1; j >= 0; j-- {
		ins := b.Instrs[j]
		if v, ok := ins.(ssa.Value); ok && v == recv.v {
			k(s) // created here
			return
		}
		call, ok := ins.(*ssa.Call)
		if !ok {
			continue
		}
		before := func(s emit) { w.builder(recv, b, j, s, k) }
		if r, rest, ok := textWriter(call); ok && w.c.same(fval{r, recv.fr, false}, recv) {
			if len(rest) == 1 && (isStringType(rest[0].Type()) || isByteSlice(rest[0].Type())) {
				w.part(fval{rest[0], recv.fr, false}, s, before)
			} else if con, ok := rest[0].(*ssa.Const); ok {
				w.text(string(rune(con.Int64())), s, before)
			} else {
				w.opaque(fval{}, s, before)
			}
			return
		}
		if f, args, r := formatOf(call); f != "" && r != nil && w.c.same(fval{r, recv.fr, false}, recv) {
			w.pieces(splitFormat(f, args), recv.fr, s, before)
			return
		}
		if strings.HasSuffix(calleeFullName(call), ").Reset") && w.c.same(fval{call.Call.Args[0], recv.fr, false}, recv) {
			k(s)
			return
		}
		g := call.Call.StaticCallee()
		if g == nil || !w.c.p.inMod[g] || len(g.Blocks) == 0 {
			continue
		}
		for pi, p := range g.Params {
			a := argFor(call, g, pi)
			if a == nil || !w.c.same(fval{a, recv.fr, false}, recv) || isInt(p.Type()) {
				continue
			}
			fr := &frame{g, call, recv.fr}
			for _, gb := range g.Blocks {
				if _, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return); ok {
					w.builder(fval{p, fr, false}, gb, len(gb.Instrs)-1, s, k)
				}
			}
			return
		}
	}
	if len(b.Preds) == 0 {
		p, ok := recv.v.(*ssa.Parameter)
		if !ok || recv.fr == nil || s.found && s.phase == 2 {
			k(s)
			return
		}
		if call := recv.fr.call; call != nil {
			if a := argFor(call, p.Parent(), paramIndex(p)); a != nil {
				w.builder(fval{a, recv.fr.up, false}, call.Block(), indexIn(call), s, k)
			}
			return
		}
		calls := w.c.p.callers[p.Parent()]
		if exportedAPI(p.Parent()) || len(calls) == 0 {
			k(s)
			return
		}
		for _, call := range calls {
			if a := argFor(call, p.Parent(), paramIndex(p)); a != nil {
				recv.fr.call, recv.fr.up = call, &frame{fn: call.Parent()}
				w.builder(fval{a, recv.fr.up, false}, call.Block(), indexIn(call), s, k)
			}
		}
		recv.fr.call, recv.fr.up = nil, nil
		return
	}
	key := walkKey{b, recv.fr, s.data, s.phase, s.found, s.num != nil, nil}
	if w.seen[key] {
		return
	}
	w.seen[key] = true
	for n, p := range b.Preds {
		t := s
		t.data = w.c.along(s.data, recv.fr, b, n)
		w.builder(recv, p, len(p.Instrs), t, k)
	}
}

// ---- dictionary text without a length

var lengthSamples = []string{
	"<</Length 12>>", "<< /Length 12 /Filter /FlateDecode >>", "<</Filter/X/Length 12 0 R>>", "<<\n/Length  7\n/Length1 8>>", "<</Length1 99/Length 12>>",
}

// findsLength: the pattern finds the whole length entry of a dictionary, and group k of it.
func findsLength(pattern string, group int) bool {
	re, err := regexp.Compile(pattern)
	if err != nil {
		return false
	}
	for _, t := range lengthSamples {
		m := re.FindStringSubmatchIndex(t)
		if m == nil || 2*group+1 >= len(m) {
			return false
		}
		rest := t[:m[2*group]] + " " + t[m[2*group+1]:]
		if regexp.MustCompile(`/Length\b|0 R`).MatchString(rest) {
			return false
		}
	}
	return true
}

// lengthFree: the text does not declare a length.
func (c *lengths) lengthFree(v fval, d int) bool {
	if d > 12 {
		return false
	}
	v = c.deep(v)
	if v.of {
		return false
	}
	switch x := v.v.(type) {
	case *ssa.Const:
		t, ok := constText(x)
		return ok && !strings.Contains(t, "/Length")
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !c.lengthFree(fval{e, v.fr, false}, d+1) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		if c.cut(x.X, x.Low, 1) || c.cut(x.X, x.High, 0) {
			return true
		}
		if c.matches(x.X, x.Block()) < 0 {
			return true
		}
		return c.lengthFree(fval{x.X, v.fr, false}, d+1)
	case *ssa.Call:
		switch n := calleeFullName(x); n {
		case "bytes.TrimSuffix", "bytes.TrimPrefix", "bytes.TrimSpace", "bytes.TrimRight", "bytes.TrimLeft", "bytes.Trim",
			"strings.TrimSuffix", "strings.TrimPrefix", "strings.TrimSpace", "strings.TrimRight", "strings.TrimLeft", "strings.Trim":
			return c.matches(x.Call.Args[0], x.Block()) < 0 || c.lengthFree(fval{x.Call.Args[0], v.fr, false}, d+1)
		case "(*regexp.Regexp).ReplaceAll", "(*regexp.Regexp).ReplaceAllString", "(*regexp.Regexp).ReplaceAllLiteral", "(*regexp.Regexp).ReplaceAllLiteralString":
			pat, ok := c.p.patternOf(x.Call.Args[0])
			return ok && findsLength(pat, 0) && c.lengthFree(fval{x.Call.Args[2], v.fr, false}, d+1)
		}
	}
	return false
}

// cut: the bound is where a match of a pattern for the length entry starts (0) or ends (1).
func (c *lengths) cut(text, bound ssa.Value, which int64) bool {
	u, ok := bound.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	idx, ok := ia.Index.(*ssa.Const)
	if !ok || idx.Int64() != which {
		return false
	}
	call, ok := ia.X.(*ssa.Call)
	if !ok || !strings.HasPrefix(calleeFullName(call), "(*regexp.Regexp).Find") || !strings.HasSuffix(calleeFullName(call), "Index") {
		return false
	}
	pat, ok := c.p.patternOf(call.Call.Args[0])
	return ok && findsLength(pat, 0) && c.same(fval{call.Call.Args[1], nil, false}, fval{text, nil, false})
}

// matches: at the block a pattern for the length entry is known to match the text (1) or not to (-1).
func (c *lengths) matches(text ssa.Value, b *ssa.BasicBlock) int {
	for d := b; d.Idom() != nil; d = d.Idom() {
		p := d.Idom()
		br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		cond, val := br.Cond, d == p.Succs[0]
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, val = u.X, !val
		}
		var call *ssa.Call
		switch x := cond.(type) {
		case *ssa.BinOp:
			m := x.X
			if isNilConst(m) {
				m = x.Y
			} else if !isNilConst(x.Y) {
				continue
			}
			call, _ = m.(*ssa.Call)
			val = val == (x.Op == token.NEQ)
		case *ssa.Call:
			call = x
		}
		if call == nil || len(call.Call.Args) < 2 {
			continue
		}
		n := calleeFullName(call)
		if !strings.HasPrefix(n, "(*regexp.Regexp).Find") && !strings.HasPrefix(n, "(*regexp.Regexp).Match") {
			continue
		}
		pat, ok := c.p.patternOf(call.Call.Args[0])
		if ok && findsLength(pat, 0) && c.same(fval{call.Call.Args[1], nil, false}, fval{text, nil, false}) {
			if val {
				return 1
			}
			return -1
		}
	}
	return 0
}
