package main

// C03: no number in a file decides by itself how much memory is asked for.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C03"] = checkC03 }

// calls that ask for as much memory as one of their arguments says
var sizedCalls = map[string]int{
	"bytes.Repeat": 1, "strings.Repeat": 1, "(*bytes.Buffer).Grow": 1, "(*strings.Builder).Grow": 1,
	"slices.Grow": 1, "slices.Repeat": 1, "bufio.NewReaderSize": 1, "bufio.NewWriterSize": 1,
}

// calls that ask for as much memory as the data they read says
var headerCalls = map[string]bool{
	"image.Decode": true, "image/png.Decode": true, "image/jpeg.Decode": true, "image/gif.Decode": true, "image/gif.DecodeAll": true,
}

var imageConfigs = map[string]bool{
	"image.DecodeConfig": true, "image/png.DecodeConfig": true, "image/jpeg.DecodeConfig": true, "image/gif.DecodeConfig": true,
}

func checkC03(p *Program, tier string) *Result {
	r := &Result{Explanation: "For every allocation of the library (make of slices, maps and channels with a size, Repeat, Grow, buffered readers, image decoders) the size is followed back: it has to be limited, at that place, by the size of data in memory, a fixed limit, a 16-bit range or a number the caller asked for; products of two numbers read from a file are not. Image decoders, which allocate what the image header says, need a comparison of the product of the dimensions before. Every loop that allocates, appends or inserts must run for a number of iterations that is limited in the same way."}
	// two analyses, so that neither depends on what the other has looked at
	sizes, loops := newC02(p, r), newC02(p, r)
	sizes.strict = true
	for _, f := range p.Lib {
		for _, b := range f.Blocks {
			for i, ins := range b.Instrs {
				sizes.allocation(f, b, i, ins)
			}
		}
		loops.growingLoops(f)
	}
	r.Floor("sized_allocations", 40)
	r.Floor("growing_loops", 100)
	return r
}

func (c *c02) allocation(f *ssa.Function, b *ssa.BasicBlock, i int, ins ssa.Instruction) {
	var sizes []ssa.Value
	switch x := ins.(type) {
	case *ssa.MakeSlice:
		sizes = append(sizes, x.Len)
		if x.Cap != x.Len {
			sizes = append(sizes, x.Cap)
		}
	case *ssa.MakeMap:
		if x.Reserve != nil {
			sizes = append(sizes, x.Reserve)
		}
	case *ssa.MakeChan:
		sizes = append(sizes, x.Size)
	case ssa.CallInstruction:
		n := calleeFullName(x)
		if k, ok := sizedCalls[n]; ok && k < len(x.Common().Args) {
			sizes = append(sizes, x.Common().Args[k])
		}
		if headerCalls[n] {
			c.r.Count("image_decoders", 1)
			if !c.sizeChecked(b, i) {
				c.r.Violate("image", c.p.FuncName(f), c.p.InstrPos(ins), "%s decodes an image with as many pixels as its header says: the product of the dimensions is not compared with a limit before", c.p.FuncName(f))
			}
		}
	}
	for _, s := range sizes {
		c.r.Count("sized_allocations", 1)
		if _, ok := s.(*ssa.Const); ok && c.small(s, true, 0) {
			c.r.Count("fixed_sizes", 1)
			continue
		}
		known := c.n.factsAt(b, i)
		if c.limitedWith(c.ideal(s, 0), known, b, 0) || c.limitedWith(c.n.Lin(s), known, b, 0) || c.limitedVal(s, ins, known, 0) {
			continue
		}
		c.r.Violate("size", c.p.FuncName(f), c.p.InstrPos(ins), "the size of this allocation in %s is not limited by the size of the data, a fixed limit or a number the caller asked for", c.p.FuncName(f))
	}
}

// sizeChecked: the product of width and height from an image's header was compared with something limited.
func (c *c02) sizeChecked(b *ssa.BasicBlock, i int) bool {
	if c.areaLimited(c.n.factsAt(b, i)) {
		return true
	}
	// or a function of the library did
	for d := b; d.Idom() != nil; d = d.Idom() {
		p := d.Idom()
		br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		if c.checksArea(br.Cond, d == p.Succs[0], 0) {
			return true
		}
	}
	return false
}

// checksArea: the condition has this value only when a function compared the product of the dimensions.
func (c *c02) checksArea(cond ssa.Value, val bool, d int) bool {
	isNil := false
	switch x := cond.(type) {
	case *ssa.UnOp:
		return x.Op == token.NOT && d < 4 && c.checksArea(x.X, !val, d+1)
	case *ssa.BinOp:
		if k, ok := x.Y.(*ssa.Const); !ok || k.Value != nil || x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		if val != (x.Op == token.EQL) {
			return false
		}
		cond, isNil = x.X, true
	}
	k := 0
	if e, ok := cond.(*ssa.Extract); ok {
		cond, k = e.Tuple, e.Index
	}
	call, ok := cond.(*ssa.Call)
	if !ok {
		return false
	}
	g := call.Call.StaticCallee()
	if g == nil || !c.p.inMod[g] {
		return false
	}
	found := false
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || k >= len(ret.Results) {
			continue
		}
		r := ret.Results[k]
		if isNil {
			if nilness(r, b) > 0 || alwaysNew(r) {
				continue
			}
		} else if cc, ok := r.(*ssa.Const); ok && isTrue(cc) != val {
			continue
		}
		known := c.n.factsAt(b, len(b.Instrs)-1)
		with := &facts{nils: known.nils, list: append([]fact{}, known.list...), extra: known.extra, strong: known.strong, sharp: known.sharp}
		if !isNil {
			c.n.assume(with, r, val, 0)
		}
		if !c.areaLimited(with) && !c.sizeChecked(b, len(b.Instrs)-1) {
			return false
		}
		found = true
	}
	return found
}

func (c *c02) areaLimited(known *facts) bool {
	for _, f := range known.list {
		if f.ne {
			continue
		}
		for a, k := range f.l.t {
			if a.len || k >= 0 || !c.area(a.v) {
				continue
			}
			if c.limitedLin(f.l.add(lin{t: map[atom]int64{a: 1}}, -k)) {
				return true
			}
		}
	}
	return false
}

// area: a product of both dimensions in an image's header, possibly with a factor
func (c *c02) area(v ssa.Value) bool {
	w, h := false, false
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		switch x := v.(type) {
		case *ssa.Convert:
			walk(x.X, d)
		case *ssa.BinOp:
			if d < 8 && (x.Op == token.MUL || x.Op == token.QUO) {
				walk(x.X, d+1)
				if x.Op == token.MUL {
					walk(x.Y, d+1)
				}
			}
		default:
			name := c.headerField(v, 0)
			w, h = w || name == "Width", h || name == "Height"
		}
	}
	walk(v, 0)
	return w && h
}

// headerField: the name of the field of an image's header that the value was loaded from
func (c *c02) headerField(v ssa.Value, d int) string {
	t := types.Type(nil)
	k := 0
	switch x := v.(type) {
	case *ssa.Parameter:
		calls := c.p.callers[x.Parent()]
		if d > 3 || exportedAPI(x.Parent()) || len(calls) == 0 {
			return ""
		}
		name := ""
		for i, call := range calls {
			a := argFor(call, x.Parent(), paramIndex(x))
			if a == nil {
				return ""
			}
			n := c.headerField(a, d+1)
			if i > 0 && n != name {
				return ""
			}
			name = n
		}
		return name
	case *ssa.Field:
		t, k = x.X.Type(), x.Field
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || x.Op != token.MUL {
			return ""
		}
		t, k = fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field
	default:
		return ""
	}
	if n, ok := t.(*types.Named); !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path()+"."+n.Obj().Name() != "image.Config" {
		return ""
	}
	return t.Underlying().(*types.Struct).Field(k).Name()
}

// inMemory: the number is the size of something that is in memory
func (c *c02) inMemory(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Convert:
		return c.inMemory(x.X)
	case *ssa.Const:
		return true
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB, token.MUL:
			return c.inMemory(x.X) && c.inMemory(x.Y)
		case token.QUO, token.REM, token.SHR, token.AND:
			return c.inMemory(x.X)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e == ssa.Value(x) || !c.inMemory1(e) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "copy"
		}
		n := calleeFullName(x)
		return n == "(image.Rectangle).Dx" || n == "(image.Rectangle).Dy" || strings.HasSuffix(n, ".Len") && tameResult[n]
	}
	return false
}

func (c *c02) inMemory1(v ssa.Value) bool {
	_, phi := v.(*ssa.Phi)
	return !phi && c.inMemory(v)
}

func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// growingLoops: loops that collect something must run for a limited number of iterations
func (c *c02) growingLoops(f *ssa.Function) {
	loops := c.n.loopsOf(f)
	for _, h := range f.Blocks {
		body, ok := loops[h]
		if !ok {
			continue
		}
		grows := false
		for b := range body {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MapUpdate:
					grows = true
				case *ssa.Alloc:
					grows = grows || x.Heap
				case *ssa.BinOp:
					grows = grows || x.Op == token.ADD && isStringType(x.Type())
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
						grows = grows || bi.Name() == "append"
					} else {
						grows = true
					}
				}
			}
		}
		if !grows {
			continue
		}
		c.r.Count("growing_loops", 1)
		if c.terminates(f, h, body) == "" {
			c.r.Violate("loop", c.p.FuncName(f), c.loopPos(h, body), "this loop of %s allocates and nothing limits the number of its iterations to the size of the data, a fixed limit or a number the caller asked for", c.p.FuncName(f))
		}
	}
}
