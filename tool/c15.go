package main

// C15: cross-reference data points exactly at the objects written.

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C15"] = checkC15 }

// docBuffer is a buffer that a whole document is written to.
type docBuffer struct {
	x      *offsets
	root   *frame
	buf    ssa.Value
	frames map[frameKey]*frame

	lens, maps, heads, starts, xrefs []event
}

type frameKey struct {
	call ssa.CallInstruction
	g    *ssa.Function
	up   *frame
}

// event is an instruction in an activation.
type event struct {
	fr  *frame
	ins ssa.Instruction
}

type offsets struct {
	c *lengths
	p *Program
	n *Num
	r *Result

	ideal     *Num // numbers of objects and positions do not wrap
	tables    map[*types.Struct]*ssa.FieldAddr
	counterOf map[*types.Struct]int
	takes     map[*ssa.Function]bool
	kept      map[keptKey]bool
}

func checkC15(p *Program, tier string) *Result {
	r := &Result{Explanation: "For every buffer that a document with a startxref is written to, over all paths through the functions that write to it: each object header is the first thing written after the length of the buffer was taken, that length is recorded under the number in the header, and every length recorded is followed by its header; the startxref number is the length of the buffer right before the cross-reference table or stream; in-use entries hold the recorded position of the very object number whose turn it is (entries are counted in step with the numbers); object streams list the positions at which the data of each object starts, and First is where that data begins; every number put into the object table is below the counter afterwards, and the counter only grows."}
	x := &offsets{p: p, n: NewNum(p), r: r, ideal: NewNum(p), kept: map[keptKey]bool{}}
	x.ideal.ideal = true
	x.findTables()
	x.c = &lengths{p: p, n: x.n, r: r}
	for _, f := range p.Lib {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ps, recv := x.written(ins); recv != nil && len(ps) > 0 && strings.HasPrefix(ps[0].text, "startxref") {
					x.document(f, ins, recv)
				}
			}
		}
		x.entries(f)
		x.numbers(f)
		x.objectStream(f)
	}
	r.Floor("documents", 1)
	r.Floor("object_headers", 2)
	r.Floor("numbers_used", 4)
	return r
}

// ---- what is written

// written: the pieces that an instruction writes to a buffer
func (x *offsets) written(ins ssa.Instruction) (ps []textPiece, recv ssa.Value) {
	call, ok := ins.(*ssa.Call)
	if !ok {
		return nil, nil
	}
	if f, args, r := formatOf(call); f != "" && r != nil {
		return splitFormat(f, args), r
	}
	if n := calleeFullName(call); n == "fmt.Fprint" || n == "fmt.Fprintln" {
		args, _ := variadic(call.Call.Args[1])
		for _, a := range args {
			ps = append(ps, x.pieces(unwrapIface(a))...)
		}
		return ps, unwrapIface(call.Call.Args[0])
	}
	r, rest, ok := textWriter(call)
	if !ok || len(rest) == 0 {
		return nil, nil
	}
	return x.pieces(rest[0]), unwrapIface(r)
}

func (x *offsets) pieces(v ssa.Value) (ps []textPiece) {
	if cv, ok := v.(*ssa.Convert); ok {
		v = cv.X
	}
	for _, a := range addends(v) {
		if t, ok := constText(a); ok {
			ps = append(ps, textPiece{text: t})
			continue
		}
		if con, ok := a.(*ssa.Const); ok && con.Value != nil && con.Value.Kind() == constant.Int {
			ps = append(ps, textPiece{text: string(rune(con.Int64()))})
			continue
		}
		call, ok := a.(*ssa.Call)
		if ok {
			if f, args, r := formatOf(call); f != "" && r == nil && calleeFullName(call) == "fmt.Sprintf" {
				ps = append(ps, splitFormat(f, args)...)
				continue
			}
			switch calleeFullName(call) {
			case "strconv.Itoa", "strconv.FormatInt":
				ps = append(ps, textPiece{verb: 'd', arg: call.Call.Args[0]})
				continue
			}
		}
		ps = append(ps, textPiece{verb: 's', arg: a})
	}
	return ps
}

var objKeyword = regexp.MustCompile(`^ (0 )?obj\b`)

// header: the pieces are the header of an object; its number
func header(ps []textPiece) (num ssa.Value, ok bool) {
	if len(ps) < 2 || ps[0].text != "" || ps[0].arg == nil {
		return nil, false
	}
	if objKeyword.MatchString(ps[1].text) || len(ps) >= 4 && ps[1].text == " " && ps[2].arg != nil && objKeyword.MatchString(ps[3].text) {
		return ps[0].arg, true
	}
	return nil, false
}

// ---- documents

func (x *offsets) document(f *ssa.Function, ins ssa.Instruction, recv ssa.Value) {
	// where the buffer is made
	top := &frame{fn: f}
	var roots func(fr *frame, v ssa.Value, d int)
	done := map[ssa.Value]bool{}
	roots = func(fr *frame, v ssa.Value, d int) {
		b := x.c.deep(fval{v, fr, false})
		pa, ok := b.v.(*ssa.Parameter)
		if !ok {
			if !done[b.v] {
				done[b.v] = true
				doc := &docBuffer{x: x, root: &frame{fn: b.fr.fn}, buf: b.v, frames: map[frameKey]*frame{}}
				doc.check()
			}
			return
		}
		for _, call := range x.p.callers[pa.Parent()] {
			if a := argFor(call, pa.Parent(), paramIndex(pa)); a != nil && d < 4 {
				roots(&frame{fn: call.Parent()}, a, d+1)
			}
		}
	}
	roots(top, recv, 0)
}

func (d *docBuffer) frame(call ssa.CallInstruction, g *ssa.Function, up *frame) *frame {
	k := frameKey{call, g, up}
	if d.frames[k] == nil {
		d.frames[k] = &frame{g, call, up}
	}
	return d.frames[k]
}

func (d *docBuffer) isBuf(v ssa.Value, fr *frame) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	up := d.x.c.deep(fval{v, fr, false})
	return up.v == d.buf && up.fr == d.root && !up.of
}

// inner: the activation of a function of the module that gets the buffer
func (d *docBuffer) inner(e event) *frame {
	call, ok := e.ins.(*ssa.Call)
	if !ok {
		return nil
	}
	g := call.Call.StaticCallee()
	if g == nil || !d.x.p.inMod[g] || len(g.Blocks) == 0 {
		return nil
	}
	n := 0
	for fr := e.fr; fr != nil; fr = fr.up {
		if n++; fr.fn == g || n > 6 {
			return nil
		}
	}
	for i := range g.Params {
		if a := argFor(call, g, i); a != nil && !isInt(a.Type()) && d.isBuf(a, e.fr) {
			return d.frame(call, g, e.fr)
		}
	}
	if mc, ok := call.Call.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			if b == d.buf {
				return d.frame(call, g, e.fr)
			}
		}
	}
	return nil
}

// writes: the event writes to the buffer.
func (d *docBuffer) writes(e event) ([]textPiece, bool) {
	ps, recv := d.x.written(e.ins)
	if recv == nil || !d.isBuf(recv, e.fr) {
		return nil, false
	}
	return ps, true
}

func (d *docBuffer) isLen(e event) bool {
	call, ok := e.ins.(*ssa.Call)
	if !ok {
		return false
	}
	switch calleeFullName(call) {
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		return d.isBuf(call.Call.Args[0], e.fr)
	}
	return false
}

// all visits the instructions of all activations that get the buffer.
func (d *docBuffer) all(visit func(event)) {
	var walk func(fr *frame)
	walk = func(fr *frame) {
		for _, b := range fr.fn.Blocks {
			for _, ins := range b.Instrs {
				e := event{fr, ins}
				visit(e)
				if in := d.inner(e); in != nil {
					walk(in)
				}
			}
		}
	}
	walk(d.root)
}

type place struct {
	fr *frame
	b  *ssa.BasicBlock
}

// failing: the return hands an error to the caller.
func failing(ret *ssa.Return) bool {
	e := errIndex(ret.Parent().Signature)
	return e >= 0 && e < len(ret.Results) && !isNilConst(ret.Results[e]) && nilness(ret.Results[e], ret.Block()) != -1 && definiteError(ret.Results[e], ret.Block())
}

// definiteError: an error that is made here, or known not to be nil.
func definiteError(v ssa.Value, b *ssa.BasicBlock) bool {
	return alwaysNew(v) || nilness(v, b) == 1
}

// forward follows all paths after an event; at tells at each instruction whether to go on. It returns whether the end of
// the document was reached on some path.
func (d *docBuffer) forward(e event, at func(event) bool) bool {
	seen := map[place]bool{}
	end := false
	var walk func(fr *frame, b *ssa.BasicBlock, i int)
	walk = func(fr *frame, b *ssa.BasicBlock, i int) {
		if i == 0 {
			if seen[place{fr, b}] {
				return
			}
			seen[place{fr, b}] = true
		}
		for ; i < len(b.Instrs); i++ {
			ins := b.Instrs[i]
			if !at(event{fr, ins}) {
				return
			}
			if in := d.inner(event{fr, ins}); in != nil {
				walk(in, in.fn.Blocks[0], 0)
				return
			}
			if ret, ok := ins.(*ssa.Return); ok {
				switch {
				case failing(ret):
				case fr.up == nil:
					end = true
				default:
					walk(fr.up, fr.call.Block(), indexIn(fr.call)+1)
				}
				return
			}
		}
		for _, s := range b.Succs {
			walk(fr, s, 0)
		}
	}
	walk(e.fr, e.ins.Block(), indexIn(e.ins)+1)
	return end
}

// backward is the same against the flow.
func (d *docBuffer) backward(e event, at func(event) bool) bool {
	seen := map[place]bool{}
	start := false
	var walk func(fr *frame, b *ssa.BasicBlock, i int)
	walk = func(fr *frame, b *ssa.BasicBlock, i int) {
		if i == len(b.Instrs) {
			if seen[place{fr, b}] {
				return
			}
			seen[place{fr, b}] = true
		}
		for i--; i >= 0; i-- {
			ins := b.Instrs[i]
			if !at(event{fr, ins}) {
				return
			}
			if in := d.inner(event{fr, ins}); in != nil {
				for _, gb := range in.fn.Blocks {
					if ret, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return); ok && !failing(ret) {
						walk(in, gb, len(gb.Instrs))
					}
				}
				return
			}
		}
		if len(b.Preds) == 0 && b == fr.fn.Blocks[0] {
			if fr.up == nil {
				start = true
			} else {
				walk(fr.up, fr.call.Block(), indexIn(fr.call))
			}
			return
		}
		for _, p := range b.Preds {
			walk(fr, p, len(p.Instrs))
		}
	}
	walk(e.fr, e.ins.Block(), indexIn(e.ins))
	return start
}

// sources: the values a number may come from
func (d *docBuffer) sources(v fval, out map[fval]bool, seen map[fval]bool) {
	v = d.x.c.deep(v)
	if seen[v] {
		return
	}
	seen[v] = true
	switch y := v.v.(type) {
	case *ssa.Phi:
		for _, e := range y.Edges {
			d.sources(fval{e, v.fr, false}, out, seen)
		}
		return
	case *ssa.Call, *ssa.Extract:
		k := 0
		call, ok := v.v.(*ssa.Call)
		if e, is := v.v.(*ssa.Extract); is {
			call, ok = e.Tuple.(*ssa.Call)
			k = e.Index
		}
		if !ok {
			break
		}
		if in := d.inner(event{v.fr, call}); in != nil {
			for _, b := range in.fn.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !failing(ret) {
					d.sources(fval{ret.Results[k], in, false}, out, seen)
				}
			}
			return
		}
	case *ssa.Const:
		if y.Value != nil && y.Int64() == 0 {
			return // the variable before it is set
		}
	case *ssa.UnOp:
		// a variable that is kept in memory: everything stored there
		if al, ok := y.X.(*ssa.Alloc); ok && y.Op == token.MUL {
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					d.sources(fval{st.Val, v.fr, false}, out, seen)
				}
			}
			return
		}
	}
	out[v] = true
}

func (d *docBuffer) bad(rule string, e event, format string, args ...any) {
	fn := d.x.p.FuncName(e.fr.fn)
	d.x.r.Violate(rule, fn, d.x.p.InstrPos(e.ins), "%s "+format, append([]any{fn}, args...)...)
}

func (d *docBuffer) check() {
	r := d.x.r
	r.Count("documents", 1)
	d.all(func(e event) {
		if ps, ok := d.writes(e); ok && len(ps) > 0 {
			if _, is := header(ps); is {
				d.heads = append(d.heads, e)
			}
			if strings.HasPrefix(ps[0].text, "startxref") {
				d.starts = append(d.starts, e)
			}
		}
		if d.isLen(e) {
			d.lens = append(d.lens, e)
		}
		if mu, ok := e.ins.(*ssa.MapUpdate); ok && isInt(mu.Key.Type()) && isInt(mu.Value.Type()) {
			d.maps = append(d.maps, e)
		}
	})
	d.startxref()
	// lengths that are recorded
	type record struct {
		m    event
		lens map[fval]bool
	}
	var records []record
	for _, m := range d.maps {
		lens := map[fval]bool{}
		d.sources(fval{m.ins.(*ssa.MapUpdate).Value, m.fr, false}, lens, map[fval]bool{})
		all := len(lens) > 0
		for v := range lens {
			call, ok := v.v.(*ssa.Call)
			all = all && ok && d.isLen(event{v.fr, call})
		}
		if !all {
			continue
		}
		records = append(records, record{m, lens})
		r.Count("positions_recorded", 1)
		// the header comes next
		key := fval{m.ins.(*ssa.MapUpdate).Key, m.fr, false}
		for v := range lens {
			call := v.v.(*ssa.Call)
			d.forward(event{v.fr, call}, func(e event) bool {
				if e.ins == ssa.Instruction(call) && e.fr == v.fr {
					d.bad("record", m, "records a position for an object that is then not written there")
					return false
				}
				ps, ok := d.writes(e)
				if !ok {
					return true
				}
				num, is := header(ps)
				if !is {
					d.bad("record", m, "records a position, but what is written there is not the header of an object")
				} else if !d.x.c.same(fval{num, e.fr, false}, key) {
					d.bad("record", m, "records a position for one object number, and the header of another is written there")
				}
				return false
			})
		}
	}
	var starts map[fval]bool
	for _, s := range d.starts {
		starts = d.startValues(s)
	}
	for _, h := range d.heads {
		r.Count("object_headers", 1)
		ps, _ := d.writes(h)
		num, _ := header(ps)
		key := fval{num, h.fr, false}
		// the lengths of the output right before it: one of them is recorded
		kept, begins := false, false
		ok := true
		clean := !d.backward(h, func(e event) bool {
			if !ok {
				return false
			}
			if d.isLen(e) {
				v := fval{e.ins.(*ssa.Call), e.fr, false}
				kept = kept || d.kept(e.ins.(*ssa.Call))
				if starts[v] { // the cross-reference stream
					begins = true
					return false
				}
				for _, m := range records {
					mu := m.m.ins.(*ssa.MapUpdate)
					if m.lens[v] && d.x.c.same(fval{mu.Key, m.m.fr, false}, key) && d.passes(h, m.m) {
						return false
					}
				}
				return true
			}
			if _, is := d.writes(e); is {
				ok = false
			}
			return ok
		})
		if begins {
			num := d.x.c.deep(key).v
			if d.x.counterLoad(num) == nil && !d.x.fresh(num, 0) {
				d.bad("header", h, "writes the header of the cross-reference stream with a number that is not the next free one")
			}
			if !kept {
				d.bad("entry", h, "does not write the position of the cross-reference stream into an entry")
			}
		}
		if !ok || !clean {
			d.bad("header", h, "writes the header of an object whose position, the length of the output right before it, is not recorded under its number on every way")
		}
	}
	var maps []event
	for _, m := range records {
		maps = append(maps, m.m)
	}
	d.entries(maps)
}

// kept: the number is handed to something else than the caller.
func (d *docBuffer) kept(v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		switch y := ref.(type) {
		case *ssa.Convert:
			if d.kept(y) {
				return true
			}
		case *ssa.Phi:
		case *ssa.Call:
			return true
		case *ssa.Store:
			return true
		case *ssa.BinOp:
			if y.Op == token.SHR || y.Op == token.AND {
				return true
			}
		}
	}
	return false
}

// passes: with the header written the position is recorded, before or after.
func (d *docBuffer) passes(h, m event) bool {
	hit := func(e event) bool { return e.fr == m.fr && e.ins == m.ins }
	missed := d.backward(h, func(e event) bool { return !hit(e) && !d.isStart(e, h) })
	again := false
	d.backward(h, func(e event) bool {
		if hit(e) {
			return false
		}
		if e.ins == h.ins && e.fr == h.fr {
			again = true
			return false
		}
		return true
	})
	if !missed && !again {
		return true
	}
	again = false
	missed = d.forward(h, func(e event) bool {
		if hit(e) {
			return false
		}
		if e.ins == h.ins && e.fr == h.fr {
			again = true
			return false
		}
		return true
	})
	return !missed && !again
}

func (d *docBuffer) isStart(e, h event) bool { return e.ins == h.ins && e.fr == h.fr }

// startValues: what the number after startxref may be
func (d *docBuffer) startValues(s event) map[fval]bool {
	out := map[fval]bool{}
	ps, _ := d.writes(s)
	for _, p := range ps {
		if p.arg != nil {
			d.sources(fval{unwrapIface(p.arg), s.fr, false}, out, map[fval]bool{})
			return out
		}
	}
	// the number is written by itself
	d.forward(s, func(e event) bool {
		ps, ok := d.writes(e)
		if ok && len(ps) > 0 && ps[0].arg != nil {
			d.sources(fval{unwrapIface(ps[0].arg), e.fr, false}, out, map[fval]bool{})
		}
		return !ok
	})
	return out
}

// startxref: its number is where the cross-reference data starts.
func (d *docBuffer) startxref() {
	for _, s := range d.starts {
		d.x.r.Count("startxref", 1)
		values := d.startValues(s)
		if len(values) == 0 {
			d.bad("startxref", s, "writes startxref without a position")
		}
		for v := range values {
			call, ok := v.v.(*ssa.Call)
			if !ok || !d.isLen(event{v.fr, call}) {
				d.bad("startxref", s, "writes a startxref position that is not the length of the output at some moment")
				continue
			}
			d.forward(event{v.fr, call}, func(e event) bool {
				ps, ok := d.writes(e)
				if !ok {
					return true
				}
				if len(ps) > 0 && strings.HasPrefix(ps[0].text, "xref") {
					return false
				}
				if _, is := header(ps); is {
					// a cross-reference stream is the last object
					d.forward(e, func(e2 event) bool {
						ps, ok := d.writes(e2)
						if !ok || len(ps) == 0 {
							return true
						}
						if _, is := header(ps); is || strings.HasPrefix(ps[0].text, "xref") {
							d.bad("startxref", s, "writes a startxref position at which another object was written")
							return false
						}
						return true
					})
					return false
				}
				d.bad("startxref", s, "writes a startxref position at which neither a cross-reference table nor a stream starts")
				return false
			})
		}
	}
}
