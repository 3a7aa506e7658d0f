package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- counting along the paths of a function

// ghost is a number that the program does not keep: not reached, to be chosen, a linear form of values, or not known.
type ghost struct {
	kind int
	l    lin
}

const (
	ghostNone = iota
	ghostFree
	ghostIs
	ghostBad
)

// counting finds at each block of a function linear forms for two numbers that are changed by events: the number whose
// turn it is, and how many entries there are in the section so far.
var debugCount = os.Getenv("DEBUGCOUNT") != ""

type counting struct {
	n      *Num
	fn     *ssa.Function
	init   [2]ghost
	step   func(ins ssa.Instruction, s [2]ghost) [2]ghost
	in     map[*ssa.BasicBlock][2]ghost
	out    map[*ssa.BasicBlock][2]ghost
	banned [2]map[string]bool
	choice string          // a form that was just chosen
	wrong  map[string]bool // choices that lead nowhere
}

func (c *counting) run() {
	c.banned = [2]map[string]bool{{}, {}}
	for w := range c.wrong {
		c.banned[0][w] = true
	}
	order := rpo(c.fn)
	pos := map[*ssa.BasicBlock]int{}
	for i, b := range order {
		pos[b] = i
	}
	for round := 0; round < 2000; round++ {
		c.in = map[*ssa.BasicBlock][2]ghost{}
		c.choice = ""
		out := map[*ssa.BasicBlock][2]ghost{}
		c.out = out
		chosen := map[*ssa.BasicBlock][2]string{}
		for i, b := range order {
			var s [2]ghost
			if i == 0 {
				s = c.init
			} else {
				var ch [2]string
				for k := range s {
					s[k], ch[k] = c.join(b, k, func(j int) (ghost, bool) {
						p := b.Preds[j]
						q, ok := pos[p]
						return out[p][k], ok && q < i
					})
				}
				chosen[b] = ch
			}
			c.in[b] = s
			for _, ins := range b.Instrs {
				s = c.step(ins, s)
			}
			out[b] = s
		}
		again := false
		for i := len(order) - 1; i >= 0 && !again; i-- { // inner loops first
			b := order[i]
			for j, p := range b.Preds {
				if q, ok := pos[p]; !ok || q < i {
					continue
				}
				for k := 0; k < 2; k++ {
					h, e := c.in[b][k], out[p][k]
					if e.kind == ghostNone || h.kind == ghostBad || h.kind == ghostIs && (e.kind == ghostFree || c.agrees(h.l, e, b, j)) || h.kind == ghostFree && e.kind == ghostFree {
						continue
					}
					c.banned[k][chosen[b][k]] = true
					again = true
				}
			}
		}
		if !again {
			if debugCount {
				for _, b := range order {
					s := c.in[b]
					fmt.Println(round, b.Index, b.Comment, s[0].kind, c.n.Show(s[0].l), s[1].kind, c.n.Show(s[1].l))
				}
			}
			return
		}
	}
	if debugCount {
		fmt.Println("gave up", c.fn)
	}
	for b := range c.in {
		c.in[b] = [2]ghost{{kind: ghostBad}, {kind: ghostBad}}
	}
}

func rpo(f *ssa.Function) []*ssa.BasicBlock {
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				walk(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	walk(f.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

// join: a linear form that is right on all edges that come in, of those seen so far.
func (c *counting) join(b *ssa.BasicBlock, k int, edge func(int) (ghost, bool)) (ghost, string) {
	var cands []lin
	free, known, bad, loop, choice := 0, 0, false, false, false
	var phis []*ssa.Phi
	for _, ins := range b.Instrs {
		if phi, ok := ins.(*ssa.Phi); ok && isInt(phi.Type()) {
			phis = append(phis, phi)
		}
	}
	for j := range b.Preds {
		e, ok := edge(j)
		if !ok {
			loop = true
			continue
		}
		switch e.kind {
		case ghostFree:
			free++
		case ghostBad:
			bad = true
		case ghostIs:
			known++
			// differences of the variables are zero on this edge
			diffs := []lin{}
			for _, phi := range phis {
				d := c.n.self(phi).add(c.n.Lin(phi.Edges[j]), -1)
				diffs = append(diffs, d, d.scale(-1))
			}
			cands = append(cands, e.l)
			for x, d := range diffs {
				cands = append(cands, e.l.add(d, 1))
				for _, d2 := range diffs[x+1:] {
					cands = append(cands, e.l.add(d, 1).add(d2, 1))
				}
			}
		}
	}
	key := func(s string) string { return fmt.Sprintf("%d|%s", b.Index, s) }
	if bad {
		return ghost{kind: ghostBad}, ""
	}
	if known == 0 && free > 0 {
		if !loop {
			return ghost{kind: ghostFree}, ""
		}
		for _, phi := range phis {
			cands = append(cands, c.n.self(phi), c.n.self(phi).minus(-1))
		}
		for i, phi := range phis {
			for _, phi2 := range phis[i+1:] {
				cands = append(cands, c.n.self(phi).add(c.n.self(phi2), 1))
			}
		}
		choice = true
		if !c.banned[k][key("free")] {
			return ghost{kind: ghostFree}, key("free")
		}
	}
	if known+free == 0 {
		return ghost{}, ""
	}
	// short forms first
	sort.SliceStable(cands, func(i, j int) bool { return len(cands[i].t) < len(cands[j].t) })
	for _, cand := range cands {
		id := key(c.n.str(cand))
		if c.banned[k][id] || !c.inScope(cand, b) {
			continue
		}
		ok := true
		for j := range b.Preds {
			if e, seen := edge(j); seen && e.kind == ghostIs && !c.agrees(cand, e, b, j) {
				ok = false
				break
			}
		}
		if ok {
			if choice {
				c.choice = id
			}
			return ghost{ghostIs, cand}, id
		}
	}
	return ghost{kind: ghostBad}, ""
}

// inScope: all values of the form are known in the block.
func (c *counting) inScope(l lin, b *ssa.BasicBlock) bool {
	for a := range l.t {
		ins, ok := a.v.(ssa.Instruction)
		if !ok {
			continue
		}
		if phi, is := a.v.(*ssa.Phi); is && phi.Block() == b {
			continue
		}
		if ins.Block() == nil || ins.Block() == b || !ins.Block().Dominates(b) {
			return false
		}
	}
	return true
}

// along: the form on an edge into a block
func (c *counting) along(l lin, b *ssa.BasicBlock, j int) lin {
	r := konst(l.c)
	for a, k := range l.t {
		if phi, ok := a.v.(*ssa.Phi); ok && phi.Block() == b && !a.len {
			r = r.add(c.n.Lin(phi.Edges[j]), k)
		} else {
			r = r.add(lin{t: map[atom]int64{a: 1}}, k)
		}
	}
	return r
}

func (c *counting) agrees(l lin, e ghost, b *ssa.BasicBlock, j int) bool {
	if e.kind != ghostIs {
		return false
	}
	return c.zeroOn(c.along(l, b, j).add(e.l, -1), b.Preds[j], b)
}

// zeroOn: the form is zero when control goes from one block to another.
func (c *counting) zeroOn(l lin, from, to *ssa.BasicBlock) bool {
	if len(l.t) == 0 {
		return l.c == 0
	}
	show := func(g lin) bool {
		c.n.work, c.n.limit = 0, 100000
		up := c.n.factsAt(from, len(from.Instrs))
		f := &facts{nils: map[ssa.Value]int{}}
		f.list = append(f.list, up.list...)
		for k, v := range up.nils {
			f.nils[k] = v
		}
		c.n.edgeFacts(f, from, to)
		q := c.n.newProof(f, from, nil, 2)
		return q.show(g, 2) || q.show(g, 4)
	}
	return show(l) && show(l.scale(-1))
}

func (c *counting) zero(l lin, at ssa.Instruction) bool {
	if len(l.t) == 0 {
		return l.c == 0
	}
	return c.n.Prove(l, at) && c.n.Prove(l.scale(-1), at)
}

// equal: the k-th number is known to be v before the instruction, at least on one of the ways to it: that a loop ends
// before it has come to its last element is not excluded by the code alone.
func (c *counting) equal(k int, s [2]ghost, v lin, at ssa.Instruction) bool {
	if s[k].kind == ghostFree || s[k].kind == ghostIs && c.zero(s[k].l.add(v, -1), at) {
		return true
	}
	b := at.Block()
	way := append([]ssa.Instruction{}, b.Instrs[:indexIn(at)]...)
	for len(b.Preds) == 1 && !isLoopHead(b) {
		b = b.Preds[0]
		way = append(append([]ssa.Instruction{}, b.Instrs...), way...)
	}
	if len(b.Preds) < 2 || isLoopHead(b) || !c.inScope(v, b) {
		return false
	}
	for j, p := range b.Preds {
		t := c.out[p]
		for _, ins := range way {
			t = c.step(ins, t)
		}
		if e := t[k]; e.kind == ghostFree || e.kind == ghostIs && c.zeroOn(c.along(v, b, j).add(e.l, -1), p, b) {
			return true
		}
	}
	return false
}

// ---- cross-reference tables and streams

// entry is what an instruction does to the cross-reference data.
type entry struct {
	kind         int // 1 entry, 2 header of a section
	key          ssa.Value
	more         []ssa.Value // further numbers that must be the same
	used         bool
	first, count ssa.Value
	firstConst   int64
	recv         ssa.Value
}

var (
	tableEntry  = regexp.MustCompile(`^(\x00|\d{10}) (\x00|\d{5}) ([nf])`)
	tableHeader = regexp.MustCompile(`^(\x00|\d+) \x00 ?\r?\n`)
)

func joined(ps []textPiece) (s string, args []ssa.Value) {
	for _, p := range ps {
		s += p.text
		if p.arg != nil {
			s += "\x00"
			args = append(args, unwrapIface(p.arg))
		}
	}
	return s, args
}

// lookedUp: the value was looked up in a table by object number.
func lookedUp(v ssa.Value, d int) *ssa.Lookup {
	if d > 8 {
		return nil
	}
	switch y := v.(type) {
	case *ssa.Convert:
		return lookedUp(y.X, d+1)
	case *ssa.ChangeType:
		return lookedUp(y.X, d+1)
	case *ssa.MakeInterface:
		return lookedUp(y.X, d+1)
	case *ssa.Extract:
		if y.Index == 0 {
			return lookedUp(y.Tuple, d+1)
		}
	case *ssa.Field:
		return lookedUp(y.X, d+1)
	case *ssa.UnOp:
		if y.Op != token.MUL {
			return nil
		}
		a := y.X
		if fa, ok := a.(*ssa.FieldAddr); ok {
			a = fa.X
		}
		al, ok := a.(*ssa.Alloc)
		if !ok {
			return nil
		}
		var one ssa.Value
		for _, ref := range *al.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
				if one != nil {
					return nil
				}
				one = st.Val
			}
		}
		if one != nil {
			return lookedUp(one, d+1)
		}
	case *ssa.Lookup:
		if m, ok := y.X.Type().Underlying().(*types.Map); ok && isInt(m.Key()) {
			return y
		}
	}
	return nil
}

// positional: the map holds positions, or places in object streams.
func positional(m ssa.Value) bool {
	e := m.Type().Underlying().(*types.Map).Elem()
	if isInt(e) {
		return true
	}
	_, ok := e.Underlying().(*types.Struct)
	return ok
}

// data: the bytes of one entry of a cross-reference stream: a new slice, or what a helper makes of its arguments.
// It returns the number of the object that the bytes are about.
func entryData(v ssa.Value, at ssa.Instruction) (keys []ssa.Value, ok bool) {
	switch y := v.(type) {
	case *ssa.MakeSlice:
		return keyOf(y, at, 0), true
	case *ssa.Call:
		if g := y.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 {
			if k := keyIn(y); k != nil {
				keys = append(keys, k)
			}
			return keys, true
		}
	case *ssa.Slice:
		if _, is := y.X.(*ssa.Alloc); is && isPointer(y.X.Type()) {
			if args, ok := variadic(v); ok && len(args) > 0 && isByte(args[0].Type()) {
				return nil, false
			}
			return keyOf(y, at, 0), true
		}
	}
	return nil, false
}

func keyIn(call ssa.CallInstruction) ssa.Value {
	for _, a := range call.Common().Args {
		if l := lookedUp(a, 0); l != nil && positional(l.X) {
			return l.Index
		}
	}
	return nil
}

// keyOf: the numbers of the objects that a slice was filled for before the instruction
func keyOf(v ssa.Value, at ssa.Instruction, d int) (keys []ssa.Value) {
	if d > 3 || v.Referrers() == nil {
		return nil
	}
	for _, ref := range *v.Referrers() {
		switch y := ref.(type) {
		case ssa.CallInstruction:
			if !y.Block().Dominates(at.Block()) {
				continue
			}
			if k := keyIn(y); k != nil {
				keys = append(keys, k)
			}
		case *ssa.Slice:
			if y.X == v {
				keys = append(keys, keyOf(y, at, d+1)...)
			}
		}
	}
	return keys
}

// entryAt classifies an instruction.
func (x *offsets) entryAt(ins ssa.Instruction, depth int) *entry {
	call, ok := ins.(*ssa.Call)
	if !ok {
		return nil
	}
	if bi, ok := call.Call.Value.(*ssa.Builtin); ok {
		if bi.Name() != "append" || len(call.Call.Args) != 2 {
			return nil
		}
		t := call.Type().Underlying().(*types.Slice)
		if isByte(t.Elem()) {
			if keys, ok := entryData(call.Call.Args[1], ins); ok {
				e := &entry{kind: 1, used: len(keys) > 0}
				if e.used {
					e.key, e.more = keys[0], keys[1:]
				}
				return e
			}
			return nil
		}
		args, ok := variadic(call.Call.Args[1])
		if ok && len(args) == 2 && isInt(unwrapIface(args[0]).Type()) && isInt(unwrapIface(args[1]).Type()) {
			return &entry{kind: 2, first: unwrapIface(args[0]), count: unwrapIface(args[1])}
		}
		return nil
	}
	if ps, recv := x.written(ins); recv != nil {
		s, args := joined(ps)
		if m := tableEntry.FindStringSubmatch(s); m != nil {
			e := &entry{kind: 1, used: m[3] == "n", recv: recv}
			if e.used && m[1] == "\x00" {
				if l := lookedUp(args[0], 0); l != nil {
					e.key = l.Index
				}
			}
			return e
		}
		if m := tableHeader.FindStringSubmatch(s); m != nil {
			e := &entry{kind: 2, recv: recv, count: args[len(args)-1]}
			if m[1] == "\x00" {
				e.first = args[0]
			} else {
				fmt.Sscan(m[1], &e.firstConst)
			}
			return e
		}
		return nil
	}
	// a helper that writes one entry
	g := call.Call.StaticCallee()
	if g == nil || !x.p.inMod[g] || depth > 2 {
		return nil
	}
	var one *entry
	n := 0
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if e := x.entryAt(in, depth+1); e != nil {
				one = e
				n++
				if x.n.innermost(b) != nil {
					n = 2
				}
			}
		}
	}
	if n != 1 {
		return nil
	}
	e := *one
	e.recv = nil
	if e.kind == 2 {
		for i, p := range g.Params {
			a := argFor(call, g, i)
			if ssa.Value(p) == e.first {
				e.first = a
			} else if ssa.Value(p) == e.count {
				e.count = a
			}
		}
		return &e
	}
	if e.key != nil {
		for i, p := range g.Params {
			if ssa.Value(p) == e.key {
				e.key = argFor(call, g, i)
				return &e
			}
		}
	}
	e.key = keyIn(call)
	return &e
}

// entries: the cross-reference data of a function is in order.
func (x *offsets) entries(f *ssa.Function) {
	at := map[ssa.Instruction]*entry{}
	used, heads := 0, 0
	direct := false
	var table ssa.Value
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			e := x.entryAt(ins, 0)
			if e == nil {
				continue
			}
			at[ins] = e
			if e.kind == 1 && e.used {
				used++
			}
			if e.kind == 1 && e.recv != nil {
				table = e.recv
			}
			if e.kind == 2 {
				heads++
			}
		}
	}
	if used == 0 || heads == 0 {
		return
	}
	for _, e := range at {
		if e.kind == 2 && e.recv != nil && e.recv == table {
			direct = true
		}
	}
	first := func(e *entry) lin {
		if e.first == nil {
			return konst(e.firstConst)
		}
		return x.ideal.Lin(e.first)
	}
	c := &counting{n: x.ideal, fn: f, init: [2]ghost{{kind: ghostFree}, {kind: ghostIs}}}
	c.step = func(ins ssa.Instruction, s [2]ghost) [2]ghost {
		e := at[ins]
		switch {
		case e == nil:
		case e.kind == 1:
			if e.used && e.key != nil && s[0].kind != ghostIs {
				s[0] = ghost{ghostIs, x.ideal.Lin(e.key)}
			}
			for k := range s {
				if s[k].kind == ghostIs {
					s[k].l = s[k].l.minus(-1)
				}
			}
		case direct:
			s = [2]ghost{{ghostIs, first(e)}, {kind: ghostIs}}
		default:
			s = [2]ghost{{kind: ghostFree}, {kind: ghostIs}}
		}
		return s
	}
	// the only header, and the blocks after it that no entry follows
	var heads1 *entry
	after := map[*ssa.BasicBlock]bool{}
	name := x.p.FuncName(f)
	type report struct{ rule, pos, format string }
	var reports, best []report
	bad := func(rule, pos, format string) { reports = append(reports, report{rule, pos, format}) }
	// which number's turn it is at the start of a loop may be chosen
	c.wrong = map[string]bool{}
	for tries := 0; ; tries++ {
		c.run()
		if direct && heads == 1 {
			heads1, after = x.lastSection(f, at)
		}
		reports, used, heads = nil, 0, 0
		for _, b := range f.Blocks {
			s, reached := c.in[b]
			if !reached {
				continue
			}
			for _, ins := range b.Instrs {
				e := at[ins]
				pos := x.p.InstrPos(ins)
				switch {
				case e == nil:
					// the section is over: it has at least the entries it announced
					if ps, recv := x.written(ins); direct && heads1 != nil && recv == table && len(ps) > 0 && after[b] {
						if s[1].kind != ghostIs || !x.ideal.Prove(s[1].l.add(x.ideal.Lin(heads1.count), -1), ins) {
							bad("section", pos, "%s ends a section, and it is not shown to have as many entries as its header says")
						}
						after[b] = false
					}
				case e.kind == 1 && e.used:
					used++
					if e.key == nil {
						bad("entry", pos, "%s writes an in-use entry whose offset is not the recorded position of an object")
					} else if s[0].kind == ghostBad || s[0].kind == ghostIs && !c.zero(s[0].l.add(x.ideal.Lin(e.key), -1), ins) {
						bad("entry", pos, "%s writes the entry of an object at a place where it is not shown that it is this object's turn")
					}
					for _, k := range e.more {
						if !x.sameNumber(k, e.key) {
							bad("entry", pos, "%s writes an entry with data of two objects")
						}
					}
				case e.kind == 2 && !direct:
					heads++
					n := x.ideal.Lin(e.count)
					if !c.equal(1, s, n, ins) {
						bad("section", pos, "%s writes the number of entries of a section, and it is not shown to be the number of entries written")
					}
					if !c.equal(0, s, first(e).add(n, 1), ins) {
						bad("section", pos, "%s writes the first number of a section, and it is not shown to be the number of the first entry")
					}
				}
				s = c.step(ins, s)
			}
		}
		if best == nil || len(reports) < len(best) {
			best = reports
		}
		if len(reports) == 0 || c.choice == "" || tries == 12 {
			break
		}
		c.wrong[c.choice] = true
	}
	if len(reports) == 0 {
		best = nil
	}
	x.r.Count("xref_entries", used)
	x.r.Count("xref_sections", heads)
	for _, r := range best {
		x.r.Violate(r.rule, name, r.pos, r.format, name)
	}
	if !direct && table != nil {
		x.flushed(f, at, table)
	}
}

// lastSection: the header, and the blocks after it whose instructions no entry follows any more.
func (x *offsets) lastSection(f *ssa.Function, at map[ssa.Instruction]*entry) (h *entry, after map[*ssa.BasicBlock]bool) {
	after = map[*ssa.BasicBlock]bool{}
	var hb *ssa.BasicBlock
	entries := map[*ssa.BasicBlock]bool{}
	for ins, e := range at {
		if e.kind == 2 {
			h, hb = e, ins.Block()
		} else {
			entries[ins.Block()] = true
		}
	}
	for _, b := range f.Blocks {
		if !hb.Dominates(b) || b == hb || entries[b] {
			continue
		}
		last := true
		for e := range entries {
			last = last && !canReach(b, e)
		}
		// only where the section ends
		first := false
		for _, p := range b.Preds {
			for e := range entries {
				first = first || p == e || canReach(p, e)
			}
		}
		after[b] = last && first
	}
	return h, after
}

// flushed: after the header of a section its entries are written, and the buffer is emptied before the next one.
func (x *offsets) flushed(f *ssa.Function, at map[ssa.Instruction]*entry, table ssa.Value) {
	name := x.p.FuncName(f)
	for h, e := range at {
		if e.kind != 2 || e.recv == nil {
			continue
		}
		doc := e.recv
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock, i int, wrote bool)
		walk = func(b *ssa.BasicBlock, i int, wrote bool) {
			if i == 0 {
				if seen[b] {
					return
				}
				seen[b] = true
			}
			for ; i < len(b.Instrs); i++ {
				ins := b.Instrs[i]
				if ins == table.(ssa.Instruction) {
					return // a new buffer
				}
				if call, ok := ins.(*ssa.Call); ok {
					if n := calleeFullName(call); strings.HasSuffix(n, ").Reset") && call.Call.Args[0] == table {
						return
					}
					if n := calleeFullName(call); strings.HasSuffix(n, ").WriteTo") && call.Call.Args[0] == table {
						wrote = true
					}
				}
				if ps, recv := x.written(ins); recv == doc && !wrote {
					ok := false
					if len(ps) == 1 && ps[0].arg != nil {
						if br := bufferRead(x.c.strip(fval{ps[0].arg, &frame{fn: f}, false}).v); br != nil {
							ok = br.Call.Args[0] == table
						}
					}
					if !ok {
						x.r.Violate("section", name, x.p.InstrPos(h), "%s writes the header of a section, and something else than its entries follows", name)
						return
					}
					wrote = true
				}
				if e2 := at[ins]; e2 != nil && e2.kind == 1 {
					x.r.Violate("section", name, x.p.InstrPos(h), "%s adds entries to a section that was written already", name)
					return
				}
			}
			for _, s := range b.Succs {
				walk(s, 0, wrote)
			}
		}
		walk(h.Block(), indexIn(h)+1, false)
	}
}
