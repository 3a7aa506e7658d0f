package main

// C22: page numbers outside the document are refused.
//
// For every operation that takes a page number, a list of them, ranges or bookmarks, each path to a successful
// return must have established that the number lies in 1..number of pages: by branches from which the inequalities
// q >= 1 and q <= len(page list) follow, or by a call to a function for which the same has been shown and whose
// error is nil on the path. Lists must be covered by a loop over all elements whose every iteration establishes
// it for its element.

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C22"] = checkC22 }

const (
	pageNumber = "page number"
	pagePlace  = "insertion position"
	pageCount  = "count of pages"
	pageList   = "list of page numbers"
	pageRanges = "list of page ranges"
	pageMarks  = "list of bookmarks"
)

// the page-taking operations of the library; others are found by the names of their parameters
var pageOps = []struct {
	pkg, recv, fn string
	param         int // index including the receiver
	kind          string
}{
	{"core/manipulate", "PDFManipulator", "DeletePage", 1, pageNumber},
	{"core/manipulate", "PDFManipulator", "DeletePages", 1, pageList},
	{"core/manipulate", "PDFManipulator", "RotatePage", 1, pageNumber},
	{"core/manipulate", "PDFManipulator", "InsertPage", 1, pagePlace},
	{"core/manipulate", "", "ExtractPages", 1, pageList},
	{"core/manipulate", "", "SplitPDF", 1, pageRanges},
	{"core/manipulate", "", "SplitPDFByPageCount", 1, pageCount},
	{"core/write", "PDFWriter", "SetBookmarks", 1, pageMarks},
	{"core/write", "SimplePDFBuilder", "SetBookmarks", 1, pageMarks},
}

var pageParam = regexp.MustCompile(`(?i)^page(num(ber)?s?|no|index|s)$`)

type c22 struct {
	p     *Program
	n     *Num
	r     *Result
	lists map[*ssa.Function]bool
	sum   map[string]*pageSummary
	edges map[string]bool
	why   map[string]string // where a subject failed
}

// pageSummary: what a successful return of a function says about one of its parameters.
type pageSummary struct {
	ok    bool
	where ssa.Instruction
	busy  bool
}

// pageBound is the number of pages: the length of a page list, or a parameter said to be it.
type pageBound struct {
	param int // -1: a page list of the function itself
	len   bool
}

// pageSuccess: which return counts as success: result res is nil (an error), or the boolean val.
type pageSuccess struct {
	res int
	val bool
	err bool
}

func (c *c22) isPageList(f *ssa.Function) bool {
	if v, ok := c.lists[f]; ok {
		return v
	}
	c.lists[f] = false
	res := f.Signature.Results()
	if res.Len() < 1 || !c.p.inMod[f] {
		return false
	}
	sl, ok := res.At(0).Type().Underlying().(*types.Slice)
	if !ok || !isInt(sl.Elem()) || res.Len() > 1 && !isErrorType(res.At(res.Len()-1).Type()) {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var reach func(g *ssa.Function) bool
	reach = func(g *ssa.Function) bool {
		if seen[g] || !c.p.inMod[g] {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.TrimPrefix(constant.StringVal(k.Value), "/") == "Kids" {
						return true
					}
				}
				if call, ok := ins.(ssa.CallInstruction); ok {
					for _, h := range c.p.Callees(call) {
						if reach(h) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	c.lists[f] = reach(f)
	return c.lists[f]
}

// pageLists: the page lists a function obtains.
func (c *c22) pageListsOf(f *ssa.Function) []ssa.Value {
	var out []ssa.Value
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			call, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			for _, g := range c.p.Callees(call) {
				if !c.isPageList(g) {
					continue
				}
				if g.Signature.Results().Len() == 1 {
					out = append(out, call)
					continue
				}
				for _, ref := range *call.Referrers() {
					if e, ok := ref.(*ssa.Extract); ok && e.Index == 0 {
						out = append(out, e)
					}
				}
			}
		}
	}
	return out
}

// bounds of the page number in f under the chosen bound.
func (c *c22) boundForms(f *ssa.Function, bd pageBound) []lin {
	var out []lin
	if bd.param >= 0 {
		if bd.len {
			return []lin{c.n.Len(f.Params[bd.param])}
		}
		return []lin{c.n.Lin(f.Params[bd.param])}
	}
	for _, s := range c.pageListsOf(f) {
		out = append(out, c.n.Len(s))
	}
	return out
}

func definedAt(l lin, b *ssa.BasicBlock) bool {
	for a := range l.t {
		if ins, ok := a.v.(ssa.Instruction); ok && (ins.Parent() != b.Parent() || ins.Block() != b && !ins.Block().Dominates(b)) {
			return false
		}
	}
	return true
}

// goals: what says that q is a valid page number of the given kind: of each group at least one inequality.
func (c *c22) goals(q lin, kind string, f *ssa.Function, bd pageBound) [][]lin {
	if kind == pageCount {
		return [][]lin{{q.minus(1)}}
	}
	var high []lin
	for _, n := range c.boundForms(f, bd) {
		if kind == pagePlace {
			high = append(high, n.add(q, -1).minus(-1))
		} else {
			high = append(high, n.add(q, -1))
		}
	}
	if kind == pagePlace {
		return [][]lin{{q}, high}
	}
	return [][]lin{{q.minus(1)}, high}
}

// holds: the inequalities follow when control goes from from to to (to == nil: at the end of from, where extra is known).
func (c *c22) holds(gs [][]lin, from, to *ssa.BasicBlock, cond ssa.Value, val bool) bool {
	for _, g := range gs {
		all := true
		for _, l := range g {
			key := c.n.str(l) + "|" + from.String() + itoa(from.Index)
			if to != nil {
				key += ">" + itoa(to.Index)
			}
			if cond != nil {
				key += "?" + itoa(c.n.id(cond))
				if val {
					key += "+"
				}
			}
			key += "@" + c.p.FuncName(from.Parent())
			ok, known := c.edges[key]
			if !known {
				ok = false
				if definedAt(l, from) {
					up := c.n.factsAt(from, len(from.Instrs))
					f := &facts{nils: map[ssa.Value]int{}}
					f.list = append(f.list, up.list...)
					for k, v := range up.nils {
						f.nils[k] = v
					}
					if to != nil {
						c.n.edgeFacts(f, from, to)
					}
					if cond != nil {
						c.n.assume(f, cond, val, 0)
					}
					c.n.work, c.n.limit = 0, 20000
					ok = c.n.newProof(f, from, nil, 2).show(l, 5)
				}
				c.edges[key] = ok
			}
			if !ok {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// outcome of a call on the path: 1 success, -1 failure, 0 unknown. err is the value returned on when it is handed up.
func callSucceeded(s *PState, call *ssa.Call, su pageSuccess) bool {
	v := resultValue(call, su.res)
	if v == nil {
		return false
	}
	if su.err {
		return s.Nil(v) == -1
	}
	t := s.Truth(v)
	return t == 1 && su.val || t == -1 && !su.val
}

func resultValue(call *ssa.Call, i int) ssa.Value {
	if call.Call.Signature().Results().Len() == 1 {
		return call
	}
	for _, ref := range *call.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok && e.Index == i {
			return e
		}
	}
	return nil
}

// successes: the ways in which a function can report success.
func successesOf(f *ssa.Function) []pageSuccess {
	res := f.Signature.Results()
	if res.Len() == 0 {
		return nil
	}
	last := res.At(res.Len() - 1).Type()
	if isErrorType(last) {
		return []pageSuccess{{res: res.Len() - 1, err: true}}
	}
	if isBoolType(last) {
		return []pageSuccess{{res: res.Len() - 1, val: true}, {res: res.Len() - 1, val: false}}
	}
	return nil
}

// subject is something of the caller's that must be validated in a function.
type subject struct {
	f     *ssa.Function
	kind  string
	whole map[ssa.Value]bool // numbers, or the list and its copies
	elems map[ssa.Value]bool // for elements of a struct list: loads of the whole element are in loads
	start map[ssa.Value]bool
	end   map[ssa.Value]bool
}

func (c *c22) bounds(f *ssa.Function) []pageBound {
	out := []pageBound{{param: -1}}
	for i, p := range f.Params {
		if isInt(p.Type()) {
			out = append(out, pageBound{param: i})
		} else if _, ok := p.Type().Underlying().(*types.Slice); ok {
			out = append(out, pageBound{param: i, len: true})
		}
	}
	return out
}

// boundAtCall: the bound of the callee is the number of pages for the caller's bound.
func (c *c22) boundAtCall(call *ssa.Call, g *ssa.Function, gb pageBound, bd pageBound) bool {
	if gb.param < 0 {
		return true
	}
	arg := argFor(call, g, gb.param)
	if arg == nil {
		return false
	}
	l := c.n.Lin(arg)
	if gb.len {
		l = c.n.Len(arg)
	}
	for _, s := range c.boundForms(call.Parent(), bd) {
		d := s.add(l, -1)
		if len(d.t) == 0 && d.c == 0 {
			return true
		}
	}
	return false
}

// validates: every return of f that counts as success su has parameter i checked.
func (c *c22) validates(f *ssa.Function, i int, kind string, bd pageBound, su pageSuccess) (bool, ssa.Instruction) {
	key := c.p.FuncName(f) + "|" + itoa(i) + "|" + kind + "|" + itoa(bd.param) + "|" + itoa(su.res)
	if bd.len {
		key += "len"
	}
	if su.val {
		key += "true"
	}
	if s, ok := c.sum[key]; ok {
		if s.busy { // a recursive call: by induction on the depth of the recursion
			return true, nil
		}
		return s.ok, s.where
	}
	if len(f.Blocks) == 0 || !c.p.inMod[f] || i >= len(f.Params) || bd.param == i {
		return false, nil
	}
	s := &pageSummary{busy: true}
	c.sum[key] = s
	w := &pageWalk{c: c, f: f, kind: kind, bd: bd, su: su}
	s.ok, s.where = w.run(f.Params[i])
	s.busy = false
	return s.ok, s.where
}

type pageWalk struct {
	c    *c22
	f    *ssa.Function
	kind string
	bd   pageBound
	su   pageSuccess

	assumed    ssa.Value // a condition known to have the value assumedVal while a return is examined
	assumedVal bool
}

func (w *pageWalk) run(prm ssa.Value) (bool, ssa.Instruction) {
	switch w.kind {
	case pageNumber, pagePlace, pageCount:
		q := w.c.n.Lin(prm)
		gs := w.c.goals(q, w.kind, w.f, w.bd)
		return w.paths(gs, w.callsOn(func(v ssa.Value) bool { return v == prm }, w.kind), nil)
	}
	if strings.HasSuffix(w.kind, " (one)") {
		return w.single(prm)
	}
	same := w.copies(prm)
	calls := w.callsOn(func(v ssa.Value) bool { return same[v] }, w.kind)
	// loops over all elements
	covered := map[[2]*ssa.BasicBlock]bool{}
	for h, body := range w.c.n.loopsOf(w.f) {
		for _, x := range w.coverLoop(h, body, same) {
			covered[x] = true
		}
	}
	var empty []lin
	for l := range same {
		empty = append(empty, w.c.n.Len(l).scale(-1))
	}
	return w.paths([][]lin{empty}, calls, covered)
}

// single: the parameter is one element (or its address).
func (w *pageWalk) single(prm ssa.Value) (bool, ssa.Instruction) {
	one := *w
	one.kind = strings.TrimSuffix(w.kind, " (one)")
	isElem := func(addr ssa.Value) bool {
		if addr == prm {
			return isPtr(prm.Type())
		}
		a, ok := addr.(*ssa.Alloc)
		if !ok {
			return false
		}
		hit := false
		for _, ref := range *a.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Addr != a || x.Val != prm {
					return false
				}
				hit = true
			case *ssa.FieldAddr:
				for _, u := range *x.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == x {
						return false
					}
				}
			}
		}
		return hit
	}
	need, calls, subCalls := one.elementNeeds(w.f.Blocks, isElem, prm)
	return one.allOf(need, calls, subCalls)
}

// allOf: every success return comes after everything needed has been established.
func (w *pageWalk) allOf(need []func(s *PState, from, to *ssa.BasicBlock) bool, calls, subCalls []pageCall) (bool, ssa.Instruction) {
	full := 0
	for i := range need {
		full |= 1 << i
	}
	ok := true
	var where ssa.Instruction
	update := func(s *PState, from, to *ssa.BasicBlock) {
		for i, f := range need {
			if s.Flag&(1<<i) == 0 && f(s, from, to) {
				s.Flag |= 1 << i
			}
		}
		for _, k := range calls {
			if s.Flag != full && s.executed(k.call) && callSucceeded(s, k.call, k.su) {
				s.Flag = full
			}
		}
	}
	done := Explore(w.f, &PathClient{
		Limit: 30000,
		Instr: func(s *PState, ins ssa.Instruction) bool {
			if k, isCall := ins.(*ssa.Call); isCall {
				for _, x := range append(append([]pageCall(nil), calls...), subCalls...) {
					if x.call == k {
						s.mark(k)
					}
				}
			}
			return true
		},
		Edge: func(s *PState, from, to *ssa.BasicBlock, cond ssa.Value, val bool) bool {
			update(s, from, to)
			return true
		},
		Return: func(s *PState, ret *ssa.Return) {
			if s.Flag == full || w.su.res >= len(ret.Results) {
				return
			}
			v := s.Resolve(ret.Results[w.su.res])
			if w.su.err {
				if s.Nil(v) == 1 || nonNilExpr(v, w.f, 0) {
					return
				}
				// what remains is established by the call whose error is handed up
				for _, k := range append(append([]pageCall(nil), calls...), subCalls...) {
					if s.executed(k.call) && k.su.err && v == resultValue(k.call, k.su.res) {
						t := s.clone()
						t.truth[v] = -1
						update(t, ret.Block(), nil)
						if t.Flag == full {
							return
						}
					}
				}
			} else {
				t := s.Truth(v)
				if t == 1 && !w.su.val || t == -1 && w.su.val {
					return
				}
				w.assumed, w.assumedVal = v, w.su.val
				update(s, ret.Block(), nil)
				w.assumed = nil
				if s.Flag == full {
					return
				}
			}
			ok = false
			if where == nil {
				where = ret
			}
		},
	})
	return ok && done, where
}

// copies: the list and lists with the same elements.
func (w *pageWalk) copies(prm ssa.Value) map[ssa.Value]bool {
	same := map[ssa.Value]bool{prm: true}
	empty := func(v ssa.Value) bool {
		l := w.c.n.Len(v)
		return len(l.t) == 0 && l.c == 0
	}
	for changed := true; changed; {
		changed = false
		add := func(v ssa.Value) {
			if !same[v] && !w.elementsWritten(v) {
				same[v] = true
				changed = true
			}
		}
		for _, b := range w.f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
						if bi.Name() == "append" && len(x.Call.Args) == 2 && same[x.Call.Args[1]] && empty(x.Call.Args[0]) {
							add(x)
						}
						if bi.Name() == "copy" && same[x.Call.Args[1]] {
							d := x.Call.Args[0]
							l := w.c.n.Len(d).add(w.c.n.Len(x.Call.Args[1]), -1)
							if len(l.t) == 0 && l.c == 0 {
								add(d)
							}
						}
						continue
					}
					if n := calleeFullName(x); strings.HasPrefix(n, "slices.Clone") && len(x.Call.Args) == 1 && same[x.Call.Args[0]] {
						add(x)
					}
				case *ssa.ChangeType:
					if same[x.X] {
						add(x)
					}
				case *ssa.Slice:
					if same[x.X] && x.Low == nil && x.High == nil {
						add(x)
					}
				}
			}
		}
	}
	return same
}

// elementsWritten: the function stores into elements of the list.
func (w *pageWalk) elementsWritten(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, ref := range *refs {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok || ia.X != v {
			continue
		}
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ia {
				return true
			}
			if fa, ok := u.(*ssa.FieldAddr); ok {
				for _, uu := range *fa.Referrers() {
					if st, ok := uu.(*ssa.Store); ok && st.Addr == fa {
						return true
					}
				}
			}
		}
	}
	return false
}

type pageCall struct {
	call *ssa.Call
	su   pageSuccess
}

// callsOn: calls that validate the subject when they succeed.
func (w *pageWalk) callsOn(is func(ssa.Value) bool, kind string) []pageCall {
	var out []pageCall
	for _, b := range w.f.Blocks {
		for _, ins := range b.Instrs {
			call, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			gs := w.c.p.Callees(call)
			if len(gs) == 0 {
				continue
			}
			for ai := range gs[0].Params {
				arg := argFor(call, gs[0], ai)
				if arg == nil || !is(arg) {
					continue
				}
				for _, su := range successesOf(gs[0]) {
					all := true
					for _, g := range gs {
						one := false
						for _, gb := range w.c.bounds(g) {
							if gb.param == ai {
								continue
							}
							if !w.c.boundAtCall(call, g, gb, w.bd) {
								continue
							}
							if ok, _ := w.c.validates(g, ai, kind, gb, su); ok {
								one = true
								break
							}
						}
						if !one {
							all = false
						}
					}
					if all {
						out = append(out, pageCall{call, su})
					}
				}
			}
		}
	}
	return out
}

// paths explores f; every success return must have been preceded by the goal, a validating call that succeeded,
// or the exhaustion of a covering loop.
func (w *pageWalk) paths(gs [][]lin, calls []pageCall, covered map[[2]*ssa.BasicBlock]bool) (bool, ssa.Instruction) {
	ok := true
	var where ssa.Instruction
	full := 1<<(len(gs)+1) - 2
	proved := func(s *PState, from, to *ssa.BasicBlock, cond ssa.Value, val bool) {
		for i, g := range gs {
			if s.Flag&(2<<i) != 0 {
				continue
			}
			for _, l := range g {
				if w.c.holds([][]lin{{l}}, from, to, cond, val) {
					s.Flag |= 2 << i
					break
				}
			}
		}
		if len(gs) > 0 && s.Flag&full == full {
			s.Flag = 1
		}
	}
	test := func(s *PState, from, to *ssa.BasicBlock, cond ssa.Value, val bool) {
		if s.Flag&1 != 0 {
			return
		}
		if covered[[2]*ssa.BasicBlock{from, to}] {
			s.Flag |= 1
			return
		}
		proved(s, from, to, nil, false)
	}
	called := func(s *PState) {
		if s.Flag&1 != 0 {
			return
		}
		for _, k := range calls {
			if s.executed(k.call) && callSucceeded(s, k.call, k.su) {
				s.Flag |= 1
				return
			}
		}
	}
	done := Explore(w.f, &PathClient{
		Limit: 30000,
		Instr: func(s *PState, ins ssa.Instruction) bool {
			if k, isCall := ins.(*ssa.Call); isCall {
				for _, x := range calls {
					if x.call == k {
						s.mark(k)
					}
				}
			}
			return true
		},
		Edge: func(s *PState, from, to *ssa.BasicBlock, cond ssa.Value, val bool) bool {
			test(s, from, to, cond, val)
			called(s)
			return true
		},
		Return: func(s *PState, ret *ssa.Return) {
			called(s)
			if s.Flag&1 != 0 || w.su.res >= len(ret.Results) {
				return
			}
			v := s.Resolve(ret.Results[w.su.res])
			if w.su.err {
				if s.Nil(v) == 1 || nonNilExpr(v, w.f, 0) {
					return
				}
				// the result of the validating call itself
				for _, k := range calls {
					if s.executed(k.call) && k.su.err && v == resultValue(k.call, k.su.res) {
						return
					}
				}
				if proved(s, ret.Block(), nil, nil, false); s.Flag&1 != 0 {
					return
				}
			} else {
				t := s.Truth(v)
				if t == 1 && !w.su.val || t == -1 && w.su.val {
					return
				}
				for _, k := range calls {
					if s.executed(k.call) && !k.su.err && k.su.val == w.su.val && v == resultValue(k.call, k.su.res) {
						return
					}
				}
				if proved(s, ret.Block(), nil, v, w.su.val); s.Flag&1 != 0 {
					return
				}
				if u, isNot := v.(*ssa.UnOp); isNot && u.Op == token.NOT {
					for _, k := range calls {
						if s.executed(k.call) && !k.su.err && k.su.val != w.su.val && s.Resolve(u.X) == resultValue(k.call, k.su.res) {
							return
						}
					}
				}
			}
			ok = false
			if where == nil {
				where = ret
			}
		},
	})
	return ok && done, where
}

// coverLoop: edges that leave the loop only after an iteration for every element has established its validity.
func (w *pageWalk) coverLoop(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, same map[ssa.Value]bool) [][2]*ssa.BasicBlock {
	n := w.c.n
	var out [][2]*ssa.BasicBlock
	for l := range same {
		refs := l.Referrers()
		if refs == nil {
			continue
		}
		for _, ref := range *refs {
			ia, ok := ref.(*ssa.IndexAddr)
			if !ok || ia.X != l || !body[ia.Block()] || n.innermost(ia.Block()) != h {
				continue
			}
			idx := n.Lin(ia.Index)
			if len(idx.t) != 1 {
				continue
			}
			for a, k := range idx.t {
				phi, ok := a.v.(*ssa.Phi)
				if !ok || k != 1 || phi.Block() != h || a.len {
					continue
				}
				exits := w.exhausts(h, body, phi, idx, n.Len(l))
				if len(exits) == 0 {
					continue
				}
				if w.iteration(h, body, idx, l, same) {
					out = append(out, exits...)
				}
			}
		}
	}
	return out
}

// exhausts: the index runs over 0..len-1 in steps of one; the edges on which it has run out.
func (w *pageWalk) exhausts(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phi *ssa.Phi, idx lin, length lin) [][2]*ssa.BasicBlock {
	n := w.c.n
	self := n.self(phi)
	dir := int64(0)
	for i, e := range phi.Edges {
		pred := h.Preds[i]
		if body[pred] {
			d := n.Lin(e).add(self, -1)
			if len(d.t) != 0 || d.c != 1 && d.c != -1 || dir != 0 && dir != d.c {
				return nil
			}
			dir = d.c
		}
	}
	for i, e := range phi.Edges {
		if body[h.Preds[i]] {
			continue
		}
		first := idx.add(self, -1).add(n.Lin(e), 1)
		want := konst(0)
		if dir == -1 {
			want = length.minus(1)
		}
		d := first.add(want, -1)
		if len(d.t) != 0 || d.c != 0 {
			return nil
		}
	}
	var out [][2]*ssa.BasicBlock
	for b := range body {
		for _, s := range b.Succs {
			if body[s] {
				continue
			}
			goal := idx.add(length, -1)
			if dir == -1 {
				goal = konst(-1).add(idx, -1)
			}
			if w.c.holds([][]lin{{goal}}, b, s, nil, false) {
				out = append(out, [2]*ssa.BasicBlock{b, s})
			}
		}
	}
	return out
}

// iteration: every path through the body back to the head has established the validity of element idx of the list.
func (w *pageWalk) iteration(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, idx lin, list ssa.Value, same map[ssa.Value]bool) bool {
	isElem := func(addr ssa.Value) bool { return w.elemAddr(addr, idx, same) }
	blocks := []*ssa.BasicBlock{}
	for _, b := range w.f.Blocks {
		if body[b] {
			blocks = append(blocks, b)
		}
	}
	need, calls, subCalls := w.elementNeeds(blocks, isElem, nil)
	full := 0
	for i := range need {
		full |= 1 << i
	}
	ok := true
	update := func(s *PState, from, to *ssa.BasicBlock) {
		for i, f := range need {
			if s.Flag&(1<<i) == 0 && f(s, from, to) {
				s.Flag |= 1 << i
			}
		}
		for _, k := range calls {
			if s.Flag != full && s.executed(k.call) && callSucceeded(s, k.call, k.su) {
				s.Flag = full
			}
		}
	}
	back := func(s *PState) {
		if s.Flag != full {
			ok = false
		}
	}
	// start at the head; the first arrival back at it ends the iteration
	step := func(s *PState, from, to *ssa.BasicBlock) bool {
		if !body[to] {
			return false
		}
		update(s, from, to)
		if to == h {
			back(s)
			return false
		}
		return true
	}
	done := Explore(w.f, &PathClient{
		Start: h, Limit: 30000,
		Instr: func(s *PState, ins ssa.Instruction) bool {
			if k, isCall := ins.(*ssa.Call); isCall {
				for _, x := range append(append([]pageCall(nil), calls...), subCalls...) {
					if x.call == k {
						s.mark(k)
					}
				}
			}
			if j, isJump := ins.(*ssa.Jump); isJump {
				return step(s, j.Block(), j.Block().Succs[0])
			}
			return true
		},
		Edge: func(s *PState, from, to *ssa.BasicBlock, cond ssa.Value, val bool) bool { return step(s, from, to) },
	})
	return ok && done
}

// elementNeeds: what must be established for one element (at an address isElem accepts, or the value elem itself):
// all of need, or one of the calls succeeding. subCalls are further calls whose outcome need looks at.
func (w *pageWalk) elementNeeds(body []*ssa.BasicBlock, isElem func(ssa.Value) bool, elem ssa.Value) (need []func(s *PState, from, to *ssa.BasicBlock) bool, calls, subCalls []pageCall) {
	n := w.c.n
	switch w.kind {
	case pageList:
		var q []ssa.Value
		for _, b := range body {
			for _, ins := range b.Instrs {
				if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL && isElem(u.X) {
					q = append(q, u)
				}
			}
		}
		is := func(v ssa.Value) bool {
			for _, x := range q {
				if v == x || n.Lin(v).add(n.Lin(x), -1).str0() {
					return true
				}
			}
			return false
		}
		calls = w.callsOn(func(v ssa.Value) bool { return isInt(v.Type()) && is(v) }, pageNumber)
		for i := 0; i < 2; i++ {
			i := i
			need = append(need, func(s *PState, from, to *ssa.BasicBlock) bool {
				for _, x := range q {
					for _, l := range w.c.goals(n.Lin(x), pageNumber, w.f, w.bd)[i] {
						if w.c.holds([][]lin{{l}}, from, to, w.assumed, w.assumedVal) {
							return true
						}
					}
				}
				return false
			})
		}
	case pageRanges:
		start := w.fieldLoads(body, isElem, elem, "Start")
		end := w.fieldLoads(body, isElem, elem, "End")
		need = append(need, func(s *PState, from, to *ssa.BasicBlock) bool {
			for _, a := range start {
				if w.c.holds([][]lin{{n.Lin(a).minus(1)}}, from, to, w.assumed, w.assumedVal) {
					return true
				}
			}
			return false
		}, func(s *PState, from, to *ssa.BasicBlock) bool {
			for _, a := range end {
				for _, m := range w.c.boundForms(w.f, w.bd) {
					if w.c.holds([][]lin{{m.add(n.Lin(a), -1)}}, from, to, w.assumed, w.assumedVal) {
						return true
					}
				}
			}
			return false
		}, func(s *PState, from, to *ssa.BasicBlock) bool {
			for _, a := range start {
				for _, b := range end {
					if w.c.holds([][]lin{{n.Lin(b).add(n.Lin(a), -1)}}, from, to, w.assumed, w.assumedVal) {
						return true
					}
				}
			}
			return false
		})
		calls = append(calls, w.structCalls(body, isElem, elem)...)
	case pageMarks:
		nums := w.fieldLoads(body, isElem, elem, "PageNumber")
		kids := w.fieldLoads(body, isElem, elem, "Children")
		need = append(need, func(s *PState, from, to *ssa.BasicBlock) bool {
			for _, a := range nums {
				l := n.Lin(a)
				if w.c.holds([][]lin{{l, l.scale(-1)}}, from, to, w.assumed, w.assumedVal) {
					return true
				}
			}
			for _, b := range body {
				for _, ins := range b.Instrs {
					lk, ok := ins.(*ssa.Lookup)
					if !ok || !lk.CommaOk || !isMap(lk.X.Type()) {
						continue
					}
					hit := false
					for _, a := range nums {
						d := n.Lin(lk.Index).add(n.Lin(a), -1)
						if len(d.t) == 0 && d.c == 0 {
							hit = true
						}
					}
					if !hit {
						continue
					}
					for _, ref := range *lk.Referrers() {
						if e, ok := ref.(*ssa.Extract); ok && e.Index == 1 && s.Truth(e) == 1 {
							return true
						}
					}
				}
			}
			return false
		}, func(s *PState, from, to *ssa.BasicBlock) bool {
			for _, a := range kids {
				if w.c.holds([][]lin{{n.Len(a).scale(-1)}}, from, to, w.assumed, w.assumedVal) {
					return true
				}
			}
			for _, k := range subCalls {
				if s.executed(k.call) && callSucceeded(s, k.call, k.su) {
					return true
				}
			}
			return false
		})
		subCalls = w.callsOn(func(v ssa.Value) bool {
			for _, a := range kids {
				if v == a {
					return true
				}
			}
			return false
		}, pageMarks)
		calls = append(calls, w.structCalls(body, isElem, elem)...)
	}
	return
}

func (l lin) str0() bool { return len(l.t) == 0 && l.c == 0 }

// elemAddr: the address of element idx of the list (or of a local copy of it).
func (w *pageWalk) elemAddr(addr ssa.Value, idx lin, same map[ssa.Value]bool) bool {
	switch a := addr.(type) {
	case *ssa.IndexAddr:
		return same[a.X] && w.c.n.Lin(a.Index).add(idx, -1).str0()
	case *ssa.Alloc:
		hit := false
		for _, ref := range *a.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Addr != a {
					return false
				}
				ld, ok := x.Val.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL || hit {
					return false
				}
				if _, isIA := ld.X.(*ssa.IndexAddr); !isIA || !w.elemAddr(ld.X, idx, same) {
					return false
				}
				hit = true
			case *ssa.FieldAddr:
				for _, u := range *x.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == x {
						return false
					}
				}
			}
		}
		return hit
	}
	return false
}

// fieldLoads: values of a field of the element.
func (w *pageWalk) fieldLoads(body []*ssa.BasicBlock, isElem func(ssa.Value) bool, elem ssa.Value, name string) []ssa.Value {
	var out []ssa.Value
	for _, b := range body {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && isElem(fa.X) && nameOfField(fa.X.Type(), fa.Field) == name {
					out = append(out, x)
				}
			case *ssa.Field:
				if elem != nil && x.X == elem && nameOfField(x.X.Type(), x.Field) == name {
					out = append(out, x)
				} else if u, ok := x.X.(*ssa.UnOp); ok && u.Op == token.MUL && isElem(u.X) && nameOfField(x.X.Type(), x.Field) == name {
					out = append(out, x)
				}
			}
		}
	}
	return out
}

// structCalls: calls that get the whole element, or its address, and validate it.
func (w *pageWalk) structCalls(body []*ssa.BasicBlock, isElem func(ssa.Value) bool, elem ssa.Value) []pageCall {
	return w.callsOn(func(v ssa.Value) bool {
		if elem != nil && v == elem || isElem(v) {
			return true
		}
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && isStruct(u.Type()) && isElem(u.X)
	}, w.kind+" (one)")
}

func checkC22(p *Program, tier string) *Result {
	r := &Result{Explanation: "Path analysis with linear inequalities: for each page-taking operation, every path to a return that reports success must have established 1 <= q <= number of pages for every page number given (q itself, each element of a list, start and end of each range, each bookmark and its children), by branches that imply it or by a successful call to a function shown to establish it. Page tables of the document under edit must be read from the objects as edited so far, and a page table is indexed by the number given minus one."}
	c := &c22{p: p, n: NewNum(p), r: r, lists: map[*ssa.Function]bool{}, sum: map[string]*pageSummary{}, edges: map[string]bool{}}
	type job struct {
		f    *ssa.Function
		i    int
		kind string
	}
	var jobs []job
	for _, f := range p.Lib {
		if !exportedAPI(f) || f.Pkg == nil {
			continue
		}
		recv := ""
		if rv := f.Signature.Recv(); rv != nil {
			recv = namedOf(rv.Type())
		}
		named := map[int]bool{}
		for _, o := range pageOps {
			if f.Name() == o.fn && recv == o.recv && strings.HasSuffix(f.Pkg.Pkg.Path(), o.pkg) && o.param < len(f.Params) {
				jobs = append(jobs, job{f, o.param, o.kind})
				named[o.param] = true
			}
		}
		errs := f.Signature.Results().Len() > 0 && isErrorType(f.Signature.Results().At(f.Signature.Results().Len()-1).Type())
		for i, prm := range f.Params {
			if named[i] || !errs || !pageParam.MatchString(prm.Name()) {
				continue
			}
			if isInt(prm.Type()) {
				jobs = append(jobs, job{f, i, pageNumber})
			} else if sl, ok := prm.Type().Underlying().(*types.Slice); ok && isInt(sl.Elem()) {
				jobs = append(jobs, job{f, i, pageList})
			}
		}
	}
	for _, j := range jobs {
		r.Count("page-taking parameters", 1)
		done := false
		var where ssa.Instruction
		for _, su := range successesOf(j.f) {
			done, where = c.validates(j.f, j.i, j.kind, pageBound{param: -1}, su)
			break
		}
		if !done {
			at := p.Pos(j.f.Pos())
			if where != nil {
				at = p.InstrPos(where)
			}
			r.Violate("page-range", "range|"+p.FuncName(j.f)+"|"+j.kind, at, "%s can succeed without the %s having been checked against the pages of the document", p.FuncName(j.f), j.kind)
		}
	}
	c.indexRule(r)
	c.freshRule(r)
	r.Count("functions summarised", len(c.sum))
	r.Count("inequalities examined", len(c.edges))
	return r
}

// indexRule: a page table indexed by something computed from a page number is indexed by that number minus one.
func (c *c22) indexRule(r *Result) {
	for _, f := range c.p.Lib {
		ls := c.pageListsOf(f)
		for _, l := range ls {
			for _, ref := range *l.Referrers() {
				ia, ok := ref.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				r.Count("uses of page tables", 1)
				idx := c.n.Lin(ia.Index)
				srcs := c.numbersIn(ia.Index, map[ssa.Value]bool{})
				if len(srcs) == 0 {
					continue
				}
				good := false
				if b, ok := stripConv(ia.Index).(*ssa.BinOp); ok {
					x, y := b.X, b.Y
					if _, isC := x.(*ssa.Const); isC && b.Op == token.ADD {
						x, y = y, x
					}
					k, isC := y.(*ssa.Const)
					for _, s := range srcs {
						if isC && stripConv(x) == s && (b.Op == token.SUB && k.Int64() == 1 || b.Op == token.ADD && k.Int64() == -1) {
							good = true
						}
					}
				}
				for _, s := range srcs {
					if d := idx.add(c.n.Lin(s), -1); len(d.t) == 0 && d.c == -1 {
						good = true
					}
				}
				if !good {
					r.Violate("page-index", "index|"+c.p.FuncName(f), c.p.InstrPos(ia), "%s picks the page at an index that is not the given number minus one", c.p.FuncName(f))
				}
			}
		}
	}
}

// numbersIn: the parameters, and elements of parameters, an index is computed from.
func (c *c22) numbersIn(v ssa.Value, seen map[ssa.Value]bool) []ssa.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		if isInt(x.Type()) {
			return []ssa.Value{x}
		}
	case *ssa.BinOp:
		return append(c.numbersIn(x.X, seen), c.numbersIn(x.Y, seen)...)
	case *ssa.Phi:
		var out []ssa.Value
		for _, e := range x.Edges {
			out = append(out, c.numbersIn(e, seen)...)
		}
		return out
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
			var out []ssa.Value
			for _, e := range x.Call.Args {
				out = append(out, c.numbersIn(e, seen)...)
			}
			return out
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if ia, ok := x.X.(*ssa.IndexAddr); ok && isInt(x.Type()) {
				if _, isPrm := baseValue(ia.X).(*ssa.Parameter); isPrm {
					return []ssa.Value{x}
				}
			}
		}
	}
	return nil
}

// freshRule: methods of the manipulator look an object up among the edited ones before they take it from the original.
func (c *c22) freshRule(r *Result) {
	for _, f := range c.p.Lib {
		if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "core/manipulate") || f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != "PDFManipulator" {
			continue
		}
		var reads []*ssa.Call
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if k, ok := ins.(*ssa.Call); ok && strings.HasSuffix(calleeFullName(k), "core/parse.PDF).GetObject") {
					reads = append(reads, k)
				}
			}
		}
		if len(reads) == 0 {
			continue
		}
		for _, k := range reads {
			r.Count("reads of the original document", 1)
			num := k.Call.Args[len(k.Call.Args)-1]
			missing := map[ssa.Value]bool{}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					lk, ok := i.(*ssa.Lookup)
					if !ok || !lk.CommaOk || !isMap(lk.X.Type()) {
						continue
					}
					ld, ok := lk.X.(*ssa.UnOp)
					if !ok {
						continue
					}
					fa, ok := ld.X.(*ssa.FieldAddr)
					if !ok || namedOf(fa.X.Type()) != "PDFManipulator" || !c.n.Lin(lk.Index).add(c.n.Lin(num), -1).str0() {
						continue
					}
					for _, ref := range *lk.Referrers() {
						if e, ok := ref.(*ssa.Extract); ok && e.Index == 1 {
							missing[e] = true
						}
					}
				}
			}
			bad := false
			note := func(s *PState) {
				for e := range missing {
					if s.Truth(e) == -1 {
						s.Flag = 1
					}
				}
			}
			done := Explore(f, &PathClient{Instr: func(s *PState, ins ssa.Instruction) bool {
				note(s)
				if ins == ssa.Instruction(k) {
					bad = bad || s.Flag == 0
					return false
				}
				return true
			}, Edge: func(s *PState, from, to *ssa.BasicBlock, cond ssa.Value, val bool) bool {
				note(s)
				return true
			}})
			if bad || !done {
				r.Violate("stale-page-table", "stale|"+c.p.FuncName(f), c.p.InstrPos(k), "%s reads an object of the original document without looking among the edited ones first, so page numbers refer to a state that earlier edits have changed", c.p.FuncName(f))
			}
		}
	}
}

func nameOfField(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return ""
}
