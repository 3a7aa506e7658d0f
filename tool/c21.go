package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C21"] = checkC21 }

// C21: for every exported method returning an error, on a receiver holding a document, no path
// returns a non-nil error after memory reachable from the receiver has been written.

type atomicity struct {
	p    *Program
	h    *Heap
	root int
	mm   map[*ssa.Function]int
	memo map[*ssa.Function]*dirtyExit
	busy map[*ssa.Function]bool
}

type dirtyExit struct {
	mut ssa.Instruction
	ret ssa.Instruction
}

func errIndex(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrorType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// failDirty: does fn have a path that writes root memory and then returns a non-nil error?
func (a *atomicity) failDirty(fn *ssa.Function) *dirtyExit {
	if d, ok := a.memo[fn]; ok {
		return d
	}
	if a.busy[fn] {
		return nil // recursion: judged by the other exits
	}
	a.busy[fn] = true
	d := a.compute(fn)
	a.memo[fn] = d
	delete(a.busy, fn)
	return d
}

// callWrites: 0 none, 1 writes
func (a *atomicity) callWrites(c ssa.CallInstruction) bool {
	for _, t := range a.h.targets(c) {
		if a.h.mayMutate(t, a.root, a.mm) {
			return true
		}
	}
	return false
}

func (a *atomicity) compute(fn *ssa.Function) *dirtyExit {
	ei := errIndex(fn.Signature)
	// per block entry state: instruction that made it dirty (nil = clean)
	in := map[*ssa.BasicBlock]ssa.Instruction{}
	type edge struct {
		b *ssa.BasicBlock
		m ssa.Instruction
	}
	seen := map[*ssa.BasicBlock]map[bool]bool{}
	var exit *dirtyExit
	var work []edge
	work = append(work, edge{fn.Blocks[0], nil})
	for len(work) > 0 {
		e := work[0]
		work = work[1:]
		if seen[e.b] == nil {
			seen[e.b] = map[bool]bool{}
		}
		if seen[e.b][e.m != nil] {
			continue
		}
		seen[e.b][e.m != nil] = true
		in[e.b] = e.m
		cur := e.m
		for _, ins := range e.b.Instrs {
			if a.h.Mut[ins][a.root] {
				cur = ins
			}
			if c, ok := ins.(ssa.CallInstruction); ok && cur == nil && a.callWrites(c) {
				if _, isDefer := ins.(*ssa.Defer); isDefer {
					continue
				}
				// a call that reports failure through an error result counts on its success edge;
				// on its failure edge only if the callee itself can fail dirty
				errVal := callErr(c)
				if errVal == nil || neverFailsFn(c) {
					cur = ins
				} else {
					bad := false
					for _, t := range a.h.targets(c) {
						if a.failDirty(t) != nil {
							bad = true
						}
					}
					if bad {
						cur = ins
					}
				}
			}
			if ret, ok := ins.(*ssa.Return); ok && ei >= 0 && exit == nil {
				rv := ret.Results[ei]
				if cur != nil && mayBeNonNil(rv, e.b) {
					exit = &dirtyExit{cur, ret}
				} else if cur == nil {
					// returning a callee's error directly
					if c := errSource(rv); c != nil && a.callWrites(c) {
						for _, t := range a.h.targets(c) {
							if d := a.failDirty(t); d != nil {
								exit = &dirtyExit{c, ret}
							}
						}
					}
				}
			}
		}
		// successors: pending writing calls become dirty on the success side
		last := e.b.Instrs[len(e.b.Instrs)-1]
		iff, isIf := last.(*ssa.If)
		for si, s := range e.b.Succs {
			m := cur
			if m == nil {
				m = a.pendingDirty(fn, e.b, si, iff, isIf)
			}
			work = append(work, edge{s, m})
		}
	}
	return exit
}

// pendingDirty: leaving block b by successor si, has a writing call with an error result succeeded?
func (a *atomicity) pendingDirty(fn *ssa.Function, b *ssa.BasicBlock, si int, iff *ssa.If, isIf bool) ssa.Instruction {
	for _, ins := range b.Instrs {
		c, ok := ins.(ssa.CallInstruction)
		if !ok || !a.callWrites(c) {
			continue
		}
		ev := callErr(c)
		if ev == nil {
			continue
		}
		if isIf {
			if bin, ok := iff.Cond.(*ssa.BinOp); ok {
				x, y := bin.X, bin.Y
				if isNilConst(x) {
					x, y = y, x
				}
				if x == ev && isNilConst(y) {
					failSide := 0
					if bin.Op == token.EQL {
						failSide = 1
					}
					if si == failSide {
						continue // failure edge: nothing written (callee is failure-clean)
					}
				}
			}
		}
		return ins
	}
	return nil
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// callErr returns the SSA value holding the error result of the call, nil if it has none or it is unused.
func callErr(c ssa.CallInstruction) ssa.Value {
	call, ok := c.(*ssa.Call)
	if !ok {
		return nil
	}
	sig := c.Common().Signature()
	ei := errIndex(sig)
	if ei < 0 {
		return nil
	}
	if sig.Results().Len() == 1 {
		return call
	}
	for _, r := range *call.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && ex.Index == ei {
			return ex
		}
	}
	return nil
}

func errSource(v ssa.Value) ssa.CallInstruction {
	switch x := v.(type) {
	case *ssa.Call:
		return x
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return c
		}
	}
	return nil
}

// mayBeNonNil: may the returned error be non-nil here?
func mayBeNonNil(v ssa.Value, at *ssa.BasicBlock) bool {
	if infeasible(at) {
		return false
	}
	return mayBeNonNilD(v, at, map[ssa.Value]bool{})
}

func mayBeNonNilD(v ssa.Value, at *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if isNilConst(v) {
		return false
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	if nilness(v, at) == -1 {
		return false
	}
	if c := errSource(v); c != nil && neverFailsFn != nil && neverFailsFn(c) {
		return false
	}
	if phi, ok := v.(*ssa.Phi); ok {
		for i, e := range phi.Edges {
			if mayBeNonNilD(e, phi.Block().Preds[i], seen) {
				return true
			}
		}
		return false
	}
	return true
}

// infeasible: the block is only entered when a call that never fails has failed.
func infeasible(at *ssa.BasicBlock) bool {
	if neverFailsFn == nil {
		return false
	}
	for b := at; b.Idom() != nil; b = b.Idom() {
		d := b.Idom()
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(b.Preds) != 1 || b.Preds[0] != d {
			continue
		}
		bin, ok := iff.Cond.(*ssa.BinOp)
		if !ok || (bin.Op != token.EQL && bin.Op != token.NEQ) {
			continue
		}
		x, y := bin.X, bin.Y
		if isNilConst(x) {
			x, y = y, x
		}
		if !isNilConst(y) || !isErrorType(x.Type()) {
			continue
		}
		c := errSource(x)
		if c == nil || !neverFailsFn(c) {
			continue
		}
		nonNil := 0
		if bin.Op == token.EQL {
			nonNil = 1
		}
		if d.Succs[nonNil] == b {
			return true
		}
	}
	return false
}

// nilness: -1 known nil, +1 known non-nil, 0 unknown at block entry (from dominating branches).
func nilness(v ssa.Value, at *ssa.BasicBlock) int {
	for b := at; b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bin, ok := iff.Cond.(*ssa.BinOp)
		if !ok || (bin.Op != token.EQL && bin.Op != token.NEQ) {
			continue
		}
		x, y := bin.X, bin.Y
		if isNilConst(x) {
			x, y = y, x
		}
		if x != v || !isNilConst(y) {
			continue
		}
		// which edge dominates b?
		for si, s := range d.Succs {
			if s == b && len(b.Preds) == 1 {
				eq := (bin.Op == token.EQL) == (si == 0)
				if eq {
					return -1
				}
				return 1
			}
		}
	}
	return 0
}

func checkC21(p *Program, tier string) *Result {
	r := &Result{Explanation: "For every exported method with an error result in the editing packages, a points-to analysis with the receiver as symbolic object finds every instruction that may write memory reachable from the receiver; a path analysis over the control-flow graph (success and failure edges of callees kept apart, callees summarised) then shows that no path returns a possibly non-nil error after such a write."}
	p.neverFails()
	for _, fn := range p.Lib {
		recv := fn.Signature.Recv()
		if !exportedAPI(fn) || recv == nil || errIndex(fn.Signature) < 0 {
			continue
		}
		if _, ok := recv.Type().(*types.Pointer); !ok {
			continue
		}
		if c21Exempt[namedOf(recv.Type())] != "" {
			continue
		}
		r.Count("editing_operations", 1)
		h := p.NewHeap(fn, []int{0})
		for ins, objs := range h.MutObjs {
			all := true
			for o := range objs {
				sc := false
				for _, t := range c21Scratch[namedOf(recv.Type())] {
					if strings.HasSuffix(o.typ, t) {
						sc = true
					}
				}
				if o.root == 0 && !sc {
					all = false
				}
			}
			if all {
				delete(h.Mut[ins], 0)
			}
		}
		n := len(h.MutOf(0))
		r.Count("receiver_writes", n)
		r.Count("functions_analysed", len(h.reach))
		if n == 0 {
			continue
		}
		r.Count("writing_operations", 1)
		r.Sample("%s: %d writes to receiver memory", p.FuncName(fn), n)
		a := &atomicity{p: p, h: h, root: 0, mm: map[*ssa.Function]int{}, memo: map[*ssa.Function]*dirtyExit{}, busy: map[*ssa.Function]bool{}}
		if d := a.failDirty(fn); d != nil {
			r.Violate("failed-edit-leaves-changes", p.FuncName(fn), p.InstrPos(d.mut),
				"%s may return an error at %s after receiver memory was already changed at %s", p.FuncName(fn), p.InstrPos(d.ret), p.InstrPos(d.mut))
		}
	}
	r.Floor("writing_operations", 4)
	return r
}

// types whose finishing methods are used once and own their whole state
var c21Exempt = map[string]string{
	"XFABuilder": "single-use builder: a failed build returns no document and the builder is discarded",
	"Font":       "only caches the subset identifier derived from the font name",
}

// scratch storage of an editing object: refilled from its object table on every rebuild
var c21Scratch = map[string][]string{
	"PDFManipulator": {"core/write.PDFWriter", "core/write.PDFObject"},
}

var neverFailsFn func(c ssa.CallInstruction) bool

// neverFails computes the module functions whose error result is always nil (greatest fixpoint).
func (p *Program) neverFails() map[*ssa.Function]bool {
	nf := map[*ssa.Function]bool{}
	for _, fn := range p.All {
		if errIndex(fn.Signature) >= 0 {
			nf[fn] = true
		}
	}
	neverFailsFn = func(c ssa.CallInstruction) bool {
		ts := p.Callees(c)
		if len(ts) == 0 {
			return false
		}
		for _, t := range ts {
			if !nf[t] {
				return false
			}
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for fn := range nf {
			ei := errIndex(fn.Signature)
			for _, b := range fn.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				if mayBeNonNil(ret.Results[ei], b) {
					delete(nf, fn)
					changed = true
					break
				}
			}
		}
	}
	return nf
}
