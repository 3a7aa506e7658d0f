package main

// Failure propagation: what happens on every path on which a given call has failed.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// failHow says how a function or call reports failure.
type failHow struct {
	idx  int
	bool bool // result idx is false on failure; otherwise it is a non-nil error
}

// failValue returns the SSA value of the call's failing result, nil when it is not used at all.
func failValue(c *ssa.Call, h failHow) ssa.Value {
	if c.Call.Signature().Results().Len() == 1 {
		if refs := c.Referrers(); refs == nil || !usedAtAll(*refs) {
			return nil
		}
		return c
	}
	for _, r := range *c.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && ex.Index == h.idx && usedAtAll(*ex.Referrers()) {
			return ex
		}
	}
	return nil
}

func usedAtAll(refs []ssa.Instruction) bool {
	for _, r := range refs {
		if _, ok := r.(*ssa.DebugRef); !ok {
			return true
		}
	}
	return false
}

// baseValue follows slices, conversions and copies down to the value they are taken from.
func baseValue(v ssa.Value) ssa.Value {
	for i := 0; i < 30; i++ {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok {
				v = al
				continue
			}
			return v
		default:
			return v
		}
	}
	return v
}

// derived collects the values that are views, copies or conversions of root (root included).
func derivedOf(root ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{root: true}
	work := []ssa.Value{root}
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			var n ssa.Value
			switch x := r.(type) {
			case *ssa.Slice:
				if x.X == v {
					n = x
				}
			case *ssa.ChangeType, *ssa.Convert, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Phi:
				n = x.(ssa.Value)
			}
			if n != nil && !out[n] {
				out[n] = true
				work = append(work, n)
			}
		}
	}
	return out
}

type failQuery struct {
	fn   *ssa.Function
	call *ssa.Call
	how  failHow
	// alternative reports that the call is another attempt at the same data, and how it reports failure.
	alternative func(s *PState, c *ssa.Call) (failHow, bool)
	// forbidden is asked for each instruction executed after the failure and before an alternative succeeded.
	forbidden func(s *PState, ins ssa.Instruction) bool
	// excuse: the condition shows that there was nothing to be done.
	excuse func(s *PState, cond ssa.Value, val bool) bool
	// again: running the call again is another attempt at the same data.
	again bool
	// abandon: values whose redefinition means that the failed item has been given up (next iteration).
	root ssa.Value
}

type failOutcome struct {
	swallowed *ssa.Return     // returns success although the call failed
	noResult  *ssa.Return     // returns without being able to report
	used      ssa.Instruction // forbidden use after the failure
	done      bool
	ok        bool // at least one path reports the failure
}

// afterFailure explores all paths that follow a failure of the call.
func afterFailure(q *failQuery) failOutcome {
	var out failOutcome
	fv := failValue(q.call, q.how)
	ei := errIndex(q.fn.Signature)
	var bools []int
	res := q.fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isBoolType(res.At(i).Type()) {
			bools = append(bools, i)
		}
	}
	// when the result is never looked at, the failure happens at the call itself
	at := ssa.Instruction(q.call)
	if fv != nil {
		at = fv.(ssa.Instruction)
	}
	lost := !q.retry(fv) || q.call.Call.IsInvoke()
	if t := q.call.Call.StaticCallee(); t != nil && t.Signature.Recv() != nil && (t.Pkg == nil || len(t.Blocks) == 0) {
		lost = true // a reader or writer has moved on
	}
	if q.again {
		lost = false
	}
	type alt struct {
		c *ssa.Call
		h failHow
	}
	alts := map[ssa.Value]alt{} // failing result -> alternative
	for _, b := range q.fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok && c != q.call && q.alternative != nil {
				if h, ok := q.alternative(nil, c); ok {
					if v := failValue(c, h); v != nil {
						alts[v] = alt{c, h}
					}
				}
			}
		}
	}
	succeeded := func(s *PState) bool {
		for v, a := range alts {
			if a.h.bool {
				if s.Truth(v) == 1 && s.executed(a.c) {
					return true
				}
			} else if s.Nil(v) == -1 && s.executed(a.c) {
				return true
			}
		}
		return false
	}
	out.done = Explore(q.fn, &PathClient{
		Instr: func(s *PState, ins ssa.Instruction) bool {
			if ins == at && s.Flag == 1 {
				if !lost {
					return false // another attempt at the same thing
				}
				s.Flag = 3 // the same call again, on other data: the result now tells nothing about the failure
			}
			if s.Flag == 1 || s.Flag == 3 {
				if v, ok := ins.(ssa.Value); ok && v == q.root {
					s.Flag = 2
				}
				if c, ok := ins.(*ssa.Call); ok {
					for _, a := range alts {
						if a.c == c {
							s.mark(c)
						}
					}
				}
				if q.forbidden != nil && q.forbidden(s, ins) {
					out.used = ins
					return false
				}
			}
			if ins == at && s.Flag == 0 {
				s.Flag = 1
				if fv != nil {
					if q.how.bool {
						s.Assume(fv, false)
					} else {
						s.truth[fv] = 1
					}
				}
			}
			return true
		},
		Edge: func(s *PState, from, to *ssa.BasicBlock, cond ssa.Value, v bool) bool {
			if q.excuse != nil && cond != nil && (s.Flag == 1 || s.Flag == 3) && q.excuse(s, cond, v) {
				return false
			}
			return s.Flag != 1 && s.Flag != 3 || !succeeded(s)
		},
		Return: func(s *PState, ret *ssa.Return) {
			if s.Flag == 0 {
				return
			}
			if ei >= 0 {
				e := s.Resolve(ret.Results[ei])
				switch s.Nil(e) {
				case 1:
					out.ok = true
					return
				case 0:
					if e == fv && s.Flag != 3 {
						out.ok = true
						return
					}
					if a, ok := alts[e]; ok && s.executed(a.c) {
						out.ok = true
						return
					}
					if errSource(e) == nil {
						out.ok = true // kept in memory or a collection: not decided here
						return
					}
				}
			}
			for _, i := range bools {
				if s.Truth(ret.Results[i]) == -1 {
					out.ok = true
					return
				}
				if s.Flag != 3 && s.Truth(ret.Results[i]) == 0 && s.Resolve(ret.Results[i]) == fv && q.how.bool {
					out.ok = true
					return
				}
			}
			if ei >= 0 {
				out.swallowed = ret
			} else {
				out.noResult = ret
			}
		},
	})
	return out
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// mark and executed remember which calls have run on this path.
func (s *PState) mark(c *ssa.Call) {
	k := "@" + itoa(int(c.Pos()))
	if !strings.Contains(s.Key, k+";") {
		s.Key += k + ";"
	}
}

func (s *PState) executed(c *ssa.Call) bool {
	return strings.Contains(s.Key, "@"+itoa(int(c.Pos()))+";")
}

// retry: running the call again is another attempt at the same thing (everything it is given stays the same).
func (q *failQuery) retry(fv ssa.Value) bool {
	b := q.call.Block()
	reach := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if reach[x] {
			continue
		}
		reach[x] = true
		work = append(work, x.Succs...)
	}
	if !reach[b] {
		return true
	}
	back := map[*ssa.BasicBlock]bool{b: true}
	work = append([]*ssa.BasicBlock{}, b.Preds...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if back[x] {
			continue
		}
		back[x] = true
		work = append(work, x.Preds...)
	}
	var varies func(v ssa.Value, d int) bool
	varies = func(v ssa.Value, d int) bool {
		ins, ok := v.(ssa.Instruction)
		if !ok || d > 8 || !reach[ins.Block()] || !back[ins.Block()] {
			return false
		}
		switch x := v.(type) {
		case *ssa.Phi:
			return true
		case *ssa.Slice, *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Extract, *ssa.Call, *ssa.Next:
			for _, op := range v.(ssa.Instruction).Operands(nil) {
				if *op != nil && varies(*op, d+1) {
					return true
				}
			}
			_, isCall := x.(*ssa.Call)
			_, isNext := x.(*ssa.Next)
			return isCall && d > 0 || isNext
		}
		return false
	}
	for _, op := range q.call.Operands(nil) {
		if *op != nil && varies(*op, 0) {
			return false
		}
	}
	return true
}
