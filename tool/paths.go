package main

// Path-sensitive exploration of one function's control-flow graph.
//
// A state is a block together with what the path taken so far implies: which value a phi stands for, and the
// truth (or nilness) of conditions tested. Edges that contradict the state are pruned, facts about values that
// are dead are forgotten, and equal states are explored once, so the exploration is finite. A client runs a
// small automaton along the paths.

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// PState is what is known on the current path.
type PState struct {
	copies map[ssa.Value]ssa.Value
	truth  map[ssa.Value]int8       // bool: 1 true, -1 false; nilable: 1 non-nil, -1 nil
	mem    map[*ssa.Alloc]ssa.Value // what a local variable kept in memory holds
	Flag   int                      // client automaton
	Key    string                   // further client state
}

func (s *PState) clone() *PState {
	n := &PState{copies: map[ssa.Value]ssa.Value{}, truth: map[ssa.Value]int8{}, mem: map[*ssa.Alloc]ssa.Value{}, Flag: s.Flag, Key: s.Key}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.copies {
		n.copies[k] = v
	}
	for k, v := range s.truth {
		n.truth[k] = v
	}
	return n
}

// PathClient observes the exploration. Any callback may be nil. Instr and Edge return false to drop the path.
type PathClient struct {
	Instr  func(s *PState, ins ssa.Instruction) bool
	Edge   func(s *PState, from, to *ssa.BasicBlock, cond ssa.Value, val bool) bool
	Return func(s *PState, ret *ssa.Return)
	// Start block and instruction index; nil means the entry.
	Start      *ssa.BasicBlock
	StartIndex int
	Init       func(s *PState)
	Limit      int
	nextFrom   *ssa.BasicBlock
}

type pathInfo struct {
	num     map[ssa.Value]int
	liveIn  []map[ssa.Value]bool // by block index
	tracked map[ssa.Value]bool
	priv    map[*ssa.Alloc]bool
}

var pathInfos = map[*ssa.Function]*pathInfo{}

func trackable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsBoolean|types.IsInteger) != 0
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func pathInfoOf(fn *ssa.Function) *pathInfo {
	if pi, ok := pathInfos[fn]; ok {
		return pi
	}
	pi := &pathInfo{num: map[ssa.Value]int{}, liveIn: make([]map[ssa.Value]bool, len(fn.Blocks)), tracked: map[ssa.Value]bool{}, priv: map[*ssa.Alloc]bool{}}
	pathInfos[fn] = pi
	n := 0
	note := func(v ssa.Value) {
		if _, ok := pi.num[v]; !ok {
			n++
			pi.num[v] = n
		}
	}
	for _, pr := range fn.Params {
		note(pr)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				note(v)
			}
		}
	}
	for i := range pi.liveIn {
		pi.liveIn[i] = map[ssa.Value]bool{}
	}
	uses := func(ins ssa.Instruction, f func(ssa.Value)) {
		if _, ok := ins.(*ssa.Phi); ok {
			return
		}
		for _, op := range ins.Operands(nil) {
			if *op != nil {
				f(*op)
			}
		}
	}
	// a fact about x is also needed when a condition computed from x is needed
	var deep func(v ssa.Value, f func(ssa.Value), d int)
	deep = func(v ssa.Value, f func(ssa.Value), d int) {
		if v == nil || d > 6 {
			return
		}
		f(v)
		switch x := v.(type) {
		case *ssa.BinOp:
			deep(x.X, f, d+1)
			deep(x.Y, f, d+1)
		case *ssa.UnOp:
			deep(x.X, f, d+1)
		case *ssa.MakeInterface:
			deep(x.X, f, d+1)
		case *ssa.ChangeInterface:
			deep(x.X, f, d+1)
		case *ssa.ChangeType:
			deep(x.X, f, d+1)
		case *ssa.Convert:
			deep(x.X, f, d+1)
		case *ssa.Extract:
			deep(x.Tuple, f, d+1)
		}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range pi.liveIn[s.Index] {
					if phi, ok := v.(*ssa.Phi); !ok || phi.Block() != s {
						live[v] = true
					}
				}
				pos := 0
				for k, pb := range s.Preds {
					if pb == b {
						pos = k
					}
				}
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					deep(phi.Edges[pos], func(v ssa.Value) { live[v] = true }, 0)
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if v, ok := ins.(ssa.Value); ok {
					if _, phi := ins.(*ssa.Phi); !phi { // liveness after the phis
						delete(live, v)
					}
				}
				uses(ins, func(v ssa.Value) { deep(v, func(v ssa.Value) { live[v] = true }, 0) })
			}
			if len(live) != len(pi.liveIn[i]) {
				pi.liveIn[i] = live
				changed = true
			}
		}
	}
	return pi
}

// Resolve follows copies made on this path.
func (s *PState) Resolve(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		n, ok := s.copies[v]
		if !ok || n == v {
			return v
		}
		v = n
	}
	return v
}

func alwaysNonNil(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.MakeChan, *ssa.Function, *ssa.FieldAddr, *ssa.IndexAddr:
		return true
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		return constructsError(x)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			return isErrorType(g.Type().(*types.Pointer).Elem()) || strings.HasPrefix(g.Name(), "Err")
		}
	}
	return false
}

var constructs = map[*ssa.Function]int{}

// constructsError: the call never returns nil: errors.New, fmt.Errorf and functions built on them.
func constructsError(c *ssa.Call) bool {
	switch calleeFullName(c) {
	case "errors.New", "fmt.Errorf":
		return true
	}
	t := c.Call.StaticCallee()
	if t == nil || len(t.Blocks) == 0 || t.Signature.Results().Len() != 1 {
		return false
	}
	switch constructs[t] {
	case 1:
		return true
	case 2:
		return false
	}
	constructs[t] = 2
	switch t.Signature.Results().At(0).Type().Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice:
	default:
		return false
	}
	n := 0
	for _, b := range t.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			n++
			if !nonNilExpr(ret.Results[0], t, 0) {
				return false
			}
		}
	}
	if n == 0 {
		return false
	}
	constructs[t] = 1
	return true
}

func nonNilExpr(v ssa.Value, fn *ssa.Function, d int) bool {
	if d > 5 {
		return false
	}
	if alwaysNonNil(v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !nonNilExpr(e, fn, d+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		// a method that hands back its receiver: its field was written, so it is not nil
		return fn.Signature.Recv() != nil && len(fn.Params) > 0 && fn.Params[0] == x
	}
	return false
}

// Nil: -1 known nil, 1 known non-nil, 0 unknown on this path.
func (s *PState) Nil(v ssa.Value) int {
	v = s.Resolve(v)
	if isNilConst(v) {
		return -1
	}
	if t, ok := s.truth[v]; ok {
		return int(t)
	}
	if alwaysNonNil(v) {
		return 1
	}
	if c, ok := v.(*ssa.Call); ok && isErrorType(c.Type()) && s.keepsFailure(c) {
		return 1
	}
	if neverFailsFn != nil && isErrorType(v.Type()) {
		if c := errSource(v); c != nil && neverFailsFn(c) {
			return -1
		}
	}
	return 0
}

// keepsFailure: the call turns a failure it is given (known non-nil here) into a failure.
func (s *PState) keepsFailure(c *ssa.Call) bool {
	if calleeFullName(c) == "errors.Join" {
		if vs, ok := variadic(c.Call.Args[0]); ok {
			for _, v := range vs {
				if v != nil && s.Nil(v) == 1 {
					return true
				}
			}
		}
		return false
	}
	t := c.Call.StaticCallee()
	if t == nil || len(t.Blocks) == 0 {
		return false
	}
	for i, a := range c.Call.Args {
		if i < len(t.Params) && isErrorType(t.Params[i].Type()) && s.Nil(a) == 1 && wrapsFailure(t, i) {
			return true
		}
	}
	return false
}

var wrapMemo = map[*ssa.Parameter]int{}

func wrapsFailure(t *ssa.Function, i int) bool {
	pr := t.Params[i]
	switch wrapMemo[pr] {
	case 1:
		return true
	case 2:
		return false
	}
	wrapMemo[pr] = 2
	ei := errIndex(t.Signature)
	if ei < 0 {
		return false
	}
	ok, n := true, 0
	done := Explore(t, &PathClient{
		Init: func(s *PState) { s.truth[pr] = 1 },
		Return: func(s *PState, ret *ssa.Return) {
			n++
			if s.Nil(ret.Results[ei]) != 1 {
				ok = false
			}
		},
		Limit: 3000,
	})
	if ok && done && n > 0 {
		wrapMemo[pr] = 1
		return true
	}
	return false
}

// Truth: -1 known false, 1 known true, 0 unknown on this path.
func (s *PState) Truth(v ssa.Value) int {
	v = s.Resolve(v)
	if t, ok := s.truth[v]; ok {
		return int(t)
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return 1
			}
			return -1
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return -s.Truth(x.X)
		}
	case *ssa.BinOp:
		a, b := s.Resolve(x.X), s.Resolve(x.Y)
		ca, oka := a.(*ssa.Const)
		cb, okb := b.(*ssa.Const)
		eq := 0
		switch {
		case oka && okb && ca.Value != nil && cb.Value != nil && ca.Value.Kind() == cb.Value.Kind():
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				if constant.Compare(ca.Value, x.Op, cb.Value) {
					return 1
				}
				return -1
			}
		case okb && cb.Value == nil && (x.Op == token.EQL || x.Op == token.NEQ):
			eq = -s.Nil(a)
		case oka && ca.Value == nil && (x.Op == token.EQL || x.Op == token.NEQ):
			eq = -s.Nil(b)
		case okb && cb.Value != nil && cb.Value.Kind() == constant.Bool && (x.Op == token.EQL || x.Op == token.NEQ):
			eq = s.Truth(a)
			if !constant.BoolVal(cb.Value) {
				eq = -eq
			}
		}
		if x.Op == token.NEQ {
			eq = -eq
		}
		return eq
	}
	return 0
}

// Assume records that v has the given truth.
func (s *PState) Assume(v ssa.Value, val bool) {
	t := int8(-1)
	if val {
		t = 1
	}
	v = s.Resolve(v)
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	s.truth[v] = t
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			s.Assume(x.X, !val)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return
		}
		if x.Op == token.NEQ {
			val = !val
		}
		a, b := s.Resolve(x.X), s.Resolve(x.Y)
		if _, ok := a.(*ssa.Const); ok {
			a, b = b, a
		}
		c, ok := b.(*ssa.Const)
		if !ok {
			return
		}
		if c.Value == nil {
			if val {
				s.truth[a] = -1
			} else {
				s.truth[a] = 1
			}
			return
		}
		if c.Value.Kind() == constant.Bool {
			s.Assume(a, constant.BoolVal(c.Value) == val)
			return
		}
		if val { // equal to a constant
			s.copies[a] = c
		}
	}
}

func (s *PState) key(pi *pathInfo, b, from *ssa.BasicBlock) string {
	live := pi.liveIn[b.Index]
	var parts []string
	stands := map[ssa.Value]bool{} // values that a live copy stands for
	for v, c := range s.copies {
		if live[v] {
			stands[c] = true
		}
	}
	for a, v := range s.mem {
		if !live[a] {
			delete(s.mem, a)
			continue
		}
		stands[v] = true
		k := ""
		if cc, ok := v.(*ssa.Const); ok {
			k = "c" + cc.String()
		} else {
			k = itoa(pi.num[v])
		}
		parts = append(parts, itoa(pi.num[a])+"*"+k)
	}
	for v, t := range s.truth {
		if !live[v] && !stands[v] {
			delete(s.truth, v)
			continue
		}
		parts = append(parts, itoa(pi.num[v])+":"+itoa(int(t)))
	}
	for v, c := range s.copies {
		if !live[v] {
			delete(s.copies, v)
			continue
		}
		k := ""
		if cc, ok := c.(*ssa.Const); ok {
			k = "c" + cc.String()
		} else {
			k = itoa(pi.num[c])
		}
		parts = append(parts, itoa(pi.num[v])+"="+k)
	}
	sort.Strings(parts)
	return itoa(b.Index) + "|" + itoa(s.Flag) + "|" + s.Key + "|" + strings.Join(parts, ",")
}

// Explore runs the client along every feasible path. It returns false when the limit was hit (nothing can be concluded).
func Explore(fn *ssa.Function, c *PathClient) bool {
	if len(fn.Blocks) == 0 {
		return true
	}
	pi := pathInfoOf(fn)
	limit := c.Limit
	if limit == 0 {
		limit = 60000
	}
	start := c.Start
	if start == nil {
		start = fn.Blocks[0]
	}
	type item struct {
		b   *ssa.BasicBlock
		idx int
		s   *PState
	}
	s0 := &PState{copies: map[ssa.Value]ssa.Value{}, truth: map[ssa.Value]int8{}, mem: map[*ssa.Alloc]ssa.Value{}}
	if c.Init != nil {
		c.Init(s0)
	}
	work := []item{{start, c.StartIndex, s0}}
	seen := map[string]bool{}
	n := 0
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		n++
		if n > limit {
			return false
		}
		b, s := it.b, it.s
		alive := true
		for _, ins := range b.Instrs[it.idx:] {
			if v, ok := ins.(ssa.Value); ok {
				if _, isPhi := v.(*ssa.Phi); !isPhi {
					s.forget(v)
				}
			}
			s.memory(pi, ins)
			if c.Instr != nil && !c.Instr(s, ins) {
				alive = false
				break
			}
		}
		if !alive {
			continue
		}
		last := b.Instrs[len(b.Instrs)-1]
		switch x := last.(type) {
		case *ssa.Return:
			if c.Return != nil {
				c.Return(s, x)
			}
			continue
		case *ssa.If:
			t := s.Truth(x.Cond)
			for i, to := range b.Succs {
				val := i == 0
				if t == 1 && !val || t == -1 && val {
					continue
				}
				ns := s.clone()
				cond := s.Resolve(x.Cond)
				ns.Assume(x.Cond, val)
				if c.Edge != nil && !c.Edge(ns, b, to, cond, val) {
					continue
				}
				enterBlock(ns, b, to)
				k := ns.key(pi, to, b)
				if !seen[k] {
					seen[k] = true
					work = append(work, item{to, 0, ns})
				}
			}
			continue
		}
		for _, to := range b.Succs {
			ns := s.clone()
			enterBlock(ns, b, to)
			k := ns.key(pi, to, b)
			if !seen[k] {
				seen[k] = true
				work = append(work, item{to, 0, ns})
			}
		}
	}
	return true
}

// forget drops what was known about an earlier value of v (a previous iteration).
func (s *PState) forget(v ssa.Value) {
	t, known := s.truth[v]
	delete(s.truth, v)
	delete(s.copies, v)
	for k, c := range s.copies {
		if c == v {
			delete(s.copies, k)
			if known { // the copy keeps the earlier value and what is known about it
				s.truth[k] = t
			}
		}
	}
	for a, c := range s.mem {
		if c == v || a == v {
			delete(s.mem, a)
		}
	}
}

// memory follows variables that are kept in memory although only this function touches them (results of
// functions with deferred calls, for example).
func (s *PState) memory(pi *pathInfo, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Store:
		if a, ok := x.Addr.(*ssa.Alloc); ok && pi.private(a) {
			s.mem[a] = s.Resolve(x.Val)
		}
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && pi.private(a) {
			if v, ok := s.mem[a]; ok {
				s.copies[x] = v
			} else {
				s.mem[a] = x
			}
		}
	}
}

// private: the variable is only loaded and stored here, and its type is one facts are kept about.
func (pi *pathInfo) private(a *ssa.Alloc) bool {
	if k, ok := pi.priv[a]; ok {
		return k
	}
	ok := trackable(a.Type().(*types.Pointer).Elem())
	for _, ref := range *a.Referrers() {
		switch x := ref.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				ok = false
			}
		case *ssa.Store:
			if x.Addr != a || x.Val == a {
				ok = false
			}
		case *ssa.DebugRef:
		default:
			ok = false
		}
	}
	pi.priv[a] = ok
	return ok
}

func enterBlock(s *PState, from, to *ssa.BasicBlock) {
	pos := -1
	for i, p := range to.Preds {
		if p == from {
			pos = i
		}
	}
	if pos < 0 {
		return
	}
	type asg struct {
		phi *ssa.Phi
		v   ssa.Value
		t   int8
		tok bool
	}
	var as []asg
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		v := s.Resolve(phi.Edges[pos])
		t, tok := s.truth[v]
		if _, isConst := v.(*ssa.Const); !tok && !isConst {
			if isBoolType(v.Type()) {
				t = int8(s.Truth(v))
			} else if isErrorType(v.Type()) {
				t = int8(s.Nil(v))
			}
			if t != 0 { // what v was computed from may be forgotten before the phi is looked at
				s.truth[v], tok = t, true
			}
		}
		as = append(as, asg{phi, v, t, tok})
	}
	for _, a := range as {
		s.forget(a.phi)
	}
	for _, a := range as {
		if !trackable(a.phi.Type()) {
			continue
		}
		if a.v == a.phi {
			if a.tok {
				s.truth[a.phi] = a.t
			}
			continue
		}
		if p2, ok := a.v.(*ssa.Phi); ok && p2.Block() == to {
			if a.tok {
				s.truth[a.phi] = a.t
			}
			continue
		}
		if k, ok := a.v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && isLoopHead(to) {
			continue // loop counters
		}
		s.copies[a.phi] = a.v
	}
}

func isLoopHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}
