package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C09"] = checkC09 }

// constString returns the constant value of a string expression.
func constString(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

// variadic returns the values packed into the variadic slice argument of a call.
func variadic(v ssa.Value) ([]ssa.Value, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]ssa.Value, at.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		ic, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		i := int(ic.Int64())
		for _, rr := range *ia.Referrers() {
			if s, ok := rr.(*ssa.Store); ok && s.Addr == ia && i < len(out) {
				out[i] = s.Val
			}
		}
	}
	return out, true
}

func unwrapIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func implementsError(t types.Type) bool { return types.Implements(t, errorIface) }

// verbs parses a format string into the verb used for each operand.
type fmtVerb struct {
	verb byte
	arg  int
	pos  int
	end  int
	flag string
}

func parseFormat(s string) []fmtVerb {
	var out []fmtVerb
	arg := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			continue
		}
		start := i
		i++
		fl := i
		for i < len(s) {
			c := s[i]
			if c == '[' {
				n := 0
				j := i + 1
				for j < len(s) && s[j] >= '0' && s[j] <= '9' {
					n = n*10 + int(s[j]-'0')
					j++
				}
				if j < len(s) && s[j] == ']' {
					arg = n - 1
					i = j + 1
					continue
				}
				break
			}
			if c == '*' {
				out = append(out, fmtVerb{'*', arg, start, i + 1, ""})
				arg++
				i++
				continue
			}
			if c == '+' || c == '-' || c == '#' || c == ' ' || c == '0' || (c >= '1' && c <= '9') || c == '.' {
				i++
				continue
			}
			break
		}
		if i >= len(s) {
			break
		}
		if s[i] == '%' {
			continue
		}
		out = append(out, fmtVerb{s[i], arg, start, i + 1, s[fl:i]})
		arg++
	}
	return out
}

type causes struct {
	p    *Program
	memo map[*ssa.Function]map[int]int
}

// carries: does the error value v contain the error err (so that errors.Is/As find it)?
func (cz *causes) carries(v, err ssa.Value, seen map[ssa.Value]bool) bool {
	v, err = unwrapIface(v), unwrapIface(err)
	if v == err {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		any := false
		for _, e := range x.Edges {
			if isNilConst(e) {
				continue
			}
			if e == v {
				continue
			}
			if !cz.carries(e, err, seen) {
				if seen[unwrapIface(e)] && unwrapIface(e) == v {
					continue
				}
				return false
			}
			any = true
		}
		return any
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return cz.callCarries(c, x.Index, err, seen)
		}
		if t, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return cz.carries(t.X, err, seen)
		}
	case *ssa.TypeAssert:
		return cz.carries(x.X, err, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == al && cz.carries(s.Val, err, seen) {
						return true
					}
				}
			}
			if eu, ok := err.(*ssa.UnOp); ok && eu.Op == token.MUL && eu.X == x.X {
				return true // two loads of the same variable
			}
		}
	case *ssa.Call:
		return cz.callCarries(x, 0, err, seen)
	case *ssa.Alloc:
		// &T{Cause: err} with an Unwrap method
		ms := cz.p.Prog.MethodSets.MethodSet(x.Type())
		has := false
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == "Unwrap" {
				has = true
			}
		}
		if !has {
			return false
		}
		for _, r := range *x.Referrers() {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			for _, rr := range *fa.Referrers() {
				if s, ok := rr.(*ssa.Store); ok && s.Addr == fa && implementsError(s.Val.Type()) && cz.carries(s.Val, err, seen) {
					return true
				}
			}
		}
	}
	return false
}

func (cz *causes) callCarries(c *ssa.Call, idx int, err ssa.Value, seen map[ssa.Value]bool) bool {
	com := c.Common()
	switch calleeFullName(c) {
	case "fmt.Errorf":
		if len(com.Args) < 2 {
			return false
		}
		f, ok := constString(com.Args[0])
		args, ok2 := variadic(com.Args[1])
		if !ok2 {
			return false
		}
		if !ok { // format built at run time: any error operand may be wrapped
			for _, a := range args {
				if a != nil && cz.carries(a, err, seen) {
					return true
				}
			}
			return false
		}
		for _, vb := range parseFormat(f) {
			if vb.verb == 'w' && vb.arg < len(args) && args[vb.arg] != nil && cz.carries(args[vb.arg], err, seen) {
				return true
			}
		}
		return false
	case "errors.Join":
		if len(com.Args) == 1 {
			if args, ok := variadic(com.Args[0]); ok {
				for _, a := range args {
					if a != nil && cz.carries(a, err, seen) {
						return true
					}
				}
				return false
			}
		}
		return true
	}
	ts := cz.p.Callees(c)
	if len(ts) == 0 {
		// unknown function given the error: a callback or interface method
		return com.StaticCallee() == nil && !com.IsInvoke()
	}
	args := argsFor(com)
	for _, t := range ts {
		if !cz.p.inMod[t] {
			return false
		}
		ok := false
		for i, a := range args {
			if i < len(t.Params) && implementsErrOrIface(a.Type()) && cz.carries(a, err, map[ssa.Value]bool{}) && cz.resultCarries(t, idx, i) {
				ok = true
			}
			// variadic errors packed in a slice are not followed: treated as not carried
		}
		if !ok {
			return false
		}
	}
	return true
}

// extractCarries: one of the results of the call contains the error
func (cz *causes) extractCarries(c *ssa.Call, err ssa.Value) bool {
	if tup, ok := c.Type().(*types.Tuple); ok {
		for i := 0; i < tup.Len(); i++ {
			if implementsError(tup.At(i).Type()) && cz.callCarries(c, i, err, map[ssa.Value]bool{}) {
				return true
			}
		}
	}
	return false
}

func implementsErrOrIface(t types.Type) bool {
	return implementsError(t)
}

// resultCarries: on every return of fn, result idx contains parameter i (or is nil).
func (cz *causes) resultCarries(fn *ssa.Function, idx, i int) bool {
	if cz.memo[fn] == nil {
		cz.memo[fn] = map[int]int{}
	}
	k := idx*100 + i
	if m := cz.memo[fn][k]; m != 0 {
		return m == 1
	}
	cz.memo[fn][k] = 1
	ok := true
	for _, b := range fn.Blocks {
		ret, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isRet || idx >= len(ret.Results) {
			continue
		}
		if isNilConst(ret.Results[idx]) {
			continue
		}
		if !cz.carries(ret.Results[idx], fn.Params[i], map[ssa.Value]bool{}) {
			ok = false
		}
	}
	if !ok {
		cz.memo[fn][k] = 2
	}
	return ok
}

// failingErr: the error known to be non-nil at block b through the nearest dominating test, with the
// block where that branch starts.
func failingErrs(b *ssa.BasicBlock) []ssa.Value {
	var out []ssa.Value
	for d := b; d != nil && d.Idom() != nil; d = d.Idom() {
		pb := d.Idom()
		iff, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 || d.Preds[0] != pb {
			continue
		}
		if pb.Succs[0] == pb.Succs[1] {
			continue
		}
		for _, e := range errsImplied(iff.Cond, pb.Succs[0] == d, 0) {
			if nilness(e, b) != -1 {
				out = append(out, e)
			}
		}
	}
	return out
}

// errsImplied: the errors that are non-nil when the condition has the given value
func errsImplied(cond ssa.Value, val bool, depth int) []ssa.Value {
	if depth > 6 {
		return nil
	}
	switch c := cond.(type) {
	case *ssa.BinOp:
		if c.Op != token.EQL && c.Op != token.NEQ {
			return nil
		}
		x, y := c.X, c.Y
		if isNilConst(x) {
			x, y = y, x
		}
		if !isNilConst(y) {
			return nil
		}
		if ext, ok := x.(*ssa.Extract); ok && !isErrorType(x.Type()) && (c.Op == token.EQL) == val {
			// no result: the error of the same call
			var out []ssa.Value
			for _, ref := range *ext.Tuple.Referrers() {
				if e, ok := ref.(*ssa.Extract); ok && isErrorType(e.Type()) {
					out = append(out, e)
				}
			}
			return out
		}
		if !isErrorType(x.Type()) || (c.Op == token.NEQ) != val {
			return nil
		}
		return []ssa.Value{x}
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return errsImplied(c.X, !val, depth+1)
		}
	case *ssa.Extract:
		if ta, ok := c.Tuple.(*ssa.TypeAssert); ok && c.Index == 1 && val && isErrorType(ta.X.Type()) {
			return []ssa.Value{ta.X}
		}
	case *ssa.Call:
		if !val {
			return nil
		}
		switch calleeFullName(c) {
		case "errors.Is", "errors.As":
			return []ssa.Value{c.Call.Args[0]}
		}
		callee := c.Call.StaticCallee()
		if callee == nil || len(callee.Blocks) == 0 || callee.Signature.Results().Len() != 1 {
			return nil
		}
		var out []ssa.Value
		for i, a := range c.Call.Args {
			if isErrorType(a.Type()) && i < len(callee.Params) && trueImplies(callee, callee.Params[i], depth+1) {
				out = append(out, a)
			}
		}
		return out
	}
	return nil
}

// trueImplies: the predicate only returns true when its error parameter is non-nil
func trueImplies(fn *ssa.Function, par ssa.Value, depth int) bool {
	var holds func(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) bool
	holds = func(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value) {
			return true
		}
		for _, e := range append(failingErrs(b), errsImplied(v, true, depth+1)...) {
			if e == par {
				return true
			}
		}
		if phi, ok := v.(*ssa.Phi); ok && !seen[v] {
			seen[v] = true
			for i, e := range phi.Edges {
				if !holds(e, phi.Block().Preds[i], seen) {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
			if !holds(ret.Results[0], b, map[ssa.Value]bool{}) {
				return false
			}
		}
	}
	return true
}

func checkC09(p *Program, tier string) *Result {
	r := &Result{Explanation: "On the SSA of every library function: each return of a possibly non-nil error on a branch taken because a callee's error was non-nil must return a value that contains that error (returned itself, wrapped with %w, stored in a field of an error type with Unwrap, or passed through functions whose every return does so); and no error is formatted into another error's text without being wrapped."}
	cz := &causes{p: p, memo: map[*ssa.Function]map[int]int{}}
	p.neverFails()
	for _, fn := range p.Lib {
		ei := errIndex(fn.Signature)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				// a deferred function literal that replaces the returned error
				if st, ok := ins.(*ssa.Store); ok && isErrorType(st.Val.Type()) {
					if _, captured := st.Addr.(*ssa.FreeVar); captured {
						cz.judge(r, fn, st, st.Val, b, map[ssa.Value]bool{})
					}
				}
				c, ok := ins.(*ssa.Call)
				if ok && (calleeFullName(c) == "errors.New" || cz.constructor(c)) {
					r.Count("error_constructions", 1)
					for _, e := range flattened(p.Flow(), c) {
						if !cz.carries(c, e, map[ssa.Value]bool{}) && !cz.extractCarries(c, e) {
							r.Violate("error-flattened", constructName(p, ins, "construction"), p.InstrPos(ins), "%s puts the text of an error into another error without wrapping it", p.FuncName(fn))
						}
					}
					continue
				}
				if !ok || calleeFullName(c) != "fmt.Errorf" || len(c.Call.Args) < 2 {
					continue
				}
				f, ok := constString(c.Call.Args[0])
				args, ok2 := variadic(c.Call.Args[1])
				if !ok || !ok2 {
					continue
				}
				r.Count("error_constructions", 1)
				wrapped := map[int]bool{}
				for _, vb := range parseFormat(f) {
					if vb.verb == 'w' {
						wrapped[vb.arg] = true
					}
				}
				for i, a := range args {
					if a == nil || wrapped[i] {
						continue
					}
					u := unwrapIface(a)
					flat := implementsError(u.Type())
					if call, ok := u.(*ssa.Call); ok && call.Call.IsInvoke() && call.Call.Method.Name() == "Error" {
						flat = true
						u = call.Call.Value
					}
					if !flat {
						continue
					}
					// the same error may be wrapped by another operand
					again := false
					for j := range wrapped {
						if j < len(args) && args[j] != nil && cz.carries(args[j], u, map[ssa.Value]bool{}) {
							again = true
						}
					}
					if !again {
						r.Violate("error-flattened", constructName(p, ins, "fmt.Errorf"), p.InstrPos(ins), "%s formats an error into the text %q without wrapping it", p.FuncName(fn), f)
					}
				}
			}
			if ei < 0 {
				continue
			}
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || ei >= len(ret.Results) {
				continue
			}
			rv := ret.Results[ei]
			// judge each way the returned error may have been chosen
			cz.judge(r, fn, ret, rv, b, map[ssa.Value]bool{})
		}
	}
	// error types holding a cause must expose it
	for _, sp := range p.LibPkgs {
		for _, m := range sp.Members {
			tm, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			st, ok := tm.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			pt := types.NewPointer(tm.Type())
			if !implementsError(pt) {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if !isErrorType(st.Field(i).Type()) {
					continue
				}
				r.Count("error_types_with_cause", 1)
				sel := p.Prog.MethodSets.MethodSet(pt).Lookup(sp.Pkg, "Unwrap")
				good := false
				if sel != nil {
					if uf := p.Prog.FuncValue(sel.Obj().(*types.Func)); uf != nil {
						good = true
						for _, b := range uf.Blocks {
							ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
							if !ok {
								continue
							}
							if isNilConst(ret.Results[0]) {
								// allowed only for a nil receiver
								if len(failNil(b, uf.Params[0])) == 0 {
									good = false
								}
								continue
							}
							if !loadsField(ret.Results[0], i, map[ssa.Value]bool{}) {
								good = false
							}
						}
					}
				}
				if !good {
					r.Violate("cause-not-exposed", tm.Type().String(), p.Pos(tm.Pos()), "%s keeps its cause in field %s but Unwrap does not return it on every path", tm.Type(), st.Field(i).Name())
				}
			}
		}
	}
	r.Floor("error_types_with_cause", 1)
	r.Floor("failure_returns", 150)
	r.Floor("error_constructions", 150)
	return r
}

func (cz *causes) judge(r *Result, fn *ssa.Function, ret ssa.Instruction, rv ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) {
	if seen[rv] {
		return
	}
	seen[rv] = true
	if phi, ok := rv.(*ssa.Phi); ok {
		for i, e := range phi.Edges {
			cz.judge(r, fn, ret, e, phi.Block().Preds[i], seen)
		}
		return
	}
	if !mayBeNonNil(rv, b) {
		return
	}
	errs := failingErrs(b)
	if len(errs) == 0 {
		return
	}
	r.Count("failure_returns", 1)
	for _, e := range errs {
		if cz.carries(rv, e, map[ssa.Value]bool{}) {
			return
		}
	}
	// another error, produced by a later call whose own failure is returned here
	if c := errSource(unwrapIface(rv)); c != nil {
		if call, ok := c.(*ssa.Call); ok {
			n := calleeFullName(call)
			if n != "fmt.Errorf" && n != "errors.New" && !cz.constructor(call) {
				return
			}
		}
	}
	r.Violate("cause-dropped", constructName(cz.p, ret, "error"), cz.p.InstrPos(ret), "%s returns an error that does not contain the failure it was caused by (%s)", cz.p.FuncName(fn), describeErr(cz.p, errs[0]))
}

// constructor: a module function that only builds an error: it returns one whatever happens.
func (cz *causes) constructor(c *ssa.Call) bool {
	for _, t := range cz.p.Callees(c) {
		if !cz.p.inMod[t] {
			return false
		}
		sig := t.Signature
		if sig.Results().Len() == 1 && implementsError(sig.Results().At(0).Type()) && !isErrorType(sig.Results().At(0).Type()) {
			return true
		}
		if cz.alwaysError(t, map[*ssa.Function]bool{}) {
			return true
		}
	}
	return false
}

// alwaysError: every return of the function has a freshly built error
func (cz *causes) alwaysError(fn *ssa.Function, busy map[*ssa.Function]bool) bool {
	ei := errIndex(fn.Signature)
	if ei < 0 || busy[fn] || len(fn.Blocks) == 0 {
		return false
	}
	busy[fn] = true
	defer delete(busy, fn)
	var built func(v ssa.Value, depth int) bool
	built = func(v ssa.Value, depth int) bool {
		if depth > 10 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !built(e, depth+1) {
					return false
				}
			}
			return true
		case *ssa.MakeInterface:
			return built(x.X, depth+1)
		case *ssa.ChangeInterface:
			return built(x.X, depth+1)
		case *ssa.Alloc:
			return true
		case *ssa.Extract:
			return built(x.Tuple, depth+1)
		case *ssa.Call:
			switch calleeFullName(x) {
			case "fmt.Errorf", "errors.New", "errors.Join":
				return true
			}
			ts := cz.p.Callees(x)
			for _, t := range ts {
				if !cz.p.inMod[t] {
					return false
				}
				if !cz.alwaysError(t, busy) && !(t.Signature.Results().Len() == 1 && !isErrorType(t.Signature.Results().At(0).Type()) && implementsError(t.Signature.Results().At(0).Type())) {
					return false
				}
			}
			return len(ts) > 0
		}
		return false
	}
	any := false
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && ei < len(ret.Results) {
			if !built(ret.Results[ei], 0) {
				return false
			}
			any = true
		}
	}
	return any
}

// flattened lists the errors whose text the arguments of an error-building call are made of.
func flattened(f *Flow, c *ssa.Call) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var text func(v ssa.Value)
	text = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.BinOp:
			text(x.X)
			text(x.Y)
		case *ssa.Phi:
			for _, e := range x.Edges {
				text(e)
			}
		case *ssa.MakeInterface:
			text(x.X)
		case *ssa.ChangeInterface:
			if isErrorType(x.X.Type()) {
				out = append(out, x.X)
			}
		case *ssa.Slice:
			if args, ok := variadic(x); ok {
				for _, a := range args {
					if a == nil {
						continue
					}
					if u := unwrapIface(a); implementsError(u.Type()) {
						out = append(out, u)
					} else {
						text(a)
					}
				}
			}
		case *ssa.Call:
			if x.Call.IsInvoke() && x.Call.Method.Name() == "Error" && implementsError(x.Call.Value.Type()) {
				out = append(out, x.Call.Value)
				return
			}
			switch calleeFullName(x) {
			case "strings.Join", "bytes.Join":
				// texts collected in a slice of this function
				f.Backward(x.Call.Args[0], nil, FlowOpts{Stop: func(vis *Visit) bool {
					if vis.V.Parent() != c.Parent() {
						return true
					}
					if call, ok := vis.V.(*ssa.Call); ok {
						text(call)
						_, isB := call.Call.Value.(*ssa.Builtin)
						return !isB
					}
					return false
				}})
			case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "strings.TrimSpace", "strings.ReplaceAll", "strings.TrimPrefix", "strings.TrimSuffix", "strings.ToLower":
				for _, a := range x.Call.Args {
					text(a)
				}
			}
		}
	}
	for _, a := range c.Call.Args {
		if isStringType(a.Type()) {
			text(a)
		} else if sl, ok := a.(*ssa.Slice); ok {
			if _, isI := elemType(sl.Type()).Underlying().(*types.Interface); isI {
				text(sl)
			}
		} else if types.IsInterface(a.Type()) && !isErrorType(a.Type()) {
			text(a)
		}
	}
	return out
}

func describeErr(p *Program, v ssa.Value) string {
	if c := errSource(v); c != nil {
		n := calleeFullName(c)
		if len(p.Callees(c)) > 0 && p.inMod[p.Callees(c)[0]] {
			n = p.FuncName(p.Callees(c)[0])
		}
		return n + " at " + p.InstrPos(c.(ssa.Instruction))
	}
	return v.Name()
}

// failNil: tests on the way to b that establish v == nil.
func failNil(b *ssa.BasicBlock, v ssa.Value) []ssa.Value {
	if nilness(v, b) == -1 {
		return []ssa.Value{v}
	}
	return nil
}

func loadsField(v ssa.Value, idx int, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return fa.Field == idx
		}
	case *ssa.Field:
		return x.Field == idx
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !isNilConst(e) && !loadsField(e, idx, seen) {
				return false
			}
		}
		return true
	}
	return false
}
