package main

// C14: a password opens a document only after it was verified. Path-sensitive dominance: every successful return
// of an opening function lies behind a comparison of data computed from the password with the stored U or O value;
// failures of an opening function are never turned into success; the document may be opened without one only
// when it is shown not to be encrypted.

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C14"] = checkC14 }

type authCheck struct {
	p       *Program
	r       *Result
	f       *Flow
	side    map[ssa.Value][2]bool
	ver     map[verKey]int
	opening map[*ssa.Function]bool // verify a password themselves
	wrap    map[*ssa.Function]bool // call one and report its error
	reason  map[ssa.Value]string
}

type verKey struct {
	fn  *ssa.Function
	idx int
	val bool
}

func encField(v ssa.Value) string {
	var t types.Type
	i := -1
	switch x := v.(type) {
	case *ssa.FieldAddr:
		t, i = x.X.Type(), x.Field
	case *ssa.Field:
		t, i = x.X.Type(), x.Field
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			t, i = fa.X.Type(), fa.Field
		}
	}
	if i < 0 || !isEncInfo(t) {
		return ""
	}
	k := fieldKeyOf(t, i)
	return k[strings.LastIndexByte(k, '.')+1:]
}

func passwordParam(v ssa.Value) bool {
	pr, ok := v.(*ssa.Parameter)
	return ok && textLike(pr.Type()) && passwordName.MatchString(pr.Name())
}

// sides: does the value come from stored verification data, and does it come from a password?
func (a *authCheck) sides(v ssa.Value) (stored, fromPassword bool) {
	if s, ok := a.side[v]; ok {
		return s[0], s[1]
	}
	a.f.Backward(v, nil, FlowOpts{
		Limit: 150000,
		Stop: func(vs *Visit) bool {
			if k := encField(vs.V); k != "" {
				if k == "U" || k == "O" {
					stored = true
				}
				return true
			}
			if isEncInfo(vs.V.Type()) {
				return true
			}
			if passwordParam(vs.V) {
				fromPassword = true
				return true
			}
			return fromPassword && stored
		},
	})
	a.side[v] = [2]bool{stored, fromPassword}
	return
}

// directlyStored: the operand itself is a part of U or O, not something computed from it.
func directlyStored(v ssa.Value, d int) bool {
	if d > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Slice:
		return directlyStored(x.X, d+1)
	case *ssa.Convert:
		return directlyStored(x.X, d+1)
	case *ssa.ChangeType:
		return directlyStored(x.X, d+1)
	case *ssa.UnOp:
		return x.Op == token.MUL && directlyStored(x.X, d+1)
	case *ssa.FieldAddr, *ssa.Field:
		k := encField(v)
		return k == "U" || k == "O"
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !directlyStored(e, d+1) {
				return false
			}
		}
		return len(x.Edges) > 0
	case *ssa.Parameter:
		return true // decided by the flow analysis
	case *ssa.Call:
		return calleeFullName(x) == "bytes.Clone"
	}
	return false
}

func constBounds(v ssa.Value) (base ssa.Value, lo, hi int64, sliced, fixed bool) {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return v, 0, -1, false, false
	}
	get := func(x ssa.Value) (int64, bool) {
		c, ok := x.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0, false
		}
		n, _ := constant.Int64Val(c.Value)
		return n, true
	}
	fixed = true
	if s.Low != nil {
		n, ok := get(s.Low)
		fixed = fixed && ok
		lo = n
	}
	hi = -1
	if s.High != nil {
		n, ok := get(s.High)
		fixed = fixed && ok
		hi = n
	} else if pt, ok := s.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			hi = at.Len()
		}
	}
	return s.X, lo, hi, true, fixed
}

// compare judges a comparison of two byte strings or strings; reason is empty when it verifies a password.
func (a *authCheck) compare(x, y ssa.Value) (bool, string) {
	x, y = stripConvert(x), stripConvert(y)
	sx, px := a.sides(x)
	sy, py := a.sides(y)
	var stored, computed ssa.Value
	switch {
	case sx && !px && py:
		stored, computed = x, y
	case sy && !py && px:
		stored, computed = y, x
	default:
		return false, ""
	}
	if !directlyStored(stored, 0) {
		return false, ""
	}
	n := int64(-1)
	for _, v := range []ssa.Value{stored, computed} {
		_, lo, hi, sliced, fixed := constBounds(v)
		if !sliced {
			continue
		}
		if !fixed {
			return false, "the number of bytes compared is not fixed"
		}
		if hi >= 0 && (n < 0 || hi-lo < n) {
			n = hi - lo
		}
	}
	if n >= 0 && n < 16 {
		return false, "only " + itoa(int(n)) + " bytes are compared"
	}
	if k := a.dependent(computed); k >= 0 && k < 16 {
		return false, "only " + itoa(k) + " of the compared bytes depend on the password"
	}
	return true, ""
}

func stripConvert(v ssa.Value) ssa.Value {
	for {
		c, ok := v.(*ssa.Convert)
		if !ok {
			return v
		}
		v = c.X
	}
}

// dependent: how many bytes of the compared range are not copied from data that is independent of the password; -1 unknown.
func (a *authCheck) dependent(v ssa.Value) int {
	base, lo, hi, sliced, fixed := constBounds(v)
	if !sliced || !fixed || hi < 0 {
		return -1
	}
	var call *ssa.Call
	idx := 0
	switch x := base.(type) {
	case *ssa.Call:
		call = x
	case *ssa.Extract:
		call, _ = x.Tuple.(*ssa.Call)
		idx = x.Index
	}
	bufs := []ssa.Value{base}
	if call != nil {
		bufs = nil
		for _, t := range a.p.Callees(call) {
			for _, b := range t.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) && !isNilConst(ret.Results[idx]) {
					bufs = append(bufs, ret.Results[idx])
				}
			}
		}
	}
	worst := -1
	for _, buf := range bufs {
		off := int64(0)
		if s, ok := buf.(*ssa.Slice); ok {
			b2, l, _, _, fx := constBounds(s)
			if !fx {
				continue
			}
			if _, isAlloc := b2.(*ssa.Alloc); !isAlloc || l != 0 {
				continue
			}
			buf, off = b2, l
		}
		if buf.Referrers() == nil {
			continue
		}
		indep := map[int64]bool{}
		for _, ref := range *buf.Referrers() {
			s, ok := ref.(*ssa.Slice)
			if !ok || s.Referrers() == nil {
				continue
			}
			_, l, h, _, fx := constBounds(s)
			if !fx {
				continue
			}
			for _, sr := range *s.Referrers() {
				c, ok := sr.(*ssa.Call)
				if !ok || calleeFullName(c) != "builtin.copy" || c.Call.Args[0] != s {
					continue
				}
				if _, pw := a.sides(c.Call.Args[1]); pw {
					continue
				}
				if h < 0 {
					continue
				}
				for k := l; k < h; k++ {
					indep[k-off] = true
				}
			}
		}
		n := 0
		for k := lo; k < hi; k++ {
			if !indep[k] {
				n++
			}
		}
		if worst < 0 || n < worst {
			worst = n
		}
	}
	return worst
}

// verifies: does v == val imply that the password was verified?
func (a *authCheck) verifies(s *PState, v ssa.Value, val bool, d int) bool {
	if d > 10 {
		return false
	}
	if s != nil {
		v = s.Resolve(v)
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.verifies(s, x.X, !val, d+1)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		if x.Op == token.NEQ {
			val = !val
		}
		l, r := x.X, x.Y
		if _, ok := l.(*ssa.Const); ok {
			l, r = r, l
		}
		c, isConst := r.(*ssa.Const)
		switch {
		case isConst && c.Value == nil:
			if s != nil {
				l = s.Resolve(l)
			}
			call, idx := callOf(l)
			if call == nil {
				return false
			}
			return a.callVerifies(call, idx, !val)
		case isConst && c.Value.Kind() == constant.Bool:
			return a.verifies(s, l, constant.BoolVal(c.Value) == val, d+1)
		case isConst && c.Value.Kind() == constant.Int:
			if s != nil {
				l = s.Resolve(l)
			}
			call, ok := l.(*ssa.Call)
			if !ok || !val {
				return false
			}
			n, _ := constant.Int64Val(c.Value)
			switch calleeFullName(call) {
			case "crypto/subtle.ConstantTimeCompare":
				return n == 1 && a.comparison(call, call.Call.Args[0], call.Call.Args[1])
			case "bytes.Compare", "strings.Compare":
				return n == 0 && a.comparison(call, call.Call.Args[0], call.Call.Args[1])
			}
		case !isConst && val:
			switch l.Type().Underlying().(type) {
			case *types.Basic, *types.Array:
				if b, ok := l.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
					return false
				}
				return a.comparison(x, l, r)
			}
		}
	case *ssa.Call:
		switch calleeFullName(x) {
		case "bytes.Equal", "crypto/hmac.Equal":
			return val && a.comparison(x, x.Call.Args[0], x.Call.Args[1])
		case "reflect.DeepEqual", "slices.Equal":
			return val && a.comparison(x, unwrapIface(x.Call.Args[0]), unwrapIface(x.Call.Args[1]))
		}
		return a.callVerifies(x, 0, val)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return a.callVerifies(call, x.Index, val)
		}
	}
	return false
}

func callOf(v ssa.Value) (*ssa.Call, int) {
	switch x := v.(type) {
	case *ssa.Call:
		return x, 0
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return c, x.Index
		}
	}
	return nil, 0
}

func (a *authCheck) comparison(at ssa.Value, x, y ssa.Value) bool {
	ok, why := a.compare(x, y)
	if why != "" {
		a.reason[at] = why
	}
	return ok
}

// callVerifies: when result idx of the call is val (true / non-nil), was the password verified inside?
func (a *authCheck) callVerifies(c *ssa.Call, idx int, val bool) bool {
	ts := a.p.Callees(c)
	if len(ts) == 0 {
		return false
	}
	for _, t := range ts {
		if !a.fnVerifies(t, idx, val) {
			return false
		}
	}
	return true
}

func (a *authCheck) fnVerifies(fn *ssa.Function, idx int, val bool) bool {
	if len(fn.Blocks) == 0 || idx >= fn.Signature.Results().Len() {
		return false
	}
	k := verKey{fn, idx, val}
	switch a.ver[k] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	a.ver[k] = 3
	ok, reached := true, false
	done := Explore(fn, &PathClient{
		Edge: func(s *PState, from, to *ssa.BasicBlock, cond ssa.Value, v bool) bool {
			if s.Flag == 0 && a.verifies(s, cond, v, 0) {
				s.Flag = 1
			}
			return true
		},
		Return: func(s *PState, ret *ssa.Return) {
			v := s.Resolve(ret.Results[idx])
			isBool := false
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				isBool = true
			}
			var t int
			if isBool {
				t = s.Truth(v)
			} else {
				t = s.Nil(v)
			}
			if val && t == -1 || !val && t == 1 {
				return
			}
			reached = true
			if s.Flag == 1 {
				return
			}
			if isBool && a.verifies(s, v, val, 0) {
				return
			}
			if !isBool {
				if call, i := callOf(v); call != nil && a.callVerifies(call, i, val) {
					return
				}
			}
			ok = false
		},
	})
	if !done || !reached {
		ok = false
	}
	if ok {
		a.ver[k] = 1
	} else {
		a.ver[k] = 2
	}
	return ok
}

var notEncName = regexp.MustCompile(`(?i)notencrypt|unencrypt|noencrypt|not_encrypt`)

// unencrypted: the edge shows that the document has no encryption dictionary.
func (a *authCheck) unencrypted(s *PState, cond ssa.Value, val bool, d int) bool {
	if d > 8 {
		return false
	}
	cond = s.Resolve(cond)
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.unencrypted(s, x.X, !val, d+1)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ && x.Op != token.LSS && x.Op != token.GEQ && x.Op != token.GTR {
			return false
		}
		eq := val == (x.Op == token.EQL)
		for _, o := range []ssa.Value{x.X, x.Y} {
			o = s.Resolve(o)
			if x.Op == token.EQL || x.Op == token.NEQ {
				if isEncInfo(o.Type()) && (isNilConst(x.X) || isNilConst(x.Y)) {
					return eq
				}
				if ld, ok := o.(*ssa.UnOp); ok {
					if g, ok := ld.X.(*ssa.Global); ok && notEncName.MatchString(g.Name()) {
						return eq
					}
				}
			}
			if call, ok := o.(*ssa.Call); ok && searchesEncrypt(call) {
				absent := false
				switch x.Op {
				case token.EQL:
					absent = val
				case token.NEQ:
					absent = !val
				case token.LSS:
					absent = val
				case token.GEQ, token.GTR:
					absent = !val
				}
				return absent
			}
		}
	case *ssa.Call:
		name := calleeFullName(x)
		if name == "errors.Is" && val {
			if ld, ok := x.Call.Args[1].(*ssa.UnOp); ok {
				if g, ok := ld.X.(*ssa.Global); ok && notEncName.MatchString(g.Name()) {
					return true
				}
			}
		}
		if searchesEncrypt(x) {
			return !val
		}
		// a helper that answers whether the document is encrypted
		for _, t := range a.p.Callees(x) {
			if t.Signature.Results().Len() == 1 && len(t.Blocks) > 0 {
				ok := true
				Explore(t, &PathClient{
					Edge: func(s2 *PState, from, to *ssa.BasicBlock, c ssa.Value, v bool) bool {
						if a.unencrypted(s2, c, v, d+1) {
							s2.Flag = 1
						}
						return true
					},
					Return: func(s2 *PState, ret *ssa.Return) {
						tr := s2.Truth(ret.Results[0])
						if tr != 0 && (tr == 1) != val {
							return
						}
						if s2.Flag == 1 || a.unencrypted(s2, ret.Results[0], val, d+1) {
							return
						}
						ok = false
					},
				})
				if ok {
					return true
				}
			}
		}
	}
	return false
}

func searchesEncrypt(c *ssa.Call) bool {
	switch calleeFullName(c) {
	case "bytes.Contains", "bytes.Index", "strings.Contains", "strings.Index", "bytes.LastIndex", "strings.LastIndex":
	default:
		return false
	}
	v := c.Call.Args[1]
	if cv, ok := v.(*ssa.Convert); ok {
		v = cv.X
	}
	s, ok := constString(v)
	return ok && s == "/Encrypt"
}

// inLoop: the block lies on a cycle.
func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

func checkC14(p *Program, tier string) *Result {
	r := &Result{Explanation: "Path-sensitive exploration of every function that opens a document with a password: each path to a successful return passes the true edge of a comparison of at least 16 bytes between stored U or O data and data computed from the password parameter (through helpers, flags and negations). For every caller, the failing edge of an opening call leads only to error returns, and a success without an opening call requires an edge that shows the document has no encryption dictionary."}
	a := &authCheck{p: p, r: r, f: p.Flow(), side: map[ssa.Value][2]bool{}, ver: map[verKey]int{}, opening: map[*ssa.Function]bool{}, wrap: map[*ssa.Function]bool{}, reason: map[ssa.Value]string{}}
	p.neverFails()
	lib := append([]*ssa.Function(nil), p.Lib...)
	sort.Slice(lib, func(i, j int) bool { return p.FuncName(lib[i]) < p.FuncName(lib[j]) })
	encIdx := map[*ssa.Function]int{}
	// opening functions: take a password and hand out the encryption read from the document
	for _, fn := range lib {
		enc := -1
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if isEncInfo(fn.Signature.Results().At(i).Type()) {
				enc = i
			}
		}
		pw := false
		for _, pr := range fn.Params {
			pw = pw || passwordParam(pr)
		}
		if enc < 0 || !pw || errIndex(fn.Signature) < 0 {
			continue
		}
		if a.creates(fn, 0) {
			continue
		}
		r.Count("opening functions", 1)
		a.opening[fn] = true
		encIdx[fn] = enc
	}
	for _, fn := range lib {
		if a.opening[fn] {
			a.openingPaths(fn, encIdx[fn])
		}
	}
	r.Floor("opening functions", 1)
	// wrappers: to a fixpoint
	for fn := range a.opening {
		a.wrap[fn] = true
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range lib {
			if a.wrap[fn] || errIndex(fn.Signature) < 0 {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if c, ok := ins.(*ssa.Call); ok && a.opens(c) {
						if !a.wrap[fn] {
							a.wrap[fn] = true
							changed = true
						}
					}
				}
			}
		}
	}
	for _, fn := range lib {
		var calls []*ssa.Call
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok && a.opens(c) {
					calls = append(calls, c)
				}
			}
		}
		for _, c := range calls {
			r.Count("calls that open a document", 1)
			a.failurePropagates(fn, c)
		}
		if len(calls) > 0 && a.wrap[fn] && !a.opening[fn] {
			a.noBypass(fn, calls)
		}
	}
	r.Floor("calls that open a document", 10)
	return r
}

// creates: the function sets up a new encryption, itself or by handing on what a callee set up.
func (a *authCheck) creates(fn *ssa.Function, d int) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || encField(fa) != "U" {
					continue
				}
				// not when reading the value from a document
				if _, pw := a.sides(x.Val); pw {
					return true
				}
			case *ssa.Call:
				if d > 3 {
					continue
				}
				for _, t := range a.p.Callees(x) {
					if t == fn {
						continue
					}
					for i := 0; i < t.Signature.Results().Len(); i++ {
						if isEncInfo(t.Signature.Results().At(i).Type()) && a.creates(t, d+1) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// openCall: every callee is an opening function, judged by itself.
func (a *authCheck) openCall(c *ssa.Call) bool {
	ts := a.p.Callees(c)
	for _, t := range ts {
		if !a.opening[t] {
			return false
		}
	}
	return len(ts) > 0
}

func (a *authCheck) opens(c *ssa.Call) bool {
	for _, t := range a.p.Callees(c) {
		if a.wrap[t] {
			return true
		}
	}
	return false
}

func (a *authCheck) openingPaths(fn *ssa.Function, enc int) {
	ei := errIndex(fn.Signature)
	bad := map[*ssa.Return]bool{}
	good := 0
	done := Explore(fn, &PathClient{
		Edge: func(s *PState, from, to *ssa.BasicBlock, cond ssa.Value, v bool) bool {
			if s.Flag == 0 && (a.verifies(s, cond, v, 0) || a.unencrypted(s, cond, v, 0) || a.opened(s, cond, v, a.openCall)) {
				s.Flag = 1
			}
			return true
		},
		Return: func(s *PState, ret *ssa.Return) {
			if s.Nil(ret.Results[ei]) == 1 || s.Nil(ret.Results[enc]) == -1 {
				return
			}
			if s.Flag == 1 {
				good++
				return
			}
			if call, i := callOf(s.Resolve(ret.Results[ei])); call != nil && (a.callVerifies(call, i, false) || a.openCall(call)) {
				good++
				return
			}
			bad[ret] = true
		},
	})
	a.r.Count("verified success paths", good)
	if !done {
		a.r.Violate("undecided", a.p.FuncName(fn), a.p.Pos(fn.Pos()), "%s: too many paths to decide", a.p.FuncName(fn))
	}
	for ret := range bad {
		why := ""
		for at, w := range a.reason {
			if at.Parent() != nil {
				why += "; " + a.p.InstrPos(at.(ssa.Instruction)) + ": " + w
			}
		}
		a.r.Violate("unverified-success", a.p.FuncName(fn), a.p.InstrPos(ret), "%s can return success without the password having been compared with the stored U or O value%s", a.p.FuncName(fn), why)
	}
}

// failurePropagates: once the call has failed, only error returns (or a later successful opening call) follow.
func (a *authCheck) failurePropagates(fn *ssa.Function, c *ssa.Call) {
	ev := callErr(c)
	key := a.p.FuncName(fn) + "|" + calleeFullName(c)
	if ev == nil {
		a.r.Violate("ignored-open-error", key, a.p.InstrPos(c), "%s ignores whether %s succeeded", a.p.FuncName(fn), calleeFullName(c))
		return
	}
	ei := errIndex(fn.Signature)
	if ei < 0 {
		a.r.Count("callers without an error result", 1)
		return
	}
	var bad *ssa.Return
	done := Explore(fn, &PathClient{
		Edge: func(s *PState, from, to *ssa.BasicBlock, cond ssa.Value, v bool) bool {
			return !a.verifies(s, cond, v, 0) && !a.openOK(s, cond, v) && !a.unencrypted(s, cond, v, 0)
		},
		Instr: func(s *PState, ins ssa.Instruction) bool {
			if ins == ev.(ssa.Instruction) {
				s.Flag = 1
				s.truth[ev] = 1
			}
			return true
		},
		Return: func(s *PState, ret *ssa.Return) {
			if s.Flag == 1 && s.Nil(ret.Results[ei]) == -1 {
				bad = ret
			}
		},
	})
	if !done {
		a.r.Violate("undecided", key, a.p.InstrPos(c), "%s: too many paths to decide", a.p.FuncName(fn))
	}
	if bad != nil {
		a.r.Violate("failed-open-accepted", key, a.p.InstrPos(bad), "%s returns success here although %s (at %s) failed", a.p.FuncName(fn), calleeFullName(c), a.p.InstrPos(c))
	}
}

// openOK: the edge shows that some opening call succeeded.
func (a *authCheck) openOK(s *PState, cond ssa.Value, val bool) bool {
	return a.opened(s, cond, val, a.opens)
}

func (a *authCheck) opened(s *PState, cond ssa.Value, val bool, is func(*ssa.Call) bool) bool {
	cond = s.Resolve(cond)
	x, ok := cond.(*ssa.BinOp)
	if !ok || x.Op != token.EQL && x.Op != token.NEQ {
		return false
	}
	if x.Op == token.NEQ {
		val = !val
	}
	l, r := x.X, x.Y
	if isNilConst(l) {
		l, r = r, l
	}
	if !isNilConst(r) || !val {
		return false
	}
	c, _ := callOf(s.Resolve(l))
	return c != nil && is(c)
}

// noBypass: a success without any opening call needs proof that the document is not encrypted.
func (a *authCheck) noBypass(fn *ssa.Function, calls []*ssa.Call) {
	pw := false
	for _, pr := range fn.Params {
		pw = pw || passwordParam(pr)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if fa, ok := ins.(*ssa.FieldAddr); ok && secretField(fa.X.Type(), fa.Field) != "" {
				pw = true
			}
		}
	}
	if !pw {
		return
	}
	for _, c := range calls {
		if inLoop(c.Block()) {
			return // one document of a list
		}
	}
	ei := errIndex(fn.Signature)
	set := map[ssa.Instruction]bool{}
	for _, c := range calls {
		set[c] = true
	}
	var bad *ssa.Return
	Explore(fn, &PathClient{
		Instr: func(s *PState, ins ssa.Instruction) bool { return !set[ins] },
		Edge: func(s *PState, from, to *ssa.BasicBlock, cond ssa.Value, v bool) bool {
			return !a.unencrypted(s, cond, v, 0)
		},
		Return: func(s *PState, ret *ssa.Return) {
			if s.Nil(ret.Results[ei]) != 1 && bad == nil {
				bad = ret
			}
		},
	})
	a.r.Count("functions shown not to bypass opening", 1)
	if bad != nil {
		a.r.Violate("bypass", a.p.FuncName(fn), a.p.InstrPos(bad), "%s can succeed without opening the document and without having seen that it is not encrypted", a.p.FuncName(fn))
	}
}
