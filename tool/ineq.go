package main

// Linear inequalities between the integers, lengths and capacities of one function.
//
// Values are put into the form  c + sum k*atom  where an atom is an SSA integer that is not decomposed further or
// the length of an SSA slice, string or map.  At a program point the facts are the conditions of the dominating
// branches, what the dominating index and slice operations survived, and what is known about library functions.
// A goal  L >= 0  is shown by chaining facts, by case distinction over phis and by induction over loop phis, by
// asking the callers when only parameters of an unexported function are left, and by proving statements about the
// results of module functions at all their returns.
//
// Sums of integers that nothing bounds (parsed numbers, caller's integers) are not decomposed: they may wrap.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type atom struct {
	v   ssa.Value
	len bool
}

type lin struct {
	c int64
	t map[atom]int64
}

func konst(c int64) lin { return lin{c: c} }
func (l lin) add(m lin, k int64) lin {
	r := lin{c: l.c + k*m.c, t: make(map[atom]int64, len(l.t)+len(m.t))}
	for a, x := range l.t {
		r.t[a] = x
	}
	for a, x := range m.t {
		if n := r.t[a] + k*x; n == 0 {
			delete(r.t, a)
		} else {
			r.t[a] = n
		}
	}
	return r
}
func (l lin) scale(k int64) lin { return konst(0).add(l, k) }
func (l lin) minus(c int64) lin { r := l.add(konst(0), 1); r.c -= c; return r }

// lessEq is  a <= b  as  b - a >= 0.
func lessEq(a, b lin) lin { return b.add(a, -1) }

type fact struct {
	l  lin
	ne bool // l != 0 instead of l >= 0
}

type facts struct {
	list []fact
	nils map[ssa.Value]int // 1 known non-nil, -1 known nil; for booleans 1 true, -1 false

	strong bool         // the != facts have been sharpened
	extra  []lin        // results of that
	sharp  map[int]bool // facts that were
}

// Num answers questions about numbers in the program.
type Num struct {
	p      *Program
	linM   map[ssa.Value]lin
	lenM   map[ssa.Value]lin
	linB   map[ssa.Value]bool
	factsM map[factKey]*facts
	induct map[string]int
	tameM  map[ssa.Value]int
	canonM map[ssa.Value]ssa.Value

	canonRun   map[ssa.Value]bool
	canonDep   map[ssa.Value][]ssa.Value
	canonLog   []ssa.Value
	canonPlain map[ssa.Value]bool
	versions   map[*ssa.UnOp]version
	postM      map[string]int
	loops      map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	writes     map[*ssa.Function]map[string]bool
	ids        map[ssa.Value]int
	inMul      int
	nest       int
	work       int
	limit      int
	mono       map[*ssa.Phi]int // 1 being computed, 2 unknown, 4 grows, 8 shrinks
	calls      int              // caller depth
	ideal      bool             // integers do not wrap
}

type factKey struct {
	b *ssa.BasicBlock
	i int
}

func NewNum(p *Program) *Num {
	return &Num{p: p, linM: map[ssa.Value]lin{}, lenM: map[ssa.Value]lin{}, linB: map[ssa.Value]bool{}, factsM: map[factKey]*facts{},
		induct: map[string]int{}, tameM: map[ssa.Value]int{}, canonM: map[ssa.Value]ssa.Value{}, postM: map[string]int{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, ids: map[ssa.Value]int{}, mono: map[*ssa.Phi]int{}}
}

func (n *Num) id(v ssa.Value) int {
	if k, ok := n.ids[v]; ok {
		return k
	}
	n.ids[v] = len(n.ids) + 1
	return n.ids[v]
}

func (n *Num) str(l lin) string {
	var parts []string
	for a, k := range l.t {
		s := fmt.Sprintf("%d*", k)
		if a.len {
			s += "len"
		}
		parts = append(parts, s+fmt.Sprint(n.id(a.v)))
	}
	sort.Strings(parts)
	return fmt.Sprintf("%d %s", l.c, strings.Join(parts, " "))
}

// Show prints a linear form with SSA names, for reports.
func (n *Num) Show(l lin) string {
	var parts []string
	for a, k := range l.t {
		s := a.v.Name()
		if a.len {
			s = "len(" + s + ")"
		}
		parts = append(parts, fmt.Sprintf("%+d*%s", k, s))
	}
	sort.Strings(parts)
	return fmt.Sprintf("%s %+d", strings.Join(parts, " "), l.c)
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// intRange is the range of a fixed-size integer type; ok is false for the 64-bit types.
func intRange(t types.Type) (lo, hi int64, ok bool) {
	b, is := t.Underlying().(*types.Basic)
	if !is {
		return
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	}
	return
}

func unsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// wide: a 64-bit integer type.
func wide(t types.Type) bool {
	_, _, ok := intRange(t)
	return isInt(t) && !ok
}

const big = int64(1) << 50

// tame: the value cannot be anywhere near the limits of its 64-bit type, so small sums of it do not wrap.
func (n *Num) tame(v ssa.Value, d int) bool {
	if k, ok := n.tameM[v]; ok {
		if k == 0 && n.inMul > 0 { // a product that feeds itself grows without bound
			return false
		}
		return k >= 0
	}
	if d > 25 {
		return false
	}
	n.tameM[v] = 0 // assumed during recursion
	r := n.tame1(v, d)
	if r {
		n.tameM[v] = 1
	} else {
		n.tameM[v] = -1
	}
	return r
}

func (n *Num) tame1(v ssa.Value, d int) bool {
	if !wide(v.Type()) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return true
		}
		i, ok := constant.Int64Val(constant.ToInt(x.Value))
		return ok && i < big && i > -big
	case *ssa.Convert:
		if !isInt(x.X.Type()) {
			return false
		}
		return n.tame(x.X, d+1)
	case *ssa.ChangeType:
		return n.tame(x.X, d+1)
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB:
			return (n.tame(x.X, d+1) || n.heldIn(x.X, x)) && (n.tame(x.Y, d+1) || n.heldIn(x.Y, x))
		case token.REM, token.AND:
			return n.tame(x.Y, d+1) || n.tame(x.X, d+1)
		case token.QUO, token.SHR:
			return n.tame(x.X, d+1)
		case token.MUL:
			_, c1 := x.X.(*ssa.Const)
			_, c2 := x.Y.(*ssa.Const)
			if c1 || c2 {
				n.inMul++
				r := n.tame(x.X, d+1) && n.tame(x.Y, d+1)
				n.inMul--
				return r && (n.smallConst(x.X) || n.smallConst(x.Y))
			}
			if n.within(x.Y, 0, 1<<12, x) {
				return n.tame(x.X, d+1)
			}
			if n.within(x.X, 0, 1<<12, x) {
				return n.tame(x.Y, d+1)
			}
		case token.OR, token.SHL:
			return n.shortInt(x, 0)
		}
		return false
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !n.tame(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "copy":
				return true
			case "min":
				for _, a := range x.Call.Args {
					if n.tame(a, d+1) && unsigned(a.Type()) {
						return true
					}
				}
				fallthrough
			case "max":
				for _, a := range x.Call.Args {
					if !n.tame(a, d+1) {
						return false
					}
				}
				return true
			}
			return false
		}
		name := calleeFullName(x)
		if tameResult[name] {
			return true
		}
		if f := x.Call.StaticCallee(); f != nil && n.p.inMod[f] && f.Signature.Results().Len() == 1 {
			return n.tameResultOf(f, 0, d)
		}
		return false
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			return true
		case *ssa.Call:
			if _, _, ok := parsedRange(t); ok || tameResult[calleeFullName(t)] {
				return true
			}
			if f := t.Call.StaticCallee(); f != nil && n.p.inMod[f] {
				return n.tameResultOf(f, x.Index, d)
			}
		}
		return false
	case *ssa.UnOp:
		switch x.Op {
		case token.SUB:
			return n.tame(x.X, d+1)
		case token.MUL:
			if c := n.canon(x); c != ssa.Value(x) {
				return n.tame(c, d+1)
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok && n.positions(ia.X, 0) {
				return true
			}
			return n.tameLoad(x, d)
		}
		return false
	case *ssa.Parameter:
		f := x.Parent()
		if exportedAPI(f) || n.p.addrUsed[f] || len(n.p.callers[f]) == 0 || d > 12 {
			return false
		}
		i := paramIndex(x)
		for _, c := range n.p.callers[f] {
			a := argFor(c, f, i)
			if a == nil || !n.tame(a, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

func paramIndex(x *ssa.Parameter) int {
	for i, q := range x.Parent().Params {
		if q == x {
			return i
		}
	}
	return -1
}

// argFor is what call c passes for parameter i of f.
func argFor(c ssa.CallInstruction, f *ssa.Function, i int) ssa.Value {
	com := c.Common()
	if com.IsInvoke() {
		if i == 0 {
			return nil
		}
		i--
	}
	if i < 0 || i >= len(com.Args) {
		return nil
	}
	return com.Args[i]
}

func (n *Num) smallConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return false
	}
	i, ok := constant.Int64Val(constant.ToInt(c.Value))
	return ok && i < 1<<12 && i > -(1<<12)
}

// shortInt: bytes put together with shifts, at most 32 bits wide.
func (n *Num) shortInt(v ssa.Value, d int) bool {
	if d > 10 {
		return false
	}
	if _, hi, ok := intRange(v.Type()); ok && hi <= 1<<32 {
		return true
	}
	switch x := v.(type) {
	case *ssa.Convert:
		lo, _, ok := intRange(x.X.Type())
		return ok && lo == 0 || n.shortInt(x.X, d+1)
	case *ssa.BinOp:
		switch x.Op {
		case token.OR:
			return n.shortInt(x.X, d+1) && n.shortInt(x.Y, d+1)
		case token.SHL:
			c, ok := x.Y.(*ssa.Const)
			if !ok {
				return false
			}
			k, ok := constant.Int64Val(constant.ToInt(c.Value))
			_, hi, okr := intRange(stripConv(x.X).Type())
			return ok && okr && k <= 24 && hi <= 65535
		}
	case *ssa.Const:
		return n.smallConst(v)
	}
	return false
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		c, ok := v.(*ssa.Convert)
		if !ok || !isInt(c.X.Type()) {
			return v
		}
		v = c.X
	}
}

func (n *Num) tameResultOf(f *ssa.Function, k int, d int) bool {
	if d > 12 {
		return false
	}
	found := false
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			found = true
			if !n.tame(ret.Results[k], d+1) {
				return false
			}
		}
	}
	return found
}

// tameLoad: every store to the same field (or variable) in the module stores a tame value.
func (n *Num) tameLoad(x *ssa.UnOp, d int) bool {
	key := locKey(x.X)
	if key == "" || d > 8 {
		return false
	}
	n.scanStores()
	ss, ok := storesOf[key]
	if !ok || leaked[key] {
		return false
	}
	for _, s := range ss {
		if !n.tame(s.Val, d+1) {
			return false
		}
	}
	return true
}

var storesOf map[string][]*ssa.Store
var leaked map[string]bool

func (n *Num) scanStores() {
	if storesOf != nil {
		return
	}
	storesOf, leaked = map[string][]*ssa.Store{}, map[string]bool{}
	for _, f := range n.p.All {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if k := locKey(x.Addr); k != "" {
						storesOf[k] = append(storesOf[k], x)
					} else if st, ok := x.Val.Type().Underlying().(*types.Struct); ok {
						// whole-struct copies carry values that were stored elsewhere into fields
						_ = st
					}
				case *ssa.FieldAddr:
					k := locKey(x)
					for _, ref := range *x.Referrers() {
						switch r := ref.(type) {
						case *ssa.Store:
							if r.Val == x {
								leaked[k] = true
							}
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.FieldAddr, *ssa.IndexAddr:
						default:
							leaked[k] = true
						}
					}
				}
			}
		}
	}
	// fields of exported structs that a caller may fill
	for _, sp := range n.p.LibPkgs {
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok || !t.Object().Exported() {
				continue
			}
			st, ok := t.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Exported() {
					leaked[fieldKey(t.Type(), i)] = true
				}
			}
		}
	}
}

func fieldKey(t types.Type, i int) string { return t.String() + "#" + itoa(i) }

// locKey names the memory an address stands for, up to the object it belongs to.
func locKey(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		pt, ok := x.X.Type().Underlying().(*types.Pointer)
		if !ok {
			return ""
		}
		return fieldKey(pt.Elem(), x.Field)
	case *ssa.Global:
		return "global " + x.String()
	case *ssa.FreeVar:
		return captured(x)
	case *ssa.Alloc:
		return "alloc " + x.Parent().String() + " " + x.Name() + " " + itoa(int(x.Pos()))
	}
	return ""
}

// captured finds the variable a free variable stands for.
func captured(x *ssa.FreeVar) string {
	f := x.Parent()
	idx := -1
	for i, v := range f.FreeVars {
		if v == x {
			idx = i
		}
	}
	par := f.Parent()
	if par == nil || idx < 0 {
		return ""
	}
	for _, b := range par.Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == f {
				return locKey(mc.Bindings[idx])
			}
		}
	}
	return ""
}

// Lin is the linear form of an integer value.
func (n *Num) Lin(v ssa.Value) lin {
	if l, ok := n.linM[v]; ok {
		return l
	}
	if n.linB[v] {
		return lin{t: map[atom]int64{{v: v}: 1}}
	}
	n.linB[v] = true
	l := n.lin1(v)
	delete(n.linB, v)
	n.linM[v] = l
	return l
}

func (n *Num) self(v ssa.Value) lin { return lin{t: map[atom]int64{{v: v}: 1}} }

func (n *Num) lin1(v ssa.Value) lin {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return konst(0)
		}
		if i, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
			return konst(i)
		}
	case *ssa.ChangeType:
		return n.Lin(x.X)
	case *ssa.Convert:
		if !isInt(x.X.Type()) || !isInt(x.Type()) {
			break
		}
		slo, shi, sok := intRange(x.X.Type())
		dlo, dhi, dok := intRange(x.Type())
		switch {
		case sok && !dok: // widening to 64 bits
			if slo >= 0 || !unsigned(x.Type()) {
				return n.Lin(x.X)
			}
		case sok && dok:
			if slo >= dlo && shi <= dhi {
				return n.Lin(x.X)
			}
			if n.within(x.X, dlo, dhi, x) {
				return n.Lin(x.X)
			}
		case !sok && !dok: // 64-bit to 64-bit
			if unsigned(x.X.Type()) == unsigned(x.Type()) {
				return n.Lin(x.X)
			}
			if n.within(x.X, 0, big, x) {
				return n.Lin(x.X)
			}
		case !sok && dok:
			if n.within(x.X, dlo, dhi, x) {
				return n.Lin(x.X)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if c := n.canon(x); c != ssa.Value(x) {
				return n.Lin(c)
			}
		}
		if x.Op == token.SUB && n.tame(x.X, 0) && !unsigned(x.Type()) {
			return n.Lin(x.X).scale(-1)
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB:
			k := int64(1)
			if x.Op == token.SUB {
				k = -1
			}
			r := n.Lin(x.X).add(n.Lin(x.Y), k)
			if n.noWrap(x, r) {
				return r
			}
		case token.MUL:
			a, b := n.Lin(x.X), n.Lin(x.Y)
			if len(a.t) != 0 {
				a, b = b, a
			}
			if len(a.t) == 0 && a.c < 1<<12 && a.c > -(1<<12) {
				r := b.scale(a.c)
				if n.noWrap(x, r) {
					return r
				}
			}
		case token.SHL:
			if c, ok := x.Y.(*ssa.Const); ok {
				if k, ok := constant.Int64Val(constant.ToInt(c.Value)); ok && k < 12 {
					r := n.Lin(x.X).scale(1 << uint(k))
					if n.noWrap(x, r) {
						return r
					}
				}
			}
		}
		if c := n.sameBinOp(x); c != ssa.Value(x) {
			return n.Lin(c)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return n.Len(x.Call.Args[0])
		}
	}
	return n.self(v)
}

// sameBinOp: an equal operation on equal operands that dominates x stands for x.
func (n *Num) sameBinOp(x *ssa.BinOp) ssa.Value {
	lx, ly := n.str(n.Lin(x.X)), n.str(n.Lin(x.Y))
	best := ssa.Value(x)
	for _, b := range x.Parent().Blocks {
		if !b.Dominates(x.Block()) {
			continue
		}
		for _, ins := range b.Instrs {
			if ins == ssa.Instruction(x) {
				return best
			}
			y, ok := ins.(*ssa.BinOp)
			if !ok || y.Op != x.Op || !types.Identical(y.Type(), x.Type()) || !isInt(y.X.Type()) {
				continue
			}
			if n.str(n.Lin(y.X)) == lx && n.str(n.Lin(y.Y)) == ly {
				return y
			}
		}
	}
	return best
}

// noWrap: the exact result r of x stays within the type of x.
func (n *Num) noWrap(x *ssa.BinOp, r lin) bool {
	if n.ideal {
		return true
	}
	lo, hi, ok := intRange(x.Type())
	if ok {
		return n.proveAt(r.minus(lo), x, 3) && n.proveAt(konst(hi).add(r, -1), x, 3)
	}
	if unsigned(x.Type()) {
		if !n.proveAt(r, x, 3) {
			return false
		}
	}
	return n.bounded(x.X, x) && n.bounded(x.Y, x)
}

// bounded: the value is tame, or shown to lie between tame values at this point.
func (n *Num) bounded(v ssa.Value, at ssa.Instruction) bool {
	if n.tame(v, 0) {
		return true
	}
	l := n.Lin(v)
	tame := true
	for a := range l.t {
		if !a.len && !n.tame(a.v, 0) {
			tame = false
		}
	}
	if tame {
		return true
	}
	return n.proveAt(l.add(konst(big), 1), at, 4) && n.proveAt(konst(big).add(l, -1), at, 4)
}

func (n *Num) within(v ssa.Value, lo, hi int64, at ssa.Instruction) bool {
	if hi >= big && lo >= -big && n.tame(v, 0) {
		return lo < 0 || n.proveAt(n.Lin(v).minus(lo), at, 4)
	}
	l := n.Lin(v)
	return n.proveAt(l.minus(lo), at, 4) && n.proveAt(konst(hi).add(l, -1), at, 4)
}

// Len is the linear form of the length of a slice, string, array or map value.
func (n *Num) Len(v ssa.Value) lin {
	if l, ok := n.lenM[v]; ok {
		return l
	}
	n.lenM[v] = lin{t: map[atom]int64{{v: v, len: true}: 1}} // during recursion
	l := n.len1(v)
	n.lenM[v] = l
	return l
}

func arrayLen(t types.Type) (int64, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	a, ok := t.Underlying().(*types.Array)
	if !ok {
		return 0, false
	}
	return a.Len(), true
}

func (n *Num) len1(v ssa.Value) lin {
	if k, ok := arrayLen(v.Type()); ok {
		return konst(k)
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return konst(0)
		}
		if x.Value.Kind() == constant.String {
			return konst(int64(len(constant.StringVal(x.Value))))
		}
	case *ssa.ChangeType:
		return n.Len(x.X)
	case *ssa.Convert:
		if byteish(x.X.Type()) && byteish(x.Type()) {
			return n.Len(x.X)
		}
	case *ssa.Slice:
		lo := konst(0)
		if x.Low != nil {
			lo = n.Lin(x.Low)
		}
		hi := lin{}
		if x.High != nil {
			hi = n.Lin(x.High)
		} else {
			hi = n.Len(x.X)
		}
		return hi.add(lo, -1)
	case *ssa.MakeSlice:
		return n.Lin(x.Len)
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return n.Len(x.X).add(n.Len(x.Y), 1)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 {
			return n.Len(x.Call.Args[0]).add(n.Len(x.Call.Args[1]), 1)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if c := n.canon(x); c != ssa.Value(x) {
				return n.Len(c)
			}
			if g, ok := x.X.(*ssa.Global); ok {
				if k, ok := n.globalLen(g); ok {
					return konst(k)
				}
			}
		}
	}
	return lin{t: map[atom]int64{{v: v, len: true}: 1}}
}

// globalLen: a package variable that is set once, to a slice of known length.
func (n *Num) globalLen(g *ssa.Global) (int64, bool) {
	n.scanStores()
	ss := storesOf["global "+g.String()]
	if len(ss) != 1 || ss[0].Parent().Name() != "init" {
		return 0, false
	}
	l := n.Len(ss[0].Val)
	return l.c, len(l.t) == 0
}

func byteish(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

// ---- loads

// canon is an earlier load or the stored value that a load must equal.
func (n *Num) canon(x *ssa.UnOp) ssa.Value {
	if c, ok := n.canonM[x]; ok {
		return c
	}
	if n.canonRun == nil {
		n.canonRun, n.canonDep = map[ssa.Value]bool{}, map[ssa.Value][]ssa.Value{}
		n.canonPlain = map[ssa.Value]bool{}
	}
	n.canonM[x] = x
	n.canonRun[x] = true
	start := len(n.canonLog)
	c := n.canon1(x)
	if c == ssa.Value(x) {
		c = n.sameVersion(x)
	}
	delete(n.canonRun, x)
	n.canonM[x] = c
	// loads further round a loop took this one to have the value they found elsewhere
	for _, d := range n.canonDep[x] {
		if r := n.canonM[d]; r != d && r != c && r != x {
			for _, l := range n.canonLog[start:] {
				delete(n.canonM, l)
				n.canonPlain[l] = true
			}
			n.canonPlain[x] = true
			n.canonM[x] = x
			if c = n.canon1(x); c == ssa.Value(x) {
				c = n.sameVersion(x)
			}
			n.canonM[x] = c
			break
		}
	}
	delete(n.canonDep, x)
	for _, l := range n.canonLog[start:] {
		if n.canonM[l] == ssa.Value(x) {
			n.canonM[l] = c
		}
	}
	n.canonLog = append(n.canonLog, x)
	return c
}

func (n *Num) sameAddr(a, b ssa.Value, d int) bool {
	if a == b {
		return true
	}
	if d > 5 {
		return false
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && types.Identical(x.X.Type(), y.X.Type()) && n.sameAddr(x.X, y.X, d+1)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		if !ok || x.Op != token.MUL || y.Op != token.MUL {
			return false
		}
		cx, cy := n.canon(x), n.canon(y)
		return cx == cy && (cx != ssa.Value(x) || cy != ssa.Value(y) || x == y)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && n.sameVal(x.X, y.X) && n.str(n.Lin(x.Index)) == n.str(n.Lin(y.Index))
	}
	return false
}

func (n *Num) sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL {
		return n.canon(x) == n.canon(y)
	}
	if ok1 && x.Op == token.MUL {
		return n.canon(x) == b
	}
	if ok2 && y.Op == token.MUL {
		return n.canon(y) == a
	}
	return false
}

// canon1 walks backwards from the load; all paths must reach one and the same defining load or store unharmed.
func (n *Num) canon1(x *ssa.UnOp) ssa.Value {
	key := locKey(x.X)
	if ia, ok := x.X.(*ssa.IndexAddr); ok {
		key = "elem " + ia.Type().String()
	}
	if key == "" {
		return x
	}
	type at struct {
		b *ssa.BasicBlock
		i int
	}
	var found, open ssa.Value
	ok := true
	seen := map[*ssa.BasicBlock]bool{}
	var work []at
	idx := -1
	for i, ins := range x.Block().Instrs {
		if ins == ssa.Instruction(x) {
			idx = i
		}
	}
	work = append(work, at{x.Block(), idx - 1})
	for len(work) > 0 && ok {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		hit := false
		for i := w.i; i >= 0 && ok; i-- {
			ins := w.b.Instrs[i]
			switch y := ins.(type) {
			case *ssa.UnOp:
				if y.Op == token.MUL && y != x && locOf(y.X) == key && types.Identical(y.Type(), x.Type()) && n.sameAddr(y.X, x.X, 0) {
					if n.canonRun[y] && !n.canonPlain[x] && !n.canonPlain[y] {
						n.canonDep[y] = append(n.canonDep[y], x)
						hit, open = true, y
						break
					}
					v := n.canon(y)
					if v == ssa.Value(x) {
						hit = true
						break
					}
					if n.canonRun[v] && !n.canonPlain[x] && !n.canonPlain[v] {
						n.canonDep[v] = append(n.canonDep[v], x)
						hit, open = true, v
						break
					}
					if found != nil && found != v {
						ok = false
					}
					found = v
					hit = true
				} else if y == x { // came round a loop
					hit = true
				}
			case *ssa.Store:
				if locOf(y.Addr) == key {
					if n.sameAddr(y.Addr, x.X, 0) && found == nil {
						found, hit = y.Val, true
					} else if n.sameAddr(y.Addr, x.X, 0) && found == y.Val {
						hit = true
					} else {
						ok = false
					}
				} else if k := locOf(y.Addr); k == "" && !strings.HasPrefix(key, "alloc ") {
					if types.Identical(y.Val.Type(), x.Type()) || isStruct(y.Val.Type()) {
						ok = false
					}
				} else if isStruct(y.Val.Type()) && !strings.HasPrefix(key, "elem ") {
					if fa, isF := x.X.(*ssa.FieldAddr); isF && fa.X == y.Addr {
						ok = false
					} else if !isF {
						break
					} else if types.Identical(y.Addr.Type(), fa.X.Type()) {
						ok = false
					}
				}
			case ssa.CallInstruction:
				if n.mayWrite(y, key, x.X) {
					ok = false
				}
			case *ssa.Alloc:
				if ssa.Value(y) == x.X || rootAddr(x.X) == ssa.Value(y) {
					ok = false // zero value
				}
			}
			if hit || !ok {
				break
			}
		}
		if hit || !ok {
			continue
		}
		if len(w.b.Preds) == 0 {
			ok = false
			break
		}
		for _, p := range w.b.Preds {
			if !seen[p] {
				seen[p] = true
				work = append(work, at{p, len(p.Instrs) - 1})
			}
		}
	}
	if ok && found == nil {
		found = open
	}
	if !ok || found == nil {
		return x
	}
	// the value must be one that is still the same when the load is executed
	if ins, isIns := found.(ssa.Instruction); isIns {
		if ins.Block() == nil || !ins.Block().Dominates(x.Block()) {
			return x
		}
		// a value of an earlier iteration is not the value of this one
		if h := n.innermost(ins.Block()); h != nil {
			if !n.loop(h)[x.Block()] {
				return x
			}
		}
		if ins.Block() == x.Block() && !before(ins, x) {
			return x
		}
	}
	return found
}

// harms: instruction ins may change what the load x reads.
func (n *Num) harms(ins ssa.Instruction, x *ssa.UnOp, key string) bool {
	switch y := ins.(type) {
	case *ssa.Store:
		if locOf(y.Addr) == key {
			return true
		} else if k := locOf(y.Addr); k == "" && !strings.HasPrefix(key, "alloc ") {
			return types.Identical(y.Val.Type(), x.Type()) || isStruct(y.Val.Type())
		} else if isStruct(y.Val.Type()) && !strings.HasPrefix(key, "elem ") {
			fa, isF := x.X.(*ssa.FieldAddr)
			return isF && (fa.X == y.Addr || types.Identical(y.Addr.Type(), fa.X.Type()))
		}
	case ssa.CallInstruction:
		return n.mayWrite(y, key, x.X)
	case *ssa.Alloc:
		return ssa.Value(y) == x.X || rootAddr(x.X) == ssa.Value(y)
	}
	return false
}

// version is the one instruction all ways to the load x come from without anything that changes what it reads
// (nil: the start of the function).
func (n *Num) version(x *ssa.UnOp) (ssa.Instruction, bool) {
	if v, ok := n.versions[x]; ok {
		return v.ins, v.ok
	}
	if n.versions == nil {
		n.versions = map[*ssa.UnOp]version{}
	}
	key := locKey(x.X)
	if ia, ok := x.X.(*ssa.IndexAddr); ok {
		key = "elem " + ia.Type().String()
	}
	r := version{}
	defer func() { n.versions[x] = r }()
	if key == "" {
		return nil, false
	}
	first := true
	put := func(ins ssa.Instruction) bool {
		if first {
			first, r.ins = false, ins
			return true
		}
		return r.ins == ins
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i >= 0; i-- {
			if ins := b.Instrs[i]; n.harms(ins, x, key) {
				return put(ins)
			}
		}
		if len(b.Preds) == 0 {
			return b == b.Parent().Blocks[0] && put(nil)
		}
		for _, p := range b.Preds {
			if !seen[p] {
				seen[p] = true
				if !walk(p, len(p.Instrs)-1) {
					return false
				}
			}
		}
		return true
	}
	idx := -1
	for i, ins := range x.Block().Instrs {
		if ins == ssa.Instruction(x) {
			idx = i
		}
	}
	r.ok = walk(x.Block(), idx-1) && !first
	return r.ins, r.ok
}

type version struct {
	ins ssa.Instruction
	ok  bool
}

// sameVersion finds the first load in the function that reads the same memory in the same state.
// It need not come before x on every way: both stand for the value after the version instruction.
func (n *Num) sameVersion(x *ssa.UnOp) ssa.Value {
	if n.canonPlain[x] {
		return x
	}
	v, ok := n.version(x)
	if !ok {
		return x
	}
	if !n.stableAddr(x.X, v, 0) {
		return x
	}
	for _, b := range x.Parent().Blocks {
		for _, ins := range b.Instrs {
			y, ok := ins.(*ssa.UnOp)
			if !ok || y.Op != token.MUL {
				continue
			}
			if y == x {
				return x
			}
			if n.canonRun[y] || !types.Identical(y.Type(), x.Type()) || !n.sameAddr(y.X, x.X, 0) {
				continue
			}
			if w, ok := n.version(y); !ok || w != v {
				continue
			}
			if c := n.canon(y); !n.canonRun[c] {
				return c
			}
		}
	}
	return x
}

// stableAddr: the address is made from parameters, globals and values computed once before the version.
func (n *Num) stableAddr(a ssa.Value, v ssa.Instruction, d int) bool {
	if d > 5 {
		return false
	}
	switch x := a.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return true
	case *ssa.FieldAddr:
		return n.stableAddr(x.X, v, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			w, ok := n.version(x)
			if ok && (w == nil || w == v || v != nil && (w.Block() != v.Block() && w.Block().Dominates(v.Block()) || w.Block() == v.Block() && before(w, v))) {
				return n.stableAddr(x.X, v, d+1)
			}
		}
	}
	if ins, ok := a.(ssa.Instruction); ok && v != nil {
		return ins == v || ins.Block() != v.Block() && ins.Block().Dominates(v.Block()) || ins.Block() == v.Block() && before(ins, v)
	}
	return false
}

func before(a, b ssa.Instruction) bool {
	for _, ins := range a.Block().Instrs {
		if ins == a {
			return true
		}
		if ins == b {
			return false
		}
	}
	return false
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func locOf(a ssa.Value) string {
	if ia, ok := a.(*ssa.IndexAddr); ok {
		return "elem " + ia.Type().String()
	}
	return locKey(a)
}

func rootAddr(a ssa.Value) ssa.Value {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		default:
			return a
		}
	}
}

// mayWrite: can the call change the memory named key?
func (n *Num) mayWrite(c ssa.CallInstruction, key string, addr ssa.Value) bool {
	com := c.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "append":
			return strings.HasPrefix(key, "elem ")
		}
		return false
	}
	// addresses handed to the call
	root := rootAddr(addr)
	for _, a := range com.Args {
		if a == addr || rootAddr(a) == root && isPtr(a.Type()) && !n.staticMod(c) {
			return true
		}
		if mi, ok := a.(*ssa.MakeInterface); ok && (mi.X == addr || rootAddr(mi.X) == root && isPtr(mi.X.Type())) {
			return true
		}
	}
	if va := com.Args; len(va) > 0 {
		if vals, ok := variadic(va[len(va)-1]); ok && len(vals) > 0 {
			for _, v := range vals {
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				if v != nil && (v == addr || rootAddr(v) == root && isPtr(v.Type())) {
					return true
				}
			}
		}
	}
	for _, t := range n.p.Callees(c) {
		if n.writesOf(t)[key] {
			return true
		}
	}
	if strings.HasPrefix(key, "elem ") {
		// library functions that fill slices
		if f := com.StaticCallee(); f != nil && !n.p.inMod[f] {
			switch calleeFullName(c) {
			case "io.ReadFull", "crypto/rand.Read", "sort.Slice", "sort.Ints", "sort.Strings", "sort.SliceStable":
				return true
			}
		}
	}
	if com.StaticCallee() == nil && !com.IsInvoke() && len(n.p.Callees(c)) == 0 {
		return true // unknown function value
	}
	return false
}

func (n *Num) staticMod(c ssa.CallInstruction) bool {
	f := c.Common().StaticCallee()
	return f != nil && n.p.inMod[f]
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// writesOf: memory a function or what it calls may write.
func (n *Num) writesOf(f *ssa.Function) map[string]bool {
	if n.writes == nil {
		n.writes = map[*ssa.Function]map[string]bool{}
		for _, g := range n.p.All {
			m := map[string]bool{}
			n.writes[g] = m
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.Store:
						if k := locOf(x.Addr); k != "" {
							m[k] = true
						}
						if isStruct(x.Val.Type()) {
							st := x.Val.Type().Underlying().(*types.Struct)
							for i := 0; i < st.NumFields(); i++ {
								m[fieldKey(x.Val.Type(), i)] = true
							}
						}
					case ssa.CallInstruction:
						if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "copy" {
							m["elem *"+elemOf(x.Common().Args[0].Type())] = true
						}
					}
				}
			}
		}
		for changed := true; changed; {
			changed = false
			for _, g := range n.p.All {
				m := n.writes[g]
				for _, b := range g.Blocks {
					for _, ins := range b.Instrs {
						c, ok := ins.(ssa.CallInstruction)
						if !ok {
							continue
						}
						for _, t := range n.p.Callees(c) {
							for k := range n.writes[t] {
								if !m[k] {
									m[k] = true
									changed = true
								}
							}
						}
					}
				}
			}
		}
	}
	return n.writes[f]
}

func elemOf(t types.Type) string {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem().String()
	}
	return "?"
}

// ---- loops

func (n *Num) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := n.loops[f]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			body := l[s]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{s: true}
				l[s] = body
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if body[x] {
					continue
				}
				body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	n.loops[f] = l
	return l
}

// loop is the body of the loop with head h.
func (n *Num) loop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool { return n.loopsOf(h.Parent())[h] }

// innermost is the head of the innermost loop around b, or nil.
func (n *Num) innermost(b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	for h, body := range n.loopsOf(b.Parent()) {
		if body[b] && (best == nil || len(body) < len(n.loop(best))) {
			best = h
		}
	}
	return best
}

// ---- facts

// factsAt is what holds just before instruction i of block b (i = len: at its end, before the branch).
func (n *Num) factsAt(b *ssa.BasicBlock, i int) *facts {
	key := factKey{b, i}
	if f, ok := n.factsM[key]; ok {
		return f
	}
	f := &facts{nils: map[ssa.Value]int{}}
	n.factsM[key] = f
	if id := b.Idom(); id != nil {
		up := n.factsAt(id, len(id.Instrs))
		if !up.strong {
			n.newProof(up, id, nil, 1)
		}
		f.list = append(f.list, up.list...)
		if up.strong {
			f.extra = append(f.extra, up.extra...)
			f.sharp = map[int]bool{}
			for k := range up.sharp {
				f.sharp[k] = true
			}
		}
		for k, v := range up.nils {
			f.nils[k] = v
		}
		if len(b.Preds) == 1 && b.Preds[0] == id {
			if iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok && id.Succs[0] != id.Succs[1] {
				n.assume(f, iff.Cond, id.Succs[0] == b, 0)
			}
		}
	}
	for k := 0; k < i && k < len(b.Instrs); k++ {
		n.survived(f, b.Instrs[k])
	}
	return f
}

func (f *facts) ge(l lin) { f.list = append(f.list, fact{l: l}) }

// survived adds what must hold after an instruction that did not panic.
func (n *Num) survived(f *facts, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.IndexAddr:
		i := n.Lin(x.Index)
		f.ge(i)
		f.ge(n.Len(x.X).add(i, -1).minus(1))
	case *ssa.Index:
		i := n.Lin(x.Index)
		f.ge(i)
		f.ge(n.Len(x.X).add(i, -1).minus(1))
	case *ssa.Lookup:
		if !isMap(x.X.Type()) {
			i := n.Lin(x.Index)
			f.ge(i)
			f.ge(n.Len(x.X).add(i, -1).minus(1))
		}
	case *ssa.Slice:
		lo := konst(0)
		if x.Low != nil {
			lo = n.Lin(x.Low)
			f.ge(lo)
		}
		if x.High != nil {
			hi := n.Lin(x.High)
			f.ge(hi.add(lo, -1))
			if isString(x.X.Type()) || n.fullCap(x.X) {
				f.ge(n.Len(x.X).add(hi, -1))
			}
		} else {
			f.ge(n.Len(x.X).add(lo, -1))
		}
	}
}

func isMap(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// fullCap: arrays, whose capacity is their length.
func (n *Num) fullCap(v ssa.Value) bool {
	_, ok := arrayLen(v.Type())
	return ok
}

func (n *Num) assume(f *facts, cond ssa.Value, val bool, d int) {
	if d > 8 {
		return
	}
	if val {
		f.nils[cond] = 1
	} else {
		f.nils[cond] = -1
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			n.assume(f, x.X, !val, d+1)
		} else if x.Op == token.MUL {
			if c := n.canon(x); c != ssa.Value(x) {
				n.assume(f, c, val, d+1)
			}
		}
	case *ssa.Phi:
		// a && b, a || b kept in a variable: all edges but one are the constant that did not come out
		var other ssa.Value
		var from *ssa.BasicBlock
		cnt := 0
		for i, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != val {
				continue
			}
			cnt++
			other, from = e, x.Block().Preds[i]
		}
		if cnt == 1 {
			for _, h := range n.loopHeads(x.Block()) {
				if h == x.Block() {
					return
				}
			}
			n.assume(f, other, val, d+1)
			n.edgeFacts(f, from, x.Block())
			up := n.factsAt(from, len(from.Instrs))
			f.list = append(f.list, up.list...)
			for k, v := range up.nils {
				f.nils[k] = v
			}
		}
	case *ssa.Call:
		n.assumeCall(f, x, val)
	case *ssa.BinOp:
		op := x.Op
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		default:
			return
		}
		if !val {
			op = negate(op)
		}
		if isInt(x.X.Type()) {
			a, b := n.Lin(x.X), n.Lin(x.Y)
			n.compare(f, op, a, b)
			return
		}
		// comparisons with nil, booleans and strings
		y := x.Y
		xx := x.X
		if _, ok := xx.(*ssa.Const); ok {
			xx, y = y, xx
		}
		c, ok := y.(*ssa.Const)
		if !ok {
			if isString(xx.Type()) && op == token.EQL {
				n.compare(f, token.EQL, n.Len(xx), n.Len(y))
			}
			return
		}
		if c.Value == nil {
			t := 0
			if op == token.EQL {
				t = -1
			} else if op == token.NEQ {
				t = 1
			}
			f.nils[xx] = t
			if u, ok := xx.(*ssa.UnOp); ok && u.Op == token.MUL {
				f.nils[n.canon(u)] = t
			}
			if t == -1 && lengthy(xx.Type()) {
				n.compare(f, token.EQL, n.Len(xx), konst(0))
			}
			return
		}
		if c.Value.Kind() == constant.String && lengthy(xx.Type()) {
			s := constant.StringVal(c.Value)
			if op == token.EQL {
				n.compare(f, token.EQL, n.Len(xx), konst(int64(len(s))))
			} else if op == token.NEQ && s == "" {
				f.ge(n.Len(xx).minus(1))
			}
		}
		if c.Value.Kind() == constant.Bool && (op == token.EQL || op == token.NEQ) {
			n.assume(f, xx, constant.BoolVal(c.Value) == (op == token.EQL), d+1)
		}
	}
}

func (n *Num) loopHeads(b *ssa.BasicBlock) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for h, body := range n.loopsOf(b.Parent()) {
		if body[b] {
			out = append(out, h)
		}
	}
	return out
}

func lengthy(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

func negate(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	}
	return op
}

func (n *Num) compare(f *facts, op token.Token, a, b lin) {
	d := b.add(a, -1) // b - a
	switch op {
	case token.LSS:
		f.ge(d.minus(1))
	case token.LEQ:
		f.ge(d)
	case token.GTR:
		f.ge(d.scale(-1).minus(1))
	case token.GEQ:
		f.ge(d.scale(-1))
	case token.EQL:
		f.ge(d)
		f.ge(d.scale(-1))
	case token.NEQ:
		f.list = append(f.list, fact{l: d, ne: true})
	}
}

// assumeCall: predicates whose result says something about lengths.
func (n *Num) assumeCall(f *facts, c *ssa.Call, val bool) {
	args := c.Call.Args
	switch calleeFullName(c) {
	case "bytes.HasPrefix", "strings.HasPrefix", "bytes.HasSuffix", "strings.HasSuffix", "bytes.Contains", "strings.Contains":
		if val {
			f.ge(n.Len(args[0]).add(n.Len(args[1]), -1))
		}
	case "bytes.Equal", "strings.EqualFold":
		if val && calleeFullName(c) == "bytes.Equal" {
			n.compare(f, token.EQL, n.Len(args[0]), n.Len(args[1]))
		}
	default:
		// a predicate of the module: one comparison of its parameters
		g := c.Call.StaticCallee()
		if g == nil || !n.p.inMod[g] || len(g.Blocks) != 1 {
			return
		}
		ret, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			return
		}
		b, ok := ret.Results[0].(*ssa.BinOp)
		if !ok || !isInt(b.X.Type()) {
			return
		}
		x, ok1 := n.toCaller(n.Lin(b.X), c, g)
		y, ok2 := n.toCaller(n.Lin(b.Y), c, g)
		if !ok1 || !ok2 {
			return
		}
		op := b.Op
		if !val {
			op = negate(op)
		}
		n.compare(f, op, x, y)
	}
}

// toCaller rewrites a form over the parameters of g in terms of the arguments of call c.
func (n *Num) toCaller(l lin, c ssa.CallInstruction, g *ssa.Function) (lin, bool) {
	r := konst(l.c)
	for a, k := range l.t {
		pr, ok := a.v.(*ssa.Parameter)
		field := false
		if !ok {
			pr, field = n.fixedField(a.v)
			ok = field
		}
		if !ok || pr.Parent() != g {
			return r, false
		}
		arg := argFor(c, g, paramIndex(pr))
		if arg == nil {
			return r, false
		}
		if field {
			if arg = n.loadIn(c.Parent(), arg, a.v.(*ssa.UnOp).X.(*ssa.FieldAddr)); arg == nil {
				return r, false
			}
		}
		if a.len {
			r = r.add(n.Len(arg), k)
		} else {
			r = r.add(n.Lin(arg), k)
		}
	}
	return r, true
}

// edgeFacts adds what the branch at the end of from says when control goes to to.
func (n *Num) edgeFacts(f *facts, from, to *ssa.BasicBlock) {
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return
	}
	n.assume(f, iff.Cond, from.Succs[0] == to, 0)
}

// ---- proofs

type proof struct {
	n     *Num
	f     *facts
	hyps  []lin
	block *ssa.BasicBlock
	index map[atom][]lin
	split int
	seen  map[string]int
	subs  map[string]int
	steps int
	dead  bool
}

func (n *Num) proveAt(goal lin, at ssa.Instruction, depth int) bool {
	b := at.Block()
	i := 0
	for k, ins := range b.Instrs {
		if ins == at {
			i = k
		}
	}
	split := 2
	if depth >= 7 {
		split = 3
	}
	return n.prove(goal, b, i, nil, depth, split)
}

// Prove shows goal >= 0 just before instruction at.
func (n *Num) Prove(goal lin, at ssa.Instruction) bool {
	n.work, n.limit = 0, 100000
	for _, d := range []int{2, 4, 7} {
		n.limit = n.work + 400000
		if n.proveAt(goal, at, d) {
			return true
		}
	}
	return false
}

func (n *Num) prove(goal lin, b *ssa.BasicBlock, i int, hyps []lin, depth, split int) bool {
	if len(goal.t) == 0 && goal.c >= 0 {
		return true
	}
	if n.nest > 25 {
		return false
	}
	n.nest++
	defer func() { n.nest-- }()
	return n.newProof(n.factsAt(b, i), b, hyps, split).show(goal, depth)
}

func (n *Num) newProof(f *facts, b *ssa.BasicBlock, hyps []lin, split int) *proof {
	pr := &proof{n: n, f: f, hyps: hyps, block: b, split: split, seen: map[string]int{}}
	pr.build()
	return pr
}

func (pr *proof) build() {
	pr.index = map[atom][]lin{}
	put := func(l lin) {
		if len(l.t) == 0 && l.c < 0 {
			pr.dead = true
		}
		for a := range l.t {
			pr.index[a] = append(pr.index[a], l)
		}
	}
	for _, f := range pr.f.list {
		if !f.ne {
			put(f.l)
		} else if len(f.l.t) == 0 && f.l.c == 0 {
			pr.dead = true
		}
	}
	for _, h := range pr.hyps {
		put(h)
	}
	// x != c together with x >= c
	for _, l := range pr.f.extra {
		put(l)
	}
	sharpen := true
	if len(pr.hyps) == 0 {
		sharpen = !pr.f.strong
		pr.f.strong = true
	}
	work, limit := pr.n.work, pr.n.limit
	for round := 0; round < 2 && sharpen; round++ {
		grew := false
		for i, f := range pr.f.list {
			if !f.ne || len(f.l.t) == 0 || pr.f.sharp[i] {
				continue
			}
			pr.n.limit = pr.n.work + 3000
			var l lin
			low := pr.show(f.l, 3)
			pr.n.limit = pr.n.work + 3000
			if low {
				l = f.l.minus(1)
			} else if pr.show(f.l.scale(-1), 3) {
				l = f.l.scale(-1).minus(1)
			} else {
				pr.seen = map[string]int{}
				continue
			}
			put(l)
			grew = true
			if len(pr.hyps) == 0 {
				pr.f.extra = append(pr.f.extra, l)
				if pr.f.sharp == nil {
					pr.f.sharp = map[int]bool{}
				}
				pr.f.sharp[i] = true
			}
			pr.seen = map[string]int{}
		}
		if !grew {
			break
		}
	}
	// multiples: a loop that counts in steps of m and a length that is a multiple of m
	for _, f := range pr.f.list {
		if !f.ne {
			if l, ok := pr.tighten(f.l); ok {
				put(l)
			}
		}
	}
	pr.subs = nil
	pr.steps = 0
	pr.n.work, pr.n.limit = work, limit
}

// show: goal >= 0?
func (pr *proof) show(goal lin, depth int) bool {
	if pr.dead {
		return true
	}
	if len(goal.t) == 0 {
		return goal.c >= 0
	}
	if depth <= 0 || pr.steps > 30000 || len(goal.t) > 6 || pr.n.work > pr.n.limit {
		return false
	}
	pr.steps++
	pr.n.work++
	key := pr.n.str(goal)
	if d, ok := pr.seen[key]; ok && d >= depth {
		return false
	}
	pr.seen[key] = depth
	// parameters only: ask the callers first
	if depth == 2 && pr.n.nest <= 1 && pr.n.callersShow(goal) {
		return true
	}
	// pick the atom that is hardest to bound: opaque ones before lengths
	atoms := make([]atom, 0, len(goal.t))
	for a := range goal.t {
		atoms = append(atoms, a)
	}
	sort.Slice(atoms, func(i, j int) bool {
		x, y := atoms[i], atoms[j]
		ix, iy := pr.rank(x, goal.t[x]), pr.rank(y, goal.t[y])
		if ix != iy {
			return ix < iy
		}
		return pr.n.id(x.v) < pr.n.id(y.v)
	})
	for _, a := range atoms {
		k := goal.t[a]
		for _, l := range pr.bounds(a, k, depth) {
			// goal = k*a + R ; l = m*a + S >= 0 with m of the sign of k:  k*a >= -(k/m)*S
			m := l.t[a]
			if m == 0 || (m > 0) != (k > 0) {
				continue
			}
			g := goal
			if k%m == 0 {
				g = goal.add(l, -k/m)
			} else {
				am := m
				if am < 0 {
					am = -am
				}
				ak := k
				if ak < 0 {
					ak = -ak
				}
				g = goal.scale(am).add(l, -ak)
			}
			if pr.show(g, depth-1) {
				return true
			}
		}
	}
	// the smallest or largest of several is one of them
	for _, a := range atoms {
		c, ok := a.v.(*ssa.Call)
		if !ok || a.len {
			continue
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		if !ok || !(b.Name() == "min" && goal.t[a] > 0 || b.Name() == "max" && goal.t[a] < 0) {
			continue
		}
		all := true
		for _, arg := range c.Call.Args {
			g := goal.add(lin{t: map[atom]int64{a: 1}}, -goal.t[a]).add(pr.n.Lin(arg), goal.t[a])
			if !pr.show(g, depth-1) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	// induction and case distinction
	for _, a := range atoms {
		phi, ok := a.v.(*ssa.Phi)
		if !ok {
			continue
		}
		if isLoopHead(phi.Block()) {
			if pr.n.inductive(goal, phi.Block(), pr) {
				return true
			}
		} else if pr.split > 0 && depth >= 2 {
			if pr.cases(goal, phi.Block()) {
				return true
			}
		}
	}
	// parameters: ask the callers
	if pr.n.callersShow(goal) {
		return true
	}
	return false
}

func (pr *proof) rank(a atom, k int64) int {
	switch a.v.(type) {
	case *ssa.Parameter, *ssa.Const:
		return 3
	}
	if a.len {
		if k > 0 {
			return 4
		}
		return 2
	}
	return 1
}

// bounds: facts that bound k*a from below.
func (pr *proof) bounds(a atom, k int64, depth int) []lin {
	var out []lin
	for _, l := range pr.index[a] {
		if m := l.t[a]; (m > 0) == (k > 0) {
			out = append(out, l)
		}
	}
	for _, l := range pr.n.known(a, pr, depth) {
		if m := l.t[a]; m != 0 && (m > 0) == (k > 0) {
			out = append(out, l)
		}
	}
	return out
}

// cases splits on the way control came into block b.
func (pr *proof) cases(goal lin, b *ssa.BasicBlock) bool {
	n := pr.n
	if b.Parent() != pr.block.Parent() || !b.Dominates(pr.block) || n.nest > 25 {
		return false
	}
	n.nest++
	defer func() { n.nest-- }()
	for i, p := range b.Preds {
		sub := func(l lin) (lin, bool) {
			r := konst(l.c)
			hit := false
			for a, k := range l.t {
				phi, ok := a.v.(*ssa.Phi)
				if !ok || phi.Block() != b {
					r = r.add(lin{t: map[atom]int64{a: 1}}, k)
					continue
				}
				hit = true
				if a.len {
					r = r.add(n.Len(phi.Edges[i]), k)
				} else {
					r = r.add(n.Lin(phi.Edges[i]), k)
				}
			}
			return r, hit
		}
		up := n.factsAt(p, len(p.Instrs))
		f := &facts{nils: map[ssa.Value]int{}}
		f.list = append(f.list, up.list...)
		for k, v := range up.nils {
			f.nils[k] = v
		}
		n.edgeFacts(f, p, b)
		contradiction := false
		for v, t := range pr.f.nils {
			if phi, ok := v.(*ssa.Phi); ok && phi.Block() == b {
				e := phi.Edges[i]
				if c, isC := e.(*ssa.Const); isC {
					if c.Value == nil && t == 1 {
						contradiction = true
					} else if c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != (t == 1) {
						contradiction = true
					}
				} else if alwaysNonNil(e) && t == -1 {
					contradiction = true
				} else if old, ok := f.nils[e]; ok && old != t {
					contradiction = true
				} else {
					if isBoolType(e.Type()) {
						n.assume(f, e, t == 1, 0)
					} else {
						f.nils[e] = t
					}
				}
				continue
			}
			if _, ok := f.nils[v]; !ok {
				f.nils[v] = t
			} else if f.nils[v] != t {
				contradiction = true
			}
		}
		if contradiction {
			continue
		}
		for _, x := range pr.f.list {
			l, _ := sub(x.l)
			f.list = append(f.list, fact{l: l, ne: x.ne})
		}
		var hyps []lin
		for _, h := range pr.hyps {
			l, _ := sub(h)
			hyps = append(hyps, l)
		}
		g, _ := sub(goal)
		q := n.newProof(f, p, hyps, pr.split-1)
		if !q.show(g, 2) && !q.show(g, 4) && !q.show(g, 6) {
			return false
		}
	}
	return true
}

// inductive: goal holds whenever control is at the loop head h.
func (n *Num) inductive(goal lin, h *ssa.BasicBlock, from *proof) bool {
	if from != nil && (h.Parent() != from.block.Parent() || !h.Dominates(from.block)) {
		return false
	}
	body := n.loop(h)
	for a := range goal.t {
		if phi, ok := a.v.(*ssa.Phi); ok && phi.Block() == h {
			continue
		}
		if ins, ok := a.v.(ssa.Instruction); ok && ins.Block() != nil && body[ins.Block()] {
			return false
		}
	}
	key := itoa(n.id0(h)) + "|" + n.str(goal)
	if r, ok := n.induct[key]; ok {
		return r == 1
	}
	if n.nest > 25 {
		return false
	}
	n.nest++
	defer func() { n.nest-- }()
	n.induct[key] = 0 // not while it is being shown
	ok := true
	for i, p := range h.Preds {
		g := konst(goal.c)
		for a, k := range goal.t {
			phi, isPhi := a.v.(*ssa.Phi)
			switch {
			case isPhi && phi.Block() == h && a.len:
				g = g.add(n.Len(phi.Edges[i]), k)
			case isPhi && phi.Block() == h:
				g = g.add(n.Lin(phi.Edges[i]), k)
			default:
				g = g.add(lin{t: map[atom]int64{a: 1}}, k)
			}
		}
		up := n.factsAt(p, len(p.Instrs))
		f := &facts{nils: map[ssa.Value]int{}}
		f.list = append(f.list, up.list...)
		for k, v := range up.nils {
			f.nils[k] = v
		}
		n.edgeFacts(f, p, h)
		var hyps []lin
		if body[p] {
			hyps = []lin{goal}
		}
		if q := n.newProof(f, p, hyps, 2); !q.show(g, 2) && !q.show(g, 4) && !q.show(g, 6) {
			ok = false
			break
		}
	}
	if ok {
		n.induct[key] = 1
	} else {
		delete(n.induct, key)
		if n.work <= n.limit {
			n.induct[key] = -1
		}
	}
	return ok
}

var blockIDs = map[*ssa.BasicBlock]int{}

func (n *Num) id0(b *ssa.BasicBlock) int {
	if k, ok := blockIDs[b]; ok {
		return k
	}
	blockIDs[b] = len(blockIDs) + 1
	return blockIDs[b]
}

// callersShow: the goal speaks about parameters of an unexported function only and holds at all its calls.
func (n *Num) callersShow(goal lin) bool {
	var f *ssa.Function
	for a := range goal.t {
		pr, ok := a.v.(*ssa.Parameter)
		if !ok {
			pr, ok = n.fixedField(a.v)
		}
		if !ok || f != nil && pr.Parent() != f {
			return false
		}
		f = pr.Parent()
	}
	if f == nil || n.calls > 4 || exportedAPI(f) || n.p.addrUsed[f] || len(n.p.callers[f]) == 0 {
		return false
	}
	key := "callers|" + n.str(goal)
	if r, ok := n.induct[key]; ok {
		return r == 1
	}
	n.induct[key] = 1 // recursive calls may use it: least number of calls
	n.calls++
	ok := true
	for _, c := range n.p.callers[f] {
		g, fine := n.toCaller(goal, c, f)
		if !fine || !n.proveAt(g, c, 6) {
			ok = false
			break
		}
	}
	n.calls--
	if !ok {
		n.induct[key] = -1
	}
	return ok
}

// ---- what is known about single atoms

var tameResult = map[string]bool{}

func init() {
	for _, s := range strings.Fields(`bytes.Index bytes.IndexByte bytes.LastIndex bytes.IndexAny bytes.LastIndexByte bytes.Count bytes.IndexFunc bytes.LastIndexAny bytes.IndexRune
 strings.Index strings.IndexByte strings.LastIndex strings.IndexAny strings.LastIndexByte strings.Count strings.IndexFunc strings.IndexRune strings.LastIndexAny
 sort.Search sort.SearchInts sort.SearchStrings unicode/utf8.RuneLen unicode/utf8.RuneCountInString unicode/utf8.RuneCount unicode/utf8.DecodeRuneInString unicode/utf8.DecodeRune unicode/utf8.EncodeRune unicode/utf8.DecodeLastRuneInString
 (*bytes.Buffer).Len (*strings.Builder).Len (*bytes.Reader).Len (*strings.Reader).Len io.ReadFull (*bytes.Buffer).Write (*bytes.Buffer).WriteString (*regexp.Regexp).NumSubexp
 encoding/hex.DecodedLen encoding/hex.EncodedLen encoding/hex.Decode (time.Time).Year (time.Time).Day (time.Time).Hour (time.Time).Minute (time.Time).Second fmt.Sscanf fmt.Sscan fmt.Fprintf fmt.Fprint fmt.Fprintln`) {
		tameResult[s] = true
	}
}

// positions: the slice holds positions delivered by the regexp package.
func (n *Num) positions(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		name := calleeFullName(x)
		return strings.HasPrefix(name, "(*regexp.Regexp).Find") && strings.Contains(name, "Index")
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return n.positions(ia.X, d+1)
		}
	case *ssa.Slice:
		return n.positions(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value == nil {
				continue
			}
			if !n.positions(e, d+1) {
				return false
			}
		}
		return len(x.Edges) > 0
	}
	return false
}

// regexpOf is the constant pattern behind a *regexp.Regexp value.
func (n *Num) regexpOf(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Call:
		switch calleeFullName(x) {
		case "regexp.MustCompile", "regexp.Compile":
			s, _ := patternText(x.Call.Args[0])
			return s
		}
	case *ssa.Extract:
		return n.regexpOf(x.Tuple)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if c := n.canon(x); c != ssa.Value(x) {
				return n.regexpOf(c)
			}
			if g, ok := x.X.(*ssa.Global); ok {
				n.scanStores()
				ss := storesOf["global "+g.String()]
				if len(ss) == 1 {
					return n.regexpOf(ss[0].Val)
				}
			}
		}
	}
	return ""
}

// patternText is a pattern with its variable parts (numbers, quoted text) replaced by something harmless.
func patternText(v ssa.Value) (string, bool) {
	if s, ok := constString(v); ok {
		return s, true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		a, ok1 := patternText(x.X)
		b, ok2 := patternText(x.Y)
		return a + b, ok1 && ok2
	case *ssa.Call:
		switch calleeFullName(x) {
		case "regexp.QuoteMeta", "strconv.Itoa":
			return "x", true
		case "fmt.Sprintf":
			f, ok := constString(x.Call.Args[0])
			if !ok {
				return "", false
			}
			vals, ok := variadic(x.Call.Args[1])
			if !ok {
				return "", false
			}
			var sb strings.Builder
			k := 0
			for i := 0; i < len(f); i++ {
				if f[i] != '%' || i+1 >= len(f) {
					sb.WriteByte(f[i])
					continue
				}
				i++
				if f[i] == '%' {
					sb.WriteByte('%')
					continue
				}
				if k >= len(vals) {
					return "", false
				}
				val := vals[k]
				k++
				switch f[i] {
				case 'd':
					sb.WriteByte('1')
				case 's':
					if mi, ok := val.(*ssa.MakeInterface); ok {
						val = mi.X
					}
					s, ok := patternText(val)
					if !ok {
						return "", false
					}
					sb.WriteString(s)
				default:
					return "", false
				}
			}
			return sb.String(), true
		}
	}
	return "", false
}

// known lists facts about an atom that follow from what it is.
func (n *Num) known(a atom, pr *proof, depth int) []lin {
	self := lin{t: map[atom]int64{a: 1}}
	var out []lin
	ge := func(l lin) { out = append(out, l) }
	if a.len {
		ge(self)
		ge(konst(big).add(self, -1))
		n.knownLen(a.v, self, pr, ge)
		return out
	}
	if lo, hi, ok := intRange(a.v.Type()); ok {
		ge(self.minus(lo))
		ge(konst(hi).add(self, -1))
	} else if unsigned(a.v.Type()) {
		ge(self)
	}
	if n.tame(a.v, 0) && wide(a.v.Type()) {
		ge(self.add(konst(big), 1))
		ge(konst(big).add(self, -1))
	}
	switch x := a.v.(type) {
	case *ssa.Parameter:
		if fv := n.lessOf(x); fv != nil {
			// sort calls its comparison with positions in the slice
			ge(self)
			for _, r := range *fv.Referrers() {
				if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
					ge(n.Len(u).add(self, -1).minus(1))
					break
				}
			}
			if lengthy(fv.Type()) {
				ge(n.Len(fv).add(self, -1).minus(1))
			}
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			if t.IsString && x.Index == 1 {
				ge(self)
				if r, ok := t.Iter.(*ssa.Range); ok {
					ge(n.Len(r.X).add(self, -1).minus(1))
				}
			}
		case *ssa.Call:
			n.knownCall(t, x.Index, self, pr, depth, ge)
		}
	case *ssa.Call:
		n.knownCall(x, 0, self, pr, depth, ge)
	case *ssa.Convert, *ssa.ChangeType:
	case *ssa.BinOp:
		lx := n.Lin(x.X)
		switch x.Op {
		case token.REM:
			ly := n.Lin(x.Y)
			nonneg := unsigned(x.Type()) || pr.sub(lx, depth)
			if len(ly.t) == 0 && ly.c > 0 {
				ge(konst(ly.c-1).add(self, -1))
				if nonneg {
					ge(self)
				} else {
					ge(self.add(konst(ly.c-1), 1))
				}
			} else if nonneg && pr.sub(ly.minus(1), depth) {
				ge(self)
				ge(ly.add(self, -1).minus(1))
			}
			if nonneg {
				ge(lx.add(self, -1))
			}
		case token.AND:
			ly := n.Lin(x.Y)
			if len(lx.t) == 0 && lx.c >= 0 {
				lx, ly = ly, lx
			}
			if len(ly.t) == 0 && ly.c >= 0 {
				ge(self)
				ge(konst(ly.c).add(self, -1))
			}
		case token.SHR:
			if unsigned(x.Type()) || pr.sub(lx, depth) {
				ge(self)
				ge(lx.add(self, -1))
				if c, ok := x.Y.(*ssa.Const); ok {
					if k, ok := constant.Int64Val(constant.ToInt(c.Value)); ok && k < 40 {
						ge(lx.add(self, -(1 << uint(k))))
						if _, hi, ok := intRange(x.X.Type()); ok {
							ge(konst(hi>>uint(k)).add(self, -1))
						}
					}
				}
			}
		case token.QUO:
			ly := n.Lin(x.Y)
			if len(ly.t) == 0 && ly.c > 0 && (unsigned(x.Type()) || pr.sub(lx, depth)) {
				ge(self)
				ge(lx.add(self, -ly.c))                                // c*q <= x
				ge(self.scale(ly.c).add(lx, -1).add(konst(ly.c-1), 1)) // x <= c*q + c-1
			}
		case token.OR:
			if n.shortInt(x, 0) {
				ge(self)
				ge(konst(1<<32-1).add(self, -1))
			}
		case token.SHL:
			if n.shortInt(x, 0) {
				ge(self)
			}
		case token.MUL:
			ly := n.Lin(x.Y)
			if n.tame(x, 0) && n.proveAt(lx, x, 3) && n.proveAt(ly, x, 3) {
				ge(self)
				if n.proveAt(ly.minus(1), x, 3) {
					ge(self.add(lx, -1))
				}
				if n.proveAt(lx.minus(1), x, 3) {
					ge(self.add(ly, -1))
				}
			} else if n.bounded(x.X, x) && n.bounded(x.Y, x) && n.proveAt(lx, x, 3) && n.proveAt(ly, x, 3) && n.proveAt(konst(1<<30).add(lx, -1), x, 3) && n.proveAt(konst(1<<30).add(ly, -1), x, 3) {
				ge(self)
			}
		}
	case *ssa.Phi:
		if isLoopHead(x.Block()) && wide(x.Type()) {
			n.monotone(x, self, ge)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if ia, ok := x.X.(*ssa.IndexAddr); ok && n.positions(ia.X, 0) {
				n.knownPosition(x, ia, self, pr, ge)
			}
			if lo, ok := n.loadLow(x, 0); ok {
				ge(self.minus(lo))
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok && n.elemLow(ia.X, 0) {
				ge(self)
			}
		}
	}
	return out
}

// sub proves a side condition with little effort.
func (pr *proof) sub(l lin, depth int) bool {
	if len(l.t) == 0 {
		return l.c >= 0
	}
	key := pr.n.str(l)
	if r, ok := pr.subs[key]; ok {
		return r == 1
	}
	if pr.subs == nil {
		pr.subs = map[string]int{}
	}
	pr.subs[key] = 0 // while it is being shown
	save := pr.seen
	pr.seen = map[string]int{}
	r := pr.show(l, 3)
	pr.seen = save
	if r {
		pr.subs[key] = 1
	} else {
		pr.subs[key] = -1
	}
	return r
}

// loadLow: every value ever stored into the field is at least lo (0).
func (n *Num) loadLow(x *ssa.UnOp, d int) (int64, bool) {
	key := locKey(x.X)
	if key == "" {
		return 0, false
	}
	n.scanStores()
	ss, ok := storesOf[key]
	if !ok || leaked[key] {
		return 0, false
	}
	mk := "low|" + key
	if r, ok := n.induct[mk]; ok {
		return 0, r == 1
	}
	n.induct[mk] = 1
	for _, s := range ss {
		if !n.proveAt(n.Lin(s.Val), s, 4) {
			n.induct[mk] = -1
			return 0, false
		}
	}
	return 0, true
}

// monotone: a loop variable that only grows is at least its first value; one that only shrinks at most that.
func (n *Num) monotone(x *ssa.Phi, self lin, ge func(lin)) {
	h := x.Block()
	body := n.loop(h)
	m, ok := n.mono[x]
	if !ok {
		n.mono[x] = 1
		m = 2 | 4 | 8
		for i, p := range h.Preds {
			if !body[p] {
				continue
			}
			lo, hi := n.drift(x.Edges[i], x, 0)
			if lo < 0 {
				m &^= 4
			}
			if hi > 0 {
				m &^= 8
			}
		}
		n.mono[x] = m
	}
	up, down := m&4 != 0, m&8 != 0
	entries := 0
	for _, p := range h.Preds {
		if !body[p] {
			entries++
		}
	}
	if entries != 1 {
		return
	}
	for i, p := range h.Preds {
		if body[p] {
			continue
		}
		l := n.Lin(x.Edges[i])
		if up {
			ge(self.add(l, -1))
		}
		if down {
			ge(l.add(self, -1))
		}
	}
}

// drift bounds v - x: (-1,1) means nothing known.
func (n *Num) drift(v ssa.Value, x *ssa.Phi, d int) (int64, int64) {
	if v == ssa.Value(x) {
		return 0, 0
	}
	if d > 6 {
		return -1, 1
	}
	l := n.Lin(v).add(n.self(x), -1)
	if len(l.t) == 0 {
		return sgn(l.c), sgn(l.c)
	}
	// x plus something whose sign is known
	if b, ok := v.(*ssa.BinOp); ok && n.Lin(v).t[atom{v: x}] == 1 {
		lo, hi := int64(-1), int64(1)
		if n.proveAt(l, b, 4) {
			lo = 0
		} else if n.proveAt(l.scale(-1), b, 4) {
			hi = 0
		}
		return lo, hi
	}
	switch y := v.(type) {
	case *ssa.Phi:
		lo, hi := int64(1), int64(-1)
		for _, e := range y.Edges {
			if e == ssa.Value(y) {
				continue
			}
			if isLoopHead(y.Block()) {
				// inner loop variable that starts at x and moves
				a, b := n.drift(e, y, d+1)
				c, f := n.drift(e, x, d+1)
				if a == -1 && b == 1 {
					a, b = c, f
				}
				lo, hi = min64(lo, a), max64(hi, b)
				continue
			}
			a, b := n.drift(e, x, d+1)
			lo, hi = min64(lo, a), max64(hi, b)
		}
		return lo, hi
	case *ssa.BinOp:
		if y.Op == token.ADD || y.Op == token.SUB {
			if n.noWrap(y, n.Lin(y)) {
				a, b := n.drift(y.X, x, d+1)
				m := n.Lin(y.Y)
				if y.Op == token.SUB {
					m = m.scale(-1)
				}
				if n.proveAt(m, y, 4) && a >= 0 {
					return 0, 1
				}
				if n.proveAt(m.scale(-1), y, 4) && b <= 0 {
					return -1, 0
				}
			}
		}
	}
	// shown larger or smaller where it is computed
	if ins, ok := v.(ssa.Instruction); ok && x.Block().Dominates(ins.Block()) {
		b := ins.Block()
		if n.prove(l, b, len(b.Instrs), nil, 4, 0) {
			return 0, 1
		}
	}
	return -1, 1
}

func sgn(x int64) int64 {
	switch {
	case x < 0:
		return -1
	case x > 0:
		return 1
	}
	return 0
}
func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// knownCall: results of library functions and of functions of the module.
// parsedRange: the numbers that a call of strconv.ParseInt or ParseUint with a small bit size can give.
func parsedRange(c *ssa.Call) (lo, hi int64, ok bool) {
	name := calleeFullName(c)
	if name != "strconv.ParseInt" && name != "strconv.ParseUint" || len(c.Call.Args) != 3 {
		return 0, 0, false
	}
	k, isC := c.Call.Args[2].(*ssa.Const)
	if !isC || k.Value == nil {
		return 0, 0, false
	}
	bits := k.Int64()
	if bits < 1 || bits > 32 {
		return 0, 0, false
	}
	if name == "strconv.ParseUint" {
		return 0, 1<<bits - 1, true
	}
	return -(1 << (bits - 1)), 1<<(bits-1) - 1, true
}

func (n *Num) knownCall(c *ssa.Call, res int, self lin, pr *proof, depth int, ge func(lin)) {
	args := c.Call.Args
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "cap", "copy":
			ge(self)
			if b.Name() == "copy" {
				ge(n.Len(args[0]).add(self, -1))
				ge(n.Len(args[1]).add(self, -1))
			} else {
				ge(self.add(n.Len(args[0]), -1))
			}
		case "min":
			for _, a := range args {
				ge(n.Lin(a).add(self, -1))
			}
			all := true
			for _, a := range args {
				if !pr.sub(n.Lin(a), depth) {
					all = false
				}
			}
			if all {
				ge(self)
			}
		case "max":
			for _, a := range args {
				ge(self.add(n.Lin(a), -1))
			}
		}
		return
	}
	name := calleeFullName(c)
	if lo, hi, ok := parsedRange(c); ok && res == 0 {
		ge(self.minus(lo))
		ge(konst(hi).add(self, -1))
	}
	switch name {
	case "bytes.Index", "strings.Index", "bytes.LastIndex", "strings.LastIndex":
		ge(self.add(konst(1), 1))
		sep := n.Len(args[1])
		if t := n.matchText(args[1], 0); t != nil && n.sameText(t, args[0]) {
			ge(self)
		}
		if len(sep.t) == 0 && sep.c >= 1 || pr.sub(sep.minus(1), 3) {
			ge(n.Len(args[0]).add(self, -1).minus(1))
		} else {
			ge(n.Len(args[0]).add(self, -1))
		}
		if pr.sub(self, 3) {
			ge(n.Len(args[0]).add(self, -1).add(sep, -1))
		}
	case "bytes.IndexByte", "strings.IndexByte", "bytes.LastIndexByte", "strings.LastIndexByte", "bytes.IndexAny", "strings.IndexAny", "bytes.LastIndexAny", "strings.LastIndexAny",
		"bytes.IndexFunc", "strings.IndexFunc", "bytes.IndexRune", "strings.IndexRune":
		ge(self.add(konst(1), 1))
		ge(n.Len(args[0]).add(self, -1).minus(1))
	case "strconv.Atoi", "strconv.ParseInt":
		// no sign was matched
		if res == 0 && n.digits(args[0], 0) {
			ge(self)
		}
	case "bytes.Count", "strings.Count":
		ge(self)
		ge(n.Len(args[0]).add(self, -1).add(konst(1), 1))
	case "sort.Search":
		ge(self)
		ge(n.Lin(args[0]).add(self, -1))
	case "sort.SearchInts", "sort.SearchStrings":
		ge(self)
		ge(n.Len(args[0]).add(self, -1))
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune":
		if res == 1 {
			ge(self)
			ge(konst(4).add(self, -1))
			ge(n.Len(args[0]).add(self, -1))
			if pr.sub(n.Len(args[0]).minus(1), 3) {
				ge(self.minus(1))
			}
		}
	case "unicode/utf8.RuneLen":
		ge(self.add(konst(1), 1))
		ge(konst(4).add(self, -1))
	case "unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount":
		ge(self)
		ge(n.Len(args[0]).add(self, -1))
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len", "(*bytes.Reader).Len", "(*strings.Reader).Len", "(*regexp.Regexp).NumSubexp":
		ge(self)
	case "io.ReadFull", "encoding/hex.Decode":
		if res == 0 {
			ge(self)
		}
	case "encoding/hex.DecodedLen":
		ge(self)
	case "(time.Time).Year":
	}
	n.modulePosts(c, res, false, self, pr, ge)
}

// knownLen: lengths of what library functions return.
func (n *Num) knownLen(v ssa.Value, self lin, pr *proof, ge func(lin)) {
	exact := func(l lin) { ge(self.add(l, -1)); ge(l.add(self, -1)) }
	var c *ssa.Call
	res := 0
	switch x := v.(type) {
	case *ssa.Call:
		c = x
	case *ssa.Extract:
		c, _ = x.Tuple.(*ssa.Call)
		res = x.Index
	case *ssa.UnOp:
		// element of FindAll...
		if x.Op == token.MUL {
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				n.matchLen(ia.X, exact, 0)
			}
		}
		return
	case *ssa.Phi:
		// whichever search found something
		if k, ok := n.foundLen(x, map[ssa.Value]bool{}); ok && k > 0 && pr.nonNil(v) {
			exact(konst(k))
		}
		return
	case *ssa.Convert:
		// []rune(s), string(rune)
		if isString(x.X.Type()) {
			ge(n.Len(x.X).add(self, -1))
			if pr.sub(n.Len(x.X).minus(1), 3) {
				ge(self.minus(1))
			}
		}
		return
	}
	if c == nil {
		return
	}
	args := c.Call.Args
	name := calleeFullName(c)
	switch name {
	case "strings.Split", "bytes.Split", "strings.SplitAfter":
		if s, ok := constString(args[1]); ok && s != "" {
			ge(self.minus(1))
		}
	case "strings.SplitN", "bytes.SplitN":
		l := n.Lin(args[2])
		if len(l.t) == 0 && l.c > 0 {
			ge(l.add(self, -1))
			if s, ok := constString(args[1]); ok && s != "" {
				ge(self.minus(1))
			}
		}
	case "strings.TrimSpace", "bytes.TrimSpace", "strings.Trim", "bytes.Trim", "strings.TrimLeft", "strings.TrimRight", "bytes.TrimLeft", "bytes.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "bytes.TrimPrefix", "bytes.TrimSuffix", "strings.TrimFunc", "bytes.TrimFunc":
		ge(n.Len(args[0]).add(self, -1))
		switch name {
		case "strings.TrimPrefix", "strings.TrimSuffix", "bytes.TrimPrefix", "bytes.TrimSuffix":
			ge(self.add(n.Len(args[1]), 1).add(n.Len(args[0]), -1))
		}
	case "strings.Repeat", "bytes.Repeat":
		if l := n.Len(args[0]); len(l.t) == 0 && l.c == 1 {
			exact(n.Lin(args[1]))
		}
	case "(hash.Hash).Sum":
	case "crypto/md5.Sum":
		exact(konst(16))
	case "encoding/hex.EncodeToString":
		exact(n.Len(args[0]).scale(2))
	case "encoding/hex.DecodeString":
		if res == 0 {
			ge(n.Len(args[0]).add(self, -2))
		}
	case "strconv.Itoa", "strconv.FormatInt":
		ge(self.minus(1))
	case "strings.Fields", "bytes.Fields":
		ge(n.Len(args[0]).add(self, -1))
	case "(*regexp.Regexp).FindStringSubmatch", "(*regexp.Regexp).FindSubmatch", "(*regexp.Regexp).FindStringIndex", "(*regexp.Regexp).FindIndex", "(*regexp.Regexp).FindSubmatchIndex", "(*regexp.Regexp).FindStringSubmatchIndex":
		if k, ok := n.groups(c); ok {
			ge(k.add(self, -1))
			if pr.nonNil(v) || pr.sub(self.minus(1), 2) {
				exact(k)
			}
		}
	case "(*regexp.Regexp).Find", "(*regexp.Regexp).FindString":
		ge(n.Len(args[1]).add(self, -1))
	case "(crypto/cipher.Block).BlockSize":
	}
	if f := c.Call.StaticCallee(); f == nil && c.Call.IsInvoke() && c.Call.Method.Name() == "Sum" {
		ge(self.add(n.Len(args[0]), -1))
		if k := n.hashSize(c.Call.Value, 0); k > 0 {
			exact(n.Len(args[0]).add(konst(k), 1))
		}
	}
	n.modulePosts(c, res, true, self, pr, ge)
}

// hashSize is the size of the digest of a hash.Hash value.
func (n *Num) hashSize(v ssa.Value, d int) int64 {
	if d > 5 {
		return 0
	}
	switch x := v.(type) {
	case *ssa.Call:
		switch calleeFullName(x) {
		case "crypto/md5.New":
			return 16
		case "crypto/sha1.New":
			return 20
		case "crypto/sha256.New":
			return 32
		case "crypto/sha512.New384":
			return 48
		case "crypto/sha512.New":
			return 64
		}
	case *ssa.ChangeInterface:
		return n.hashSize(x.X, d+1)
	case *ssa.MakeInterface:
		return n.hashSize(x.X, d+1)
	case *ssa.Phi:
		m := int64(0)
		for _, e := range x.Edges {
			k := n.hashSize(e, d+1)
			if k == 0 || m != 0 && m != k {
				return 0
			}
			m = k
		}
		return m
	}
	return 0
}

// groups: number of results of a submatch or index call when there is a match.
func (n *Num) groups(c *ssa.Call) (lin, bool) {
	name := calleeFullName(c)
	switch {
	case strings.HasSuffix(name, "FindStringIndex"), strings.HasSuffix(name, "FindIndex"), strings.HasSuffix(name, "FindAllIndex"), strings.HasSuffix(name, "FindAllStringIndex"):
		return konst(2), true
	}
	pat := n.regexpOf(c.Call.Args[0])
	if pat == "" {
		return lin{}, false
	}
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return lin{}, false
	}
	k := int64(re.MaxCap() + 1)
	if strings.HasSuffix(name, "Index") {
		k *= 2
	}
	return konst(k), true
}

// foundLen: the length that all results of searches coming together in v have when they are not nil (0: only nil).
func (n *Num) foundLen(v ssa.Value, seen map[ssa.Value]bool) (int64, bool) {
	if seen[v] {
		return 0, true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return 0, x.Value == nil
	case *ssa.Call:
		switch calleeFullName(x) {
		case "(*regexp.Regexp).FindStringSubmatch", "(*regexp.Regexp).FindSubmatch", "(*regexp.Regexp).FindStringIndex", "(*regexp.Regexp).FindIndex", "(*regexp.Regexp).FindSubmatchIndex", "(*regexp.Regexp).FindStringSubmatchIndex":
			if k, ok := n.groups(x); ok && len(k.t) == 0 {
				return k.c, true
			}
		}
	case *ssa.Phi:
		r := int64(0)
		for _, e := range x.Edges {
			k, ok := n.foundLen(e, seen)
			if !ok || k != 0 && r != 0 && k != r {
				return 0, false
			}
			if k != 0 {
				r = k
			}
		}
		return r, true
	}
	return 0, false
}

// digits: v is a group of a match and the group matches decimal digits only.
func (n *Num) digits(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return n.digits(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !n.digits(e, d+1) {
				return false
			}
		}
		return len(x.Edges) > 0
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if c := n.canon(x); c != ssa.Value(x) {
			return n.digits(c, d+1)
		}
		ia, ok := x.X.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return false
		}
		c := n.positionCall(ia.X, 0)
		if c == nil || !strings.HasPrefix(calleeFullName(c), "(*regexp.Regexp).Find") || !strings.HasSuffix(calleeFullName(c), "Submatch") {
			return false
		}
		return n.digitGroup(n.regexpOf(c.Call.Args[0]), int(k.Int64()))
	}
	return false
}

func (n *Num) digitGroup(pat string, g int) bool {
	if pat == "" {
		return false
	}
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return false
	}
	var group func(r *syntax.Regexp) *syntax.Regexp
	group = func(r *syntax.Regexp) *syntax.Regexp {
		if r.Op == syntax.OpCapture && r.Cap == g {
			return r
		}
		for _, s := range r.Sub {
			if f := group(s); f != nil {
				return f
			}
		}
		return nil
	}
	var only func(r *syntax.Regexp) bool
	only = func(r *syntax.Regexp) bool {
		switch r.Op {
		case syntax.OpLiteral:
			for _, c := range r.Rune {
				if c < '0' || c > '9' {
					return false
				}
			}
			return true
		case syntax.OpCharClass:
			for i := 0; i+1 < len(r.Rune); i += 2 {
				if r.Rune[i] < '0' || r.Rune[i+1] > '9' {
					return false
				}
			}
			return true
		case syntax.OpCapture, syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat, syntax.OpConcat, syntax.OpAlternate:
			for _, s := range r.Sub {
				if !only(s) {
					return false
				}
			}
			return true
		case syntax.OpEmptyMatch:
			return true
		}
		return false
	}
	r := group(re)
	return r != nil && only(r)
}

// matchLen: elements of FindAll... results have a fixed length.
func (n *Num) matchLen(v ssa.Value, exact func(lin), d int) {
	if d > 5 {
		return
	}
	switch x := v.(type) {
	case *ssa.Call:
		name := calleeFullName(x)
		if strings.HasPrefix(name, "(*regexp.Regexp).FindAll") && (strings.Contains(name, "Submatch") || strings.HasSuffix(name, "Index")) {
			if k, ok := n.groups(x); ok {
				exact(k)
			}
		}
	case *ssa.Slice:
		n.matchLen(x.X, exact, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if c := n.canon(x); c != ssa.Value(x) {
				n.matchLen(c, exact, d+1)
			}
		}
	case *ssa.Phi:
		// every edge that is not nil must agree
		var all []lin
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value == nil {
				continue
			}
			k := len(all)
			n.matchLen(e, func(l lin) { all = append(all, l) }, d+1)
			if len(all) == k {
				return
			}
		}
		for _, l := range all {
			if n.str(l) != n.str(all[0]) {
				return
			}
		}
		if len(all) > 0 {
			exact(all[0])
		}
	}
}

// matchText: v is part of a match found in the returned text.
func (n *Num) matchText(v ssa.Value, d int) ssa.Value {
	if d > 8 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Call:
		name := calleeFullName(x)
		if strings.HasPrefix(name, "(*regexp.Regexp).Find") && !strings.Contains(name, "Index") {
			return x.Call.Args[1]
		}
	case *ssa.Convert:
		return n.matchText(x.X, d+1)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return n.matchText(ia.X, d+1)
		}
		if c := n.canon(x); c != ssa.Value(x) {
			return n.matchText(c, d+1)
		}
	case *ssa.Phi:
		if len(x.Edges) == 1 {
			return n.matchText(x.Edges[0], d+1)
		}
	}
	return nil
}

// sameText: equal contents, whether as string or as bytes.
func (n *Num) sameText(a, b ssa.Value) bool {
	a, b = textOf(a), textOf(b)
	return a == b || n.sameVal(a, b)
}

func textOf(v ssa.Value) ssa.Value {
	for {
		c, ok := v.(*ssa.Convert)
		if !ok || !lengthy(c.X.Type()) {
			return v
		}
		v = c.X
	}
}

// knownPosition: m[i] of a FindIndex result m on text s.
func (n *Num) knownPosition(x *ssa.UnOp, ia *ssa.IndexAddr, self lin, pr *proof, ge func(lin)) {
	idx := n.Lin(ia.Index)
	if len(idx.t) != 0 {
		return
	}
	call := n.positionCall(ia.X, 0)
	if call == nil {
		return
	}
	text := n.Len(call.Call.Args[1])
	// positions of the whole match, and of groups that take part in every match
	always := idx.c < 2
	if !always {
		always = n.groupAlways(n.regexpOf(call.Call.Args[0]), int(idx.c/2))
	}
	ge(text.add(self, -1))
	if always {
		ge(self)
		if idx.c%2 == 0 {
			// start of a match that is at least so long
			ge(text.add(self, -1).minus(n.matchMin(n.regexpOf(call.Call.Args[0]), int(idx.c/2))))
		} else {
			// the start of the same group is not larger
			min := n.matchMin(n.regexpOf(call.Call.Args[0]), int(idx.c/2))
			n.startOf(x, ia, idx.c, self, ge, min)
			ge(self.minus(min))
		}
	} else {
		ge(self.add(konst(1), 1))
		if idx.c%2 == 1 && pr.sub(self, 3) {
			n.startOf(x, ia, idx.c, self, ge, 0)
		}
	}
}

func (n *Num) startOf(x *ssa.UnOp, ia *ssa.IndexAddr, k int64, self lin, ge func(lin), min int64) {
	for _, b := range x.Parent().Blocks {
		for _, ins := range b.Instrs {
			y, ok := ins.(*ssa.UnOp)
			if !ok || y.Op != token.MUL {
				continue
			}
			ja, ok := y.X.(*ssa.IndexAddr)
			if !ok || !n.sameVal(ja.X, ia.X) {
				continue
			}
			if l := n.Lin(ja.Index); len(l.t) == 0 && l.c == k-1 {
				ge(self.add(n.Lin(y), -1).minus(min))
			}
		}
	}
}

func (n *Num) positionCall(v ssa.Value, d int) *ssa.Call {
	if d > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Call:
		return x
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return n.positionCall(ia.X, d+1)
		}
	case *ssa.Slice:
		return n.positionCall(x.X, d+1)
	case *ssa.Phi:
		var c *ssa.Call
		for _, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value == nil {
				continue
			}
			d := n.positionCall(e, d+1)
			if d == nil || c != nil && c != d {
				return nil
			}
			c = d
		}
		return c
	}
	return nil
}

func (n *Num) groupAlways(pat string, g int) bool {
	if pat == "" {
		return false
	}
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return false
	}
	var walk func(r *syntax.Regexp, opt bool) bool
	walk = func(r *syntax.Regexp, opt bool) bool {
		if r.Op == syntax.OpCapture && r.Cap == g {
			return !opt
		}
		switch r.Op {
		case syntax.OpStar, syntax.OpQuest, syntax.OpAlternate:
			opt = true
		case syntax.OpRepeat:
			if r.Min == 0 {
				opt = true
			}
		}
		for _, s := range r.Sub {
			if walk(s, opt) {
				return true
			}
		}
		return false
	}
	return walk(re, false)
}

// matchMin is the least number of bytes a match (or group g of it) consumes.
func (n *Num) matchMin(pat string, g int) int64 {
	if pat == "" {
		return 0
	}
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return 0
	}
	var min func(r *syntax.Regexp) int64
	min = func(r *syntax.Regexp) int64 {
		switch r.Op {
		case syntax.OpLiteral:
			return int64(len(r.Rune))
		case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
			return 1
		case syntax.OpCapture, syntax.OpPlus:
			return min(r.Sub[0])
		case syntax.OpConcat:
			s := int64(0)
			for _, x := range r.Sub {
				s += min(x)
			}
			return s
		case syntax.OpAlternate:
			m := min(r.Sub[0])
			for _, x := range r.Sub[1:] {
				if k := min(x); k < m {
					m = k
				}
			}
			return m
		case syntax.OpRepeat:
			return int64(r.Min) * min(r.Sub[0])
		}
		return 0
	}
	if g == 0 {
		return min(re)
	}
	var find func(r *syntax.Regexp) *syntax.Regexp
	find = func(r *syntax.Regexp) *syntax.Regexp {
		if r.Op == syntax.OpCapture && r.Cap == g {
			return r
		}
		for _, s := range r.Sub {
			if x := find(s); x != nil {
				return x
			}
		}
		return nil
	}
	if r := find(re); r != nil {
		return min(r)
	}
	return 0
}

func (pr *proof) nonNil(v ssa.Value) bool { return pr.f.nils[v] == 1 }

// modulePosts: statements about a result of a module function, proved at all its returns.
func (n *Num) modulePosts(c *ssa.Call, res int, isLen bool, self lin, pr *proof, ge func(lin)) {
	g := c.Call.StaticCallee()
	if g == nil || !n.p.inMod[g] || len(g.Blocks) == 0 || n.calls > 4 {
		return
	}
	// which returns count: those not excluded by what is known about error and ok results here
	cond := ""
	skip := map[int]int{} // result index -> required nilness/truth
	if g.Signature.Results().Len() > 1 {
		for _, ref := range *c.Referrers() {
			if ex, ok := ref.(*ssa.Extract); ok && ex.Index != res {
				if t := pr.f.nils[ex]; t != 0 {
					skip[ex.Index] = t
				}
			}
		}
	}
	if isLen {
		for _, ref := range *c.Referrers() {
			if ex, ok := ref.(*ssa.Extract); ok && ex.Index == res && pr.f.nils[ex] == 1 {
				skip[res] = 1
			}
		}
		if g.Signature.Results().Len() == 1 && pr.f.nils[c] == 1 {
			skip[0] = 1
		}
	}
	for k, t := range skip {
		cond += fmt.Sprintf("%d:%d ", k, t)
	}
	try := func(tmpl string, mk func(r lin) lin) {
		key := fmt.Sprintf("%s#%d%v|%s|%s", g.String(), res, isLen, sortedWords(cond), tmpl)
		st, ok := n.postM[key]
		if !ok {
			n.postM[key] = -1
			n.calls++
			st = 1
			some := false
			for _, b := range g.Blocks {
				ret, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !isRet {
					continue
				}
				if n.excluded(ret, skip) {
					continue
				}
				some = true
				v := ret.Results[res]
				var r lin
				if isLen {
					r = n.Len(v)
				} else {
					r = n.Lin(v)
				}
				if !n.proveReturn(mk(r), ret, skip) {
					st = -1
					break
				}
			}
			n.calls--
			if !some {
				st = -1
			}
			n.postM[key] = st
		}
		if st == 1 {
			if l, ok := n.toCaller2(mk, self, c, g); ok {
				ge(l)
			}
		}
	}
	try(">=0", func(r lin) lin { return r })
	if !isLen {
		try(">=-1", func(r lin) lin { return r.minus(-1) })
	} else {
		try(">=1", func(r lin) lin { return r.minus(1) })
		for _, k := range []int64{2, 4, 5, 8, 16, 20, 32, 48} {
			k := k
			try(fmt.Sprintf(">=%d", k), func(r lin) lin { return r.minus(k) })
			try(fmt.Sprintf("<=%d", k), func(r lin) lin { return konst(k).add(r, -1) })
		}
	}
	for i, q := range g.Params {
		q := q
		if lengthy(q.Type()) && !isMap(q.Type()) {
			try(fmt.Sprintf("<=len %d", i), func(r lin) lin { return n.Len(q).add(r, -1) })
			if !isLen {
				try(fmt.Sprintf("<len %d", i), func(r lin) lin { return n.Len(q).add(r, -1).minus(1) })
			} else {
				try(fmt.Sprintf(">=len %d", i), func(r lin) lin { return r.add(n.Len(q), -1) })
			}
		}
		if isInt(q.Type()) && wide(q.Type()) {
			try(fmt.Sprintf(">=p %d", i), func(r lin) lin { return r.add(n.Lin(q), -1) })
			try(fmt.Sprintf("<=p %d", i), func(r lin) lin { return n.Lin(q).add(r, -1) })
			if isLen {
				for _, k := range []int64{2, 3, 4} {
					k := k
					_ = k
				}
			}
		}
	}
}

// proveReturn shows the goal at a return that is known to deliver the nil, non-nil, true and false results in skip.
func (n *Num) proveReturn(goal lin, ret *ssa.Return, skip map[int]int) bool {
	if n.proveAt(goal, ret, 5) {
		return true
	}
	b := ret.Block()
	f := n.factsAt(b, len(b.Instrs)-1)
	var g *facts
	for _, k := range sortedInts(skip) {
		v := ret.Results[k]
		if _, ok := v.(*ssa.Const); ok || f.nils[v] == skip[k] {
			continue
		}
		if g == nil {
			g = &facts{nils: map[ssa.Value]int{}}
			g.list = append(g.list, f.list...)
			for v, t := range f.nils {
				g.nils[v] = t
			}
		}
		if isBoolType(v.Type()) {
			n.assume(g, v, skip[k] == 1, 0)
		} else {
			g.nils[v] = skip[k]
		}
	}
	if g == nil || n.nest > 25 || len(goal.t) == 0 {
		return false
	}
	n.nest++
	defer func() { n.nest-- }()
	return n.newProof(g, b, nil, 2).show(goal, 5)
}

func sortedInts(m map[int]int) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func sortedWords(s string) string {
	w := strings.Fields(s)
	sort.Strings(w)
	return strings.Join(w, " ")
}

// excluded: the return contradicts what the caller knows about other results.
func (n *Num) excluded(ret *ssa.Return, skip map[int]int) bool {
	for k, t := range skip {
		v := ret.Results[k]
		f := n.factsAt(ret.Block(), len(ret.Block().Instrs)-1)
		if c, ok := v.(*ssa.Const); ok {
			if c.Value == nil {
				if t == 1 {
					return true
				}
				continue
			}
			if c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != (t == 1) {
				return true
			}
			continue
		}
		if t == -1 && (alwaysNonNil(v) || f.nils[v] == 1) {
			return true
		}
		if t == 1 && f.nils[v] == -1 {
			return true
		}
		if t == -1 && isErrorType(v.Type()) && nonNilExpr(v, ret.Parent(), 0) {
			return true
		}
	}
	return false
}

// toCaller2 instantiates a template at the call.
func (n *Num) toCaller2(mk func(r lin) lin, self lin, c *ssa.Call, g *ssa.Function) (lin, bool) {
	l := mk(self)
	r := konst(l.c)
	for a, k := range l.t {
		if pr, ok := a.v.(*ssa.Parameter); ok && pr.Parent() == g {
			arg := argFor(c, g, paramIndex(pr))
			if arg == nil {
				return r, false
			}
			if a.len {
				r = r.add(n.Len(arg), k)
			} else {
				r = r.add(n.Lin(arg), k)
			}
			continue
		}
		r = r.add(lin{t: map[atom]int64{a: 1}}, k)
	}
	return r, true
}

var _ = regexp.QuoteMeta

// stepOf: a loop variable that starts at a constant and moves in multiples of m.
func (n *Num) stepOf(v ssa.Value) (m, init int64, ok bool) {
	x, isPhi := v.(*ssa.Phi)
	if !isPhi || !isLoopHead(x.Block()) {
		return 0, 0, false
	}
	body := n.loop(x.Block())
	entry := false
	for i, p := range x.Block().Preds {
		l := n.Lin(x.Edges[i])
		if body[p] {
			d := l.add(n.self(x), -1)
			if len(d.t) != 0 {
				return 0, 0, false
			}
			if d.c == 0 {
				continue
			}
			k := d.c
			if k < 0 {
				k = -k
			}
			if m != 0 && m != k {
				return 0, 0, false
			}
			m = k
			continue
		}
		if len(l.t) != 0 || entry && l.c != init {
			return 0, 0, false
		}
		entry, init = true, l.c
	}
	return m, init, entry && m >= 2
}

// tighten: l >= 0 and l is known modulo m.
func (pr *proof) tighten(l lin) (lin, bool) {
	n := pr.n
	var m int64
	for a := range l.t {
		if a.len {
			continue
		}
		if k, _, ok := n.stepOf(a.v); ok {
			if m != 0 && m != k {
				return l, false
			}
			m = k
		}
	}
	if m == 0 {
		return l, false
	}
	r := l.c
	rest := map[ssa.Value]int64{}
	for a, k := range l.t {
		if !a.len {
			if s, init, ok := n.stepOf(a.v); ok && s == m {
				r += k * init
				continue
			}
			if b, ok := a.v.(*ssa.BinOp); ok && b.Op == token.REM {
				rest[b] += k
				continue
			}
		}
		if k%m == 0 {
			continue
		}
		q := n.remOf(a, m, pr.block.Parent())
		if q == nil {
			return l, false
		}
		rest[q] += k
	}
	for q, k := range rest {
		if k%m == 0 {
			continue
		}
		v, ok := pr.exactly(q)
		if !ok {
			return l, false
		}
		r += k * v
	}
	r %= m
	if r < 0 {
		r += m
	}
	if r == 0 {
		return l, false
	}
	return l.minus(r), true
}

// remOf finds a computation of a % m in the function.
func (n *Num) remOf(a atom, m int64, f *ssa.Function) ssa.Value {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if x, ok := ins.(*ssa.BinOp); ok && x.Op == token.REM {
				y := n.Lin(x.Y)
				l := n.Lin(x.X)
				if len(y.t) == 0 && y.c == m && len(l.t) == 1 && l.c == 0 && l.t[a] == 1 {
					return x
				}
			}
		}
	}
	return nil
}

// exactly: the only value the facts leave.
func (pr *proof) exactly(v ssa.Value) (int64, bool) {
	a := atom{v: v}
	if l := pr.n.Lin(v); len(l.t) == 0 {
		return l.c, true
	} else if len(l.t) == 1 && l.c == 0 {
		for x := range l.t {
			a = x
		}
	}
	lo, hi := int64(-1<<40), int64(1<<40)
	for _, l := range append(append([]lin{}, pr.index[a]...), pr.n.known(a, pr, 3)...) {
		if len(l.t) != 1 {
			continue
		}
		switch l.t[a] {
		case 1:
			lo = max64(lo, -l.c)
		case -1:
			hi = min64(hi, l.c)
		}
	}
	return lo, lo == hi
}

// lessOf: prm is a position given to a comparison function that only sort calls; the variable that holds the slice.
func (n *Num) lessOf(prm *ssa.Parameter) *ssa.FreeVar {
	f := prm.Parent()
	if f == nil || f.Parent() == nil || len(f.Params) != 2 || !isInt(prm.Type()) {
		return nil
	}
	var out *ssa.FreeVar
	uses := 0
	for _, b := range f.Parent().Blocks {
		for _, ins := range b.Instrs {
			mc, ok := ins.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(f) {
				continue
			}
			for _, r := range *mc.Referrers() {
				c, ok := r.(*ssa.Call)
				if _, dbg := r.(*ssa.DebugRef); dbg {
					continue
				}
				if !ok {
					return nil
				}
				switch calleeFullName(c) {
				case "sort.Slice", "sort.SliceStable":
				default:
					return nil
				}
				uses++
				mi, ok := c.Call.Args[0].(*ssa.MakeInterface)
				if !ok {
					return nil
				}
				for i, fv := range f.FreeVars {
					if bind := mc.Bindings[i]; bind == mi.X {
						out = fv
					} else if u, ok := mi.X.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == bind {
						out = fv
					}
				}
			}
		}
	}
	if uses != 1 {
		return nil
	}
	return out
}

// elemLow: no element of the slice is negative.
func (n *Num) elemLow(v ssa.Value, d int) bool {
	sl, ok := v.Type().Underlying().(*types.Slice)
	if !ok || !isInt(sl.Elem()) || d > 10 {
		return false
	}
	key := "elems|" + itoa(n.id(v))
	if r, ok := n.induct[key]; ok {
		return r == 1
	}
	n.induct[key] = 1 // what was put in before it is used
	r := n.elemLow1(v, d)
	if !r {
		n.induct[key] = -1
	}
	return r
}

func (n *Num) elemLow1(v ssa.Value, d int) bool {
	// writes to elements through this value
	if v.Referrers() != nil {
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.IndexAddr:
				for _, q := range *y.Referrers() {
					switch z := q.(type) {
					case *ssa.Store:
						if z.Addr != ssa.Value(y) || !n.proveAt(n.Lin(z.Val), z, 4) {
							return false
						}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return false
					}
				}
			case *ssa.Slice:
				if y.X == v && !n.elemLow(y, d+1) {
					return false
				}
			case *ssa.Phi:
				if !n.elemLow(y, d+1) {
					return false
				}
			case *ssa.Call:
				if b, ok := y.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "len", "cap":
						continue
					case "append":
						if y.Call.Args[0] == v && !n.elemLow(y, d+1) {
							return false
						}
						continue
					case "copy":
						if y.Call.Args[0] == v {
							return false
						}
						continue
					}
				}
				switch calleeFullName(y) {
				case "sort.Ints":
					continue
				}
				if f := y.Call.StaticCallee(); f != nil && n.p.inMod[f] {
					for i, a := range y.Call.Args {
						if a == v && !n.elemLow(f.Params[i], d+1) {
							return false
						}
					}
					continue
				}
				return false
			case *ssa.Return, *ssa.DebugRef, *ssa.Range, *ssa.Extract:
			default:
				return false
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		if a, ok := x.X.(*ssa.Alloc); ok {
			// literal
			for _, r := range *a.Referrers() {
				switch y := r.(type) {
				case *ssa.IndexAddr:
					for _, q := range *y.Referrers() {
						if z, ok := q.(*ssa.Store); ok && !n.proveAt(n.Lin(z.Val), z, 4) {
							return false
						}
					}
				case *ssa.Slice, *ssa.DebugRef:
				default:
					return false
				}
			}
			return true
		}
		return n.elemLow(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !n.elemLow(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if !n.elemLow(x.Call.Args[0], d+1) {
				return false
			}
			return n.elemLow(x.Call.Args[1], d+1)
		}
		return n.elemResult(x.Call.StaticCallee(), 0, d)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return n.elemResult(c.Call.StaticCallee(), x.Index, d)
		}
	case *ssa.Parameter:
		f := x.Parent()
		if exportedAPI(f) || n.p.addrUsed[f] || len(n.p.callers[f]) == 0 {
			return false
		}
		i := paramIndex(x)
		for _, c := range n.p.callers[f] {
			a := argFor(c, f, i)
			if a == nil || !n.elemLow(a, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

func (n *Num) elemResult(f *ssa.Function, k int, d int) bool {
	if f == nil || !n.p.inMod[f] || len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if !n.elemLow(ret.Results[k], d+1) {
				return false
			}
		}
	}
	return true
}

// fixedField: v is a field of a parameter's struct, and that field is set only where the struct is made.
func (n *Num) fixedField(v ssa.Value) (*ssa.Parameter, bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return nil, false
	}
	p, ok := fa.X.(*ssa.Parameter)
	if !ok || !n.setOnce(fa) {
		return nil, false
	}
	return p, true
}

func (n *Num) setOnce(fa *ssa.FieldAddr) bool {
	key := locKey(fa)
	n.scanStores()
	if key == "" || leaked[key] {
		return false
	}
	mk := "once|" + key
	if r, ok := n.induct[mk]; ok {
		return r == 1
	}
	ok := true
	for _, s := range storesOf[key] {
		if _, made := s.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc); !made {
			ok = false
		}
	}
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	for _, f := range n.p.All {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, isS := ins.(*ssa.Store); isS && types.Identical(s.Val.Type(), t) {
					if _, made := s.Addr.(*ssa.Alloc); !made {
						ok = false
					}
				}
			}
		}
	}
	n.induct[mk] = -1
	if ok {
		n.induct[mk] = 1
	}
	return ok
}

// loadIn finds in f a load of the same field of the struct base.
func (n *Num) loadIn(f *ssa.Function, base ssa.Value, fa *ssa.FieldAddr) ssa.Value {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			u, ok := ins.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			g, ok := u.X.(*ssa.FieldAddr)
			if ok && g.Field == fa.Field && types.Identical(g.X.Type(), fa.X.Type()) && (g.X == base || n.sameVal(g.X, base)) {
				return u
			}
		}
	}
	return nil
}

// heldIn: a wild number that the conditions on the way to at keep small.
func (n *Num) heldIn(v ssa.Value, at ssa.Instruction) bool {
	switch v.(type) {
	case *ssa.Extract, *ssa.Parameter, *ssa.UnOp, *ssa.Call:
	case *ssa.BinOp:
		if l := n.Lin(v); len(l.t) != 1 || l.t[atom{v: v}] != 0 {
			return false
		}
	default:
		return false
	}
	l := n.Lin(v)
	return n.proveAt(l.add(konst(big), 1), at, 3) && n.proveAt(konst(big).add(l, -1), at, 3)
}
