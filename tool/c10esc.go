package main

// What an escaping function does to each character, by conditional constant propagation: the function is
// analysed once per character with every character of its text fixed to that one. Branches that depend on
// the character only are folded (also through helper functions), all others are kept open, and the text
// added for the character is collected along the remaining paths.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// escKind says where the result of a function is safe, whatever its text argument.
type escKind struct {
	str, name bool
	xml       bool   // character data and attribute values
	why       string // why it is no escaper
	lossy     string // an ASCII character that does not come back from a string, or ""
	outputs   map[rune][]string
	sampled   map[rune]bool // outputs are examples, with numbers that are not known
}

var probeChars = func() (out []rune) {
	for c := rune(0); c < 0x80; c++ {
		out = append(out, c)
	}
	return append(out, 0x80, 0xA0, 0xE9, 0xFF, 0x100, 0x20AC, 0x2028, 0xFFFD, 0x1F600)
}()

type abs struct {
	alts []string       // possible texts
	num  constant.Value // a known number or bool
	hom  bool           // a text in which every character of the argument became alts
}

// escEval: the text is taken not to be empty, so a loop over it is entered.
type escEval struct {
	p       *Program
	esc     func(*ssa.Function) *escKind
	fn      *ssa.Function
	text    map[ssa.Value]bool // parameters holding the text
	char    map[ssa.Value]bool // parameters holding the character
	c       rune
	reach   map[*ssa.BasicBlock]bool
	edges   map[[2]*ssa.BasicBlock]bool
	memo    map[ssa.Value]*abs
	busy    map[ssa.Value]bool
	depth   int
	sampled bool      // a number was replaced by examples
	index   ssa.Value // the index of a table a loop runs over,
	row     int       // and its value
	assume  func(*escEval, ssa.Value) *abs
	given   map[ssa.Value]bool // parameters that get assumed values

	undecided bool // a branch on an assumed value was left open
}

func isTextType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32)
	}
	return false
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// textOf: is v the text argument, possibly converted or trimmed?
func (e *escEval) textOf(v ssa.Value) bool {
	for i := 0; i < 20; i++ {
		if e.text[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.Convert:
			if !isTextType(x.X.Type()) {
				return false
			}
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Call:
			name := calleeFullName(x)
			if !strings.HasPrefix(name, "strings.Trim") && !strings.HasPrefix(name, "bytes.Trim") && name != "strings.Clone" {
				return false
			}
			v = x.Call.Args[0]
		case *ssa.Phi:
			for _, ed := range x.Edges {
				if ed == v {
					continue
				}
				if e.busy[ed] {
					continue
				}
				e.busy[ed] = true
				ok := e.textOf(ed)
				delete(e.busy, ed)
				if !ok {
					return false
				}
			}
			return true
		default:
			return false
		}
	}
	return false
}

func (e *escEval) isChar(v ssa.Value) bool {
	if e.char[v] {
		return true
	}
	switch x := v.(type) {
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok && x.Index == 2 {
			if r, ok := n.Iter.(*ssa.Range); ok {
				return e.textOf(r.X)
			}
		}
		if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 && strings.HasPrefix(calleeFullName(c), "unicode/utf8.DecodeRune") {
			return e.textOf(c.Call.Args[0])
		}
	case *ssa.Lookup:
		return isStringType(x.X.Type()) && loopIndex(x.Index) && e.textOf(x.X)
	case *ssa.Index:
		return loopIndex(x.Index) && e.textOf(x.X)
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			return isTextType(ia.X.Type()) && loopIndex(ia.Index) && e.textOf(ia.X)
		}
	}
	return false
}

// loopIndex: the current position of a loop, not one next to it
func loopIndex(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Phi:
		return true
	case *ssa.BinOp:
		if ph, ok := x.X.(*ssa.Phi); ok && ph.Block() == x.Block() {
			for _, e := range ph.Edges {
				if e == v {
					return true
				}
			}
		}
	}
	return false
}

func constAbs(v constant.Value, has bool, t types.Type) *abs {
	switch {
	case !has && isStringType(t):
		return &abs{alts: []string{""}}
	case !has:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return knownNum(constant.MakeBool(false))
		}
		return knownNum(constant.MakeInt64(0))
	case v.Kind() == constant.String:
		return &abs{alts: []string{constant.StringVal(v)}}
	}
	return knownNum(v)
}

func knownNum(v constant.Value) *abs { return &abs{num: v} }

func (e *escEval) eval(v ssa.Value) *abs {
	if a, ok := e.memo[v]; ok {
		return a
	}
	if e.busy[v] {
		return nil
	}
	e.busy[v] = true
	a := e.eval1(v)
	delete(e.busy, v)
	e.memo[v] = a
	return a
}

func (e *escEval) eval1(v ssa.Value) *abs {
	if e.assume != nil {
		if a := e.assume(e, v); a != nil {
			return a
		}
	}
	if e.isChar(v) {
		return knownNum(constant.MakeInt64(int64(e.c)))
	}
	if isTextType(v.Type()) && e.textOf(v) {
		return &abs{alts: []string{string(e.c)}, hom: true}
	}
	if e.index != nil && isStringType(v.Type()) {
		if s, ok := e.cell(v, nil); ok {
			return &abs{alts: []string{s}}
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if isTextType(x.Type()) {
				return &abs{alts: []string{""}}
			}
			if isErrorType(x.Type()) {
				return knownNum(constant.MakeInt64(0))
			}
			return nil
		}
		if x.Value.Kind() == constant.String {
			return &abs{alts: []string{constant.StringVal(x.Value)}}
		}
		return knownNum(x.Value)
	case *ssa.UnOp:
		if _, ok := x.X.(*ssa.Global); ok && isErrorType(x.Type()) {
			return knownNum(constant.MakeInt64(1)) // an error that is not nil
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			// a byte of what one character was converted to
			if a := e.eval(ia.X); a != nil && a.num == nil && !a.hom && len(a.alts) == 1 && len(a.alts[0]) == 1 {
				return knownNum(constant.MakeInt64(int64(a.alts[0][0])))
			}
			return nil
		}
		if x.Op == token.NOT || x.Op == token.SUB {
			if a := e.eval(x.X); a != nil && a.num != nil {
				return knownNum(constant.UnaryOp(x.Op, a.num, 0))
			}
		}
	case *ssa.BinOp:
		a, b := e.eval(x.X), e.eval(x.Y)
		if a == nil || b == nil {
			return nil
		}
		if a.num != nil && b.num != nil {
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				return knownNum(constant.MakeBool(constant.Compare(a.num, x.Op, b.num)))
			case token.SHL, token.SHR:
				if n, ok := constant.Uint64Val(constant.ToInt(b.num)); ok && n < 64 {
					return knownNum(constant.Shift(constant.ToInt(a.num), x.Op, uint(n)))
				}
				return nil
			case token.QUO:
				if constant.Sign(b.num) == 0 {
					return nil
				}
				return knownNum(constant.BinaryOp(a.num, token.QUO_ASSIGN, b.num))
			case token.REM:
				if constant.Sign(b.num) == 0 {
					return nil
				}
			}
			return knownNum(constant.BinaryOp(a.num, x.Op, b.num))
		}
		if a.num == nil && b.num == nil && x.Op == token.ADD && !a.hom && !b.hom {
			var out []string
			for _, s := range a.alts {
				for _, t := range b.alts {
					out = append(out, s+t)
				}
			}
			return &abs{alts: out}
		}
		if a.num == nil && b.num == nil && a.hom != b.hom && (x.Op == token.EQL || x.Op == token.NEQ) {
			o := a
			if a.hom {
				o = b
			}
			if len(o.alts) == 1 && !strings.ContainsRune(o.alts[0], e.c) {
				return knownNum(constant.MakeBool(x.Op == token.NEQ)) // the text has the character, the other has not
			}
			return nil
		}
		if a.num == nil && b.num == nil && len(a.alts) == 1 && len(b.alts) == 1 && !a.hom && !b.hom {
			switch x.Op {
			case token.EQL:
				return knownNum(constant.MakeBool(a.alts[0] == b.alts[0]))
			case token.NEQ:
				return knownNum(constant.MakeBool(a.alts[0] != b.alts[0]))
			}
		}
	case *ssa.Convert:
		a := e.eval(x.X)
		if a == nil {
			return nil
		}
		if isTextType(x.Type()) {
			if a.num != nil {
				if n, ok := constant.Int64Val(constant.ToInt(a.num)); ok && isStringType(x.Type()) {
					return &abs{alts: []string{string(rune(n))}}
				}
				return nil
			}
			return a
		}
		if a.num != nil {
			if n, ok := constant.Int64Val(constant.ToInt(a.num)); ok {
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					n &= 0xFF
				}
				return knownNum(constant.MakeInt64(n))
			}
		}
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok {
			if v, has, found := e.table(l.X, e.eval(l.Index)); found {
				if x.Index == 1 {
					return knownNum(constant.MakeBool(has))
				}
				return constAbs(v, has, x.Type())
			}
		}
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if ts := e.p.Callees(c); len(ts) == 1 && e.p.inMod[ts[0]] && e.depth <= 4 && !isTextType(x.Type()) {
				return e.sub(ts[0], c.Call.Args, x.Index)
			}
		}
	case *ssa.Lookup:
		if isStringType(x.X.Type()) {
			s, i := e.eval(x.X), e.eval(x.Index)
			if s != nil && i != nil && s.num == nil && i.num != nil && !s.hom && len(s.alts) == 1 {
				if n, ok := constant.Int64Val(constant.ToInt(i.num)); ok && n >= 0 && int(n) < len(s.alts[0]) {
					return knownNum(constant.MakeInt64(int64(s.alts[0][n])))
				}
			}
			return nil
		}
		if v, has, found := e.table(x.X, e.eval(x.Index)); found && !x.CommaOk {
			return constAbs(v, has, x.Type())
		}
	case *ssa.ChangeType:
		return e.eval(x.X)
	case *ssa.MakeInterface:
		if isErrorType(x.Type()) {
			return knownNum(constant.MakeInt64(1))
		}
		return e.eval(x.X)
	case *ssa.Phi:
		if a := e.tableLoop(x); a != nil {
			return a
		}
		var got *abs
		for i, ed := range x.Edges {
			if !e.edges[[2]*ssa.BasicBlock{x.Block().Preds[i], x.Block()}] {
				continue
			}
			a := e.eval(ed)
			if a == nil || a.num == nil {
				return nil
			}
			if got != nil && !constant.Compare(got.num, token.EQL, a.num) {
				return nil
			}
			got = a
		}
		return got
	case *ssa.Call:
		return e.call(x)
	}
	return nil
}

func (e *escEval) call(c *ssa.Call) *abs {
	name := calleeFullName(c)
	args := c.Call.Args
	arg := func(i int) *abs {
		if i < len(args) {
			return e.eval(args[i])
		}
		return nil
	}
	b := func(v bool) *abs { return knownNum(constant.MakeBool(v)) }
	runeOf := func(a *abs) (rune, bool) {
		if a == nil || a.num == nil {
			return 0, false
		}
		n, ok := constant.Int64Val(constant.ToInt(a.num))
		return rune(n), ok
	}
	lit := func(a *abs) (string, bool) {
		if a == nil || a.num != nil || a.hom || len(a.alts) != 1 {
			return "", false
		}
		return a.alts[0], true
	}
	switch name {
	case "strings.ContainsRune", "strings.IndexRune", "strings.IndexByte", "bytes.IndexByte", "bytes.ContainsRune":
		s, ok := lit(arg(0))
		r, ok2 := runeOf(arg(1))
		if ok2 && (arg(0) != nil && arg(0).hom) && strings.Contains(name, "Contains") {
			if r == e.c {
				return b(true)
			}
			return nil
		}
		if !ok || !ok2 {
			return nil
		}
		i := strings.IndexRune(s, r)
		if strings.HasSuffix(name, "Byte") {
			i = strings.IndexByte(s, byte(r))
		}
		if strings.Contains(name, "Contains") {
			return b(i >= 0)
		}
		return knownNum(constant.MakeInt64(int64(i)))
	case "strings.ContainsAny", "strings.Contains":
		a := arg(0)
		s, ok := lit(arg(1))
		if a == nil || !ok {
			return nil
		}
		if a.hom {
			if name == "strings.ContainsAny" && strings.ContainsRune(s, e.c) || s == string(e.c) {
				return b(true)
			}
			return nil
		}
		if t, ok := lit(a); ok {
			if name == "strings.Contains" {
				return b(strings.Contains(t, s))
			}
			return b(strings.ContainsAny(t, s))
		}
		return nil
	case "unicode.IsLetter", "unicode.IsDigit", "unicode.IsSpace", "unicode.IsPrint", "unicode.IsControl", "unicode.IsGraphic", "unicode.IsPunct", "unicode.IsNumber", "unicode.IsUpper", "unicode.IsLower":
		r, ok := runeOf(arg(0))
		if !ok {
			return nil
		}
		return b(map[string]func(rune) bool{"IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsSpace": unicode.IsSpace, "IsPrint": unicode.IsPrint,
			"IsControl": unicode.IsControl, "IsGraphic": unicode.IsGraphic, "IsPunct": unicode.IsPunct, "IsNumber": unicode.IsNumber,
			"IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower}[strings.TrimPrefix(name, "unicode.")](r))
	case "strings.ReplaceAll", "strings.Replace", "bytes.ReplaceAll":
		a := arg(0)
		from, ok := lit(arg(1))
		to, ok2 := lit(arg(2))
		if a == nil || a.num != nil || !ok || !ok2 || utf8.RuneCountInString(from) != 1 {
			return nil
		}
		if name == "strings.Replace" {
			n := arg(3)
			if n == nil || n.num == nil || constant.Sign(n.num) >= 0 {
				return nil
			}
		}
		out := &abs{hom: a.hom}
		for _, s := range a.alts {
			out.alts = append(out.alts, strings.ReplaceAll(s, from, to))
		}
		return out
	case "(*strings.Replacer).Replace":
		a := arg(1)
		pairs, ok := e.replacer(args[0])
		if a == nil || a.num != nil || !ok {
			return nil
		}
		for i := 0; i < len(pairs); i += 2 {
			if utf8.RuneCountInString(pairs[i]) != 1 {
				return nil
			}
		}
		out := &abs{hom: a.hom}
		for _, s := range a.alts {
			out.alts = append(out.alts, strings.NewReplacer(pairs...).Replace(s))
		}
		return out
	case "fmt.Errorf", "errors.New":
		return knownNum(constant.MakeInt64(1))
	case "strings.TrimPrefix", "strings.TrimSuffix", "strings.HasPrefix", "strings.HasSuffix", "strings.EqualFold":
		s, ok := lit(arg(0))
		t, ok2 := lit(arg(1))
		if !ok || !ok2 {
			return nil
		}
		switch strings.TrimPrefix(name, "strings.") {
		case "TrimPrefix":
			return &abs{alts: []string{strings.TrimPrefix(s, t)}}
		case "TrimSuffix":
			return &abs{alts: []string{strings.TrimSuffix(s, t)}}
		case "HasPrefix":
			return b(strings.HasPrefix(s, t))
		case "HasSuffix":
			return b(strings.HasSuffix(s, t))
		}
		return b(strings.EqualFold(s, t))
	case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper":
		s, ok := lit(arg(0))
		if !ok {
			return nil
		}
		return &abs{alts: []string{map[string]func(string) string{"TrimSpace": strings.TrimSpace, "ToLower": strings.ToLower, "ToUpper": strings.ToUpper}[strings.TrimPrefix(name, "strings.")](s)}}
	case "fmt.Sprintf", "fmt.Sprint":
		return e.format(c)
	case "strconv.Itoa":
		if r, ok := runeOf(arg(0)); ok {
			return &abs{alts: []string{fmt.Sprint(int(r))}}
		}
		return &abs{alts: []string{"0", "-1", "65535"}}
	case "strconv.FormatInt", "strconv.FormatUint", "encoding/hex.EncodeToString":
		return &abs{alts: []string{"0", "ff", "177777"}}
	}
	ts := e.p.Callees(c)
	if len(ts) != 1 || !e.p.inMod[ts[0]] || e.depth > 4 {
		return nil
	}
	t := ts[0]
	if isTextType(c.Type()) {
		// an escaper applied to the whole text
		for _, a := range args {
			if isTextType(a.Type()) && e.textOf(a) {
				if k := e.esc(t); k != nil && k.outputs != nil {
					e.sampled = e.sampled || k.sampled[e.c]
					return &abs{alts: k.outputs[e.c], hom: true}
				}
				return nil
			}
		}
	}
	if c.Call.Signature().Results().Len() != 1 {
		return nil
	}
	return e.sub(t, args, 0)
}

// sub evaluates a call of a module function whose arguments include the character or the text.
func (e *escEval) sub(t *ssa.Function, args []ssa.Value, index int) *abs {
	s := &escEval{p: e.p, esc: e.esc, fn: t, text: map[ssa.Value]bool{}, char: map[ssa.Value]bool{}, c: e.c, depth: e.depth + 1, assume: e.assume, given: map[ssa.Value]bool{}}
	consts := map[ssa.Value]*abs{}
	for i, a := range args {
		if i >= len(t.Params) {
			return nil
		}
		pr := t.Params[i]
		if isTextType(a.Type()) && e.textOf(a) {
			s.text[pr] = true
			continue
		}
		if v := e.eval(a); v != nil {
			consts[pr] = v
		}
		if e.assume != nil && e.dependsOnAssumed(a, map[ssa.Value]bool{}) {
			s.given[pr] = true
		}
	}
	s.run(consts)
	if s.undecided {
		e.undecided = true
	}
	defer func() { e.sampled = e.sampled || s.sampled }()
	var got *abs
	for b := range s.reach {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		a := s.eval(ret.Results[index])
		if a == nil {
			return nil
		}
		if got == nil {
			got = a
			continue
		}
		switch {
		case a.num != nil && got.num != nil:
			if !constant.Compare(a.num, token.EQL, got.num) {
				return nil
			}
		case a.num == nil && got.num == nil && a.hom == got.hom:
			got = &abs{alts: append(append([]string{}, got.alts...), a.alts...), hom: a.hom}
		default:
			return nil
		}
	}
	return got
}

// run finds the blocks that can be reached with the character fixed.
func (e *escEval) run(consts map[ssa.Value]*abs) {
	e.reach = map[*ssa.BasicBlock]bool{}
	e.edges = map[[2]*ssa.BasicBlock]bool{}
	if len(e.fn.Blocks) == 0 {
		return
	}
	e.reach[e.fn.Blocks[0]] = true
	for changed := true; changed; {
		changed = false
		e.memo = map[ssa.Value]*abs{}
		for k, v := range consts {
			e.memo[k] = v
		}
		e.busy = map[ssa.Value]bool{}
		for _, b := range e.fn.Blocks {
			if !e.reach[b] {
				continue
			}
			succs := b.Succs
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if a := e.eval(iff.Cond); a != nil && a.num != nil && a.num.Kind() == constant.Bool {
					if constant.BoolVal(a.num) {
						succs = b.Succs[:1]
					} else {
						succs = b.Succs[1:]
					}
				} else if e.overText(iff.Cond) && !e.cameBack(b) {
					succs = b.Succs[:1]
				} else if e.assume != nil && e.dependsOnAssumed(iff.Cond, map[ssa.Value]bool{}) {
					e.undecided = true
				}
			}
			for _, s := range succs {
				k := [2]*ssa.BasicBlock{b, s}
				if !e.edges[k] {
					e.edges[k] = true
					e.reach[s] = true
					changed = true
				}
			}
		}
	}
	e.memo = map[ssa.Value]*abs{}
	for k, v := range consts {
		e.memo[k] = v
	}
}

// dependsOnAssumed: is the value computed from one whose value is assumed?
func (e *escEval) dependsOnAssumed(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if _, ok := v.(*ssa.Const); ok {
		return false
	}
	if e.given[v] || e.assume(e, v) != nil {
		return true
	}
	ins, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if c, ok := v.(*ssa.Call); ok && c.Call.StaticCallee() == nil {
		return false
	}
	for _, op := range ins.Operands(nil) {
		if e.dependsOnAssumed(*op, seen) {
			return true
		}
	}
	return false
}

// overText: does the condition ask whether a loop over the text goes on?
func (e *escEval) overText(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok && x.Index == 0 {
			if r, ok := n.Iter.(*ssa.Range); ok {
				return e.textOf(r.X)
			}
		}
	case *ssa.BinOp:
		if c, ok := x.Y.(*ssa.Call); ok && x.Op == token.LSS && loopIndex(x.X) && calleeFullName(c) == "builtin.len" {
			if e.textOf(c.Call.Args[0]) {
				return true
			}
			a := e.eval(c.Call.Args[0])
			if a == nil || a.num != nil || a.hom {
				return false
			}
			for _, s := range a.alts {
				if s == "" {
					return false
				}
			}
			return len(a.alts) > 0
		}
	}
	return false
}

// cameBack: has a round of the loop at b been completed?
func (e *escEval) cameBack(b *ssa.BasicBlock) bool {
	for _, pb := range b.Preds {
		if b.Dominates(pb) && e.edges[[2]*ssa.BasicBlock{pb, b}] {
			return true
		}
	}
	return false
}

// replacer: the pairs of a strings.Replacer built from constants.
func (e *escEval) replacer(v ssa.Value) ([]string, bool) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			st := e.p.Flow().globStores[g]
			if len(st) == 1 {
				v = st[0]
			}
		}
	}
	c, ok := v.(*ssa.Call)
	if !ok || calleeFullName(c) != "strings.NewReplacer" {
		return nil, false
	}
	vs, ok := variadic(c.Call.Args[0])
	if !ok || len(vs)%2 != 0 {
		return nil, false
	}
	var out []string
	for _, x := range vs {
		s, ok := constString(x)
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

// format folds Sprintf. Numbers that are not known are represented by small and large ones.
func (e *escEval) format(c *ssa.Call) *abs {
	if calleeFullName(c) == "fmt.Sprint" {
		return e.formatArgs(c.Call.Args, false)
	}
	return e.formatArgs(c.Call.Args, true)
}

func (e *escEval) formatArgs(args []ssa.Value, isF bool) *abs {
	format := ""
	if isF {
		s, ok := constString(args[0])
		if !ok {
			return nil
		}
		format = s
		args = args[1:]
	}
	vs, ok := variadic(args[0])
	if !ok {
		return nil
	}
	combos := [][]interface{}{nil}
	for _, v := range vs {
		if v == nil {
			return nil
		}
		mi, ok := v.(*ssa.MakeInterface)
		if !ok {
			return nil
		}
		var alts []interface{}
		a := e.eval(mi.X)
		bt, _ := mi.X.Type().Underlying().(*types.Basic)
		switch {
		case a != nil && a.hom:
			return nil
		case a != nil && a.num == nil:
			for _, s := range a.alts {
				alts = append(alts, s)
			}
		case a != nil && a.num.Kind() != constant.Bool:
			n, ok := constant.Int64Val(constant.ToInt(a.num))
			if !ok {
				return nil
			}
			if bt != nil && bt.Kind() == types.Uint8 {
				alts = append(alts, byte(n))
			} else if bt != nil && bt.Kind() == types.Int32 {
				alts = append(alts, rune(n))
			} else {
				alts = append(alts, n)
			}
		case bt != nil && bt.Info()&types.IsInteger != 0:
			e.sampled = true
			max := e.p.maxValue(mi.X)
			for _, n := range []int64{0, 7, 255, 65535} {
				if n <= max {
					alts = append(alts, n)
				}
			}
		default:
			return nil
		}
		var next [][]interface{}
		for _, co := range combos {
			for _, x := range alts {
				next = append(next, append(append([]interface{}{}, co...), x))
			}
		}
		combos = next
	}
	if len(combos) > 256 {
		return nil
	}
	var out []string
	for _, co := range combos {
		var s string
		if isF {
			s = fmt.Sprintf(format, co...)
		} else {
			s = fmt.Sprint(co...)
		}
		if strings.Contains(s, "%!") {
			return nil
		}
		out = append(out, s)
	}
	return &abs{alts: out}
}

// maxValue is an upper bound of an integer from its type and simple operations.
func (p *Program) maxValue(v ssa.Value) int64 {
	switch x := v.(type) {
	case *ssa.Const:
		if n, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
			return n
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.AND:
			if a, b := p.maxValue(x.X), p.maxValue(x.Y); a < b {
				return a
			} else {
				return b
			}
		case token.SHR:
			if c, ok := x.Y.(*ssa.Const); ok {
				if n, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok && n < 63 {
					return p.maxValue(x.X) >> n
				}
			}
		case token.REM:
			if c, ok := x.Y.(*ssa.Const); ok {
				if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok && n > 0 {
					return n - 1
				}
			}
		}
	case *ssa.Convert:
		if m := p.maxValue(x.X); m < typeMax(x.Type()) {
			return m
		}
	}
	return typeMax(v.Type())
}

func typeMax(t types.Type) int64 {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return 255
		case types.Int8:
			return 127
		case types.Uint16:
			return 65535
		case types.Int16:
			return 32767
		}
	}
	return 1 << 62
}

// escaper analyses a function that takes one text and returns one.
func (p *Program) escaper(fn *ssa.Function) *escKind {
	if p.escMemo == nil {
		p.escMemo = map[*ssa.Function]*escKind{}
	}
	if k, ok := p.escMemo[fn]; ok {
		return k // nil while being analysed
	}
	p.escMemo[fn] = nil
	k := p.escaper1(fn)
	p.escMemo[fn] = k
	return k
}

func (p *Program) escaper1(fn *ssa.Function) *escKind {
	no := func(f string, a ...interface{}) *escKind { return &escKind{why: fmt.Sprintf(f, a...)} }
	into := fn.Signature.Results().Len() == 0 // writes to a buffer it is given
	if len(fn.Blocks) == 0 || !p.inMod[fn] || !into && (fn.Signature.Results().Len() != 1 || !isTextType(fn.Signature.Results().At(0).Type())) {
		return no("it does not return one text")
	}
	var text *ssa.Parameter
	for _, pr := range fn.Params {
		if isStringType(pr.Type()) {
			if text != nil {
				return no("it takes more than one text")
			}
			text = pr
		}
	}
	if text == nil {
		return no("it takes no text")
	}
	res := &escKind{str: true, name: true, xml: true, outputs: map[rune][]string{}, sampled: map[rune]bool{}}
	for _, c := range probeChars {
		e := &escEval{p: p, esc: p.escaper, fn: fn, text: map[ssa.Value]bool{text: true}, char: map[ssa.Value]bool{}, c: c}
		e.run(nil)
		var outs []string
		var why string
		if into {
			outs, why = e.loopOutputs()
		} else {
			outs, why = e.outputs()
		}
		if why != "" {
			return no("%s", why)
		}
		if len(outs) == 0 {
			outs = []string{""}
		}
		res.outputs[c] = outs
		res.sampled[c] = e.sampled
		for _, o := range outs {
			if !stringSafe(o) {
				res.str = false
			}
			if !nameSafe(o) {
				res.name = false
			}
			if !xmlSafe(o) {
				res.xml = false
			}
			if !res.str && !res.name && !res.xml {
				return no("%q becomes %q", string(c), o)
			}
		}
	}
	return res
}

// outputs are the texts that can stand for the fixed character in the result.
func (e *escEval) outputs() ([]string, string) {
	set := map[string]bool{}
	body := false
	for _, b := range e.fn.Blocks {
		if !e.reach[b] {
			continue
		}
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		v := ret.Results[0]
		if a := e.eval(v); a != nil && a.num == nil {
			for _, s := range a.alts {
				set[s] = true
			}
			continue
		}
		body = true
		if why := e.built(v, map[ssa.Value]bool{}); why != "" {
			return nil, why
		}
	}
	if body {
		outs, why := e.loopOutputs()
		if why != "" {
			return nil, why
		}
		for _, s := range outs {
			set[s] = true
		}
	}
	var out []string
	for s := range set {
		out = append(out, s)
	}
	return out, ""
}

// built: is v the text put together in the function?
func (e *escEval) built(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return ""
	case *ssa.Phi:
		for i, ed := range x.Edges {
			if e.edges[[2]*ssa.BasicBlock{x.Block().Preds[i], x.Block()}] {
				if w := e.built(ed, seen); w != "" {
					return w
				}
			}
		}
		return ""
	case *ssa.Convert:
		return e.built(x.X, seen)
	case *ssa.MakeSlice:
		return ""
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok && len(*al.Referrers()) <= 2 {
			return "" // a fresh empty or sized buffer
		}
		return e.built(x.X, seen)
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return e.built(x.X, seen)
		}
	case *ssa.Call:
		name := calleeFullName(x)
		switch name {
		case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
			if _, ok := x.Call.Args[0].(*ssa.Alloc); ok {
				return ""
			}
		case "builtin.append":
			return e.built(x.Call.Args[0], seen)
		case "strings.Join":
			return e.built(x.Call.Args[0], seen)
		}
		if strings.HasPrefix(name, "unicode/utf8.Append") || strings.HasPrefix(name, "strconv.Append") {
			return e.built(x.Call.Args[0], seen)
		}
	}
	return "its result is not put together from single characters"
}

// piece is the text an instruction adds to a result, nil if it adds none.
func (e *escEval) piece(ins ssa.Instruction) ([]string, bool) {
	un := []string{}
	of := func(v ssa.Value) ([]string, bool) {
		a := e.eval(v)
		if a == nil {
			return un, true
		}
		if a.num != nil {
			n, ok := constant.Int64Val(constant.ToInt(a.num))
			if !ok {
				return un, true
			}
			return []string{string(rune(n))}, true
		}
		return a.alts, true
	}
	switch x := ins.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD && isStringType(x.Type()) && e.eval(x) == nil {
			return of(x.Y)
		}
	case *ssa.Call:
		name := calleeFullName(x)
		args := x.Call.Args
		switch {
		case name == "builtin.append" && isTextType(x.Type()):
			if vs, ok := variadic(args[1]); ok {
				outs := []string{""}
				for _, v := range vs {
					ps, _ := of(v)
					var next []string
					for _, o := range outs {
						for _, q := range ps {
							next = append(next, o+q)
						}
					}
					outs = next
				}
				return outs, true
			}
			return of(args[1])
		case strings.HasPrefix(name, "unicode/utf8.AppendRune"):
			return of(args[1])
		case strings.HasPrefix(name, "fmt.Fprint"):
			if name != "fmt.Fprintf" {
				return un, true
			}
			if a := e.formatArgs(args[1:], true); a != nil {
				return a.alts, true
			}
			return un, true
		case isWriterMethod(name) && len(args) == 2:
			return of(args[1])
		}
		if k := e.into(x); k != nil {
			e.sampled = e.sampled || k.sampled[e.c]
			return k.outputs[e.c], true
		}
	}
	return nil, false
}

// into: a call of an escaper that writes what it makes of the text to a buffer.
func (e *escEval) into(c *ssa.Call) *escKind {
	ts := e.p.Callees(c)
	if len(ts) != 1 || !e.p.inMod[ts[0]] || ts[0].Signature.Results().Len() != 0 {
		return nil
	}
	for _, a := range c.Call.Args {
		if isTextType(a.Type()) && e.textOf(a) {
			if k := e.esc(ts[0]); k != nil && k.outputs != nil {
				return k
			}
		}
	}
	return nil
}

// table: a value looked up in a table of constants; found is false when the table is no such.
func (e *escEval) table(m ssa.Value, key *abs) (val constant.Value, has, found bool) {
	if key == nil || key.num == nil {
		return nil, false, false
	}
	if u, ok := m.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			st := e.p.Flow().globStores[g]
			if len(st) == 1 {
				m = st[0]
			}
		}
	}
	mk, ok := m.(*ssa.MakeMap)
	if !ok {
		return nil, false, false
	}
	for _, ref := range *mk.Referrers() {
		u, ok := ref.(*ssa.MapUpdate)
		if !ok {
			continue
		}
		k, ok := u.Key.(*ssa.Const)
		v, ok2 := u.Value.(*ssa.Const)
		if !ok || !ok2 || k.Value == nil || v.Value == nil {
			return nil, false, false
		}
		if k.Value.Kind() == constant.Int && constant.Compare(k.Value, token.EQL, constant.ToInt(key.num)) {
			val, has = v.Value, true
		}
	}
	return val, has, true
}

// tableLoop is the text after a loop over the rows of a constant table that changes the text once per row.
func (e *escEval) tableLoop(x *ssa.Phi) *abs {
	h := x.Block()
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || e.index != nil || !isTextType(x.Type()) || len(x.Edges) != 2 {
		return nil
	}
	body := h.Succs[0]
	if len(body.Succs) != 1 || body.Succs[0] != h || len(body.Preds) != 1 {
		return nil
	}
	first, back := x.Edges[0], x.Edges[1]
	if h.Preds[0] == body {
		first, back = back, first
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS {
		return nil
	}
	index := cond.X
	start := int64(-1)
	ph, ok := index.(*ssa.Phi)
	if b, isB := index.(*ssa.BinOp); isB && b.Op == token.ADD && b.Block() == h {
		ph, ok = b.X.(*ssa.Phi)
	} else {
		start = 0
	}
	if !ok || ph.Block() != h || len(ph.Edges) != 2 {
		return nil
	}
	found, step := false, false
	for _, ed := range ph.Edges {
		if c, ok := ed.(*ssa.Const); ok && c.Value != nil && c.Int64() == start {
			found = true
		}
		if b, ok := ed.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ph {
			c, ok := b.Y.(*ssa.Const)
			step = ok && c.Value != nil && c.Int64() == 1
		}
	}
	if !found || !step {
		return nil
	}
	n := 0
	switch y := cond.Y.(type) {
	case *ssa.Const:
		n = int(y.Int64())
	case *ssa.Call:
		if calleeFullName(y) != "builtin.len" {
			return nil
		}
		t := e.tableAlloc(y.Call.Args[0])
		if t == nil {
			return nil
		}
		n = int(t.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	default:
		return nil
	}
	keep := map[ssa.Value]*abs{}
	for k, v := range e.memo {
		keep[k] = v
	}
	cur := e.eval(first)
	for e.row = 0; e.row < n && cur != nil; e.row++ {
		e.memo = map[ssa.Value]*abs{x: cur}
		for k, v := range keep {
			if _, ok := k.(*ssa.Parameter); ok {
				e.memo[k] = v
			}
		}
		e.index = index
		cur = e.eval(back)
		e.index = nil
	}
	e.memo = keep
	return cur
}

// tableAlloc is the array behind a constant table.
func (e *escEval) tableAlloc(v ssa.Value) *ssa.Alloc {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			if pt, ok := x.Type().Underlying().(*types.Pointer); ok {
				if _, ok := pt.Elem().Underlying().(*types.Array); ok {
					return x
				}
			}
			return nil
		case *ssa.Slice:
			if x.Low != nil || x.High != nil {
				return nil
			}
			v = x.X
		case *ssa.UnOp:
			g, ok := x.X.(*ssa.Global)
			if !ok || len(e.p.Flow().globStores[g]) != 1 {
				return nil
			}
			v = e.p.Flow().globStores[g][0]
		default:
			return nil
		}
	}
	return nil
}

// cell is the text a value has in the current row: path leads from the row to the text.
func (e *escEval) cell(v ssa.Value, path []int) (string, bool) {
	for i := 0; i < 12; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return "", false
			}
			v = x.X
		case *ssa.Index:
			c, ok := x.Index.(*ssa.Const)
			if !ok {
				return "", false
			}
			path = append([]int{int(c.Int64())}, path...)
			v = x.X
		case *ssa.Field:
			path = append([]int{x.Field}, path...)
			v = x.X
		case *ssa.FieldAddr:
			path = append([]int{x.Field}, path...)
			v = x.X
		case *ssa.IndexAddr:
			if x.Index == e.index {
				t := e.tableAlloc(x.X)
				if t == nil {
					return "", false
				}
				return e.stored(t, append([]int{e.row}, path...))
			}
			c, ok := x.Index.(*ssa.Const)
			if !ok {
				return "", false
			}
			path = append([]int{int(c.Int64())}, path...)
			v = x.X
		case *ssa.Alloc: // a copy of the row
			var val ssa.Value
			for _, ref := range *x.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == x {
					if val != nil {
						return "", false
					}
					val = st.Val
				}
			}
			if val == nil {
				return "", false
			}
			v = val
		default:
			return "", false
		}
	}
	return "", false
}

// stored is the constant stored at a path from an address.
func (e *escEval) stored(addr ssa.Value, path []int) (string, bool) {
	refs := addr.Referrers()
	if refs == nil {
		return "", false
	}
	if len(path) == 0 {
		got, n := "", 0
		for _, ref := range *refs {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == addr {
				s, ok := constString(st.Val)
				if !ok {
					return "", false
				}
				got = s
				n++
			}
		}
		return got, n == 1
	}
	for _, ref := range *refs {
		switch y := ref.(type) {
		case *ssa.IndexAddr:
			if c, ok := y.Index.(*ssa.Const); ok && y.X == addr && int(c.Int64()) == path[0] {
				if s, ok := e.stored(y, path[1:]); ok {
					return s, true
				}
			}
		case *ssa.FieldAddr:
			if y.Field == path[0] {
				if s, ok := e.stored(y, path[1:]); ok {
					return s, true
				}
			}
		case *ssa.Store:
			if y.Addr == addr {
				if t := e.tableAlloc(y.Val); t != nil {
					return e.stored(t, path)
				}
				if u, ok := y.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
					if a, ok := u.X.(*ssa.Alloc); ok {
						return e.stored(a, path)
					}
				}
			}
		}
	}
	return "", false
}

// loopOutputs collects the text added in one round of the loop over the characters.
func (e *escEval) loopOutputs() ([]string, string) {
	heads := map[*ssa.BasicBlock]bool{}
	for _, b := range e.fn.Blocks {
		if !e.reach[b] {
			continue
		}
		for _, s := range b.Succs {
			if e.edges[[2]*ssa.BasicBlock{b, s}] && s.Dominates(b) {
				heads[s] = true
			}
		}
	}
	set := map[string]bool{}
	delegated := false
	for _, b := range e.fn.Blocks {
		// text outside loops
		if !e.reach[b] {
			continue
		}
		in := false
		for h := range heads {
			if h.Dominates(b) && e.reaches(b, h) {
				in = true
			}
		}
		if in {
			continue
		}
		for _, ins := range b.Instrs {
			if ps, ok := e.piece(ins); ok {
				if len(ps) == 0 {
					return nil, "it adds text that does not come from a single character"
				}
				if c, ok := ins.(*ssa.Call); ok && e.into(c) != nil {
					delegated = true
				}
				for _, s := range ps {
					set[s] = true
				}
			}
		}
	}
	if len(heads) == 0 && !delegated {
		return nil, "its result is not put together in a loop"
	}
	n := 0
	for h := range heads {
		var walk func(b *ssa.BasicBlock, acc []string, on map[*ssa.BasicBlock]int) string
		walk = func(b *ssa.BasicBlock, acc []string, on map[*ssa.BasicBlock]int) string {
			n++
			if n > 4000 {
				return "it has too many paths"
			}
			for _, ins := range b.Instrs {
				ps, ok := e.piece(ins)
				if !ok {
					continue
				}
				if len(ps) == 0 {
					return "it adds text that does not come from a single character"
				}
				var next []string
				for _, a := range acc {
					for _, q := range ps {
						next = append(next, a+q)
					}
				}
				if len(next) > 4096 {
					return "it has too many outcomes"
				}
				acc = next
			}
			on[b]++
			defer func() { on[b]-- }()
			inner := b != h && heads[b] // a loop in the loop: one round, then on
			entered := false
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && inner && on[b] == 1 {
				entered = e.overText(iff.Cond)
			}
			for _, s := range b.Succs {
				if !e.edges[[2]*ssa.BasicBlock{b, s}] {
					continue
				}
				stays := b.Dominates(s) && e.reaches(s, b)
				if inner && (on[b] > 1 && stays || entered && !stays) {
					continue
				}
				if s == h {
					for _, a := range acc {
						set[a] = true
					}
					continue
				}
				if on[s] > 1 || on[s] == 1 && !heads[s] || !h.Dominates(s) || !e.reaches(s, h) {
					if on[s] == 0 && b != h { // leaving the loop early
						for _, a := range acc {
							set[a] = true
						}
					}
					continue
				}
				if w := walk(s, acc, on); w != "" {
					return w
				}
			}
			return ""
		}
		if w := walk(h, []string{""}, map[*ssa.BasicBlock]int{}); w != "" {
			return nil, w
		}
	}
	var out []string
	for s := range set {
		out = append(out, s)
	}
	return out, ""
}

func (e *escEval) reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if !e.edges[[2]*ssa.BasicBlock{b, s}] {
				continue
			}
			if s == to {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(from)
}

// stringSafe: can the text stand in a literal string without ending it, opening another or escaping what follows?
func stringSafe(s string) bool {
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			i++
			if i >= len(s) {
				return false
			}
		case '(', ')':
			return false
		}
	}
	return true
}

// xmlSafe: can the text stand in character data and attribute values without being markup?
func xmlSafe(s string) bool {
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '<', '"':
			return false
		case '&':
			if j := strings.IndexByte(s[i:], ';'); j < 2 || strings.ContainsAny(s[i+1:i+j], "& <") {
				return false
			}
		}
	}
	return true
}

// nameSafe: does the text consist of regular characters only?
func nameSafe(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] <= ' ' || s[i] == 0x7F || strings.IndexByte("()<>[]{}/%", s[i]) >= 0 {
			return false
		}
	}
	return true
}

// stringText is what a reader makes of the content of a literal string.
func stringText(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '\r' {
			b = append(b, '\n')
			if i+1 < len(s) && s[i+1] == '\n' {
				i++
			}
			continue
		}
		if s[i] != '\\' || i+1 >= len(s) {
			b = append(b, s[i])
			continue
		}
		i++
		switch c := s[i]; c {
		case 'n':
			b = append(b, '\n')
		case 'r':
			b = append(b, '\r')
		case 't':
			b = append(b, '\t')
		case 'b':
			b = append(b, '\b')
		case 'f':
			b = append(b, '\f')
		case '\n':
		case '\r':
		default:
			if c < '0' || c > '7' {
				b = append(b, c)
				break
			}
			n := 0
			j := i
			for ; j < len(s) && j < i+3 && s[j] >= '0' && s[j] <= '7'; j++ {
				n = n*8 + int(s[j]-'0')
			}
			i = j - 1
			b = append(b, byte(n))
		}
	}
	return string(b)
}
