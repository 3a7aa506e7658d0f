package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C10"] = checkC10 }

// lexCtx is where in PDF syntax a piece of text stands.
type lexCtx int

const (
	inPlain lexCtx = iota
	inString
	inName
)

func (c lexCtx) String() string {
	return [...]string{"as PDF syntax", "inside a literal string", "inside a name"}[c]
}

type lexState struct {
	ctx   lexCtx
	depth int
}

// after is the state behind constant text.
func (s lexState) after(text string) lexState {
	for i := 0; i < len(text); i++ {
		c := text[i]
		if s.ctx == inString {
			switch c {
			case '\\':
				i++
			case '(':
				s.depth++
			case ')':
				if s.depth--; s.depth == 0 {
					s.ctx = inPlain
				}
			}
			continue
		}
		switch {
		case c == '(':
			s = lexState{inString, 1}
		case c == '/':
			s.ctx = inName
		case s.ctx == inName && !nameSafe(string(c)):
			s.ctx = inPlain
		}
	}
	return s
}

// formatPiece is one verb of a format with the state in front of it.
type formatPiece struct {
	verb byte
	arg  int
	pre  lexState
}

func formatPieces(f string, st lexState) (out []formatPiece, end lexState) {
	n := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			return out, st.after(f[i:])
		}
		st = st.after(f[i : i+j])
		i += j + 1
		for i < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[i]) >= 0 {
			if f[i] == '*' {
				n++
			}
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			st = st.after("%")
		} else {
			out = append(out, formatPiece{f[i], n, st})
			n++
		}
		i++
	}
	return out, st
}

// rawByContract: parameters and fields that are documented to take PDF syntax.
func (p *Program) rawByContract(fn *ssa.Function, name string) bool {
	switch p.libName(fn) {
	case "(core/write.ContentStream).Raw", "(core/write.ContentStream).ShowTextHex", "(core/write.PDFWriter).SetVersion":
		return true
	}
	return false
}

type textWalk struct {
	p     *Program
	f     *Flow
	r     *Result
	seen  map[textState]bool
	bad   map[string]bool
	comps map[ssa.Instruction]bool
	escs  map[string]bool
	given map[*types.Named]bool // types a caller can fill in or get hold of
	work  []*textItem
	xml   bool                                                          // outputs are XML, caller values are what is filled in
	hook  func(it *textItem, c *ssa.Call, fn *ssa.Function, k *escKind) // an escaper was met
}

type textState struct {
	v     ssa.Value
	stack string
	ctx   lexCtx
	filt  string
	part  string
}

type textItem struct {
	v    ssa.Value
	st   *callStr
	ctx  lexCtx
	filt *typeFilter
	part *mapPart
	prev *textItem
}

// mapPart says which part of the maps around a text is meant, outermost first.
type mapPart struct {
	key  bool
	filt *typeFilter // of that part
	rest *mapPart
}

func (m *mapPart) String() string {
	s := ""
	for ; m != nil; m = m.rest {
		if m.key {
			s += "k"
		} else {
			s += "v"
		}
		s += m.filt.String()
	}
	return s
}

// within drops levels below the n outermost ones.
func (m *mapPart) within(n int) *mapPart {
	if m == nil || n == 0 {
		return nil
	}
	return &mapPart{m.key, m.filt, m.rest.within(n - 1)}
}

// typeFilter restricts the dynamic type of an interface value.
type typeFilter struct {
	only types.Type
	not  []types.Type
}

func (f *typeFilter) String() string {
	if f == nil {
		return ""
	}
	if f.only != nil {
		return f.only.String()
	}
	s := "!"
	for _, t := range f.not {
		s += t.String() + ","
	}
	return s
}

func (f *typeFilter) admits(t types.Type) bool {
	if f == nil {
		return true
	}
	if f.only != nil {
		return types.Identical(f.only, t)
	}
	for _, n := range f.not {
		if types.Identical(n, t) {
			return false
		}
	}
	return true
}

// ruledOut: the types a value was found not to have on the way to a block
func ruledOut(v ssa.Value, b *ssa.BasicBlock) *typeFilter {
	var out []types.Type
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pb := d.Preds[0]
		iff, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If)
		if !ok || pb.Succs[0] == pb.Succs[1] {
			continue
		}
		pol := pb.Succs[0] == d
		cond := iff.Cond
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, pol = u.X, !pol
		}
		if ex, ok := cond.(*ssa.Extract); ok && ex.Index == 1 && !pol {
			if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok && ta.X == v {
				out = append(out, ta.AssertedType)
			}
		}
	}
	if out == nil {
		return nil
	}
	return &typeFilter{not: out}
}

func checkC10(p *Program, tier string) *Result {
	r := &Result{}
	t := p.newTextWalk(r)
	t.outputs(writesPDF, func(fn *ssa.Function, v ssa.Value) bool { return !isStringType(v.Type()) || p.alsoBytes(fn) })
	t.run()
	r.Count("values traced", len(t.seen))
	r.Count("places that put text together", len(t.comps))
	r.Count("escaping functions verified", len(t.escs))
	r.Floor("outputs", 10)
	r.Floor("escaping functions verified", 3)
	r.Explanation = "From every document or content the writing packages hand out, every text that can become part of it is traced backwards (calls matched with returns, fields, buffers, maps, type switches) " +
		"with the lexical position in PDF syntax it takes: inside ( ), after a slash, or as syntax. Text of the caller must pass a function that is shown, character by character, to produce nothing that ends that token."
	return r
}

func (p *Program) newTextWalk(r *Result) *textWalk {
	return &textWalk{p: p, f: p.Flow(), r: r, seen: map[textState]bool{}, bad: map[string]bool{}, comps: map[ssa.Instruction]bool{}, escs: map[string]bool{}, given: map[*types.Named]bool{}}
}

// outputs starts at the text that exported functions of some packages return, and at what they write.
func (t *textWalk) outputs(in func(*ssa.Function) bool, result func(*ssa.Function, ssa.Value) bool) {
	p := t.p
	for _, fn := range p.All {
		if !p.inLib(fn) || !in(fn) {
			continue
		}
		api := p.isLib[fn] && exportedAPI(fn)
		if api {
			for _, pr := range fn.Params {
				t.give(pr.Type())
			}
			t.give(fn.Signature.Results())
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Return:
					if !api {
						continue
					}
					for _, v := range x.Results {
						if isTextType(v.Type()) && result(fn, v) {
							t.r.Count("outputs", 1)
							t.push(v, nil, inPlain, nil, nil, nil)
						}
					}
				case ssa.CallInstruction:
					com := x.Common()
					if com.IsInvoke() && com.Method.Name() == "Write" {
						t.r.Count("outputs", 1)
						t.push(com.Args[0], nil, inPlain, nil, nil, nil)
					}
				}
			}
		}
	}
}

// give notes the types reachable through exported fields.
func (t *textWalk) give(x types.Type) {
	switch u := x.(type) {
	case *types.Pointer:
		t.give(u.Elem())
	case *types.Slice:
		t.give(u.Elem())
	case *types.Array:
		t.give(u.Elem())
	case *types.Map:
		t.give(u.Key())
		t.give(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			t.give(u.At(i).Type())
		}
	case *types.Named:
		if t.given[u] || u.Obj().Pkg() == nil || !strings.HasPrefix(u.Obj().Pkg().Path(), t.p.Module) {
			return
		}
		t.given[u] = true
		if s, ok := u.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Exported() {
					t.give(s.Field(i).Type())
				}
			}
		} else {
			t.give(u.Underlying())
		}
	}
}

// alsoBytes: a method String of a type that has a method Bytes
func (p *Program) alsoBytes(fn *ssa.Function) bool {
	recv := fn.Signature.Recv()
	if recv == nil || fn.Name() != "String" {
		return false
	}
	o, _, _ := types.LookupFieldOrMethod(recv.Type(), true, fnPackage(fn).Pkg, "Bytes")
	return o != nil
}

// writesPDF: packages whose exported functions produce PDF syntax.
func writesPDF(fn *ssa.Function) bool {
	pkg := fnPackage(fn)
	if pkg == nil {
		return false
	}
	for _, s := range []string{"core/write", "core/manipulate", "forms/acroform", "forms/xfa", "resources/font", "forms", "pdfer"} {
		if strings.HasSuffix(pkg.Pkg.Path(), "/"+s) {
			return true
		}
	}
	return false
}

func (t *textWalk) push(v ssa.Value, st *callStr, ctx lexCtx, filt *typeFilter, part *mapPart, prev *textItem) {
	if v == nil || !carries(v.Type(), false) {
		return
	}
	if part != nil && (isTextType(v.Type()) || isByte(v.Type())) {
		return // no map of the expected depth
	}
	part = part.within(4) // dictionaries may be nested to any depth
	k := textState{v, t.f.key(st), ctx, filt.String(), part.String()}
	if t.seen[k] {
		return
	}
	t.seen[k] = true
	t.work = append(t.work, &textItem{v, st, ctx, filt, part, prev})
}

func (t *textWalk) run() {
	for len(t.work) > 0 {
		it := t.work[0]
		t.work = t.work[1:]
		if len(t.seen) > 2000000 {
			t.r.Violate("unexplored", "limit", "-", "more than 2000000 values flow into documents")
			return
		}
		t.step(it)
	}
}

func (t *textWalk) step(it *textItem) {
	start := lexState{ctx: it.ctx} // where this text begins
	if it.ctx == inString {
		start.depth = 1
	}
	switch x := it.v.(type) {
	case *ssa.Const, *ssa.Function:
		return
	case *ssa.MakeInterface:
		if it.filt.admits(x.X.Type()) {
			t.push(x.X, it.st, it.ctx, nil, it.part, it)
		}
		return
	case *ssa.TypeAssert:
		if !types.IsInterface(x.AssertedType) {
			t.push(x.X, it.st, it.ctx, &typeFilter{only: x.AssertedType}, it.part, it)
			return
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			t.push(x.X, it.st, it.ctx, nil, &mapPart{false, it.filt, it.part}, it)
			return
		}
	case *ssa.Extract:
		switch tu := x.Tuple.(type) {
		case *ssa.TypeAssert:
			if x.Index == 0 && !types.IsInterface(tu.AssertedType) {
				t.push(tu.X, it.st, it.ctx, &typeFilter{only: tu.AssertedType}, it.part, it)
				return
			}
		case *ssa.Lookup:
			if _, ok := tu.X.Type().Underlying().(*types.Map); ok {
				if x.Index == 0 {
					t.push(tu.X, it.st, it.ctx, nil, &mapPart{false, it.filt, it.part}, it)
				}
				return
			}
		case *ssa.Call:
			if t.call(it, tu, start) {
				return
			}
		case *ssa.Next:
			if r, ok := tu.Iter.(*ssa.Range); ok {
				if _, ok := r.X.Type().Underlying().(*types.Map); ok {
					switch x.Index {
					case 1:
						t.push(r.X, it.st, it.ctx, nil, &mapPart{true, it.filt, it.part}, it)
					case 2:
						t.push(r.X, it.st, it.ctx, nil, &mapPart{false, it.filt, it.part}, it)
					}
					return
				}
			}
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isStringType(x.Type()) {
			t.comps[x] = true
			s := start
			for _, o := range addends(x) {
				if c, ok := constString(o); ok {
					s = s.after(c)
					continue
				}
				t.push(o, it.st, s.ctx, it.filt, it.part, it)
			}
			return
		}
	case *ssa.Call:
		if t.call(it, x, start) {
			return
		}
	}
	if t.root(it) {
		return
	}
	if stopsText(it.v) {
		return
	}
	for _, s := range t.f.preds(it.v, it.st, FlowOpts{}, nil) {
		part, filt := it.part, it.filt
		switch c := s.ins.(type) {
		case *ssa.MapUpdate:
			if part != nil {
				if part.key && s.v != c.Key || !part.key && s.v != c.Value {
					continue
				}
				part, filt = part.rest, part.filt
			}
		case ssa.CallInstruction:
			name := calleeFullName(c)
			com := c.Common()
			if strings.HasPrefix(name, "crypto/") {
				continue
			}
			if name == "fmt.Fprintf" {
				if s.v == com.Args[1] {
					t.format(it, c, com.Args[1], com.Args[2], s.st, t.before(c, com.Args[0], s.st, start))
				}
				continue
			}
			if recv, rest, ok := textWriter(c); ok {
				written := false
				for _, a := range rest {
					written = written || a == s.v
				}
				if !written {
					continue
				}
				t.comps[c] = true
				in := t.before(c, recv, s.st, start).ctx
				if k := t.p.escaper(c.Parent()); k != nil && k.outputs != nil && !t.xml && c.Parent().Signature.Results().Len() == 0 && (in == inString && k.str || in == inName && k.name) {
					t.escs[t.p.libName(c.Parent())] = true
					continue
				}
				t.push(s.v, s.st, in, nil, part, it)
				continue
			}
		}
		t.push(s.v, s.st, it.ctx, filt, part, it)
	}
}

// textWriter: a call that writes its other arguments as they are
func textWriter(c ssa.CallInstruction) (recv ssa.Value, rest []ssa.Value, ok bool) {
	com := c.Common()
	name := calleeFullName(c)
	switch {
	case isWriterMethod(name) && com.IsInvoke():
		return com.Value, com.Args, true
	case isWriterMethod(name) || name == "io.WriteString":
		return com.Args[0], com.Args[1:], true
	}
	return nil, nil, false
}

// addends of a concatenation from left to right
func addends(v ssa.Value) []ssa.Value {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		return append(addends(b.X), addends(b.Y)...)
	}
	return []ssa.Value{v}
}

// before is the state after what was written to the same place before a call.
func (t *textWalk) before(c ssa.CallInstruction, recv ssa.Value, st *callStr, start lexState) lexState {
	return t.stateIn(c.Block(), c.(ssa.Instruction), recv, st, start, map[*ssa.BasicBlock]bool{})
}

func (t *textWalk) stateIn(b *ssa.BasicBlock, until ssa.Instruction, recv ssa.Value, st *callStr, start lexState, open map[*ssa.BasicBlock]bool) lexState {
	s := start
	open[b] = true
	n := 0
	for _, pb := range b.Preds {
		if open[pb] || b.Dominates(pb) {
			continue // each round of a loop leaves complete tokens
		}
		q := t.stateIn(pb, nil, recv, st, start, open)
		if n++; n > 1 && q != s {
			s = start
			break
		}
		s = q
	}
	delete(open, b)
	if len(b.Preds) == 0 && st != nil {
		for i, pr := range b.Parent().Params {
			if as := argsFor(st.c.Common()); pr == recv && i < len(as) {
				s = t.before(st.c, as[i], st.up, start)
			}
		}
	}
	for _, ins := range b.Instrs {
		if ins == until {
			break
		}
		o, ok := ins.(ssa.CallInstruction)
		if !ok {
			continue
		}
		name := calleeFullName(o)
		com := o.Common()
		if name == "fmt.Fprintf" && sameRecv(com.Args[0], recv) {
			if f, ok := constString(com.Args[1]); ok {
				_, s = formatPieces(f, s)
			}
			continue
		}
		w, args, ok := textWriter(o)
		if !ok || !sameRecv(w, recv) {
			continue
		}
		for _, a := range args {
			s = t.afterValue(s, a)
		}
	}
	return s
}

// afterValue is the state behind a written value: constant parts count, others are taken to be complete.
func (t *textWalk) afterValue(s lexState, v ssa.Value) lexState {
	switch x := v.(type) {
	case *ssa.Const:
		if c, ok := constString(x); ok {
			return s.after(c)
		}
		if n, ok := constInt(x); ok && n > 0 && n < 0x80 {
			return s.after(string(rune(n)))
		}
	case *ssa.Convert:
		if isTextType(x.X.Type()) {
			return t.afterValue(s, x.X)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			for _, o := range addends(x) {
				s = t.afterValue(s, o)
			}
		}
	case *ssa.Call:
		if calleeFullName(x) == "fmt.Sprintf" {
			if f, ok := constString(x.Call.Args[0]); ok {
				_, s = formatPieces(f, s)
			}
		}
	}
	return s
}

func sameRecv(a, b ssa.Value) bool {
	strip := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.ChangeInterface:
				v = x.X
			default:
				return v
			}
		}
	}
	a, b = strip(a), strip(b)
	if a == b {
		return true
	}
	fa, ok := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	return ok && ok2 && fa.Field == fb.Field && fa.X == fb.X
}

// call handles calls that put text together, escape it or end the trace.
func (t *textWalk) call(it *textItem, c *ssa.Call, start lexState) bool {
	name := calleeFullName(c)
	args := c.Call.Args
	switch {
	case name == "fmt.Sprintf":
		t.format(it, c, args[0], args[1], it.st, start)
		return true
	case name == "fmt.Errorf", name == "builtin.len", strings.HasPrefix(name, "strconv.Itoa"), strings.HasPrefix(name, "strconv.Format"),
		strings.HasPrefix(name, "encoding/hex.EncodeToString"), strings.HasPrefix(name, "crypto/"),
		strings.HasPrefix(name, "(crypto/"), name == "(time.Time).Format", strings.HasPrefix(name, "os."):
		return true
	}
	for _, fn := range t.p.Callees(c) {
		k := t.p.escaper(fn)
		if k == nil || k.outputs == nil {
			continue
		}
		if t.xml {
			if k.xml {
				t.escs[t.p.libName(fn)] = true
				return true
			}
			continue
		}
		t.escs[t.p.libName(fn)] = true
		if t.hook != nil {
			t.hook(it, c, fn, k)
		}
		if it.ctx == inString && k.str || it.ctx == inName && k.name {
			return true
		}
		if it.ctx == inPlain && (k.str || k.name) {
			// escaped text that is used as syntax ends nothing by itself only if it is a complete token
			t.report(it, "escaped-text-as-syntax", c, "the result of "+t.p.libName(fn)+", which is escaped for a token, is used as PDF syntax")
			return true
		}
	}
	return false
}

func (t *textWalk) format(it *textItem, c ssa.CallInstruction, f, packed ssa.Value, st *callStr, s lexState) {
	t.comps[c] = true
	vs, okv := variadic(packed)
	fs, okf := constString(f)
	if !okf || !okv {
		t.push(f, st, it.ctx, nil, it.part, it)
		t.push(packed, st, it.ctx, nil, it.part, it)
		return
	}
	ps, _ := formatPieces(fs, s)
	for _, q := range ps {
		if q.arg >= len(vs) {
			continue
		}
		switch q.verb {
		case 's', 'v', 'q':
			t.push(vs[q.arg], st, q.pre.ctx, ruledOut(vs[q.arg], c.Block()), it.part, it)
		}
	}
}

func stopsText(v ssa.Value) bool {
	t := v.Type().String()
	return strings.HasPrefix(t, "hash.") || strings.HasPrefix(t, "crypto/") || isErrorType(v.Type()) || t == "*regexp.Regexp"
}

// root: text that a caller of the library supplies.
func (t *textWalk) root(it *textItem) bool {
	p := t.p
	report := func(what string) {
		t.report(it, "unescaped", it.v.(interface{ Pos() token.Pos }), what)
	}
	switch x := it.v.(type) {
	case *ssa.Parameter:
		fn := x.Parent()
		if it.st != nil || !exportedAPI(fn) || !p.isLib[fn] || fn.Signature.Recv() != nil && fn.Params[0] == x {
			return false
		}
		if !textual(x.Type(), it.filt, it.part) || p.rawByContract(fn, x.Name()) || t.xml && (isStringType(x.Type()) || !strings.Contains(fnPackage(fn).Pkg.Path(), "/forms/xfa")) {
			return false
		}
		report(p.libName(fn) + " parameter " + x.Name())
		return true
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || x.Op != token.MUL {
			return false
		}
		return t.fieldRoot(it, fa.X.Type(), fa.Field, x.Type(), report)
	case *ssa.Field:
		return t.fieldRoot(it, x.X.Type(), x.Field, x.Type(), report)
	}
	return false
}

func (t *textWalk) fieldRoot(it *textItem, st types.Type, i int, ft types.Type, report func(string)) bool {
	if pt, ok := st.Underlying().(*types.Pointer); ok {
		st = pt.Elem()
	}
	n, ok := st.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !n.Obj().Exported() || !t.given[n] {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok || !s.Field(i).Exported() || !textual(ft, it.filt, it.part) {
		return false
	}
	if s.Field(i).Name() == "Destination" && (n.Obj().Name() == "Bookmark" || n.Obj().Name() == "Action") {
		return true // an explicit destination in PDF syntax
	}
	report("field " + n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + s.Field(i).Name())
	return true
}

// textual: does the type hold text of a caller, as opposed to a document or syntax tree?
func textual(t types.Type, filt *typeFilter, part *mapPart) bool {
	if filt != nil && types.IsInterface(t) {
		return filt.admits(types.Typ[types.String])
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return !types.Identical(u.Elem(), types.Typ[types.Uint8]) && textual(u.Elem(), nil, part)
	case *types.Map:
		if n, ok := t.(*types.Named); ok && n.Obj().Name() == "Dictionary" {
			return false
		}
		if part == nil {
			return textual(u.Key(), nil, nil) || textual(u.Elem(), nil, nil)
		}
		return part.key && textual(u.Key(), part.filt, part.rest) || !part.key && textual(u.Elem(), part.filt, part.rest)
	case *types.Interface:
		return u.NumMethods() == 0
	}
	return false
}

func (t *textWalk) report(it *textItem, rule string, at interface{ Pos() token.Pos }, what string) {
	var chain []string
	var ctxAt string
	for q := it; q != nil; q = q.prev {
		if q.ctx == it.ctx {
			if i, ok := q.v.(ssa.Instruction); ok && i.Parent() != nil {
				ctxAt = t.p.libName(i.Parent())
			}
		}
		if i, ok := q.v.(ssa.Instruction); ok && i.Pos().IsValid() {
			s := t.p.Pos(i.Pos())
			if len(chain) == 0 || chain[len(chain)-1] != s {
				chain = append(chain, s)
			}
		}
	}
	if len(chain) > 40 {
		chain = append(append([]string{}, chain[:9]...), "...", chain[len(chain)-1])
	}
	key := what + "|" + ctxAt + "|" + fmt.Sprint(int(it.ctx))
	if t.bad[rule+key] {
		return
	}
	t.bad[rule+key] = true
	t.r.Violate(rule, key, t.p.Pos(at.Pos()), "%s reaches the document %s: %s", what, it.ctx, strings.Join(chain, " <- "))
	sort.Slice(t.r.Violations, func(i, j int) bool { return t.r.Violations[i].Key < t.r.Violations[j].Key })
}

func constInt(c *ssa.Const) (int64, bool) {
	if c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32)
}
