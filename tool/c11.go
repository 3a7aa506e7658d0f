package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"html"
	"sort"
	"strings"
	"unicode/utf16"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C11"] = checkC11 }

func checkC11(p *Program, tier string) *Result {
	r := &Result{}
	c := &literalCheck{p: p, f: p.Flow(), r: r, done: map[string]bool{}}
	for _, fn := range p.All {
		if p.inLib(fn) {
			c.mechanisms(fn)
		}
	}
	c.escapers()
	c.unaltered()
	c.markup()
	c.elementNames()
	r.Floor("patterns", 20)
	r.Floor("replacement templates", 2)
	r.Floor("escaping functions shown to be reversible", 3)
	r.Floor("values followed to their caller", 3)
	r.Explanation = "Everything that becomes a regular expression, a replacement template or a format is shown to be put together from constants, numbers and quoted text. " +
		"Every function that escapes caller text is shown, character by character, to be reversible by a reader. Between the caller and the escaping, a form value is not trimmed, cut, recased or replaced. " +
		"Text of the caller that becomes part of XML passes an XML escaper or encoder, and names of elements a check that no other markup passes."
	return r
}

type literalCheck struct {
	p    *Program
	f    *Flow
	r    *Result
	done map[string]bool
}

func (c *literalCheck) violate(rule, key string, at token.Pos, format string, a ...interface{}) {
	if c.done[rule+key] {
		return
	}
	c.done[rule+key] = true
	c.r.Violate(rule, key, c.p.Pos(at), format, a...)
}

// mechanisms: the arguments of a function's calls that are interpreted rather than inserted
func (c *literalCheck) mechanisms(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			name := calleeFullName(ci)
			args := ci.Common().Args
			switch name {
			case "regexp.MustCompile", "regexp.Compile", "regexp.MatchString", "regexp.Match", "regexp.MatchReader", "regexp.CompilePOSIX", "regexp.MustCompilePOSIX":
				c.r.Count("patterns", 1)
				c.constantParts(ci, args[0], "regular expression", "regexp.QuoteMeta")
			case "(*regexp.Regexp).ReplaceAll", "(*regexp.Regexp).ReplaceAllString":
				c.r.Count("replacement templates", 1)
				c.constantParts(ci, args[2], "replacement template", "$$")
			case "(*regexp.Regexp).Expand", "(*regexp.Regexp).ExpandString":
				c.r.Count("replacement templates", 1)
				c.constantParts(ci, args[2], "replacement template", "$$")
			case "fmt.Sprintf", "fmt.Errorf":
				c.r.Count("formats", 1)
				c.constantParts(ci, args[0], "format", "")
			case "fmt.Fprintf":
				c.r.Count("formats", 1)
				c.constantParts(ci, args[1], "format", "")
			case "(*text/template.Template).Parse", "(*html/template.Template).Parse":
				c.r.Count("replacement templates", 1)
				c.constantParts(ci, args[1], "template", "")
			}
		}
	}
}

type litState struct {
	v  ssa.Value
	st *callStr
}

// constantParts: is the value made of constants, numbers and quoted text?
func (c *literalCheck) constantParts(at ssa.CallInstruction, start ssa.Value, what, quote string) {
	if _, ok := constText(start); ok {
		return
	}
	p := c.p
	seen := map[flowState]bool{}
	work := []litState{{start, nil}}
	bad := func(v ssa.Value, why string) {
		c.violate("interpreted", what+"|"+p.libName(at.Parent())+"|"+why, at.Pos(), "the %s in %s is made of %s, which is not quoted", what, p.libName(at.Parent()), why)
	}
	for len(work) > 0 {
		it := work[0]
		work = work[1:]
		if it.v == nil {
			continue
		}
		k := flowState{it.v, c.f.key(it.st)}
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > 20000 {
			bad(it.v, "more values than can be followed")
			return
		}
		if isNumeric(it.v.Type()) || isErrorType(it.v.Type()) && quote == "" {
			continue
		}
		push := func(v ssa.Value) { work = append(work, litState{v, it.st}) }
		switch x := it.v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Builtin:
			continue
		case *ssa.Slice: // a part of a text is part of what it consists of
			push(x.X)
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				continue
			}
		case *ssa.Parameter:
			if it.st == nil && exportedAPI(x.Parent()) && p.isLib[x.Parent()] {
				if sig := x.Parent().Signature; what == "format" && sig.Variadic() && len(x.Parent().Params) > 1 && x == x.Parent().Params[len(x.Parent().Params)-2] {
					continue // the function itself takes a format
				}
				bad(x, "parameter "+x.Name()+" of "+p.libName(x.Parent()))
				continue
			}
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
				c.field(x, fa.X.Type(), fa.Field, what, bad)
				continue
			}
		case *ssa.Field:
			c.field(x, x.X.Type(), x.Field, what, bad)
			continue
		case *ssa.Extract:
			if cl, ok := x.Tuple.(*ssa.Call); ok {
				if len(p.Callees(cl)) == 0 {
					bad(x, "a result of "+calleeFullName(cl))
					continue
				}
			}
		case *ssa.Call:
			name := calleeFullName(x)
			args := x.Call.Args
			switch {
			case name == "regexp.QuoteMeta" && quote == name, strings.HasPrefix(name, "strconv.Itoa"), strings.HasPrefix(name, "strconv.Format"), name == "builtin.len":
				continue
			case quote == "$$" && name == "strings.ReplaceAll":
				if o, ok := constString(args[1]); ok && o == "$" {
					if n, ok := constString(args[2]); ok && n == "$$" {
						continue
					}
				}
			case name == "fmt.Sprintf":
				vs, ok := variadic(args[1])
				f, ok2 := constString(args[0])
				if ok && ok2 {
					ps, _ := formatPieces(f, lexState{})
					for _, q := range ps {
						if strings.IndexByte("dxXobeEfFgGct", q.verb) < 0 && q.arg < len(vs) {
							push(vs[q.arg])
						}
					}
					continue
				}
			}
			if len(p.Callees(x)) == 0 && !strings.HasPrefix(name, "strings.") && !strings.HasPrefix(name, "bytes.") && !strings.HasPrefix(name, "builtin.") && !strings.HasPrefix(name, "(*strings.Builder).") && !strings.HasPrefix(name, "(*bytes.Buffer).") && !strings.HasPrefix(name, "fmt.Sprint") {
				bad(x, "a result of "+name)
				continue
			}
		case *ssa.MakeInterface:
			push(x.X)
			continue
		}
		for _, s := range c.f.preds(it.v, it.st, FlowOpts{}, nil) {
			work = append(work, litState{s.v, s.st})
		}
	}
}

func (c *literalCheck) field(v ssa.Value, st types.Type, i int, what string, bad func(ssa.Value, string)) {
	if pt, ok := st.Underlying().(*types.Pointer); ok {
		st = pt.Elem()
	}
	s, ok := st.Underlying().(*types.Struct)
	if !ok {
		return
	}
	name := s.Field(i).Name()
	if what == "regular expression" && name == "Pattern" {
		return // a field for regular expressions
	}
	n, _ := st.(*types.Named)
	tn := "a structure"
	if n != nil {
		tn = n.Obj().Name()
	}
	bad(v, "field "+tn+"."+name)
}

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0 && b.Kind() != types.Uint8 && b.Kind() != types.Int32
}

// escapers: what they produce is read back as the character it stands for
func (c *literalCheck) escapers() {
	tr := &Result{}
	t := c.p.newTextWalk(tr)
	used := map[*ssa.Function]map[lexCtx]bool{}
	stored := map[*ssa.Function]bool{} // not just shown on a page
	t.hook = func(it *textItem, call *ssa.Call, fn *ssa.Function, k *escKind) {
		if used[fn] == nil {
			used[fn] = map[lexCtx]bool{}
		}
		used[fn][it.ctx] = true
		if !shownOnly(it) {
			stored[fn] = true
		}
	}
	t.outputs(writesPDF, func(fn *ssa.Function, v ssa.Value) bool { return !isStringType(v.Type()) || c.p.alsoBytes(fn) })
	t.run()
	var fns []*ssa.Function
	for fn := range used {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return c.p.libName(fns[i]) < c.p.libName(fns[j]) })
	for _, fn := range fns {
		k := c.p.escaper(fn)
		c.r.Count("escaping functions shown to be reversible", 1)
		for _, ch := range probeChars {
			for _, o := range k.outputs[ch] {
				if used[fn][inString] && k.str && (ch <= 0xFF || stored[fn]) && !(k.sampled[ch] && exactOctal(o)) && !readsAs(o, ch) {
					c.violate("lossy", c.p.libName(fn), fn.Pos(), "%s turns %q into %q, which is not read back as the same text", c.p.libName(fn), string(ch), o)
				}
				if used[fn][inName] && k.name && !used[fn][inString] && !k.sampled[ch] && !nameReadsAs(o, ch) {
					c.violate("lossy", c.p.libName(fn), fn.Pos(), "%s turns %q into %q, which is not read back as the same name", c.p.libName(fn), string(ch), o)
				}
			}
		}
	}
}

// shownOnly: is the text a string that a content stream shows, in a font with one-byte codes?
func shownOnly(it *textItem) bool {
	for n := 0; it != nil && n < 5; n++ {
		switch x := it.v.(type) {
		case *ssa.Call:
			if calleeFullName(x) == "fmt.Sprintf" {
				if f, ok := constString(x.Call.Args[0]); ok && strings.Contains(f, "Tj") {
					return true
				}
			}
		case *ssa.BinOp:
			for _, a := range addends(x) {
				if s, ok := constString(a); ok && strings.Contains(s, "Tj") {
					return true
				}
			}
		}
		it = it.prev
	}
	return false
}

// readsAs: does the content of a literal string stand for a character (or for nothing, like a byte order mark)?
func readsAs(o string, c rune) bool {
	if !exactOctal(o) {
		return false
	}
	s := stringText(o)
	if s == string(c) || c <= 0xFF && s == string([]byte{byte(c)}) {
		return true
	}
	return s == "\xFE\xFF" || s == utf16be(c)
}

func utf16be(c rune) string {
	var b []byte
	for _, u := range utf16.Encode([]rune{c}) {
		b = append(b, byte(u>>8), byte(u))
	}
	return string(b)
}

// exactOctal: octal escapes have three digits and stand for one byte
func exactOctal(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' || i+1 >= len(s) {
			continue
		}
		i++
		if s[i] < '0' || s[i] > '7' {
			continue
		}
		if i+2 >= len(s) || s[i] > '3' || s[i+1] < '0' || s[i+1] > '7' || s[i+2] < '0' || s[i+2] > '7' {
			return false
		}
		i += 2
		if i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9' {
			return false
		}
	}
	return true
}

func nameReadsAs(o string, c rune) bool {
	var b []byte
	for i := 0; i < len(o); i++ {
		if o[i] == '#' && i+2 < len(o) {
			var x byte
			if n, _ := fmt.Sscanf(o[i+1:i+3], "%02X", &x); n == 1 {
				b = append(b, x)
				i += 2
				continue
			}
		}
		b = append(b, o[i])
	}
	s := string(b)
	return s == string(c) || c > 0x7F && len(s) == 1 || c == 0
}

// unaltered: form values reach their escaping as the caller gave them
func (c *literalCheck) unaltered() {
	p := c.p
	for _, fn := range p.All {
		if !p.inLib(fn) || !strings.Contains(fnPackage(fn).Pkg.Path(), "/forms") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				var text ssa.Value
				switch calleeFullName(call) {
				case "encoding/xml.EscapeText", "encoding/xml.Escape":
					text = call.Call.Args[1]
				default:
					for _, t := range p.Callees(call) {
						if k := p.escaper(t); k != nil && k.outputs != nil && k.str && c.escapes(k) {
							for _, a := range call.Call.Args {
								if isStringType(a.Type()) {
									text = a
								}
							}
						}
					}
				}
				if text != nil && !c.insideEscaper(fn) {
					c.unalteredFrom(call, text)
				}
				c.tokens(call)
			}
		}
	}
}

func (c *literalCheck) escapes(k *escKind) bool {
	for ch, os := range k.outputs {
		for _, o := range os {
			if o != string(ch) && o != "" && ch < 0x80 {
				return true
			}
		}
	}
	return false
}

func (c *literalCheck) insideEscaper(fn *ssa.Function) bool {
	k := c.p.escaper(fn)
	return k != nil && k.outputs != nil && k.str
}

type altState struct {
	v   ssa.Value
	st  *callStr
	alt string
}

// unalteredFrom follows a text back to what the caller supplied.
func (c *literalCheck) unalteredFrom(at ssa.CallInstruction, start ssa.Value) {
	p := c.p
	seen := map[string]bool{}
	work := []altState{{start, nil, ""}}
	for len(work) > 0 {
		it := work[0]
		work = work[1:]
		if it.v == nil || stopsText(it.v) {
			continue
		}
		k := fmt.Sprintf("%d/%s/%s", c.f.id(it.v), c.f.key(it.st), it.alt)
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > 20000 {
			c.violate("unexplored", p.libName(at.Parent()), at.Pos(), "the origins of the text escaped in %s are too many", p.libName(at.Parent()))
			return
		}
		if ins, ok := it.v.(ssa.Instruction); ok && readsTokens(ins.Parent()) {
			continue // read from XML
		}
		alt := it.alt
		root := ""
		switch x := it.v.(type) {
		case *ssa.Lookup:
			root = callerMap(x.X)
		case *ssa.Extract:
			switch tu := x.Tuple.(type) {
			case *ssa.Lookup:
				root = callerMap(tu.X)
			case *ssa.Next:
				if r, ok := tu.Iter.(*ssa.Range); ok {
					root = callerMap(r.X)
				}
			}
		case *ssa.Field:
			if isTextOrAny(x.Type()) {
				root = "a field of " + x.X.Type().String()
			}
		case *ssa.Parameter:
			if it.st == nil && exportedAPI(x.Parent()) && p.isLib[x.Parent()] && textual(x.Type(), nil, nil) {
				root = "parameter " + x.Name() + " of " + p.libName(x.Parent())
			}
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && isTextOrAny(x.Type()) {
				if strings.HasPrefix(fa.X.Type().String(), "*encoding/xml.") {
					continue
				}
				root = "a field of " + fa.X.Type().String()
			}
		case *ssa.Convert:
			if rounds(x.X.Type(), x.Type()) {
				alt = "rounded at " + p.Pos(x.Pos())
			}
		case *ssa.Slice:
			if isTextType(x.X.Type()) && (x.Low != nil && !isZero(x.Low) || x.High != nil) {
				alt = "cut at " + p.Pos(x.Pos())
			}
		case *ssa.Call:
			name := calleeFullName(x)
			if i := strings.IndexByte(name, '.'); (strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "bytes.")) && altering(name[i+1:]) {
				alt = "passed through " + name + " at " + p.Pos(x.Pos())
			}
			if name == "strconv.FormatFloat" && !fullPrecision(x.Call.Args) {
				alt = "rounded at " + p.Pos(x.Pos())
			}
			if name == "fmt.Sprintf" && c.truncating(x) {
				alt = "formatted at " + p.Pos(x.Pos())
			}
		}
		if root != "" {
			c.r.Count("values followed to their caller", 1)
			if alt != "" {
				c.violate("altered", p.libName(at.Parent())+"|"+root, at.Pos(), "%s is %s before it is inserted in %s", root, alt, p.libName(at.Parent()))
			}
			continue
		}
		for _, s := range c.f.preds(it.v, it.st, FlowOpts{}, nil) {
			work = append(work, altState{s.v, s.st, alt})
		}
	}
}

// tokens: what is given to an XML encoder is character data as the caller gave it or a tag
func (c *literalCheck) tokens(call *ssa.Call) {
	name := calleeFullName(call)
	if !strings.HasPrefix(name, "(*encoding/xml.Encoder).Encode") {
		return
	}
	c.r.Count("XML tokens", 1)
	for _, a := range call.Call.Args[1:] {
		mi, ok := a.(*ssa.MakeInterface)
		if !ok {
			continue
		}
		n, ok := mi.X.Type().(*types.Named)
		if !ok {
			continue
		}
		switch n.Obj().Name() {
		case "Directive", "Comment", "ProcInst":
			if _, ok := constText(unconvert(mi.X)); !ok && n.Obj().Name() != "ProcInst" {
				c.violate("raw-token", c.p.libName(call.Parent()), call.Pos(), "%s writes a %s with text that is not a constant; the encoder does not escape it", c.p.libName(call.Parent()), n.Obj().Name())
			}
		case "CharData":
			c.unalteredFrom(call, mi.X)
		case "StartElement":
			c.unalteredFrom(call, mi.X)
		}
	}
}

func unconvert(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func fullPrecision(args []ssa.Value) bool {
	prec, ok := args[2].(*ssa.Const)
	bits, ok2 := args[3].(*ssa.Const)
	return ok && ok2 && prec.Int64() == -1 && bits.Int64() == 64
}

// rounds: does the conversion of a number lose digits?
func rounds(from, to types.Type) bool {
	f, ok := from.Underlying().(*types.Basic)
	t, ok2 := to.Underlying().(*types.Basic)
	if !ok || !ok2 {
		return false
	}
	return f.Info()&types.IsFloat != 0 && (t.Info()&types.IsInteger != 0 || f.Kind() == types.Float64 && t.Kind() == types.Float32)
}

// truncating: a format with a precision or width for a text, or a number format that drops digits
func (c *literalCheck) truncating(x *ssa.Call) bool {
	f, ok := constString(x.Call.Args[0])
	if !ok {
		return false
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		j := i + 1
		dot := false
		for j < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[j]) >= 0 {
			dot = dot || f[j] == '.'
			j++
		}
		if j < len(f) && (dot && strings.IndexByte("svqfgxX", f[j]) >= 0 || f[j] == 'q') {
			return true
		}
		i = j
	}
	return false
}

func altering(name string) bool {
	for _, s := range []string{"Trim", "ToLower", "ToUpper", "ToTitle", "Title", "Replace", "Map", "Fields", "ToValidUTF8", "Cut", "Split"} {
		if strings.HasPrefix(name, s) {
			return true
		}
	}
	return false
}

// readsTokens: does the function read XML?
func readsTokens(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if call, ok := ins.(*ssa.Call); ok && strings.HasPrefix(calleeFullName(call), "(*encoding/xml.Decoder).") {
				return true
			}
		}
	}
	return false
}

// callerMap: is it the form data, or a map that is a field of a structure?
func callerMap(v ssa.Value) string {
	if isFormData(v.Type()) {
		return "the form data"
	}
	if _, ok := v.Type().Underlying().(*types.Map); !ok {
		return ""
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return "a map in " + fa.X.Type().String()
		}
	case *ssa.Field:
		return "a map in " + x.X.Type().String()
	}
	return ""
}

func isFormData(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "FormData"
}

func isTextOrAny(t types.Type) bool {
	if isStringType(t) {
		return true
	}
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func isZero(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) == 0
}

// markup: caller values in XML pass an escaper or an encoder
func (c *literalCheck) markup() {
	tr := &Result{}
	t := c.p.newTextWalk(tr)
	t.xml = true
	t.outputs(func(fn *ssa.Function) bool {
		pkg := fnPackage(fn)
		return pkg != nil && strings.HasSuffix(pkg.Pkg.Path(), "/forms/xfa")
	}, func(fn *ssa.Function, v ssa.Value) bool { return true })
	t.run()
	c.r.Count("XML outputs", tr.Counts["outputs"])
	for _, v := range tr.Violations {
		v.Rule = "markup"
		c.r.Violations = append(c.r.Violations, v)
	}
	for _, fn := range c.p.All {
		if !c.p.inLib(fn) {
			continue
		}
		k := c.p.escMemo[fn]
		if k == nil || k.outputs == nil || !k.xml || !t.escs[c.p.libName(fn)] {
			continue
		}
		if o := k.outputs['(']; len(o) > 0 && strings.HasPrefix(o[0], "\\") {
			continue // for strings in PDF
		}
		for ch, os := range k.outputs {
			for _, o := range os {
				if html.UnescapeString(o) != string(ch) && ch >= ' ' {
					c.violate("lossy", c.p.libName(fn), fn.Pos(), "%s turns %q into %q, which is not read back as the same text", c.p.libName(fn), string(ch), o)
				}
			}
		}
	}
}

// elementNames: names of elements and attributes are constants or have been checked
func (c *literalCheck) elementNames() {
	p := c.p
	for _, fn := range p.All {
		if !p.inLib(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isXMLName(fa.X.Type()) || fa.Field != 1 {
					continue
				}
				c.r.Count("element and attribute names", 1)
				if _, ok := constText(st.Val); ok {
					continue
				}
				if why := c.checkedName(fn, st); why != "" {
					c.violate("element-name", p.libName(fn), st.Pos(), "%s makes an element or attribute of a name that %s", p.libName(fn), why)
				}
			}
		}
	}
}

func isXMLName(t types.Type) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	return t.String() == "encoding/xml.Name"
}

// checkedName: is a name with a special character kept away from the store?
func (c *literalCheck) checkedName(fn *ssa.Function, st *ssa.Store) string {
	for _, ch := range "<>&\"'/= \n\t()" {
		e := &escEval{p: c.p, esc: c.p.escaper, fn: fn, text: map[ssa.Value]bool{st.Val: true}, char: map[ssa.Value]bool{}, c: ch}
		e.run(nil)
		if e.reach[st.Block()] {
			return fmt.Sprintf("may contain %q", string(ch))
		}
	}
	return ""
}

// constText: a text made of constants only
func constText(v ssa.Value) (string, bool) {
	if s, ok := constString(v); ok {
		return s, true
	}
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		x, ok := constText(b.X)
		y, ok2 := constText(b.Y)
		return x + y, ok && ok2
	}
	return "", false
}
