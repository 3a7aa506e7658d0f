package main

// C17: what is not implemented is refused. The functions that decide by a filter name, a predictor, an encryption
// version, a font table format and the like are evaluated by conditional constant propagation with values that are
// not implemented: no return with a nil error may stay reachable.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C17"] = checkC17 }

type c17 struct {
	p    *Program
	r    *Result
	memo map[string]bool

	undecided int
}

var filterNamePattern = regexp.MustCompile(`^/?[A-Za-z0-9]+Decode$`)
var filterInText = regexp.MustCompile(`/Filter\s*\[?\s*/([A-Za-z0-9]+)`)

// filterAbbreviations are the short names of filters.
var filterAbbreviations = map[string]string{"Fl": "FlateDecode", "AHx": "ASCIIHexDecode", "A85": "ASCII85Decode", "LZW": "LZWDecode",
	"RL": "RunLengthDecode", "CCF": "CCITTFaxDecode", "DCT": "DCTDecode"}

func canonicalFilter(s string) string {
	s = strings.TrimPrefix(s, "/")
	if l, ok := filterAbbreviations[s]; ok {
		return l
	}
	return s
}

func checkC17(p *Program, tier string) *Result {
	r := &Result{
		Explanation: "Conditional constant propagation (through helper functions, constant tables and error results) of every function that dispatches on a filter name, a predictor, an encryption version, revision or security handler, a cmap format, the PNG row filter, the number of JPEG components or an action type, with values that are not implemented: every return that stays reachable has a non-nil error. Each implemented filter name reaches its own decoder, and every filter name the writing side emits (dictionary entries and text) is decoded.",
	}
	c := &c17{p: p, r: r, memo: map[string]bool{}}
	c.filters()
	c.encryption()
	c.tags()
	r.Count("undecided", c.undecided)
	r.Floor("filter dispatchers", 1)
	r.Floor("functions that read the encryption version", 1)
	return r
}

// run evaluates a function under an assumption.
func (c *c17) run(fn *ssa.Function, assume func(*escEval, ssa.Value) *abs) *escEval {
	e := &escEval{p: c.p, esc: c.p.escaper, fn: fn, text: map[ssa.Value]bool{}, char: map[ssa.Value]bool{}, c: 0x10FFFF, depth: 0, assume: assume}
	e.run(nil)
	return e
}

// success is a reachable return whose error may be nil.
func (c *c17) success(e *escEval) *ssa.Return { return c.successFrom(e, nil) }

// successFrom looks at the returns that can be reached from some blocks only.
func (c *c17) successFrom(e *escEval, from []*ssa.BasicBlock) *ssa.Return {
	after := map[*ssa.BasicBlock]bool{}
	for len(from) > 0 {
		b := from[len(from)-1]
		from = from[:len(from)-1]
		if after[b] || !e.reach[b] {
			continue
		}
		after[b] = true
		for _, s := range b.Succs {
			if e.edges[[2]*ssa.BasicBlock{b, s}] {
				from = append(from, s)
			}
		}
	}
	idx := errIndex(e.fn.Signature)
	if idx < 0 {
		return nil
	}
	if e.undecided {
		c.undecided++
		return nil
	}
	for _, b := range e.fn.Blocks {
		if !e.reach[b] || len(after) > 0 && !after[b] {
			continue
		}
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) <= idx {
			continue
		}
		if !c.failing(e, ret.Results[idx], b, 0) {
			return ret
		}
	}
	return nil
}

// failing: is the error not nil when control is in the block?
func (c *c17) failing(e *escEval, v ssa.Value, b *ssa.BasicBlock, depth int) bool {
	if a := e.eval(v); a != nil && a.num != nil && constant.Sign(constant.ToInt(a.num)) != 0 {
		return true
	}
	if depth > 8 {
		return false
	}
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pr := d.Preds[0]
		iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !ok || pr.Succs[0] == pr.Succs[1] {
			continue
		}
		bin, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bin.X != v && bin.Y != v {
			continue
		}
		o := bin.Y
		if bin.Y == v {
			o = bin.X
		}
		if k, ok := o.(*ssa.Const); !ok || k.Value != nil {
			continue
		}
		if bin.Op == token.NEQ && pr.Succs[0] == d || bin.Op == token.EQL && pr.Succs[1] == d {
			return true
		}
	}
	if phi, ok := v.(*ssa.Phi); ok {
		for i, ed := range phi.Edges {
			pr := phi.Block().Preds[i]
			if !e.edges[[2]*ssa.BasicBlock{pr, phi.Block()}] {
				continue
			}
			if !c.failing(e, ed, pr, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// badKey recognises a lookup of an unknown name in a table: nothing is found.
func badKey(e *escEval, v ssa.Value, bad string) *abs {
	isBad := func(l *ssa.Lookup) bool {
		if isStringType(l.X.Type()) {
			return false
		}
		a := e.eval(l.Index)
		return a != nil && a.num == nil && !a.hom && len(a.alts) == 1 && strings.Contains(a.alts[0], bad)
	}
	switch x := v.(type) {
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok && isBad(l) {
			return knownNum(constant.MakeBool(false)) // the value does not matter, only the flag
		}
	case *ssa.Lookup:
		if !x.CommaOk && isBad(x) {
			if _, ok := x.Type().Underlying().(*types.Signature); ok {
				return knownNum(constant.MakeInt64(0))
			}
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				return knownNum(constant.MakeBool(false))
			}
		}
	case *ssa.Const:
		if _, ok := x.Type().Underlying().(*types.Signature); ok && x.Value == nil {
			return knownNum(constant.MakeInt64(0))
		}
	}
	return nil
}

func resultsDataError(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	return res.Len() == 2 && isTextType(res.At(0).Type()) && isErrorType(res.At(1).Type())
}

// namesCompared are the filter names a function compares something with or looks up.
func (c *c17) namesCompared(fn *ssa.Function) map[string]bool {
	names := map[string]bool{}
	add := func(v ssa.Value) {
		if s, ok := constString(v); ok && filterNamePattern.MatchString(s) {
			names[s] = true
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.BinOp:
				if x.Op == token.EQL || x.Op == token.NEQ {
					add(x.X)
					add(x.Y)
				}
			case *ssa.Lookup:
				m := x.X
				if u, ok := m.(*ssa.UnOp); ok && u.Op == token.MUL {
					if g, ok := u.X.(*ssa.Global); ok {
						if st := c.p.Flow().globStores[g]; len(st) == 1 {
							m = st[0]
						}
					}
				}
				if mk, ok := m.(*ssa.MakeMap); ok {
					for _, ref := range *mk.Referrers() {
						if u, ok := ref.(*ssa.MapUpdate); ok {
							add(u.Key)
						}
					}
				}
			}
		}
	}
	return names
}

func (c *c17) filters() {
	p, r := c.p, c.r
	decoded := map[string]bool{}
	for _, fn := range p.Lib {
		if len(fn.Blocks) == 0 || !resultsDataError(fn) {
			continue
		}
		var name, data *ssa.Parameter
		for _, pr := range fn.Params {
			switch {
			case isStringType(pr.Type()):
				name = pr
			case isTextType(pr.Type()):
				data = pr
			}
		}
		if name == nil || data == nil {
			continue
		}
		names := c.namesCompared(fn)
		if len(names) < 2 {
			continue
		}
		r.Count("filter dispatchers", 1)
		at := func(s string) (*escEval, *ssa.Return) {
			e := c.run(fn, func(e *escEval, v ssa.Value) *abs {
				if v == name {
					return &abs{alts: []string{s}}
				}
				return badKey(e, v, "Unknown")
			})
			return e, c.success(e)
		}
		for _, bad := range []string{"/UnknownDecode", "UnknownDecode", "", "/Unknown"} {
			r.Count("unknown values tried", 1)
			if bad == "" {
				continue // no name
			}
			if _, ret := at(bad); ret != nil {
				r.Violate("unknown-accepted", p.libName(fn)+"|filter", p.InstrPos(ret), "%s can succeed for the filter %q, which it does not know", p.FuncName(fn), bad)
			}
		}
		users := map[*ssa.Function]map[string]bool{}
		for n := range names {
			e, ret := at(n)
			if ret == nil && !e.undecided {
				continue
			}
			decoded[canonicalFilter(n)] = true
			r.Count("filter names decoded", 1)
			for _, b := range fn.Blocks {
				if !e.reach[b] {
					continue
				}
				for _, ins := range b.Instrs {
					call, ok := ins.(*ssa.Call)
					if !ok {
						continue
					}
					for _, t := range p.Callees(call) {
						if !p.inMod[t] || !resultsDataError(t) {
							continue
						}
						if users[t] == nil {
							users[t] = map[string]bool{}
						}
						users[t][canonicalFilter(n)] = true
					}
				}
			}
		}
		for t, ns := range users {
			if len(ns) > 1 && !c.takesName(t) {
				var l []string
				for n := range ns {
					l = append(l, n)
				}
				sort.Strings(l)
				r.Violate("shared-decoder", p.libName(fn)+"|"+p.libName(t), p.Pos(fn.Pos()), "%s decodes different filters with %s: %s", p.FuncName(fn), p.FuncName(t), strings.Join(l, ", "))
			}
		}
	}
	// what the writing side emits
	for _, fn := range p.Lib {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var emitted []string
				switch x := ins.(type) {
				case *ssa.MapUpdate:
					if k, ok := constString(x.Key); ok && strings.TrimPrefix(k, "/") == "Filter" {
						v := x.Value
						if mi, ok := v.(*ssa.MakeInterface); ok {
							v = mi.X
						}
						if s, ok := constString(v); ok {
							emitted = append(emitted, s)
						}
					}
				case *ssa.Call:
					if n := calleeFullName(x); strings.HasPrefix(n, "regexp.") || strings.HasPrefix(n, "strings.") || n == "bytes.Index" || n == "bytes.Contains" {
						continue
					}
					for _, a := range x.Call.Args {
						if s, ok := constString(a); ok {
							for _, m := range filterInText.FindAllStringSubmatch(s, -1) {
								emitted = append(emitted, m[1])
							}
						}
					}
				}
				for _, s := range emitted {
					s = canonicalFilter(s)
					if s == "Standard" {
						continue
					}
					r.Count("filter names written", 1)
					if !decoded[s] {
						r.Violate("written-not-read", p.libName(fn)+"|"+s, p.InstrPos(ins), "%s writes the filter %s, which no decoder of the library accepts", p.FuncName(fn), s)
					}
				}
			}
		}
	}
}

// takesName: a decoder that is told the filter decides itself.
func (c *c17) takesName(fn *ssa.Function) bool {
	for _, pr := range fn.Params {
		if isStringType(pr.Type()) {
			return true
		}
	}
	return false
}

func (c *c17) encryption() {
	p, r := c.p, c.r
	num := func(n int64) *abs { return knownNum(constant.MakeInt64(n)) }
	cases := []struct {
		field string
		bad   []*abs
	}{
		{"V", []*abs{num(-1), num(3), num(6), num(7), num(99)}},
		{"R", []*abs{num(-1), num(1), num(7), num(8), num(99)}},
		{"Filter", []*abs{{alts: []string{"Adobe.PubSec"}}, {alts: []string{"Unknown"}}}},
	}
	show := func(a *abs) string {
		if a.num != nil {
			return a.num.String()
		}
		return fmt.Sprintf("%q", a.alts[0])
	}
	for _, cs := range cases {
		// what is stored in the field after reading a document
		src := map[ssa.Value]bool{}
		var readers []*ssa.Function
		var source func(v ssa.Value)
		source = func(v ssa.Value) {
			if _, ok := v.(*ssa.Const); ok || src[v] {
				return
			}
			src[v] = true
			if phi, ok := v.(*ssa.Phi); ok {
				for _, ed := range phi.Edges {
					source(ed)
				}
			}
		}
		for _, fn := range p.Lib {
			stores := false
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					st, ok := ins.(*ssa.Store)
					if !ok || encField(st.Addr) != cs.field {
						continue
					}
					if _, ok := st.Addr.(*ssa.FieldAddr); !ok {
						continue
					}
					if _, isConst := st.Val.(*ssa.Const); isConst {
						continue
					}
					if encField(st.Val) == cs.field {
						continue // a copy
					}
					source(st.Val)
					stores = true
				}
			}
			if stores {
				readers = append(readers, fn)
			}
		}
		assume := func(bad *abs) func(*escEval, ssa.Value) *abs {
			return func(e *escEval, v ssa.Value) *abs {
				if src[v] {
					return bad
				}
				switch x := v.(type) {
				case *ssa.UnOp:
					if x.Op == token.MUL && encField(x) == cs.field {
						return bad
					}
				case *ssa.Field:
					if encField(x) == cs.field {
						return bad
					}
				case *ssa.BinOp:
					// the settings are there
					for i, o := range []ssa.Value{x.X, x.Y} {
						if k, ok := o.(*ssa.Const); ok && k.Value == nil && isEncInfo([]ssa.Value{x.Y, x.X}[i].Type()) && (x.Op == token.EQL || x.Op == token.NEQ) {
							return knownNum(constant.MakeBool(x.Op == token.NEQ))
						}
					}
				}
				return badKey(e, v, "Unknown")
			}
		}
		if cs.field == "V" {
			r.Count("functions that read the encryption version", len(readers))
		}
		for _, fn := range readers {
			for _, bad := range cs.bad {
				r.Count("unknown values tried", 1)
				if ret, ok := c.refuses(fn, assume(bad), map[*ssa.Function]bool{}); !ok {
					r.Violate("unknown-accepted", p.libName(fn)+"|encryption "+cs.field, p.InstrPos(ret), "%s can succeed for a document whose encryption %s is %s, which is not implemented", p.FuncName(ret.Parent()), cs.field, show(bad))
					break
				}
			}
		}
		if cs.field != "V" {
			continue
		}
		for _, fn := range p.Lib {
			if errIndex(fn.Signature) < 0 || !resultsDataError(fn) || !c.comparesVersion(fn) || !c.appliesCipher(fn) {
				continue
			}
			r.Count("functions that choose a cipher", 1)
			for _, bad := range cs.bad {
				r.Count("unknown values tried", 1)
				if ret := c.success(c.run(fn, assume(bad))); ret != nil {
					r.Violate("unknown-accepted", p.libName(fn)+"|cipher", p.InstrPos(ret), "%s can succeed for encryption version %s, which is not implemented", p.FuncName(fn), show(bad))
					break
				}
			}
		}
	}
}

// refuses: the function, or all callers of an internal one, fail under the assumption.
func (c *c17) refuses(fn *ssa.Function, assume func(*escEval, ssa.Value) *abs, seen map[*ssa.Function]bool) (*ssa.Return, bool) {
	if seen[fn] {
		return nil, true
	}
	seen[fn] = true
	var ret *ssa.Return
	if errIndex(fn.Signature) >= 0 {
		ret = c.success(c.run(fn, assume))
		if ret == nil {
			return nil, true
		}
	} else {
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				ret = r
			}
		}
	}
	if exportedAPI(fn) || len(c.p.callers[fn]) == 0 {
		return ret, false
	}
	for _, site := range c.p.callers[fn] {
		if r, ok := c.refuses(site.Parent(), assume, seen); !ok {
			return r, false
		}
	}
	return nil, true
}

func (c *c17) comparesVersion(fn *ssa.Function) bool {
	compares := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if x, ok := ins.(*ssa.BinOp); ok && (encField(x.X) == "V" || encField(x.Y) == "V") {
					return true
				}
			}
		}
		return false
	}
	if compares(fn) {
		return true
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			call, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			if bt, ok := call.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
				continue
			}
			for _, t := range c.p.Callees(call) {
				if c.p.inMod[t] && compares(t) {
					return true
				}
			}
		}
	}
	return false
}

// appliesCipher: the function, or one it calls in its package, sets up a cipher.
func (c *c17) appliesCipher(fn *ssa.Function) bool {
	for depth, fns := 0, []*ssa.Function{fn}; depth < 2; depth++ {
		var next []*ssa.Function
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					call, ok := ins.(*ssa.Call)
					if !ok {
						continue
					}
					switch calleeFullName(call) {
					case "crypto/aes.NewCipher", "crypto/rc4.NewCipher":
						return true
					}
					for _, t := range c.p.Callees(call) {
						if c.p.inMod[t] && t.Pkg == fn.Pkg {
							next = append(next, t)
						}
					}
				}
			}
		}
		fns = next
	}
	return false
}

// tags: dispatch on numbers and names found in fonts, images and requests.
func (c *c17) tags() {
	p, r := c.p, c.r
	for _, fn := range p.Lib {
		idx := errIndex(fn.Signature)
		if idx < 0 {
			continue
		}
		// what each value is compared with
		with := map[ssa.Value]map[int64]bool{}
		enums := map[string][]ssa.Value{}
		device := false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if s, ok := constString(*op); ok && strings.HasSuffix(s, "DeviceCMYK") {
						device = true
					}
				}
				switch x := ins.(type) {
				case *ssa.BinOp:
					if x.Op != token.EQL && x.Op != token.NEQ {
						continue
					}
					for i, o := range []ssa.Value{x.X, x.Y} {
						k, ok := o.(*ssa.Const)
						if !ok || k.Value == nil {
							continue
						}
						v := []ssa.Value{x.Y, x.X}[i]
						if n, ok := constInt(k); ok {
							if with[v] == nil {
								with[v] = map[int64]bool{}
							}
							with[v][n] = true
						}
						if t := v.Type().String(); strings.HasSuffix(t, "acroform.ActionType") {
							enums[t] = append(enums[t], v)
						}
					}
				case *ssa.Call:
					// a number asked for by the name of the entry
					for _, a := range x.Call.Args {
						if s, ok := constString(a); ok && strings.TrimPrefix(s, "/") == "Predictor" {
							c.refused(fn, "predictor", []int64{-1, 2, 3, 9, 16, 99}, func(v ssa.Value) bool {
								e, ok := v.(*ssa.Extract)
								return v == ssa.Value(x) && isIntType(v.Type()) || ok && e.Tuple == ssa.Value(x) && e.Index == 0
							})
						}
					}
				}
			}
		}
		for v, ns := range with {
			has := func(l ...int64) bool {
				for _, n := range l {
					if !ns[n] {
						return false
					}
				}
				return true
			}
			is := func(w ssa.Value) bool { return w == v }
			switch {
			case has(4, 12) && isIntType(v.Type()) && !isByte(v.Type()):
				c.refused(fn, "cmap format", []int64{0, 2, 6, 8, 10, 13, 14, 99}, is)
			case device && has(1, 3, 4):
				c.refused(fn, "number of JPEG components", []int64{0, 2, 5, 255}, is)
			case has(1, 2, 3, 4) && isByte(v.Type()) && len(ns) <= 5:
				c.refused(fn, "PNG row filter", []int64{5, 6, 255}, is)
			}
		}
		for t, vs := range enums {
			name := t[strings.LastIndexByte(t, '.')+1:]
			r.Count("unknown values tried", 1)
			set := map[ssa.Value]bool{}
			for _, v := range vs {
				set[v] = true
			}
			if len(vs) < 2 {
				continue
			}
			r.Count("dispatchers on "+name, 1)
			ret := c.success(c.run(fn, func(e *escEval, v ssa.Value) *abs {
				if set[v] {
					return &abs{alts: []string{"Unknown"}}
				}
				return badKey(e, v, "Unknown")
			}))
			if ret != nil {
				r.Violate("unknown-accepted", p.libName(fn)+"|"+name, p.InstrPos(ret), "%s can succeed for an unknown %s", p.FuncName(fn), name)
			}
		}
	}
}

func (c *c17) refused(fn *ssa.Function, what string, bad []int64, is func(ssa.Value) bool) {
	key := c.p.libName(fn) + "|" + what
	if c.memo[key] {
		return
	}
	c.memo[key] = true
	c.r.Count("dispatchers on "+what, 1)
	for _, n := range bad {
		c.r.Count("unknown values tried", 1)
		e := c.run(fn, func(e *escEval, v ssa.Value) *abs {
			if is(v) {
				return knownNum(constant.MakeInt64(n))
			}
			return nil
		})
		// from where the value is looked at
		var from []*ssa.BasicBlock
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if x, ok := ins.(*ssa.BinOp); ok && (is(x.X) || is(x.Y)) {
					from = append(from, b)
				}
			}
		}
		ret := c.successFrom(e, from)
		if ret != nil {
			c.r.Violate("unknown-accepted", key, c.p.InstrPos(ret), "%s can succeed for %s %d, which is not implemented", c.p.FuncName(fn), what, n)
			return
		}
	}
}
