package main

// C13: secrets never reach a log, the console, a warning or an error text. Every argument of every
// output and error-building call is traced backwards; reaching a password parameter, a password
// option or a key is a violation. Lengths, comparisons and nil tests carry no content.

import (
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C13"] = checkC13 }

var passwordName = regexp.MustCompile(`(?i)passw|pwd|passphrase|secret`)

func textLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Uint8 || b.Info()&types.IsString != 0)
	}
	return false
}

func secretField(t types.Type, i int) string {
	k := fieldKeyOf(t, i)
	j := strings.LastIndexByte(k, '.')
	name := k[j+1:]
	var ft types.Type
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		ft = st.Field(i).Type()
	}
	if ft == nil || !textLike(ft) {
		return ""
	}
	if passwordName.MatchString(name) {
		return "the password in " + k
	}
	if name == "EncryptKey" {
		return "the file key in " + k
	}
	return ""
}

// secretStruct: formatting the whole value prints a secret.
func secretStruct(t types.Type) string {
	for d := 0; d < 2; d++ {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	// values with their own text form decide themselves
	for i := 0; i < st.NumFields(); i++ {
		if s := secretField(t, i); s != "" {
			return s
		}
		if _, isStruct := st.Field(i).Type().Underlying().(*types.Struct); isStruct {
			if s := secretStruct(st.Field(i).Type()); s != "" {
				return s
			}
		}
	}
	return ""
}

func isEncInfo(t types.Type) bool {
	return strings.HasSuffix(strings.TrimPrefix(t.String(), "*"), "types.PDFEncryption")
}

type secretSink struct {
	ins  ssa.Instruction
	vals []ssa.Value
	what string
}

func (p *Program) errorLike(t types.Type) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if strings.HasSuffix(n.Obj().Name(), "Warning") {
		return true
	}
	for _, tt := range []types.Type{n, types.NewPointer(n)} {
		if m, _, _ := types.LookupFieldOrMethod(tt, true, n.Obj().Pkg(), "Error"); m != nil {
			if f, ok := m.(*types.Func); ok {
				s := f.Type().(*types.Signature)
				if s.Params().Len() == 0 && s.Results().Len() == 1 {
					return true
				}
			}
		}
	}
	return false
}

func (p *Program) secretSinks(fn *ssa.Function) []secretSink {
	var out []secretSink
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if ok && p.errorLike(fa.X.Type()) && !isErrorType(x.Val.Type()) {
					out = append(out, secretSink{ins, []ssa.Value{x.Val}, "stored in " + fieldKeyOf(fa.X.Type(), fa.Field)})
				}
			case *ssa.MapUpdate:
				if ld, ok := x.Map.(*ssa.UnOp); ok {
					if fa, ok := ld.X.(*ssa.FieldAddr); ok && p.errorLike(fa.X.Type()) {
						out = append(out, secretSink{ins, []ssa.Value{x.Key, x.Value}, "stored in " + fieldKeyOf(fa.X.Type(), fa.Field)})
					}
				}
			case ssa.CallInstruction:
				name := calleeFullName(x)
				what := outputCall(x)
				if what == "" {
					switch {
					case name == "fmt.Errorf", name == "errors.New":
						what = name
					case strings.HasPrefix(name, "fmt.Fprint"):
						if stdStream(x.Common().Args[0]) {
							what = name
						}
					case name == "(*os.File).Write", name == "(*os.File).WriteString", name == "io.WriteString":
						if stdStream(x.Common().Args[0]) {
							what = name
						}
					case name == "builtin.panic":
						what = name
					}
				}
				if what == "" {
					continue
				}
				var vals []ssa.Value
				args := x.Common().Args
				verbs := map[int]byte{}
				base := 0
				for i, a := range args {
					if i == len(args)-1 {
						if vs, ok := variadic(a); ok {
							if i > 0 {
								if fs, ok := constString(args[i-1]); ok {
									for _, v := range parseFormat(fs) {
										verbs[base+v.arg] = v.verb
									}
								}
							}
							for k, v := range vs {
								if vb, ok := verbs[k]; ok && (vb == 'T' || vb == 'p') {
									continue
								}
								vals = append(vals, unwrapIface(v))
							}
							continue
						}
					}
					vals = append(vals, a)
				}
				out = append(out, secretSink{ins, vals, "passed to " + what})
			}
		}
	}
	return out
}

// stdStream: the value is os.Stdout or os.Stderr.
func stdStream(v ssa.Value) bool {
	v = unwrapIface(v)
	if ld, ok := v.(*ssa.UnOp); ok {
		if g, ok := ld.X.(*ssa.Global); ok {
			return g.String() == "os.Stdout" || g.String() == "os.Stderr"
		}
	}
	return false
}

func checkC13(p *Program, tier string) *Result {
	r := &Result{}
	f := p.Flow()
	apiParam := func(v ssa.Value) string {
		pr, ok := v.(*ssa.Parameter)
		if !ok || !textLike(pr.Type()) || !passwordName.MatchString(pr.Name()) {
			return ""
		}
		return "the password passed as " + pr.Name() + " to " + p.FuncName(pr.Parent())
	}
	for _, fn := range p.Lib {
		r.Count("functions", 1)
		for _, pr := range fn.Params {
			if apiParam(pr) != "" {
				r.Count("password parameters", 1)
			}
		}
		for _, s := range p.secretSinks(fn) {
			r.Count("output and error sites", 1)
			for _, v := range s.vals {
				r.Count("values traced", 1)
				if w := secretStruct(v.Type()); w != "" {
					r.Violate("secret-struct", p.FuncName(fn)+"|"+s.what, p.InstrPos(s.ins), "%s: a value containing %s is %s", p.FuncName(fn), w, s.what)
					continue
				}
				hit := ""
				var via []ssa.Value
				done := f.Backward(v, nil, FlowOpts{
					Limit: 150000,
					Stop: func(vs *Visit) bool {
						if hit != "" {
							return true
						}
						if isErrorType(vs.V.Type()) {
							return true // every error text is a site of its own
						}
						if isEncInfo(vs.V.Type()) {
							return true // public part; the key is a source by itself
						}
						if w := apiParam(vs.V); w != "" {
							hit, via = w, vs.Path
							return true
						}
						switch x := vs.V.(type) {
						case *ssa.FieldAddr:
							if w := secretField(x.X.Type(), x.Field); w != "" {
								hit, via = w, vs.Path
								return true
							}
						case *ssa.Field:
							if w := secretField(x.X.Type(), x.Field); w != "" {
								hit, via = w, vs.Path
								return true
							}
						case *ssa.UnOp:
							if fa, ok := x.X.(*ssa.FieldAddr); ok {
								if isEncInfo(fa.X.Type()) && secretField(fa.X.Type(), fa.Field) == "" {
									return true // U, O, UE, OE, P, ... stand in the file in the clear
								}
								if w := secretField(fa.X.Type(), fa.Field); w != "" {
									hit, via = w, vs.Path
									return true
								}
							}
						}
						return false
					},
					Call: func(c *ssa.Call, name string, vs *Visit) ([]ssa.Value, bool) {
						// content decrypted or encrypted with a key is document data
						enc := false
						var rest []ssa.Value
						for _, a := range argsFor(&c.Call) {
							if isEncInfo(a.Type()) {
								enc = true
								continue
							}
							rest = append(rest, a)
						}
						if enc && len(f.a.targets(c)) > 0 && !returnsSecret(p, c, apiParam) {
							return rest, true
						}
						return nil, false
					},
				})
				if !done {
					r.Count("traces cut off", 1)
				}
				if hit != "" {
					r.Violate("secret-leak", p.FuncName(fn)+"|"+s.what, p.InstrPos(s.ins), "%s: %s reaches a value %s%s", p.FuncName(fn), hit, s.what, p.via(via))
				}
			}
		}
	}
	r.Floor("password parameters", 20)
	r.Floor("output and error sites", 300)
	r.Explanation = "every argument of a print, log, error, warning or panic site is traced backwards through assignments, calls, fields and buffers; none may contain bytes of a password parameter or option, of the file key, or of a hash computed from one"
	return r
}

// returnsSecret: the call derives a key or a hash: it takes a password or key and returns bytes made from it.
func returnsSecret(p *Program, c *ssa.Call, src func(ssa.Value) string) bool {
	for _, t := range p.Alias().targets(c) {
		for _, pr := range t.Params {
			if src(pr) != "" && textLike(pr.Type()) {
				return true
			}
		}
	}
	return false
}

func (p *Program) via(path []ssa.Value) string {
	var parts []string
	last := ""
	for _, v := range path {
		ins, ok := v.(ssa.Instruction)
		if !ok {
			continue
		}
		pos := p.InstrPos(ins)
		if pos != last && pos != "-" {
			parts = append(parts, pos)
			last = pos
		}
	}
	if len(parts) > 6 {
		parts = append(parts[:3], append([]string{"..."}, parts[len(parts)-2:]...)...)
	}
	if len(parts) == 0 {
		return ""
	}
	return " (through " + strings.Join(parts, " <- ") + ")"
}
