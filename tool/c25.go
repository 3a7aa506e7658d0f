package main

// C25: what is found in a document does not depend on the white space between a name and its value.
//
// Every constant pattern and text the library searches documents for is turned into the spellings it stands for: the
// white space between its parts replaced by every other white space the format allows there, and by none where the
// next part begins with a delimiter. Each spelling is found by the pattern itself or by another one of the function.

import (
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C25"] = checkC25 }

// spaced is one thing a function searches for.
type spaced struct {
	ins  ssa.CallInstruction
	re   *regexp.Regexp
	lit  string
	name string // the search function
	pat  string
}

// spacePart is a piece of text or a place for white space.
type spacePart struct {
	text string
	ws   bool
}

const keyHole = "Qkey"

func checkC25(p *Program, tier string) *Result {
	r := &Result{Explanation: "Every constant pattern and text searched for in documents was turned into the spellings of white space the format allows; each is found by it or by another one of the same function."}
	c := &c25{p: p, r: r}
	n, spellings := 0, 0
	for _, fn := range p.Lib {
		own := c.searches(fn)
		all := own
		for f := range c.cluster(fn) {
			all = append(all[:len(all):len(all)], c.searches(f)...)
		}
		for _, s := range own {
			forms := s.forms()
			if len(forms) == 0 {
				continue
			}
			n++
			bad := ""
			for _, f := range forms {
				for _, v := range spellings25(f) {
					spellings++
					if !foundBy(all, v) && bad == "" {
						bad = v
					}
				}
			}
			if bad != "" {
				r.Violate("white space does not matter", p.FuncName(fn)+" "+s.pat, p.InstrPos(s.ins), "%s searches for %q, which does not find %q", p.FuncName(fn), s.pat, bad)
			}
			if part := s.partial(); part != "" {
				r.Violate("values are read whole", p.FuncName(fn)+" "+s.pat, p.InstrPos(s.ins), "%s reads a value by %q, which takes a part of it from %q", p.FuncName(fn), s.pat, part)
			}
		}
	}
	r.Count("patterns and texts searched for", n)
	r.Count("spellings compared", spellings)
	r.Floor("patterns and texts searched for", 1)
	return r
}

type c25 struct {
	p *Program
	r *Result
}

// cluster is what was taken out of a function, or what it was taken out of: helpers called from one function only.
func (c *c25) cluster(fn *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	only := func(f *ssa.Function) *ssa.Function {
		if f.Object() != nil && f.Object().Exported() {
			return nil
		}
		var caller *ssa.Function
		for _, call := range c.p.callers[f] {
			if caller != nil && caller != call.Parent() {
				return nil
			}
			caller = call.Parent()
		}
		return caller
	}
	top := fn
	for i := 0; i < 2; i++ {
		if f := only(top); f != nil && f != top {
			top = f
		}
	}
	add := func(f *ssa.Function) {
		if f != fn {
			out[f] = true
		}
	}
	add(top)
	eachCall(top, func(call ssa.CallInstruction) {
		for _, f := range c.p.Callees(call) {
			if c.p.inMod[f] && only(f) == top {
				add(f)
				eachCall(f, func(call ssa.CallInstruction) {
					for _, g := range c.p.Callees(call) {
						if c.p.inMod[g] && only(g) == f {
							add(g)
						}
					}
				})
			}
		}
	})
	return out
}

// searches lists what a function searches for.
func (c *c25) searches(fn *ssa.Function) []*spaced {
	var out []*spaced
	eachCall(fn, func(call ssa.CallInstruction) {
		name := calleeFullName(call)
		args := call.Common().Args
		switch {
		case strings.HasPrefix(name, "(*regexp.Regexp).") && len(args) > 0:
			pat, ok := c.p.patternOf(args[0])
			if !ok {
				pat, ok = c.dynamic(args[0])
			}
			if !ok {
				return
			}
			re, err := regexp.Compile(pat)
			if err != nil {
				return
			}
			out = append(out, &spaced{ins: call, re: re, name: name, pat: pat})
		case strings.HasPrefix(name, "strings."), strings.HasPrefix(name, "bytes."):
			switch name[strings.Index(name, ".")+1:] {
			case "Contains", "Index", "LastIndex", "HasPrefix", "Cut", "Split", "SplitN", "Count", "Replace", "ReplaceAll":
			default:
				return
			}
			lit, ok := c.p.constText(args[1])
			if !ok {
				lit, ok = c.pieces(args[1], 0)
				lit = slashed(lit)
			}
			if ok {
				out = append(out, &spaced{ins: call, lit: lit, name: name, pat: lit})
			}
		}
	})
	return out
}

// dynamic is a pattern that is put together with a name.
func (c *c25) dynamic(v ssa.Value) (string, bool) {
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	call, ok := v.(*ssa.Call)
	if !ok {
		return "", false
	}
	switch calleeFullName(call) {
	case "regexp.MustCompile", "regexp.Compile":
		pat, ok := c.pieces(call.Call.Args[0], 0)
		return slashed(pat), ok
	}
	return "", false
}

// slashed: a name that is filled in begins with a slash
func slashed(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, keyHole, "/"+keyHole), "//"+keyHole, "/"+keyHole)
}

func (c *c25) pieces(v ssa.Value, depth int) (string, bool) {
	if depth > 8 {
		return "", false
	}
	if s, ok := c.p.constText(v); ok {
		return s, true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		a, ok := c.pieces(x.X, depth+1)
		b, ok2 := c.pieces(x.Y, depth+1)
		return a + b, ok && ok2
	case *ssa.Convert:
		return c.pieces(x.X, depth+1)
	case *ssa.Parameter:
		if isStringType(x.Type()) {
			return keyHole, true
		}
	case *ssa.Call:
		switch calleeFullName(x) {
		case "regexp.QuoteMeta":
			return c.pieces(x.Call.Args[0], depth+1)
		case "fmt.Sprintf":
			f, ok := c.p.constText(x.Call.Args[0])
			if !ok {
				return "", false
			}
			f = strings.NewReplacer("%d", "7", "%s", keyHole).Replace(f)
			return f, !strings.Contains(f, "%")
		}
	}
	return "", false
}

func isPDFSpace(r rune) bool { return strings.ContainsRune("\x00\t\n\f\r ", r) }

var pdfName = regexp.MustCompile(`/(Qkey|[A-Z])[A-Za-z0-9]*`)

// forms: the texts the search stands for, with places for white space
func (s *spaced) forms() [][]spacePart {
	var forms [][]spacePart
	if s.re == nil {
		if strings.Contains(s.lit, "=\"") || !pdfName.MatchString(s.lit) || pdfName.FindString(s.lit) == s.lit {
			return nil
		}
		forms = [][]spacePart{literalParts([]rune(s.lit))}
	} else {
		t, err := syntax.Parse(s.re.String(), syntax.Perl)
		if err != nil {
			return nil
		}
		forms = partsOf(t)
	}
	var out [][]spacePart
	for _, f := range forms {
		f = mayBeSpaced(f)
		text, ws := "", false
		for _, q := range f {
			ws = ws || q.ws
			if q.ws {
				text += " "
			} else {
				text += q.text
			}
		}
		if ws && pdfName.MatchString(text) && (found(s, text) || found(s, strings.ReplaceAll(text, " ", ""))) {
			out = append(out, f)
		}
	}
	return out
}

func literalParts(rs []rune) []spacePart {
	var out []spacePart
	for _, r := range rs {
		if isPDFSpace(r) {
			out = append(out, spacePart{ws: true})
		} else {
			out = append(out, spacePart{text: string(r)})
		}
	}
	return out
}

// partsOf turns a pattern into texts it matches.
func partsOf(t *syntax.Regexp) [][]spacePart {
	switch t.Op {
	case syntax.OpLiteral:
		return [][]spacePart{literalParts(t.Rune)}
	case syntax.OpCharClass:
		if spaceClass(t) {
			return [][]spacePart{{{ws: true}}}
		}
		for _, c := range "a1A-/([<x" {
			if inClass(t, c) {
				return [][]spacePart{{{text: string(c)}}}
			}
		}
		return nil
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return [][]spacePart{{{text: "a"}}}
	case syntax.OpCapture, syntax.OpPlus, syntax.OpRepeat:
		return partsOf(t.Sub[0])
	case syntax.OpStar, syntax.OpQuest:
		if spaceClass(t.Sub[0]) {
			return [][]spacePart{{{ws: true}}}
		}
		if t.Op == syntax.OpStar && t.Sub[0].Op == syntax.OpCharClass {
			return partsOf(t.Sub[0])
		}
		return [][]spacePart{nil}
	case syntax.OpConcat:
		out := [][]spacePart{nil}
		for _, sub := range t.Sub {
			var next [][]spacePart
			for _, a := range out {
				for _, b := range partsOf(sub) {
					next = append(next, append(append([]spacePart{}, a...), b...))
				}
			}
			if len(next) > 16 {
				next = next[:16]
			}
			out = next
		}
		return out
	case syntax.OpAlternate:
		var out [][]spacePart
		for _, sub := range t.Sub {
			out = append(out, partsOf(sub)...)
		}
		return out
	}
	return [][]spacePart{nil}
}

func inClass(t *syntax.Regexp, c rune) bool {
	for i := 0; i+1 < len(t.Rune); i += 2 {
		if t.Rune[i] <= c && c <= t.Rune[i+1] {
			return true
		}
	}
	return false
}

// spaceClass: only white space
func spaceClass(t *syntax.Regexp) bool {
	if t.Op == syntax.OpLiteral && len(t.Rune) == 1 {
		return isPDFSpace(t.Rune[0])
	}
	if t.Op != syntax.OpCharClass || len(t.Rune) == 0 {
		return false
	}
	for i := 0; i+1 < len(t.Rune); i += 2 {
		for c := t.Rune[i]; c <= t.Rune[i+1]; c++ {
			if !isPDFSpace(c) && c != '\v' {
				return false
			}
		}
	}
	return true
}

// mayBeSpaced joins neighbouring white space and adds the places between a name and a delimiter.
func mayBeSpaced(f []spacePart) []spacePart {
	var out []spacePart
	text := ""
	for _, q := range f {
		if q.ws {
			if len(out) == 0 || !out[len(out)-1].ws {
				out = append(out, q)
			}
			text += " "
			continue
		}
		if len(out) > 0 && !out[len(out)-1].ws && strings.ContainsAny(q.text[:1], "[(</") {
			if m := pdfName.FindAllStringIndex(text, -1); len(m) > 0 && m[len(m)-1][1] == len(text) {
				out = append(out, spacePart{ws: true})
			}
		}
		out = append(out, q)
		text += q.text
	}
	return out
}

// spellings25 lists the spellings of a form, one place changed at a time.
func spellings25(f []spacePart) []string {
	seen := map[string]bool{}
	for i, q := range f {
		if !q.ws {
			continue
		}
		prev, next := "", ""
		if i > 0 {
			prev = f[i-1].text
		}
		if i+1 < len(f) {
			next = f[i+1].text
		}
		ways := []string{" ", "\n", "\r\n", "\t", "  "}
		glued := next != "" && strings.ContainsAny(next[:1], "[(</>])") || prev != "" && strings.ContainsAny(prev[len(prev)-1:], "[(<>])")
		if glued {
			ways = append(ways, "")
		}
		if next == "" {
			ways = append(ways, "<<", "[", "/") // the end of the name
		}
		for _, w := range ways {
			t := ""
			for j, o := range f {
				switch {
				case j == i:
					t += w
				case o.ws:
					t += " "
				default:
					t += o.text
				}
			}
			seen[t] = true
		}
	}
	var out []string
	for t := range seen {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}

func foundBy(all []*spaced, text string) bool {
	for _, s := range all {
		if found(s, text) {
			return true
		}
	}
	return false
}

func found(s *spaced, text string) bool {
	for _, t := range []string{text, text + " >>", text + " ", "<<" + text + ">>", text + "1", text + "<<"} {
		if s.re != nil {
			if m := s.re.FindString(t); m != "" && pdfName.FindString(m) == pdfName.FindString(text) {
				return true
			}
		} else if pdfName.MatchString(s.lit) && strings.Contains(t, s.lit) && s.lit != pdfName.FindString(s.lit) {
			return true
		}
	}
	return false
}

// partial: a value of which only a part is taken
func (s *spaced) partial() string {
	if s.re == nil || !strings.Contains(s.name, "Submatch") {
		return ""
	}
	name := pdfName.FindString(s.re.String())
	if name == "" {
		return ""
	}
	for _, val := range []string{"[3 0 R 4 0 R]", "[/A /B]", "[1 2]", "(a b)", "<< /A 1 >>"} {
		text := "<<" + name + " " + val + " /Z 1>>"
		m := s.re.FindStringSubmatch(text)
		if m == nil {
			continue
		}
		for _, g := range m[1:] {
			if len(g) > 0 && strings.HasPrefix(val, g) && g != val && !strings.HasSuffix(strings.TrimSpace(m[0]), val[len(val)-1:]) {
				return text
			}
		}
	}
	return ""
}
