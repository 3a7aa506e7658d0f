package main

// C24: stream data is cut where /Length says, and a reference is never taken for the number.
//
// Wherever a regular expression of the library picks the digits behind /Length out of a dictionary, the function
// is evaluated twice: with the entry given as a reference (/Length 12 0 R, in the spellings the format allows) and
// with the entry given as a number. With a reference, the digits must not reach a slice bound, an allocation, a
// stored value or a caller on any branch that stays possible; with a number, they must reach the end of a slice
// that begins where the data begins, unchanged.

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C24"] = checkC24 }

const lengthDirect = "<</Type /XObject /Length 12 /Filter /FlateDecode>>"

// a number no limit for small data admits
const lengthLarge = "<</Type /XObject /Length 5000000 /Filter /FlateDecode>>"

var lengthRefs = func() []string {
	var out []string
	for _, gap := range []string{" ", "  ", "\n", "\r\n", "\t"} {
		for _, gen := range []string{"0", "3", "65535"} {
			for _, tail := range []string{">>", " /Filter /FlateDecode>>", "/Filter/FlateDecode>>"} {
				out = append(out, "<</Type /XObject /Length 12"+gap+gen+gap+"R"+tail)
			}
		}
	}
	return out
}()

// lengthMatch is what an expression finds in a sample: the text of each group, and which of them is the number
type lengthMatch struct {
	groups []string
	found  []bool
	index  bool // positions instead of texts
	number int
	none   bool // not found at all
}

type c24 struct {
	p *Program
	n *Num
	r *Result
}

func checkC24(p *Program, tier string) *Result {
	r := &Result{Explanation: "Each place where an expression picks the digits behind /Length out of a dictionary was evaluated with the entry given as a reference, in " +
		"45 spellings, and as a number: no slice bound, allocation, stored value or caller receives the digits of a reference, and the digits of a number end the data they belong to."}
	c := &c24{p: p, n: NewNum(p), r: r}
	c.n.ideal = true
	sites, samples, ends := 0, 0, 0
	for _, fn := range p.Lib {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				re := c.expression(call)
				if re == nil {
					continue
				}
				num := numberGroup(re)
				if num < 0 {
					continue
				}
				sites++
				where := p.InstrPos(call)
				bad := map[string]bool{}
				for _, s := range append([]string{lengthDirect, lengthLarge}, lengthRefs...) {
					w := &lengthWalk{c: c, direct: s == lengthDirect || s == lengthLarge, digits: "12", seen: map[string]bool{}}
					if s == lengthLarge {
						w.digits = "5000000"
					}
					w.start(fn, call, matchIn(re, call, c.subject(call.Call.Args[1], s, 0), num))
					if w.direct {
						for _, e := range w.wrong {
							r.Violate("stream data ends where its length says", p.FuncName(fn)+" "+e.what, e.where, "%s takes a stream length from the dictionary (%s), and %s", p.FuncName(fn), where, e.what)
						}
						if s == lengthLarge && w.read && len(w.sinks) == 0 && !bad[where] {
							r.Violate("a stream length that is given is used", p.FuncName(fn), where, "%s reads the number behind /Length, but no data is cut by it when it is large (%s)", p.FuncName(fn), w.digits)
						} else if w.read && len(w.sinks) == 0 {
							bad[where] = true
							r.Violate("a stream length that is given is used", p.FuncName(fn), where, "%s reads the number behind /Length, but no data is cut by it", p.FuncName(fn))
						}
						ends += w.ends
						continue
					}
					samples++
					for _, e := range w.sinks {
						k := e.where + e.what
						if !bad[k] {
							bad[k] = true
							r.Violate("a reference is not a length", p.FuncName(fn)+" "+e.what, e.where, "%s reads the object number of a reference behind /Length (%s) as a number (such as in %q), and %s", p.FuncName(fn), where, s[16:], e.what)
						}
					}
				}
			}
		}
	}
	dicts := 0
	for _, fn := range p.Lib {
		dicts += c.dictionaries(fn)
	}
	r.Count("dictionary numbers read", dicts)
	c.lineEnds()
	c.starts()
	r.Count("places that read /Length", sites)
	r.Count("spellings evaluated", samples)
	r.Count("data ends compared", ends)
	r.Floor("places that read /Length", 1)
	return r
}

// expression is the regular expression a submatch search uses.
func (c *c24) expression(call *ssa.Call) *regexp.Regexp {
	name := calleeFullName(call)
	if !strings.HasPrefix(name, "(*regexp.Regexp).Find") || !strings.Contains(name, "Submatch") {
		return nil
	}
	pat, ok := c.p.patternOf(call.Call.Args[0])
	if !ok || !strings.Contains(pat, "Length") {
		return nil
	}
	re, err := regexp.Compile(pat)
	if err != nil {
		return nil
	}
	return re
}

// numberGroup is the group that holds the digits of a direct length.
func numberGroup(re *regexp.Regexp) int {
	m := re.FindStringSubmatch(lengthDirect)
	if m == nil || !strings.Contains(m[0], "Length") {
		return -1
	}
	for i := 1; i < len(m); i++ {
		if m[i] == "12" {
			return i
		}
	}
	return -1
}

func matchIn(re *regexp.Regexp, call *ssa.Call, sample string, number int) *lengthMatch {
	m := &lengthMatch{number: number, index: strings.HasSuffix(calleeFullName(call), "Index")}
	at := re.FindStringSubmatchIndex(sample)
	if at == nil {
		m.none = true
		return m
	}
	for i := 0; i+1 < len(at); i += 2 {
		if at[i] < 0 {
			m.groups, m.found = append(m.groups, ""), append(m.found, false)
			continue
		}
		m.groups, m.found = append(m.groups, sample[at[i]:at[i+1]]), append(m.found, true)
	}
	return m
}

type lengthUse struct{ where, what string }

// lengthWalk follows the digits of one sample.
type lengthWalk struct {
	c      *c24
	direct bool
	digits string // those of the number or of the object number of the reference
	seen   map[string]bool
	sinks  []lengthUse
	wrong  []lengthUse
	ends   int
	read   bool // the digits are looked at
}

// lengthFrame is one function under the assumption
type lengthFrame struct {
	fn    *ssa.Function
	match map[ssa.Value]*lengthMatch // values that hold the match,
	all   map[ssa.Value]*lengthMatch // or a list of matches
	known map[ssa.Value]*abs
	e     *escEval
	hot   map[ssa.Value]bool // values that hold the digits or their number
	num   map[ssa.Value]bool // those that are the number itself
}

func (w *lengthWalk) start(fn *ssa.Function, call *ssa.Call, m *lengthMatch) {
	f := &lengthFrame{fn: fn, match: map[ssa.Value]*lengthMatch{}, all: map[ssa.Value]*lengthMatch{}, known: map[ssa.Value]*abs{}}
	if strings.Contains(calleeFullName(call), "FindAll") {
		f.all[call] = m
	} else {
		f.match[call] = m
	}
	w.run(f, nil, 0)
}

// group is the group of a match a value is a text of.
func (f *lengthFrame) group(v ssa.Value) (*lengthMatch, int, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		ia, ok := x.X.(*ssa.IndexAddr)
		if !ok || x.Op != token.MUL {
			return nil, 0, false
		}
		m := f.matchOf(ia.X)
		i, ok := constIndex(ia.Index)
		if m == nil || m.index || !ok || i >= len(m.groups) {
			return nil, 0, false
		}
		return m, i, true
	case *ssa.Slice:
		if x.Low == nil || x.High == nil || !isTextType(x.Type()) {
			return nil, 0, false
		}
		lm, li, ok := f.position(x.Low)
		hm, hi, ok2 := f.position(x.High)
		if ok && ok2 && lm == hm && li%2 == 0 && hi == li+1 {
			return lm, li / 2, true
		}
	}
	return nil, 0, false
}

// position is the index of a position within the result of an index search.
func (f *lengthFrame) position(v ssa.Value) (*lengthMatch, int, bool) {
	x, ok := v.(*ssa.UnOp)
	if !ok || x.Op != token.MUL {
		return nil, 0, false
	}
	ia, ok := x.X.(*ssa.IndexAddr)
	if !ok {
		return nil, 0, false
	}
	m := f.matchOf(ia.X)
	i, ok := constIndex(ia.Index)
	if m == nil || !m.index || !ok || i >= 2*len(m.groups) {
		return nil, 0, false
	}
	return m, i, true
}

func constIndex(v ssa.Value) (int, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil {
		return 0, false
	}
	n, ok := constant.Int64Val(constant.ToInt(k.Value))
	return int(n), ok && n >= 0
}

// matchOf: the match a value holds, also as an element of the list of all matches
func (f *lengthFrame) matchOf(v ssa.Value) *lengthMatch {
	for i := 0; i < 8; i++ {
		if m := f.match[v]; m != nil {
			return m
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
				if m := f.all[ia.X]; m != nil {
					return m
				}
			}
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				if st := onlyStore(al); st != nil {
					v = st
					continue
				}
			}
			return nil
		case *ssa.Phi:
			var one ssa.Value
			for j, ed := range x.Edges {
				if f.e != nil && !f.e.edges[[2]*ssa.BasicBlock{x.Block().Preds[j], x.Block()}] {
					continue
				}
				if one != nil && one != ed {
					return nil
				}
				one = ed
			}
			if one == nil {
				return nil
			}
			v = one
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// onlyStore is the single value stored in a local variable whose address goes nowhere else.
func onlyStore(al *ssa.Alloc) ssa.Value {
	var one ssa.Value
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr != al || one != nil {
				return nil
			}
			one = x.Val
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return one
}

func (w *lengthWalk) assume(f *lengthFrame) func(*escEval, ssa.Value) *abs {
	b := func(v bool) *abs { return knownNum(constant.MakeBool(v)) }
	return func(e *escEval, v ssa.Value) *abs {
		if a := f.known[v]; a != nil && e.fn == f.fn {
			return a
		}
		if m, g, ok := f.group(v); ok {
			return &abs{alts: []string{m.groups[g]}}
		}
		if m, i, ok := f.position(v); ok {
			if !m.found[i/2] {
				return knownNum(constant.MakeInt64(-1))
			}
			return nil
		}
		lit := func(v ssa.Value) (string, bool) {
			a := e.eval(v)
			if a == nil || a.num != nil || a.hom || len(a.alts) != 1 {
				return "", false
			}
			return a.alts[0], true
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			// a match against nil, a position of a found group against a number below zero
			for _, pair := range [2][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if isNilConst(pair[1]) && (x.Op == token.EQL || x.Op == token.NEQ) {
					if m := f.matchOf(pair[0]); m != nil {
						return b(m.none == (x.Op == token.EQL))
					}
					if m := f.all[pair[0]]; m != nil {
						return b(m.none == (x.Op == token.EQL))
					}
				}
			}
			for k, pair := range [2][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				m, i, ok := f.position(pair[0])
				if !ok || !m.found[i/2] {
					continue
				}
				c, ok := pair[1].(*ssa.Const)
				if !ok || c.Value == nil {
					continue
				}
				n, ok := constant.Int64Val(constant.ToInt(c.Value))
				if !ok {
					continue
				}
				op := x.Op
				if k == 1 {
					op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
				}
				switch {
				case op == token.EQL && n < 0, op == token.LSS && n <= 0, op == token.LEQ && n < 0:
					return b(false)
				case op == token.NEQ && n < 0, op == token.GTR && n < 0, op == token.GEQ && n <= 0:
					return b(true)
				}
			}
			// both ends of a group that was not found are the same
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				switch calleeFullName(c) {
				case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
					if s, ok := lit(c.Call.Args[0]); !ok || s != w.digits {
						return nil
					}
					if isErrorType(x.Type()) {
						return knownNum(constant.MakeInt64(0))
					}
					if w.direct {
						n, _ := strconv.Atoi(w.digits)
						return knownNum(constant.MakeInt64(int64(n)))
					}
				}
			}
		case *ssa.Call:
			args := x.Call.Args
			if ts := w.c.p.Callees(x); len(ts) == 1 && w.c.p.inMod[ts[0]] {
				for i, arg := range args {
					if m := f.matchOf(arg); m != nil && i < len(ts[0].Params) && ts[0] != f.fn {
						f.match[ts[0].Params[i]] = m // a helper that looks at the match
					}
				}
			}
			switch name := calleeFullName(x); name {
			case "builtin.len":
				if m := f.matchOf(args[0]); m != nil {
					n := len(m.groups)
					if m.index {
						n *= 2
					}
					return knownNum(constant.MakeInt64(int64(n)))
				}
				if m := f.all[args[0]]; m != nil {
					if m.none {
						return knownNum(constant.MakeInt64(0))
					}
					return nil
				}
				if s, ok := lit(args[0]); ok {
					return knownNum(constant.MakeInt64(int64(len(s))))
				}
			case "bytes.HasSuffix", "bytes.HasPrefix", "bytes.Contains", "bytes.Equal", "bytes.ContainsAny", "strings.Index", "bytes.Index", "strings.IndexByte":
				s, ok := lit(args[0])
				t, ok2 := lit(args[1])
				if !ok || !ok2 {
					return nil
				}
				switch name {
				case "bytes.HasSuffix":
					return b(strings.HasSuffix(s, t))
				case "bytes.HasPrefix":
					return b(strings.HasPrefix(s, t))
				case "bytes.Contains":
					return b(strings.Contains(s, t))
				case "bytes.ContainsAny":
					return b(strings.ContainsAny(s, t))
				case "bytes.Equal":
					return b(s == t)
				}
				return knownNum(constant.MakeInt64(int64(strings.Index(s, t))))
			case "bytes.TrimSpace":
				if s, ok := lit(args[0]); ok {
					return &abs{alts: []string{strings.TrimSpace(s)}}
				}
			case "(*regexp.Regexp).MatchString", "(*regexp.Regexp).Match":
				pat, ok := w.c.p.patternOf(args[0])
				s, ok2 := lit(args[1])
				if ok && ok2 {
					if re, err := regexp.Compile(pat); err == nil {
						return b(re.MatchString(s))
					}
				}
			}
		}
		return nil
	}
}

// run follows the digits within one function; the results say what is returned.
type lengthResult struct {
	hot   map[int]bool // results that hold the digits
	num   map[int]bool
	known map[int]*abs // what is known about the others
}

func (w *lengthWalk) run(f *lengthFrame, seeds []ssa.Value, depth int) *lengthResult {
	f.e = &escEval{p: w.c.p, esc: w.c.p.escaper, fn: f.fn, text: map[ssa.Value]bool{}, char: map[ssa.Value]bool{}, c: 0x10FFFF, assume: w.assume(f)}
	f.e.run(nil)
	f.hot, f.num = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	res := &lengthResult{hot: map[int]bool{}, num: map[int]bool{}, known: map[int]*abs{}}
	var work []ssa.Value
	add := func(v ssa.Value, num bool) {
		if num {
			f.num[v] = true
		}
		if !f.hot[v] {
			f.hot[v] = true
			work = append(work, v)
		}
	}
	for _, s := range seeds {
		add(s, true)
	}
	for _, b := range f.fn.Blocks {
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok {
				continue
			}
			if m, g, ok := f.group(v); ok && g == m.number {
				add(v, true)
				w.read = true
			}
		}
	}
	sink := func(ins ssa.Instruction, what string) {
		w.sinks = append(w.sinks, lengthUse{w.c.p.InstrPos(ins), what})
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, ref := range *refs {
			if !f.e.reach[ref.Block()] {
				continue
			}
			switch x := ref.(type) {
			case *ssa.Convert, *ssa.ChangeType:
				add(x.(ssa.Value), f.num[v])
			case *ssa.MakeInterface:
				add(x, f.num[v])
			case *ssa.TypeAssert:
				add(x, f.num[v])
			case *ssa.UnOp:
				if x.Op == token.MUL || x.Op == token.SUB {
					add(x, f.num[v] && x.Op == token.MUL)
				}
			case *ssa.Extract:
				if x.Index == 0 {
					add(x, f.num[v])
				}
			case *ssa.BinOp:
				if isIntType(x.Type()) {
					add(x, false)
				}
			case *ssa.Phi:
				for i, ed := range x.Edges {
					if ed == v && f.e.edges[[2]*ssa.BasicBlock{x.Block().Preds[i], x.Block()}] {
						add(x, f.num[v])
					}
				}
			case *ssa.Slice:
				if x.X == v {
					add(x, false)
					continue
				}
				if m, _, ok := f.group(x); ok && m != nil {
					continue
				}
				if x.High == v {
					sink(x, "data is cut there")
					w.end(f, x)
				} else {
					sink(x, "data is taken from there on")
				}
			case *ssa.MakeSlice:
				sink(x, "memory of that size is used")
			case *ssa.IndexAddr:
				if x.X == v {
					add(x, f.num[v])
				} else {
					sink(x, "an element is chosen by it")
				}
			case *ssa.Index:
				if x.Index == v {
					sink(x, "an element is chosen by it")
				}
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				switch a := x.Addr.(type) {
				case *ssa.Alloc:
					add(a, f.num[v])
				case *ssa.IndexAddr:
					if al, ok := a.X.(*ssa.Alloc); ok {
						add(al, false)
						continue
					}
					sink(x, "it is kept as a length")
				default:
					sink(x, "it is kept as a length")
				}
			case *ssa.MapUpdate:
				if x.Value == v {
					sink(x, "it is kept as a length")
				}
			case *ssa.Send:
				sink(x, "it is passed on")
			case *ssa.Return:
				if w.excused(f, x) {
					continue
				}
				for i, rv := range x.Results {
					if rv == v {
						res.hot[i] = true
						res.num[i] = res.num[i] || f.num[v]
					}
				}
			case ssa.CallInstruction:
				w.call(f, x, v, add, sink, depth)
			}
		}
	}
	// matches handed to a helper
	for _, b := range f.fn.Blocks {
		if !f.e.reach[b] {
			continue
		}
		for _, ins := range b.Instrs {
			call, ok := ins.(*ssa.Call)
			if !ok || depth > 3 {
				continue
			}
			for i, a := range call.Call.Args {
				m := f.matchOf(a)
				all := f.all[a]
				if m == nil && all == nil {
					continue
				}
				for _, t := range w.c.p.Callees(call) {
					if !w.c.p.inMod[t] || len(t.Blocks) == 0 || i >= len(t.Params) {
						continue
					}
					g := &lengthFrame{fn: t, match: map[ssa.Value]*lengthMatch{}, all: map[ssa.Value]*lengthMatch{}, known: map[ssa.Value]*abs{}}
					if m != nil {
						g.match[t.Params[i]] = m
					} else {
						g.all[t.Params[i]] = all
					}
					rs := w.run(g, nil, depth+1)
					w.resume(f, call, rs, depth)
				}
			}
		}
	}
	w.note(f, res)
	if len(res.hot) > 0 && seeds == nil && depth == 0 {
		w.up(f.fn, res, 0)
	}
	return res
}

// resume continues in the caller with what a helper returned.
func (w *lengthWalk) resume(f *lengthFrame, call *ssa.Call, rs *lengthResult, depth int) {
	key := w.c.p.FuncName(f.fn) + w.c.p.InstrPos(call)
	if len(rs.hot) == 0 || w.seen[key] {
		return
	}
	w.seen[key] = true
	w.follow(f.fn, call, rs, depth)
}

// follow goes on in a function that calls one with the given results.
func (w *lengthWalk) follow(fn *ssa.Function, call *ssa.Call, rs *lengthResult, depth int) {
	g := &lengthFrame{fn: fn, match: map[ssa.Value]*lengthMatch{}, all: map[ssa.Value]*lengthMatch{}, known: map[ssa.Value]*abs{}}
	var seeds []ssa.Value
	if call.Call.Signature().Results().Len() == 1 {
		if rs.hot[0] {
			seeds = append(seeds, call)
		}
	} else {
		for _, ref := range *call.Referrers() {
			if ex, ok := ref.(*ssa.Extract); ok {
				if rs.hot[ex.Index] {
					seeds = append(seeds, ex)
				} else if a := rs.known[ex.Index]; a != nil {
					g.known[ex] = a
				}
			}
		}
	}
	if seeds == nil {
		return
	}
	res := w.run(g, seeds, depth+1)
	if len(res.hot) > 0 {
		w.up(fn, res, depth+1)
	}
}

// up continues in all callers of a function that returns the digits.
func (w *lengthWalk) up(fn *ssa.Function, res *lengthResult, depth int) {
	if depth > 4 {
		return
	}
	n := 0
	for _, c := range w.c.p.callers[fn] {
		call, ok := c.(*ssa.Call)
		if !ok {
			continue
		}
		key := "up " + w.c.p.InstrPos(call) + w.c.p.FuncName(fn)
		if w.seen[key] {
			n++
			continue
		}
		w.seen[key] = true
		n++
		w.follow(call.Parent(), call, res, depth)
	}
	if n == 0 {
		w.sinks = append(w.sinks, lengthUse{w.c.p.Pos(fn.Pos()), "it is returned as a length"})
	}
}

// note records what is known about the results that do not hold the digits.
func (w *lengthWalk) note(f *lengthFrame, res *lengthResult) {
	first := true
	for b := range f.e.reach {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || w.excused(f, ret) {
			continue
		}
		for i, rv := range ret.Results {
			a := f.e.eval(rv)
			if a == nil || a.num == nil {
				delete(res.known, i)
				continue
			}
			old := res.known[i]
			if first {
				res.known[i] = a
			} else if old == nil || !constant.Compare(old.num, token.EQL, a.num) {
				delete(res.known, i)
			}
		}
		first = false
	}
}

// excused: the return says that there is no length: by an error or by a false
func (w *lengthWalk) excused(f *lengthFrame, ret *ssa.Return) bool {
	c := &c17{p: w.c.p}
	for _, rv := range ret.Results {
		if isErrorType(rv.Type()) && c.failing(f.e, rv, ret.Block(), 0) {
			return true
		}
		if bt, ok := rv.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool && len(ret.Results) == 2 {
			if a := f.e.eval(rv); a != nil && a.num != nil && !constant.BoolVal(a.num) {
				return true
			}
		}
	}
	return false
}

func (w *lengthWalk) call(f *lengthFrame, x ssa.CallInstruction, v ssa.Value, add func(ssa.Value, bool), sink func(ssa.Instruction, string), depth int) {
	name := calleeFullName(x)
	val, _ := x.(ssa.Value)
	switch {
	case strings.HasPrefix(name, "strconv."):
		if val != nil {
			add(val, f.num[v])
		}
		return
	case strings.HasPrefix(name, "strings."), strings.HasPrefix(name, "bytes."), strings.HasPrefix(name, "(*regexp.Regexp)"):
		if val != nil && isTextType(val.Type()) {
			add(val, f.num[v])
		}
		return
	case name == "builtin.min", name == "builtin.max":
		add(val, f.num[v])
		return
	case strings.HasPrefix(name, "builtin."):
		return
	case strings.HasPrefix(name, "fmt.Sscan"):
		for i, a := range x.Common().Args {
			if a == v && i > 0 {
				return
			}
		}
		if mi := scanned(x); mi != nil {
			add(mi, true)
		}
		return
	case strings.HasPrefix(name, "fmt."), strings.HasPrefix(name, "log."), strings.HasPrefix(name, "errors."), strings.HasPrefix(name, "(*log.Logger)"):
		return
	}
	inside := false
	for _, t := range w.c.p.Callees(x) {
		if !w.c.p.inMod[t] || len(t.Blocks) == 0 {
			continue
		}
		inside = true
		if depth > 3 {
			continue
		}
		for i, a := range x.Common().Args {
			if a != v || i >= len(t.Params) {
				continue
			}
			key := "in " + w.c.p.InstrPos(x) + t.Params[i].Name()
			if w.seen[key] {
				continue
			}
			w.seen[key] = true
			g := &lengthFrame{fn: t, match: map[ssa.Value]*lengthMatch{}, all: map[ssa.Value]*lengthMatch{}, known: map[ssa.Value]*abs{}}
			for j, o := range x.Common().Args {
				if j != i && j < len(t.Params) {
					if k := f.e.eval(o); k != nil && !k.hom {
						g.known[t.Params[j]] = k
					}
				}
			}
			rs := w.run(g, []ssa.Value{t.Params[i]}, depth+1)
			if len(rs.hot) == 0 || val == nil {
				continue
			}
			if x.Common().Signature().Results().Len() == 1 {
				add(val, rs.num[0])
				continue
			}
			for _, ref := range *val.Referrers() {
				if ex, ok := ref.(*ssa.Extract); ok && rs.hot[ex.Index] {
					add(ex, rs.num[ex.Index])
				}
			}
		}
	}
	if !inside {
		sink(x, "it is passed to "+name)
	}
}

// scanned is the variable a scan stores its number in.
func scanned(x ssa.CallInstruction) ssa.Value {
	args := x.Common().Args
	if len(args) == 0 {
		return nil
	}
	vals, _ := variadic(args[len(args)-1])
	for _, v := range vals {
		if al, ok := unwrapIface(v).(*ssa.Alloc); ok {
			return al
		}
	}
	return nil
}

// end compares the end of a slice with its beginning: the difference is the number, nothing else.
func (w *lengthWalk) end(f *lengthFrame, s *ssa.Slice) {
	if !w.direct {
		return
	}
	d := w.c.n.Lin(s.High)
	if s.Low != nil {
		d = d.add(w.c.n.Lin(s.Low), -1)
	}
	w.ends++
	for a, k := range d.t {
		if a.len || !f.num[a.v] {
			continue
		}
		rest := d.add(w.c.n.self(a.v), -1)
		if k != 1 || len(rest.t) != 0 || rest.c != 0 {
			w.wrong = append(w.wrong, lengthUse{w.c.p.InstrPos(s), "the data cut there is not as long as it says"})
		}
	}
	w.after(f, s)
}

// after follows the data on the ways through the place where it was cut: nothing is taken off it any more.
func (w *lengthWalk) after(f *lengthFrame, s *ssa.Slice) {
	g := *f
	g.known = map[ssa.Value]*abs{}
	for v, a := range f.known {
		g.known[v] = a
	}
	var holds []lin // what is not negative there
	for b := s.Block(); b.Idom() != nil; b = b.Idom() {
		d := b.Idom()
		if br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && len(b.Preds) == 1 && d.Succs[0] != d.Succs[1] {
			yes := d.Succs[0] == b
			g.known[br.Cond] = knownNum(constant.MakeBool(yes))
			if l, ok := w.c.comparison(br.Cond); ok {
				if !yes {
					l = lin{c: -1}.add(l, -1)
				}
				holds = append(holds, l)
			}
		}
	}
	for _, b := range f.fn.Blocks {
		for _, ins := range b.Instrs {
			x, ok := ins.(*ssa.BinOp)
			if !ok || g.known[x] != nil {
				continue
			}
			l, ok := w.c.comparison(x)
			if !ok {
				continue
			}
			for _, h := range holds {
				if d := l.add(h, -1); len(d.t) == 0 && d.c >= 0 {
					g.known[x] = knownNum(constant.MakeBool(true))
				}
				if d := (lin{c: -1}).add(l, -1).add(h, -1); len(d.t) == 0 && d.c >= 0 {
					g.known[x] = knownNum(constant.MakeBool(false))
				}
			}
		}
	}
	g.e = &escEval{p: w.c.p, esc: w.c.p.escaper, fn: f.fn, text: map[ssa.Value]bool{}, char: map[ssa.Value]bool{}, c: 0x10FFFF, assume: w.assume(&g)}
	g.e.run(nil)
	seen, less := map[ssa.Value]bool{s: true}, map[ssa.Value]ssa.Value{}
	work := []ssa.Value{s}
	wrong := func(ins ssa.Instruction) {
		w.wrong = append(w.wrong, lengthUse{w.c.p.InstrPos(ins), "a part of the data cut there is taken off again"})
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		add := func(o, from ssa.Value) {
			if !seen[o] {
				seen[o] = true
				if from != nil {
					less[o] = from
				}
				work = append(work, o)
			}
		}
		if v.Referrers() == nil {
			continue
		}
		for _, ref := range *v.Referrers() {
			if !g.e.reach[ref.Block()] {
				continue
			}
			switch x := ref.(type) {
			case *ssa.ChangeType:
				add(x, less[v])
			case *ssa.Convert:
				add(x, less[v])
			case *ssa.Phi:
				for i, ed := range x.Edges {
					if ed == v && g.e.edges[[2]*ssa.BasicBlock{x.Block().Preds[i], x.Block()}] {
						if less[v] != nil {
							wrong(less[v].(ssa.Instruction))
						}
						add(x, less[v])
					}
				}
			case *ssa.Slice:
				if x.X != v {
					continue
				}
				whole := x.Low == nil
				if x.Low != nil {
					l := w.c.n.Lin(x.Low)
					whole = l.c == 0 && len(l.t) == 0
				}
				if x.High != nil {
					d := w.c.n.Lin(x.High)
					whole = whole && d.c == 0 && len(d.t) == 1 && d.t[atom{v: v, len: true}] == 1
				}
				if whole {
					add(x, less[v])
				} else {
					add(x, x)
				}
			case *ssa.Return, *ssa.Store:
				if less[v] != nil {
					wrong(less[v].(ssa.Instruction))
				}
			case *ssa.Call:
				switch name := calleeFullName(x); {
				case strings.HasPrefix(name, "bytes.Trim"), strings.HasPrefix(name, "strings.Trim"):
					if x.Call.Args[0] == v {
						add(x, x)
					}
				case name == "bytes.Clone":
					add(x, less[v])
				case less[v] != nil:
					for _, t := range w.c.p.Callees(x) {
						if rs := t.Signature.Results(); w.c.p.inMod[t] && rs.Len() > 0 && isTextType(rs.At(0).Type()) {
							wrong(less[v].(ssa.Instruction))
							break
						}
					}
				}
			}
		}
	}
}

// comparison: the condition says that a number is not negative
func (c *c24) comparison(v ssa.Value) (lin, bool) {
	x, ok := v.(*ssa.BinOp)
	if !ok || !isIntType(x.X.Type()) {
		return lin{}, false
	}
	a, b := c.n.Lin(x.X), c.n.Lin(x.Y)
	switch x.Op {
	case token.LSS:
		return b.add(a, -1).add(lin{c: 1}, -1), true
	case token.LEQ:
		return b.add(a, -1), true
	case token.GTR:
		return a.add(b, -1).add(lin{c: 1}, -1), true
	case token.GEQ:
		return a.add(b, -1), true
	}
	return lin{}, false
}

// subject is what becomes of the sample on the way from the dictionary to the search.
func (c *c24) subject(v ssa.Value, sample string, depth int) string {
	if depth > 8 {
		return sample
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return c.subject(x.X, sample, depth+1)
	case *ssa.ChangeType:
		return c.subject(x.X, sample, depth+1)
	case *ssa.Call:
		args := x.Call.Args
		text := func(i int) (string, bool) {
			if i >= len(args) {
				return "", false
			}
			return c.p.constText(args[i])
		}
		switch calleeFullName(x) {
		case "strings.ReplaceAll", "bytes.ReplaceAll", "strings.Replace", "bytes.Replace":
			old, ok := text(1)
			repl, ok2 := text(2)
			if ok2 = ok2 || isNilConst(args[2]); ok && ok2 {
				return strings.ReplaceAll(c.subject(args[0], sample, depth+1), old, repl)
			}
		case "(*regexp.Regexp).ReplaceAllString", "(*regexp.Regexp).ReplaceAllLiteralString", "(*regexp.Regexp).ReplaceAll":
			pat, ok := c.p.patternOf(args[0])
			repl, ok2 := text(2)
			if ok2 = ok2 || isNilConst(args[2]); ok && ok2 {
				if re, err := regexp.Compile(pat); err == nil {
					return re.ReplaceAllString(c.subject(args[1], sample, depth+1), repl)
				}
			}
		case "strings.Join", "bytes.Join":
			if in, ok := args[0].(*ssa.Call); ok && strings.HasSuffix(calleeFullName(in), "s.Fields") {
				sep, ok := text(1)
				if ok = ok || isNilConst(args[1]); ok {
					return strings.Join(strings.Fields(c.subject(in.Call.Args[0], sample, depth+1)), sep)
				}
			}
		case "strings.TrimSpace", "bytes.TrimSpace", "strings.ToLower", "strings.ToUpper":
			return c.subject(args[0], sample, depth+1)
		}
	}
	return sample
}

// dictionaries: a function that turns the entries of a dictionary into numbers takes only whole values for numbers.
func (c *c24) dictionaries(fn *ssa.Function) int {
	n := 0
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			mu, ok := ins.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			if _, ok := mu.Key.(*ssa.Const); ok || !isIntType(unwrapIface(mu.Value).Type()) || !isStringType(mu.Key.Type()) {
				continue
			}
			why := ""
			switch c.part(unwrapIface(mu.Value), 0) {
			case 0:
				continue
			case 2:
				why = "only a part of the value is read"
			}
			n++
			if why != "" {
				c.r.Violate("a reference is not a number", c.p.FuncName(fn), c.p.InstrPos(mu), "%s keeps the number at the beginning of a dictionary's value, so a reference (12 0 R) is kept as the number 12: %s", c.p.FuncName(fn), why)
			}
		}
	}
	return n
}

// part: 1 for a number read from a whole text, 2 for one read from a piece of it, 0 for others
func (c *c24) part(v ssa.Value, depth int) int {
	if depth > 6 {
		return 0
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return c.part(x.X, depth+1)
	case *ssa.ChangeType:
		return c.part(x.X, depth+1)
	case *ssa.Phi:
		most := 0
		for _, ed := range x.Edges {
			if k := c.part(ed, depth+1); k > most {
				most = k
			}
		}
		return most
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, ref := range *al.Referrers() {
				if mi, ok := ref.(*ssa.MakeInterface); ok && mi.Referrers() != nil {
					return 2 // filled in by a scan
				}
			}
		}
	case *ssa.Extract:
		call, ok := x.Tuple.(*ssa.Call)
		if !ok || x.Index != 0 {
			return 0
		}
		switch calleeFullName(call) {
		case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat":
			if c.piece(call.Call.Args[0], 0) {
				return 2
			}
			return 1
		}
	}
	return 0
}

// piece: the text is a word of another one
func (c *c24) piece(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return c.piece(x.X, depth+1)
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if c.piece(ed, depth+1) {
				return true
			}
		}
	case *ssa.Slice:
		return c.piece(x.X, depth+1) || x.High != nil && wordEnd(x.High)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return strings.HasSuffix(calleeFullName(call), "s.Cut")
		}
	case *ssa.Call:
		switch name := calleeFullName(x); name {
		case "strings.TrimSpace", "bytes.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix":
			return c.piece(x.Call.Args[0], depth+1)
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			if call, ok := ia.X.(*ssa.Call); ok {
				switch calleeFullName(call) {
				case "strings.Fields", "bytes.Fields", "strings.Split", "strings.SplitN", "bytes.Split", "bytes.SplitN", "strings.SplitAfter", "strings.FieldsFunc", "strings.SplitAfterN":
					return true
				}
			}
		}
	}
	return false
}

// wordEnd: a position at which white space was found
func wordEnd(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	switch calleeFullName(call) {
	case "strings.IndexAny", "strings.IndexByte", "strings.Index", "strings.IndexRune", "strings.IndexFunc", "bytes.IndexByte", "bytes.IndexAny", "bytes.Index":
		return true
	}
	return false
}

// lineEnds: where data is cut at the endstream keyword instead, the line end before the keyword is taken off before
// the data is decrypted or encrypted.
func (c *c24) lineEnds() {
	x := &c07{p: c.p, r: &Result{}, level: map[*ssa.Function]int{}, preds: map[predKey]int{}, data: map[*ssa.Function]*ssa.Parameter{}}
	x.levels()
	reach := &lengths{p: c.p}
	for _, fn := range c.p.Lib {
		if x.level[fn] == 1 || x.level[fn] == 3 || !reach.called(fn, map[*ssa.Function]bool{}) {
			continue
		}
		eachCall(fn, func(call ssa.CallInstruction) {
			if !x.crypts(call) || x.isHelper(call) {
				return
			}
			raw := x.rawOf(call)
			if raw == nil {
				return
			}
			c.r.Count("data decrypted", 1)
			for _, sl := range c.cutAtKeyword(raw, map[ssa.Value]bool{}) {
				c.r.Violate("the line end before endstream is not data", c.p.FuncName(fn), c.p.InstrPos(sl), "%s cuts the data at the endstream keyword and hands it to %s (%s) with the line end before the keyword", c.p.FuncName(fn), calleeName(call), c.p.InstrPos(call))
			}
		})
	}
}

func calleeName(c ssa.CallInstruction) string {
	name := calleeFullName(c)
	return name[strings.LastIndex(name, "/")+1:]
}

// shortens: the value is the other one with its end taken off
func (c *c24) shortens(o, v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch y := o.(type) {
	case *ssa.Slice:
		return y.High != nil && (y.X == v && c.n.Lin(y.High).t[atom{v: v, len: true}] == 1 || c.shortens(y.X, v, depth+1))
	case *ssa.Call:
		for _, a := range y.Call.Args {
			if a == v || c.shortens(a, v, depth+1) {
				return true
			}
		}
	}
	return false
}

// cutAtKeyword lists the slices that end at a search result for the endstream keyword and are used as they are.
func (c *c24) cutAtKeyword(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Slice {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		var out []*ssa.Slice
		for _, ed := range x.Edges {
			shortened := false // the line end was looked for: another edge is the same data with its end taken off
			for _, o := range x.Edges {
				shortened = shortened || c.shortens(o, ed, 0)
			}
			if !shortened {
				out = append(out, c.cutAtKeyword(ed, seen)...)
			}
		}
		return out
	case *ssa.ChangeType:
		return c.cutAtKeyword(x.X, seen)
	case *ssa.Convert:
		return c.cutAtKeyword(x.X, seen)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			var out []*ssa.Slice
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
					out = append(out, c.cutAtKeyword(st.Val, seen)...)
				}
			}
			return out
		}
	case *ssa.Call:
		if calleeFullName(x) == "bytes.Clone" {
			return c.cutAtKeyword(x.Call.Args[0], seen)
		}
	case *ssa.Slice:
		if x.High == nil {
			return c.cutAtKeyword(x.X, seen)
		}
		l := c.n.Lin(x.High)
		for a, k := range l.t {
			if k == 1 && !a.len && l.c >= 0 && c.keywordSearch(a.v, map[ssa.Value]bool{}) {
				return []*ssa.Slice{x}
			}
		}
	}
	return nil
}

// keywordSearch: the value is the position of the endstream keyword, possibly on some ways only
func (c *c24) keywordSearch(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if l := c.n.Lin(ed); l.c < 0 {
				for a, k := range l.t {
					if k == 1 && !a.len && (a.v == x || c.keywordSearch(a.v, map[ssa.Value]bool{x: true})) {
						return false // the position is moved back
					}
				}
			}
		}
		for _, ed := range x.Edges {
			for a, k := range c.n.Lin(ed).t {
				if k == 1 && !a.len && c.keywordSearch(a.v, seen) {
					return true
				}
			}
		}
	case *ssa.Call:
		switch calleeFullName(x) {
		case "bytes.Index", "bytes.LastIndex", "strings.Index", "strings.LastIndex":
			s, ok := c.p.constText(x.Call.Args[1])
			return ok && s == "endstream"
		}
	}
	return false
}
