package main

import (
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C01"] = checkC01 }

// C01: every operation that panics on some operands is shown never to get such operands.

type site struct {
	fn    *ssa.Function
	ins   ssa.Instruction
	kind  string
	goals []lin // all must be >= 0
	what  []string
	bad   bool // violation whatever the numbers
	why   string
}

func panicSites(p *Program, n *Num, fn *ssa.Function) []*site {
	var out []*site
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			s := &site{fn: fn, ins: ins}
			need := func(l lin, what string) { s.goals = append(s.goals, l); s.what = append(s.what, what) }
			index := func(x, i ssa.Value) {
				s.kind = "index"
				li := n.Lin(i)
				need(li, "the index is not negative")
				need(n.Len(x).add(li, -1).minus(1), "the index is below the length")
			}
			switch x := ins.(type) {
			case *ssa.IndexAddr:
				index(x.X, x.Index)
			case *ssa.Index:
				index(x.X, x.Index)
			case *ssa.Lookup:
				if isString(x.X.Type()) {
					index(x.X, x.Index)
				}
			case *ssa.Slice:
				s.kind = "slice"
				lo, hi := konst(0), n.Len(x.X)
				if x.Low != nil {
					lo = n.Lin(x.Low)
					need(lo, "the lower bound is not negative")
				}
				if x.High != nil {
					hi = n.Lin(x.High)
					need(n.Len(x.X).add(hi, -1), "the upper bound is within the length")
				}
				need(hi.add(lo, -1), "the lower bound does not exceed the upper")
			case *ssa.TypeAssert:
				if !x.CommaOk {
					s.kind = "assertion"
					s.bad, s.why = true, "type assertion without the ok result"
				}
			case *ssa.BinOp:
				if (x.Op == token.QUO || x.Op == token.REM) && isInt(x.Type()) {
					l := n.Lin(x.Y)
					if len(l.t) == 0 && l.c != 0 {
						continue
					}
					s.kind = "division"
					need(l.minus(1), "the divisor is positive")
				}
			case *ssa.MakeSlice:
				l := n.Lin(x.Len)
				s.kind = "make"
				need(l, "the size is not negative")
				if c := n.Lin(x.Cap); n.str(c) != n.str(l) {
					need(c.add(l, -1), "the capacity is at least the length")
				}
			case *ssa.Panic:
				s.kind, s.bad, s.why = "panic", true, "explicit panic"
			case *ssa.Call:
				name := calleeFullName(x)
				args := x.Call.Args
				switch name {
				case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "(*log.Logger).Panic", "(*log.Logger).Panicf", "(*log.Logger).Panicln", "runtime.Goexit", "syscall.Exit":
					s.kind, s.bad, s.why = "exit", true, "the call ends the process"
				case "regexp.MustCompile", "regexp.MustCompilePOSIX":
					s.kind = "pattern"
					if !goodPattern(args[0]) {
						s.bad, s.why = true, "the pattern is put together from text that is not quoted"
					}
				case "strings.Repeat", "bytes.Repeat":
					s.kind = "repeat"
					need(n.Lin(args[1]), "the count is not negative")
				case "crypto/cipher.NewCBCEncrypter", "crypto/cipher.NewCBCDecrypter":
					s.kind = "iv"
					l := n.Len(args[1])
					need(l.minus(16), "the initialisation vector has the block size")
					need(konst(16).add(l, -1), "the initialisation vector has the block size")
				}
				if k := uintSize(name); k > 0 && len(args) > 0 {
					s.kind = "fixed-width access"
					need(n.Len(args[len(args)-uintArg(name)]).minus(k), "enough bytes are present")
				}
				if x.Call.IsInvoke() {
					switch x.Call.Method.Name() {
					case "CryptBlocks":
						s.kind = "blocks"
						need(n.Len(args[0]).add(n.Len(args[1]), -1), "the destination is large enough")
						need(n.wholeBlocks(n.Len(args[1]), 16, x), "the data is a whole number of blocks")
					case "Encrypt", "Decrypt":
						if x.Call.Method.Pkg() != nil && x.Call.Method.Pkg().Path() == "crypto/cipher" {
							s.kind = "block"
							need(n.Len(args[0]).minus(16), "the destination holds a block")
							need(n.Len(args[1]).minus(16), "the source holds a block")
						}
					}
				}
			}
			if s.kind != "" {
				out = append(out, s)
			}
		}
	}
	return out
}

// wholeBlocks is an inequality that implies that m divides l.
func (n *Num) wholeBlocks(l lin, m int64, at ssa.Instruction) lin {
	never := konst(-1)
	for a, k := range l.t {
		if k%m == 0 {
			continue
		}
		// len(x) - len(x)%m
		if b, ok := a.v.(*ssa.BinOp); ok && b.Op == token.REM && !a.len {
			if c, ok := b.Y.(*ssa.Const); ok && c.Int64()%m == 0 {
				return n.wholeBlocks(l.add(lin{t: map[atom]int64{a: 1}}, -k).add(n.Lin(b.X), k), m, at)
			}
		}
	}
	rest := konst(((l.c % m) + m) % m)
	for a, k := range l.t {
		if k%m != 0 {
			rest = rest.add(lin{t: map[atom]int64{a: 1}}, k)
		}
	}
	if len(rest.t) == 0 {
		if rest.c == 0 {
			return konst(0)
		}
		return never
	}
	// a remainder that has been compared with 0
	for _, b := range at.Parent().Blocks {
		for _, ins := range b.Instrs {
			r, ok := ins.(*ssa.BinOp)
			if !ok || r.Op != token.REM {
				continue
			}
			c, ok := r.Y.(*ssa.Const)
			if !ok || c.Int64()%m != 0 {
				continue
			}
			d := n.Lin(r.X).add(l, -1)
			whole := d.c%m == 0
			for _, k := range d.t {
				whole = whole && k%m == 0
			}
			if whole {
				if g := n.Lin(r).scale(-1); n.Prove(g, at) && n.Prove(n.Lin(r), at) {
					return konst(0)
				}
			}
		}
	}
	return never
}

func uintSize(name string) int64 {
	if !strings.HasPrefix(name, "(encoding/binary.") {
		return 0
	}
	switch {
	case strings.HasSuffix(name, "Uint16"):
		return 2
	case strings.HasSuffix(name, "Uint32"):
		return 4
	case strings.HasSuffix(name, "Uint64"):
		return 8
	}
	return 0
}

func uintArg(name string) int {
	if strings.Contains(name, ").Put") {
		return 2
	}
	return 1
}

func goodPattern(v ssa.Value) bool {
	_, ok := patternText(v)
	return ok
}

// Sites the prover cannot decide, by function and kind of site: they are counted, not reported.
var undecidedC01 = map[string]struct {
	sites int
	why   string
}{
	"(*core/write.PDFWriter).AddImage|index":          {5, "products of the bounds of a decoded image"},
	"(*core/write.PDFWriter).AddImage|make":           {3, "products of the bounds of a decoded image"},
	"(*core/write.PDFWriter).AddImage|assertion":      {1, "what an interface of the image package holds"},
	"(*core/write.PDFWriter).writeXRefStream|make":    {1, "a product of two variables, both counts"},
	"(*forms/acroform.Field).ToQuestion|index":        {1, "the number of elements appended in a loop"},
	"(*forms/xfa.PDFStream).Peek|slice":               {1, "an invariant between two fields of a struct"},
	"(*forms/xfa.PDFStream).Read|slice":               {1, "an invariant between two fields of a struct"},
	"(*forms/xfa.PDFStream).ReadByte|index":           {1, "an invariant between two fields of a struct"},
	"forms/xfa.ReadObjectFromXRef|slice":              {3, "a position kept in a struct"},
	"forms/xfa.parseDictionaryFromStream|slice":       {1, "a position kept in a struct"},
	"forms/xfa.readPDFObject|index":                   {4, "a position kept in a struct"},
	"forms/xfa.readPDFObject|slice":                   {3, "a position kept in a struct"},
	"content/extract.parseTextArrayWithDecoder|slice": {1, "a nesting counter says the loop ran"},
	"core/write.parseXFAArrayFromContent|slice":       {1, "a nesting counter says the loop ran"},
	"forms/xfa.parseObjectStructure|slice":            {1, "a nesting counter says the loop ran"},
	"forms/xfa.parseObjectStructure|index":            {7, "which of several searched windows a match came from"},
	"core/compare.findLCSMatches|index":               {8, "the lengths of the rows of a matrix"},
	"core/compare.myersDiff|index":                    {4, "the values of the elements of a slice"},
	"core/compare.myersDiffText|index":                {1, "the values of the elements of a slice"},
	"core/parse.ExtractRevision|index":                {1, "the values of the elements of a slice"},
	"core/parse.ExtractRevision|slice":                {1, "the values of the elements of a slice"},
	"core/parse.parseRevision|index":                  {1, "the values of the elements of a slice"},
	"core/parse.parseRevision|slice":                  {1, "the values of the elements of a slice"},
	"core/manipulate.ExtractPages|index":              {1, "an earlier loop has checked every element"},
	"core/manipulate.SplitPDF|make":                   {1, "an earlier loop has checked every element"},
	"core/write.hexDecode|index":                      {1, "the length is even on both ways"},
	"core/write.parseDictionary|slice":                {1, "successive matches do not overlap"},
	"forms/acroform.parseObjectStream|slice":          {1, "a number kept in a map"},
	"forms/xfa.ParseXFAStylesheet|assertion":          {4, "what an interface kept in a map holds"},
	"forms/xfa.ReplaceStreamInPDF|slice":              {1, "the same search made twice"},
	"forms/xfa.findAndDecryptAcroForm|slice":          {1, "a multiple of the block size below a bound"},
	"forms/xfa.findObjectBoundaries|slice":            {1, "several searches combined"},
	"forms/xfa.findXFAArrayContent|slice":             {1, "several searches combined"},
}

func checkC01(p *Program, tier string) *Result {
	r := &Result{Explanation: "Every place in the library that panics when a number is out of range is enumerated from the SSA form: index and slice expressions, make with a computed size, integer division, type assertions without the ok result, fixed-width reads and writes, cipher blocks and initialisation vectors, repeat counts and patterns compiled from text. For each the inequalities that rule the panic out (0 <= i, i < len(s), lo <= hi, hi <= cap, n >= 0, divisor != 0) are derived by an interprocedural inequality prover from dominating conditions, loop invariants, what library functions guarantee about their results, and what all callers pass. Sites whose inequality does not follow are reported; functions where the argument needs facts the prover has no notion of are listed as undecided and counted."}
	n := NewNum(p)
	only := os.Getenv("C01_FN")
	type failed struct {
		fn  *ssa.Function
		s   *site
		why string
	}
	var fails []failed
	undecided := func(fn *ssa.Function, kind string) string {
		for f := fn; f != nil; f = f.Parent() {
			if k := p.FuncName(f) + "|" + kind; undecidedC01[k].sites > 0 {
				return k
			}
		}
		return ""
	}
	// a part of such a function moved into a helper of its own
	var helper func(fn *ssa.Function, kind string, d int) string
	helper = func(fn *ssa.Function, kind string, d int) string {
		if k := undecided(fn, kind); k != "" {
			return k
		}
		if d > 3 || exportedAPI(fn) || p.addrUsed[fn] || len(p.callers[fn]) == 0 {
			return ""
		}
		k := ""
		for _, c := range p.callers[fn] {
			if c.Parent() != fn {
				if k = helper(c.Parent(), kind, d+1); k == "" {
					return ""
				}
			}
		}
		return k
	}
	open := map[string][]failed{}
	for _, fn := range p.Lib {
		if only != "" && !strings.Contains(p.FuncName(fn), only) {
			continue
		}
		r.Count("functions", 1)
		for _, s := range panicSites(p, n, fn) {
			r.Count("sites: "+s.kind, 1)
			fail := ""
			if s.bad {
				fail = s.why
			}
			for i, g := range s.goals {
				ok := n.Prove(g, s.ins)
				if only != "" {
					println(p.InstrPos(s.ins), n.Show(g), ok, n.work)
				}
				if !ok {
					fail = s.what[i] + " not shown: " + n.Show(g)
					break
				}
				r.Count("inequalities shown", 1)
			}
			if fail == "" {
				continue
			}
			if k := helper(fn, s.kind, 0); k != "" {
				r.Count("sites undecided (listed functions)", 1)
				open[k] = append(open[k], failed{fn, s, fail})
				continue
			}
			fails = append(fails, failed{fn, s, fail})
		}
	}
	for k, l := range open {
		if len(l) > undecidedC01[k].sites {
			for i := range l {
				l[i].why += " (one of " + itoa(len(l)) + " such sites in a function with " + itoa(undecidedC01[k].sites) + " that cannot be decided)"
			}
			fails = append(fails, l...)
		}
	}
	for _, f := range fails {
		r.Violate(f.s.kind, p.FuncName(f.fn)+"|"+f.s.ins.String(), p.InstrPos(f.s.ins), "%s: %s", p.FuncName(f.fn), f.why)
	}
	sort.Slice(r.Violations, func(i, j int) bool { return r.Violations[i].Where < r.Violations[j].Where })
	return r
}

var _ = types.Identical
