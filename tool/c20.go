package main

// C20: a nil error means a usable result, and the result of a failed call is not used.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C20"] = checkC20 }

// toleratedFailures are the reading steps whose failure may be passed over: a damaged part of a document is left
// out or looked for in another way. All other failing steps make the operation built on them fail.
var toleratedFailures = map[string]bool{
	"(core/parse.PDF).GetObject":                                      true,
	"core/parse.GetObject":                                            true,
	"core/parse.ParseXRefStreamFull":                                  true,
	"core/parse.ParseTraditionalXRefTable":                            true,
	"core/parse.ParseTrailerDataRaw":                                  true,
	"core/parse.ParseRawObject":                                       true,
	"core/parse.ParsePDFHeader":                                       true,
	"core/parse.parseRevision":                                        true,
	"core/parse.DecodeFlateDecode":                                    true,
	"core/parse.DecodeStream":                                         true, // judged by C08 and C17
	"core/parse.DecodeImageStream":                                    true, // judged by C08 and C17
	"(core/parse.incrementalParser).parse":                            true,
	"(core/parse.incrementalParser).parsexrefSection":                 true,
	"(core/parse.incrementalParser).findPrevOffset":                   true,
	"core/encrypt.DecryptObject":                                      true, // judged by C07 and C14
	"core/encrypt.ParseEncryptionDictionary":                          true, // judged by C07 and C14
	"content/extract.parseObjectRef":                                  true,
	"content/extract.extractBookmarksRecursive":                       true,
	"content/extract.extractPagesFromTree":                            true,
	"content/extract.extractPage":                                     true,
	"content/extract.extractImageData":                                true,
	"content/extract.ExtractMetadata":                                 true,
	"content/extract.ExtractBookmarks":                                true,
	"content/extract.ExtractAllImages":                                true,
	"core/manipulate.parseObjectRef":                                  true,
	"(core/manipulate.PDFManipulator).currentObject":                  true,
	"(core/manipulate.PDFManipulator).findParentPagesObjectRecursive": true,
	"core/write.findXFAStreamMap":                                     true,
	"forms/acroform.ExtractAcroForm":                                  true,
	"forms/acroform.parseField":                                       true,
	"forms/xfa.readObjectHeader":                                      true,
	"forms/xfa.findObjectHeaderByRegex":                               true,
	"forms/xfa.parseDictionaryFromStream":                             true,
	"forms/xfa.readNameObject":                                        true,
	"forms/xfa.parseFloat":                                            true,
	"forms/xfa.extractXFARules":                                       true,
	"forms/xfa.extractStreamFromPDF":                                  true,
	"forms/xfa.encodeRuleAsEvent":                                     true,
	"forms/xfa.convertXFAEventToRule":                                 true,
	"(forms/xfa.PDFStream).Seek":                                      true,
	"(forms/xfa.PDFStream).Read":                                      true,
	"(forms/xfa.PDFStream).ReadByte":                                  true,
}

// libName is the name of a library function without the module path and without the star of a pointer receiver.
func (p *Program) libName(f *ssa.Function) string {
	return strings.ReplaceAll(p.FuncName(f), "*", "")
}

type c20 struct {
	p       *Program
	r       *Result
	protect map[*ssa.Function]int // 1 yes, -1 no, 2 in progress
}

func checkC20(p *Program, tier string) *Result {
	r := &Result{
		Explanation: "Path exploration after every failing call of a library function: no path returns a nil error after the failure unless the callee is one of the listed reading steps (looked through by helpers that only forward such failures), and no result of the failed call is used on such a path; plus, for every exported function with an error and a pointer-like result, no path returns a nil error together with a nil result.",
	}
	c := &c20{p: p, r: r, protect: map[*ssa.Function]int{}}
	for _, f := range p.Lib {
		if len(f.Blocks) == 0 {
			continue
		}
		c.function(f)
		if exportedAPI(f) {
			c.nilResult(f)
		}
	}
	return r
}

func (c *c20) function(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			call, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			i := errIndex(call.Call.Signature())
			if i < 0 {
				continue
			}
			name, prot, lib := c.target(call)
			if !lib {
				continue
			}
			c.r.Count("failing_calls", 1)
			h := failHow{idx: i}
			out := afterFailure(&failQuery{fn: f, call: call, how: h, forbidden: c.usesResult(call, i)})
			key := c.p.FuncName(f) + " <- " + name
			switch {
			case out.used != nil:
				c.r.Violate("used-after-failure", key, c.p.InstrPos(out.used),
					"a result of %s (called at %s) is used on a path on which that call has failed", name, c.p.InstrPos(call))
			case out.swallowed != nil && prot && errIndex(f.Signature) >= 0:
				c.r.Violate("failure-dropped", key, c.p.InstrPos(call),
					"when %s fails, %s can still return success at %s", name, c.p.FuncName(f), c.p.InstrPos(out.swallowed))
			case !out.done:
				c.r.Count("unexplored", 1)
			}
		}
	}
}

// target: the library function called, and whether its failure must not be passed over.
func (c *c20) target(call *ssa.Call) (string, bool, bool) {
	name, prot, lib := "", false, false
	if n := calleeFullName(call); strings.HasPrefix(n, "(*encoding/xml.Encoder).") || strings.HasPrefix(n, "os.") {
		return n, true, true
	}
	for _, g := range c.p.Callees(call) {
		if g.Pkg == nil && g.Parent() == nil || len(g.Blocks) == 0 || !c.p.inLib(g) {
			continue
		}
		lib = true
		name = c.p.libName(g)
		if c.isProtected(g) {
			prot = true
		}
	}
	return name, prot, lib
}

// isProtected: exported operations outside the list are protected; an unexported helper is when it can forward the
// failure of one that is, or fail by itself.
func (c *c20) isProtected(g *ssa.Function) bool {
	if g.Origin() != nil {
		g = g.Origin()
	}
	switch c.protect[g] {
	case 1:
		return true
	case -1, 2:
		return false
	}
	if toleratedFailures[c.p.libName(g)] {
		c.protect[g] = -1
		return false
	}
	if exportedAPI(g) {
		c.protect[g] = 1
		return true
	}
	c.protect[g] = 2
	res := false
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			call, ok := ins.(*ssa.Call)
			if !ok || errIndex(call.Call.Signature()) < 0 {
				continue
			}
			if _, prot, _ := c.target(call); prot {
				res = true
			}
		}
	}
	if knownFallible[c.p.libName(g)] {
		res = true
	}
	if res {
		c.protect[g] = 1
	} else {
		c.protect[g] = -1
	}
	return res
}

// usesResult: an instruction that reads the other results of the failed call.
func (c *c20) usesResult(call *ssa.Call, errIdx int) func(s *PState, ins ssa.Instruction) bool {
	results := map[ssa.Value]bool{}
	for _, ref := range *call.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && ex.Index != errIdx {
			switch ex.Type().Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Interface, *types.Slice:
				results[ex] = true
			case *types.Basic:
				results[ex] = true
			case *types.Struct:
				results[ex] = true
			}
		}
	}
	if len(results) == 0 {
		return nil
	}
	omitted := c.omits(call, errIdx)
	return func(s *PState, ins ssa.Instruction) bool {
		if s.Flag != 1 {
			return false // the call has run again since
		}
		is := func(v ssa.Value) bool { return v != nil && results[s.Resolve(v)] }
		if omitted {
			// a part that could not be read stays absent
			switch ins.(type) {
			case *ssa.Lookup, *ssa.Range, *ssa.Store:
				return false
			}
		}
		switch x := ins.(type) {
		case *ssa.FieldAddr:
			return is(x.X)
		case *ssa.Field:
			return is(x.X)
		case *ssa.IndexAddr:
			return is(x.X)
		case *ssa.Index:
			return is(x.X)
		case *ssa.Lookup:
			return is(x.X)
		case *ssa.Range:
			return is(x.X)
		case *ssa.Slice:
			return is(x.X)
		case *ssa.UnOp:
			return x.Op == token.MUL && is(x.X)
		case *ssa.MapUpdate:
			return is(x.Map) || is(x.Value) || is(x.Key)
		case *ssa.Store:
			return is(x.Val)
		case *ssa.BinOp:
			if is(x.X) && !isNilConst(x.Y) || is(x.Y) && !isNilConst(x.X) {
				switch x.Op {
				case token.EQL, token.NEQ:
					return false
				}
				return true
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				return false
			}
			if x.Call.IsInvoke() && is(x.Call.Value) {
				return true
			}
			for _, a := range x.Call.Args {
				if is(a) {
					return true
				}
			}
		case *ssa.Return:
			ei := errIndex(x.Parent().Signature)
			if ei < 0 || s.Nil(s.Resolve(x.Results[ei])) != -1 {
				return false
			}
			for i, v := range x.Results {
				if i != ei && is(v) {
					return true
				}
			}
		}
		return false
	}
}

// omits: the callee is a reading step that may be passed over, and it returns nothing at all when it fails.
func (c *c20) omits(call *ssa.Call, errIdx int) bool {
	gs := c.p.Callees(call)
	for _, g := range gs {
		if !toleratedFailures[c.p.libName(g)] || !c.empty(g, errIdx, 0) {
			return false
		}
	}
	return len(gs) > 0
}

// empty: whenever g fails, its other results are nil or a map nothing was put into.
func (c *c20) empty(g *ssa.Function, errIdx, d int) bool {
	if len(g.Blocks) == 0 || d > 12 {
		return false
	}
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || isNilConst(ret.Results[errIdx]) {
			continue
		}
		for i, v := range ret.Results {
			if i == errIdx || isNilConst(v) {
				continue
			}
			switch x := v.(type) {
			case *ssa.MakeMap:
				for _, ref := range *x.Referrers() {
					switch y := ref.(type) {
					case *ssa.Return, *ssa.DebugRef, *ssa.Lookup:
					case *ssa.MapUpdate:
						if executedBefore(y, ret) {
							return false
						}
					default:
						return false
					}
				}
			case *ssa.Extract:
				e, ok := ret.Results[errIdx].(*ssa.Extract)
				call, ok2 := x.Tuple.(*ssa.Call)
				if !ok || !ok2 || e.Tuple != x.Tuple || call.Call.StaticCallee() == nil ||
					x.Index != i || !c.empty(call.Call.StaticCallee(), e.Index, d+1) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// executedBefore: a can be executed before b.
func executedBefore(a, b ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{a.Block()}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == b.Block() {
			return true
		}
		if !seen[x] {
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	return false
}

// nilResult: an exported function does not return a nil error with a nil first result.
func (c *c20) nilResult(f *ssa.Function) {
	ei := errIndex(f.Signature)
	if ei < 1 {
		return
	}
	switch f.Signature.Results().At(0).Type().Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map:
	default:
		return
	}
	c.r.Count("results_checked", 1)
	Explore(f, &PathClient{Return: func(s *PState, ret *ssa.Return) {
		e := s.Resolve(ret.Results[ei])
		for i, v := range ret.Results {
			if i != ei && s.Nil(s.Resolve(v)) != -1 {
				return
			}
		}
		if s.Nil(e) == -1 || s.Nil(e) == 0 && errSource(e) == nil {
			c.r.Violate("nil-success", c.p.FuncName(f), c.p.InstrPos(ret),
				"%s can return a nil %s together with a nil error", c.p.FuncName(f), f.Signature.Results().At(0).Type())
		}
	}})
}

// knownFallible are unexported helpers that fail for reasons of their own and whose failure must be passed on.
var knownFallible = map[string]bool{
	"(core/parse.PDF).parseBytePerfect":                          true,
	"(core/parse.incrementalParser).findLastStartXRef":           true,
	"(core/parse.incrementalParser).parseTraditionalxrefSection": true,
	"(core/write.PDFWriter).createObjectStreams":                 true,
	"(core/write.PDFWriter).encryptStream":                       true,
	"(core/write.PDFWriter).writeXRefStream":                     true,
	"(resources/font.TTF).parseHead":                             true,
	"(resources/font.TTF).parseHhea":                             true,
	"(resources/font.TTF).parseMaxp":                             true,
	"(resources/font.TTF).parseName":                             true,
	"(resources/font.TTF).parsePost":                             true,
	"core/parse.parseTraditionalXRefRaw":                         true,
	"core/write.computeOValueV5":                                 true,
	"core/write.computeUValueV5":                                 true,
	"core/write.deriveEncryptionKeyV5":                           true,
	"core/write.hexDecode":                                       true,
	"core/write.parseJPEGHeader":                                 true,
	"core/write.parseXFAArrayContent":                            true,
	"core/write.wrapKeyV5":                                       true,
	"forms.openEncryption":                                       true,
	"forms/acroform.parseObjectStream":                           true,
	"forms/acroform.rebuildStreamContent":                        true,
	"forms/acroform.updateFieldContent":                          true,
	"forms/acroform.validateButtonField":                         true,
	"forms/acroform.validateChoiceField":                         true,
	"forms/acroform.validateSignatureField":                      true,
	"forms/acroform.validateTextField":                           true,
	"forms/xfa.decodeStringValue":                                true,
	"forms/xfa.encodeCalendar":                                   true,
	"forms/xfa.encodeConfigAcrobat":                              true,
	"forms/xfa.encodeConfigCommon":                               true,
	"forms/xfa.encodeConfigDestination":                          true,
	"forms/xfa.encodeConfigInteractive":                          true,
	"forms/xfa.encodeConfigOutput":                               true,
	"forms/xfa.encodeConfigPDF":                                  true,
	"forms/xfa.encodeConfigSubmit":                               true,
	"forms/xfa.encodeConfigValidate":                             true,
	"forms/xfa.encodeCurrency":                                   true,
	"forms/xfa.encodeDataDescription":                            true,
	"forms/xfa.encodeDatePattern":                                true,
	"forms/xfa.encodeField":                                      true,
	"forms/xfa.encodeMargin":                                     true,
	"forms/xfa.encodeNumberPattern":                              true,
	"forms/xfa.encodePadding":                                    true,
	"forms/xfa.encodePosition":                                   true,
	"forms/xfa.encodeSize":                                       true,
	"forms/xfa.encodeStyleBorder":                                true,
	"forms/xfa.encodeStyleFont":                                  true,
	"forms/xfa.encodeText":                                       true,
	"forms/xfa.encodeTimePattern":                                true,
	"forms/xfa.encodeValidation":                                 true,
	"forms/xfa.extractStreamDataFromObject":                      true,
	"forms/xfa.findObjectBoundaries":                             true,
	"forms/xfa.findXFAArrayContent":                              true,
	"resources/font.parseCmapFormat12":                           true,
	"resources/font.parseCmapFormat4":                            true,
}
