package main

// C07: encryption never falls back to plaintext, ciphertext is never passed off as decrypted.

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C07"] = checkC07 }

type c07 struct {
	p     *Program
	r     *Result
	level map[*ssa.Function]int // 1: applies the cipher to one object's data, 2: hands data on to such a function, 3: helper holding the cipher call
	preds map[predKey]int
	data  map[*ssa.Function]*ssa.Parameter
}

type predKey struct {
	fn  *ssa.Function
	val bool
}

// What a path has established.
const (
	mNil      = 1 << iota // the document is not encrypted
	mXRef                 // the dictionary is that of a cross-reference stream
	mMeta                 // the dictionary is that of metadata
	mNoMeta               // metadata is stored in plaintext in this document
	mNoStream             // there is no stream in the content
	mEmpty                // there is no data
	mPred                 // a predicate established one of the above
	mDone                 // the data has been encrypted or decrypted
	mPlain                // the object's structure is readable as it is
)

func excused(f int) bool {
	return f&(mNil|mXRef|mNoStream|mEmpty|mPred|mPlain) != 0 || f&(mMeta|mNoMeta) == mMeta|mNoMeta
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// cipherOp: the call applies a block or stream cipher; dst and src are its buffers.
func cipherOp(c ssa.CallInstruction) (dst, src ssa.Value, ok bool) {
	com := c.Common()
	name := ""
	args := com.Args
	if com.IsInvoke() {
		name = com.Method.Name()
		if pk := com.Method.Pkg(); pk == nil || !strings.HasPrefix(pk.Path(), "crypto/") {
			return nil, nil, false
		}
	} else if t := com.StaticCallee(); t != nil && t.Signature.Recv() != nil && t.Pkg != nil && strings.HasPrefix(t.Pkg.Pkg.Path(), "crypto/") {
		name = t.Name()
		args = args[1:]
	} else {
		return nil, nil, false
	}
	switch name {
	case "CryptBlocks", "XORKeyStream", "Encrypt", "Decrypt":
		if len(args) >= 2 {
			return args[0], args[1], true
		}
	case "Seal", "Open":
		if len(args) == 4 {
			return c.Value(), args[2], true
		}
	}
	return nil, nil, false
}

// hasEncryption: the function can reach the document's encryption settings.
func hasEncryption(fn *ssa.Function) bool {
	for _, pr := range fn.Params {
		if isEncInfo(pr.Type()) {
			return true
		}
		t := pr.Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if isEncInfo(st.Field(i).Type()) {
					return true
				}
			}
		}
	}
	for _, fv := range fn.FreeVars {
		if isEncInfo(fv.Type()) {
			return true
		}
		if pt, ok := fv.Type().Underlying().(*types.Pointer); ok && isEncInfo(pt.Elem()) {
			return true
		}
	}
	return false
}

// shape: data, object number and generation in, data and error out.
func objectCryptShape(fn *ssa.Function) bool {
	data, nums := false, 0
	for _, pr := range fn.Params {
		switch {
		case isByteSlice(pr.Type()):
			data = true
		case isIntType(pr.Type()):
			nums++
		}
	}
	res := fn.Signature.Results()
	out := false
	for i := 0; i < res.Len(); i++ {
		if isByteSlice(res.At(i).Type()) {
			out = true
		}
	}
	return data && nums >= 2 && out && errIndex(fn.Signature) >= 0 && hasEncryption(fn)
}

// bytesParam is the parameter holding the data (not, say, the dictionary).
func (x *c07) bytesParam(fn *ssa.Function) *ssa.Parameter {
	if pr, ok := x.data[fn]; ok {
		return pr
	}
	var all []*ssa.Parameter
	for _, pr := range fn.Params {
		if isByteSlice(pr.Type()) {
			all = append(all, pr)
		}
	}
	if len(all) == 0 {
		return nil
	}
	x.data[fn] = all[0]
	if len(all) > 1 {
		eachCall(fn, func(c ssa.CallInstruction) {
			var raw ssa.Value
			if _, src, ok := cipherOp(c); ok {
				raw = src
			} else if x.crypts(c) {
				raw = x.rawOf(c)
			}
			if raw == nil {
				return
			}
			for _, pr := range all {
				if baseValue(raw) == pr {
					x.data[fn] = pr
				}
			}
		})
	}
	return x.data[fn]
}

func eachCall(fn *ssa.Function, f func(c ssa.CallInstruction)) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				f(c)
			}
		}
	}
}

// holdsCipher: the function, or a helper it calls, contains a cipher application.
func (x *c07) holdsCipher(fn *ssa.Function, d int) bool {
	if d > 3 || len(fn.Blocks) == 0 {
		return false
	}
	found := false
	eachCall(fn, func(c ssa.CallInstruction) {
		if found {
			return
		}
		if _, _, ok := cipherOp(c); ok {
			found = true
			return
		}
		for _, t := range x.p.Callees(c) {
			if x.p.inLib(t) && x.level[t] == 0 && !objectCryptShape(t) && x.holdsCipher(t, d+1) {
				found = true
			}
		}
	})
	return found
}

func (p *Program) inLib(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if p.libSet == nil {
			p.libSet = map[*ssa.Function]bool{}
			for _, l := range p.Lib {
				p.libSet[l] = true
			}
		}
		if p.libSet[f] {
			return true
		}
	}
	return false
}

// crypts: the call encrypts or decrypts data of an object.
func (x *c07) crypts(c ssa.CallInstruction) bool {
	ts := x.p.Callees(c)
	if len(ts) == 0 {
		return false
	}
	for _, t := range ts {
		if x.level[t] == 0 {
			return false
		}
	}
	return true
}

// rawOf is the value handed to the call as data.
func (x *c07) rawOf(c ssa.CallInstruction) ssa.Value {
	t := c.Common().StaticCallee()
	if t == nil {
		if ts := x.p.Callees(c); len(ts) > 0 {
			t = ts[0]
		}
	}
	if t == nil {
		return nil
	}
	args := c.Common().Args
	dp := x.bytesParam(t)
	for i, pr := range t.Params {
		if pr == dp && i < len(args) {
			return args[i]
		}
	}
	return nil
}

// patternOf: the constant text of a regular expression value.
func (p *Program) patternOf(v ssa.Value) (string, bool) {
	switch y := v.(type) {
	case *ssa.Call:
		switch calleeFullName(y) {
		case "regexp.MustCompile":
			return constString(y.Call.Args[0])
		}
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok && calleeFullName(c) == "regexp.Compile" {
			return constString(c.Call.Args[0])
		}
	case *ssa.UnOp:
		switch a := y.X.(type) {
		case *ssa.Global:
			init := a.Pkg.Func("init")
			pat, n := "", 0
			for _, b := range init.Blocks {
				for _, ins := range b.Instrs {
					if st, ok := ins.(*ssa.Store); ok && st.Addr == a {
						if s, ok := p.patternOf(st.Val); ok {
							pat = s
							n++
						}
					}
				}
			}
			return pat, n == 1
		case *ssa.Alloc:
			var one ssa.Value
			for _, ref := range *a.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
					if one != nil {
						return "", false
					}
					one = st.Val
				}
			}
			if one != nil {
				return p.patternOf(one)
			}
		}
	}
	return "", false
}

// constText resolves constant text, also as []byte conversion or package variable.
func (p *Program) constText(v ssa.Value) (string, bool) {
	if s, ok := constString(v); ok {
		return s, true
	}
	switch y := v.(type) {
	case *ssa.Convert:
		return p.constText(y.X)
	case *ssa.ChangeType:
		return p.constText(y.X)
	case *ssa.MakeInterface:
		return p.constText(y.X)
	case *ssa.Slice:
		return "", false
	case *ssa.UnOp:
		if g, ok := y.X.(*ssa.Global); ok && g.Pkg != nil {
			txt, n := "", 0
			for _, b := range g.Pkg.Func("init").Blocks {
				for _, ins := range b.Instrs {
					if st, ok := ins.(*ssa.Store); ok && st.Addr == g {
						if s, ok := p.constText(st.Val); ok {
							txt = s
						}
						n++
					}
				}
			}
			return txt, n == 1 && txt != ""
		}
	}
	return "", false
}

// Dictionaries of streams that are always encrypted, and ones of the exempt kinds.
var (
	ordinaryDicts = []string{"<<>>", "<</Length 5>>", "<</Type/ObjStm/N 2/First 8/Length 40>>", "<< /Type /ObjStm /N 2 >>", "<</Type /EmbeddedFile/Length 9>>",
		"<</Type/XObject/Subtype/Image/Width 1/Length 3>>", "<< /Type /XObject /Subtype /Form /Length 3 >>", "<</Filter/FlateDecode/Length 12>>", "<</Length 5/Metadata 7 0 R>>",
		"<< /Length 5 /XRefs 3 >>", "<</Type/Page/Contents 3 0 R>>", "<</Subtype/Type1C/Length 7>>", "<</Type/Pattern/Length 5>>"}
	xrefDict = "<</Type/XRef/Size 4/W[1 2 1]/Length 16>>"
	metaDict = "<</Type/Metadata/Subtype/XML/Length 40>>"
	streamed = []string{"<</Length 5>>\nstream\nhello\nendstream", "<</Length 5>>stream\nhello\nendstream", "<</Length 5>> stream\r\nhello\r\nendstream"}
)

// textTest: what does it mean that the text or pattern is found in a dictionary?
func textTest(match func(string) bool) (found, absent int) {
	all := true
	for _, s := range streamed {
		if !match(s) {
			all = false
		}
	}
	if all && !match("<</Length 5>>") {
		absent |= mNoStream
	}
	for _, d := range ordinaryDicts {
		if match(d) {
			return 0, absent
		}
	}
	switch {
	case match(xrefDict) && !match(metaDict):
		found |= mXRef
	case match(metaDict) && !match(xrefDict):
		found |= mMeta
	}
	return found, absent
}

func patternTest(pat string) (found, absent int) {
	re, err := regexp.Compile(pat)
	if err != nil {
		return 0, 0
	}
	return textTest(re.MatchString)
}

// search: the call looks for constant text or a constant pattern.
func (x *c07) search(c *ssa.Call) (found, absent int, ok bool) {
	n := calleeFullName(c)
	if strings.HasPrefix(n, "(*regexp.Regexp).") {
		pat, ok := x.p.patternOf(c.Call.Args[0])
		if !ok {
			return 0, 0, false
		}
		f, a := patternTest(pat)
		return f, a, true
	}
	switch n {
	case "regexp.MatchString", "regexp.Match":
		if pat, ok := constString(c.Call.Args[0]); ok {
			f, a := patternTest(pat)
			return f, a, true
		}
	case "bytes.Contains", "strings.Contains", "bytes.Index", "strings.Index", "bytes.LastIndex", "strings.LastIndex", "bytes.Cut", "strings.Cut", "bytes.Count", "strings.Count":
		if s, ok := x.p.constText(c.Call.Args[1]); ok {
			f, a := textTest(func(d string) bool { return strings.Contains(d, s) })
			return f, a, true
		}
	case "bytes.HasPrefix", "strings.HasPrefix":
		if s, ok := x.p.constText(c.Call.Args[1]); ok && strings.HasPrefix(s, "<<") {
			return mPlain, 0, true
		}
	case "bytes.Equal", "strings.EqualFold":
		for _, a := range c.Call.Args {
			if s, ok := x.p.constText(a); ok {
				return nameMark(s), 0, true
			}
		}
	}
	return 0, 0, false
}

func nameMark(s string) int {
	switch strings.TrimPrefix(strings.TrimSpace(s), "/") {
	case "XRef":
		return mXRef
	case "Metadata":
		return mMeta
	case "<<":
		return mPlain
	}
	return 0
}

// condMarks: what follows from v having this truth value.
func (x *c07) condMarks(s *PState, v ssa.Value, val bool, d int) int {
	if d > 6 {
		return 0
	}
	v = s.Resolve(v)
	switch y := v.(type) {
	case *ssa.UnOp:
		if y.Op == token.NOT {
			return x.condMarks(s, y.X, !val, d+1)
		}
		if encField(y) == "EncryptMetadata" && !val {
			return mNoMeta
		}
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok && isBoolType(y.Type()) {
			if f, a, ok := x.search(c); ok {
				if val {
					return f
				}
				return a
			}
		}
	case *ssa.Call:
		if f, a, ok := x.search(y); ok {
			if val {
				return f
			}
			return a
		}
		if t := y.Call.StaticCallee(); t != nil && x.p.inLib(t) && len(t.Blocks) > 0 && t.Signature.Results().Len() == 1 {
			return x.predicate(t, val)
		}
	case *ssa.BinOp:
		a, b := resolveTested(s, y.X), resolveTested(s, y.Y)
		op := y.Op
		if _, ok := a.(*ssa.Const); ok {
			a, b = b, a
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		k, ok := b.(*ssa.Const)
		if !ok {
			// dictionary entries compared through interfaces
			if mi, ok := b.(*ssa.MakeInterface); ok {
				if s, ok := constString(mi.X); ok && (op == token.EQL) == val {
					return nameMark(s)
				}
			}
			if mi, ok := a.(*ssa.MakeInterface); ok {
				if s, ok := constString(mi.X); ok && (op == token.EQL) == val {
					return nameMark(s)
				}
			}
			return 0
		}
		eq := op == token.EQL
		if !val {
			eq = !eq
		}
		if k.Value == nil {
			if op != token.EQL && op != token.NEQ {
				return 0
			}
			if isEncInfo(a.Type()) {
				if eq {
					return mNil
				}
				return 0
			}
			if c, ok := a.(*ssa.Call); ok {
				if f, ab, ok := x.search(c); ok {
					if eq {
						return ab
					}
					return f
				}
			}
			return 0
		}
		switch k.Value.Kind() {
		case constant.String:
			if (op == token.EQL || op == token.NEQ) && eq {
				return nameMark(constant.StringVal(k.Value))
			}
		case constant.Bool:
			if op == token.EQL || op == token.NEQ {
				return x.condMarks(s, a, constant.BoolVal(k.Value) == eq, d+1)
			}
		case constant.Int:
			n, _ := constant.Int64Val(k.Value)
			holds := func(i int64) bool {
				r := false
				switch op {
				case token.EQL:
					r = i == n
				case token.NEQ:
					r = i != n
				case token.LSS:
					r = i < n
				case token.LEQ:
					r = i <= n
				case token.GTR:
					r = i > n
				case token.GEQ:
					r = i >= n
				}
				return r == val
			}
			if c, ok := a.(*ssa.Call); ok {
				if calleeFullName(c) == "builtin.len" {
					if isByteSlice(c.Call.Args[0].Type()) && holds(0) && !holds(1) && !holds(1000) {
						return mEmpty
					}
					if f, ab, ok := x.searchOf(c.Call.Args[0], s); ok {
						if holds(0) && !holds(1) {
							return ab
						}
						if !holds(0) {
							return f
						}
					}
					return 0
				}
				if f, ab, ok := x.search(c); ok {
					count := strings.HasSuffix(calleeFullName(c), ".Count")
					switch {
					case count && holds(0) && !holds(1) || !count && holds(-1) && !holds(0) && !holds(5):
						return ab
					case count && !holds(0) || !count && !holds(-1):
						return f
					}
				}
			}
			// a byte compared with '<': the dictionary is readable as it is
			if n == '<' && (op == token.EQL || op == token.NEQ) && eq {
				return mPlain
			}
		}
	}
	return 0
}

// resolveTested resolves an operand of a test; that the test itself has just fixed its value does not count.
func resolveTested(s *PState, v ssa.Value) ssa.Value {
	r := s.Resolve(v)
	if _, ok := r.(*ssa.Const); !ok {
		return r
	}
	if _, ok := v.(*ssa.Const); ok {
		return v
	}
	if phi, ok := v.(*ssa.Phi); ok {
		if n, ok := s.copies[phi]; ok {
			if _, isConst := n.(*ssa.Const); !isConst {
				return n
			}
			return n
		}
	}
	return v
}

func (x *c07) searchOf(v ssa.Value, s *PState) (int, int, bool) {
	if c, ok := s.Resolve(v).(*ssa.Call); ok {
		return x.search(c)
	}
	return 0, 0, false
}

// predicate: what a call of a bool function returning val establishes.
func (x *c07) predicate(fn *ssa.Function, val bool) int {
	k := predKey{fn, val}
	if m, ok := x.preds[k]; ok {
		return m
	}
	x.preds[k] = 0
	if !isBoolType(fn.Signature.Results().At(0).Type()) {
		return 0
	}
	all, n := -1, 0
	done := Explore(fn, &PathClient{
		Edge: func(s *PState, from, to *ssa.BasicBlock, cond ssa.Value, v bool) bool {
			s.Flag |= x.condMarks(s, cond, v, 0)
			return true
		},
		Return: func(s *PState, ret *ssa.Return) {
			t := s.Truth(ret.Results[0])
			if t == 1 && !val || t == -1 && val {
				return
			}
			f := s.Flag
			if t == 0 {
				f |= x.condMarks(s, ret.Results[0], val, 0)
			}
			if excused(f) {
				f |= mPred
			}
			n++
			all &= f
		},
		Limit: 5000,
	})
	if !done || n == 0 {
		return 0
	}
	x.preds[k] = all
	return all
}

// levels finds the functions that encrypt or decrypt data of an object.
func (x *c07) levels() {
	p := x.p
	for _, fn := range p.Lib {
		if objectCryptShape(fn) && x.holdsCipher(fn, 0) {
			x.level[fn] = 1
		}
	}
	// helpers of these that hold the cipher call
	for _, fn := range p.Lib {
		if x.level[fn] == 1 {
			eachCall(fn, func(c ssa.CallInstruction) {
				for _, t := range p.Callees(c) {
					if p.inLib(t) && x.level[t] == 0 && !objectCryptShape(t) && x.holdsCipher(t, 1) {
						x.level[t] = 3
					}
				}
			})
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.Lib {
			if x.level[fn] != 0 || !objectCryptShape(fn) {
				continue
			}
			eachCall(fn, func(c ssa.CallInstruction) {
				if x.level[fn] == 0 && x.crypts(c) && !x.isHelper(c) {
					x.level[fn] = 2
					changed = true
				}
			})
		}
	}
}

func checkC07(p *Program, tier string) *Result {
	r := &Result{Explanation: "Functions that apply a cipher to the data of one object, and those that hand data on to them, are found by their shape and content. Every path through them must end in an error, in data that went through the cipher, or be a path on which the document is shown not to be encrypted or the stream to be of an exempt kind (cross-reference stream, metadata stored in plaintext; constant patterns are tried on sample dictionaries). After a failure of such a call every path reports an error unless another attempt on the same data succeeded. The undecrypted or unencrypted data is never written, returned or stored on a path that is not excused. Every place that emits a stream keyword is reached through encryption or emits an exempt stream. Encryption settings are not discarded."}
	p.neverFails()
	x := &c07{p: p, r: r, level: map[*ssa.Function]int{}, preds: map[predKey]int{}, data: map[*ssa.Function]*ssa.Parameter{}}
	x.levels()
	for _, fn := range p.Lib {
		switch x.level[fn] {
		case 1:
			r.Count("functions applying a cipher to object data", 1)
			x.judgeCipher(fn)
		case 2:
			r.Count("functions handing data on", 1)
		case 3:
			r.Count("cipher helpers", 1)
			x.judgeCipher(fn)
		}
	}
	for _, fn := range p.Lib {
		if x.level[fn] == 1 || x.level[fn] == 3 {
			continue
		}
		var calls []*ssa.Call
		eachCall(fn, func(c ssa.CallInstruction) {
			if call, ok := c.(*ssa.Call); ok && x.crypts(c) && !x.isHelper(c) {
				calls = append(calls, call)
			}
		})
		if len(calls) > 0 {
			r.Count("functions using them", 1)
			for _, c := range calls {
				r.Count("calls", 1)
				x.judgeFailure(fn, c, calls)
			}
			x.judgePaths(fn, calls)
		}
		x.streamKeyword(fn, len(calls) > 0)
		x.settings(fn)
	}
	r.Floor("functions applying a cipher to object data", 2)
	r.Floor("calls", 8)
	r.Floor("stream keywords emitted", 3)
	r.Assumptions = append(r.Assumptions, "Strings outside streams are not encrypted by this library (documented limitation); the property is about streams and about objects it decrypts.")
	return r
}

func (x *c07) isHelper(c ssa.CallInstruction) bool {
	for _, t := range x.p.Callees(c) {
		if x.level[t] != 3 {
			return false
		}
	}
	return true
}

// judgeCipher: each success return of a function applying the cipher has applied it.
func (x *c07) judgeCipher(fn *ssa.Function) {
	p, r := x.p, x.r
	name := p.FuncName(fn)
	ei := errIndex(fn.Signature)
	ri := -1
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if isByteSlice(fn.Signature.Results().At(i).Type()) {
			ri = i
		}
	}
	if ri < 0 {
		return // works in place
	}
	dp := x.bytesParam(fn)
	type hit struct {
		ret *ssa.Return
		why string
	}
	var bad *hit
	judged := map[*ssa.Return]bool{}
	done := Explore(fn, &PathClient{
		Instr: func(s *PState, ins ssa.Instruction) bool {
			if c, ok := ins.(ssa.CallInstruction); ok {
				if _, _, ok := cipherOp(c); ok || x.crypts(c) {
					s.Flag |= mDone
				}
			}
			return true
		},
		Edge: func(s *PState, from, to *ssa.BasicBlock, cond ssa.Value, v bool) bool {
			s.Flag |= x.condMarks(s, cond, v, 0)
			return true
		},
		Return: func(s *PState, ret *ssa.Return) {
			if ei >= 0 {
				e := s.Resolve(ret.Results[ei])
				if s.Nil(e) == 1 {
					return
				}
				if s.Nil(e) == 0 && errSource(e) != nil && !neverFailsFn(errSource(e)) {
					if c, ok := errSource(e).(*ssa.Call); ok && x.crypts(c) {
						return
					}
				}
			}
			if excused(s.Flag &^ (mXRef | mMeta | mNoMeta | mNoStream | mPlain)) {
				return
			}
			v := s.Resolve(ret.Results[ri])
			if isNilConst(v) && ei < 0 {
				return
			}
			if s.Flag&mDone == 0 {
				bad = &hit{ret, "returns data to which no cipher was applied, without an error"}
				return
			}
			if !judged[ret] {
				judged[ret] = true
				if x.plainInside(fn, v, dp) {
					bad = &hit{ret, "returns data that does not come out of the cipher"}
				}
			}
		},
	})
	if !done {
		r.Violate("undecided", name, p.Pos(fn.Pos()), "%s: too many paths to decide", name)
	}
	if bad != nil {
		r.Violate("not-encrypted", name, p.InstrPos(bad.ret), "%s %s", name, bad.why)
	}
}

// plainInside: the returned value contains the function's data by another way than through the cipher.
func (x *c07) plainInside(fn *ssa.Function, v ssa.Value, dp *ssa.Parameter) bool {
	if dp == nil {
		return false
	}
	out := map[ssa.Value]bool{}
	eachCall(fn, func(c ssa.CallInstruction) {
		if dst, _, ok := cipherOp(c); ok {
			out[baseValue(dst)] = true
		}
		if x.crypts(c) {
			if cv, ok := c.(*ssa.Call); ok {
				out[cv] = true
				for _, ref := range *cv.Referrers() {
					if ex, ok := ref.(*ssa.Extract); ok {
						out[ex] = true
					}
				}
			}
			for _, a := range c.Common().Args {
				if isByteSlice(a.Type()) {
					out[baseValue(a)] = true
				}
			}
		}
	})
	delete(out, dp)
	bad, from := false, false
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		v = baseValue(v)
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if out[v] {
			from = true
			return
		}
		if v == dp {
			bad = true
			return
		}
		switch y := v.(type) {
		case *ssa.Phi:
			for _, e := range y.Edges {
				walk(e)
			}
		case *ssa.Call:
			for _, a := range y.Call.Args {
				if isByteSlice(a.Type()) {
					walk(a)
				}
			}
		case *ssa.Extract:
			walk(y.Tuple)
		case *ssa.MakeSlice, *ssa.Alloc:
			// what is copied into it
			for d := range derivedOf(v) {
				if refs := d.Referrers(); refs != nil {
					for _, ref := range *refs {
						if c, ok := ref.(*ssa.Call); ok && calleeFullName(c) == "builtin.copy" && c.Call.Args[0] == d {
							walk(c.Call.Args[1])
						}
						if st, ok := ref.(*ssa.Store); ok && st.Addr == d {
							walk(st.Val)
						}
					}
				}
			}
		}
	}
	walk(v)
	return bad || !from
}

// judgeFailure: a failure of the call is reported unless another attempt succeeds.
func (x *c07) judgeFailure(fn *ssa.Function, c *ssa.Call, calls []*ssa.Call) {
	p, r := x.p, x.r
	how := failHow{idx: errIndex(c.Call.Signature())}
	key := p.FuncName(fn) + "|" + calleeFullName(c)
	if failValue(c, how) == nil {
		r.Violate("failure-ignored", key, p.InstrPos(c), "%s ignores whether %s succeeded", p.FuncName(fn), calleeFullName(c))
		return
	}
	raw := x.rawOf(c)
	same := func(v ssa.Value) bool {
		a, b := baseValue(v), baseValue(raw)
		return a == b || sameField(a, b)
	}
	q := &failQuery{fn: fn, call: c, how: how, root: nil}
	q.alternative = func(s *PState, c2 *ssa.Call) (failHow, bool) {
		for _, o := range calls {
			if o == c2 && same(x.rawOf(c2)) {
				return failHow{idx: errIndex(c2.Call.Signature())}, true
			}
		}
		return failHow{}, false
	}
	q.excuse = func(s *PState, cond ssa.Value, v bool) bool {
		return x.condMarks(s, cond, v, 0)&mNil != 0
	}
	q.again = baseInvariant(raw)
	o := afterFailure(q)
	if !o.done {
		r.Violate("undecided", key, p.InstrPos(c), "%s: too many paths to decide", p.FuncName(fn))
		return
	}
	ret := o.swallowed
	if ret == nil {
		ret = o.noResult
	}
	if ret != nil {
		r.Violate("failure-unreported", key, p.InstrPos(ret), "%s returns here as if nothing had happened although %s (at %s) failed", p.FuncName(fn), calleeFullName(c), p.InstrPos(c))
	}
}

func sameField(a, b ssa.Value) bool {
	f1, ok1 := loadedField(a)
	f2, ok2 := loadedField(b)
	return ok1 && ok2 && f1 == f2
}

func loadedField(v ssa.Value) (string, bool) {
	switch y := v.(type) {
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok && y.Op == token.MUL {
			return fieldKeyOf(fa.X.Type(), fa.Field), true
		}
	case *ssa.Field:
		return fieldKeyOf(y.X.Type(), y.Field), true
	}
	return "", false
}

// judgePaths: on every path the data has gone through the cipher or is excused.
func (x *c07) judgePaths(fn *ssa.Function, calls []*ssa.Call) {
	p, r := x.p, x.r
	name := p.FuncName(fn)
	ei := errIndex(fn.Signature)
	ri := -1
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if isByteSlice(fn.Signature.Results().At(i).Type()) {
			ri = i
		}
	}
	isCall := map[ssa.Value]*ssa.Call{}
	failing := map[ssa.Value]*ssa.Call{}
	fields := map[string]bool{}
	raws := map[ssa.Value]bool{}
	inLoop := false
	for _, c := range calls {
		isCall[c] = c
		if v := failValue(c, failHow{idx: errIndex(c.Call.Signature())}); v != nil {
			failing[v] = c
		}
		if cyclic(c.Block()) {
			inLoop = true
		}
		raw := x.rawOf(c)
		if raw == nil {
			continue
		}
		if f, ok := loadedField(raw); ok {
			fields[f] = true
			for _, f := range dataFields(raw) {
				fields[f] = true
			}
		} else if _, ok := raw.(*ssa.Parameter); !ok {
			raws[raw] = true
		}
	}
	var badRet *ssa.Return
	var badUse ssa.Instruction
	emits := func(s *PState, v ssa.Value) bool {
		v = s.Resolve(v)
		if raws[v] {
			return true
		}
		f, ok := loadedField(v)
		return ok && fields[f]
	}
	done := Explore(fn, &PathClient{
		Instr: func(s *PState, ins ssa.Instruction) bool {
			if c, ok := ins.(*ssa.Call); ok && isCall[c] != nil {
				s.mark(c)
			}
			if excused(s.Flag) {
				return true
			}
			// an attempt that succeeded makes the rest of the path a matter of the result
			for _, v := range x.emitted(ins) {
				if emits(s, v) && s.Flag&mDone == 0 {
					badUse = ins
					return false
				}
			}
			return true
		},
		Edge: func(s *PState, from, to *ssa.BasicBlock, cond ssa.Value, v bool) bool {
			if to.Dominates(from) {
				for _, c := range calls {
					if to.Dominates(c.Block()) {
						s.Flag = s.Flag & mNil // the next object
						s.Key = ""
					}
				}
			}
			if cond != nil {
				s.Flag |= x.condMarks(s, cond, v, 0)
			}
			for fv, c := range failing {
				if s.executed(c) && s.Nil(fv) == -1 {
					s.Flag |= mDone
				}
			}
			return true
		},
		Return: func(s *PState, ret *ssa.Return) {
			if ei < 0 || ri < 0 || inLoop {
				return
			}
			e := s.Resolve(ret.Results[ei])
			if s.Nil(e) == 1 || excused(s.Flag) || s.Flag&mDone != 0 {
				return
			}
			if c := failing[e]; c != nil {
				return
			}
			if isNilConst(s.Resolve(ret.Results[ri])) {
				return
			}
			if s.Nil(e) == 0 {
				if c, ok := errSource(e).(*ssa.Call); ok && x.viaEncryption(c) {
					return
				}
			}
			badRet = ret
		},
	})
	if !done {
		r.Violate("undecided", name, p.Pos(fn.Pos()), "%s: too many paths to decide", name)
	}
	if badRet != nil {
		r.Violate("path-without-cipher", name, p.InstrPos(badRet), "%s can return data here that was neither encrypted or decrypted nor shown to be exempt", name)
	}
	if badUse != nil {
		r.Violate("raw-data-used", name, p.InstrPos(badUse), "%s emits the data of an object here on a path on which it was neither encrypted or decrypted nor shown to be exempt", name)
	}
}

// viaEncryption: the call is given the encryption settings, so its result is its own matter.
func (x *c07) viaEncryption(c *ssa.Call) bool {
	for _, a := range c.Call.Args {
		if isEncInfo(a.Type()) {
			return true
		}
	}
	return false
}

func cyclic(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// emitted: data the instruction writes, keeps or returns.
func (x *c07) emitted(ins ssa.Instruction) []ssa.Value {
	switch y := ins.(type) {
	case *ssa.Store:
		if !isByteSlice(y.Val.Type()) {
			return nil
		}
		if _, ok := y.Addr.(*ssa.Alloc); ok {
			return nil
		}
		return []ssa.Value{y.Val}
	case *ssa.MapUpdate:
		return []ssa.Value{y.Value}
	case *ssa.Return:
		var out []ssa.Value
		for _, v := range y.Results {
			if isByteSlice(v.Type()) {
				out = append(out, v)
			}
		}
		return out
	case *ssa.Call:
		n := calleeFullName(y)
		switch {
		case n == "builtin.append", n == "builtin.copy":
			return y.Call.Args[1:]
		case n == "bytes.NewReader", n == "bytes.NewBuffer":
			return y.Call.Args[:1]
		case y.Call.IsInvoke() && strings.HasPrefix(y.Call.Method.Name(), "Write"):
			return y.Call.Args
		case strings.Contains(n, ").Write"):
			if len(y.Call.Args) > 1 && isByteSlice(y.Call.Args[1].Type()) || strings.Contains(n, "WriteString") {
				return y.Call.Args[1:]
			}
		}
	}
	return nil
}

// emitsParam: the function writes data as it was handed in; whoever calls it has to encrypt it.
func (x *c07) emitsParam(fn *ssa.Function) bool {
	found := false
	eachCall(fn, func(c ssa.CallInstruction) {
		if ins, ok := c.(ssa.Instruction); ok {
			for _, v := range x.emitted(ins) {
				if pa, ok := v.(*ssa.Parameter); ok && isByteSlice(pa.Type()) {
					found = true
				}
			}
		}
	})
	return found
}

// streamKeyword: whoever emits a stream keyword encrypts what follows.
func (x *c07) streamKeyword(fn *ssa.Function, crypts bool) {
	p, r := x.p, x.r
	var at ssa.Instruction
	xref := false
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if *op == nil {
					continue
				}
				s, ok := constString(*op)
				if !ok {
					continue
				}
				if strings.Contains(s, "/XRef") {
					xref = true
				}
				if strings.HasSuffix(s, "stream\n") && !strings.Contains(s, "endstream") || strings.HasSuffix(s, "stream\r\n") && !strings.Contains(s, "endstream") || strings.Contains(strings.ReplaceAll(s, "endstream", ""), "stream\n%") {
					if emitsConst(ins) {
						at = ins
					}
				}
			}
		}
	}
	if at == nil {
		return
	}
	r.Count("stream keywords emitted", 1)
	if crypts || xref {
		return
	}
	// the result goes to a caller that encrypts, or into the object table that is encrypted when written
	var ok func(fn *ssa.Function, d int) bool
	ok = func(fn *ssa.Function, d int) bool {
		cs := p.callers[fn]
		if d > 4 || len(cs) == 0 || exportedAPI(fn) && !(d == 0 && x.emitsParam(fn)) || p.addrUsed[fn] {
			return false
		}
		for _, c := range cs {
			caller := c.Parent()
			found := false
			eachCall(caller, func(c2 ssa.CallInstruction) {
				if x.crypts(c2) {
					found = true
				}
				if t := c2.Common().StaticCallee(); t != nil && t.Signature.Recv() != nil && (t.Name() == "SetObject" || t.Name() == "AddObject") {
					found = true
				}
			})
			if !found && x.level[caller] == 0 && !ok(caller, d+1) {
				return false
			}
		}
		return true
	}
	if ok(fn, 0) {
		return
	}
	r.Violate("stream-not-encrypted", p.FuncName(fn), p.InstrPos(at), "%s emits a stream without encrypting it", p.FuncName(fn))
}

// emitsConst: the instruction outputs the constant (it is not searched for).
func emitsConst(ins ssa.Instruction) bool {
	switch y := ins.(type) {
	case *ssa.Convert:
		for _, ref := range *y.Referrers() {
			if emitsConst(ref) {
				return true
			}
		}
	case *ssa.Slice, *ssa.ChangeType:
		for _, ref := range *ins.(ssa.Value).Referrers() {
			if emitsConst(ref) {
				return true
			}
		}
	case *ssa.BinOp:
		return y.Op == token.ADD
	case *ssa.Call:
		n := calleeFullName(y)
		return n == "builtin.append" || n == "builtin.copy" || strings.Contains(n, ").Write") || strings.HasPrefix(n, "fmt.Sprint") || strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "fmt.Append") || y.Call.IsInvoke() && strings.HasPrefix(y.Call.Method.Name(), "Write") || n == "io.WriteString"
	}
	return false
}

// settings: encryption settings of a document are not thrown away.
func (x *c07) settings(fn *ssa.Function) {
	p, r := x.p, x.r
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok || !isEncInfo(st.Val.Type()) || !isNilConst(st.Val) {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			r.Count("settings cleared", 1)
			if al, ok := fa.X.(*ssa.Alloc); ok && al.Parent() == fn && !copiedInto(al) {
				continue // a fresh value
			}
			r.Violate("settings-discarded", p.FuncName(fn), p.InstrPos(st), "%s discards the document's encryption settings", p.FuncName(fn))
		}
	}
}

func copiedInto(al *ssa.Alloc) bool {
	for _, ref := range *al.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
			return true
		}
	}
	return false
}

// baseInvariant: every run of the call in its loop works on (parts of) the same data.
func baseInvariant(raw ssa.Value) bool {
	switch baseValue(raw).(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	}
	return false
}

// dataFields: the fields holding data in the struct the value was loaded from.
func dataFields(v ssa.Value) []string {
	var t types.Type
	switch y := v.(type) {
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok {
			t = fa.X.Type()
		}
	case *ssa.Field:
		t = y.X.Type()
	}
	if t == nil {
		return nil
	}
	u := t
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		u = pt.Elem()
	}
	st, ok := u.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		if isByteSlice(st.Field(i).Type()) {
			out = append(out, fieldKeyOf(t, i))
		}
	}
	return out
}
