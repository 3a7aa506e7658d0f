package main

// C08: failures of randomness, ciphers, compression and output are reported.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C08"] = checkC08 }

type c08 struct {
	p        *Program
	r        *Result
	carriers map[*ssa.Function]map[string]failHow
}

func byteReader(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Interface:
		for i := 0; i < u.NumMethods(); i++ {
			if u.Method(i).Name() == "Read" {
				return true
			}
		}
	}
	return false
}

func isBytesOrString(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return false
	}
	return byteReader(t)
}

// memorySink: does every origin of this writer end in a buffer in memory?
func (x *c08) memorySink(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return true
	}
	seen[v] = true
	t := v.Type().String()
	if strings.HasSuffix(t, "*bytes.Buffer") || strings.HasSuffix(t, "*strings.Builder") || strings.Contains(t, "hash.Hash") {
		return true
	}
	switch y := v.(type) {
	case *ssa.MakeInterface:
		return x.memorySink(y.X, seen)
	case *ssa.ChangeInterface:
		return x.memorySink(y.X, seen)
	case *ssa.ChangeType:
		return x.memorySink(y.X, seen)
	case *ssa.TypeAssert:
		return x.memorySink(y.X, seen)
	case *ssa.Phi:
		for _, e := range y.Edges {
			if !isNilConst(e) && !x.memorySink(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok {
			return x.memorySinkCall(c, y.Index, seen)
		}
	case *ssa.Call:
		return x.memorySinkCall(y, 0, seen)
	case *ssa.UnOp:
		if al, ok := y.X.(*ssa.Alloc); ok && y.Op == token.MUL {
			n := 0
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al {
					n++
					if !x.memorySink(st.Val, seen) {
						return false
					}
				}
			}
			return n > 0
		}
		if fv, ok := y.X.(*ssa.FreeVar); ok {
			return x.memorySink(fv, seen)
		}
	case *ssa.FreeVar:
		fn := y.Parent()
		n := 0
		for _, mc := range x.p.Flow().mkClosures[fn] {
			for i, f := range fn.FreeVars {
				if f == y {
					n++
					b := mc.Bindings[i]
					if al, ok := b.(*ssa.Alloc); ok && !strings.HasPrefix(al.Type().String(), "*bytes.Buffer") {
						for _, r := range *al.Referrers() {
							if st, ok := r.(*ssa.Store); ok && st.Addr == al && !x.memorySink(st.Val, seen) {
								return false
							}
						}
						continue
					}
					if !x.memorySink(b, seen) {
						return false
					}
				}
			}
		}
		return n > 0
	case *ssa.Parameter:
		fn := y.Parent()
		if exportedAPI(fn) || x.p.addrUsed[fn] || len(x.p.callers[fn]) == 0 {
			return false
		}
		for i, pr := range fn.Params {
			if pr != y {
				continue
			}
			for _, c := range x.p.callers[fn] {
				if c.Common().IsInvoke() || i >= len(c.Common().Args) {
					return false
				}
				if !x.memorySink(c.Common().Args[i], seen) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func (x *c08) memorySinkCall(c *ssa.Call, idx int, seen map[ssa.Value]bool) bool {
	switch calleeFullName(c) {
	case "compress/zlib.NewWriter", "compress/zlib.NewWriterLevel", "compress/zlib.NewWriterLevelDict", "compress/flate.NewWriter", "compress/flate.NewWriterDict",
		"compress/gzip.NewWriter", "compress/gzip.NewWriterLevel", "compress/lzw.NewWriter", "bufio.NewWriter", "bufio.NewWriterSize", "encoding/hex.NewEncoder", "encoding/hex.Dumper":
		return x.memorySink(c.Call.Args[0], seen)
	case "encoding/base64.NewEncoder":
		return x.memorySink(c.Call.Args[1], seen)
	case "io.MultiWriter":
		vs, ok := variadic(c.Call.Args[0])
		if !ok {
			return false
		}
		for _, v := range vs {
			if !x.memorySink(v, seen) {
				return false
			}
		}
		return true
	case "bytes.NewBuffer", "bytes.NewBufferString":
		return true
	}
	ts := x.p.Callees(c)
	if len(ts) == 0 {
		return false
	}
	for _, t := range ts {
		if len(t.Blocks) == 0 {
			return false
		}
		for _, b := range t.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
				if !isNilConst(ret.Results[idx]) && !x.memorySink(ret.Results[idx], seen) {
					return false
				}
			}
		}
	}
	return true
}

// primitive classifies calls of the standard library whose failure must be reported.
func (x *c08) primitive(c ssa.CallInstruction) string {
	com := c.Common()
	if errIndex(com.Signature()) < 0 {
		return ""
	}
	name := calleeFullName(c)
	for _, a := range com.Args {
		if isCryptoReader(a) {
			return "randomness"
		}
	}
	switch {
	case strings.HasPrefix(name, "crypto/rand."):
		return "randomness"
	case strings.HasPrefix(name, "crypto/") && !com.IsInvoke() && !strings.HasSuffix(name, ").Write"):
		return "cipher"
	case strings.Contains(name, "crypto/cipher.AEAD"):
		return "cipher"
	case strings.HasPrefix(name, "compress/") && strings.Contains(name, ".NewReader"):
		return "decode"
	case strings.HasPrefix(name, "compress/") && strings.Contains(name, ".NewWriter"):
		return "compress"
	case name == "os.ReadFile", name == "os.Open", name == "os.ReadDir", name == "os.Stat", name == "os.Lstat":
		return ""
	case strings.HasPrefix(name, "os."):
		return "output"
	case strings.HasPrefix(name, "(*os.File)."):
		switch com.StaticCallee().Name() {
		case "Write", "WriteString", "WriteAt", "Sync", "Truncate", "ReadFrom", "Chmod":
			return "output"
		case "Close":
			if x.opensForWriting(com.Args[0]) {
				return "output"
			}
		}
		return ""
	}
	method := ""
	var recv ssa.Value
	if com.IsInvoke() {
		method, recv = com.Method.Name(), com.Value
	} else if t := com.StaticCallee(); t != nil && t.Signature.Recv() != nil && len(com.Args) > 0 {
		if pk := fnPackage(t); pk != nil && strings.HasPrefix(pk.Pkg.Path(), x.p.Module) {
			return ""
		}
		method, recv = t.Name(), com.Args[0]
	}
	switch method {
	case "Write", "WriteString", "WriteByte", "WriteRune", "Flush", "WriteTo":
		if method == "WriteTo" {
			recv = com.Args[len(com.Args)-1]
		}
		if strings.Contains(recv.Type().String(), "csv") {
			return ""
		}
		if x.memorySink(recv, map[ssa.Value]bool{}) {
			return ""
		}
		return "output"
	case "Close":
		if !writerType(recv.Type()) {
			return "" // closing a source after it was read
		}
		if x.memorySink(recv, map[ssa.Value]bool{}) {
			return ""
		}
		return "output"
	case "ReadFrom":
		return "decode"
	case "Read":
		return "decode"
	case "Encode":
		if com.IsInvoke() {
			return ""
		}
	}
	switch name {
	case "io.ReadAll", "io.ReadFull", "io.ReadAtLeast", "io/ioutil.ReadAll":
		return "decode"
	case "io.Copy", "io.CopyN", "io.CopyBuffer":
		if x.memorySink(com.Args[0], map[ssa.Value]bool{}) {
			return "decode"
		}
		return "output"
	case "io.WriteString", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "encoding/binary.Write":
		if x.memorySink(com.Args[0], map[ssa.Value]bool{}) || stdStream(com.Args[0]) {
			return ""
		}
		return "output"
	case "image/png.Encode", "image/jpeg.Encode":
		return "compress"
	}
	return ""
}

func writerType(t types.Type) bool {
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, "Write") != nil
}

func (x *c08) opensForWriting(v ssa.Value) bool {
	if ex, ok := v.(*ssa.Extract); ok {
		if c, ok := ex.Tuple.(*ssa.Call); ok {
			return calleeFullName(c) != "os.Open"
		}
	}
	return true
}

// classes of a call: primitive or module function that passes such a failure on.
func (x *c08) classes(c ssa.CallInstruction) map[string]failHow {
	if k := x.primitive(c); k != "" {
		return map[string]failHow{k: {idx: errIndex(c.Common().Signature())}}
	}
	var out map[string]failHow
	for _, t := range x.p.Callees(c) {
		for k, h := range x.carriers[t] {
			if out == nil {
				out = map[string]failHow{}
			}
			out[k] = h
		}
	}
	return out
}

// input is the data a decoding call works on.
func (x *c08) input(c *ssa.Call) ssa.Value {
	for _, a := range c.Call.Args {
		if byteReader(a.Type()) {
			return x.dataOf(a, 0)
		}
	}
	return nil
}

func (x *c08) dataOf(v ssa.Value, d int) ssa.Value {
	v = baseValue(v)
	if d > 8 {
		return v
	}
	switch y := v.(type) {
	case *ssa.Call:
		switch calleeFullName(y) {
		case "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader", "bytes.NewBufferString", "bufio.NewReader", "compress/flate.NewReader", "compress/zlib.NewReader", "io.LimitReader", "io.TeeReader", "compress/lzw.NewReader", "compress/gzip.NewReader":
			return x.dataOf(y.Call.Args[0], d+1)
		}
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok && y.Index == 0 {
			switch calleeFullName(c) {
			case "compress/zlib.NewReader", "compress/gzip.NewReader":
				return x.dataOf(c.Call.Args[0], d+1)
			}
		}
	case *ssa.Phi:
		// a reader chosen from several: all on the same data?
		var one ssa.Value
		for _, e := range y.Edges {
			if isNilConst(e) {
				continue
			}
			b := x.dataOf(e, d+1)
			if one == nil {
				one = b
			} else if one != b {
				return v
			}
		}
		if one != nil {
			return one
		}
	}
	return v
}

// propagates: which failures travel further than the function that met them.
func (x *c08) propagates(fn *ssa.Function, class string, c *ssa.Call) bool {
	if class != "decode" && class != "cipher" {
		return true
	}
	// a decoder proper: it takes data and returns data
	res := fn.Signature.Results()
	bytesOut := false
	for i := 0; i < res.Len(); i++ {
		if isBytesOrString(res.At(i).Type()) {
			bytesOut = true
		}
	}
	if !bytesOut {
		return false
	}
	if class == "cipher" {
		return false
	}
	in := x.input(c)
	for _, pr := range fn.Params {
		if in == pr {
			return true
		}
	}
	return false
}

func checkC08(p *Program, tier string) *Result {
	r := &Result{Explanation: "Every call that draws randomness, constructs a cipher, compresses, decompresses, reads a decoder to its end or writes output is taken as failing, and all paths that follow are explored: each must end in an error result (or a false flag), unless another attempt on the same data succeeds. Functions that pass such a failure on are treated the same way in their callers. Where a best-effort walk leaves a damaged part out, neither its raw bytes nor its partial output may be used afterwards. A compressor must be closed before its buffer is read."}
	p.neverFails()
	x := &c08{p: p, r: r, carriers: map[*ssa.Function]map[string]failHow{}}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.Lib {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					c, ok := ins.(*ssa.Call)
					if !ok {
						continue
					}
					for class, h := range x.classes(c) {
						if _, ok := x.carriers[fn][class]; ok || !x.propagates(fn, class, c) {
							continue
						}
						how, ok := x.carrierHow(fn, c, class, h)
						if !ok {
							continue
						}
						if x.carriers[fn] == nil {
							x.carriers[fn] = map[string]failHow{}
						}
						x.carriers[fn][class] = how
						changed = true
					}
				}
			}
		}
	}
	for _, m := range x.carriers {
		r.Count("functions that pass such failures on", len(m))
	}
	for _, fn := range p.Lib {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch c := ins.(type) {
				case *ssa.Call:
					cs := x.classes(c)
					for _, class := range sortedKeys(cs) {
						x.judge(fn, c, class, cs[class])
					}
					x.finished(fn, c)
				case *ssa.Defer:
					if k := x.primitive(c); k == "output" || k == "compress" {
						r.Violate("deferred-unchecked", p.FuncName(fn)+"|"+calleeFullName(c), p.InstrPos(c), "%s defers %s, so its failure is not reported", p.FuncName(fn), calleeFullName(c))
					}
				}
			}
		}
	}
	r.Floor("randomness calls", 5)
	r.Floor("cipher calls", 8)
	r.Floor("decode calls", 10)
	r.Floor("output calls", 3)
	r.Floor("compressors", 4)
	r.Assumptions = append(r.Assumptions, "A compressor writing into a buffer in memory cannot fail.", "Best-effort content extraction (package content/extract) may leave a damaged stream out, but may not use it.")
	return r
}

func sortedKeys(m map[string]failHow) []string {
	var out []string
	for _, k := range []string{"cipher", "compress", "decode", "output", "randomness"} {
		if _, ok := m[k]; ok {
			out = append(out, k)
		}
	}
	return out
}

// carrierHow: how does fn report a failure of c?
func (x *c08) carrierHow(fn *ssa.Function, c *ssa.Call, class string, h failHow) (failHow, bool) {
	if ei := errIndex(fn.Signature); ei >= 0 {
		return failHow{idx: ei}, true
	}
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if !isBoolType(res.At(i).Type()) {
			continue
		}
		all, some := true, false
		for _, b := range fn.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if k, ok := ret.Results[i].(*ssa.Const); ok && k.Value != nil && k.Value.String() == "false" {
					some = true
				}
			}
		}
		q := x.query(fn, c, class, h)
		q.forbidden = nil
		o := afterFailure(q)
		all = o.done && o.noResult == nil && o.swallowed == nil && o.ok
		if all && some {
			return failHow{idx: i, bool: true}, true
		}
	}
	return failHow{}, false
}

func (x *c08) query(fn *ssa.Function, c *ssa.Call, class string, h failHow) *failQuery {
	q := &failQuery{fn: fn, call: c, how: h}
	if class != "decode" {
		return q
	}
	in := x.input(c)
	q.root = in
	q.alternative = func(s *PState, c2 *ssa.Call) (failHow, bool) {
		h2, ok := x.classes(c2)["decode"]
		if !ok || in == nil {
			return failHow{}, false
		}
		if x.input(c2) != in {
			return failHow{}, false
		}
		return h2, true
	}
	return q
}

func (x *c08) judge(fn *ssa.Function, c *ssa.Call, class string, h failHow) {
	p, r := x.p, x.r
	name := calleeFullName(c)
	key := p.FuncName(fn) + "|" + name
	r.Count(class+" calls", 1)
	q := x.query(fn, c, class, h)
	bestEffort := class == "decode" && fnPackage(fn) != nil && strings.HasSuffix(fnPackage(fn).Pkg.Path(), "content/extract")
	o := afterFailure(q)
	if !o.done {
		r.Violate("undecided", key, p.InstrPos(c), "%s: too many paths to decide", p.FuncName(fn))
		return
	}
	var ret *ssa.Return
	switch {
	case o.swallowed != nil:
		ret = o.swallowed
	case o.noResult != nil:
		ret = o.noResult
	default:
		return
	}
	if bestEffort {
		if failValue(c, h) == nil {
			r.Violate("ignored", key, p.InstrPos(c), "%s ignores whether %s succeeded", p.FuncName(fn), name)
			return
		}
		if ins := x.usesDamaged(fn, c, q); ins != nil {
			r.Violate("damaged-data-used", key, p.InstrPos(ins), "%s uses data that %s (at %s) failed to decode", p.FuncName(fn), name, p.InstrPos(c))
		}
		r.Count("damaged parts left out", 1)
		return
	}
	if failValue(c, h) == nil {
		r.Violate("ignored", key, p.InstrPos(c), "%s ignores whether %s succeeded", p.FuncName(fn), name)
		return
	}
	r.Violate("unreported", key, p.InstrPos(ret), "%s returns here as if nothing had happened although %s (at %s) failed", p.FuncName(fn), name, p.InstrPos(c))
}

// usesDamaged looks for uses of the undecoded input or the partial output after the failure.
func (x *c08) usesDamaged(fn *ssa.Function, c *ssa.Call, q *failQuery) ssa.Instruction {
	damaged := map[ssa.Value]bool{}
	if q.root != nil {
		for v := range derivedOf(q.root) {
			damaged[v] = true
		}
	}
	if refs := c.Referrers(); refs != nil {
		for _, ref := range *refs {
			if ex, ok := ref.(*ssa.Extract); ok && ex.Index != q.how.idx {
				for v := range derivedOf(ex) {
					damaged[v] = true
				}
			}
		}
	}
	// a phi merging the damaged value with good ones is judged by the path's resolution
	q2 := *q
	q2.forbidden = func(s *PState, ins ssa.Instruction) bool {
		switch y := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.Slice, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Extract:
			return false
		case *ssa.Convert:
			return false
		case *ssa.Call:
			n := calleeFullName(y)
			if n == "builtin.len" || n == "builtin.cap" || strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "log.") {
				return false
			}
			if _, ok := x.classes(y)["decode"]; ok {
				return false
			}
			if strings.Contains(n, "NewReader") || strings.HasSuffix(n, ".Close") {
				return false
			}
		case *ssa.Store:
			if ia, ok := y.Addr.(*ssa.IndexAddr); ok {
				if al, ok := ia.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
					return false
				}
			}
		}
		for _, op := range ins.Operands(nil) {
			if *op == nil {
				continue
			}
			v := s.Resolve(*op)
			if q.root != nil && v == q.root && v.Parent() != nil {
				if _, ok := v.(*ssa.Parameter); !ok {
					return true
				}
			}
			if damaged[v] {
				if _, ok := v.(*ssa.Phi); ok {
					continue
				}
				return true
			}
		}
		return false
	}
	return afterFailure(&q2).used
}

// finished: a compressor over a local buffer is closed before the buffer is read.
func (x *c08) finished(fn *ssa.Function, c *ssa.Call) {
	p, r := x.p, x.r
	name := calleeFullName(c)
	if !strings.HasPrefix(name, "compress/") || !strings.Contains(name, ".NewWriter") {
		return
	}
	r.Count("compressors", 1)
	sink := unwrapIface(c.Call.Args[0])
	var w ssa.Value = c
	if c.Call.Signature().Results().Len() > 1 {
		w = nil
		for _, ref := range *c.Referrers() {
			if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 0 {
				w = ex
			}
		}
		if w == nil {
			return
		}
	}
	isW := func(v ssa.Value) bool {
		v = unwrapIface(v)
		if v == w {
			return true
		}
		if u, ok := v.(*ssa.UnOp); ok {
			if al, ok := u.X.(*ssa.Alloc); ok {
				for _, ref := range *al.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == al && st.Val == w {
						return true
					}
				}
			}
		}
		return false
	}
	var bad ssa.Instruction
	Explore(fn, &PathClient{
		Instr: func(s *PState, ins ssa.Instruction) bool {
			call, ok := ins.(*ssa.Call)
			if !ok {
				if ret, ok := ins.(*ssa.Return); ok && s.Flag == 1 {
					ei := errIndex(fn.Signature)
					if ei >= 0 && s.Nil(ret.Results[ei]) == 1 {
						return true
					}
				}
				return true
			}
			if call == c {
				s.Flag = 1
				return true
			}
			if s.Flag != 1 {
				return true
			}
			n := calleeFullName(call)
			if strings.HasSuffix(n, ".Close") && isW(s.Resolve(recvOf(call))) {
				s.Flag = 2
				return true
			}
			if t := call.Call.StaticCallee(); t != nil && len(t.Blocks) > 0 {
				for i, a := range call.Call.Args {
					if isW(s.Resolve(a)) && closesParam(t, i, 0) {
						s.Flag = 2
						return true
					}
				}
			}
			if mc, ok := call.Call.Value.(*ssa.MakeClosure); ok && closesCaptured(mc, w) {
				s.Flag = 2
				return true
			}
			if (strings.HasSuffix(n, "Buffer).Bytes") || strings.HasSuffix(n, "Buffer).String") || strings.HasSuffix(n, "Buffer).WriteTo") || strings.HasSuffix(n, "Buffer).Next")) && call.Call.Args[0] == sink {
				bad = call
				return false
			}
			return true
		},
	})
	if bad != nil {
		r.Violate("unfinished-compression", p.FuncName(fn), p.InstrPos(bad), "%s reads the output of the compressor made at %s before closing it: the data is cut short", p.FuncName(fn), p.InstrPos(c))
	}
}

func closesParam(t *ssa.Function, i, d int) bool {
	if d > 4 || i >= len(t.Params) {
		return false
	}
	for _, b := range t.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := c.Common()
			if strings.HasSuffix(calleeFullName(c), ".Close") {
				v := com.Value
				if !com.IsInvoke() && len(com.Args) > 0 {
					v = com.Args[0]
				}
				if unwrapIface(v) == t.Params[i] {
					return true
				}
			}
			if s := com.StaticCallee(); s != nil && len(s.Blocks) > 0 {
				for k, a := range com.Args {
					if unwrapIface(a) == t.Params[i] && closesParam(s, k, d+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

func closesCaptured(mc *ssa.MakeClosure, w ssa.Value) bool {
	fn := mc.Fn.(*ssa.Function)
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok && strings.HasSuffix(calleeFullName(c), ".Close") {
				return true
			}
		}
	}
	return false
}

func recvOf(c ssa.CallInstruction) ssa.Value {
	com := c.Common()
	if com.IsInvoke() || len(com.Args) == 0 {
		return com.Value
	}
	return com.Args[0]
}
