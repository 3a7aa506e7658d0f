package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C12"] = checkC12 }

// memBase is a byte range of one allocation in one calling context.
type memBase struct {
	v      ssa.Value // Alloc, MakeSlice or Parameter
	lo, hi int64     // hi<0: to the end
}

// resolveBase follows slice expressions with constant bounds down to the allocation.
func resolveBase(v ssa.Value) (memBase, bool) {
	lo, hi := int64(0), int64(-1)
	for {
		switch x := v.(type) {
		case *ssa.Slice:
			l, h := int64(0), int64(-1)
			if x.Low != nil {
				c, ok := x.Low.(*ssa.Const)
				if !ok {
					return memBase{}, false
				}
				l = c.Int64()
			}
			if x.High != nil {
				c, ok := x.High.(*ssa.Const)
				if !ok {
					if !isLenOf(x.High, x.X) {
						return memBase{}, false
					}
				} else {
					h = c.Int64()
				}
			}
			if h >= 0 && hi < 0 {
				hi = h - l
			}
			lo += l
			if hi >= 0 {
				hi += l
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				if at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && hi < 0 {
					hi = at.Len()
				}
			}
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.Parameter:
			return memBase{v, lo, hi}, true
		default:
			return memBase{v, lo, hi}, false
		}
	}
}

func isLenOf(v, of ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	return ok && calleeFullName(c) == "builtin.len" && c.Call.Args[0] == of
}

type randomness struct {
	p *Program
	f *Flow
}

// fills lists the instructions of fn that fill memory of base completely from the system source.
func (rd *randomness) fills(fn *ssa.Function, base ssa.Value) []fillSite {
	var out []fillSite
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := c.Common()
			var dst ssa.Value
			switch calleeFullName(c) {
			case "crypto/rand.Read":
				dst = com.Args[0]
			case "io.ReadFull":
				if isCryptoReader(com.Args[0]) {
					dst = com.Args[1]
				}
			default:
				for _, t := range rd.p.Callees(c) {
					if !rd.p.inMod[t] {
						continue
					}
					for i, a := range argsFor(com) {
						if i >= len(t.Params) {
							continue
						}
						if mb, ok := resolveBase(a); ok && mb.v == base && rd.fillsParam(t, i, 0) {
							out = append(out, fillSite{ins, mb})
						}
					}
				}
			}
			if dst == nil {
				continue
			}
			if mb, ok := resolveBase(dst); ok && mb.v == base {
				out = append(out, fillSite{ins, mb})
			}
		}
	}
	return out
}

type fillSite struct {
	ins ssa.Instruction
	mb  memBase
}

func isCryptoReader(v ssa.Value) bool {
	v = unwrapIface(v)
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" && g.Name() == "Reader"
}

// fillsParam: on every return that may report success the parameter has been filled completely.
func (rd *randomness) fillsParam(fn *ssa.Function, i, depth int) bool {
	if depth > 4 {
		return false
	}
	fs := rd.fills(fn, fn.Params[i])
	if len(fs) == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if ei := errIndex(fn.Signature); ei >= 0 {
			if nilness(ret.Results[ei], b) == 1 {
				continue
			}
		}
		good := false
		for _, f := range fs {
			if f.mb.lo == 0 && f.mb.hi < 0 && instrDominates(f.ins, ret) {
				good = true
			}
		}
		if !good {
			return false
		}
	}
	return true
}

func covers(a, b memBase) bool {
	if a.v != b.v || a.lo > b.lo {
		return false
	}
	if a.hi < 0 {
		return true
	}
	return b.hi >= 0 && b.hi <= a.hi
}

func overlap(a, b memBase) bool {
	if a.v != b.v {
		return false
	}
	if a.hi >= 0 && b.lo >= a.hi || b.hi >= 0 && a.lo >= b.hi {
		return false
	}
	return true
}

// fresh: "" if v, used at instruction use, holds memory filled completely and separately for this use
// from the system random source.
func (rd *randomness) fresh(v ssa.Value, use ssa.Instruction, depth int) (string, []leaf) {
	if depth > 8 {
		return "too many calls between the random source and its use", nil
	}
	p := rd.p
	switch x := v.(type) {
	case *ssa.Phi:
		var ls []leaf
		for _, e := range x.Edges {
			w, l := rd.fresh(e, use, depth+1)
			if w != "" {
				return w, nil
			}
			ls = append(ls, l...)
		}
		return "", ls
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return rd.freshResult(c, x.Index, use, depth)
		}
	case *ssa.Call:
		return rd.freshResult(x, 0, use, depth)
	case *ssa.Slice:
		if _, ok := resolveBase(v); !ok {
			// a constant sub-range of a helper's result
			switch x.X.(type) {
			case *ssa.Call, *ssa.Extract, *ssa.Phi:
				w, l := rd.fresh(x.X, use, depth+1)
				mb, _ := resolveBase(v)
				for i := range l {
					l[i].mb.lo, l[i].mb.hi = mb.lo, mb.hi
				}
				return w, l
			}
		}
	}
	mb, ok := resolveBase(v)
	if !ok {
		return fmt.Sprintf("it is not memory allocated and filled for this use (%s)", describeVal(p, v)), nil
	}
	if pr, ok := mb.v.(*ssa.Parameter); ok {
		fn := pr.Parent()
		if fs := rd.fills(fn, pr); len(fs) > 0 {
			return rd.filled(mb, fs, use)
		}
		if exportedAPI(fn) {
			return fmt.Sprintf("it is parameter %s of exported %s", pr.Name(), p.FuncName(fn)), nil
		}
		idx := 0
		for i, q := range fn.Params {
			if q == pr {
				idx = i
			}
		}
		cs := append(append([]ssa.CallInstruction{}, p.callers[fn]...), rd.f.dynCallers[fn]...)
		if len(cs) == 0 {
			return "", nil
		}
		if rd.repeats(use, nil) {
			return fmt.Sprintf("%s uses the value it is given more than once", p.FuncName(fn)), nil
		}
		var ls []leaf
		for _, c := range cs {
			as := argsFor(c.Common())
			if idx >= len(as) {
				continue
			}
			w, l := rd.fresh(as[idx], c, depth+1)
			if w != "" {
				return w, nil
			}
			ls = append(ls, l...)
		}
		return "", ls
	}
	fn := use.Parent()
	if mb.v.Parent() != fn {
		return "it was allocated in another function", nil
	}
	return rd.filled(mb, rd.fills(fn, mb.v), use)
}

type leaf struct {
	mb  memBase
	ctx ssa.Instruction
}

func (rd *randomness) filled(mb memBase, fs []fillSite, use ssa.Instruction) (string, []leaf) {
	p := rd.p
	why := "it is never filled from crypto/rand"
	for _, f := range fs {
		if !covers(f.mb, mb) {
			why = "crypto/rand fills only part of it"
			continue
		}
		if !instrDominates(f.ins, use) {
			why = fmt.Sprintf("the fill at %s does not happen on every path to its use", p.InstrPos(f.ins))
			continue
		}
		if rd.repeats(use, f.ins) {
			why = fmt.Sprintf("the value filled at %s is used again without a new fill", p.InstrPos(f.ins))
			continue
		}
		// nothing else may write it before the use
		if m := rd.otherWrite(mb, fs, use); m != nil {
			why = fmt.Sprintf("it is also written at %s", p.InstrPos(m))
			continue
		}
		return "", []leaf{{mb, nil}}
	}
	return why, nil
}

func (rd *randomness) otherWrite(mb memBase, fs []fillSite, use ssa.Instruction) ssa.Instruction {
	isFill := map[ssa.Instruction]bool{}
	for _, f := range fs {
		isFill[f.ins] = true
	}
	n := rd.f.a.nodes[mb.v]
	if n == nil {
		return nil
	}
	from := rd.f.a.reach([]*node{n})
	for _, m := range rd.f.a.muts {
		if isFill[m.ins] || strings.HasPrefix(m.what, "crypto/rand") {
			continue
		}
		hit := false
		for k := range m.nodes {
			if k.kind == nParam || k == n {
				if _, ok := from[k]; ok {
					hit = true
				}
			}
		}
		if !hit {
			continue
		}
		if m.ins.Parent() == use.Parent() {
			if m2, ok := resolveBase(m.through); ok && m2.v == mb.v && !overlap(m2, mb) {
				continue
			}
			if !mayPrecede(m.ins, use) {
				continue
			}
			return m.ins
		}
		// inside a helper the memory is passed to: only if that helper really gets this memory
		return m.ins
	}
	return nil
}

func mayPrecede(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() && instrIndex(a) < instrIndex(b) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

// repeats: can control return to use without passing the fill again?
func (rd *randomness) repeats(use, fill ssa.Instruction) bool {
	if fill != nil && fill.Block() == use.Block() && instrIndex(fill) < instrIndex(use) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, use.Block().Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if seen[x] || fill != nil && x == fill.Block() {
			continue
		}
		seen[x] = true
		if x == use.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

func (rd *randomness) freshResult(c *ssa.Call, idx int, use ssa.Instruction, depth int) (string, []leaf) {
	p := rd.p
	ts := p.Callees(c)
	if len(ts) == 0 || !p.inMod[ts[0]] {
		return fmt.Sprintf("it is the result of %s", calleeFullName(c)), nil
	}
	if use != ssa.Instruction(c) && rd.repeats(use, c) {
		return fmt.Sprintf("the value obtained at %s is used again without a new one", p.InstrPos(c)), nil
	}
	var ls []leaf
	for _, t := range ts {
		for _, b := range t.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || idx >= len(ret.Results) {
				continue
			}
			if isNilConst(ret.Results[idx]) {
				continue
			}
			if ei := errIndex(t.Signature); ei >= 0 && nilness(ret.Results[ei], b) == 1 {
				continue
			}
			w, l := rd.fresh(ret.Results[idx], ret, depth+1)
			if w != "" {
				return w, nil
			}
			for _, x := range l {
				x.ctx = c
				ls = append(ls, x)
			}
		}
	}
	return "", ls
}

func describeVal(p *Program, v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Const:
		return "constant " + x.Name()
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return "field " + fieldName(fa)
		}
		if g, ok := x.X.(*ssa.Global); ok {
			return "package variable " + g.Name()
		}
	}
	return strings.ReplaceAll(v.String(), p.Module+"/", "")
}

var ivArg = map[string]int{
	"crypto/cipher.NewCBCEncrypter": 1, "crypto/cipher.NewCTR": 1, "crypto/cipher.NewCFBEncrypter": 1, "crypto/cipher.NewOFB": 1,
}

type sinkLeaves struct {
	what string
	pos  string
	ls   []leaf
}

func checkC12(p *Program, tier string) *Result {
	r := &Result{Explanation: "Provenance of random values: every initialisation vector given to an encrypting cipher mode and the file key stored by the encryption set-up must be memory that is allocated for this use, filled completely by crypto/rand on every path before it, not written by anything else and not used twice; the validation values U and O must each contain two such independent salts (hash and cipher outputs excluded), and no two of these uses share memory. Helpers, parameters and results are followed through the call graph."}
	rd := &randomness{p: p, f: p.Flow()}
	var sinks []sinkLeaves
	for _, fn := range p.Lib {
		r.Count("functions_analysed", 1)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if g := rootGlobal(st.Addr); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" {
						r.Violate("random-source-replaced", p.FuncName(fn), p.InstrPos(ins), "%s replaces crypto/rand.%s", p.FuncName(fn), g.Name())
					}
				}
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := calleeFullName(c)
				ai, ok := ivArg[name]
				var iv ssa.Value
				if ok {
					iv = c.Common().Args[ai]
				} else if c.Common().IsInvoke() && c.Common().Method.Name() == "Seal" && len(c.Common().Args) >= 2 {
					iv = c.Common().Args[1]
				} else {
					continue
				}
				r.Count("initialisation_vectors", 1)
				w, ls := rd.fresh(iv, ins, 0)
				if w != "" {
					r.Violate("iv-not-fresh-random", constructName(p, ins, name), p.InstrPos(ins), "the initialisation vector of %s in %s: %s", name, p.FuncName(fn), w)
					continue
				}
				r.Sample("%s: IV of %s is %s", p.InstrPos(ins), name, iv.Name())
				sinks = append(sinks, sinkLeaves{"initialisation vector", p.InstrPos(ins), ls})
			}
		}
	}
	// key and salts of the encryption set-up
	var setup *ssa.Function
	for _, fn := range p.Lib {
		if fn.Name() == "SetupAES256Encryption" && exportedAPI(fn) {
			setup = fn
		}
	}
	if setup == nil {
		r.Violate("anchor-missing", "SetupAES256Encryption", "-", "the encryption set-up operation was not found")
		return r
	}
	reach := p.reachable(setup)
	encKey := "types.PDFEncryption."
	var fns []*ssa.Function
	for fn := range reach {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].RelString(nil) < fns[j].RelString(nil) })
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				k := fieldKeyOf(fa.X.Type(), fa.Field)
				i := strings.LastIndex(k, encKey)
				if i < 0 {
					continue
				}
				switch k[i+len(encKey):] {
				case "EncryptKey":
					r.Count("file_keys", 1)
					w, ls := rd.fresh(st.Val, ins, 0)
					if w != "" {
						r.Violate("key-not-fresh-random", p.FuncName(fn)+"|EncryptKey", p.InstrPos(ins), "the file key stored by %s: %s", p.FuncName(fn), w)
						continue
					}
					sinks = append(sinks, sinkLeaves{"file key", p.InstrPos(ins), ls})
				case "U", "O":
					r.Count("validation_values", 1)
					ls, bad := rd.salts(st.Val, ins)
					if bad != "" {
						r.Violate("salt-not-fresh-random", p.FuncName(fn)+"|"+k[i+len(encKey):], p.InstrPos(ins), "a salt of %s stored by %s: %s", k[i+len(encKey):], p.FuncName(fn), bad)
						continue
					}
					if len(ls) < 2 {
						r.Violate("salt-not-fresh-random", p.FuncName(fn)+"|"+k[i+len(encKey):], p.InstrPos(ins), "%s stored by %s contains %d independently generated salts, two are needed", k[i+len(encKey):], p.FuncName(fn), len(ls))
						continue
					}
					r.Count("salts", len(ls))
					sinks = append(sinks, sinkLeaves{"salts of " + k[i+len(encKey):], p.InstrPos(ins), ls})
				}
			}
		}
	}
	for i := range sinks {
		for j := i + 1; j < len(sinks); j++ {
			for _, a := range sinks[i].ls {
				for _, b := range sinks[j].ls {
					if a.ctx == b.ctx && overlap(a.mb, b.mb) {
						r.Violate("random-value-reused", sinks[i].what+"|"+sinks[j].what, sinks[j].pos, "the same random memory serves as %s (%s) and as %s (%s)", sinks[i].what, sinks[i].pos, sinks[j].what, sinks[j].pos)
					}
				}
			}
		}
	}
	r.Floor("initialisation_vectors", 1)
	r.Floor("file_keys", 1)
	r.Floor("validation_values", 2)
	return r
}

// reachable: functions of the module that can be called from fn.
func (p *Program) reachable(fn *ssa.Function) map[*ssa.Function]bool {
	a := p.Alias()
	out := map[*ssa.Function]bool{}
	work := []*ssa.Function{fn}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if out[f] || !p.inMod[f] {
			continue
		}
		out[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					work = append(work, a.targets(c)...)
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					work = append(work, mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	return out
}

// salts finds the independently filled random memory that reaches v without passing a hash or cipher.
func (rd *randomness) salts(v ssa.Value, at ssa.Instruction) (out []leaf, bad string) {
	type key struct {
		v   ssa.Value
		ctx string
	}
	seen := map[key]bool{}
	rd.f.Backward(v, nil, FlowOpts{
		Call: func(c *ssa.Call, name string, vis *Visit) ([]ssa.Value, bool) {
			if strings.HasPrefix(name, "(hash.Hash).") || strings.HasPrefix(name, "crypto/") && !strings.HasPrefix(name, "crypto/rand") || strings.HasPrefix(name, "(crypto/") {
				return nil, true
			}
			return nil, false
		},
		Stop: func(vis *Visit) bool {
			mb, ok := resolveBase(vis.V)
			if !ok {
				return false
			}
			switch x := mb.v.(type) {
			case *ssa.Alloc, *ssa.MakeSlice:
				fs := rd.fills(x.Parent(), x)
				if len(fs) == 0 {
					return false
				}
				k := key{x, rd.f.key(vis.St) + fmt.Sprint(mb.lo, mb.hi)}
				if seen[k] {
					return true
				}
				seen[k] = true
				w, _ := rd.filled(mb, fs, rd.useOf(x, fs, at))
				if w != "" {
					bad = w
				}
				var ctx ssa.Instruction
				if vis.St != nil {
					ctx = vis.St.c
				}
				for _, o := range out {
					if o.ctx == ctx && overlap(o.mb, mb) {
						return true
					}
				}
				out = append(out, leaf{mb, ctx})
				return true
			}
			return false
		}})
	return out, bad
}

// useOf: where the filled memory is first handed on (for the dominance check).
func (rd *randomness) useOf(x ssa.Value, fs []fillSite, at ssa.Instruction) ssa.Instruction {
	if at.Parent() == x.Parent() {
		return at
	}
	isFill := map[ssa.Instruction]bool{}
	for _, f := range fs {
		isFill[f.ins] = true
	}
	// in a helper: its successful return
	for _, b := range x.Parent().Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, rv := range ret.Results {
				if mb, ok := resolveBase(rv); ok && mb.v == x {
					return ret
				}
			}
		}
	}
	return fs[0].ins
}
