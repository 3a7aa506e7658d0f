package main

// Whole-module origin analysis.
//
// Every reference-holding SSA value gets a set of abstract origins ("nodes"): parameters of the
// enclosing function, struct fields (one node per declared field), package variables, allocation
// sites, free variables, and "element of" such a node. Calls are resolved statically; results are
// instantiated per call site from the callee's return summary, so a helper that returns a view of
// its argument does not mix up its callers. Flows into parameters, fields, variables and container
// elements are edges of a node graph; "n may hold memory handed in as r" is reachability from r.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type nodeKind byte

const (
	nParam nodeKind = iota
	nField
	nGlobal
	nAlloc
	nFree
	nElem
)

type node struct {
	kind nodeKind
	fn   *ssa.Function
	idx  int
	key  string // field key
	glob *ssa.Global
	site ssa.Value
	base *node // for nElem
	elem *node
	in   map[*node]bool
	id   int
}

func (n *node) String() string {
	switch n.kind {
	case nParam:
		nm := "?"
		if n.idx < len(n.fn.Params) {
			nm = n.fn.Params[n.idx].Name()
		}
		return fmt.Sprintf("param %s of %s", nm, n.fn.RelString(nil))
	case nField:
		return "field " + n.key
	case nGlobal:
		return "var " + n.glob.String()
	case nAlloc:
		return fmt.Sprintf("alloc %s in %s", n.site.Name(), n.site.Parent().RelString(nil))
	case nFree:
		return fmt.Sprintf("captured %d of %s", n.idx, n.fn.RelString(nil))
	case nElem:
		return "element of " + n.base.String()
	}
	return "?"
}

type nodeset map[*node]bool

func (s nodeset) sorted() []*node {
	var o []*node
	for n := range s {
		o = append(o, n)
	}
	sort.Slice(o, func(i, j int) bool { return o[i].id < o[j].id })
	return o
}

type mutation struct {
	ins   ssa.Instruction
	nodes nodeset
	what  string
	// through is the value written through
	through ssa.Value
}

type Alias struct {
	p       *Program
	nodes   map[interface{}]*node
	all     []*node
	org     map[ssa.Value]nodeset
	ret     map[*ssa.Function][]nodeset
	changed bool
	muts    []mutation
	sigFns  map[string][]*ssa.Function
}

func (p *Program) Alias() *Alias {
	if p.aliasMemo != nil {
		return p.aliasMemo
	}
	a := &Alias{p: p, nodes: map[interface{}]*node{}, org: map[ssa.Value]nodeset{}, ret: map[*ssa.Function][]nodeset{}, sigFns: map[string][]*ssa.Function{}}
	for _, fn := range p.All {
		if p.addrUsed[fn] {
			k := sigKey(fn.Signature)
			a.sigFns[k] = append(a.sigFns[k], fn)
		}
	}
	for round := 0; round < 60; round++ {
		a.changed = false
		for _, fn := range p.All {
			a.visit(fn)
		}
		if !a.changed {
			break
		}
	}
	a.collectMutations()
	p.aliasMemo = a
	return a
}

func sigKey(s *types.Signature) string {
	var b strings.Builder
	for i := 0; i < s.Params().Len(); i++ {
		b.WriteString(s.Params().At(i).Type().String() + ",")
	}
	b.WriteString("->")
	for i := 0; i < s.Results().Len(); i++ {
		b.WriteString(s.Results().At(i).Type().String() + ",")
	}
	return b.String()
}

type pkey struct {
	fn *ssa.Function
	i  int
}
type fkey struct {
	fn *ssa.Function
	i  int
}

func (a *Alias) mk(key interface{}, n node) *node {
	if x, ok := a.nodes[key]; ok {
		return x
	}
	n.in = map[*node]bool{}
	n.id = len(a.all)
	x := &n
	a.nodes[key] = x
	a.all = append(a.all, x)
	a.changed = true
	return x
}

func (a *Alias) param(fn *ssa.Function, i int) *node {
	return a.mk(pkey{fn, i}, node{kind: nParam, fn: fn, idx: i})
}

type freeKey struct {
	fn *ssa.Function
	i  int
}

func (a *Alias) free(fn *ssa.Function, i int) *node {
	return a.mk(freeKey{fn, i}, node{kind: nFree, fn: fn, idx: i})
}
func (a *Alias) alloc(v ssa.Value) *node    { return a.mk(v, node{kind: nAlloc, site: v}) }
func (a *Alias) global(g *ssa.Global) *node { return a.mk(g, node{kind: nGlobal, glob: g}) }
func (a *Alias) elem(n *node) *node {
	if n.kind == nElem {
		return n // collapse nested containers
	}
	if n.elem == nil {
		n.elem = a.mk([2]interface{}{"elem", n}, node{kind: nElem, base: n})
	}
	return n.elem
}

func fieldKeyOf(t types.Type, idx int) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return t.String() + ".?"
	}
	return types.TypeString(t, nil) + "." + st.Field(idx).Name()
}

func (a *Alias) field(t types.Type, idx int) *node {
	k := fieldKeyOf(t, idx)
	return a.mk("F:"+k, node{kind: nField, key: k})
}

func refType(t types.Type) bool { return refTypeD(t, 0) }
func refTypeD(t types.Type, d int) bool {
	if d > 4 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refTypeD(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return refTypeD(u.Elem(), d+1)
	case *types.Tuple:
		return true
	}
	return true
}

func (a *Alias) add(v ssa.Value, ns nodeset) {
	if len(ns) == 0 {
		return
	}
	s := a.org[v]
	if s == nil {
		s = nodeset{}
		a.org[v] = s
	}
	for n := range ns {
		if !s[n] {
			s[n] = true
			a.changed = true
		}
	}
}

// Of returns the origins of a value.
func (a *Alias) Of(v ssa.Value) nodeset {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return nodeset{a.global(v): true}
	}
	return a.org[v]
}

func (a *Alias) edge(from nodeset, to *node) {
	for f := range from {
		if f == to {
			continue
		}
		if !to.in[f] {
			to.in[f] = true
			a.changed = true
		}
		// contents follow the container
		if to.kind != nElem {
			te, fe := a.elem(to), a.elem(f)
			if te != fe && !te.in[fe] {
				te.in[fe] = true
				a.changed = true
			}
		}
	}
}

func (a *Alias) elems(s nodeset) nodeset {
	o := nodeset{}
	for n := range s {
		o[a.elem(n)] = true
	}
	return o
}

// loc returns the nodes standing for the content of the location addr points to.
func (a *Alias) loc(addr ssa.Value) nodeset {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		return nodeset{a.field(x.X.Type(), x.Field): true}
	case *ssa.IndexAddr:
		return a.elems(a.Of(x.X))
	case *ssa.Global:
		return nodeset{a.global(x): true}
	case *ssa.Alloc:
		return nodeset{a.elem(a.alloc(x)): true}
	}
	// pointer from somewhere: field pointers and cells alike
	o := nodeset{}
	for n := range a.Of(addr) {
		if n.kind == nField {
			o[n] = true
		}
		o[a.elem(n)] = true
	}
	return o
}

func union(ss ...nodeset) nodeset {
	o := nodeset{}
	for _, s := range ss {
		for n := range s {
			o[n] = true
		}
	}
	return o
}

// stdAlias: standard library calls whose (first) result may share memory with the given arguments.
func stdAliasArgs(name string) []int {
	switch name {
	case "bytes.NewBuffer", "bytes.NewReader", "bufio.NewReader", "bufio.NewWriter",
		"bytes.TrimSpace", "bytes.Trim", "bytes.TrimLeft", "bytes.TrimRight", "bytes.TrimPrefix", "bytes.TrimSuffix",
		"bytes.TrimFunc", "bytes.TrimLeftFunc", "bytes.TrimRightFunc",
		"bytes.Split", "bytes.SplitN", "bytes.SplitAfter", "bytes.SplitAfterN", "bytes.Fields", "bytes.FieldsFunc",
		"bytes.Cut", "bytes.CutPrefix", "bytes.CutSuffix", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Next", "(*bytes.Buffer).AvailableBuffer",
		"slices.Clip", "slices.Grow", "slices.Delete", "slices.Insert", "slices.Compact", "slices.Replace",
		"io.NopCloser", "io.LimitReader", "io.TeeReader",
		"(encoding/binary.bigEndian).AppendUint16", "(encoding/binary.bigEndian).AppendUint32", "(encoding/binary.bigEndian).AppendUint64",
		"strconv.AppendInt", "fmt.Append", "fmt.Appendf", "fmt.Appendln", "compress/zlib.NewReader", "compress/zlib.NewWriter", "compress/zlib.NewWriterLevel",
		"compress/flate.NewReader", "compress/lzw.NewReader":
		return []int{0}
	}
	if strings.HasPrefix(name, "(*regexp.Regexp).Find") && !strings.Contains(name, "String") {
		return []int{1}
	}
	return nil
}

// stdWrites: standard library calls that write through the given arguments.
func stdWrites(name string) []int {
	switch name {
	case "builtin.copy", "builtin.clear":
		return []int{0}
	case "builtin.append":
		return []int{0}
	case "builtin.delete":
		return []int{0}
	case "(crypto/cipher.BlockMode).CryptBlocks", "(crypto/cipher.Stream).XORKeyStream", "(crypto/cipher.Block).Encrypt", "(crypto/cipher.Block).Decrypt":
		return []int{-1} // destination: first argument of an interface call
	case "(*crypto/rc4.Cipher).XORKeyStream":
		return []int{1}
	case "crypto/rand.Read", "math/rand.Read", "encoding/hex.Encode", "encoding/hex.Decode", "crypto/subtle.XORBytes", "crypto/subtle.ConstantTimeCopy":
		return []int{0}
	case "io.ReadFull", "io.ReadAtLeast":
		return []int{1}
	case "sort.Ints", "sort.Strings", "sort.Float64s", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable",
		"slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse", "slices.Delete", "slices.DeleteFunc", "slices.Insert", "slices.Compact", "slices.CompactFunc", "slices.Replace",
		"maps.Copy", "maps.DeleteFunc", "maps.Insert":
		return []int{0}
	case "fmt.Append", "fmt.Appendf", "fmt.Appendln", "encoding/hex.AppendEncode", "encoding/hex.AppendDecode",
		"unicode/utf8.EncodeRune", "unicode/utf8.AppendRune", "encoding/binary.PutUvarint", "encoding/binary.PutVarint",
		"encoding/binary.AppendUvarint", "encoding/binary.AppendVarint", "math/rand.Shuffle":
		return []int{0}
	case "encoding/json.Unmarshal", "encoding/xml.Unmarshal", "(*encoding/base64.Encoding).Encode", "(*encoding/base64.Encoding).Decode":
		return []int{1}
	case "(hash.Hash).Sum", "(crypto/cipher.AEAD).Seal", "(crypto/cipher.AEAD).Open":
		return []int{-1}
	}
	if strings.HasPrefix(name, "strconv.Append") {
		return []int{0}
	}
	if strings.HasPrefix(name, "(encoding/binary.") && strings.Contains(name, ").Put") {
		return []int{1}
	}
	if strings.HasPrefix(name, "(encoding/binary.") && strings.Contains(name, ").Append") {
		return []int{1}
	}
	if strings.HasPrefix(name, "(*bytes.Buffer).") {
		m := strings.TrimPrefix(name, "(*bytes.Buffer).")
		switch m {
		case "Write", "WriteString", "WriteByte", "WriteRune", "ReadFrom":
			return []int{0}
		case "Read":
			return []int{1}
		}
	}
	if strings.HasSuffix(name, ".Read") || strings.HasSuffix(name, ".ReadAt") {
		if strings.HasPrefix(name, "(io.") {
			return []int{-1}
		}
		if strings.HasPrefix(name, "(*") {
			return []int{1}
		}
	}
	return nil
}

// stdChangesReceiver: methods of standard library types that change the value they are called on (its read or
// write position), apart from the memory stdWrites lists.
func stdChangesReceiver(name string) bool {
	for _, t := range []string{"bytes.Buffer", "strings.Builder", "bytes.Reader", "strings.Reader", "bufio.Reader", "bufio.Writer", "bufio.Scanner"} {
		if !strings.HasPrefix(name, "(*"+t+").") {
			continue
		}
		switch name[len(t)+4:] {
		case "Bytes", "String", "Len", "Cap", "Available", "AvailableBuffer", "Size", "Buffered", "ReadAt", "Text", "Err", "Peek":
			return false
		}
		return true
	}
	return false
}

func callArg(c *ssa.CallCommon, i int) ssa.Value {
	if i == -1 { // first explicit argument of an interface call
		if c.IsInvoke() && len(c.Args) > 0 {
			return c.Args[0]
		}
		return nil
	}
	if c.IsInvoke() {
		i--
		if i < 0 {
			return c.Value
		}
	}
	if i < len(c.Args) {
		return c.Args[i]
	}
	return nil
}

// targets resolves a call including dynamic calls of function values (by signature).
func (a *Alias) targets(c ssa.CallInstruction) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range a.p.Callees(c) {
		if a.p.inMod[f] {
			out = append(out, f)
		}
	}
	com := c.Common()
	if len(out) == 0 && !com.IsInvoke() && com.StaticCallee() == nil {
		if _, isB := com.Value.(*ssa.Builtin); !isB {
			out = a.sigFns[sigKey(com.Signature())]
		}
	}
	return out
}

// argsFor lines up call arguments with the callee's parameters.
func argsFor(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

func (a *Alias) visit(fn *ssa.Function) {
	for i, pr := range fn.Params {
		if refType(pr.Type()) {
			a.add(pr, nodeset{a.param(fn, i): true})
		}
	}
	for i, fv := range fn.FreeVars {
		a.add(fv, nodeset{a.free(fn, i): true})
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			a.instr(fn, ins)
		}
	}
}

func (a *Alias) instr(fn *ssa.Function, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Alloc:
		a.add(x, nodeset{a.alloc(x): true})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := x.(ssa.Value)
		a.add(v, nodeset{a.alloc(v): true})
	case *ssa.MakeClosure:
		cf := x.Fn.(*ssa.Function)
		for i, bnd := range x.Bindings {
			a.edge(a.Of(bnd), a.free(cf, i))
			// the closure may write the captured cell
			for n := range a.Of(bnd) {
				fe := a.elem(a.free(cf, i))
				be := a.elem(n)
				if be != fe && !be.in[fe] {
					be.in[fe] = true
					a.changed = true
				}
			}
		}
		a.add(x, nodeset{a.alloc(x): true})
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.add(x, a.Of(e))
		}
	case *ssa.Slice:
		a.add(x, a.Of(x.X))
	case *ssa.ChangeType:
		a.add(x, a.Of(x.X))
	case *ssa.ChangeInterface:
		a.add(x, a.Of(x.X))
	case *ssa.SliceToArrayPointer:
		a.add(x, a.Of(x.X))
	case *ssa.MakeInterface:
		if refType(x.X.Type()) {
			a.add(x, a.Of(x.X))
		}
	case *ssa.TypeAssert:
		a.add(x, a.Of(x.X))
	case *ssa.Convert:
		// []byte<->string conversions copy; other conversions keep the reference
		if _, ok := x.X.Type().Underlying().(*types.Basic); !ok {
			if _, ok := x.Type().Underlying().(*types.Basic); !ok {
				a.add(x, a.Of(x.X))
			}
		} else if refType(x.Type()) {
			a.add(x, nodeset{a.alloc(x): true})
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if refType(x.Type()) {
				a.add(x, a.callResult(c, x.Index))
			}
			return
		}
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			if refType(x.Type()) {
				a.add(x, a.elems(a.Of(t.X)))
			}
		case *ssa.TypeAssert:
			if refType(x.Type()) {
				a.add(x, a.Of(t.X))
			}
		case *ssa.Next:
			if refType(x.Type()) {
				if r, ok := t.Iter.(*ssa.Range); ok {
					a.add(x, a.elems(a.Of(r.X)))
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && refType(x.Type()) {
			a.add(x, a.loc(x.X))
		}
	case *ssa.FieldAddr:
		a.add(x, nodeset{a.field(x.X.Type(), x.Field): true})
	case *ssa.Field:
		if refType(x.Type()) {
			a.add(x, nodeset{a.field(x.X.Type(), x.Field): true})
		}
	case *ssa.IndexAddr:
		a.add(x, a.elems(a.Of(x.X)))
	case *ssa.Index:
		if refType(x.Type()) {
			a.add(x, a.elems(a.Of(x.X)))
		}
	case *ssa.Lookup:
		if !x.CommaOk && refType(x.Type()) {
			a.add(x, a.elems(a.Of(x.X)))
		}
	case *ssa.Store:
		if refType(x.Val.Type()) {
			for l := range a.loc(x.Addr) {
				a.edge(a.Of(x.Val), l)
			}
		}
	case *ssa.MapUpdate:
		for l := range a.elems(a.Of(x.Map)) {
			if refType(x.Value.Type()) {
				a.edge(a.Of(x.Value), l)
			}
		}
	case *ssa.Return:
		rs := a.ret[fn]
		if rs == nil {
			rs = make([]nodeset, len(x.Results))
			a.ret[fn] = rs
		}
		for i, r := range x.Results {
			if !refType(r.Type()) {
				continue
			}
			for n := range a.Of(r) {
				if rs[i] == nil {
					rs[i] = nodeset{}
				}
				if !rs[i][n] {
					rs[i][n] = true
					a.changed = true
				}
			}
		}
	case ssa.CallInstruction:
		a.call(fn, x)
	}
}

func (a *Alias) call(fn *ssa.Function, c ssa.CallInstruction) {
	com := c.Common()
	args := argsFor(com)
	for _, t := range a.targets(c) {
		for i, arg := range args {
			if i < len(t.Params) && refType(arg.Type()) {
				pn := a.param(t, i)
				a.edge(a.Of(arg), pn)
				// stores made by the callee into the argument's elements are seen by the caller
				pe := a.elem(pn)
				if a.storedElem(pe) {
					for n := range a.Of(arg) {
						ne := a.elem(n)
						if ne != pe && !ne.in[pe] {
							ne.in[pe] = true
							a.changed = true
						}
					}
				}
			}
		}
	}
	if call, ok := c.(*ssa.Call); ok {
		if _, isTuple := call.Type().(*types.Tuple); !isTuple && refType(call.Type()) {
			a.add(call, a.callResult(call, 0))
		}
	}
	if calleeFullName(c) == "builtin.append" && len(com.Args) == 2 {
		// appended elements become elements of the destination
		if st, ok := com.Args[0].Type().Underlying().(*types.Slice); ok && refType(st.Elem()) {
			src := a.elems(a.Of(com.Args[1]))
			for l := range a.elems(a.Of(com.Args[0])) {
				a.edge(src, l)
			}
			if call, ok := c.(*ssa.Call); ok {
				for l := range a.elems(a.Of(call)) {
					a.edge(src, l)
				}
			}
		}
	}
}

func (a *Alias) storedElem(pe *node) bool {
	for f := range pe.in {
		if f.kind != nElem {
			return true
		}
	}
	return false
}

func (a *Alias) callResult(c *ssa.Call, idx int) nodeset {
	com := c.Common()
	name := calleeFullName(c)
	out := nodeset{}
	if name == "builtin.append" {
		out = union(a.Of(com.Args[0]))
		out[a.alloc(c)] = true
		return out
	}
	ts := a.targets(c)
	if len(ts) == 0 {
		for _, i := range stdAliasArgs(name) {
			if v := callArg(com, i); v != nil {
				for n := range a.Of(v) {
					out[n] = true
				}
			}
		}
		out[a.alloc(c)] = true
		return out
	}
	args := argsFor(com)
	for _, t := range ts {
		rs := a.ret[t]
		if idx >= len(rs) {
			continue
		}
		for n := range rs[idx] {
			a.subst(n, t, args, c, out)
		}
	}
	return out
}

func (a *Alias) subst(n *node, t *ssa.Function, args []ssa.Value, c *ssa.Call, out nodeset) {
	switch {
	case n.kind == nParam && n.fn == t:
		if n.idx < len(args) {
			for m := range a.Of(args[n.idx]) {
				out[m] = true
			}
		}
	case n.kind == nElem && n.base.kind == nParam && n.base.fn == t:
		if n.base.idx < len(args) {
			for m := range a.Of(args[n.base.idx]) {
				out[a.elem(m)] = true
			}
		}
	default:
		out[n] = true
	}
}

// capped reports whether appending to v cannot write into v's original backing array:
// a full slice expression without spare capacity, or the result of appending to one.
func capped(v ssa.Value) bool { return cappedV(v, map[ssa.Value]bool{}) }

func cappedV(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		return x.Max != nil && x.High != nil && sameValue(x.Max, x.High)
	case *ssa.Const:
		return true
	case *ssa.Call:
		switch calleeFullName(x) {
		case "slices.Clip":
			return true
		case "builtin.append":
			return cappedV(x.Call.Args[0], seen)
		}
	case *ssa.ChangeType:
		return cappedV(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !cappedV(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ca, ok1 := a.(*ssa.Const)
	cb, ok2 := b.(*ssa.Const)
	if ok1 && ok2 && ca.Value != nil && cb.Value != nil {
		return ca.Value.ExactString() == cb.Value.ExactString()
	}
	la, ok1 := a.(*ssa.Call)
	lb, ok2 := b.(*ssa.Call)
	if ok1 && ok2 && calleeFullName(la) == "builtin.len" && calleeFullName(lb) == "builtin.len" {
		return la.Call.Args[0] == lb.Call.Args[0]
	}
	ba, ok1 := a.(*ssa.BinOp)
	bb, ok2 := b.(*ssa.BinOp)
	if ok1 && ok2 {
		return ba.Op == bb.Op && sameValue(ba.X, bb.X) && sameValue(ba.Y, bb.Y)
	}
	return false
}

func (a *Alias) collectMutations() {
	for _, fn := range a.p.All {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					addr := x.Addr
					for {
						if fa, ok := addr.(*ssa.FieldAddr); ok {
							addr = fa.X
							continue
						}
						break
					}
					switch ad := addr.(type) {
					case *ssa.IndexAddr:
						a.muts = append(a.muts, mutation{ins, a.Of(ad.X), "element store", ad.X})
					case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
					default:
						// a pointer that may point into a slice
						if addr == x.Addr {
							ns := nodeset{}
							for n := range a.Of(addr) {
								if n.kind == nElem {
									ns[n] = true
								}
							}
							if len(ns) > 0 {
								a.muts = append(a.muts, mutation{ins, ns, "store through pointer", addr})
							}
						}
					}
				case *ssa.MapUpdate:
					a.muts = append(a.muts, mutation{ins, a.Of(x.Map), "map update", x.Map})
				case ssa.CallInstruction:
					name := calleeFullName(x)
					for _, i := range stdWrites(name) {
						v := callArg(x.Common(), i)
						if v == nil {
							continue
						}
						if name == "builtin.append" && capped(v) {
							continue
						}
						what := name
						a.muts = append(a.muts, mutation{ins, a.Of(v), what, v})
					}
				}
			}
		}
	}
}

// reach returns, for every node reachable from the roots, the edge it was first reached by.
func (a *Alias) reach(roots []*node) map[*node]*node {
	out := map[*node][]*node{}
	for _, n := range a.all {
		for f := range n.in {
			out[f] = append(out[f], n)
		}
	}
	from := map[*node]*node{}
	var q []*node
	push := func(n, f *node) {
		if _, ok := from[n]; ok {
			return
		}
		from[n] = f
		q = append(q, n)
	}
	for _, r := range roots {
		push(r, nil)
	}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		ts := out[n]
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		for _, t := range ts {
			push(t, n)
		}
	}
	return from
}

func path(from map[*node]*node, n *node) string {
	var parts []string
	for n != nil && len(parts) < 12 {
		parts = append([]string{n.String()}, parts...)
		n = from[n]
	}
	return strings.Join(parts, " -> ")
}
