package main

// C24, where data begins: right behind the stream keyword and one line end.
//
// From each search for the stream keyword, the ways through the function are followed with the bytes behind the
// keyword assumed to be a line end and data that itself begins with a line end or white space. Positions are kept as
// the distance from the keyword. Wherever data is cut out at a position known this way, the position is the one
// behind the first line end. Data that only goes to a zlib reader cannot begin with white space and is left out.

import (
	"go/constant"
	"go/token"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// the bytes behind the keyword, and how many of them are the line end
var streamTails = []struct {
	tail string
	eol  int64
}{
	{"\n\x01\x02\x03\x04\x05", 1}, {"\r\n\x01\x02\x03\x04\x05", 2},
	{"\n\n\n\x01\x02\x03\x04", 1}, {"\r\n\n\n\x01\x02\x03\x04", 2}, {"\n\r\n\x01\x02\x03\x04", 1}, {"\r\n\r\n\x01\x02\x03", 2},
	{"\n  \x01\x02\x03\x04", 1}, {"\r\n\t \x01\x02\x03\x04", 2}, {"\n\x00\x00\x00\x00\x00", 1},
}

type streamText struct {
	root ssa.Value  // the text,
	low  lin        // from this position on
	cut  *ssa.Slice // where its end was cut off
}

type streamStart struct {
	c      *c24
	base   atom // the position of the keyword
	doc    ssa.Value
	at     lin // the position within the document
	tail   string
	eol    int64
	seen   map[string]bool
	steps  int
	checks int
	bad    map[ssa.Instruction]int64
	depth  int
}

type streamEnv struct {
	num  map[ssa.Value]lin
	text map[ssa.Value]*streamText
	flag map[ssa.Value]bool
	d    int
}

func (e *streamEnv) key() string {
	var parts []string
	for v, l := range e.num {
		parts = append(parts, v.Name()+v.Parent().Name()+linKey(l))
	}
	for v, t := range e.text {
		parts = append(parts, v.Name()+v.Parent().Name()+t.root.Name()+linKey(t.low))
	}
	for v, b := range e.flag {
		parts = append(parts, v.Name()+v.Parent().Name()+strconv.FormatBool(b))
	}
	sort.Strings(parts)
	return strings.Join(parts, ";")
}

func linKey(l lin) string {
	var parts []string
	for a, k := range l.t {
		parts = append(parts, strconv.FormatInt(k, 10)+a.v.Name()+strconv.FormatBool(a.len))
	}
	sort.Strings(parts)
	return strconv.FormatInt(l.c, 10) + "," + strings.Join(parts, "+")
}

func (c *c24) starts() {
	places := 0
	for _, fn := range c.p.Lib {
		for _, b := range fn.Blocks {
			for i, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok || len(call.Call.Args) < 2 {
					continue
				}
				switch calleeFullName(call) {
				case "bytes.Index", "strings.Index", "bytes.Cut", "strings.Cut", "bytes.LastIndex", "strings.LastIndex":
				default:
					continue
				}
				if s, ok := c.p.constText(call.Call.Args[1]); !ok || strings.TrimLeft(s, "\r\n ") != "stream" {
					continue
				}
				bad, used := map[ssa.Instruction]int64{}, false
				for _, t := range streamTails {
					s := &streamStart{c: c, base: atom{v: call}, tail: t.tail, eol: t.eol, seen: map[string]bool{}, bad: bad}
					e := &streamEnv{num: map[ssa.Value]lin{}, text: map[ssa.Value]*streamText{}, flag: map[ssa.Value]bool{}}
					in := s.textOf(e, call.Call.Args[0])
					if in == nil {
						continue
					}
					kw, _ := c.p.constText(call.Call.Args[1])
					s.doc = in.root
					s.at = in.low.add(c.n.self(call), 1)
					s.at.c += int64(len(kw) - 6) // of the word itself
					s.walk(b, i, e)
					used = used || s.checks > 0
				}
				if used {
					places++
				}
				for sl, k := range bad {
					c.r.Violate("data begins behind one line end", c.p.FuncName(sl.Parent()), c.p.InstrPos(sl), "%s takes stream data from %d bytes behind where it begins, when the data itself begins with white space or a line end (the keyword is found in %s)", c.p.FuncName(sl.Parent()), k, c.p.InstrPos(call))
				}
			}
		}
	}
	c.r.Count("beginnings of data followed", places)
}

// distance is how far a position within a text is from the end of the keyword.
func (s *streamStart) distance(t *streamText, i lin) (int64, bool) {
	if t == nil || t.root != s.doc && !s.c.n.sameVal(t.root, s.doc) {
		return 0, false
	}
	d := t.low.add(i, 1).add(s.at, -1)
	if len(d.t) != 0 {
		return 0, false
	}
	return d.c - 6, true
}

// around: the text holds the keyword, so there is more of it behind the keyword
func (s *streamStart) around(t *streamText) bool {
	k, ok := s.distance(t, konst(0))
	return !ok || k <= -6
}

func (s *streamStart) charAt(k int64) (byte, bool) {
	if k < 0 && k >= -6 {
		return "stream"[k+6], true
	}
	if k >= 0 && k < int64(len(s.tail)) {
		return s.tail[k], true
	}
	return 0, false
}

func (s *streamStart) lin(e *streamEnv, v ssa.Value) lin {
	if l, ok := e.num[v]; ok {
		return l
	}
	if x, ok := v.(*ssa.Call); ok {
		if calleeFullName(x) == "builtin.len" {
			if t := s.textOf(e, x.Call.Args[0]); t != nil && (t.root == s.doc || s.c.n.sameVal(t.root, s.doc)) && (t.cut == nil || s.around(t)) {
				return lin{t: map[atom]int64{{v: s.doc, len: true}: 1}}.add(t.low, -1)
			}
		}
		if l := s.result(e, x, 0); l != nil && l.num != nil {
			return *l.num
		}
	}
	l := s.c.n.Lin(v)
	out := lin{c: l.c}
	for a, k := range l.t {
		if m, ok := e.num[a.v]; ok && !a.len {
			out = out.add(m, k)
			continue
		}
		if !a.len && a.v != v {
			switch a.v.(type) {
			case *ssa.Call, *ssa.Extract, *ssa.BinOp, *ssa.UnOp:
				if e.d < 12 {
					e.d++
					m := s.lin(e, a.v)
					e.d--
					out = out.add(m, k)
					continue
				}
			}
		}
		if a.len {
			if t := s.textOf(e, a.v); t != nil && (t.root != a.v || len(t.low.t) > 0 || t.low.c != 0) {
				out = out.add(lin{t: map[atom]int64{{v: t.root, len: true}: 1}}, k).add(t.low, -k)
				continue
			}
		}
		out = out.add(lin{t: map[atom]int64{a: 1}}, k)
	}
	if x, ok := v.(*ssa.Extract); ok {
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if l := s.result(e, c, x.Index); l != nil && l.num != nil {
				return *l.num
			}
		}
	}
	return out
}

// textOf: the text a value holds, up to the end of the document
func (s *streamStart) textOf(e *streamEnv, v ssa.Value) *streamText {
	if t := e.text[v]; t != nil {
		return t
	}
	if e.d > 12 {
		return nil
	}
	e.d++
	defer func() { e.d-- }()
	switch x := v.(type) {
	case *ssa.Convert:
		if isTextType(x.X.Type()) {
			return s.textOf(e, x.X)
		}
	case *ssa.ChangeType:
		return s.textOf(e, x.X)
	case *ssa.Slice:
		t := s.textOf(e, x.X)
		if t == nil || !isTextType(x.Type()) {
			return nil
		}
		low := konst(0)
		if x.Low != nil {
			low = s.lin(e, x.Low)
		}
		cut := t.cut
		if x.High != nil {
			if d := s.lin(e, x.High).add(low, -1); len(d.t) > 0 {
				cut = x
			}
		}
		return &streamText{t.root, t.low.add(low, 1), cut}
	case *ssa.Call:
		args := x.Call.Args
		switch name := calleeFullName(x); name {
		case "bytes.TrimPrefix", "strings.TrimPrefix", "bytes.TrimLeft", "strings.TrimLeft", "bytes.TrimSpace", "strings.TrimSpace", "bytes.Clone",
			"bytes.TrimSuffix", "strings.TrimSuffix", "bytes.TrimRight", "strings.TrimRight":
			t := s.textOf(e, args[0])
			if t == nil {
				return nil
			}
			if name == "bytes.TrimSuffix" || name == "strings.TrimSuffix" || strings.HasSuffix(name, "TrimRight") {
				return t
			}
			k, ok := s.distance(t, konst(0))
			if !ok {
				if name == "bytes.Clone" {
					return t
				}
				return &streamText{v, konst(0), nil}
			}
			if k < 0 || k > int64(len(s.tail)) || name == "bytes.Clone" {
				return t
			}
			rest, cut := s.tail[k:], ""
			if len(args) > 1 {
				c, ok := s.c.p.constText(args[1])
				if !ok {
					return &streamText{v, konst(0), nil}
				}
				cut = c
			}
			left := strings.TrimSpace(rest)
			switch {
			case strings.HasSuffix(name, "TrimPrefix"):
				left = strings.TrimPrefix(rest, cut)
			case strings.HasSuffix(name, "TrimLeft"):
				left = strings.TrimLeft(rest, cut)
			}
			return &streamText{t.root, t.low.add(konst(int64(len(rest)-len(left))), 1), t.cut}
		}
		if r := s.result(e, x, 0); r != nil && r.text != nil {
			return r.text
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if c == s.base.v && x.Index == 1 && isTextType(x.Type()) {
				l := s.at
				l.c += 6
				return &streamText{s.doc, l, nil}
			}
			if r := s.result(e, c, x.Index); r != nil && r.text != nil {
				return r.text
			}
		}
	}
	return &streamText{v, konst(0), nil}
}

// char is a byte of the document.
func (s *streamStart) char(e *streamEnv, v ssa.Value) (int64, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			n, ok := constant.Int64Val(x.Value)
			return n, ok
		}
	case *ssa.Convert:
		return s.char(e, x.X)
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL && isTextType(ia.X.Type()) {
			return s.charIn(e, ia.X, ia.Index)
		}
	case *ssa.Index:
		return s.charIn(e, x.X, x.Index)
	case *ssa.Lookup:
		if isTextType(x.X.Type()) {
			return s.charIn(e, x.X, x.Index)
		}
	}
	return 0, false
}

func (s *streamStart) charIn(e *streamEnv, text, i ssa.Value) (int64, bool) {
	k, ok := s.distance(s.textOf(e, text), s.lin(e, i))
	if !ok {
		return 0, false
	}
	c, ok := s.charAt(k)
	return int64(c), ok
}

// known: what a value that is a piece of the document near the keyword reads
func (s *streamStart) known(e *streamEnv, v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Convert:
		return s.known(e, x.X)
	case *ssa.ChangeType:
		return s.known(e, x.X)
	case *ssa.Slice:
		if x.High == nil {
			return "", false
		}
		t := s.textOf(e, x.X)
		low := konst(0)
		if x.Low != nil {
			low = s.lin(e, x.Low)
		}
		from, ok := s.distance(t, low)
		to, ok2 := s.distance(t, s.lin(e, x.High))
		if !ok || !ok2 || from < 0 || to < from || to > int64(len(s.tail)) {
			return "", false
		}
		return s.tail[from:to], true
	}
	return s.c.p.constText(v)
}

func (s *streamStart) cond(e *streamEnv, v ssa.Value) (bool, bool) {
	if b, ok := e.flag[v]; ok {
		return b, true
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			b, ok := s.cond(e, x.X)
			return !b, ok
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if c == s.base.v {
				return true, x.Index == 2
			}
			if r := s.result(e, c, x.Index); r != nil && r.flag != nil {
				return *r.flag, true
			}
		}
	case *ssa.Call:
		args := x.Call.Args
		switch name := calleeFullName(x); name {
		case "bytes.HasPrefix", "strings.HasPrefix":
			k, ok := s.distance(s.textOf(e, args[0]), konst(0))
			pre, ok2 := s.c.p.constText(args[1])
			if ok && ok2 && k >= 0 && k+int64(len(pre)) <= int64(len(s.tail)) {
				return strings.HasPrefix(s.tail[k:], pre), true
			}
		case "bytes.Equal":
			a, ok := s.known(e, args[0])
			b, ok2 := s.known(e, args[1])
			return a == b, ok && ok2
		case "unicode.IsSpace":
			c, ok := s.char(e, args[0])
			return strings.ContainsRune("\t\n\v\f\r \u0085\u00a0", rune(c)), ok
		case "strings.ContainsRune", "strings.IndexByte":
		}
		if r := s.result(e, x, 0); r != nil && r.flag != nil {
			return *r.flag, true
		}
	case *ssa.BinOp:
		if c, ok := s.char(e, x.X); ok {
			if d, ok := s.char(e, x.Y); ok && !(isConst(x.X) && isConst(x.Y)) {
				return constant.Compare(constant.MakeInt64(c), x.Op, constant.MakeInt64(d)), true
			}
		}
		if isTextType(x.X.Type()) {
			a, ok := s.known(e, x.X)
			b, ok2 := s.known(e, x.Y)
			switch {
			case !ok || !ok2:
			case x.Op == token.EQL:
				return a == b, true
			case x.Op == token.NEQ:
				return a != b, true
			}
			return false, false
		}
		if !isIntType(x.X.Type()) {
			return false, false
		}
		a, b := s.lin(e, x.X), s.lin(e, x.Y)
		d := b.add(a, -1) // b - a
		if len(d.t) == 0 {
			return constant.Compare(constant.MakeInt64(0), x.Op, constant.MakeInt64(d.c)), true
		}
		// the keyword is found
		op := x.Op
		if len(a.t) == 0 {
			a, b = b, a
			op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
		}
		if l := a.add(s.c.n.self(s.base.v), -1); len(l.t) == 0 && l.c >= 0 && len(b.t) == 0 {
			switch {
			case b.c < 0:
				return op == token.NEQ || op == token.GTR || op == token.GEQ, true
			case b.c == 0 && (op == token.LSS || op == token.GEQ):
				return op == token.GEQ, true
			}
		}
		// there are more bytes behind the keyword than are looked at
		if s.roomy(d) {
			return x.Op == token.LSS || x.Op == token.LEQ || x.Op == token.NEQ, true
		}
		if s.roomy(d.scale(-1)) {
			return x.Op == token.GTR || x.Op == token.GEQ || x.Op == token.NEQ, true
		}
	}
	return false, false
}

// unsure: the condition depends on a byte behind the keyword and something else
func (s *streamStart) unsure(e *streamEnv, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op == token.NOT && s.unsure(e, x.X)
	case *ssa.BinOp:
		for _, o := range []ssa.Value{x.X, x.Y} {
			if _, ok := s.char(e, o); ok && !isConst(o) {
				return true
			}
		}
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if _, ok := s.char(e, a); ok && !isConst(a) {
				return true
			}
			if isTextType(a.Type()) {
				if k, ok := s.distance(s.textOf(e, a), konst(0)); ok && k >= 0 && k < int64(len(s.tail)) && s.textOf(e, a).cut == nil {
					return true
				}
			}
		}
	}
	return false
}

// roomy: the number of bytes of the document behind a position near the keyword
func (s *streamStart) roomy(d lin) bool {
	l := lin{t: map[atom]int64{{v: s.doc, len: true}: 1}}
	r := d.add(l, -1).add(s.at, 1)
	return len(r.t) == 0 && r.c > -40
}

type streamResult struct {
	num  *lin
	text *streamText
	flag *bool
}

// result is what a helper returns, if it is the same on all ways through it.
func (s *streamStart) result(e *streamEnv, call *ssa.Call, k int) *streamResult {
	ts := s.c.p.Callees(call)
	if len(ts) != 1 || !s.c.p.inMod[ts[0]] || len(ts[0].Blocks) == 0 || s.depth > 2 || !s.handed(e, call) {
		return nil
	}
	t := ts[0]
	g := s.enter(e, call, t)
	var one *streamResult
	same := true
	s.depth++
	old := s.seen
	s.seen = map[string]bool{}
	s.run(t.Blocks[0], 0, nil, g, func(ret *ssa.Return, h *streamEnv) {
		if k >= len(ret.Results) {
			same = false
			return
		}
		rv := ret.Results[k]
		r := &streamResult{}
		key := "?"
		switch {
		case isIntType(rv.Type()):
			l := s.lin(h, rv)
			r.num, key = &l, linKey(l)
		case isTextType(rv.Type()):
			r.text = s.textOf(h, rv)
			if r.text != nil {
				key = r.text.root.Name() + linKey(r.text.low)
			}
		default:
			if b, ok := s.cond(h, rv); ok {
				r.flag, key = &b, strconv.FormatBool(b)
			}
		}
		if key == "?" {
			same = false
		}
		if one == nil {
			one = r
			return
		}
		was := ""
		switch {
		case one.num != nil:
			was = linKey(*one.num)
		case one.text != nil:
			was = one.text.root.Name() + linKey(one.text.low)
		case one.flag != nil:
			was = strconv.FormatBool(*one.flag)
		}
		same = same && was == key
	})
	s.seen = old
	s.depth--
	if !same {
		return nil
	}
	return one
}

// handed: a helper receives a position or a text that is known
func (s *streamStart) handed(e *streamEnv, call *ssa.Call) bool {
	if call == s.base.v {
		return false
	}
	for _, a := range call.Call.Args {
		if isTextType(a.Type()) {
			if _, ok := s.distance(s.textOf(e, a), konst(0)); ok {
				return true
			}
			if t := s.textOf(e, a); t != nil && (t.root == s.doc || s.c.n.sameVal(t.root, s.doc)) {
				return true
			}
		}
	}
	return false
}

func (s *streamStart) enter(e *streamEnv, call *ssa.Call, t *ssa.Function) *streamEnv {
	g := &streamEnv{num: map[ssa.Value]lin{}, text: map[ssa.Value]*streamText{}, flag: map[ssa.Value]bool{}, d: e.d}
	for i, a := range call.Call.Args {
		if i >= len(t.Params) {
			break
		}
		switch {
		case isIntType(a.Type()):
			g.num[t.Params[i]] = s.lin(e, a)
		case isTextType(a.Type()):
			if x := s.textOf(e, a); x != nil {
				g.text[t.Params[i]] = x
			}
		default:
			if b, ok := s.cond(e, a); ok {
				g.flag[t.Params[i]] = b
			}
		}
	}
	return g
}

func (s *streamStart) walk(b *ssa.BasicBlock, i int, e *streamEnv) {
	s.run(b, i+1, nil, e, nil)
}

// run follows all ways from a place on.
func (s *streamStart) run(b *ssa.BasicBlock, i int, from *ssa.BasicBlock, e *streamEnv, ret func(*ssa.Return, *streamEnv)) {
	type state struct {
		b    *ssa.BasicBlock
		i    int
		from *ssa.BasicBlock
		e    *streamEnv
	}
	work := []state{{b, i, from, e}}
	for len(work) > 0 && s.steps < 20000 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		s.steps++
		e := st.e
		if st.from != nil {
			e = s.enterBlock(e, st.from, st.b)
			key := strconv.Itoa(st.b.Index) + "/" + st.b.Parent().Name() + ":" + e.key()
			if s.seen[key] {
				continue
			}
			s.seen[key] = true
		}
		for _, ins := range st.b.Instrs[st.i:] {
			switch x := ins.(type) {
			case *ssa.Store:
				s.check(e, x, x.Val)
			case *ssa.Call:
				if !looksOnly(x) {
					for _, a := range x.Call.Args {
						s.check(e, x, a)
					}
				}
				if ts := s.c.p.Callees(x); len(ts) == 1 && s.c.p.inMod[ts[0]] && len(ts[0].Blocks) > 0 && s.depth < 2 && s.handed(e, x) && s.near(e, x) {
					s.depth++
					s.run(ts[0].Blocks[0], 0, nil, s.enter(e, x, ts[0]), nil)
					s.depth--
				}
			case *ssa.Return:
				for _, v := range x.Results {
					if s.depth == 0 {
						s.check(e, x, v)
					}
				}
				if ret != nil {
					ret(x, e)
				}
			}
		}
		switch br := st.b.Instrs[len(st.b.Instrs)-1].(type) {
		case *ssa.If:
			v, ok := s.cond(e, br.Cond)
			if !ok && s.unsure(e, br.Cond) {
				continue // a byte behind the keyword is looked at in a way that is not followed
			}
			if !ok || v {
				work = append(work, state{st.b.Succs[0], 0, st.b, e})
			}
			if !ok || !v {
				work = append(work, state{st.b.Succs[1], 0, st.b, e})
			}
		case *ssa.Jump:
			work = append(work, state{st.b.Succs[0], 0, st.b, e})
		}
	}
}

// near: a helper receives a position behind the keyword
func (s *streamStart) near(e *streamEnv, call *ssa.Call) bool {
	for _, a := range call.Call.Args {
		if isIntType(a.Type()) && !isConst(a) {
			if s.close(s.lin(e, a), a) {
				return true
			}
		}
		if isTextType(a.Type()) {
			if k, ok := s.distance(s.textOf(e, a), konst(0)); ok && k >= 0 {
				return true
			}
		}
	}
	return false
}

func (s *streamStart) enterBlock(e *streamEnv, from, b *ssa.BasicBlock) *streamEnv {
	k := -1
	for i, p := range b.Preds {
		if p == from {
			k = i
		}
	}
	g := &streamEnv{num: map[ssa.Value]lin{}, text: map[ssa.Value]*streamText{}, flag: map[ssa.Value]bool{}}
	for v, l := range e.num {
		g.num[v] = l
	}
	for v, t := range e.text {
		g.text[v] = t
	}
	for v, f := range e.flag {
		g.flag[v] = f
	}
	for _, ins := range b.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ed := ph.Edges[k]
		delete(g.num, ph)
		delete(g.text, ph)
		delete(g.flag, ph)
		switch {
		case isIntType(ph.Type()):
			l := s.lin(e, ed)
			if len(l.t) == 0 && l.c >= -1 && l.c <= 12 || s.close(l, ph) {
				g.num[ph] = l
			}
		case isTextType(ph.Type()):
			if t := s.textOf(e, ed); t != nil && t.root != ph {
				g.text[ph] = t
			}
		default:
			if f, ok := s.cond(e, ed); ok {
				g.flag[ph] = f
			}
		}
	}
	return g
}

// close: a position near the keyword, not counted from the variable that is to hold it
func (s *streamStart) close(l lin, ph ssa.Value) bool {
	for a := range l.t {
		if a.v == ph {
			return false
		}
	}
	return l.t[s.base] == 1 && len(l.t) <= 5 && l.c > -64 && l.c < 64
}

// check compares where data that is used begins with where it should.
func (s *streamStart) check(e *streamEnv, ins ssa.Instruction, v ssa.Value) {
	if !isTextType(v.Type()) {
		return
	}
	t := s.textOf(e, v)
	if t == nil || t.cut == nil {
		return
	}
	k, ok := s.distance(t, konst(0))
	if !ok || k < 0 || k > int64(len(s.tail)) {
		return // a part of the data
	}
	s.checks++
	if k != s.eol {
		s.bad[t.cut] = k - s.eol
	}
}

// looksOnly: the call does not use the data as such, or reads it by zlib, whose data does not begin with white space
func looksOnly(x *ssa.Call) bool {
	name := calleeFullName(x)
	switch {
	case name == "bytes.NewReader", name == "bytes.NewBuffer", name == "strings.NewReader":
		for _, ref := range *x.Referrers() {
			if _, ok := ref.(*ssa.DebugRef); ok {
				continue
			}
			mi, ok := ref.(*ssa.MakeInterface)
			if !ok {
				return false
			}
			for _, r := range *mi.Referrers() {
				if _, ok := r.(*ssa.DebugRef); ok {
					continue
				}
				if c, ok := r.(*ssa.Call); !ok || !strings.HasPrefix(calleeFullName(c), "compress/") {
					return false
				}
			}
		}
		return true
	case strings.HasPrefix(name, "bytes."), strings.HasPrefix(name, "strings."), strings.HasPrefix(name, "(*regexp."), strings.HasPrefix(name, "fmt."), strings.HasPrefix(name, "log."):
		return true
	}
	return name == "builtin.len"
}
