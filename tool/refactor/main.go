// refactor applies behaviour-preserving rewrites to a copy of the repository, to test that the checks
// stay quiet on them. It edits the files in place: never point it at /repo.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	from, to int
	text     string
}

type file struct {
	name  string
	src   []byte
	edits []edit
}

func main() {
	repo := flag.String("repo", "", "copy of the repository")
	mode := flag.String("mode", "", "maprange, indexloop, noop, swapcmp, invertif, wrap, tempret, elsereturn, closure, switchif, localbool")
	only := flag.String("only", "", "restrict to files containing this text")
	flag.Parse()
	if *repo == "" || strings.TrimRight(*repo, "/") == "/repo" {
		fmt.Println("needs a scratch copy")
		os.Exit(2)
	}
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: *repo}
	pkgs, err := packages.Load(cfg, "./core/...", "./content/...", "./forms/...", "./resources/...", "./types/...", ".", "./internal/...")
	if err != nil {
		panic(err)
	}
	n := 0
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			if *only != "" && !strings.Contains(name, *only) {
				continue
			}
			src, _ := os.ReadFile(name)
			fl := &file{name: name, src: src}
			off := func(pos token.Pos) int { return p.Fset.Position(pos).Offset }
			txt := func(nd ast.Node) string { return string(src[off(nd.Pos()):off(nd.End())]) }
			rewrite(*mode, p, f, fl, off, txt)
			if len(fl.edits) == 0 {
				continue
			}
			n += len(fl.edits)
			out := fl.apply()
			if fm, err := format.Source(out); err == nil {
				out = fm
			} else {
				fmt.Println(name, err)
			}
			os.WriteFile(name, out, 0o644)
		}
	}
	fmt.Println(*mode, n, "edits")
}

func (f *file) apply() []byte {
	sort.SliceStable(f.edits, func(i, j int) bool { return f.edits[i].from < f.edits[j].from })
	var b bytes.Buffer
	last := 0
	for _, e := range f.edits {
		if e.from < last {
			continue // nested: skip
		}
		b.Write(f.src[last:e.from])
		b.WriteString(e.text)
		last = e.to
	}
	b.Write(f.src[last:])
	return b.Bytes()
}

func rewrite(mode string, p *packages.Package, f *ast.File, fl *file, off func(token.Pos) int, txt func(ast.Node) string) {
	add := func(from, to int, s string) { fl.edits = append(fl.edits, edit{from, to, s}) }
	info := p.TypesInfo
	uniq := 0
	switch mode {
	case "maprange":
		ast.Inspect(f, func(n ast.Node) bool {
			r, ok := n.(*ast.RangeStmt)
			if !ok || r.Value == nil || r.Tok != token.DEFINE {
				return true
			}
			if _, ok := info.TypeOf(r.X).Underlying().(*types.Map); !ok {
				return true
			}
			k := txt(r.Key)
			v := txt(r.Value)
			if v == "_" {
				return true
			}
			if k == "_" {
				k = "kk"
			}
			switch r.X.(type) {
			case *ast.Ident, *ast.SelectorExpr:
			default:
				return true
			}
			add(off(r.Pos()), off(r.Body.Lbrace)+1, fmt.Sprintf("for %s := range %s {\n%s := %s[%s]\n", k, txt(r.X), v, txt(r.X), k))
			return true
		})
	case "indexloop":
		ast.Inspect(f, func(n ast.Node) bool {
			r, ok := n.(*ast.RangeStmt)
			if !ok || r.Value == nil || r.Tok != token.DEFINE {
				return true
			}
			if _, ok := info.TypeOf(r.X).Underlying().(*types.Slice); !ok {
				return true
			}
			id, ok := r.X.(*ast.Ident)
			if !ok || assigned(r.Body, info.ObjectOf(id), info) {
				return true
			}
			k, v := txt(r.Key), txt(r.Value)
			if k == "_" {
				uniq++
				k = fmt.Sprintf("idx%d", uniq)
			} else if ko, ok := r.Key.(*ast.Ident); ok && assigned(r.Body, info.ObjectOf(ko), info) {
				return true
			}
			if v == "_" {
				return true
			}
			add(off(r.Pos()), off(r.Body.Lbrace)+1, fmt.Sprintf("for %s := 0; %s < len(%s); %s++ {\n%s := %s[%s]\n", k, k, id.Name, k, v, id.Name, k))
			return true
		})
	case "noop":
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				add(off(fd.Body.Lbrace)+1, off(fd.Body.Lbrace)+1, "\n_ = 0\n")
			}
		}
	case "swapcmp":
		ast.Inspect(f, func(n ast.Node) bool {
			b, ok := n.(*ast.BinaryExpr)
			if !ok {
				return true
			}
			op := map[token.Token]string{token.EQL: "==", token.NEQ: "!=", token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<="}[b.Op]
			if op == "" || pureness(b.X) || pureness(b.Y) {
				return true
			}
			if id, ok := b.X.(*ast.Ident); ok && id.Name == "nil" {
				return true
			}
			add(off(b.Pos()), off(b.End()), fmt.Sprintf("%s %s %s", txt(b.Y), op, txt(b.X)))
			return false
		})
	case "invertif":
		ast.Inspect(f, func(n ast.Node) bool {
			i, ok := n.(*ast.IfStmt)
			if !ok || i.Else == nil {
				return true
			}
			e, ok := i.Else.(*ast.BlockStmt)
			if !ok {
				return true
			}
			add(off(i.Cond.Pos()), off(i.End()), fmt.Sprintf("!(%s) %s else %s", txt(i.Cond), txt(e), txt(i.Body)))
			return false
		})
	case "wrap": // f(...) { body } becomes f(...) { return fInner(...) }; fInner(...) { body }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Type.TypeParams != nil || fd.Name.Name == "init" || fd.Name.Name == "main" || fd.Name.Name == "_" {
				continue
			}
			if len(fd.Body.List) < 3 {
				continue
			}
			var args []string
			good := true
			if fd.Type.Params != nil {
				for _, fld := range fd.Type.Params.List {
					if len(fld.Names) == 0 {
						good = false
					}
					for _, nm := range fld.Names {
						if nm.Name == "_" {
							good = false
						}
						if _, v := fld.Type.(*ast.Ellipsis); v {
							args = append(args, nm.Name+"...")
						} else {
							args = append(args, nm.Name)
						}
					}
				}
			}
			if !good || fd.Recv != nil && len(fd.Recv.List[0].Names) == 0 {
				continue
			}
			inner := strings.ToLower(fd.Name.Name[:1]) + fd.Name.Name[1:] + "Inner"
			call := inner + "(" + strings.Join(args, ", ") + ")"
			recv := ""
			if fd.Recv != nil {
				call = fd.Recv.List[0].Names[0].Name + "." + call
				recv = txt(fd.Recv) + " "
			}
			if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
				call = "return " + call
			}
			sig := string(fl.src[off(fd.Name.End()):off(fd.Body.Lbrace)])
			add(off(fd.Body.Lbrace), off(fd.Body.Lbrace)+1, "{\n"+call+"\n}\n\nfunc "+recv+inner+sig+"{")
		}
	case "tempret": // return a, f(x) becomes r0, r1 := a, f(x); return r0, r1
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.FuncLit); ok {
				return false
			}
			r, ok := n.(*ast.ReturnStmt)
			if !ok || len(r.Results) != 1 {
				return true
			}
			tv := info.TypeOf(r.Results[0])
			if _, ok := tv.(*types.Tuple); ok {
				return true
			}
			call, ok := r.Results[0].(*ast.CallExpr)
			if !ok {
				return true
			}
			add(off(r.Pos()), off(r.End()), "{ result0 := "+txt(call)+"\nreturn result0 }")
			return true
		})
	case "elsereturn": // if c { ...return }; rest   becomes   if c { ...return } else { rest } at the end of a function without named results
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || len(fd.Body.List) < 2 || hasLabels(fd) {
				continue
			}
			l := fd.Body.List
			for i := 0; i < len(l)-1; i++ {
				is, ok := l[i].(*ast.IfStmt)
				if !ok || is.Else != nil || !terminates(is.Body) {
					continue
				}
				if _, ok := l[len(l)-1].(*ast.ReturnStmt); !ok {
					break
				}
				add(off(is.End()), off(is.End()), " else {")
				add(off(fd.Body.Rbrace), off(fd.Body.Rbrace), "}\n")
				break
			}
		}
	case "localbool": // if cond { becomes c0 := cond; if c0 {
		ast.Inspect(f, func(n ast.Node) bool {
			bl, ok := n.(*ast.BlockStmt)
			if !ok {
				return true
			}
			for _, s := range bl.List {
				i, ok := s.(*ast.IfStmt)
				if !ok || i.Init != nil {
					continue
				}
				b, ok := i.Cond.(*ast.BinaryExpr)
				if !ok {
					continue
				}
				uniq++
				nm := fmt.Sprintf("cond%d", uniq)
				add(off(i.Pos()), off(i.Pos()), fmt.Sprintf("%s := %s\n", nm, txt(b)))
				add(off(b.Pos()), off(b.End()), nm)
			}
			return true
		})
	case "splitand": // if a && b { X }  (no else) becomes if a { if b { X } }
		ast.Inspect(f, func(n ast.Node) bool {
			i, ok := n.(*ast.IfStmt)
			if !ok || i.Else != nil || i.Init != nil {
				return true
			}
			b, ok := i.Cond.(*ast.BinaryExpr)
			if !ok || b.Op != token.LAND {
				return true
			}
			add(off(i.Cond.Pos()), off(i.Body.Lbrace)+1, fmt.Sprintf("%s {\nif %s {", txt(b.X), txt(b.Y)))
			add(off(i.Body.Rbrace), off(i.Body.Rbrace), "}\n")
			return true
		})
	case "hoisterr": // if err := f(); err != nil { becomes err := f() in a block
		ast.Inspect(f, func(n ast.Node) bool {
			bl, ok := n.(*ast.BlockStmt)
			if !ok {
				return true
			}
			for _, s := range bl.List {
				i, ok := s.(*ast.IfStmt)
				if !ok || i.Init == nil {
					continue
				}
				add(off(i.Pos()), off(i.Cond.Pos()), "{\n"+txt(i.Init)+"\nif ")
				add(off(i.End()), off(i.End()), "\n}")
			}
			return true
		})
	case "closure": // the body of functions without results becomes a local closure called at once
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Type.Results == nil || len(fd.Body.List) < 4 {
				continue
			}
			named := false
			for _, r := range fd.Type.Results.List {
				if len(r.Names) > 0 {
					named = true
				}
			}
			if named || usesDefer(fd.Body) {
				continue
			}
			add(off(fd.Body.Lbrace)+1, off(fd.Body.Lbrace)+1, "\nreturn func() "+txt(fd.Type.Results)+" {")
			add(off(fd.Body.Rbrace), off(fd.Body.Rbrace), "}()\n")
		}
	}
}

func usesDefer(n ast.Node) bool {
	d := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.DeferStmt:
			d = true
		}
		return true
	})
	return d
}

func hasLabels(fd *ast.FuncDecl) bool {
	h := false
	ast.Inspect(fd, func(n ast.Node) bool {
		if _, ok := n.(*ast.LabeledStmt); ok {
			h = true
		}
		return true
	})
	return h
}

func terminates(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	_, ok := b.List[len(b.List)-1].(*ast.ReturnStmt)
	return ok
}

func pureness(e ast.Expr) bool { // true when the expression has calls other than len
	bad := false
	ast.Inspect(e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "len" {
				bad = true
			}
		}
		if b, ok := n.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
			bad = true
		}
		return true
	})
	return bad
}

func assigned(n ast.Node, obj types.Object, info *types.Info) bool {
	hit := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if id, ok := l.(*ast.Ident); ok && info.ObjectOf(id) == obj {
					hit = true
				}
			}
		case *ast.IncDecStmt:
			if id, ok := x.X.(*ast.Ident); ok && info.ObjectOf(id) == obj {
				hit = true
			}
		case *ast.UnaryExpr:
			if id, ok := x.X.(*ast.Ident); ok && x.Op == token.AND && info.ObjectOf(id) == obj {
				hit = true
			}
		}
		return true
	})
	return hit
}
