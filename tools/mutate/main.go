// mutate lists or makes small changes of the Go files in a directory.
//
//	mutate DIR            one line per possible change: N FILE LINE FUNC WHAT
//	mutate DIR N          makes change N in place
//
// A development aid for finding what the checks miss.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type change struct {
	file     string
	line     int
	fn, what string
	off, end int
	text     string
}

func main() {
	dir := os.Args[1]
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(names)
	var all []change
	for _, n := range names {
		b := filepath.Base(n)
		if strings.HasSuffix(b, "_test.go") || b == "doc.go" || b == "tlsnames.go" {
			continue
		}
		src, err := os.ReadFile(n)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, n, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "String" || fd.Name.Name == "usage" {
				continue
			}
			add := func(from, to token.Pos, text, what string) {
				p := fset.Position(from)
				all = append(all, change{n, p.Line, fd.Name.Name, what, p.Offset, fset.Position(to).Offset, text})
			}
			get := func(x ast.Node) string {
				return string(src[fset.Position(x.Pos()).Offset:fset.Position(x.End()).Offset])
			}
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				switch v := x.(type) {
				case *ast.IfStmt:
					add(v.Cond.Pos(), v.Cond.End(), "!("+get(v.Cond)+")", "negate "+get(v.Cond))
				case *ast.BinaryExpr:
					alt := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+"}[v.Op]
					if alt != "" {
						add(v.OpPos, v.OpPos+token.Pos(len(v.Op.String())), alt, get(v)+" with "+alt)
					}
					if v.Op == token.LAND || v.Op == token.LOR {
						add(v.Pos(), v.End(), get(v.X), get(v)+" left only")
						add(v.Pos(), v.End(), get(v.Y), get(v)+" right only")
					}
				case *ast.BasicLit:
					if v.Kind == token.INT && !strings.HasPrefix(v.Value, "0x") {
						i, _ := strconv.Atoi(v.Value)
						add(v.Pos(), v.End(), strconv.Itoa(i+1), v.Value+" plus 1")
					}
				case *ast.Ident:
					if v.Name == "true" {
						add(v.Pos(), v.End(), "false", "true to false")
					} else if v.Name == "false" {
						add(v.Pos(), v.End(), "true", "false to true")
					}
				case *ast.BlockStmt:
					for _, s := range v.List {
						del(s, add, get)
					}
				case *ast.CaseClause:
					for _, s := range v.Body {
						del(s, add, get)
					}
				}
				return true
			})
		}
	}
	if len(os.Args) == 2 {
		for i, c := range all {
			fmt.Printf("%d %s %d %s %s\n", i, filepath.Base(c.file), c.line, c.fn, strings.Join(strings.Fields(c.what), " "))
		}
		return
	}
	i, _ := strconv.Atoi(os.Args[2])
	c := all[i]
	src, _ := os.ReadFile(c.file)
	out := string(src[:c.off]) + c.text + string(src[c.end:])
	if err := os.WriteFile(c.file, []byte(out), 0666); err != nil {
		panic(err)
	}
	fmt.Printf("%s:%d %s: %s\n", filepath.Base(c.file), c.line, c.fn, strings.Join(strings.Fields(c.what), " "))
}

func del(s ast.Stmt, add func(from, to token.Pos, text, what string), get func(ast.Node) string) {
	switch v := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
		add(s.Pos(), s.End(), "", "delete "+get(s))
	case *ast.AssignStmt:
		if v.Tok != token.DEFINE {
			l := ""
			for _, x := range v.Rhs {
				l += "; _ = " + get(x)
			}
			add(s.Pos(), s.End(), strings.TrimPrefix(l, "; "), "drop "+get(s))
		}
	case *ast.BranchStmt:
		if v.Tok != token.FALLTHROUGH && v.Label == nil {
			add(s.Pos(), s.End(), "", "delete "+get(s))
		}
	case *ast.ReturnStmt:
		if len(v.Results) == 0 {
			add(s.Pos(), s.End(), "", "delete return")
		}
	case *ast.IfStmt:
		add(s.Pos(), s.End(), "", "delete "+get(s))
	}
}
