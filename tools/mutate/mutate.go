// mutate FILE            lists the mutation sites of a Go file, one per line: index, line, operator, old -> new
// mutate FILE INDEX OUT  writes the file with that one mutation
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type site struct {
	from, to int
	op, text string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var sites []site
	add := func(n ast.Node, op, t string) { sites = append(sites, site{off(n.Pos()), off(n.End()), op, t}) }
	swap := map[token.Token]token.Token{token.LSS: token.LEQ, token.LEQ: token.LSS, token.GTR: token.GEQ, token.GEQ: token.GTR,
		token.EQL: token.NEQ, token.NEQ: token.EQL, token.ADD: token.SUB, token.SUB: token.ADD}
	quiet := func(n ast.Node) bool { // reports and prints
		s := text(n)
		for _, w := range []string{"fmt.Print", "log.", "fmt.Errorf", "panic(", "PanicOnError", "PanicIf"} {
			if strings.HasPrefix(s, w) {
				return true
			}
		}
		return false
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.IfStmt:
			add(x.Cond, "negate", "!("+text(x.Cond)+")")
			add(x.Cond, "true", "true || ("+text(x.Cond)+")")
			add(x.Cond, "false", "false && ("+text(x.Cond)+")")
		case *ast.BinaryExpr:
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x, "left", text(x.X))
				add(x, "right", text(x.Y))
			} else if o, ok := swap[x.Op]; ok {
				if _, lit := x.Y.(*ast.BasicLit); x.Op == token.ADD && (lit && x.Y.(*ast.BasicLit).Kind == token.STRING || strings.Contains(text(x), "\"")) {
					break
				}
				add(x, "op", text(x.X)+" "+o.String()+" "+text(x.Y))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if i, err := strconv.Atoi(x.Value); err == nil {
					add(x, "int", strconv.Itoa(i+1))
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x, "bool", "false")
			} else if x.Name == "false" {
				add(x, "bool", "true")
			}
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.CONTINUE {
				add(x, "branch", "break")
			} else if x.Label == nil && x.Tok == token.BREAK {
				add(x, "branch", "continue")
			}
		case *ast.BlockStmt:
			for _, s := range x.List {
				switch y := s.(type) {
				case *ast.ExprStmt:
					if !quiet(s) {
						add(s, "drop", "")
					}
				case *ast.AssignStmt:
					if y.Tok != token.DEFINE {
						add(s, "drop", "")
					}
				case *ast.IncDecStmt:
					add(s, "drop", "")
				case *ast.ReturnStmt:
					if len(y.Results) == 0 {
						add(s, "drop", "")
					}
				case *ast.BranchStmt:
					add(s, "drop", "")
				case *ast.ForStmt, *ast.RangeStmt:
					add(s, "drop", "")
				}
			}
		}
		return true
	})
	if len(os.Args) == 2 {
		for i, s := range sites {
			line := 1 + strings.Count(string(src[:s.from]), "\n")
			old := string(src[s.from:s.to])
			if j := strings.IndexByte(old, '\n'); j >= 0 {
				old = old[:j] + "..."
			}
			t := s.text
			if j := strings.IndexByte(t, '\n'); j >= 0 {
				t = t[:j] + "..."
			}
			fmt.Printf("%d\t%d\t%s\t%s -> %s\n", i, line, s.op, old, t)
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	s := sites[k]
	out := string(src[:s.from]) + s.text + string(src[s.to:])
	if err := os.WriteFile(os.Args[3], []byte(out), 0644); err != nil {
		panic(err)
	}
}
