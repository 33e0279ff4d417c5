// mutate lists or applies small syntactic mutations of a Go file.
//
//	mutate list FILE          one line per mutation: index, line, kind, old => new
//	mutate apply FILE INDEX   the mutated file on standard output
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	from, to int
	line     int
	kind     string
	text     string
}

func main() {
	src, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	ms := collect(os.Args[2], src)
	switch os.Args[1] {
	case "list":
		for i, m := range ms {
			fmt.Printf("%d\t%d\t%s\t%s => %s\n", i, m.line, m.kind, flat(string(src[m.from:m.to])), flat(m.text))
		}
	case "apply":
		i, _ := strconv.Atoi(os.Args[3])
		m := ms[i]
		os.Stdout.Write(src[:m.from])
		os.Stdout.WriteString(m.text)
		os.Stdout.Write(src[m.to:])
	}
}

func flat(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
	token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

func collect(name string, src []byte) []mut {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var out []mut
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(n ast.Node, kind, text string) {
		out = append(out, mut{off(n.Pos()), off(n.End()), fs.Position(n.Pos()).Line, kind, text})
	}
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	inFunc := false
	var results []*ast.FieldList
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			inFunc = true
			results = append(results, x.Type.Results)
			if x.Body != nil {
				ast.Inspect(x.Body, visit)
			}
			results = results[:len(results)-1]
			inFunc = false
			return false
		case *ast.FuncLit:
			results = append(results, x.Type.Results)
			ast.Inspect(x.Body, visit)
			results = results[:len(results)-1]
			return false
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			for _, s := range swaps[x.Op] {
				o := off(x.OpPos)
				out = append(out, mut{o, o + len(x.Op.String()), fs.Position(x.OpPos).Line, "op", s})
			}
			if (x.Op == token.LAND || x.Op == token.LOR) && inFunc {
				add(x, "drop-right", txt(x.X))
				add(x, "drop-left", txt(x.Y))
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x, "not", txt(x.X))
			}
			if x.Op == token.SUB {
				add(x, "neg", txt(x.X))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				add(x, "const", txt(x)+"+1")
				if txt(x) != "0" {
					add(x, "const", txt(x)+"-1")
				}
			}
			if x.Kind == token.STRING && inFunc && len(x.Value) > 2 {
				add(x, "string", strconv.Quote("")+"")
			}
		case *ast.Ident:
			if inFunc && x.Name == "true" {
				add(x, "bool", "false")
			}
			if inFunc && x.Name == "false" {
				add(x, "bool", "true")
			}
		case *ast.IfStmt:
			if _, ok := x.Cond.(*ast.BinaryExpr); !ok || true {
				add(x.Cond, "if-true", "("+txt(x.Cond)+") || true")
				add(x.Cond, "if-false", "("+txt(x.Cond)+") && false")
			}
		case *ast.ForStmt:
			if x.Body != nil {
				// once
				o := off(x.Body.Rbrace)
				out = append(out, mut{o, o, fs.Position(x.Body.Rbrace).Line, "loop-once", "\nbreak\n"})
			}
		case *ast.RangeStmt:
			o := off(x.Body.Rbrace)
			out = append(out, mut{o, o, fs.Position(x.Body.Rbrace).Line, "loop-once", "\nbreak\n"})
		case *ast.AssignStmt:
			if x.Tok == token.ASSIGN {
				var l []string
				for range x.Rhs {
					l = append(l, "_")
				}
				if len(x.Lhs) == len(x.Rhs) {
					var r []string
					for i := range x.Rhs {
						r = append(r, txt(x.Rhs[i]))
					}
					add(x, "no-assign", strings.Join(l, ", ")+" = "+strings.Join(r, ", "))
				}
			}
			if x.Tok == token.ADD_ASSIGN || x.Tok == token.SUB_ASSIGN {
				add(x, "no-assign", "_ = "+txt(x.Rhs[0]))
				o := off(x.TokPos)
				out = append(out, mut{o, o + 2, fs.Position(x.TokPos).Line, "assign-op", map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+="}[x.Tok]})
				out = append(out, mut{o, o + 2, fs.Position(x.TokPos).Line, "assign-op", "="})
			}
		case *ast.IncDecStmt:
			add(x, "incdec", map[token.Token]string{token.INC: txt(x.X) + "--", token.DEC: txt(x.X) + "++"}[x.Tok])
			add(x, "incdec", "_ = "+txt(x.X))
		case *ast.ExprStmt:
			if _, ok := x.X.(*ast.CallExpr); ok {
				add(x, "no-call", "")
			}
		case *ast.DeferStmt:
			add(x, "no-defer", "")
		case *ast.SendStmt:
			add(x, "no-send", "")
		case *ast.GoStmt:
			add(x, "no-go", "func(){}()")
			add(x, "sync-go", txt(x.Call))
		case *ast.BranchStmt:
			if x.Label == nil {
				switch x.Tok {
				case token.BREAK:
					add(x, "branch", "continue")
				case token.CONTINUE:
					add(x, "branch", "break")
				}
			}
		case *ast.ReturnStmt:
			if len(x.Results) > 0 {
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						add(r, "nil-err", "nil")
					}
				}
			} else if len(results) > 0 && results[len(results)-1] == nil {
				add(x, "no-return", "")
			}
		case *ast.CaseClause, *ast.CommClause:
			var body []ast.Stmt
			if c, ok := x.(*ast.CaseClause); ok {
				body = c.Body
			} else {
				body = x.(*ast.CommClause).Body
			}
			if len(body) > 0 {
				var b bytes.Buffer
				a, z := off(body[0].Pos()), off(body[len(body)-1].End())
				out = append(out, mut{a, z, fs.Position(body[0].Pos()).Line, "empty-case", b.String()})
			}
		}
		return true
	}
	ast.Inspect(f, visit)
	return out
}
