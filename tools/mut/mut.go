// Command mut lists or applies small syntactic changes of one Go file:
// mut list FILE; mut apply FILE N (writes the changed file to stdout).
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	from, to int
	text     string
	desc     string
}

func main() {
	src, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[2], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var out []edit
	add := func(n ast.Node, text, desc string) {
		out = append(out, edit{off(n.Pos()), off(n.End()), text, fmt.Sprintf("%d: %s", fs.Position(n.Pos()).Line, desc)})
	}
	isLog := func(s string) bool {
		for _, p := range []string{"le.", "c.le.", "log.", "r.le."} {
			if len(s) > len(p) && s[:len(p)] == p {
				return true
			}
		}
		return false
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.GenDecl:
			if s.Tok == token.IMPORT {
				return false
			}
		case *ast.BlockStmt:
			for i := 0; i+1 < len(s.List); i++ {
				a, b := s.List[i], s.List[i+1]
				_, ae := a.(*ast.ExprStmt)
				aa, aok := a.(*ast.AssignStmt)
				_, be := b.(*ast.ExprStmt)
				ba, bok := b.(*ast.AssignStmt)
				if (ae || aok && aa.Tok != token.DEFINE) && (be || bok && ba.Tok != token.DEFINE) {
					add(&node{a.Pos(), b.End()}, txt(b)+"\n"+txt(a), "swap "+short(txt(a))+" <-> "+short(txt(b)))
				}
			}
		case *ast.ExprStmt:
			if !isLog(txt(s)) {
				add(s, "", "delete "+short(txt(s)))
			}
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				add(s, "", "delete "+short(txt(s)))
			}
		case *ast.IncDecStmt, *ast.SendStmt:
			add(s, "", "delete "+short(txt(s)))
		case *ast.DeferStmt:
			add(s, "", "delete "+short(txt(s)))
			add(s, txt(s.Call), "undefer "+short(txt(s)))
		case *ast.GoStmt:
			add(s, txt(s.Call), "ungo "+short(txt(s)))
		case *ast.IfStmt:
			c := txt(s.Cond)
			add(s.Cond, "!("+c+")", "negate "+short(c))
			add(s.Cond, "("+c+") && false", "never "+short(c))
			add(s.Cond, "("+c+") || true", "always "+short(c))
		case *ast.ForStmt:
			if s.Cond != nil {
				c := txt(s.Cond)
				add(s.Cond, "("+c+") && false", "never loop "+short(c))
			}
		case *ast.BinaryExpr:
			m := map[token.Token]string{token.LAND: "||", token.LOR: "&&", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.ADD: "-", token.SUB: "+"}
			if r, ok := m[s.Op]; ok {
				if b, ok := s.X.(*ast.BasicLit); ok && b.Kind == token.STRING {
					return true
				}
				add(s, txt(s.X)+" "+r+" "+txt(s.Y), s.Op.String()+" -> "+r+" in "+short(txt(s)))
			}
			if s.Op == token.LAND || s.Op == token.LOR {
				add(s, txt(s.X), "drop right of "+short(txt(s)))
				add(s, txt(s.Y), "drop left of "+short(txt(s)))
			}
		case *ast.BranchStmt:
			if s.Label == nil {
				switch s.Tok {
				case token.BREAK:
					add(s, "continue", "break -> continue")
				case token.CONTINUE:
					add(s, "break", "continue -> break")
				}
				add(s, "", "delete "+s.Tok.String())
			}
		case *ast.ReturnStmt:
			if len(s.Results) == 0 {
				add(s, "", "delete return")
			}
			for _, r := range s.Results {
				if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
					add(r, "nil", "return nil for err")
				}
			}
		case *ast.Ident:
			if s.Name == "true" {
				add(s, "false", "true -> false")
			} else if s.Name == "false" {
				add(s, "true", "false -> true")
			}
		case *ast.BasicLit:
			if s.Kind == token.INT {
				v, err := strconv.Atoi(s.Value)
				if err == nil {
					add(s, strconv.Itoa(v+1), s.Value+" -> +1")
				}
			}
		case *ast.CaseClause:
			if len(s.Body) > 0 && s.List != nil {
				add(&node{s.Body[0].Pos(), s.Body[len(s.Body)-1].End()}, "", "empty case")
			}
		}
		return true
	})
	if os.Args[1] == "list" {
		for i, e := range out {
			fmt.Printf("%d\t%s\n", i, e.desc)
		}
		return
	}
	i, _ := strconv.Atoi(os.Args[3])
	e := out[i]
	os.Stdout.Write(src[:e.from])
	os.Stdout.WriteString(e.text)
	os.Stdout.Write(src[e.to:])
}

type node struct{ a, b token.Pos }

func (n *node) Pos() token.Pos { return n.a }
func (n *node) End() token.Pos { return n.b }

func short(s string) string {
	o := []rune{}
	for _, r := range s {
		if r == '\n' || r == '\t' {
			r = ' '
		}
		o = append(o, r)
	}
	if len(o) > 70 {
		o = o[:70]
	}
	return string(o)
}
