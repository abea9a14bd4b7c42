// mutate lists small changes to Go files, one JSON object per line, to look for gaps in the checks.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File, Func, Desc, New string
	Off, Len, Line        int
}

func main() {
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		pos := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			emit := func(from, to token.Pos, repl, desc string) {
				m := mut{f, fd.Name.Name, desc, repl, pos(from), pos(to) - pos(from), fs.Position(from).Line}
				b, _ := json.Marshal(m)
				fmt.Println(string(b))
			}
			text := func(n ast.Node) string { return string(src[pos(n.Pos()):pos(n.End())]) }
			drop := func(s ast.Stmt) {
				switch x := s.(type) {
				case *ast.ExprStmt:
					if len(text(s)) > 4 && text(s)[:4] == "log." {
						return
					}
					emit(s.Pos(), s.End(), "", "drop "+text(s))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), blank(x, text), "drop "+text(s))
					}
				case *ast.IncDecStmt:
					emit(s.Pos(), s.End(), "", "drop "+text(s))
				case *ast.BranchStmt:
					emit(s.Pos(), s.End(), "", "drop "+text(s))
				case *ast.IfStmt:
					if x.Else == nil && x.Init == nil {
						emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "never "+text(x.Cond))
					}
				case *ast.DeferStmt:
					emit(s.Pos(), s.End(), "", "drop "+text(s))
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					for _, s := range x.List {
						drop(s)
					}
				case *ast.CaseClause:
					for _, s := range x.Body {
						drop(s)
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate "+text(x.Cond))
					if x.Else == nil && x.Init == nil {
						emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "always "+text(x.Cond))
					}
				case *ast.BinaryExpr:
					for _, r := range swaps[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, text(x)+" -> "+r)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), x.End(), text(x.X), text(x)+" -> left")
						emit(x.Pos(), x.End(), text(x.Y), text(x)+" -> right")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" -> +1")
							if v > 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -> -1")
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" || x.Name == "false" {
						emit(x.Pos(), x.End(), map[string]string{"true": "false", "false": "true"}[x.Name], "flip "+x.Name)
					}
				case *ast.ReturnStmt:
					if k := len(x.Results); k > 0 && text(x.Results[k-1]) == "err" {
						emit(x.Results[k-1].Pos(), x.Results[k-1].End(), "nil", "return nil instead of err")
					}
				case *ast.RangeStmt:
					// only the first element
					emit(x.Body.Rbrace, x.Body.Rbrace, "\nbreak\n", "only the first of "+text(x.X))
				case *ast.SliceExpr:
					if x.Low != nil {
						emit(x.Low.Pos(), x.Low.End(), text(x.Low)+"+1", "low bound +1")
					}
					if x.High != nil {
						emit(x.High.Pos(), x.High.End(), text(x.High)+"-1", "high bound -1")
					}
				}
				return true
			})
		}
	}
}

func blank(x *ast.AssignStmt, text func(ast.Node) string) string {
	// keep what is used on the right used
	s := ""
	for i := range x.Rhs {
		if i > 0 {
			s += "; "
		}
		if len(x.Lhs) > len(x.Rhs) {
			for j := range x.Lhs {
				if j > 0 {
					s += ", "
				}
				s += "_"
			}
			s += " = " + text(x.Rhs[i])
		} else {
			s += "_ = " + text(x.Rhs[i])
		}
	}
	return s
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="},
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.SHR: {"<<"},
}
