// Lists small syntactic changes to the non-test Go files of a tree, one JSON
// object per line: {"file","off","end","repl","line","desc"}. Used by
// sweep.py to look for changes that no check notices.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type mutant struct {
	File      string `json:"file"`
	Off, End  int
	Repl      string
	Line      int
	Desc      string
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") ||
			strings.HasSuffix(p, "_test.go") || strings.Contains(p, "/internal/") {
			return nil
		}
		src, _ := os.ReadFile(p)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, 0)
		if err != nil {
			panic(err)
		}
		seen := map[string]bool{}
		off := func(x token.Pos) int { return fs.Position(x).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b token.Pos, repl, desc string) {
			m := mutant{p, off(a), off(b), repl, fs.Position(a).Line, desc}
			k := fmt.Sprint(m.Off, m.End, m.Repl)
			if !seen[k] {
				seen[k] = true
				enc.Encode(m)
			}
		}
		repl := func(n ast.Node, r, d string) { emit(n.Pos(), n.End(), r, d) }
		delList := func(l []ast.Expr, i int, d string) {
			// removes element i with the comma after it
			end := l[i].End()
			o := off(end)
			for o < len(src) && (src[o] == ' ' || src[o] == '\n' || src[o] == '\t') {
				o++
			}
			if o < len(src) && src[o] == ',' {
				end += token.Pos(o + 1 - off(end))
			} else if i > 0 {
				emit(l[i-1].End(), l[i].End(), "", d)
				return
			}
			emit(l[i].Pos(), end, "", d)
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{
					token.EQL: {"!="}, token.NEQ: {"=="},
					token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"},
					token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
					token.LAND: {"||"}, token.LOR: {"&&"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
				}[x.Op]
				for _, a := range alt {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, "op "+x.Op.String()+" -> "+a)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					repl(x, text(x.X), "drop right operand")
					repl(x, text(x.Y), "drop left operand")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					repl(x, "("+x.Value+"+1)", "int +1")
					repl(x, "("+x.Value+"-1)", "int -1")
				} else if x.Kind == token.STRING && len(x.Value) > 2 && len(x.Value) < 12 {
					repl(x, `""`, "empty string")
				}
			case *ast.UnaryExpr:
				if x.Op == token.SUB || x.Op == token.NOT {
					repl(x, text(x.X), "drop "+x.Op.String())
				}
			case *ast.CallExpr:
				t := text(x.Fun)
				if strings.HasSuffix(t, ".CNFVar") {
					repl(x, "-"+text(x), "negate literal")
				}
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := text(x.Args[i]), text(x.Args[i+1])
					if a != b {
						emit(x.Args[i].Pos(), x.Args[i+1].End(), b+", "+a, "swap arguments")
					}
				}
				if strings.Contains(t, "AppendConsistency") || strings.Contains(t, "AppendSemantics") || t == "append" {
					for i := range x.Args {
						delList(x.Args, i, "drop argument")
					}
				}
			case *ast.CompositeLit:
				for i := range x.Elts {
					delList(x.Elts, i, "drop element "+text(x.Elts[i]))
				}
			case *ast.SelectorExpr:
				swap := map[string][]string{
					"AppendConsistency": {"AppendSemantics"}, "AppendSemantics": {"AppendConsistency"},
					"TrueCNF": {"FalseCNF"}, "FalseCNF": {"TrueCNF"},
					"BOT": {"ZERO", "ONE"}, "ZERO": {"BOT", "ONE"}, "ONE": {"ZERO", "BOT"},
					"ZChild": {"OChild"}, "OChild": {"ZChild"}, "sClauses": {"cClauses"}, "cClauses": {"sClauses"},
					"I1": {"I2"}, "I2": {"I1"}, "I3": {"I2"}, "Q1": {"Q2"}, "Q2": {"Q1"},
				}[x.Sel.Name]
				for _, s := range swap {
					repl(x.Sel, s, x.Sel.Name+" -> "+s)
				}
			case *ast.Ident:
				swap := map[string][]string{
					"sv1": {"sv2"}, "sv2": {"sv1"}, "sc1": {"sc2"}, "sc2": {"sc1"}, "v1": {"v2"}, "v2": {"v1"},
					"sv": {}, "zp": {"op"}, "op": {"zp"}, "pp": {"cp"}, "cp": {"pp"}, "true": {"false"}, "false": {"true"},
					"cnf1": {"cnf2"}, "cnf2": {"cnf1"}, "BOT": {"ZERO"}, "vcd": {}, "i": {"j"}, "j": {"i"},
				}[x.Name]
				for _, s := range swap {
					repl(x, s, x.Name+" -> "+s)
				}
			case *ast.IfStmt:
				repl(x.Cond, "("+text(x.Cond)+") && false", "if never")
				repl(x.Cond, "("+text(x.Cond)+") || true", "if always")
			case *ast.ForStmt:
				if x.Cond != nil {
					repl(x.Cond, "("+text(x.Cond)+") && false", "for never")
				}
			case *ast.BranchStmt:
				if x.Label == nil {
					if x.Tok == token.BREAK {
						repl(x, "continue", "break -> continue")
					} else if x.Tok == token.CONTINUE {
						repl(x, "break", "continue -> break")
					}
				}
			case *ast.ReturnStmt:
				if k := len(x.Results); k > 0 {
					l := x.Results[k-1]
					if id, ok := l.(*ast.Ident); ok && id.Name == "err" {
						repl(l, "nil", "swallow error")
					}
				}
				repl(x, "{}", "drop return")
			case *ast.ExprStmt:
				repl(x, "{}", "drop statement")
			case *ast.IncDecStmt:
				repl(x, "{}", "drop statement")
			case *ast.DeferStmt:
				repl(x, "{}", "drop defer")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					repl(x, "{}", "drop assignment")
				}
			}
			return true
		})
		return nil
	})
}
