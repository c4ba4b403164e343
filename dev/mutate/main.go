// Command mutate lists small syntactic changes of Go files as JSON lines, for the development rig.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	What string `json:"what"`
	Line int    `json:"line"`
	Fn   string `json:"fn"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	root := os.Args[1]
	for _, name := range os.Args[2:] {
		src, err := os.ReadFile(root + "/" + name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			emit := func(from, to int, nw, what string) {
				enc.Encode(mut{name, from, to, nw, what, strings.Count(string(src[:from]), "\n") + 1, fd.Name.Name})
			}
			rep := func(n ast.Node, nw, what string) { emit(off(n.Pos()), off(n.End()), nw, what) }
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.CallExpr:
					if s, ok := n.Fun.(*ast.SelectorExpr); ok {
						switch s.Sel.Name {
						case "Errorf", "Sprintf", "Printf", "Println", "Fprintln":
							return false
						}
					}
					if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "panic" {
						return false
					}
					if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) == 2 {
						rep(n, text(n.Args[0]), "drop append")
					}
					if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "make" || id.Name == "append" || id.Name == "new") {
						break
					}
					for i := 0; i+1 < len(n.Args); i++ {
						a, b := text(n.Args[i]), text(n.Args[i+1])
						emit(off(n.Args[i].Pos()), off(n.Args[i+1].End()), b+", "+a, "swap args")
					}
				case *ast.BinaryExpr:
					ops := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
						token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/", "+"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.AND: {"|"}}
					for _, o := range ops[n.Op] {
						p := off(n.OpPos)
						emit(p, p+len(n.Op.String()), o, n.Op.String()+" -> "+o)
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						rep(n, text(n.X), "only left")
						rep(n, text(n.Y), "only right")
					}
				case *ast.BasicLit:
					switch n.Kind {
					case token.INT:
						if n.Value == "0" {
							rep(n, "1", "0 -> 1")
						} else {
							rep(n, "("+n.Value+"+1)", "+1")
							rep(n, "("+n.Value+"-1)", "-1")
						}
					case token.FLOAT:
						rep(n, "("+n.Value+"+0.5)", "+0.5")
					case token.STRING:
						if len(n.Value) >= 2 {
							rep(n, n.Value[:len(n.Value)-1]+"x"+n.Value[len(n.Value)-1:], "other text")
						}
					}
				case *ast.Ident:
					switch n.Name {
					case "true":
						rep(n, "false", "true -> false")
					case "false":
						rep(n, "true", "false -> true")
					case "ChanceNode":
						rep(n, "DecisionNode", "type")
						rep(n, "UtilityNode", "type")
					case "DecisionNode":
						rep(n, "ChanceNode", "type")
					case "UtilityNode":
						rep(n, "ChanceNode", "type")
					}
				case *ast.IfStmt:
					rep(n.Cond, "!("+text(n.Cond)+")", "negate")
					rep(n.Cond, "false && ("+text(n.Cond)+")", "never")
					rep(n.Cond, "true || ("+text(n.Cond)+")", "always")
				case *ast.ForStmt:
					if n.Cond != nil {
						rep(n.Cond, "("+text(n.Cond)+") && false", "no loop")
					}
				case *ast.BranchStmt:
					if n.Tok == token.CONTINUE {
						rep(n, "break", "continue -> break")
					}
					if n.Tok == token.BREAK {
						rep(n, "continue", "break -> continue")
					}
					rep(n, "", "delete "+n.Tok.String())
				case *ast.IncDecStmt:
					rep(n, "", "delete")
					if n.Tok == token.INC {
						rep(n, text(n.X)+"--", "++ -> --")
					}
				case *ast.ExprStmt:
					rep(n, "", "delete call")
				case *ast.AssignStmt:
					if n.Tok == token.ASSIGN {
						rep(n, "", "delete assign")
					}
					alt := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "/=", token.QUO_ASSIGN: "*="}
					if a, ok := alt[n.Tok]; ok {
						emit(off(n.TokPos), off(n.TokPos)+2, a, n.Tok.String()+" -> "+a)
						emit(off(n.TokPos), off(n.TokPos)+2, "=", n.Tok.String()+" -> =")
						rep(n, "", "delete")
					}
				case *ast.SliceExpr:
					if n.Low != nil {
						rep(n.Low, text(n.Low)+"+1", "low+1")
					}
					if n.High != nil {
						rep(n.High, text(n.High)+"-1", "high-1")
					}
				case *ast.IndexExpr:
					rep(n.Index, "("+text(n.Index)+")+1", "index+1")
				case *ast.RangeStmt:
					if _, ok := n.X.(*ast.Ident); ok {
						rep(n.X, text(n.X)+"[1:]", "skip first")
						rep(n.X, text(n.X)+"[:1]", "only first")
					} else if _, ok := n.X.(*ast.SelectorExpr); ok {
						rep(n.X, text(n.X)+"[1:]", "skip first")
						rep(n.X, text(n.X)+"[:1]", "only first")
					}
				case *ast.ReturnStmt:
					if len(n.Results) == 1 {
						break
					}
				case *ast.CompositeLit:
					for i := 0; i+1 < len(n.Elts); i++ {
						a, ok1 := n.Elts[i].(*ast.KeyValueExpr)
						b, ok2 := n.Elts[i+1].(*ast.KeyValueExpr)
						if ok1 && ok2 {
							emit(off(a.Value.Pos()), off(b.Value.End()), text(b.Value)+string(src[off(a.Value.End()):off(b.Value.Pos())])+text(a.Value), "swap fields")
						}
					}
					for _, e := range n.Elts {
						if kv, ok := e.(*ast.KeyValueExpr); ok {
							end := off(kv.End())
							if src[end] == ',' {
								end++
							}
							emit(off(kv.Pos()), end, "", "drop field "+text(kv.Key))
						}
					}
				}
				return true
			})
		}
	}
	fmt.Fprintln(os.Stderr, "done")
}
