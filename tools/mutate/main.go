// mutate lists the single-site mutants of Go source files:
// prints one JSON object per mutant {file, line, kind, start, end, new}.
// Used to look for breakage that the monitors miss; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type mut struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Kind  string `json:"kind"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Old   string `json:"old"`
	New   string `json:"new"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(kind string, a, b token.Pos, nw string) {
			enc.Encode(mut{f, fs.Position(a).Line, kind, off(a), off(b), string(src[off(a):off(b)]), nw})
		}
		ops := map[token.Token][]string{
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.EQL: {"!="}, token.NEQ: {"=="},
			token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<"}, token.GEQ: {">"},
			token.LAND: {"||"}, token.LOR: {"&&"},
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, o := range ops[x.Op] {
					emit("binop", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
				}
			case *ast.BasicLit:
				switch {
				case x.Kind == token.INT && x.Value == "0":
					emit("const", x.Pos(), x.End(), "1")
				case x.Kind == token.INT && x.Value == "1":
					emit("const", x.Pos(), x.End(), "0")
					emit("const", x.Pos(), x.End(), "2")
				case x.Kind == token.INT:
					emit("const", x.Pos(), x.End(), x.Value+"-1")
				case x.Kind == token.FLOAT && x.Value == "0.0":
					emit("const", x.Pos(), x.End(), "1.0")
				case x.Kind == token.FLOAT:
					emit("const", x.Pos(), x.End(), "0.0")
				}
			case *ast.IfStmt:
				emit("ifneg", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
				emit("iffalse", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
				emit("iftrue", x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")")
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch st := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.ForStmt, *ast.RangeStmt:
						emit("del", st.Pos(), st.End(), "")
					case *ast.AssignStmt:
						if st.Tok != token.DEFINE {
							emit("del", st.Pos(), st.End(), "")
							if st.Tok == token.ADD_ASSIGN {
								emit("assign", st.TokPos, st.TokPos+2, "=")
								emit("assign", st.TokPos, st.TokPos+2, "-=")
							}
						}
					}
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					switch st := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.ForStmt, *ast.RangeStmt:
						emit("del", st.Pos(), st.End(), "")
					case *ast.AssignStmt:
						if st.Tok != token.DEFINE {
							emit("del", st.Pos(), st.End(), "")
						}
					}
				}
			case *ast.CallExpr:
				if se, ok := x.Fun.(*ast.SelectorExpr); ok {
					switch se.Sel.Name {
					case "Copy", "AsSimplifiedExpression", "Simplify", "Transpose":
						if len(x.Args) == 0 {
							emit("dropcall", x.Pos(), x.End(), text(se.X))
						}
					case "Plus", "Minus", "Multiply":
						if len(x.Args) == 1 {
							emit("dropop", x.Pos(), x.End(), text(se.X))
						}
					}
				}
				if len(x.Args) == 2 {
					emit("swap", x.Args[0].Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(x.Args[0]))
				}
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
					emit("dropappend", x.Pos(), x.End(), text(x.Args[0]))
				}
			case *ast.Ident:
				switch x.Name {
				case "ii":
					emit("ident", x.Pos(), x.End(), "jj")
				case "jj":
					emit("ident", x.Pos(), x.End(), "ii")
				case "SenseLessThanEqual":
					emit("ident", x.Pos(), x.End(), "SenseGreaterThanEqual")
				case "SenseGreaterThanEqual":
					emit("ident", x.Pos(), x.End(), "SenseLessThanEqual")
				case "SenseEqual":
					emit("ident", x.Pos(), x.End(), "SenseLessThanEqual")
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					switch text(x.Results[0]) {
					case "true":
						emit("ret", x.Results[0].Pos(), x.Results[0].End(), "false")
					case "false":
						emit("ret", x.Results[0].Pos(), x.Results[0].End(), "true")
					case "err":
						emit("ret", x.Results[0].Pos(), x.Results[0].End(), "nil")
					}
				}
			}
			return true
		})
	}
	fmt.Fprintln(os.Stderr, "done")
}
