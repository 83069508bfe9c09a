// Command mutate lists single-edit mutants of Go files as JSON lines: byte
// range, replacement, and where it is. It knows nothing of the checks.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Repl string `json:"repl"`
	Was  string `json:"was"`
	Kind string `json:"kind"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
	token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.XOR: {"|"},
	token.AND_NOT: {"&"},
}
var assigns = map[token.Token]string{
	token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.OR_ASSIGN: "&=", token.AND_ASSIGN: "|=",
	token.SHL_ASSIGN: ">>=", token.SHR_ASSIGN: "<<=", token.XOR_ASSIGN: "|=",
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, path := range os.Args[1:] {
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		fn := ""
		emit := func(from, to token.Pos, repl, kind string) {
			a, b := off(from), off(to)
			enc.Encode(mutant{path, fs.Position(from).Line, fn, a, b, repl, string(src[a:b]), kind})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		var visit func(n ast.Node) bool
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				switch s := s.(type) {
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						// keep the operands used
						if len(s.Rhs) == 1 && len(s.Lhs) == 1 {
							emit(s.Pos(), s.End(), "_ = "+text(s.Rhs[0]), "drop-assign")
						}
					}
				case *ast.ExprStmt:
					emit(s.Pos(), s.End(), "", "drop-call")
				case *ast.IncDecStmt:
					emit(s.Pos(), s.End(), "", "drop-incdec")
				case *ast.BranchStmt:
					if s.Label == nil && s.Tok == token.CONTINUE {
						emit(s.Pos(), s.End(), "break", "branch")
					} else if s.Label == nil && s.Tok == token.BREAK {
						emit(s.Pos(), s.End(), "continue", "branch")
					}
					emit(s.Pos(), s.End(), "", "drop-branch")
				case *ast.DeferStmt:
					emit(s.Pos(), s.End(), "", "drop-defer")
				case *ast.GoStmt:
					emit(s.Pos(), s.Pos()+2, "", "sync-go")
				case *ast.ReturnStmt:
					if len(s.Results) == 0 {
						emit(s.Pos(), s.End(), "", "drop-return")
					}
				}
			}
		}
		visit = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				fn = n.Name.Name
				if n.Recv != nil && len(n.Recv.List) > 0 {
					fn = strings.TrimPrefix(text(n.Recv.List[0].Type), "*") + "." + fn
				}
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, r := range swaps[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, "binop")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.OpPos, n.OpPos+1, "", "drop-not")
				} else if n.Op == token.SUB {
					emit(n.OpPos, n.OpPos+1, "", "drop-neg")
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseUint(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), "int+1")
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1), "int-1")
						}
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					emit(n.Pos(), n.End(), "false", "bool")
				} else if n.Name == "false" {
					emit(n.Pos(), n.End(), "true", "bool")
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "if-false")
				emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "if-true")
			case *ast.AssignStmt:
				if r, ok := assigns[n.Tok]; ok {
					emit(n.TokPos, n.TokPos+token.Pos(len(n.Tok.String())), r, "assignop")
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					emit(n.Low.Pos(), n.Low.End(), "("+text(n.Low)+")+1", "slice-low+1")
				}
				if n.High != nil {
					emit(n.High.Pos(), n.High.End(), "("+text(n.High)+")-1", "slice-high-1")
				}
			case *ast.ReturnStmt:
				if k := len(n.Results); k > 0 {
					if id, ok := n.Results[k-1].(*ast.Ident); ok && id.Name == "err" {
						emit(id.Pos(), id.End(), "nil", "swallow-error")
					}
				}
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.CommClause:
				stmts(n.Body)
			}
			return true
		}
		ast.Inspect(f, visit)
	}
}
