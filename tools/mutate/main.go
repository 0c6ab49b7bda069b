// mutate lists single-edit mutants of Go files as JSON lines: development tool, not used by the checks.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File, Func, Desc, Repl string
	From, To, Line          int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		put := func(from, to token.Pos, repl, desc string) {
			enc.Encode(mut{f, fn, desc, repl, off(from), off(to), fs.Position(from).Line})
		}
		isLog := func(n ast.Node) bool {
			s := text(n)
			return strings.HasPrefix(s, "log.") || strings.HasPrefix(s, "fmt.Print") || strings.HasPrefix(s, "zerolog.")
		}
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.CONST || x.Tok == token.IMPORT || x.Tok == token.TYPE {
					return false
				}
			case *ast.FuncDecl:
				fn = x.Name.Name
			case *ast.ExprStmt:
				if isLog(x) {
					return false
				}
				put(x.Pos(), x.End(), "", "delete: "+text(x))
			case *ast.CallExpr:
				if isLog(x) || strings.HasPrefix(text(x), "make(") || strings.HasPrefix(text(x), "errors.New") {
					return false
				}
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					put(x.Pos(), x.End(), "", "delete: "+text(x))
				}
			case *ast.IncDecStmt:
				put(x.Pos(), x.End(), "", "delete: "+text(x))
			case *ast.BranchStmt:
				if x.Tok == token.BREAK {
					put(x.Pos(), x.End(), "continue", "break->continue")
				} else if x.Tok == token.CONTINUE {
					put(x.Pos(), x.End(), "break", "continue->break")
				}
			case *ast.IfStmt:
				put(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate: "+text(x.Cond))
				put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never: "+text(x.Cond))
			case *ast.ReturnStmt:
				if k := len(x.Results); k > 0 {
					if id, ok := x.Results[k-1].(*ast.Ident); ok && id.Name == "err" {
						put(id.Pos(), id.End(), "nil", "return err->nil")
					}
				}
			case *ast.BinaryExpr:
				for _, r := range map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}}[x.Op] {
					put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, fmt.Sprintf("%s -> %s in %s", x.Op, r, text(x)))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						put(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), fmt.Sprintf("%s -> %d", x.Value, v+1))
						if v > 0 {
							put(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), fmt.Sprintf("%s -> %d", x.Value, v-1))
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					put(x.Pos(), x.End(), "false", "true->false")
				} else if x.Name == "false" {
					put(x.Pos(), x.End(), "true", "false->true")
				}
			case *ast.SelectorExpr:
				for _, sw := range [][2]string{{"X", "Y"}, {"Y", "Z"}, {"Z", "X"}, {"4", "5"}, {"5", "4"}} {
					if strings.HasSuffix(x.Sel.Name, sw[0]) && len(x.Sel.Name) > 3 {
						put(x.Sel.Pos(), x.Sel.End(), strings.TrimSuffix(x.Sel.Name, sw[0])+sw[1], "field "+x.Sel.Name+" -> "+sw[1])
					}
				}
				for _, sw := range [][2]string{{"lower", "upper"}, {"upper", "lower"}, {"Min", "Max"}, {"Max", "Min"}, {"LittleEndian", "BigEndian"}, {"BigEndian", "LittleEndian"}, {"Uint16", "Int16"}} {
					if strings.Contains(x.Sel.Name, sw[0]) {
						put(x.Sel.Pos(), x.Sel.End(), strings.Replace(x.Sel.Name, sw[0], sw[1], 1), "field "+x.Sel.Name+" "+sw[0]+"->"+sw[1])
					}
				}
			case *ast.CaseClause:
				if len(x.Body) > 0 {
					put(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty case: "+text(x)[:min(60, len(text(x)))])
				}
			}
			return true
		}
		ast.Inspect(af, visit)
	}
}
