// Command mutate lists small changes of Go source files, one JSON object per line:
// {"id","file","line","start","end","new","what"}. tools/sweep.py tries them.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	ID    int    `json:"id"`
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	What  string `json:"what"`
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&", "^"}, token.XOR: {"|"},
}

func main() {
	id := 0
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b token.Pos, s, what string) {
			id++
			enc.Encode(mut{id, file, fs.Position(a).Line, off(a), off(b), s, what})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, fmt.Sprintf("%s -> %s in %s", x.Op, s, text(x)))
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseUint(x.Value, 0, 64)
						if err == nil {
							emit(x.Pos(), x.End(), strconv.FormatUint(v+1, 10), fmt.Sprintf("%s -> %d", x.Value, v+1))
							if v > 0 {
								emit(x.Pos(), x.End(), strconv.FormatUint(v-1, 10), fmt.Sprintf("%s -> %d", x.Value, v-1))
							}
						}
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "(false && ("+text(x.Cond)+"))", "if never: "+text(x.Cond))
					emit(x.Cond.Pos(), x.Cond.End(), "(true || ("+text(x.Cond)+"))", "if always: "+text(x.Cond))
				case *ast.ForStmt:
					if x.Cond != nil {
						emit(x.Cond.Pos(), x.Cond.End(), "(false && ("+text(x.Cond)+"))", "for never: "+text(x.Cond))
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x.OpPos, x.OpPos+1, "", "remove ! in "+text(x))
					}
				case *ast.Ident:
					if x.Name == "true" || x.Name == "false" {
						o := map[string]string{"true": "false", "false": "true"}[x.Name]
						emit(x.Pos(), x.End(), o, x.Name+" -> "+o)
					}
				case *ast.ExprStmt:
					emit(x.Pos(), x.End(), "", "remove "+text(x))
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "", "remove "+text(x))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						s := ""
						for i := range x.Lhs {
							if x.Tok == token.ASSIGN {
								_ = i
							}
						}
						emit(x.Pos(), x.End(), s, "remove "+text(x))
					}
				case *ast.DeferStmt:
					emit(x.Pos(), x.End(), "", "remove "+text(x))
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.BREAK {
						emit(x.Pos(), x.End(), "continue", "break -> continue")
					} else if x.Label == nil && x.Tok == token.CONTINUE {
						emit(x.Pos(), x.End(), "break", "continue -> break")
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						emit(x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1", "low bound + 1 in "+text(x))
					}
					if x.High != nil {
						emit(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1", "high bound - 1 in "+text(x))
					}
				}
				return true
			})
		}
	}
}
