// mutgen FILE : lists mutants of a Go file as JSON lines {off,len,new,line,kind}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	Line int    `json:"line"`
	Kind string `json:"kind"`
	Func string `json:"func"`
}

func main() {
	src, _ := os.ReadFile(os.Args[1])
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	fn := ""
	out := func(a, b token.Pos, n, kind string) {
		enc.Encode(mut{off(a), off(b) - off(a), n, fs.Position(a).Line, kind, fn})
	}
	ops := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"*"}, token.AND: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"}}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn = fd.Name.Name
		if fd.Recv != nil {
			fn = strings.TrimSpace(string(src[off(fd.Recv.List[0].Type.Pos()):off(fd.Recv.List[0].Type.End())])) + "." + fn
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				for _, o := range ops[x.Op] {
					out(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "op "+x.Op.String()+" -> "+o)
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						out(x.Pos(), x.End(), fmt.Sprint(v+1), "int+1")
						if v > 0 {
							out(x.Pos(), x.End(), fmt.Sprint(v-1), "int-1")
						}
					}
				} else if x.Kind == token.FLOAT {
					if v, err := strconv.ParseFloat(x.Value, 64); err == nil {
						nv := v * 1.25
						if v == 0 {
							nv = 0.5
						}
						s := strconv.FormatFloat(nv, 'g', -1, 64)
						if !strings.ContainsAny(s, ".e") {
							s += ".0"
						}
						out(x.Pos(), x.End(), s, "float")
					}
				}
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					out(x.Pos(), x.End(), "", "drop assignment")
					sw := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "/=", token.QUO_ASSIGN: "*="}
					if s, ok := sw[x.Tok]; ok {
						out(x.TokPos, x.TokPos+2, s, "assign op")
					}
				}
			case *ast.IncDecStmt:
				s := "--"
				if x.Tok == token.DEC {
					s = "++"
				}
				out(x.TokPos, x.TokPos+2, s, "incdec")
			case *ast.ExprStmt:
				if _, ok := x.X.(*ast.CallExpr); ok {
					out(x.Pos(), x.End(), "", "drop call")
				}
			case *ast.DeferStmt:
				out(x.Pos(), x.End(), "", "drop defer")
			case *ast.IfStmt:
				out(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "if false")
				out(x.Cond.Pos(), x.Cond.End(), "true || ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "if true")
			case *ast.BranchStmt:
				if x.Label == nil && (x.Tok == token.CONTINUE || x.Tok == token.BREAK) {
					out(x.Pos(), x.End(), "", "drop "+x.Tok.String())
				}
			case *ast.Ident:
				if x.Name == "true" {
					out(x.Pos(), x.End(), "false", "bool")
				} else if x.Name == "false" {
					out(x.Pos(), x.End(), "true", "bool")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT || x.Op == token.SUB {
					out(x.OpPos, x.OpPos+1, "", "drop "+x.Op.String())
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "min" || id.Name == "max") {
					s := "max"
					if id.Name == "max" {
						s = "min"
					}
					out(id.Pos(), id.End(), s, "minmax")
				}
			}
			return true
		})
	}
}
