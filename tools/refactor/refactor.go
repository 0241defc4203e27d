// refactor MODES DIR : rewrites the Go files of a package directory in place with behaviour-preserving edits.
// MODES is a comma separated list:
//   commute  numeric a+b -> b+a, a*b -> b*a, a<b -> b>a (operands without calls)
//   assign   x op= y -> x = x op (y)
//   invert   if c {A} else {B} -> if !(c) {B} else {A}
//   loop     for i := 0; i < n; i++ {..} -> for i := 0; ; i++ { if !(i < n) {break}; .. }
//   helper   every function body moves to a helper which the function calls
//   temp     return e -> var r T = e; return r
//   assoc    (a+b)+c -> a+(b+c), (a*b)*c -> a*(b*c) on floats (changes the rounding)
//   recip    x/const -> x*(1/const) on floats (changes the rounding)
package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var (
	mode = map[string]bool{}
	fs   = token.NewFileSet()
	info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	src  []byte
	fres *ast.FieldList
	cgo  bool
	n    int
)

func off(p token.Pos) int { return fs.Position(p).Offset }

func kids(x ast.Node) (out []ast.Node) {
	d := 0
	ast.Inspect(x, func(c ast.Node) bool {
		if c == nil {
			d--
			return false
		}
		if d == 1 {
			out = append(out, c)
			return false
		}
		d++
		return true
	})
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return
}

func raw(x ast.Node) string {
	var b strings.Builder
	at := off(x.Pos())
	for _, c := range kids(x) {
		if _, ok := c.(*ast.CommentGroup); ok || off(c.Pos()) < at {
			continue
		}
		b.Write(src[at:off(c.Pos())])
		b.WriteString(txt(c))
		at = off(c.End())
	}
	b.Write(src[at:off(x.End())])
	return b.String()
}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(c ast.Node) bool {
		switch y := c.(type) {
		case *ast.CallExpr:
			if tv, k := info.Types[y.Fun]; k && tv.IsType() {
				return true
			}
			if s, k := y.Fun.(*ast.SelectorExpr); k {
				if i, k := s.X.(*ast.Ident); k && i.Name == "math" {
					return true
				}
			}
			if i, k := y.Fun.(*ast.Ident); k && (i.Name == "len" || i.Name == "cap") {
				return true
			}
			ok = false
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if y.Op == token.ARROW {
				ok = false
			}
		}
		return true
	})
	return ok
}

func numeric(e ast.Expr) (isNum, isFloat bool) {
	tv, ok := info.Types[e]
	if !ok || tv.Type == nil || tv.Value != nil {
		return
	}
	b, ok := tv.Type.Underlying().(*types.Basic)
	if !ok {
		return
	}
	return b.Info()&types.IsNumeric != 0, b.Info()&types.IsFloat != 0
}

func txt(x ast.Node) string {
	switch y := x.(type) {
	case *ast.FuncLit:
		s := fres
		fres = nil
		r := raw(x)
		fres = s
		return r
	case *ast.BinaryExpr:
		isNum, isF := numeric(y)
		if mode["assoc"] && isF && (y.Op == token.ADD || y.Op == token.MUL) && pure(y) {
			if l, ok := y.X.(*ast.BinaryExpr); ok && l.Op == y.Op {
				if lv := info.Types[l]; lv.Value == nil {
					n++
					return txt(l.X) + y.Op.String() + "(" + txt(l.Y) + y.Op.String() + txt(y.Y) + ")"
				}
			}
		}
		if mode["recip"] && isF && y.Op == token.QUO {
			if tv := info.Types[y.Y]; tv.Value != nil && info.Types[y.X].Value == nil {
				n++
				return txt(y.X) + "*(1.0/(" + string(src[off(y.Y.Pos()):off(y.Y.End())]) + "))"
			}
		}
		if mode["commute"] && isNum && (y.Op == token.ADD || y.Op == token.MUL) && pure(y) {
			n++
			return "(" + txt(y.Y) + ")" + y.Op.String() + "(" + txt(y.X) + ")"
		}
		if mode["commute"] && pure(y) && info.Types[y].Value == nil {
			if f := map[token.Token]string{token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<=", token.EQL: "==", token.NEQ: "!="}[y.Op]; f != "" {
				if tv := info.Types[y.Y]; !tv.IsNil() {
					n++
					return "(" + txt(y.Y) + ")" + f + "(" + txt(y.X) + ")"
				}
			}
		}
	case *ast.AssignStmt:
		if mode["assign"] && y.Tok > token.ASSIGN && y.Tok != token.DEFINE && len(y.Lhs) == 1 && pure(y.Lhs[0]) {
			op := strings.TrimSuffix(y.Tok.String(), "=")
			if pure(y.Rhs[0]) {
				n++
				return raw(y.Lhs[0]) + " = " + raw(y.Lhs[0]) + " " + op + " (" + txt(y.Rhs[0]) + ")"
			}
		}
	case *ast.IfStmt:
		if mode["invert"] && y.Else != nil {
			if e, ok := y.Else.(*ast.BlockStmt); ok {
				n++
				init := ""
				if y.Init != nil {
					init = txt(y.Init) + "; "
				}
				return "if " + init + "!(" + txt(y.Cond) + ") " + txt(e) + " else " + txt(y.Body)
			}
		}
	case *ast.ForStmt:
		if mode["loop"] && y.Init != nil && y.Cond != nil && y.Post != nil {
			n++
			b := txt(y.Body)
			return "for " + txt(y.Init) + "; ; " + txt(y.Post) + " {\nif !(" + txt(y.Cond) + ") {\nbreak\n}\n" + b[1:]
		}
	case *ast.ReturnStmt:
		if mode["temp"] && fres != nil && len(y.Results) == 1 && len(fres.List) == 1 && len(fres.List[0].Names) == 0 {
			n++
			return "{\nvar result_ " + string(src[off(fres.List[0].Type.Pos()):off(fres.List[0].Type.End())]) + " = " + txt(y.Results[0]) + "\nreturn result_\n}"
		}
	case *ast.FuncDecl:
		return fn(y)
	}
	return raw(x)
}

func fn(y *ast.FuncDecl) string {
	if y.Body == nil || y.Type.TypeParams != nil {
		return raw(y)
	}
	if !mode["temp"] {
		fres = nil
	} else {
		fres = y.Type.Results
	}
	body := txt(y.Body)
	fres = nil
	head := string(src[off(y.Pos()):off(y.Body.Lbrace)])
	if !mode["helper"] || y.Name.Name == "init" || y.Name.Name == "main" || y.Name.Name == "_" || cgo {
		return head + body
	}
	if y.Recv != nil {
		if len(y.Recv.List[0].Names) == 0 {
			return head + body
		}
		if _, ok := y.Recv.List[0].Type.(*ast.IndexExpr); ok {
			return head + body
		}
		if st, ok := y.Recv.List[0].Type.(*ast.StarExpr); ok {
			if _, ok := st.X.(*ast.IndexExpr); ok {
				return head + body
			}
		}
	}
	var args []string
	for _, p := range y.Type.Params.List {
		if len(p.Names) == 0 {
			return head + body
		}
		for _, nm := range p.Names {
			if nm.Name == "_" {
				return head + body
			}
			a := nm.Name
			if _, ok := p.Type.(*ast.Ellipsis); ok {
				a += "..."
			}
			args = append(args, a)
		}
	}
	n++
	h := "helper" + y.Name.Name + "_"
	sig := string(src[off(y.Type.Params.Pos()):off(y.Body.Lbrace)])
	call := h + "(" + strings.Join(args, ", ") + ")"
	rec := ""
	if y.Recv != nil {
		rn := y.Recv.List[0].Names[0].Name
		if rn == "_" {
			return head + body
		}
		rec = string(src[off(y.Recv.Pos()):off(y.Recv.End())]) + " "
		call = rn + "." + call
	}
	if y.Type.Results != nil {
		call = "return " + call
	}
	return head + "{\n" + call + "\n}\n\nfunc " + rec + h + sig + body
}

func main() {
	for _, m := range strings.Split(os.Args[1], ",") {
		mode[m] = true
	}
	dir := os.Args[2]
	names, _ := filepath.Glob(dir + "/*.go")
	var files []*ast.File
	var paths []string
	for _, p := range names {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fs, p, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		files = append(files, f)
		paths = append(paths, p)
	}
	conf := types.Config{Importer: importer.ForCompiler(fs, "source", nil), FakeImportC: true, Error: func(error) {}}
	conf.Check(dir, fs, files, info)
	for i, f := range files {
		src, _ = os.ReadFile(paths[i])
		cgo = strings.Contains(string(src), `import "C"`)
		var b strings.Builder
		at := 0
		for _, d := range f.Decls {
			if _, ok := d.(*ast.FuncDecl); !ok {
				continue
			}
			b.Write(src[at:off(d.Pos())])
			b.WriteString(txt(d))
			at = off(d.End())
		}
		b.Write(src[at:])
		out, err := format.Source([]byte(b.String()))
		if err != nil {
			fmt.Println("format:", paths[i], err)
			out = []byte(b.String())
		}
		os.WriteFile(paths[i], out, 0644)
	}
	fmt.Println(dir, n, "edits")
}
