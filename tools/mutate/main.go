// mutate lists small changes of the Go files of /repo: file, line, function, offset, end, new text (JSON lines).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File, Func string
	Line       int
	Off, End   int
	New, What  string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, _ := os.ReadFile(f)
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			continue
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if id, ok := t.(*ast.Ident); ok {
					name = id.Name + "." + name
				}
			}
			out := func(p, e token.Pos, s string) {
				o, n := off(p), off(e)
				old := string(src[o:n])
				if len(old) > 60 {
					old = old[:60] + "..."
				}
				enc.Encode(mut{f, name, fs.Position(p).Line, o, n, s, fmt.Sprintf("%q -> %q", strings.Join(strings.Fields(old), " "), s)})
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					for _, r := range map[token.Token][]string{
						token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
					}[n.Op] {
						out(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r)
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						out(n.Pos(), n.End(), string(src[off(n.X.Pos()):off(n.X.End())]))
						out(n.Pos(), n.End(), string(src[off(n.Y.Pos()):off(n.Y.End())]))
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							out(n.Pos(), n.End(), fmt.Sprint(v+1))
							if v > 0 {
								out(n.Pos(), n.End(), fmt.Sprint(v-1))
							}
						}
					}
					if n.Kind == token.FLOAT {
						if v, err := strconv.ParseFloat(n.Value, 64); err == nil {
							out(n.Pos(), n.End(), strconv.FormatFloat(v*(1+1e-4)+map[bool]float64{true: 1e-4}[v == 0], 'g', -1, 64))
						}
					}
				case *ast.SelectorExpr:
					if s := map[string]string{"X": "Y", "Y": "X", "MinX": "MaxX", "MaxX": "MinX", "MinY": "MaxY", "MaxY": "MinY", "Start": "End", "End": "Start", "Min": "Max", "Max": "Min", "Sin": "Cos", "Cos": "Sin"}[n.Sel.Name]; s != "" {
						out(n.Sel.Pos(), n.Sel.End(), s)
					}
				case *ast.IfStmt:
					if n.Else == nil && n.Init == nil {
						out(n.Pos(), n.End(), "")
					}
				case *ast.ExprStmt:
					out(n.Pos(), n.End(), "")
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						out(n.Pos(), n.End(), "")
					}
				case *ast.UnaryExpr:
					if n.Op == token.SUB || n.Op == token.NOT {
						out(n.OpPos, n.OpPos+1, "")
					}
				case *ast.BranchStmt:
					if n.Tok == token.CONTINUE {
						out(n.Pos(), n.End(), "break")
					} else if n.Tok == token.BREAK {
						out(n.Pos(), n.End(), "")
					}
				case *ast.SliceExpr:
					if n.High == nil && n.Low != nil {
						out(n.Low.Pos(), n.Low.End(), string(src[off(n.Low.Pos()):off(n.Low.End())])+"+1")
					}
				case *ast.ReturnStmt:
					if len(n.Results) == 1 {
						if id, ok := n.Results[0].(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							out(id.Pos(), id.End(), map[string]string{"true": "false", "false": "true"}[id.Name])
						}
					}
				}
				return true
			})
		}
	}
}
