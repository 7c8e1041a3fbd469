// mutate lists small changes to Go source files: one JSON object {id,file,line,what,offset,end,text} per line,
// each a replacement of file[offset:end] by text. Used to look for changes that the checks do not notice.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	ID     string `json:"id"`
	File   string `json:"file"`
	Line   int    `json:"line"`
	Func   string `json:"func"`
	What   string `json:"what"`
	Offset int    `json:"offset"`
	End    int    `json:"end"`
	Text   string `json:"text"`
}

var swaps = map[token.Token][]token.Token{
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
	token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR}, token.OR: {token.AND},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		n := 0
		fn := ""
		emit := func(at token.Pos, what string, from, to token.Pos, text string) {
			n++
			enc.Encode(mut{fmt.Sprintf("%s#%d", name, n), name, fset.Position(at).Line, fn, what, off(from), off(to), text})
		}
		text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			if fn == "String" && fd.Recv == nil {
				continue
			}
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				switch s := x.(type) {
				case *ast.BinaryExpr:
					for _, t := range swaps[s.Op] {
						emit(s.OpPos, s.Op.String()+" -> "+t.String()+" in "+text(s), s.OpPos, s.OpPos+token.Pos(len(s.Op.String())), t.String())
					}
					if s.Op == token.LAND || s.Op == token.LOR {
						emit(s.Pos(), "left only of "+text(s), s.Pos(), s.End(), text(s.X))
						emit(s.Pos(), "right only of "+text(s), s.Pos(), s.End(), text(s.Y))
					}
				case *ast.UnaryExpr:
					if s.Op == token.NOT {
						emit(s.Pos(), "drop ! of "+text(s), s.Pos(), s.End(), text(s.X))
					}
				case *ast.IfStmt:
					emit(s.Pos(), "if true for "+text(s.Cond), s.Cond.Pos(), s.Cond.End(), "("+text(s.Cond)+") || true")
					emit(s.Pos(), "if false for "+text(s.Cond), s.Cond.Pos(), s.Cond.End(), "("+text(s.Cond)+") && false")
				case *ast.BasicLit:
					if s.Kind == token.INT {
						if v, err := strconv.ParseInt(s.Value, 0, 64); err == nil {
							emit(s.Pos(), s.Value+" +1", s.Pos(), s.End(), strconv.FormatInt(v+1, 10))
							if v > 0 {
								emit(s.Pos(), s.Value+" -1", s.Pos(), s.End(), strconv.FormatInt(v-1, 10))
							}
						}
					}
					if s.Kind == token.CHAR {
						emit(s.Pos(), s.Value+" +1", s.Pos(), s.End(), s.Value+"+1")
					}
				case *ast.Ident:
					if s.Name == "true" {
						emit(s.Pos(), "true -> false", s.Pos(), s.End(), "false")
					}
					if s.Name == "false" {
						emit(s.Pos(), "false -> true", s.Pos(), s.End(), "true")
					}
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						// keep the variables used
						t := ""
						for _, r := range s.Rhs {
							if _, ok := r.(*ast.FuncLit); ok {
								return true
							}
							_ = r
						}
						blank := true
						for i := range s.Lhs {
							if i > 0 {
								t += ", "
							}
							t += "_"
							if id, ok := s.Lhs[i].(*ast.Ident); !ok || id.Name != "_" {
								blank = false
							}
						}
						if blank {
							return true
						}
						if s.Tok == token.ASSIGN {
							t += " = "
							for i, r := range s.Rhs {
								if i > 0 {
									t += ", "
								}
								t += text(r)
							}
						} else {
							t = "_ = " + text(s.Rhs[0])
						}
						emit(s.Pos(), "drop "+text(s), s.Pos(), s.End(), t)
					}
				case *ast.ExprStmt:
					emit(s.Pos(), "drop "+text(s), s.Pos(), s.End(), "")
				case *ast.IncDecStmt:
					emit(s.Pos(), "drop "+text(s), s.Pos(), s.End(), "")
				case *ast.DeferStmt:
					emit(s.Pos(), "drop "+text(s), s.Pos(), s.End(), "")
				case *ast.BranchStmt:
					if s.Label == nil && s.Tok != token.FALLTHROUGH {
						o := "break"
						if s.Tok == token.BREAK {
							o = "continue"
						}
						emit(s.Pos(), s.Tok.String()+" -> "+o, s.Pos(), s.End(), o)
						emit(s.Pos(), "drop "+s.Tok.String(), s.Pos(), s.End(), "")
					}
				case *ast.CallExpr:
					if len(s.Args) >= 2 && !s.Ellipsis.IsValid() {
						for i := 0; i+1 < len(s.Args); i++ {
							if text(s.Args[i]) != text(s.Args[i+1]) {
								emit(s.Pos(), "swap arguments in "+text(s), s.Args[i].Pos(), s.Args[i+1].End(), text(s.Args[i+1])+", "+text(s.Args[i]))
							}
						}
					}
				case *ast.SliceExpr:
					if s.Low == nil && s.High != nil {
						emit(s.Pos(), "no upper bound in "+text(s), s.High.Pos(), s.High.End(), "")
					}
				case *ast.CaseClause:
					if len(s.Body) > 0 && len(s.List) > 0 {
						last := s.Body[len(s.Body)-1]
						_, ret := last.(*ast.ReturnStmt)
						if !ret {
							emit(s.Pos(), "empty case "+text(s.List[0]), s.Body[0].Pos(), last.End(), "")
						}
					}
					if len(s.List) > 1 {
						emit(s.Pos(), "case without "+text(s.List[len(s.List)-1]), s.List[len(s.List)-2].End(), s.List[len(s.List)-1].End(), "")
					}
				case *ast.ReturnStmt:
					if len(s.Results) == 2 {
						if id, ok := s.Results[1].(*ast.Ident); ok && id.Name == "err" {
							emit(s.Pos(), "error dropped in "+text(s), id.Pos(), id.End(), "nil")
						}
					}
					if len(s.Results) == 1 {
						if id, ok := s.Results[0].(*ast.Ident); ok && id.Name == "err" {
							emit(s.Pos(), "error dropped in "+text(s), id.Pos(), id.End(), "nil")
						}
					}
				}
				return true
			})
		}
	}
}
