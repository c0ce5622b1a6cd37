package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

// Small generic library functions are analysed like code of the package: calls
// are resolved to the definitions below, which say what the functions do.
var libraryFuncs = map[string]map[string]string{
	"slices": {
		"Contains": `func slicesContains[S ~[]E, E comparable](s S, v E) bool {
	for i := range s {
		if v == s[i] {
			return true
		}
	}
	return false
}`,
		"ContainsFunc": `func slicesContainsFunc[S ~[]E, E any](s S, f func(E) bool) bool {
	for i := range s {
		if f(s[i]) {
			return true
		}
	}
	return false
}`,
		"Index": `func slicesIndex[S ~[]E, E comparable](s S, v E) int {
	for i := range s {
		if v == s[i] {
			return i
		}
	}
	return -1
}`,
		"IndexFunc": `func slicesIndexFunc[S ~[]E, E any](s S, f func(E) bool) int {
	for i := range s {
		if f(s[i]) {
			return i
		}
	}
	return -1
}`,
		// of a clone
		"DeleteFunc": `func slicesDeleteFunc[S ~[]E, E any](s S, del func(E) bool) S {
	kept := make(S, 0, len(s))
	for _, v := range s {
		if !del(v) {
			kept = append(kept, v)
		}
	}
	return kept
}`,
		"Concat2": `func slicesConcat2[S ~[]E, E any](a, b S) S {
	var s S
	s = append(s, a...)
	return append(s, b...)
}`,
		"Concat3": `func slicesConcat3[S ~[]E, E any](a, b, c S) S {
	var s S
	s = append(s, a...)
	s = append(s, b...)
	return append(s, c...)
}`,
		"Reverse": `func slicesReverse[S ~[]E, E any](s S) {
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
}`,
	},
	"maps": {
		"Copy": `func mapsCopy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	for k, v := range src {
		dst[k] = v
	}
}`,
	},
}

// parseFile parses a file of the package and redirects calls of the library
// functions above.
func parseFile(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
	f, err := parser.ParseFile(fset, filename, src, parser.AllErrors|parser.ParseComments)
	if err != nil {
		return f, err
	}
	suffix := strings.TrimSuffix(filepath.Base(filename), ".go")
	for _, imp := range f.Imports {
		path, err := strconv.Unquote(imp.Path.Value)
		if err != nil || libraryFuncs[path] == nil {
			continue
		}
		name := path
		if imp.Name != nil {
			name = imp.Name.Name
		}
		left := false
		rangeOver(f, name, path)
		added := map[string]bool{}
		astutil.Apply(f, func(c *astutil.Cursor) bool {
			sel, ok := c.Node().(*ast.SelectorExpr)
			if !ok {
				return true
			}
			x, ok := sel.X.(*ast.Ident)
			if !ok || x.Name != name || x.Obj != nil {
				return true
			}
			fn := sel.Sel.Name
			call, is := c.Parent().(*ast.CallExpr)
			if is = is && call.Fun == ast.Expr(sel); fn == "Concat" && is && !call.Ellipsis.IsValid() {
				fn += strconv.Itoa(len(call.Args))
			}
			def, ok := libraryFuncs[path][fn]
			if fn == "DeleteFunc" && !(is && isLibCall(call.Args[0], name, "Clone") != nil) {
				ok = false // changes the list given
			}
			if !ok {
				left = true
				return true
			}
			id := path + fn + "_" + suffix
			if !added[id] {
				added[id] = true
				lib, err := parser.ParseFile(fset, path+"."+fn, "package "+f.Name.Name+"\n"+def, 0)
				if err != nil {
					panic(err)
				}
				d := lib.Decls[0].(*ast.FuncDecl)
				d.Name.Name = id
				f.Decls = append(f.Decls, d)
			}
			c.Replace(&ast.Ident{NamePos: sel.Pos(), Name: id})
			return false
		}, nil)
		if !left {
			imp.Name = ast.NewIdent("_")
		}
	}
	return f, nil
}

// isLibCall: e is a call of the function name of the package imported as pkg.
func isLibCall(e ast.Expr, pkg string, names ...string) *ast.CallExpr {
	call, ok := e.(*ast.CallExpr)
	if !ok {
		return nil
	}
	sel, ok := call.Fun.(*ast.SelectorExpr)
	if !ok {
		return nil
	}
	x, ok := sel.X.(*ast.Ident)
	if !ok || x.Name != pkg || x.Obj != nil {
		return nil
	}
	for _, n := range names {
		if sel.Sel.Name == n {
			return call
		}
	}
	return nil
}

// rangeOver turns loops over the iterators of slices and maps into loops over
// the lists and maps themselves.
func rangeOver(f *ast.File, pkg, path string) {
	astutil.Apply(f, func(c *astutil.Cursor) bool {
		r, ok := c.Node().(*ast.RangeStmt)
		if !ok {
			return true
		}
		if call := isLibCall(r.X, pkg, "All", "Keys"); call != nil && path == "maps" || call != nil && path == "slices" && isLibCall(r.X, pkg, "All") != nil {
			r.X = call.Args[0]
			return true
		}
		if call := isLibCall(r.X, pkg, "Values"); call != nil {
			r.X = call.Args[0]
			if r.Key != nil {
				r.Key, r.Value = ast.NewIdent("_"), r.Key
			}
			return true
		}
		call := isLibCall(r.X, pkg, "Backward")
		if call == nil || !repeatable(call.Args[0]) {
			return true
		}
		at := func(n string) *ast.Ident { return &ast.Ident{NamePos: r.Pos(), Name: n} }
		lit := func(v string) ast.Expr { return &ast.BasicLit{ValuePos: r.Pos(), Kind: token.INT, Value: v} }
		list, i := "list_"+strconv.Itoa(int(r.Pos())), "back_"+strconv.Itoa(int(r.Pos()))
		set := &ast.AssignStmt{Tok: r.Tok, TokPos: r.Pos()}
		for k, x := range []ast.Expr{r.Key, r.Value} {
			id, blank := x.(*ast.Ident)
			if x == nil || blank && id.Name == "_" {
				continue
			}
			set.Lhs = append(set.Lhs, x)
			if k == 0 {
				set.Rhs = append(set.Rhs, at(i))
			} else {
				set.Rhs = append(set.Rhs, &ast.IndexExpr{X: at(list), Index: at(i), Lbrack: r.Pos(), Rbrack: r.Pos()})
			}
		}
		body := r.Body
		if len(set.Lhs) > 0 {
			body = &ast.BlockStmt{Lbrace: r.Body.Lbrace, List: []ast.Stmt{set, r.Body}, Rbrace: r.Body.Rbrace}
		}
		c.Replace(&ast.ForStmt{
			For: r.For,
			Init: &ast.AssignStmt{Lhs: []ast.Expr{at(list), at(i)}, Tok: token.DEFINE, TokPos: r.Pos(), Rhs: []ast.Expr{
				call.Args[0], &ast.BinaryExpr{X: &ast.CallExpr{Fun: at("len"), Args: []ast.Expr{call.Args[0]}, Lparen: r.Pos(), Rparen: r.Pos()}, Op: token.SUB, OpPos: r.Pos(), Y: lit("1")},
			}},
			Cond: &ast.BinaryExpr{X: at(i), Op: token.GEQ, OpPos: r.Pos(), Y: lit("0")},
			Post: &ast.IncDecStmt{X: at(i), Tok: token.DEC, TokPos: r.Pos()},
			Body: body,
		})
		return true
	}, nil)
}

// repeatable: evaluating e twice is evaluating it once.
func repeatable(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return repeatable(e.X)
	case *ast.StarExpr:
		return repeatable(e.X)
	case *ast.ParenExpr:
		return repeatable(e.X)
	case *ast.SliceExpr:
		return repeatable(e.X) && (e.Low == nil || repeatable(e.Low)) && (e.High == nil || repeatable(e.High)) && e.Max == nil
	case *ast.BasicLit:
		return true
	case *ast.BinaryExpr:
		return repeatable(e.X) && repeatable(e.Y)
	case *ast.CallExpr:
		id, ok := e.Fun.(*ast.Ident)
		return ok && id.Name == "len" && repeatable(e.Args[0])
	}
	return false
}
