package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The rules speak of types and fields by the names they have in RFC 9420 and in
// the repository. Where the code calls them differently, the package is read as
// if it used the usual names: a type is known by its fields or methods, a field
// by its place and type among those of its structure.

type canonField struct{ name, typ string }

func bare(p *types.Package) types.Qualifier {
	return func(q *types.Package) string {
		if q == p {
			return ""
		}
		return q.Path()
	}
}

// canonShape describes a type without its name.
func canonShape(tn *types.TypeName) string {
	named, ok := tn.Type().(*types.Named)
	if !ok || tn.IsAlias() || named.TypeParams().Len() > 0 {
		return ""
	}
	var l []string
	for i := 0; i < named.NumMethods(); i++ {
		l = append(l, named.Method(i).Name())
	}
	sort.Strings(l)
	under := ""
	switch u := named.Underlying().(type) {
	case *types.Struct:
		var f []string
		for i := 0; i < u.NumFields(); i++ {
			f = append(f, u.Field(i).Name())
		}
		under = "struct{" + strings.Join(f, ",") + "}"
	default:
		under = types.TypeString(u, bare(tn.Pkg()))
	}
	return under + " " + strings.Join(l, ",")
}

func canonFields(tn *types.TypeName) ([]*types.Var, []canonField) {
	st, ok := tn.Type().Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	var vs []*types.Var
	var l []canonField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		vs = append(vs, f)
		l = append(l, canonField{f.Name(), types.TypeString(f.Type(), bare(tn.Pkg()))})
	}
	return vs, l
}

// canonTable prints the tables below for the package.
func canonTable(pkg *types.Package) string {
	var b strings.Builder
	b.WriteString("package main\n\nvar canonShapes = map[string]string{\n")
	for _, n := range pkg.Scope().Names() {
		if tn, ok := pkg.Scope().Lookup(n).(*types.TypeName); ok && canonShape(tn) != "" {
			fmt.Fprintf(&b, "\t%q: %q,\n", n, canonShape(tn))
		}
	}
	b.WriteString("}\n\nvar canonStructs = map[string][]canonField{\n")
	for _, n := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		if _, l := canonFields(tn); len(l) > 0 {
			fmt.Fprintf(&b, "\t%q: {", n)
			for _, f := range l {
				fmt.Fprintf(&b, "{%q, %q}, ", f.name, f.typ)
			}
			b.WriteString("},\n")
		}
	}
	b.WriteString("}\n")
	return b.String()
}

// canonNames are the usual names of types and fields that are called differently.
func canonNames(pkg *types.Package) map[types.Object]string {
	scope := pkg.Scope()
	ren := map[types.Object]string{}
	as := map[string]string{} // new name to usual name of types
	var extra []*types.TypeName
	for _, n := range scope.Names() {
		if tn, ok := scope.Lookup(n).(*types.TypeName); ok && canonShapes[n] == "" && !tn.Exported() {
			extra = append(extra, tn)
		}
	}
	for m, shape := range canonShapes {
		if scope.Lookup(m) != nil {
			continue
		}
		var found []*types.TypeName
		for _, tn := range extra {
			if canonShape(tn) == shape {
				found = append(found, tn)
			}
		}
		rivals := 0
		for o, s := range canonShapes {
			if s == shape && scope.Lookup(o) == nil {
				rivals++
			}
		}
		if len(found) == 1 && rivals == 1 {
			ren[found[0]] = m
			as[found[0].Name()] = m
		}
	}
	usual := func(t types.Type) string {
		return types.TypeString(t, func(q *types.Package) string { return bare(pkg)(q) })
	}
	typ := func(v *types.Var) string {
		s := usual(v.Type())
		for n, m := range as {
			s = replaceWord(s, n, m)
		}
		return s
	}
	for name, want := range canonStructs {
		tn, _ := scope.Lookup(name).(*types.TypeName)
		for o, m := range ren {
			if x, ok := o.(*types.TypeName); ok && m == name {
				tn = x
			}
		}
		if tn == nil {
			continue
		}
		vs, have := canonFields(tn)
		has := map[string]bool{}
		for _, f := range have {
			has[f.name] = true
		}
		known := map[string]bool{}
		var missing []canonField
		for _, f := range want {
			known[f.name] = true
			if !has[f.name] {
				missing = append(missing, f)
			}
		}
		var other []*types.Var
		for _, v := range vs {
			if !known[v.Name()] && !v.Exported() && !v.Embedded() {
				other = append(other, v)
			}
		}
		inOrder := len(missing) == len(other)
		for i := 0; inOrder && i < len(missing); i++ {
			inOrder = typ(other[i]) == missing[i].typ
		}
		for i, m := range missing {
			if inOrder {
				ren[other[i]] = m.name
				continue
			}
			var v *types.Var
			n := 0
			for _, x := range other {
				if typ(x) == m.typ {
					v = x
					n++
				}
			}
			for _, x := range missing {
				if x.typ == m.typ && x != m {
					n++
				}
			}
			if n == 1 {
				ren[v] = m.name
			}
		}
	}
	return ren
}

func replaceWord(s, old, new string) string {
	var b strings.Builder
	word := func(c byte) bool {
		return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && word(s[j]) {
			j++
		}
		switch {
		case j == i:
			b.WriteByte(s[i])
			j++
		case s[i:j] == old:
			b.WriteString(new)
		default:
			b.WriteString(s[i:j])
		}
		i = j
	}
	return b.String()
}

// canonical are the contents of the package's files with the usual names, nil if
// they are in use already.
func canonical(pkg *packages.Package, overlay map[string][]byte) map[string][]byte {
	ren := canonNames(pkg.Types)
	if len(ren) == 0 {
		return nil
	}
	type edit struct {
		at, n int
		s     string
	}
	edits := map[string]map[int]edit{}
	name := func(id *ast.Ident, o types.Object) {
		switch x := o.(type) {
		case *types.Var:
			o = x.Origin()
		case *types.TypeName:
		default:
			return
		}
		s, ok := ren[o]
		if !ok || id.Name != o.Name() {
			return
		}
		p := pkg.Fset.Position(id.Pos())
		if edits[p.Filename] == nil {
			edits[p.Filename] = map[int]edit{}
		}
		edits[p.Filename][p.Offset] = edit{p.Offset, len(id.Name), s}
	}
	for id, o := range pkg.TypesInfo.Defs {
		name(id, o)
	}
	for id, o := range pkg.TypesInfo.Uses {
		name(id, o)
	}
	res := map[string][]byte{}
	for f, src := range overlay {
		res[f] = src
	}
	for _, f := range pkg.CompiledGoFiles {
		if len(edits[f]) == 0 {
			continue
		}
		src, ok := res[f]
		if !ok {
			var err error
			if src, err = os.ReadFile(f); err != nil {
				return nil
			}
		}
		var l []edit
		for _, e := range edits[f] {
			l = append(l, e)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].at < l[j].at })
		var out []byte
		last := 0
		for _, e := range l {
			out = append(append(out, src[last:e.at]...), e.s...)
			last = e.at + e.n
		}
		res[f] = append(out, src[last:]...)
	}
	return res
}
