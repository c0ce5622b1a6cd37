package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// A Term is a hash-consed provenance term: it describes where an abstract
// value comes from. Two values with the same term are the same value.
type Term struct {
	id    int
	Op    string
	Aux   string
	Args  []*Term
	Typ   types.Type // first type seen; only relied on for iface/zero/func terms
	Obj   any        // *ssa.Function for closure/func terms
	roots []*Term    // fresh objects (allocations) mentioned by the term
	str   string
}

type universe struct {
	tab   map[string]*Term
	n     int
	types map[string]types.Type
}

var u = &universe{tab: map[string]*Term{}, types: map[string]types.Type{}}

func isFreshOp(op string) bool {
	switch op {
	case "alloc", "mk", "mkmap", "hobj":
		return true
	}
	return false
}

func mk(op, aux string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte(0)
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte(1)
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := u.tab[k]; ok {
		return t
	}
	u.n++
	t := &Term{id: u.n, Op: op, Aux: aux, Args: append([]*Term(nil), args...)}
	set := map[*Term]bool{}
	for _, a := range args {
		for _, r := range a.roots {
			if !set[r] {
				set[r] = true
				t.roots = append(t.roots, r)
			}
		}
	}
	if isFreshOp(op) {
		t.roots = append(t.roots, t)
	}
	u.tab[k] = t
	return t
}

var (
	tNil   = mk("const", "nil")
	tTrue  = mk("const", "true")
	tFalse = mk("const", "false")
)

func mkInt(n int64) *Term { return mk("const", strconv.FormatInt(n, 10)) }

func mkStr(s string) *Term { return mk("const", strconv.Quote(s)) }

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isConst() bool { return t.Op == "const" }

func (t *Term) intVal() (int64, bool) {
	if t.Op != "const" {
		return 0, false
	}
	n, err := strconv.ParseInt(t.Aux, 10, 64)
	if err != nil {
		un, err := strconv.ParseUint(t.Aux, 10, 64)
		if err != nil {
			return 0, false
		}
		return int64(un), true
	}
	return n, true
}

func (t *Term) strVal() (string, bool) {
	if t.Op != "const" || len(t.Aux) == 0 || t.Aux[0] != '"' {
		return "", false
	}
	s, err := strconv.Unquote(t.Aux)
	return s, err == nil
}

func constTerm(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return zeroOf(typ)
	}
	switch v.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(v))
	case constant.String:
		return mkStr(constant.StringVal(v))
	default:
		return mk("const", v.ExactString())
	}
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Name() == "mls" {
			return ""
		}
		return p.Name()
	})
}

// zeroOf is the zero value of a type.
func zeroOf(t types.Type) *Term {
	switch ut := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case ut.Info()&types.IsBoolean != 0:
			return tFalse
		case ut.Info()&types.IsString != 0:
			return mkStr("")
		case ut.Info()&types.IsNumeric != 0:
			return mkInt(0)
		}
		return tNil
	case *types.Struct, *types.Array:
		s := typeStr(t)
		z := mk("zero", s)
		z.Typ = t
		u.types[s] = t
		return z
	case *types.Tuple:
		return mk("zero", "tuple")
	}
	return tNil
}

func fieldType(t types.Type, f string) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			return st.Field(i).Type()
		}
	}
	return nil
}

func mkField(v *Term, f string) *Term {
	switch v.Op {
	case "with":
		names := strings.Split(v.Aux, ",")
		for i, n := range names {
			if n == f {
				return v.Args[i+1]
			}
		}
		return mkField(v.Args[0], f)
	case "zero":
		if ft := fieldType(v.Typ, f); ft != nil {
			return zeroOf(ft)
		}
	}
	return mk("field", f, v)
}

// mkWith is v with field f replaced.
func mkWith(v *Term, f string, x *Term, typ types.Type) *Term {
	base := v
	fields := map[string]*Term{}
	if v.Op == "with" {
		base = v.Args[0]
		for i, n := range strings.Split(v.Aux, ",") {
			fields[n] = v.Args[i+1]
		}
	}
	fields[f] = x
	return mkWithFields(base, fields, typ)
}

func mkWithFields(base *Term, fields map[string]*Term, typ types.Type) *Term {
	for n, x := range fields {
		if mkField(base, n) == x {
			delete(fields, n)
		}
	}
	if len(fields) == 0 {
		return base
	}
	var st *types.Struct
	if typ != nil {
		st, _ = typ.Underlying().(*types.Struct)
	}
	if st == nil && base.Typ != nil && base.Op == "zero" {
		st, _ = base.Typ.Underlying().(*types.Struct)
		typ = base.Typ
	}
	if st != nil {
		// all fields taken from one other value: that value itself
		var src *Term
		all := st.NumFields() > 0
		for i := 0; i < st.NumFields() && all; i++ {
			n := st.Field(i).Name()
			x, ok := fields[n]
			if !ok {
				x = mkField(base, n)
			}
			if x.Op != "field" || x.Aux != n || (src != nil && x.Args[0] != src) {
				all = false
				break
			}
			src = x.Args[0]
		}
		if all {
			return src
		}
		if base.Op != "zero" && len(fields) == st.NumFields() {
			return mkWithFields(zeroOf(typ), fields, typ)
		}
	}
	names := make([]string, 0, len(fields))
	for n := range fields {
		names = append(names, n)
	}
	sort.Strings(names)
	args := []*Term{base}
	for _, n := range names {
		args = append(args, fields[n])
	}
	return mk("with", strings.Join(names, ","), args...)
}

func mkSel(c, i *Term) *Term {
	switch c.Op {
	case "zeros":
		if c.Typ != nil {
			return zeroOf(c.Typ)
		}
	case "zero":
		if c.Typ != nil {
			if at, ok := c.Typ.Underlying().(*types.Array); ok {
				return zeroOf(at.Elem())
			}
		}
	case "upd":
		j := c.Args[1]
		if i == j {
			return c.Args[2]
		}
		if provablyDistinct(i, j) {
			return mkSel(c.Args[0], i)
		}
	case "list":
		if n, ok := i.intVal(); ok && n >= 0 && int(n) < len(c.Args) {
			return c.Args[n]
		}
	case "sub":
		return mkSel(c.Args[0], mkBin("+", c.Args[1], i))
	}
	return mk("sel", "", c, i)
}

// linear decomposes t into base + const.
func linear(t *Term) (*Term, int64) {
	if n, ok := t.intVal(); ok {
		return nil, n
	}
	if t.Op == "bin" && t.Aux == "+" {
		if n, ok := t.Args[1].intVal(); ok {
			b, m := linear(t.Args[0])
			return b, m + n
		}
	}
	return t, 0
}

func provablyDistinct(a, b *Term) bool {
	ba, na := linear(a)
	bb, nb := linear(b)
	return ba == bb && na != nb
}

func mkUpd(c, i, v *Term) *Term {
	if c.Op == "upd" && c.Args[1] == i {
		c = c.Args[0]
	}
	if mkSel(c, i) == v && c.Op != "zeros" {
		return c
	}
	return mk("upd", "", c, i, v)
}

var commutative = map[string]bool{"+": true, "*": true, "&": true, "|": true, "^": true}

func mkBin(op string, a, b *Term) *Term {
	x, xok := a.intVal()
	y, yok := b.intVal()
	if xok && yok {
		switch op {
		case "+":
			return mkInt(x + y)
		case "-":
			return mkInt(x - y)
		case "*":
			return mkInt(x * y)
		case "&":
			return mkInt(x & y)
		case "|":
			return mkInt(x | y)
		case "^":
			return mkInt(x ^ y)
		case "&^":
			return mkInt(x &^ y)
		case "<<":
			if y >= 0 && y < 63 {
				return mkInt(x << uint(y))
			}
		case ">>":
			if y >= 0 && y < 64 {
				return mkInt(x >> uint(y))
			}
		case "/":
			if y != 0 {
				return mkInt(x / y)
			}
		case "%":
			if y != 0 {
				return mkInt(x % y)
			}
		}
	}
	if xs, ok := a.strVal(); ok && op == "+" {
		if ys, ok := b.strVal(); ok {
			return mkStr(xs + ys)
		}
	}
	switch op {
	case "-":
		if yok {
			return mkBin("+", a, mkInt(-y))
		}
		if a == b {
			return mkInt(0)
		}
		ba, na := linear(a)
		bb, nb := linear(b)
		if ba == bb && ba != nil {
			return mkInt(na - nb)
		}
	case "+":
		if xok {
			a, b, x, xok, y, yok = b, a, y, yok, x, xok
		}
		if yok {
			if y == 0 {
				return a
			}
			base, n := linear(a)
			if n != 0 && base != nil {
				return mkBin("+", base, mkInt(n+y))
			}
		} else if _, isStr := a.strVal(); !isStr {
			if _, isStr := b.strVal(); !isStr {
				ba, na := linear(a)
				bb, nb := linear(b)
				if na+nb != 0 && ba != nil && bb != nil {
					return mkBin("+", mkBin("+", ba, bb), mkInt(na+nb))
				}
			}
		}
	case "*":
		if xok && x == 1 {
			return b
		}
		if yok && y == 1 {
			return a
		}
		if yok && !xok {
			a, b, x, xok, y, yok = b, a, y, yok, x, xok
		}
		if xok && (x == 0) {
			return mkInt(0)
		}
		// constants first in products: normal form 2*x
		if xok {
			base, n := linear(b)
			if base != nil && n != 0 {
				return mkBin("+", mk("bin", "*", mkInt(x), base), mkInt(x*n))
			}
			return mk("bin", "*", a, b)
		}
	case "<<":
		if yok && y >= 0 && y < 31 {
			return mkBin("*", a, mkInt(1<<uint(y)))
		}
		if yok && y == 0 {
			return a
		}
	case ">>":
		if yok && y == 0 {
			return a
		}
		if yok && y > 0 && y < 31 {
			return mkBin("/", a, mkInt(1<<uint(y)))
		}
	case "/":
		if yok && y == 1 {
			return a
		}
	case "|", "^":
		if yok && y == 0 {
			return a
		}
		if xok && x == 0 {
			return b
		}
	}
	if commutative[op] && !yok {
		_, as := a.strVal()
		_, bs := b.strVal()
		if !(op == "+" && (as || bs)) && a.id > b.id {
			a, b = b, a
		}
	}
	return mk("bin", op, a, b)
}

func mkLen(s *Term) *Term {
	switch s.Op {
	case "const":
		if s == tNil {
			return mkInt(0)
		}
		if v, ok := s.strVal(); ok {
			return mkInt(int64(len(v)))
		}
	case "mk":
		return s.Args[0]
	case "slice":
		return mkBin("-", s.Args[2], s.Args[1])
	case "list":
		return mkInt(int64(len(s.Args)))
	case "append":
		return mkBin("+", mkLen(s.Args[0]), mkLen(s.Args[1]))
	case "slc", "view", "copied", "upd":
		return mkLen(s.Args[0])
	case "zeros":
		return s.Args[0]
	case "rd":
		switch s.Aux {
		case "opaque":
			return mk("rd", "varint", s.Args[0])
		case "bytes":
			return s.Args[1]
		}
	case "sum":
		return mk("sumsize", "", s.Args[0])
	}
	return mk("len", "", s)
}

func mkAppend(s, t *Term) *Term {
	if s == tNil && t.Op == "list" && len(t.Args) == 0 {
		return tNil
	}
	if t == tNil || t.Op == "list" && len(t.Args) == 0 {
		return s
	}
	if a, ok := s.strVal(); ok {
		if b, ok := t.strVal(); ok {
			return mkStr(a + b)
		}
	}
	if s.Op == "append" && t.Op == "list" && s.Args[1].Op == "list" {
		return mk("append", "", s.Args[0], mk("list", "", append(append([]*Term(nil), s.Args[1].Args...), t.Args...)...))
	}
	return mk("append", "", s, t)
}

func mkExt(t *Term, i int) *Term {
	if t.Op == "tuple" {
		return t.Args[i]
	}
	return mk("ext", strconv.Itoa(i), t)
}

// debugging: name long terms instead of repeating them
var (
	dagMode bool
	dagDefs []string
)

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	if t.str == "" {
		t.str = t.render()
		if dagMode && len(t.str) > 90 {
			dagDefs = append(dagDefs, fmt.Sprintf("%%%d = %s", t.id, t.str))
			t.str = fmt.Sprintf("%%%d", t.id)
		}
		if len(t.str) > 600 {
			t.str = strings.ToValidUTF8(t.str[:300], "") + "…" + strings.ToValidUTF8(t.str[len(t.str)-290:], "")
		}
	}
	return t.str
}

func (t *Term) render() string {
	args := func(from int) string {
		var l []string
		for _, a := range t.Args[from:] {
			l = append(l, a.String())
		}
		return strings.Join(l, ", ")
	}
	switch t.Op {
	case "const", "sym":
		return t.Aux
	case "alloc", "mk", "mkmap", "hobj":
		return "new<" + t.Aux + ">"
	case "global":
		return "&" + t.Aux
	case "fa":
		return "&" + strings.TrimPrefix(t.Args[0].String(), "&") + "." + t.Aux
	case "ia", "iap":
		return "&" + t.Args[0].String() + "[" + t.Args[1].String() + "]"
	case "deref":
		return "*" + t.Args[0].String()
	case "field":
		s := t.Args[0].String()
		return strings.TrimPrefix(s, "*") + "." + t.Aux
	case "sel":
		return t.Args[0].String() + "[" + t.Args[1].String() + "]"
	case "bin":
		return "(" + t.Args[0].String() + t.Aux + t.Args[1].String() + ")"
	case "eq":
		return "(" + t.Args[0].String() + "==" + t.Args[1].String() + ")"
	case "lt":
		return "(" + t.Args[0].String() + "<" + t.Args[1].String() + ")"
	case "len":
		return "len(" + args(0) + ")"
	case "ext":
		return t.Args[0].String() + "#" + t.Aux
	case "call":
		return t.Aux + "(" + args(0) + ")"
	case "with":
		names := strings.Split(t.Aux, ",")
		var l []string
		for i, n := range names {
			l = append(l, n+":"+t.Args[i+1].String())
		}
		return t.Args[0].String() + "{" + strings.Join(l, ", ") + "}"
	case "zero":
		return t.Aux
	case "lv":
		return "∀" + t.Aux
	case "iface":
		return args(0)
	case "ref":
		return "&(" + args(0) + ")"
	case "slc":
		return args(0)
	}
	s := t.Op
	if t.Aux != "" {
		s += ":" + t.Aux
	}
	return s + "(" + args(0) + ")"
}

// contains reports whether sub occurs in t.
func (t *Term) contains(sub *Term) bool {
	return t.any(func(x *Term) bool { return x == sub })
}

func (t *Term) any(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var walk func(*Term) bool
	walk = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

var _ = fmt.Sprint
