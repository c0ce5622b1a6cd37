package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A failure is a point where the program would fail abruptly unless a condition
// holds.
type failure struct {
	kind   string // panic, index, slice, call
	st     *State
	base   *Term
	lo, hi *Term
	name   string
	args   []*Term
	instr  ssa.Instruction
}

// failures runs f and lists the points where an abrupt failure is possible.
func (c *Ctx) failures(f func()) []*failure {
	var l []*failure
	c.setup = func(e *Engine) {
		e.hooks.onPanic = func(e *Engine, st *State, in *ssa.Panic) {
			l = append(l, &failure{kind: "panic", st: st.clone(), instr: in})
		}
		e.hooks.onIndex = func(e *Engine, st *State, base, idx *Term, in ssa.Instruction) {
			t := in.(*ssa.IndexAddr).X.Type()
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				n := pt.Elem().Underlying().(*types.Array).Len()
				if i, ok := idx.intVal(); !ok || i < 0 || i >= n {
					l = append(l, &failure{kind: "index", st: st.clone(), base: mk("zeros", "", mkInt(n)), lo: idx, instr: in})
				}
				return
			}
			if !treeSlice(t) {
				l = append(l, &failure{kind: "index", st: st.clone(), base: base, lo: idx, instr: in})
			}
		}
		e.hooks.onSlice = func(e *Engine, st *State, base, lo, hi *Term, in *ssa.Slice) {
			if treeSlice(in.X.Type()) {
				return
			}
			l = append(l, &failure{kind: "slice", st: st.clone(), base: base, lo: lo, hi: hi, instr: in})
		}
		e.hooks.onCall = func(e *Engine, st *State, callee string, args []*Term, in ssa.CallInstruction, fn *ssa.Function) {
			l = append(l, &failure{kind: "call", st: st.clone(), name: callee, args: args, instr: in})
		}
	}
	defer func() { c.setup = nil }()
	f()
	return l
}

type safety struct {
	*presence
	tags map[string][]int64 // accepted values by field name
	enum map[string][]int64 // accepted values by type
	syms map[*Term][]int64  // valid values of parameters
}

func (s *safety) feasible(st *State) bool {
	if !s.b.feasible(st) {
		return false
	}
	left := map[*Term]map[int64]bool{}
	for f, v := range st.facts {
		switch {
		case f.Op == "eq" && !v:
			x, y := f.Args[0], f.Args[1]
			if x.Op == "len" && y.Op == "len" && together(lenBase(x.Args[0]), lenBase(y.Args[0])) {
				return false
			}
			if x.isConst() {
				x, y = y, x
			}
			x = strip(x)
			n, ok := y.intVal()
			vals := s.syms[x]
			if x.Op == "field" {
				vals = s.tags[x.Aux]
			}
			if x.Op == "dec" {
				vals = s.enum[x.Aux]
			}
			if !ok || vals == nil {
				continue
			}
			if left[x] == nil {
				left[x] = map[int64]bool{}
				for _, v := range vals {
					left[x][v] = true
				}
			}
			delete(left[x], n)
			if len(left[x]) == 0 {
				return false
			}
			// the kind of a node follows from its position
			if x.Op == "field" && x.Aux == "nodeType" && s.kindAt(st, x.Args[0]) == n {
				return false
			}
		case f.Op == "eq" && v:
			x, y := strip(f.Args[0]), strip(f.Args[1])
			if x == tNil {
				x, y = y, x
			}
			if y == tNil && x.Op == "sel" && filled(strip(x.Args[0])) {
				return false
			}
			if y == tNil && x.Op == "sym" {
				return false
			}
			if y == tNil && x.Op == "field" {
				k := s.kindAt(st, x.Args[0])
				if k == 1 && x.Aux == "leafNode" || k == 2 && x.Aux == "parentNode" {
					return false
				}
			}
		case f.Op == "ext" && f.Aux == "1" && !v && f.Args[0].Op == "call":
			cl := f.Args[0]
			switch cl.Aux {
			case "numLeaves.sibling":
				// all nodes that have a parent have a sibling
				if st.holds(mkExt(tCall("numLeaves.parent", cl.Args...), 1)) || s.belowRoot(st, cl.Args[0], cl.Args[1]) {
					return false
				}
			case "nodeIndex.left", "nodeIndex.right":
				if s.parentPos(st, cl.Args[0]) {
					return false
				}
				for g, v := range st.facts {
					if g.Op != "eq" || !v {
						continue
					}
					for i, x := range g.Args {
						if same(x, cl.Args[0]) && s.parentPos(st, g.Args[1-i]) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// filled: a secret tree, all of whose nodes have secrets (C11).
func filled(t *Term) bool {
	t = lenBase(t)
	return t.Op == "ext" && t.Aux == "0" && t.Args[0].Op == "call" && t.Args[0].Aux == "deriveSecretTree"
}

// kindAt: the kind that the node x has because of its position.
func (s *safety) kindAt(st *State, x *Term) int64 {
	x = strip(x)
	if x.Op != "deref" || strip(x.Args[0]).Op != "sel" {
		return 0
	}
	idx := strip(x.Args[0]).Args[1]
	switch {
	case s.leafPos(st, idx):
		return 1
	case s.parentPos(st, idx):
		return 2
	}
	return 0
}

// sizes of results of library functions: at least.
var minSize = map[string]int64{"hpke.AEAD.NonceSize": 12, "hpke.AEAD.KeySize": 16, "hpke.KDF.ExtractSize": 32, "crypto.Hash.Size": 32}

// length is the length of a list as a linear form.
func length(t *Term) *linForm {
	t = lenBase(t)
	for n := strip(mkLen(t)); t.Op == "mk" && n.Op == "len"; n = strip(mkLen(t)) {
		t = lenBase(n.Args[0]) // as long as another list
	}
	if t.Op == "ext" && t.Aux == "0" && t.Args[0].Op == "call" && t.Args[0].Aux == "CipherSuite.expandWithLabel" {
		n := strip(t.Args[0].Args[4])
		if n.Op == "conv" && strip(n.Args[0]).Op == "call" && minSize[strip(n.Args[0]).Aux] > 0 {
			n = strip(n.Args[0])
		}
		return linOf(n)
	}
	return linOf(mkLen(t))
}

// atLeast: 0 < d follows from one fact about an order.
func atLeast(st *State, d *linForm) bool {
	for f, v := range st.facts {
		if f.Op != "lt" {
			continue
		}
		z := linK(f.Args[1]).add(linK(f.Args[0]), -1)
		if !v {
			z = (&linForm{}).add(z, -1)
			z.c++
		}
		if r := (&linForm{}).add(d, 1).add(z, -1); len(r.m) == 0 && r.c >= 0 {
			return true
		}
	}
	return false
}

// positive: 0 < d, also using equal lengths and least sizes.
func (s *safety) positive(st *State, d *linForm) bool {
	try := func(d *linForm) bool {
		if len(d.m) == 0 && d.c > 0 || atLeast(st, d) {
			return true
		}
		for x, k := range d.m {
			if n := minSize[strip(x).Aux]; k == 1 && strip(x).Op == "call" && n > 0 {
				y := (&linForm{}).add(d, 1)
				delete(y.m, x)
				y.c += n
				if len(y.m) == 0 && y.c > 0 || atLeast(st, y) {
					return true
				}
			}
		}
		return false
	}
	if try(d) {
		return true
	}
	for f, v := range st.facts {
		if f.Op != "eq" || !v || f.Args[0].isConst() && f.Args[1].isConst() {
			continue
		}
		x := linOf(f.Args[0]).add(linOf(f.Args[1]), -1)
		if try((&linForm{}).add(d, 1).add(x, 1)) || try((&linForm{}).add(d, 1).add(x, -1)) {
			return true
		}
	}
	return false
}

// natural: 0 <= x.
func (s *safety) natural(st *State, x *Term) bool {
	x = strip(x)
	if n, ok := x.intVal(); ok {
		return n >= 0
	}
	if s.busy[x] || st.truth(mkLt(x, mkInt(0), false)) == 0 {
		return true
	}
	if _, _, ok := descending(st, x); ok {
		return true
	}
	if s.naturalByForm(st, x) {
		return true
	}
	d := (&linForm{}).add(linK(x), 1)
	d.c++
	return atLeast(st, d)
}

func (s *safety) naturalByForm(st *State, x *Term) bool {
	if x.Op == "lv" {
		li, init, next := lvOf(x)
		if li == nil || !s.natural(st, init) {
			return false
		}
		if s.busy == nil {
			s.busy = map[*Term]bool{}
		}
		s.busy[x] = true
		defer delete(s.busy, x)
		for k, n := range next {
			at := st
			if len(next) == len(li.back) {
				at = li.back[k]
			}
			if !s.natural(at, n) {
				return false
			}
		}
		return true
	}
	if x.Op == "bin" {
		l := linOf(x)
		if l.c < 0 {
			return false
		}
		for t, k := range l.m {
			if k < 0 || t == x || !s.natural(st, t) {
				return false
			}
		}
		return true
	}
	// lengths, sizes and numbers of messages
	return x.Op == "len" || x.Op == "call" || x.Op == "ext" || x.Op == "field" || x.Op == "sel" || x.Op == "sym"
}

// below: 0 <= idx < len(base).
func (s *safety) below(st *State, base, idx *Term) bool {
	if !s.natural(st, idx) {
		return false
	}
	if st.truth(mkLt(idx, mkLen(base), false)) == 1 {
		return true
	}
	n := length(base)
	if s.positive(st, (&linForm{}).add(n, 1).add(linK(idx), -1)) {
		return true
	}
	if x, init, ok := descending(st, idx); ok && s.positive(st, (&linForm{}).add(n, 1).add(linOf(substShallow(idx, x, init, 8)), -1)) {
		return true
	}
	if li, init, next := lvOf(strip(idx)); li != nil && st.truth(mkLt(idx, mkInt(0), false)) == 0 {
		// not above where it starts, and not negative
		down := len(next) > 0
		for _, x := range next {
			k := linOf(x).add(linOf(idx), -1)
			down = down && len(k.m) == 0 && k.c <= 0
		}
		if down && s.positive(st, (&linForm{}).add(n, 1).add(linOf(init), -1)) {
			return true
		}
	}
	// lists that grow together
	for f := range st.facts {
		for _, a := range f.Args {
			if l := strip(a); l.Op == "len" && together(lenBase(base), lenBase(l.Args[0])) && s.positive(st, linOf(l).add(linK(idx), -1)) {
				return true
			}
		}
	}
	return false
}

// together: the lists a and b are filled by the same loop, one element each
// time or none.
func together(a, b *Term) bool {
	la, ia, na := lvOf(strip(a))
	lb, ib, nb := lvOf(strip(b))
	if la == nil || la != lb || len(na) != len(la.back) || len(nb) != len(la.back) || len(na) == 0 {
		return false
	}
	if !linOf(mkLen(strip(ia))).equal(linOf(mkLen(strip(ib)))) {
		return false
	}
	for k := range na {
		da := linOf(mkLen(strip(na[k]))).add(linOf(mkLen(strip(a))), -1)
		db := linOf(mkLen(strip(nb[k]))).add(linOf(mkLen(strip(b))), -1)
		if !da.equal(db) || len(da.m) != 0 {
			return false
		}
	}
	return true
}

// sliced: 0 <= lo <= hi <= len(base).
func (s *safety) sliced(st *State, base, lo, hi *Term) bool {
	upTo := func(x *Term, n *linForm) bool {
		if linOf(x).equal(n) || x == mkInt(0) {
			return true
		}
		d := (&linForm{}).add(n, 1).add(linK(x), -1)
		d.c++
		return s.positive(st, d)
	}
	if !s.natural(st, lo) {
		return false
	}
	if !upTo(lo, linOf(hi)) && !(linOf(hi).equal(linOf(mkLen(base))) && upTo(lo, length(base))) {
		return false
	}
	return upTo(hi, length(base)) || upTo(hi, linOf(mkLen(base)))
}

// hasLen: the length of x is known to be n (a constant or a call).
func (s *safety) hasLen(st *State, x, n *Term) bool {
	if length(x).equal(linOf(n)) {
		return true
	}
	return st.holds(mkEq(mkLen(lenBase(x)), n)) || st.holds(mkEq(n, mkLen(lenBase(x))))
}

// callOK checks what library functions require of their arguments, failing
// abruptly otherwise.
func (s *safety) callOK(d *failure) (known, ok bool) {
	st := d.st
	size := func(i int, n int64) (bool, bool) { return true, s.hasLen(st, d.args[i], mkInt(n)) }
	from := func(i int, names ...string) (bool, bool) {
		t := strip(d.args[i])
		if t.Op == "ext" {
			t = t.Args[0]
		}
		return true, t.Op == "call" && setOf(names...)[t.Aux]
	}
	switch name := d.name[strings.LastIndex(d.name, "/")+1:]; name {
	case "ed25519.NewKeyFromSeed", "ed25519.Verify":
		return size(0, 32)
	case "ed448.NewKeyFromSeed":
		return size(0, 57)
	case "ed25519.Sign", "ed448.Sign":
		pkg := strings.TrimSuffix(d.name, "Sign")
		return from(0, pkg+"NewKeyFromSeed", pkg+"GenerateKey")
	case "ecdsa.VerifyASN1":
		pub := derefSnap(st.deepSnap(d.args[0]))
		x := mkField(pub, "X")
		return true, s.present(st, x) && x.Op != "zero"
	case "kem.Scheme.DeriveKeyPair":
		return true, s.hasLen(st, d.args[1], tCall("kem.Scheme.SeedSize", d.args[0]))
	case "hpke.KDF.Expand":
		n := tCall("hpke.KDF.ExtractSize", d.args[0])
		return true, s.hasLen(st, d.args[1], n) || s.positive(st, func() *linForm { f := length(d.args[1]).add(linOf(n), -1); f.c++; return f }())
	case "cipher.AEAD.Open", "cipher.AEAD.Seal":
		// the nonce is of the size of the same algorithm
		a := strip(d.args[0])
		if a.Op == "ext" {
			a = a.Args[0]
		}
		if a.Op != "call" || a.Aux != "hpke.AEAD.New" {
			return true, false
		}
		n := length(d.args[2])
		for x := range n.m {
			return true, len(n.m) == 1 && n.c == 0 && n.m[x] == 1 && strip(x) == tCall("hpke.AEAD.NonceSize", a.Args[0])
		}
		return true, false
	case "cryptobyte.Builder.BytesOrPanic":
		// only encodings without lengths cannot fail
		_, items := catItems(st.load(d.args[0]))
		for _, it := range items {
			if it.Op != "int" {
				return true, false
			}
		}
		return true, true
	case "deriveSecretTree":
		return true, s.present(st, d.args[2])
	}
	return false, true
}

// excused: panics for reasons other than received data: unknown cipher suites,
// which are rejected before (C29), data too long to be encoded by functions
// that cannot return an error, and an empty list given by the application.
func excused(d *failure, root *ssa.Function) bool {
	res := root.Signature.Results()
	noErr := res.Len() == 0 || typeStr(res.At(res.Len()-1).Type()) != "error"
	for f, v := range d.st.facts {
		switch {
		case f.Op == "maphas" && !v:
			if f.any(func(t *Term) bool { return strings.HasSuffix(t.Aux, "hpke.NewSuite") }) {
				return true
			}
		case f.Op == "eq" && !v && f.Args[1] == mkInt(1):
			all := true
			for n := 1; n <= 7; n++ {
				all = all && d.st.refuted(mkEq(f.Args[0], mkInt(int64(n))))
			}
			if all && strip(f.Args[0]).Op == "sym" {
				return true
			}
		case f.Op == "eq" && !v && noErr:
			if f.Args[0].Op == "encerr" && f.Args[1] == tNil || f.Args[1].Op == "encerr" && f.Args[0] == tNil {
				return true
			}
		case f.Op == "eq" && v:
			for i, x := range f.Args {
				if x.Op == "len" && strip(x.Args[0]).Op == "sym" && f.Args[1-i] == mkInt(0) && token.IsExported(root.Name()) {
					return true
				}
			}
		}
	}
	return false
}

// acceptedEnums lists, by type, the values of enumerations that decoders let
// pass.
func (c *Ctx) acceptedEnums() map[string][]int64 {
	vals := map[string][]int64{}
	_, enums := codecTypes()
	for _, T := range enums {
		c.guard(T+".unmarshal", func() {
			r := c.runCodec(T, "unmarshal")
			sp := enumSpecs[T]
			acc := setOfInts(sp.vals)
			m := &matcher{r: r, where: T, covered: map[string]bool{}, accept: func(where string, v int64, st *State) { acc[v] = true }}
			for _, o := range r.outs {
				m.acceptSet("", mk("rd", "u"+strconv.Itoa(sp.width), mk("deref", "", r.s)), sp.vals, sp.width, o.st)
			}
			for v := range acc {
				vals[T] = append(vals[T], v)
			}
			c.count("enumerations", 1)
		})
	}
	return vals
}

func setOfInts(l []int64) map[int64]bool {
	m := map[int64]bool{}
	for _, v := range l {
		m[v] = true
	}
	return m
}

func checkC30(c *Ctx) {
	s := &safety{presence: &presence{c: c, b: &bounds{c: c}}, tags: map[string][]int64{}}
	s.enum = c.acceptedEnums()
	scope := c.p.ssa.Pkg.Scope()
	enum := func(t types.Type) []int64 {
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Name() == "credentialType" {
				return []int64{1, 2}
			}
			return s.enum[n.Obj().Name()]
		}
		return nil
	}
	for _, n := range scope.Names() {
		if t, ok := scope.Lookup(n).(*types.TypeName); ok {
			if u, ok := t.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < u.NumFields(); i++ {
					if v := enum(u.Field(i).Type()); v != nil {
						s.tags[u.Field(i).Name()] = v
					}
				}
			}
		}
	}
	opq := c.groupOpaque(nil, nil)
	for _, name := range sortedKeys(c.p.fns) {
		fn := c.p.fns[name]
		i := strings.LastIndex(name, ".")
		exported := types.NewFunc(0, nil, name[i+1:], nil).Exported()
		if !opq(fn) && !exported {
			continue
		}
		c.guard(name, func() {
			var args []*Term
			l := c.failures(func() {
				if strings.HasSuffix(name, ".unmarshal") && i > 0 {
					r := c.runCodec(name[:i], "unmarshal")
					args = []*Term{r.self, r.s, r.ct}
					return
				}
				args, _ = c.soloRun(name)
			})
			s.syms = map[*Term][]int64{}
			for i, p := range fn.Params {
				if v := enum(p.Type()); v != nil {
					s.syms[args[i]] = v
				}
			}
			for _, d := range l {
				var ok bool
				var rule, what string
				switch d.kind {
				case "panic":
					c.count("panics", 1)
					rule, what = "explicit panics are out of reach", "a panic can be reached"
					ok = excused(d, fn)
				case "index":
					c.count("index_expressions", 1)
					rule, what = "indices lie inside the list", fmt.Sprintf("%.200s is not known to be an index of %.200s", d.lo, d.base)
					ok = s.below(d.st, d.base, d.lo)
				case "slice":
					c.count("slice_expressions", 1)
					rule, what = "slices lie inside the list", fmt.Sprintf("%.100s to %.100s are not known to be limits inside %.200s", d.lo, d.hi, d.base)
					ok = s.sliced(d.st, d.base, d.lo, d.hi)
				case "call":
					var known bool
					if known, ok = s.callOK(d); !known {
						continue
					}
					c.count("library_calls", 1)
					rule, what = "library calls get arguments of the sizes they require", fmt.Sprintf("%s is called without establishing what it requires", d.name)
				}
				c.oblige(ok || !s.feasible(d.st), rule, fnName(d.instr.Parent())+" "+d.kind+" "+d.name, c.pos(d.instr.Pos()), "in %s: %s", name, what)
			}
		})
	}
}

// belowRoot: x is the node below the ancestor visited in a loop over the list
// of all ancestors of a node, so it has a parent in a tree of size leaves.
func (s *safety) belowRoot(st *State, size, x *Term) bool {
	li, start, next := lvOf(x)
	size = strip(size)
	if li == nil || size.Op != "call" || size.Aux != "ratchetTree.numLeaves" {
		return false
	}
	for f, v := range st.facts {
		if f.Op != "lt" || !v || f.Args[1].Op != "len" {
			continue
		}
		i, l := f.Args[0], strip(f.Args[1].Args[0])
		if c, ok := counter(i); !ok || c != li || !isDirectPath(st, l, start, size.Args[0]) {
			continue
		}
		if allEq(next, mkSel(l, i)) {
			return true
		}
	}
	return false
}
