package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- reading code back as a layout ----------------------------------------

func (c *Ctx) codecOpaque() func(*ssa.Function) bool {
	return func(f *ssa.Function) bool {
		if !isCodecMethod(f, "marshal") && !isCodecMethod(f, "unmarshal") {
			return false
		}
		T := recvType(f)
		_, a := layouts[T]
		_, b := enumSpecs[T]
		return a || b
	}
}

// strip removes wrappers that do not change the value.
func strip(t *Term) *Term {
	for {
		switch {
		case t.Op == "ref" || t.Op == "slc" || t.Op == "view":
			t = t.Args[0]
		case t.Op == "append" && (t.Args[0] == tNil || t.Args[0].Op == "list" && len(t.Args[0].Args) == 0):
			t = t.Args[1]
		default:
			return t
		}
	}
}

func valueAt(v *Term, path string) *Term {
	if path == "" {
		return strip(v)
	}
	for _, f := range strings.Split(path, ".") {
		v = mkField(strip(v), f)
	}
	return strip(v)
}

// codecRun is one analysed codec method.
type codecRun struct {
	c    *Ctx
	T    string
	fn   *ssa.Function
	e    *Engine
	outs []Outcome // successful outcomes
	all  []Outcome
	self *Term
	s    *Term
	ct   *Term
}

func (c *Ctx) runCodec(T, method string) *codecRun {
	fn := c.fn(T + "." + method)
	r := &codecRun{c: c, T: T, fn: fn, self: mk("sym", "self"), s: mk("sym", "stream"), ct: mk("sym", "ct")}
	r.e = c.engine(c.codecOpaque())
	args := []*Term{r.self, r.s}
	if len(fn.Params) > 2 {
		args = append(args, r.ct)
	}
	r.all = c.run(r.e, fn, nil, args)
	r.outs = successes(r.all)
	return r
}

// chain lists the reads that lead from the start of a stream to position t.
func chain(t *Term) (root *Term, steps []*Term) {
	for t.Op == "rest" || t.Op == "partialrest" {
		steps = append([]*Term{t}, steps...)
		t = t.Args[0]
	}
	return t, steps
}

// matcher checks one outcome against a layout.
type matcher struct {
	r       *codecRun
	reader  bool
	problem func(rule, construct, format string, args ...any)
	accept  func(construct string, v int64, st *State) // undefined value accepted
	covered map[string]bool
	items   int
	where   string
	vars    map[string]*Term // values of "$name" paths
}

func (m *matcher) bad(format string, args ...any) {
	m.problem("layout", m.where, format, args...)
}

// read matches reader steps. elem is the value being filled, steps the reads
// performed after position cur.
func (m *matcher) read(items []item, cur *Term, steps []*Term, st *State, v *Term) {
	for i, it := range items {
		switch it.k {
		case "u8", "u16", "u32", "u64", "opaque", "fixed", "enum", "struct", "vec":
			if len(steps) == 0 {
				m.bad("the decoder ends before reading %s %q", it.k, it.path)
				return
			}
			stp := steps[0]
			m.items++
			val := valueAt(v, it.path)
			want := (*Term)(nil)
			switch it.k {
			case "u8", "u16", "u32", "u64":
				if stp.Aux != it.k {
					m.bad("reads %s where %s %q is defined", stp.Aux, it.k, it.path)
					return
				}
				want = mk("rd", it.k, cur)
			case "opaque":
				if stp.Aux != "opaque" {
					m.bad("reads %s where opaque %q is defined", stp.Aux, it.path)
					return
				}
				want = mk("rd", "opaque", cur)
			case "fixed":
				if stp.Aux != "bytes" || stp.Args[1] != mkInt(int64(it.n)) {
					m.bad("reads %s where %d bytes %q are defined", stp.Aux, it.n, it.path)
					return
				}
				want = mk("rd", "bytes", cur, mkInt(int64(it.n)))
			case "enum":
				w := "u" + strconv.Itoa(enumSpecs[it.typ].width)
				if stp.Aux != it.typ && stp.Aux != w {
					m.bad("reads %s where %s %q is defined", stp.Aux, it.typ, it.path)
					return
				}
				want = mk("dec", it.typ, cur)
				if stp.Aux == w {
					want = mk("rd", w, cur)
					m.acceptSet(it.path, want, enumSpecs[it.typ].vals, enumSpecs[it.typ].width, st)
				}
			case "struct":
				if stp.Aux != it.typ {
					m.bad("reads %s where %s %q is defined", stp.Aux, it.typ, it.path)
					return
				}
				args := []*Term{cur}
				if it.extra != "" {
					args = append(args, m.path(v, it.extra))
				}
				if len(stp.Args) != len(args) || len(args) == 2 && stp.Args[1] != args[1] {
					m.bad("%s %q is decoded for the wrong content type", it.typ, it.path)
					return
				}
				want = mk("dec", it.typ, args...)
			case "vec":
				if stp.Aux != "opaque" {
					m.bad("reads %s where vector %q is defined", stp.Aux, it.path)
					return
				}
				if !m.readVec(it, cur, st, val) {
					return
				}
			}
			if want != nil && val != want {
				m.bad("%s %q is not filled with the value read for it (holds %v)", it.k, it.path, val)
			}
			cur, steps = stp, steps[1:]
		case "opt":
			if len(steps) == 0 || steps[0].Aux != "u8" {
				m.bad("no presence byte is read for %q", it.path)
				return
			}
			p := mk("rd", "u8", cur)
			m.items++
			m.acceptSet(it.path+" presence", p, []int64{0, 1}, 8, st)
			nx, rest := steps[0], steps[1:]
			for _, pv := range []int64{0, 1} {
				s2 := st.clone()
				if !s2.assume(mkEq(p, mkInt(pv)), true) {
					continue
				}
				m.covered[fmt.Sprintf("%s presence=%d", it.path, pv)] = true
				if pv == 0 {
					if x := valueAt(v, it.path); !isZero(x) {
						m.bad("absent %q is decoded as %v", it.path, x)
					}
					m.read(items[i+1:], nx, rest, s2, v)
				} else {
					m.read(cat(it.sub, items[i+1:]), nx, rest, s2, v)
				}
			}
			return
		case "switch":
			d := m.path(v, it.path)
			vals := caseVals(it)
			if d.Op != "dec" && d.Op != "sym" && !(d.Op == "field") {
				m.acceptSet(it.path, d, vals, 16, st)
			}
			for _, x := range vals {
				s2 := st.clone()
				if !s2.assume(mkEq(d, mkInt(x)), true) {
					continue
				}
				m.covered[fmt.Sprintf("%s=%d", it.path, x)] = true
				m.read(cat(it.cases[x], items[i+1:]), cur, steps, s2, v)
			}
			return
		}
	}
	if len(steps) > 0 {
		m.bad("the decoder reads %s after the end of the structure", steps[0].Aux)
	}
}

func isZero(t *Term) bool {
	return t == tNil || t == mkInt(0) || t.Op == "zero" || t == mkStr("") || t == tFalse || t.Op == "list" && len(t.Args) == 0
}

func caseVals(it item) []int64 {
	var l []int64
	for x := range it.cases {
		l = append(l, x)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func (m *matcher) path(v *Term, p string) *Term {
	if p == "$ct" {
		return m.r.ct
	}
	if !m.reader {
		return m.want(v, p)
	}
	return valueAt(v, p)
}

// acceptSet: which values of discriminant d does the outcome allow?
func (m *matcher) acceptSet(path string, d *Term, vals []int64, width int, st *State) {
	if m.accept == nil {
		return
	}
	def := map[int64]bool{}
	cand := map[int64]bool{0: true, 127: true, 128: true, 255: true}
	if width > 8 {
		cand[256], cand[65535], cand[0x7fff], cand[0x8000] = true, true, true, true
	}
	for i := int64(0); i < 16; i++ {
		cand[i] = true
	}
	for f := range st.facts {
		f.any(func(x *Term) bool {
			if n, ok := x.intVal(); ok {
				for _, k := range []int64{n - 1, n, n + 1} {
					if k >= 0 && k < 1<<uint(width) {
						cand[k] = true
					}
				}
			}
			return false
		})
	}
	for _, x := range vals {
		def[x] = true
	}
	for x := range cand {
		if def[x] {
			continue
		}
		s2 := st.clone()
		if s2.assume(mkEq(d, mkInt(x)), true) {
			m.accept(m.where+" "+path, x, st)
		} else {
			m.items++
		}
	}
}

// readVec: the vector content is decoded element by element until the
// sub-stream is empty, each element appended.
func (m *matcher) readVec(it item, cur *Term, st *State, val *Term) bool {
	sub := mk("rd", "opaque", cur)
	if val.Op != "lv" {
		// padded by a later loop (ratchet tree): follow the init value
		m.bad("vector %q is not built by appending its elements (holds %v)", it.path, val)
		return false
	}
	li := lvInfo[val]
	vInit, vNext, ok := lvParts(val)
	if !ok {
		m.bad("vector %q: unknown loop", it.path)
		return false
	}
	// a later loop that only appends blanks: use the first loop's result
	if vi := strip(vInit); vi.Op == "lv" && m.r.T == "ratchetTree" {
		for _, n := range vNext {
			if n != mkAppend(val, mk("list", "", tNil)) {
				m.bad("vector %q is altered after decoding: %v", it.path, n)
				return false
			}
		}
		return m.readVec(it, cur, st, vi)
	}
	if !isZero(strip(vInit)) && !(strip(vInit).Op == "zeros" && strip(vInit).Args[0] == mkInt(0)) {
		m.bad("vector %q does not start empty but as %v", it.path, vInit)
		return false
	}
	var stream *Term
	for n, t := range li.lv {
		if strip(li.init[n]) == sub {
			stream = t
		}
	}
	if stream == nil {
		m.bad("vector %q is not decoded from its own length-prefixed content", it.path)
		return false
	}
	if st.truth(mkEq(mkLen(stream), mkInt(0))) != 1 {
		m.bad("vector %q may stop before its content is exhausted", it.path)
		return false
	}
	sNext := li.next[lvName[stream]]
	if len(vNext) != len(li.back) || len(sNext) != len(li.back) {
		m.bad("vector %q: loop not understood", it.path)
		return false
	}
	for k, b := range li.back {
		nx := m.r.e.snap(b, vNext[k], nil)
		base, elems := appended(nx)
		if base != val || len(elems) != 1 {
			m.bad("vector %q: an iteration turns the list into %v instead of appending one element", it.path, nx)
			return false
		}
		root, steps := chain(sNext[k])
		if root != stream {
			m.bad("vector %q: the element is not read from the vector content", it.path)
			return false
		}
		m2 := *m
		m2.where = m.where + " " + it.path + "[]"
		m2.read(it.sub, stream, steps, b.clone(), elems[0])
		m.items = m2.items
	}
	return true
}

func appended(t *Term) (*Term, []*Term) {
	if t.Op == "append" && t.Args[1].Op == "list" {
		return t.Args[0], t.Args[1].Args
	}
	return t, nil
}

// ---- writers --------------------------------------------------------------

// want is the term of the value at a path of the structure being written.
func (m *matcher) want(v *Term, path string) *Term {
	if path == "$ct" {
		return m.r.ct
	}
	if path == "" {
		return v
	}
	if strings.HasPrefix(path, "$") {
		return m.vars[path]
	}
	for _, f := range strings.Split(path, ".") {
		v = mkField(deRef(v), f)
	}
	return v
}

// deRef follows a pointer value if the term denotes one (typed lookup).
func deRef(v *Term) *Term {
	if t := termType(v); t != nil {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return mk("deref", "", v)
		}
	}
	return v
}

// termTypes remembers the Go types of root terms for path walking.
var termTypes = map[*Term]types.Type{}

func termType(v *Term) types.Type {
	if t, ok := termTypes[v]; ok {
		return t
	}
	switch v.Op {
	case "deref":
		if t := termType(v.Args[0]); t != nil {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				return p.Elem()
			}
		}
	case "field":
		if t := termType(v.Args[0]); t != nil {
			return fieldType(t, v.Aux)
		}
	case "sel":
		if t := termType(v.Args[0]); t != nil {
			switch s := t.Underlying().(type) {
			case *types.Slice:
				return s.Elem()
			case *types.Array:
				return s.Elem()
			}
		}
	}
	return nil
}

func (m *matcher) write(items []item, out []*Term, st *State, v *Term) {
	for i, it := range items {
		switch it.k {
		case "u8", "u16", "u32", "u64", "opaque", "fixed", "enum", "struct", "vec":
			if len(out) == 0 {
				m.bad("the encoder does not write %s %q", it.k, it.path)
				return
			}
			o := out[0]
			m.items++
			want := m.want(v, it.path)
			ok := true
			switch it.k {
			case "u8", "u16", "u32", "u64":
				ok = o.Op == "int" && o.Aux == it.k && st.same(stripConv(o.Args[0]), want)
			case "opaque":
				ok = o.Op == "opaque" && st.same(strip(o.Args[0]), want)
			case "fixed":
				ok = o.Op == "bytes" && strip(o.Args[0]) == want || o.Op == "bytes" && isWholeArray(o.Args[0], want, it.n)
			case "enum":
				ok = o.Op == "enc" && o.Aux == it.typ && st.same(o.Args[0], want) ||
					o.Op == "int" && o.Aux == "u"+strconv.Itoa(enumSpecs[it.typ].width) && st.same(stripConv(o.Args[0]), want)
			case "struct":
				ok = o.Op == "enc" && o.Aux == it.typ && (o.Args[0] == deRef(want) || want.Op == "ref" && o.Args[0] == derefSnap(want))
				if it.extra != "" {
					ok = ok && len(o.Args) == 2 && o.Args[1] == m.want(v, it.extra)
				}
			case "vec":
				if o.Op != "opaque" {
					ok = false
				} else if !m.writeVec(it, o.Args[0], st, want) {
					return
				}
			}
			if !ok {
				m.bad("the encoder writes %v where %s %q is defined", o, it.k, it.path)
				return
			}
			out = out[1:]
		case "opt":
			p := m.want(v, it.path)
			for _, pv := range []int64{0, 1} {
				s2 := st.clone()
				if !s2.assume(mkEq(p, tNil), pv == 0) {
					continue
				}
				m.covered[fmt.Sprintf("%s presence=%d", it.path, pv)] = true
				m.items++
				if len(out) == 0 || out[0] != mk("int", "u8", mkInt(pv)) {
					m.bad("the encoder writes no presence byte %d for %q", pv, it.path)
					return
				}
				if pv == 0 {
					m.write(items[i+1:], out[1:], s2, v)
				} else {
					m.write(cat(it.sub, items[i+1:]), out[1:], s2, v)
				}
			}
			return
		case "switch":
			d := m.want(v, it.path)
			for _, x := range caseVals(it) {
				s2 := st.clone()
				if !s2.assume(mkEq(d, mkInt(x)), true) {
					continue
				}
				m.covered[fmt.Sprintf("%s=%d", it.path, x)] = true
				m.write(cat(it.cases[x], items[i+1:]), out, s2, v)
			}
			return
		}
	}
	if len(out) > 0 {
		m.bad("the encoder writes %v after the end of the structure", out[0])
	}
}

// same: equal terms, or both known to equal the same constant.
func (s *State) same(a, b *Term) bool {
	if same(a, b) {
		return true
	}
	ca, cb := s.constOf(a), s.constOf(b)
	return ca != nil && ca == cb
}

func stripConv(t *Term) *Term { return t }

func isWholeArray(t, want *Term, n int) bool {
	// slice of the array at want's address, whole length
	if t.Op == "slice" && t.Args[0].Op == "arr" && t.Args[0].Aux == strconv.Itoa(n) && t.Args[1] == mkInt(0) && t.Args[2] == mkInt(int64(n)) {
		return derefSnap(t.Args[0].Args[0]) == want
	}
	return false
}

// flat: every item is written by exactly one operation.
func flat(items []item) bool {
	for _, it := range items {
		if it.k == "opt" || it.k == "switch" {
			return false
		}
	}
	return true
}

func (m *matcher) writeVec(it item, b *Term, st *State, vec *Term) bool {
	trimmed := false
	if m.r.T == "ratchetTree" {
		if t := m.shortened(st, vec); t != nil {
			termTypes[t] = termType(vec)
			vec, trimmed = t, true
		}
	}
	if b == mkBuilt(bEmpty) {
		// nothing to write: there are no elements
		if m.r.T == "ratchetTree" && !trimmed && m.trimmedEnd(st, tNil, vec) {
			return true
		}
		if st.truth(mkLt(mkInt(0), mkLen(vec), false)) == 0 || st.truth(mkEq(mkLen(vec), mkInt(0))) == 1 {
			return true
		}
	}
	if n, ok := mkLen(vec).intVal(); ok && b.Op == "built" && flat(it.sub) {
		// a list of constant length
		if base, items := catItems(b.Args[0]); base == bEmpty && len(items) == int(n)*len(it.sub) {
			for k := 0; k < int(n); k++ {
				m2 := *m
				m2.where = m.where + " " + it.path + "[]"
				m2.write(it.sub, items[k*len(it.sub):(k+1)*len(it.sub)], st.clone(), mkSel(vec, mkInt(int64(k))))
				m.items = m2.items
			}
			return true
		}
	}
	if b.Op != "built" || b.Args[0].Op != "lv" {
		m.bad("vector %q is not written element by element (writes %v)", it.path, b)
		return false
	}
	acc := b.Args[0]
	li := lvInfo[acc]
	init, next, ok := lvParts(acc)
	if !ok || strip(init) != bEmpty && init.Op != "zero" {
		m.bad("vector %q: content does not start empty", it.path)
		return false
	}
	// the induction variable
	var idx *Term
	for n, t := range li.lv {
		if li.init[n] != mkInt(0) {
			continue
		}
		all := len(li.next[n]) > 0
		for _, x := range li.next[n] {
			all = all && x == mkBin("+", t, mkInt(1))
		}
		if all {
			idx = t
		}
	}
	if idx == nil {
		m.bad("vector %q: no index running over all elements", it.path)
		return false
	}
	bound := mkLen(vec)
	if m.r.T == "ratchetTree" && !trimmed {
		if !m.trimmed(st, idx, vec) {
			m.bad("the written nodes are not exactly those up to the last present one")
			return false
		}
	} else if st.truth(mkLt(idx, bound, false)) != 0 {
		m.bad("vector %q: writing may stop before the last element", it.path)
		return false
	}
	if len(next) != len(li.back) || len(next) == 0 {
		m.bad("vector %q: loop not understood", it.path)
		return false
	}
	for k, bs := range li.back {
		base, items := catItems(next[k])
		if base != acc {
			m.bad("vector %q: an iteration does not append to the content", it.path)
			return false
		}
		m2 := *m
		m2.where = m.where + " " + it.path + "[]"
		m2.write(it.sub, items, bs.clone(), mkSel(vec, idx))
		m.items = m2.items
	}
	return true
}

// trimmed: the loop over idx is bounded by a counter that starts at the
// tree's length and goes down past blank nodes only.
func (m *matcher) trimmed(st *State, idx, tree *Term) bool { return m.trimmedEnd(st, idx, tree) }

// shortened: the nodes of tree after a loop that drops the last one while it
// is blank.
func (m *matcher) shortened(st *State, tree *Term) *Term {
	for t, li := range lvInfo {
		init, next, ok := lvParts(t)
		if !ok || init != tree || m.r.e.loops[li.id] != li || len(next) != len(li.back) {
			continue
		}
		end := mkBin("+", mkLen(t), mkInt(-1))
		last := mkSel(t, end)
		good := len(next) > 0
		for k, n := range next {
			good = good && n.Op == "slice" && n.Args[0] == t && n.Args[1] == mkInt(0) && n.Args[2] == end && li.back[k].truth(mkEq(last, tNil)) == 1
		}
		if good && (st.truth(mkLt(mkInt(0), mkLen(t), false)) == 0 || st.truth(mkEq(mkLen(t), mkInt(0))) == 1 || st.truth(mkEq(last, tNil)) == 0) {
			return t
		}
	}
	return nil
}

func (m *matcher) trimmedEnd(st *State, idx, tree *Term) bool {
	for end, li := range lvInfo {
		init, next, ok := lvParts(end)
		if !ok || init != mkLen(tree) || m.r.e.loops[li.id] != li {
			continue
		}
		if idx != tNil && st.truth(mkLt(idx, end, false)) != 0 {
			continue
		}
		last := mkSel(tree, mkBin("+", end, mkInt(-1)))
		good := len(next) > 0
		for k, n := range next {
			good = good && n == mkBin("+", end, mkInt(-1)) && li.back[k].truth(mkEq(last, tNil)) == 1
		}
		// stops only at a present node or at the start
		start := st.truth(mkLt(mkInt(0), end, false)) == 0
		if good && (start || idx != tNil && st.truth(mkEq(last, tNil)) == 0) {
			return true
		}
	}
	return false
}

// ---- C01, C02, C03 --------------------------------------------------------

func codecTypes() (structs, enums []string) {
	return sortedKeys(layouts), sortedKeys(enumSpecs)
}

// expectKeys lists the variants a layout defines.
func expectKeys(items []item, out map[string]bool) {
	for _, it := range items {
		switch it.k {
		case "opt":
			out[it.path+" presence=0"] = true
			out[it.path+" presence=1"] = true
			expectKeys(it.sub, out)
		case "switch":
			for x, l := range it.cases {
				out[fmt.Sprintf("%s=%d", it.path, x)] = true
				expectKeys(l, out)
			}
		case "vec":
			expectKeys(it.sub, out)
		}
	}
}

func (c *Ctx) readerMatch(T string, problem func(rule, construct, format string, args ...any), accept func(string, int64, *State)) *codecRun {
	r := c.runCodec(T, "unmarshal")
	m := &matcher{r: r, reader: true, covered: map[string]bool{}, where: T + ".unmarshal", problem: problem, accept: accept}
	for _, o := range r.outs {
		final := o.st.load(r.s)
		root, steps := chain(final)
		if root != mk("deref", "", r.s) {
			m.bad("the input stream is replaced by %v", final)
			continue
		}
		v := r.e.snap(o.st, o.st.load(r.self), nil)
		m.read(layouts[T], root, steps, o.st, v)
		c.unset(m, layouts[T], o.st, v, T)
	}
	exp := map[string]bool{}
	expectKeys(layouts[T], exp)
	for _, k := range sortedKeys(exp) {
		if !m.covered[k] {
			m.problem("variant", m.where, "no successful decoding for %s", k)
		}
		m.items++
	}
	c.count("layout_items", m.items)
	return r
}

// unset: fields that belong to no item of the decoded variant keep their zero
// value.
func (c *Ctx) unset(m *matcher, items []item, st *State, v *Term, T string) {
	t := c.p.namedType(T)
	if t == nil {
		return
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	used := map[string]bool{}
	var mark func(items []item, st *State)
	mark = func(items []item, st *State) {
		for _, it := range items {
			switch it.k {
			case "switch":
				d := m.path(v, it.path)
				for _, x := range caseVals(it) {
					s2 := st.clone()
					if s2.assume(mkEq(d, mkInt(x)), true) {
						mark(it.cases[x], s2)
					}
				}
			default:
				used[strings.Split(it.path, ".")[0]] = true
			}
		}
	}
	mark(items, st)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i).Name()
		if used[f] {
			continue
		}
		m.items++
		if x := valueAt(v, f); !isZero(x) {
			m.bad("field %q is not part of the decoded variant but holds %v", f, x)
		}
	}
}

func (c *Ctx) writerMatch(T string, layout []item, fname string, problem func(rule, construct, format string, args ...any)) {
	fn := c.fn(fname)
	r := &codecRun{c: c, T: T, fn: fn, self: mk("sym", "self_"+T), s: mk("sym", "builder"), ct: mk("sym", "ct")}
	termTypes[r.self] = fn.Params[0].Type()
	op := c.codecOpaque()
	r.e = c.engine(func(f *ssa.Function) bool { return op(f) && recvType(f) != T })
	args := []*Term{r.self, r.s}
	if len(fn.Params) > 2 {
		args = append(args, r.ct)
	}
	outs := c.run(r.e, fn, nil, args)
	m := &matcher{r: r, covered: map[string]bool{}, where: fname, problem: problem}
	root := deRef(r.self)
	for _, o := range outs {
		b := o.st.load(r.s)
		if b.Op == "berr" {
			continue
		}
		base, items := catItems(b)
		if base != mk("deref", "", r.s) {
			m.bad("the output is replaced by %v", b)
			continue
		}
		for k := range o.st.mem {
			if k != r.s && len(k.roots) == 0 {
				m.bad("the encoder modifies %v", k)
			}
		}
		m.write(layout, items, o.st, root)
	}
	exp := map[string]bool{}
	expectKeys(layout, exp)
	for _, k := range sortedKeys(exp) {
		if !m.covered[k] {
			m.problem("variant", m.where, "nothing is encoded for %s", k)
		}
		m.items++
	}
	c.count("layout_items", m.items)
}

// noExtraConditions: a successful outcome may only depend on the reads having
// succeeded, on discriminants, and on vector ends. Any other condition must
// not exclude inputs: the opposite condition succeeds too.
func (c *Ctx) noExtraConditions(r *codecRun, problem func(rule, construct, format string, args ...any)) {
	for _, o := range r.outs {
		for f, v := range o.st.facts {
			if plainCondition(f) {
				continue
			}
			if _, ok := asDiscriminant(f); ok {
				continue
			}
			ok := false
			for _, q := range r.outs {
				if w, has := q.st.facts[f]; has && w == v {
					continue
				}
				// the same variant?
				s2, same := q.st.clone(), true
				for g, w := range o.st.facts {
					if _, is := asDiscriminant(g); is && g != f {
						same = same && s2.assume(g, w)
					}
				}
				ok = ok || same
			}
			if !ok {
				problem("extra condition", r.T+".unmarshal", "decoding requires %v to be %v", f, v)
			}
		}
	}
}

func plainCondition(f *Term) bool {
	switch f.Op {
	case "can", "candec":
		return true
	case "lt":
		// declared length against what is left
		return f.Args[0].Op == "len" && f.Args[1].Op == "rd" && f.Args[1].Aux == "varint" ||
			f.Args[1].Op == "len" && f.Args[0].Op == "rd" && f.Args[0].Aux == "varint"
	case "eq":
		if f.Args[0].Op == "len" && f.Args[1] == mkInt(0) {
			x := f.Args[0].Args[0]
			return x.Op == "lv" || x.Op == "rest" || x.Op == "view"
		}
	}
	return false
}

func asDiscriminant(f *Term) (*Term, bool) {
	switch f.Op {
	case "eq", "lt":
		for i, a := range f.Args {
			b := f.Args[1-i]
			if b.isConst() {
				for a.Op == "field" {
					a = a.Args[0]
				}
				if a.Op == "rd" && (a.Aux == "u8" || a.Aux == "u16") || a.Op == "dec" || a.Op == "sym" {
					return a, true
				}
			}
		}
	case "maphas", "mapget":
		return asDiscriminant(mkEq(f.Args[1], mkInt(1)))
	}
	return nil, false
}

func checkC02(c *Ctx) {
	problem := func(rule, construct, format string, args ...any) {
		c.violate(rule, construct, posOf(c, construct), format, args...)
	}
	structs, enums := codecTypes()
	for _, T := range structs {
		c.guard(T+".unmarshal", func() {
			n := len(c.viol)
			r := c.readerMatch(T, problem, nil)
			if T != "ratchetTree" {
				c.noExtraConditions(r, problem)
			}
			c.oblige(len(c.viol) == n, "decoder layout", T, c.pos(r.fn.Pos()), "see layout reports")
		})
		c.guard(T+".marshal", func() {
			n := len(c.viol)
			c.writerMatch(T, layouts[T], T+".marshal", problem)
			c.oblige(len(c.viol) == n, "encoder layout", T, "", "see layout reports")
		})
	}
	for _, T := range enums {
		c.guard(T, func() { c.enumCodec(T, problem) })
	}
	for _, T := range sortedKeys(writerLayouts) {
		c.guard(T+".marshal", func() {
			n := len(c.viol)
			c.writerMatch(T, writerLayouts[T], T+".marshal", problem)
			c.oblige(len(c.viol) == n, "encoder layout", T, "", "see layout reports")
		})
	}
}

func posOf(c *Ctx, construct string) string {
	n := strings.Fields(construct)[0]
	if f := c.p.fn(n); f != nil {
		return c.pos(f.Pos())
	}
	return "?"
}

// enumCodec: an enumeration is one unsigned integer of its width, stored and
// written unchanged.
func (c *Ctx) enumCodec(T string, problem func(rule, construct, format string, args ...any)) {
	w := "u" + strconv.Itoa(enumSpecs[T].width)
	r := c.runCodec(T, "unmarshal")
	start := mk("deref", "", r.s)
	for _, o := range r.outs {
		ok := o.st.load(r.s) == mk("rest", w, start) && o.st.resolve(o.st.load(r.self)) == o.st.resolve(mk("rd", w, start))
		c.oblige(ok, "enum layout", T+".unmarshal", c.pos(o.pos), "reads %v into %v instead of one %s", o.st.load(r.s), o.st.load(r.self), w)
	}
	fn := c.fn(T + ".marshal")
	e := c.engine(nil)
	self, b := mk("sym", "self"), mk("sym", "builder")
	outs := c.run(e, fn, nil, []*Term{self, b})
	c.oblige(len(outs) > 0, "enum layout", T+".marshal", c.pos(fn.Pos()), "never returns")
	for _, o := range outs {
		v := o.st.load(b)
		ok := v == mk("cat", "", mk("deref", "", b), mk("int", w, self))
		c.oblige(ok, "enum layout", T+".marshal", c.pos(o.pos), "writes %v instead of one %s", v, w)
	}
}

func checkC03(c *Ctx) {
	structs, enums := codecTypes()
	for _, T := range enums {
		c.guard(T+".unmarshal", func() {
			r := c.runCodec(T, "unmarshal")
			sp := enumSpecs[T]
			d := mk("rd", "u"+strconv.Itoa(sp.width), mk("deref", "", r.s))
			m := &matcher{r: r, where: T + ".unmarshal", covered: map[string]bool{}}
			m.accept = func(where string, v int64, st *State) {
				c.violate("undefined value accepted", T+".unmarshal", c.pos(r.fn.Pos()), "value %d of %s is accepted (facts: %s)", v, T, factList(st, 6))
			}
			acc := map[int64]bool{}
			for _, o := range r.outs {
				m.acceptSet("", d, sp.vals, sp.width, o.st)
				for _, v := range sp.vals {
					s2 := o.st.clone()
					if s2.assume(mkEq(d, mkInt(v)), true) {
						acc[v] = true
					}
				}
				if c2 := o.st.load(r.self); o.st.resolve(c2) != o.st.resolve(d) {
					c.violate("value", T+".unmarshal", c.pos(o.pos), "the checked value %v is not the one read", c2)
				}
			}
			c.count("values_tried", m.items)
			for _, v := range sp.vals {
				c.oblige(acc[v], "defined value accepted", fmt.Sprintf("%s=%d", T, v), c.pos(r.fn.Pos()), "defined value %d of %s is rejected", v, T)
			}
		})
	}
	for _, T := range structs {
		c.guard(T+".unmarshal", func() {
			n := len(c.viol)
			problem := func(rule, construct, format string, args ...any) {
				c.violate(rule, construct, posOf(c, construct), format, args...)
			}
			accept := func(where string, v int64, st *State) {
				c.violate("undefined value accepted", where, posOf(c, where), "value %d is accepted (facts: %s)", v, factList(st, 6))
			}
			r := c.readerMatch(T, problem, accept)
			c.oblige(len(c.viol) == n, "accepted values", T, c.pos(r.fn.Pos()), "see reports")
		})
	}
}
