package main

import (
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A State is one disjunct of the abstract state at a program point: the value
// terms of the live SSA registers, the memory (root object -> value term) and
// the facts (branch conditions) known to hold.
type State struct {
	env   map[ssa.Value]*Term
	mem   map[*Term]*Term
	facts map[*Term]bool
	eqc   map[*Term]*Term // term -> constant it is known to equal
}

func newState() *State {
	return &State{env: map[ssa.Value]*Term{}, mem: map[*Term]*Term{}, facts: map[*Term]bool{}, eqc: map[*Term]*Term{}}
}

func (s *State) clone() *State {
	n := &State{
		env:   make(map[ssa.Value]*Term, len(s.env)+4),
		mem:   make(map[*Term]*Term, len(s.mem)+2),
		facts: make(map[*Term]bool, len(s.facts)+2),
		eqc:   make(map[*Term]*Term, len(s.eqc)+1),
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.eqc {
		n.eqc[k] = v
	}
	return n
}

// ---- conditions -----------------------------------------------------------

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return tFalse
	}
	if a.isConst() || (!b.isConst() && a.id > b.id) {
		a, b = b, a
	}
	// booleans
	if b == tTrue {
		return a
	}
	if b == tFalse {
		return mkNot(a)
	}
	// x+c == d  ->  x == d-c
	if n, ok := b.intVal(); ok {
		if base, c := linear(a); c != 0 && base != nil {
			return mkEq(base, mkInt(n-c))
		}
	}
	if b == tNil && nonNil(a) {
		return tFalse
	}
	if s, ok := b.strVal(); ok && s == "" {
		return mkEq(mkLen(a), mkInt(0))
	}
	return mk("eq", "", a, b)
}

func nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "mk", "mkmap", "hobj", "fa", "ia", "iap", "closure", "func", "iface", "errv", "global", "ref", "list":
		return true
	case "append":
		return t.Args[1].Op == "list" && len(t.Args[1].Args) > 0 || nonNil(t.Args[0])
	case "const":
		return t != tNil
	}
	return false
}

func mkNot(t *Term) *Term {
	if t == tTrue {
		return tFalse
	}
	if t == tFalse {
		return tTrue
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	return mk("not", "", t)
}

// nonNegative reports whether t is known to be >= 0 from its shape.
func nonNegative(t *Term) bool {
	switch t.Op {
	case "len", "sumsize":
		return true
	case "rd":
		switch t.Aux {
		case "varint", "u8", "u16", "u24", "u32":
			return true
		}
	case "const":
		n, ok := t.intVal()
		return ok && n >= 0
	}
	return false
}

// bigBuffers: consider buffers longer than length prefixes can express.
var bigBuffers bool

// difference: t is a-b of numbers that are not negative.
func difference(t *Term) (a, b *Term, ok bool) {
	if t.Op == "bin" && t.Aux == "-" && nonNegative(t.Args[0]) && nonNegative(t.Args[1]) {
		return t.Args[0], t.Args[1], true
	}
	return nil, nil, false
}

// mkLt is a < b; unsigned tells whether the comparison is on unsigned values.
func mkLt(a, b *Term, unsigned bool) *Term {
	if a == b {
		return tFalse
	}
	x, xok := a.intVal()
	y, yok := b.intVal()
	if xok && yok {
		return mkBool(x < y)
	}
	if xok {
		// c < t+k -> c-k < t (signed only)
		if base, k := linear(b); k != 0 && !unsigned {
			return mkLt(mkInt(x-k), base, unsigned)
		}
		if x >= 1<<30-1 && b.Op == "len" && !bigBuffers {
			return tFalse
		}
		if a, b, ok := difference(b); ok && x == 0 && !unsigned {
			return mkLt(b, a, unsigned)
		}
		if unsigned || nonNegative(b) {
			if x < 0 {
				return tTrue
			}
			if x == 0 {
				return mkNot(mkEq(b, mkInt(0)))
			}
		}
	}
	if yok {
		if base, k := linear(a); k != 0 && !unsigned {
			return mkLt(base, mkInt(y-k), unsigned)
		}
		if a, b, ok := difference(a); ok && y == 0 && !unsigned {
			return mkLt(a, b, unsigned)
		}
		if unsigned || nonNegative(a) {
			if y <= 0 {
				return tFalse
			}
			if y == 1 {
				return mkEq(a, mkInt(0))
			}
			if y >= 1<<30 && a.Op == "len" && !bigBuffers {
				return tTrue
			}
		}
	}
	if ba, ka := linear(a); ba != nil && !xok && !yok {
		if bb, kb := linear(b); bb != nil && ba == bb && !unsigned {
			return mkBool(ka < kb)
		} else if bb != nil && !unsigned && ka != 0 && kb != 0 {
			return mkLt(mkBin("+", ba, mkInt(ka-kb)), bb, unsigned)
		}
	}
	return mk("lt", "", a, b)
}

func atomOf(t *Term) (*Term, bool) {
	pol := true
	for t.Op == "not" {
		t = t.Args[0]
		pol = !pol
	}
	return t, pol
}

// truth evaluates a condition under the facts: 1 true, 0 false, -1 unknown.
func (s *State) truth(c *Term) int {
	if c == tTrue {
		return 1
	}
	if c == tFalse {
		return 0
	}
	a, pol := atomOf(c)
	b2i := func(b bool) int {
		if b == pol {
			return 1
		}
		return 0
	}
	if v, ok := s.facts[a]; ok {
		return b2i(v)
	}
	switch a.Op {
	case "ext":
		// all nodes but the root have a parent and a sibling
		if cl := a.Args[0]; a.Aux == "1" && cl.Op == "call" && (cl.Aux == "numLeaves.parent" || cl.Aux == "numLeaves.sibling") {
			if v, ok := s.facts[mkEq(tCall("numLeaves.root", cl.Args[0]), cl.Args[1])]; ok {
				return b2i(!v)
			}
		}
	case "eq":
		x, y := a.Args[0], a.Args[1]
		for i := range a.Args {
			if r := a.Args[i]; r.Op == "call" && r.Aux == "numLeaves.root" {
				for _, n := range []string{"numLeaves.parent", "numLeaves.sibling"} {
					if v, ok := s.facts[mkExt(tCall(n, r.Args[0], a.Args[1-i]), 1)]; ok {
						return b2i(!v)
					}
				}
			}
		}
		cx, cy := s.constOf(x), s.constOf(y)
		if cx != nil && cy != nil {
			return b2i(cx == cy)
		}
		if cx != nil && cx != x || cy != nil && cy != y {
			if cx == nil {
				cx = x
			}
			if cy == nil {
				cy = y
			}
			n := mkEq(cx, cy)
			if n != a {
				if r := s.truth(n); r >= 0 {
					return b2i(r == 1)
				}
			}
		}
		if s.facts[mk("lt", "", x, y)] || s.facts[mk("lt", "", y, x)] {
			return b2i(false)
		}
		if s.ranOut(x, y) || s.ranOut(y, x) {
			return b2i(true)
		}
	case "lt":
		x, y := a.Args[0], a.Args[1]
		cx, cy := s.constOf(x), s.constOf(y)
		if cx != nil && cy != nil {
			i, ok1 := cx.intVal()
			j, ok2 := cy.intVal()
			if ok1 && ok2 {
				return b2i(i < j)
			}
		}
		if s.facts[mk("lt", "", y, x)] || s.facts[mkEq(x, y)] {
			return b2i(false)
		}
		// constant bounds
		if n, ok := y.intVal(); ok {
			if n <= 0 && countsUp(x) {
				return b2i(false)
			}
			for f, v := range s.facts {
				if f.Op != "lt" {
					continue
				}
				if f.Args[0] == x {
					if m, ok := f.Args[1].intVal(); ok {
						if v && m <= n {
							return b2i(true)
						}
						if !v && m >= n {
							return b2i(false)
						}
					}
				}
			}
		}
	}
	return -1
}

// ranOut: i counts up to n, a length, and is no longer below it.
func (s *State) ranOut(i, n *Term) bool {
	if i.Op != "lv" || n.Op != "len" {
		return false
	}
	if v, ok := s.facts[mk("lt", "", i, n)]; !ok || v {
		return false
	}
	li, ok := counter(i)
	return ok && len(li.back) > 0 && boundedBy(li, i, n) && !n.any(func(t *Term) bool { return lvInfo[t] == li })
}

// countsUp: i counts from zero and stays below a bound, so it never wraps.
func countsUp(i *Term) bool {
	if i.Op != "lv" {
		return false
	}
	li, ok := counter(i)
	if !ok || len(li.back) == 0 {
		return false
	}
	for _, b := range li.back {
		bounded := false
		for f, v := range b.facts {
			if v && f.Op == "lt" && f.Args[0] == i {
				bounded = true
				break
			}
		}
		if !bounded {
			return false
		}
	}
	return true
}

func (s *State) constOf(t *Term) *Term {
	if t.isConst() {
		return t
	}
	if c, ok := s.eqc[t]; ok {
		return c
	}
	return nil
}

// assume adds a condition; false if it contradicts the facts.
func (s *State) assume(c *Term, val bool) bool {
	if !val {
		c = mkNot(c)
	}
	switch s.truth(c) {
	case 1:
		return true
	case 0:
		return false
	}
	a, pol := atomOf(c)
	if a.Op == "eq" && pol && a.Args[1].isConst() {
		// the facts known so far must be consistent with the new value
		x, v := a.Args[0], a.Args[1]
		for f, w := range s.facts {
			n := substShallow(f, x, v, 3)
			if n != f && (n == tTrue && !w || n == tFalse && w) {
				return false
			}
		}
		s.eqc[x] = v
	}
	s.facts[a] = pol
	return true
}

// substShallow replaces x by v in a condition (to a small depth).
func substShallow(t, x, v *Term, depth int) *Term {
	if t == x {
		return v
	}
	if depth == 0 || t.isConst() {
		return t
	}
	switch t.Op {
	case "eq", "lt", "not", "bin", "conv", "un", "maphas", "mapget":
	default:
		return t
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = substShallow(a, x, v, depth-1)
		ch = ch || args[i] != a
	}
	if !ch {
		return t
	}
	return rebuild(t, args)
}

// resolve replaces a term by the constant it is known to equal, if any.
func (s *State) resolve(t *Term) *Term {
	if c := s.constOf(t); c != nil {
		return c
	}
	return t
}

// ---- memory ---------------------------------------------------------------

func (s *State) load(p *Term) *Term {
	switch p.Op {
	case "fa":
		return mkField(s.load(p.Args[0]), p.Aux)
	case "ia":
		return mkSel(s.content(p.Args[0]), p.Args[1])
	case "iap":
		return mkSel(s.load(p.Args[0]), p.Args[1])
	case "ref":
		return p.Args[0]
	}
	if v, ok := s.mem[p]; ok {
		return v
	}
	if c, ok := initMaps[p]; ok {
		return c
	}
	if p.Op == "global" {
		if v, ok := globalInit[p.Aux]; ok {
			return v
		}
		if i := strings.LastIndexByte(p.Aux, '.'); i >= 0 && (strings.HasPrefix(p.Aux[i+1:], "Err") || p.Aux[i+1:] == "EOF") {
			return mk("errv", p.Aux)
		}
	}
	return mk("deref", "", p)
}

var globalInit = map[string]*Term{}

func (s *State) store(p, v *Term) {
	switch p.Op {
	case "fa":
		s.store(p.Args[0], mkWith(s.load(p.Args[0]), p.Aux, v, p.Typ))
	case "ia":
		s.setContent(p.Args[0], mkUpd(s.content(p.Args[0]), p.Args[1], v))
	case "iap":
		s.store(p.Args[0], mkUpd(s.load(p.Args[0]), p.Args[1], v))
	default:
		s.mem[p] = v
	}
}

// content is the current element sequence of a slice value.
func (s *State) content(sl *Term) *Term {
	switch sl.Op {
	case "slice":
		c := s.content(sl.Args[0])
		if n, ok := sl.Args[1].intVal(); ok && n == 0 {
			return c
		}
		return mk("sub", "", c, sl.Args[1])
	case "arr":
		return s.load(sl.Args[0])
	case "slc":
		return sl.Args[0]
	}
	if v, ok := s.mem[sl]; ok {
		return v
	}
	if sl.Op == "mk" {
		return mkZeros(sl)
	}
	return sl
}

func mkZeros(sl *Term) *Term {
	z := mk("zeros", sl.Aux2(), sl.Args[0])
	if z.Typ == nil {
		z.Typ = sl.Typ
	}
	return z
}

// Aux2 is the element type string recorded for a made slice.
func (t *Term) Aux2() string {
	if t.Typ != nil {
		return typeStr(t.Typ)
	}
	return ""
}

func (s *State) setContent(sl, c *Term) {
	switch sl.Op {
	case "slice":
		s.setContent(sl.Args[0], c)
	case "arr":
		s.store(sl.Args[0], c)
	default:
		isSliceRoot[sl] = true
		s.mem[sl] = c
	}
}

// elemAddr is the address of element i of slice sl.
func elemAddr(sl, i *Term) *Term {
	for {
		if sl.Op == "slice" {
			i = mkBin("+", sl.Args[1], i)
			sl = sl.Args[0]
			continue
		}
		if sl.Op == "arr" {
			return mk("iap", "", sl.Args[0], i)
		}
		return mk("ia", "", sl, i)
	}
}

// ---- canonical keys -------------------------------------------------------

func (s *State) envMemKey() string {
	var l []string
	for k, v := range s.env {
		l = append(l, k.Name()+"="+strconv.Itoa(v.id))
	}
	for k, v := range s.mem {
		l = append(l, "m"+strconv.Itoa(k.id)+"="+strconv.Itoa(v.id))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func (s *State) factKey() string {
	l := make([]string, 0, len(s.facts))
	for f, v := range s.facts {
		x := strconv.Itoa(f.id)
		if !v {
			x = "-" + x
		}
		l = append(l, x)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

const maxDisjuncts = 96

// mergeStates merges disjuncts that have the same values and memory: identical
// ones collapse, and two whose facts differ only in the sign of one atom drop
// that atom. Beyond a cap the facts are intersected.
func mergeStates(in []*State) []*State {
	if len(in) < 2 {
		return in
	}
	groups := map[string][]*State{}
	var order []string
	for _, s := range in {
		k := s.envMemKey()
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var out []*State
	for _, k := range order {
		g := mergeFacts(groups[k])
		out = append(out, g...)
	}
	return out
}

func mergeFacts(g []*State) []*State {
	for {
		seen := map[string]bool{}
		var d []*State
		for _, s := range g {
			k := s.factKey()
			if !seen[k] {
				seen[k] = true
				d = append(d, s)
			}
		}
		g = d
		if len(g) < 2 {
			return g
		}
		merged := false
	outer:
		for i := 0; i < len(g); i++ {
			for j := i + 1; j < len(g); j++ {
				if m := tryMerge(g[i], g[j]); m != nil {
					g[i] = m
					g = append(g[:j], g[j+1:]...)
					merged = true
					break outer
				}
			}
		}
		if !merged {
			break
		}
	}
	if len(g) > maxDisjuncts {
		stats.joins++
		g = []*State{joinFacts(g)}
	}
	return g
}

func tryMerge(a, b *State) *State {
	// a's facts subsume b's or differ in one sign
	var diff *Term
	if len(a.facts) == len(b.facts) {
		for f, v := range a.facts {
			w, ok := b.facts[f]
			if !ok {
				return nil
			}
			if w != v {
				if diff != nil {
					return nil
				}
				diff = f
			}
		}
		m := a.clone()
		if diff != nil {
			m.drop(diff)
		}
		return m
	}
	if len(a.facts) > len(b.facts) {
		a, b = b, a
	}
	for f, v := range a.facts {
		w, ok := b.facts[f]
		if !ok || w != v {
			return nil
		}
	}
	m := a.clone() // weaker facts cover both
	return m
}

func (s *State) drop(f *Term) {
	delete(s.facts, f)
	if f.Op == "eq" {
		delete(s.eqc, f.Args[0])
	}
}

func joinFacts(g []*State) *State {
	m := g[0].clone()
	for _, s := range g[1:] {
		for f, v := range m.facts {
			if w, ok := s.facts[f]; !ok || w != v {
				m.drop(f)
			}
		}
	}
	// values bounded in each state stay bounded
	cand := map[*Term]bool{}
	for x := range g[0].eqc {
		cand[x] = true
	}
	for f := range g[0].facts {
		if f.Op == "lt" && f.Args[1].isConst() {
			cand[f.Args[0]] = true
		}
	}
	for x := range cand {
		lo, hi, ok := g[0].interval(x)
		for _, s := range g[1:] {
			if !ok {
				break
			}
			l, h, k := s.interval(x)
			lo, hi, ok = min(lo, l), max(hi, h), k
		}
		if ok && lo < hi {
			m.assume(mkLt(x, mkInt(lo), false), false)
			m.assume(mkLt(x, mkInt(hi+1), false), true)
		}
	}
	return m
}

// interval are the constant bounds known for x.
func (s *State) interval(x *Term) (lo, hi int64, ok bool) {
	if c := s.eqc[x]; c != nil {
		n, ok := c.intVal()
		return n, n, ok
	}
	lo, hi = math.MinInt64, math.MaxInt64
	for f, v := range s.facts {
		if f.Op == "lt" && f.Args[1] == x {
			if n, isInt := f.Args[0].intVal(); isInt && v {
				lo = max(lo, n+1)
			} else if isInt {
				hi = min(hi, n)
			}
		}
		if f.Op != "lt" || f.Args[0] != x {
			continue
		}
		if n, isInt := f.Args[1].intVal(); isInt {
			if v {
				hi = min(hi, n-1)
			} else {
				lo = max(lo, n)
			}
		}
	}
	return lo, hi, lo != math.MinInt64 && hi != math.MaxInt64
}

var stats struct {
	funcs, blocks, calls, joins, loops, disjuncts int
	inlined                                       map[string]bool
}

// writtenElsewhere: memory not allocated during the analysis was written.
func (s *State) writtenElsewhere() bool {
	for k := range s.mem {
		switch k.Op {
		case "alloc", "mk", "mkmap", "global":
		default:
			return true
		}
	}
	return false
}
