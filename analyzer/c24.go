package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A variant is data that exists only for one value of a discriminator.
type variant struct {
	typ   string
	disc  string // field, or "" for an argument of the decoder
	value int64
	field string
}

// variants of the structures of RFC 9420.
var variants = []variant{
	{"mlsMessage", "wireFormat", 1, "publicMessage"},
	{"mlsMessage", "wireFormat", 2, "privateMessage"},
	{"mlsMessage", "wireFormat", 3, "welcome"},
	{"mlsMessage", "wireFormat", 4, "groupInfo"},
	{"mlsMessage", "wireFormat", 5, "keyPackage"},
	{"framedContent", "contentType", 2, "proposal"},
	{"framedContent", "contentType", 3, "commit"},
	{"privateMessageContent", "", 2, "proposal"},
	{"privateMessageContent", "", 3, "commit"},
	{"proposal", "proposalType", 1, "add"},
	{"proposal", "proposalType", 2, "update"},
	{"proposal", "proposalType", 3, "remove"},
	{"proposal", "proposalType", 4, "preSharedKey"},
	{"proposal", "proposalType", 5, "reInit"},
	{"proposal", "proposalType", 6, "externalInit"},
	{"proposal", "proposalType", 7, "groupContextExtensions"},
	{"proposalOrRef", "typ", 1, "proposal"},
	{"node", "nodeType", 1, "leafNode"},
	{"node", "nodeType", 2, "parentNode"},
	{"leafNode", "leafNodeSource", 1, "lifetime"},
}

// presence decides whether pointers point to something.
type presence struct {
	c    *Ctx
	b    *bounds
	busy map[*Term]bool
	// self, args: the receiver type and arguments of the function analysed.
	self string
	args []*Term
}

// is: the discriminator d is known to be v.
func discIs(st *State, d *Term, v int64) bool {
	return st.holds(mkEq(d, mkInt(v)))
}

func (p *presence) present(st *State, t *Term) bool {
	if st.refuted(mkEq(t, tNil)) {
		return true
	}
	if p.busy[t] {
		return true
	}
	if l := sources(t); len(l) > 0 {
		// taken from a list
		if p.busy == nil {
			p.busy = map[*Term]bool{}
		}
		p.busy[t] = true
		all := true
		for _, s := range l {
			all = all && p.present(s.st, s.t)
		}
		delete(p.busy, t)
		if all {
			return true
		}
	}
	switch t.Op {
	case "fa":
		return p.present(st, t.Args[0])
	case "sym":
		return true
	case "ext":
		// results that come with an error or flag
		if cl := t.Args[0]; cl.Op == "call" {
			for i := 1; i < 4; i++ {
				if st.holds(mkEq(mkExt(cl, i), tNil)) || st.holds(mkExt(cl, i)) {
					return true
				}
			}
		}
	case "lv":
		li, init, next := lvOf(t)
		if li == nil || len(next) != len(li.back) {
			return false
		}
		if p.busy == nil {
			p.busy = map[*Term]bool{}
		}
		p.busy[t] = true
		defer delete(p.busy, t)
		if !p.present(li.entryState(st), init) {
			return false
		}
		for k, n := range next {
			if !p.present(li.back[k], n) {
				return false
			}
		}
		return true
	case "field":
		return p.variant(st, t)
	case "sel":
		return p.nodePresent(st, strip(t.Args[0]), t.Args[1])
	}
	return nonNil(t)
}

// entryState is the state a loop starts from, as far as known.
func (li *LoopInfo) entryState(st *State) *State {
	return st
}

// variant: the pointer in a field that exists for one variant only.
func (p *presence) variant(st *State, t *Term) bool {
	x := strip(t.Args[0])
	for _, v := range variants {
		if v.field != t.Aux {
			continue
		}
		if v.disc == "" {
			if x.Op == "dec" && x.Aux == v.typ && len(x.Args) == 2 && discIs(st, x.Args[1], v.value) {
				return true
			}
			if p.self == v.typ && len(p.args) == 3 && same(x, mk("deref", "", p.args[0])) && discIs(st, p.args[2], v.value) {
				return true
			}
			continue
		}
		if discIs(st, mkField(x, v.disc), v.value) {
			return true
		}
	}
	switch t.Aux {
	case "proposal":
		// proposals kept are those of contents found to be one
		if x.Op == "sel" && strip(x.Args[0]).Op == "field" && strip(x.Args[0]).Aux == "pendingProposals" {
			return true
		}
	case "leafNode", "parentNode":
		// in a tree, the kind of a node follows from its position
		other := int64(2)
		if t.Aux == "parentNode" {
			other = 1
		}
		if st.refuted(mkEq(mkField(x, "nodeType"), mkInt(other))) && x.Op == "deref" {
			return true
		}
		if x.Op != "deref" || strip(x.Args[0]).Op != "sel" {
			return false
		}
		idx := strip(x.Args[0]).Args[1]
		if t.Aux == "leafNode" {
			return p.leafPos(st, idx)
		}
		return p.parentPos(st, idx)
	}
	return false
}

// leafPos: idx is the position of a leaf.
func (p *presence) leafPos(st *State, idx *Term) bool {
	return halfForm(linK(idx)) != nil || even(st, idx) == 1
}

// even: 1 or 0 if the state tells whether x is even, otherwise -1.
func even(st *State, x *Term) int {
	// every other position
	if li, init, next := lvOf(x); li != nil && allEq(next, mkBin("+", strip(x), mkInt(2))) {
		if n, ok := init.intVal(); ok {
			return int(1 - n&1)
		}
	}
	for _, t := range []*Term{mkBin("%", x, mkInt(2)), mkBin("&", x, mkInt(1))} {
		if v := st.truth(mkEq(t, mkInt(0))); v >= 0 {
			return v
		}
		if v := st.truth(mkEq(t, mkInt(1))); v >= 0 {
			return 1 - v
		}
	}
	for _, f := range []string{"nodeIndex.left", "nodeIndex.right"} {
		if v := st.truth(mkExt(tCall(f, x), 1)); v >= 0 {
			return 1 - v
		}
	}
	return -1
}

// parentPos: idx is the position of a parent node.
func (p *presence) parentPos(st *State, idx *Term) bool {
	idx = strip(idx)
	if even(st, idx) == 0 || p.busy[idx] {
		return true
	}
	switch idx.Op {
	case "ext":
		cl := idx.Args[0]
		return idx.Aux == "0" && cl.Op == "call" && cl.Aux == "numLeaves.parent" && st.holds(mkExt(cl, 1))
	case "lv":
		li, _, _ := lvOf(idx)
		if li == nil {
			return false
		}
		// p, ok := parent(x); ok; p, ok = parent(p)
		for _, q := range li.lv {
			if st.holds(q) && pairs(idx, q) {
				return true
			}
		}
	case "sel":
		list := strip(idx.Args[0])
		for list.Op == "slice" {
			list = strip(list.Args[0])
		}
		return p.parents(st, list)
	}
	return false
}

// pairs: p and q are the two results of the same calls of parent.
func pairs(p, q *Term) bool {
	_, pi, pn := lvOf(p)
	_, qi, qn := lvOf(q)
	if pi == nil || qi == nil || len(pn) != len(qn) || len(pn) == 0 {
		return false
	}
	same := func(a, b *Term) bool {
		a, b = strip(a), strip(b)
		return a.Op == "ext" && b.Op == "ext" && a.Aux == "0" && b.Aux == "1" && a.Args[0] == b.Args[0] && a.Args[0].Op == "call" && a.Args[0].Aux == "numLeaves.parent"
	}
	for k := range pn {
		if !same(pn[k], qn[k]) {
			return false
		}
	}
	return same(pi, qi)
}

// parents: all elements of the list are positions of parent nodes.
func (p *presence) parents(st *State, list *Term) bool {
	list = strip(list)
	if p.busy[list] || emptySlice(st, list) {
		return true
	}
	switch list.Op {
	case "append":
		x := appendedIn(st, list, list.Args[0])
		return x != nil && p.parents(st, list.Args[0]) && p.parentPos(st, x)
	case "lv":
		li, init, next := lvOf(list)
		if li == nil || len(next) != len(li.back) || !p.parents(st, init) {
			return false
		}
		if p.busy == nil {
			p.busy = map[*Term]bool{}
		}
		p.busy[list] = true
		defer delete(p.busy, list)
		for k, n := range next {
			if !p.parents(li.back[k], n) {
				return false
			}
		}
		return true
	}
	return false
}

// nodePresent: the node at idx is present because it was put there.
func (p *presence) nodePresent(st *State, tree, idx *Term) bool {
	idx = strip(idx)
	if p.onPath(st, tree, idx) {
		return true
	}
	// equal to a position on the path
	for f, v := range st.facts {
		if f.Op != "eq" || !v {
			continue
		}
		for i, x := range f.Args {
			if strip(x) == idx && p.onPath(st, tree, strip(f.Args[1-i])) {
				return true
			}
		}
	}
	return false
}

// onPath: idx is an element of a path of nodes that were all filled, by merging
// an update path or by a loop here.
func (p *presence) onPath(st *State, tree, idx *Term) bool {
	if idx.Op != "sel" {
		return false
	}
	list := strip(idx.Args[0])
	for list.Op == "slice" {
		list = strip(list.Args[0])
	}
	for k := 0; k < 8; k++ {
		tree = strip(tree)
		if tree.Op == "out" && tree.Aux == "0" && tree.Args[0].Op == "call" && tree.Args[0].Aux == "ratchetTree.mergeUpdatePath" {
			cl := tree.Args[0]
			merged := false
			for _, i := range []*Term{cl, mkExt(cl, 0)} {
				merged = merged || st.holds(mkEq(i, tNil))
			}
			return merged && isFilteredPath(st, list, mkBin("*", mkInt(2), cl.Args[2]), tree)
		}
		li, init, next := lvOf(tree)
		if li == nil {
			return false
		}
		filled, kept := iterOf(st, list, li), true
		for j, n := range next {
			n = strip(n)
			if n == tree {
				filled = nil
				continue
			}
			set := n.Op == "upd" && strip(n.Args[0]) == tree && nonNil(n.Args[2])
			kept = kept && set
			if filled != nil && !(set && same(n.Args[1], mkSel(list, filled.i))) {
				filled = nil
			}
			_ = j
		}
		if filled != nil {
			return true
		}
		if !kept {
			return false
		}
		tree = init
	}
	return false
}

// pointers lists the pointers to structures of the package among the arguments
// of a call.
func (c *Ctx) structPointer(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := pt.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg() == c.p.ssa.Pkg
}

// A nodeStore puts a node into a tree.
type nodeStore struct {
	st       *State
	idx, val *Term
	instr    ssa.Instruction
}

// wellFormed: the node stored is of a kind that fits its position and has the
// data of that kind.
func (p *presence) wellFormed(s *nodeStore) string {
	if s.val == tNil {
		return ""
	}
	n := derefSnap(s.st.deepSnap(s.val))
	var ptr *Term
	fits := false
	switch t, _ := mkField(n, "nodeType").intVal(); t {
	case 1:
		ptr, fits = mkField(n, "leafNode"), p.leafPos(s.st, s.idx)
	case 2:
		ptr, fits = mkField(n, "parentNode"), p.parentPos(s.st, s.idx)
	default:
		// a node moved within or between trees
		if v := strip(s.val); v.Op == "sel" && linK(v.Args[1]).equal(linK(s.idx)) {
			return ""
		}
		return fmt.Sprintf("a node of unknown kind %v", mkField(n, "nodeType"))
	}
	if !p.present(s.st, ptr) {
		return "a node without the data of its kind"
	}
	if !fits {
		return fmt.Sprintf("a node of another kind than the position %v is for", s.idx)
	}
	return ""
}

type deref struct {
	st    *State
	ptr   *Term
	instr ssa.Instruction
	what  string
}

// derefs runs a function and lists the uses of pointers that need to point to
// something.
func (c *Ctx) derefs(name string) (l []deref, ns []*nodeStore, args []*Term, outs []Outcome) {
	opq := c.groupOpaque(nil, setOf(name))
	c.setup = func(e *Engine) {
		e.hooks.onAddr = func(e *Engine, st *State, ptr *Term, in ssa.Instruction) {
			l = append(l, deref{st.clone(), ptr, in, "access"})
		}
		e.hooks.onStore = func(e *Engine, st *State, addr, v *Term, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if x, ok := s.Addr.(*ssa.IndexAddr); ok && treeSlice(x.X.Type()) && typeStr(s.Val.Type()) == "*node" {
				ns = append(ns, &nodeStore{st.clone(), e.val(st, x.Index), v, in})
			}
		}
		e.hooks.onCall = func(e *Engine, st *State, callee string, args []*Term, in ssa.CallInstruction, fn *ssa.Function) {
			if fn == nil || !c.p.ours(fn) || !opq(fn) || len(fn.Params) != len(args) {
				return
			}
			for i, a := range args {
				if c.structPointer(fn.Params[i].Type()) && !nonNil(a) {
					l = append(l, deref{st.clone(), a, in, callee})
				}
			}
		}
	}
	defer func() { c.setup = nil }()
	args, outs = c.soloRun(name)
	return l, ns, args, outs
}

func checkC24(c *Ctx) {
	p := &presence{c: c, b: &bounds{c: c}}
	opq := c.groupOpaque(nil, nil)
	for _, name := range sortedKeys(c.p.fns) {
		fn := c.p.fns[name]
		i := strings.LastIndex(name, ".")
		exported := types.NewFunc(0, nil, name[i+1:], nil).Exported()
		if !opq(fn) && !exported && name != "Group.processCommit" && name != "groupFromSecrets" {
			continue
		}
		c.guard(name, func() {
			l, ns, args, outs := c.derefs(name)
			p.self, p.args = "", args
			if i > 0 {
				p.self = name[:i]
			}
			c.count("functions_examined", 1)
			for _, d := range l {
				c.count("pointer_uses", 1)
				root := d.ptr
				for root.Op == "fa" {
					root = root.Args[0]
				}
				if nonNil(root) || root.Op == "sym" || !p.b.feasible(d.st) {
					continue
				}
				c.oblige(p.present(d.st, d.ptr), "variant established before access", fnName(d.instr.Parent())+" "+d.what, c.pos(d.instr.Pos()),
					"in %s: %.300s may be absent here", name, d.ptr)
			}
			if exported {
				for _, o := range successes(outs) {
					for i, r := range o.res {
						if c.structPointer(fn.Signature.Results().At(i).Type()) && fn.Signature.Results().Len() > 1 {
							c.oblige(p.present(o.st, r), "results are present", name, c.pos(o.pos), "%s succeeds with the result %.200s, which may be absent", name, r)
						}
					}
				}
			}
			for _, s := range ns {
				if !p.b.feasible(s.st) {
					continue
				}
				why := p.wellFormed(s)
				c.count("node_stores", 1)
				c.oblige(why == "", "nodes in trees are of the kind of their position", fnName(s.instr.Parent()), c.pos(s.instr.Pos()), "in %s: %s is put into the tree", name, why)
			}
		})
	}
	c.guard("Group.UnmarshalAndProcessMessage", func() {
		r := c.receive()
		for i := range r.effs {
			ef := &r.effs[i]
			if en := r.pendingEntry(ef); ef.kind == "store" && en != nil {
				r.want(ef, p.present(ef.st, mkField(en, "proposal")), "kept proposals are present", "the proposal kept may be absent: %v", mkField(en, "proposal"))
			}
		}
	})
	c.guard("ratchetTree.unmarshal", func() {
		a, outs := c.soloRun("ratchetTree.unmarshal")
		for _, o := range successes(outs) {
			tree := o.st.load(a[0])
			c.oblige(forAll(o.st, tree, func(at *State, el, i *Term) bool { return kindFits(at, el, i) }), "nodes of decoded trees are of the kind of their position", fnName(o.fn), c.pos(o.pos),
				"a tree is accepted without establishing that each node is of the kind of its position")
		}
	})
	seen := map[string]bool{}
	for _, v := range variants {
		if seen[v.typ] {
			continue
		}
		seen[v.typ] = true
		c.guard(v.typ+".unmarshal", func() { c.decodedVariant(v.typ) })
	}
}

// kindFits: an element of a decoded tree is blank or of the kind its position
// is for.
func kindFits(st *State, el, i *Term) bool {
	if st.holds(mkEq(el, tNil)) {
		return true
	}
	t := mkField(mk("deref", "", el), "nodeType")
	leaf, parent := st.truth(mkEq(t, mkInt(1))), st.truth(mkEq(t, mkInt(2)))
	if leaf < 0 && parent >= 0 {
		leaf = 1 - parent
	}
	ev := even(st, i)
	if leaf >= 0 && leaf == ev {
		return true
	}
	// (kind == leaf) == (position is even)
	for f, v := range st.facts {
		if f.Op != "eq" || !v {
			continue
		}
		for k, x := range f.Args {
			y := f.Args[1-k]
			kind := x == mkEq(t, mkInt(1)) || x == mkNot(mkEq(t, mkInt(2)))
			pos := y == mkEq(mkBin("%", i, mkInt(2)), mkInt(0)) || y == mkEq(mkBin("&", i, mkInt(1)), mkInt(0))
			if kind && pos {
				return true
			}
		}
	}
	return false
}

// decodedVariant: a decoder that succeeds has filled in the data of the variant
// it announces.
func (c *Ctx) decodedVariant(T string) {
	r := c.runCodec(T, "unmarshal")
	for _, o := range r.outs {
		x := o.st.load(r.self)
		for _, v := range variants {
			if v.typ != T {
				continue
			}
			d := r.ct
			if v.disc != "" {
				d = mkField(x, v.disc)
			}
			if o.st.truth(mkEq(d, mkInt(v.value))) == 0 {
				continue
			}
			c.count("decoded_variants", 1)
			c.oblige(nonNil(mkField(x, v.field)), "decoding fills in the announced variant", T+".unmarshal "+v.field, c.pos(o.pos), "%s.%s may be absent after decoding", T, v.field)
		}
	}
}
