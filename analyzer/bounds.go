package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// An access is a point where an element of a slice is used.
type access struct {
	st        *State
	base, idx *Term
	call      string // the access is made by this function
	instr     ssa.Instruction
}

// bounds decides whether node positions lie inside trees.
type bounds struct {
	c *Ctx
	// assume: positions known to be inside beforehand.
	assume    func(st *State, base, idx *Term) bool
	committer *Term          // a position known to be inside the tree of the group
	count     *Term          // a given number of leaves
	untrusted bool           // do not use what is established for accepted trees
	busy      map[*Term]bool // shown by induction over loops
	equal     map[*Term]bool // being replaced by equal ones
}

// treeLen is the length of a tree-shaped slice: ratchet trees, and the secret
// and private key trees made for them.
func treeLen(t *Term) *linForm {
	for k := 0; k < 20; k++ {
		t = lenBase(t)
		switch {
		case t.Op == "field" && t.Aux == "privTree":
			// groups keep as many private keys as tree nodes
			return linOf(mkLen(mkField(t.Args[0], "tree")))
		case t.Op == "ext" && t.Aux == "0" && t.Args[0].Op == "call" && t.Args[0].Aux == "deriveSecretTree":
			// a secret tree has the width of the number of leaves
			n := strip(t.Args[0].Args[1])
			if n.Op == "call" && n.Aux == "ratchetTree.numLeaves" {
				t = n.Args[0]
				continue
			}
			return linOf(n).add(linOf(n), 1).add(linOf(mkInt(1)), -1)
		case t.Op == "out" && t.Aux == "0" && t.Args[0].Op == "call" && (t.Args[0].Aux == "ratchetTree.mergeUpdatePath" || t.Args[0].Aux == "ratchetTree.update"):
			// trees passed by value keep their length
			t = t.Args[0].Args[0]
			continue
		case t.Op == "out" && t.Aux == "0" && t.Args[0].Op == "call" && t.Args[0].Aux == "ratchetTree.add" && allBlank(t.Args[0].Args[0]) != nil:
			// a blank place is used
			return linOf(allBlank(t.Args[0].Args[0]))
		case t.Op == "len":
			continue
		}
		break
	}
	l := mkLen(lenBase(t))
	if l.Op == "len" && l.Args[0] != lenBase(t) {
		return treeLen(l.Args[0])
	}
	return linOf(l)
}

// allBlank: t is a tree of one or more blank nodes; returns their number.
func allBlank(t *Term) *Term {
	t = strip(t)
	if t.Op == "ref" {
		t = strip(t.Args[0])
	}
	switch {
	case t.Op == "zeros" && t.Args[0].isConst() && t.Args[0] != mkInt(0):
		return t.Args[0]
	case t.Op == "list" && len(t.Args) > 0:
		for _, x := range t.Args {
			if norm(x) != tNil {
				return nil
			}
		}
		return mkInt(int64(len(t.Args)))
	}
	return nil
}

// neverEmpty: trees of groups, received trees and trees with an added leaf.
func neverEmpty(t *Term) bool {
	for x := range treeLen(t).m {
		if x.Op == "len" && treeLen(t).c >= 0 {
			y := strip(x.Args[0])
			return y.Op == "field" && y.Aux == "tree" || y.Op == "dec" && y.Aux == "ratchetTree" ||
				y.Op == "out" && y.Aux == "0" && y.Args[0].Op == "call" && y.Args[0].Aux == "ratchetTree.add"
		}
	}
	return false
}

func sameSize(a, b *Term) bool { return treeLen(a).equal(treeLen(b)) }

// leavesOf: n is the number of leaves of tree.
func leavesOf(n, tree *Term) bool {
	n = strip(n)
	if n.Op == "call" && n.Aux == "ratchetTree.numLeaves" {
		return sameSize(n.Args[0], tree)
	}
	// 2n-1 nodes
	return treeLen(tree).equal(linOf(n).add(linOf(n), 1).add(linOf(mkInt(1)), -1))
}

func (b *bounds) inside(st *State, base, idx *Term) bool {
	idx = strip(idx)
	if b.busy[idx] {
		return true
	}
	if b.busy == nil {
		b.busy = map[*Term]bool{}
	}
	if b.assume != nil && b.assume(st, base, idx) {
		return true
	}
	if st.truth(mkLt(idx, mkLen(base), false)) == 1 {
		return true
	}
	if idx == mkInt(0) && neverEmpty(base) {
		return true
	}
	d := treeLen(base).add(linK(idx), -1)
	if len(d.m) == 0 && d.c > 0 || knowsLess(st, d) == 1 {
		return true
	}
	for f, v := range st.facts {
		if len(f.Args) != 2 {
			continue
		}
		x, y := strip(f.Args[0]), strip(f.Args[1])
		switch {
		case f.Op == "lt" && v && x == idx:
			// below a number that only decreased from the length
			if z, init, ok := descending(st, y); ok {
				d := treeLen(base).add(linOf(substShallow(y, z, init, 8)), -1)
				if len(d.m) == 0 && d.c >= 0 {
					return true
				}
			}
		case f.Op == "eq" && !v && (x == tNil || y == tNil):
			// a present node was seen at this position
			if x == tNil {
				x = y
			}
			if x.Op == "sel" && sameSize(x.Args[0], base) && linK(x.Args[1]).equal(linK(idx)) {
				return true
			}
		case f.Op == "eq" && v && b.lcaOf(x, idx) && y.Op == "sel" || f.Op == "eq" && v && b.lcaOf(y, idx) && x.Op == "sel":
			// what is below a node inside is inside
			if x.Op != "sel" {
				x = y
			}
			if b.inside(st, base, x) {
				return true
			}
		case f.Op == "eq" && v && (x == idx || y == idx) && x != y:
			if x == idx {
				x = y
			}
			if b.equal[x] || b.equal[idx] || x.Op != "sel" {
				continue
			}
			if b.equal == nil {
				b.equal = map[*Term]bool{}
			}
			b.equal[idx] = true
			ok := b.inside(st, base, x)
			delete(b.equal, idx)
			if ok {
				return true
			}
		}
	}
	if half := halfForm(linK(idx)); half != nil && b.leafInside(st, base, half) {
		return true
	}
	if b.grownTree(st, base, idx) {
		return true
	}
	if x, init, ok := descending(st, idx); ok {
		// not above where it starts
		up := substShallow(idx, x, init, 8)
		if n := halfForm(linOf(up)); n != nil && lastLeafOf(n, base) || treeLen(base).add(linOf(up), -1).c > 0 && len(treeLen(base).add(linOf(up), -1).m) == 0 {
			return true
		}
	}
	if l := sources(idx); len(l) > 0 {
		// taken from a list
		b.busy[idx] = true
		all := true
		for _, s := range l {
			all = all && (!b.feasible(s.st) || b.inside(s.st, base, s.t))
		}
		delete(b.busy, idx)
		if all {
			return true
		}
	}
	part := func(base2, x *Term) bool { return sameSize(base2, base) && b.inside(st, base, x) }
	switch {
	case idx.Op == "lv":
		li, init, next := lvOf(idx)
		if li == nil || len(next) == 0 {
			return false
		}
		b.busy[idx] = true
		defer delete(b.busy, idx)
		if !b.inside(st, base, init) {
			return false
		}
		for k, n := range next {
			at := st
			if len(next) == len(li.back) {
				at = li.back[k]
			}
			if !b.inside(at, base, n) {
				return false
			}
		}
		return true
	case idx.Op == "ext" && idx.Aux == "0" && idx.Args[0].Op == "call":
		cl := idx.Args[0]
		switch cl.Aux {
		case "numLeaves.parent", "numLeaves.sibling":
			return leavesOf(cl.Args[0], base) && b.inside(st, base, cl.Args[1])
		case "nodeIndex.left", "nodeIndex.right":
			return b.inside(st, base, cl.Args[0])
		}
	case idx.Op == "call" && idx.Obj != nil && idx.Obj == b.c.p.lca():
		return b.inside(st, base, idx.Args[0]) && b.inside(st, base, idx.Args[1])
	case idx.Op == "call" && idx.Aux == "numLeaves.root":
		return leavesOf(idx.Args[0], base)
	case idx.Op == "sel":
		list := strip(idx.Args[0])
		for list.Op == "slice" {
			list = strip(list.Args[0])
		}
		if list.Op == "call" && list.Aux == "ratchetTree.resolve" {
			return part(list.Args[0], list.Args[1])
		}
		return b.listInside(st, base, list)
	}
	return false
}

// lcaOf: t is a common ancestor of x and another node.
func (b *bounds) lcaOf(t, x *Term) bool {
	return t.Op == "call" && t.Obj != nil && t.Obj == b.c.p.lca() && (same(t.Args[0], x) || same(t.Args[1], x))
}

// descending: idx contains a variable x that only decreases from init, and is
// not negative.
func descending(st *State, idx *Term) (x, init *Term, ok bool) {
	idx.any(func(t *Term) bool {
		li, i, next := lvOf(t)
		if t.Op != "lv" || li == nil || len(next) == 0 || len(next) != len(li.back) {
			return false
		}
		for k, n := range next {
			d := linOf(t).add(linOf(n), -1)
			if len(d.m) != 0 || d.c < 0 || d.c > 1 {
				return false
			}
			b := li.back[k]
			if d.c == 1 && !b.refuted(mkEq(t, mkInt(0))) && b.truth(mkLt(mkInt(0), t, false)) != 1 && b.truth(mkLt(t, mkInt(1), false)) != 0 {
				return false
			}
		}
		x, init, ok = t, i, true
		return true
	})
	if !ok {
		return
	}
	l := linOf(idx)
	switch {
	case l.c >= 0:
	case l.c == -1 && (st.refuted(mkEq(x, mkInt(0))) || st.truth(mkLt(mkInt(0), x, false)) == 1):
	default:
		return nil, nil, false
	}
	for t, k := range l.m {
		if k < 0 || t != x && t.any(func(y *Term) bool { return y == x }) {
			return nil, nil, false
		}
	}
	return x, init, true
}

// lastLeafOf: n is the last leaf of the tree or one before.
func lastLeafOf(n *linForm, tree *Term) bool {
	if n.c >= 0 || len(n.m) != 1 {
		return false
	}
	for t, k := range n.m {
		return k == 1 && leavesOf(t, tree)
	}
	return false
}

// grownTree: the tree was doubled, and idx is at most the first position behind
// the former tree.
func (b *bounds) grownTree(st *State, base, idx *Term) bool {
	grown := through(st, base)
	for k := 0; k < 20; k++ {
		g := strip(grown)
		if g.Op == "upd" {
			grown = g.Args[0]
			continue
		}
		li, init, next := lvOf(g)
		if li == nil {
			break
		}
		upd := len(next) > 0
		for _, n := range next {
			upd = upd && (strip(n) == g || strip(n).Op == "upd")
		}
		if !upd {
			break
		}
		grown = init
	}
	grown = strip(grown)
	var from *Term
	switch _, init, _ := lvOf(grown); {
	case init != nil:
		from = init
	case grown.Op == "copied":
		from = grown.Args[1]
	case grown.Op == "append":
		from = grown.Args[0]
	default:
		return false
	}
	if extended(st, grown, from) != "" {
		return false
	}
	half := halfForm(linK(idx))
	if half == nil {
		return false
	}
	if li := loopOf(half); li != nil {
		for _, back := range li.back {
			if insideTree(back, linOf(mkBin("*", mkInt(2), iters(li))), from) != 1 {
				return false
			}
		}
		return true
	}
	for t, k := range half.m {
		return len(half.m) == 1 && k == 1 && half.c <= 0 && leavesOf(t, from)
	}
	return false
}

// listInside: all elements of the list are positions inside the tree.
func (b *bounds) listInside(st *State, base, list *Term) bool {
	list = strip(list)
	if b.busy[list] || emptySlice(st, list) || list == tNil {
		return true
	}
	switch {
	case list.Op == "lv":
		li, init, next := lvOf(list)
		if li == nil || !b.listInside(st, base, init) {
			return false
		}
		b.busy[list] = true
		defer delete(b.busy, list)
		for k, n := range next {
			at := st
			if len(next) == len(li.back) {
				at = li.back[k]
			}
			if !b.listInside(at, base, n) {
				return false
			}
		}
		return true
	case list.Op == "append":
		x := appendedIn(st, list, list.Args[0])
		return x != nil && b.listInside(st, base, list.Args[0]) && b.inside(st, base, x)
	}
	return false
}

// leafInside: a leaf position lies inside the tree.
func (b *bounds) leafInside(st *State, base *Term, li *linForm) bool {
	for f, v := range st.facts {
		if f.Op != "lt" && f.Op != "eq" {
			continue
		}
		for _, a := range f.Args {
			if leavesOf(a, base) && knowsLess(st, linK(a).add(li, -1)) == 1 {
				return true
			}
			_ = v
		}
	}
	if insideTree(st, li.add(li, 1), lenBase(base)) == 1 {
		return true
	}
	if li.c != 0 || len(li.m) != 1 {
		return false
	}
	for x, k := range li.m {
		if k != 1 {
			return false
		}
		switch {
		case x.Op == "field" && x.Aux == "myLeafIndex":
			return sameSize(mkField(x.Args[0], "tree"), base)
		case x.Op == "field" && x.Aux == "removed":
			return b.removable(st, base, x)
		case x.Op == "sel" && x.Args[0].Op == "ext" && x.Args[0].Aux == "1" && x.Args[0].Args[0].Op == "call" && x.Args[0].Args[0].Aux == "resolveProposals":
			// the committer or the sender of a proposal kept before, both
			// found inside the tree of the group
			cl := x.Args[0].Args[0]
			p := strip(cl.Args[2])
			return b.committer != nil && same(cl.Args[1], b.committer) && p.Op == "field" && p.Aux == "pendingProposals" && sameSize(mkField(p.Args[0], "tree"), base)
		case x.Op == "sel" && x.Args[0].Op == "field" && x.Args[0].Aux == "unmergedLeaves":
			// trees are only accepted with unmerged leaves inside
			if b.untrusted {
				return false
			}
			t := x.Args[0].Args[0]
			for _, f := range []string{"parentNode", ""} {
				if t.Op != "deref" {
					return false
				}
				t = strip(t.Args[0])
				if f != "" && (t.Op != "field" || t.Aux != f) {
					return false
				}
				if f != "" {
					t = t.Args[0]
				}
			}
			return t.Op == "sel" && sameSize(t.Args[0], base)
		}
	}
	return false
}

// removable: x is the position in a proposal of a list, all of which were found
// to name a leaf of the tree before the tree was changed. (They are distinct,
// C16, and the tree is never cut before a leaf.)
func (b *bounds) removable(st *State, base, x *Term) bool {
	el := strip(x.Args[0])
	if el.Op != "deref" || strip(el.Args[0]).Op != "field" {
		return false
	}
	el = strip(strip(el.Args[0]).Args[0])
	if el.Op != "sel" {
		return false
	}
	seq := el.Args[0]
	orig := lenBase(base)
	if li, init, next := lvOf(orig); li != nil {
		for _, n := range next {
			n = strip(n)
			if n != orig && !(n.Op == "out" && n.Aux == "0" && n.Args[0].Op == "call" && n.Args[0].Aux == "ratchetTree.remove" && strip(n.Args[0].Args[0]) == orig) {
				return false
			}
		}
		orig = init
	}
	return forAll(st, seq, func(at *State, e, i *Term) bool {
		return notType(at, e, 3) || b.inside(at, orig, mkBin("*", mkInt(2), pv(e, "*remove.removed")))
	})
}

// treeSlice: t is a slice indexed by node positions.
func treeSlice(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == "secretTree" {
		return true
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	e := types.TypeString(s.Elem(), func(*types.Package) string { return "" })
	return e == "*node" || e == "hpkePrivateKey"
}

// feasible: trees are not empty.
func (b *bounds) feasible(st *State) bool {
	for f, v := range st.facts {
		if v && f.Op == "eq" && (f.Args[0] == mkInt(0) || f.Args[1] == mkInt(0)) {
			x := strip(f.Args[0])
			if f.Args[0] == mkInt(0) {
				x = strip(f.Args[1])
			}
			if x.Op == "call" && x.Aux == "ratchetTree.numLeaves" || x == b.count {
				return false
			}
		}
		if v && f.Op == "eq" && !b.stored(st, f.Args[0], f.Args[1]) {
			return false
		}
		if !v && f.Op == "lt" {
			// a counter is not beyond the number it is counted up to
			if li, ok := counter(f.Args[0]); ok && boundedBy(li, f.Args[0], f.Args[1]) && st.refuted(mkEq(f.Args[0], f.Args[1])) {
				return false
			}
		}
		if f.Op == "ext" && f.Aux == "1" && f.Args[0].Op == "call" && (f.Args[0].Aux == "nodeIndex.left" || f.Args[0].Aux == "nodeIndex.right") {
			// all nodes but leaves have children
			x := f.Args[0].Args[0]
			even := st.truth(mkEq(mkBin("%", x, mkInt(2)), mkInt(0)))
			if even < 0 {
				even = st.truth(mkEq(mkBin("&", x, mkInt(1)), mkInt(0)))
			}
			if even == 1 && v || even == 0 && !v {
				return false
			}
		}
	}
	return true
}

// stored: a field of an element of a list filled in a loop may have value v.
func (b *bounds) stored(st *State, x, v *Term) bool {
	if x.isConst() {
		x, v = v, x
	}
	x = strip(x)
	if x.Op != "field" || strip(x.Args[0]).Op != "sel" || !v.isConst() {
		return true
	}
	list := strip(strip(x.Args[0]).Args[0])
	li, init, next := lvOf(list)
	if li == nil || len(next) != len(li.back) || strip(init).Op != "zeros" && !emptySlice(st, init) {
		return true
	}
	if n, ok := v.intVal(); ok && n == 0 {
		return true
	}
	for k, n := range next {
		for n = strip(n); n != list; n = strip(n.Args[0]) {
			var el *Term
			switch n.Op {
			case "upd":
				el = n.Args[2]
			case "append":
				el = appendedIn(li.back[k], n, n.Args[0])
			}
			if el == nil {
				return true
			}
			if w := mkField(el, x.Aux); !w.isConst() || w == v {
				return true
			}
		}
	}
	return false
}
