package main

// Rules for resolving proposals and merging update paths.

// resolveRule: every proposal of a commit is taken from the commit itself or
// from the pending proposal with the same reference; unknown references fail.
func (c *Ctx) resolveRule() {
	fn := c.fn("resolveProposals")
	a := SymArgs(fn)
	refs, sender, pending := a[0], a[1], a[2]
	e := c.engine(c.groupOpaque(nil, nil))
	n := 0
	for _, o := range successes(c.run(e, fn, nil, a)) {
		n++
		pos := c.pos(o.pos)
		bad := func(ok bool, format string, args ...any) bool {
			return c.oblige(ok, "proposals resolved", "resolveProposals", pos, format, args...)
		}
		props, senders := e.snap(o.st, o.res[0], nil), e.snap(o.st, o.res[1], nil)
		if o.st.holds(mkEq(mkLen(refs), mkInt(0))) {
			bad(norm(props) == tNil && norm(senders) == tNil, "proposals without references")
			continue
		}
		l1, i1, n1 := lvOf(props)
		l2, i2, n2 := lvOf(senders)
		if !bad(l1 != nil && l1 == l2 && emptySlice(o.st, i1) && emptySlice(o.st, i2) && len(n1) == len(l1.back) && len(n2) == len(l1.back), "proposals and senders are not collected together: %v, %v", props, senders) {
			continue
		}
		var it *iter
		for _, x := range itersOver(o.st, refs) {
			if x.li == l1 {
				x := x
				it = &x
			}
		}
		if !bad(it != nil, "not every proposal or reference of the commit is visited") {
			continue
		}
		el := mkSel(refs, it.i)
		typ := mkField(el, "typ")
		for k, b := range l1.back {
			p, s := appendedOne(n1[k], strip(props)), appendedOne(n2[k], strip(senders))
			switch {
			case b.refuted(mkEq(typ, mkInt(1))) && b.refuted(mkEq(typ, mkInt(2))):
				bad(n1[k] == strip(props), "something is added for an undefined tag")
			case b.holds(mkEq(typ, mkInt(1))):
				bad(p != nil && same(p, pv(el, "*proposal")) && s != nil && same(s, sender), "an inline proposal is resolved to %v from %v", n1[k], n2[k])
			case b.refuted(mkEq(typ, mkInt(1))):
				if !bad(p != nil && s != nil, "a reference is resolved to nothing") {
					continue
				}
				q := pendingOf(p, pending)
				bad(q != nil && same(s, mkField(q, "sender")) && b.holdsBytesEq(mkField(q, "ref"), mkField(el, "reference")), "a reference is resolved to %v from %v without matching the reference", p, s)
			default:
				bad(false, "resolution does not depend on the tag")
			}
		}
	}
	c.count("resolutions", n)
}

// appendedOne: t is base with one element appended; returns the element.
func appendedOne(t, base *Term) *Term {
	t = strip(t)
	if t.Op == "append" && t.Args[0] == base && t.Args[1].Op == "list" && len(t.Args[1].Args) == 1 {
		return t.Args[1].Args[0]
	}
	return nil
}

// pendingOf: t is the proposal of an element of the pending list; returns the
// element.
func pendingOf(t, pending *Term) *Term {
	t = strip(t)
	if t.Op == "deref" && t.Args[0].Op == "field" && t.Args[0].Aux == "proposal" {
		el := t.Args[0].Args[0]
		if el.Op == "sel" && same(el.Args[0], pending) {
			return el
		}
	}
	return nil
}

// lenBase strips element updates: the tree whose length t has.
func lenBase(t *Term) *Term {
	for k := 0; k < 20; k++ {
		t = strip(t)
		switch t.Op {
		case "upd":
			t = t.Args[0]
			continue
		case "lv":
			init, next, ok := lvParts(t)
			if !ok {
				return t
			}
			for _, n := range next {
				n = strip(n)
				for n.Op == "upd" {
					n = strip(n.Args[0])
				}
				if n != t {
					return t
				}
			}
			t = init
			continue
		}
		return t
	}
	return t
}

// sizeOf: t is the number of leaves of a tree as long as tree.
func sizeOf(t, tree *Term) bool {
	t = strip(t)
	return t.Op == "call" && t.Aux == "ratchetTree.numLeaves" && linOf(mkLen(lenBase(t.Args[0]))).equal(linOf(mkLen(lenBase(tree))))
}

// climbs: x is the node variable of a loop that goes from start up to the
// root of the tree, left (in st) only when there is no parent.
func climbs(st *State, x, start, tree *Term) *LoopInfo {
	li, init, next := lvOf(x)
	if li == nil || !same(init, start) || len(next) == 0 {
		return nil
	}
	var par *Term
	for _, n := range next {
		n = strip(n)
		if n.Op != "ext" || n.Aux != "0" || n.Args[0].Op != "call" || n.Args[0].Aux != "numLeaves.parent" || !sizeOf(n.Args[0].Args[0], tree) || n.Args[0].Args[1] != strip(x) {
			return nil
		}
		par = n.Args[0]
	}
	if st != nil && !st.refuted(mkExt(par, 1)) && !atRoot(st, strip(x), tree) {
		return nil
	}
	return li
}

// atRoot: st knows x to be the root of the tree, which has no parent.
func atRoot(st *State, x, tree *Term) bool {
	for f, v := range st.facts {
		if !v || f.Op != "eq" {
			continue
		}
		for i := range f.Args {
			if r := strip(f.Args[1-i]); strip(f.Args[i]) == x && r.Op == "call" && r.Aux == "numLeaves.root" && sizeOf(r.Args[0], tree) {
				return true
			}
		}
	}
	return false
}

// climber finds the node variables of a loop that goes from start up to the
// root: the child (if there is such a variable) and its parent, the ancestor
// visited in an iteration.
func climber(st *State, li *LoopInfo, start, tree *Term) (child, anc *Term) {
	for _, x := range li.lv {
		if climbs(st, x, start, tree) == li {
			_, _, xn := lvOf(x)
			return x, strip(xn[0])
		}
	}
	// for p, ok := parent(start); ok; p, ok = parent(p)
	isParent := func(t *Term, of *Term) *Term {
		t = strip(t)
		if t.Op == "ext" && t.Args[0].Op == "call" && t.Args[0].Aux == "numLeaves.parent" && sizeOf(t.Args[0].Args[0], tree) && same(t.Args[0].Args[1], of) {
			return t.Args[0]
		}
		return nil
	}
	for _, p := range li.lv {
		_, init, next := lvOf(p)
		first := isParent(init, start)
		if first == nil || len(next) == 0 || strip(init).Aux != "0" {
			continue
		}
		ok := true
		var up *Term
		for _, n := range next {
			up = isParent(n, strip(p))
			ok = ok && up != nil && strip(n).Aux == "0"
		}
		if !ok {
			continue
		}
		left := false
		for _, q := range li.lv {
			_, qi, qn := lvOf(q)
			if qi == mkExt(first, 1) && allEq(qn, mkExt(up, 1)) && (st == nil || st.refuted(q)) {
				left = true
			}
		}
		if !left {
			continue
		}
		for _, y := range li.lv {
			if _, yi, yn := lvOf(y); same(yi, start) && allEq(yn, p) {
				child = y
			}
		}
		return child, p
	}
	// for _, p := range the list of all ancestors of start
	for _, b := range li.back {
		for f := range b.facts {
			if f.Op != "lt" || f.Args[1].Op != "len" {
				continue
			}
			l := strip(f.Args[1].Args[0])
			if l2, _, _ := lvOf(l); l2 == nil || l2 == li {
				continue
			}
			if it := iterOf(st, l, li); it != nil && isDirectPath(st, l, start, tree) {
				anc := mkSel(l, it.i)
				for _, y := range li.lv {
					if _, yi, yn := lvOf(y); same(yi, start) && allEq(yn, anc) {
						child = y
					}
				}
				return child, anc
			}
		}
	}
	return nil, nil
}

// isDirectPath: t is the list of all ancestors of start, from the bottom.
func isDirectPath(st *State, t, start, tree *Term) bool {
	t = strip(t)
	li, init, next := lvOf(t)
	if li == nil || !emptySlice(li.entry, init) || len(next) != len(li.back) {
		return false
	}
	_, par := climber(st, li, start, tree)
	if par == nil {
		return false
	}
	for _, n := range next {
		if e := appendedOne(n, t); e == nil || !same(e, par) {
			return false
		}
	}
	return true
}

// isFilteredPath: t is the list of ancestors of start whose child on the
// copath has a non-empty resolution.
func isFilteredPath(st *State, t, start, tree *Term) bool {
	t = strip(t)
	li, init, next := lvOf(t)
	if li == nil || !emptySlice(li.entry, init) || len(next) != len(li.back) {
		return false
	}
	x, par := climber(st, li, start, tree)
	if x == nil {
		return false
	}
	for k, b := range li.back {
		known := 0
		for f, v := range b.facts {
			// len(resolve(tree, sibling(x))) == 0, or 0 < len(...)
			if f.Op != "eq" && f.Op != "lt" {
				continue
			}
			for _, a := range f.Args {
				if a.Op != "len" || !isCopathResolution(a.Args[0], x, tree) {
					continue
				}
				if b.refuted(mkEq(a, mkInt(0))) || b.truth(mkLt(mkInt(0), a, false)) == 1 {
					known = 1
				} else if b.holds(mkEq(a, mkInt(0))) || b.truth(mkLt(mkInt(0), a, false)) == 0 {
					known = -1
				}
			}
			_ = v
		}
		switch n := strip(next[k]); {
		case n == t:
			if known != -1 {
				return false
			}
		default:
			if e := appendedOne(n, t); e == nil || !same(e, par) || known != 1 {
				return false
			}
		}
	}
	return true
}

// isCopathResolution: t is resolve(tree, sibling(x)).
func isCopathResolution(t, x, tree *Term) bool {
	t = strip(t)
	if t.Op != "call" || t.Aux != "ratchetTree.resolve" || !linOf(mkLen(lenBase(t.Args[0]))).equal(linOf(mkLen(lenBase(tree)))) {
		return false
	}
	s := strip(t.Args[1])
	return s.Op == "ext" && s.Aux == "0" && s.Args[0].Op == "call" && s.Args[0].Aux == "numLeaves.sibling" && sizeOf(s.Args[0].Args[0], tree) && s.Args[0].Args[1] == strip(x)
}

// mergeParts are the matched parts of a merged update path.
type mergeParts struct {
	direct, filtered *Term
	blanked, filled  *Term // tree after blanking, after filling
}

// mergeRule checks ratchetTree.mergeUpdatePath: the number of nodes, the
// parent hash chain and the tree changes.
func (c *Ctx) mergeRule() {
	fn := c.fn("ratchetTree.mergeUpdatePath")
	a := SymArgs(fn)
	tree, cs, sender, path := a[0], a[1], a[2], mk("deref", "", a[3])
	node := mkBin("*", mkInt(2), sender)
	e := c.engine(c.groupOpaque(nil, setOf("ratchetTree.mergeUpdatePath")))
	n := 0
	for _, o := range successes(c.run(e, fn, nil, a)) {
		n++
		st := o.st
		pos := c.pos(o.pos)
		need := func(ok bool, rule, format string, args ...any) bool {
			return c.oblige(ok, rule, "ratchetTree.mergeUpdatePath", pos, format, args...)
		}
		// one node per filtered ancestor
		nodes := mkField(path, "nodes")
		var filt *Term
		for f, v := range st.facts {
			if !v || f.Op != "eq" {
				continue
			}
			for i := range f.Args {
				x, y := f.Args[i], f.Args[1-i]
				if x == mkLen(nodes) && y.Op == "len" && isFilteredPath(st, y.Args[0], node, tree) {
					filt = strip(y.Args[0])
				}
			}
		}
		if !need(filt != nil, "one path node per filtered ancestor", "the number of path nodes is not compared with the filtered direct path of the sender") {
			continue
		}
		final := strip(through(st, tree))
		m := &mergeParts{filtered: filt}
		if why := m.match(st, final, tree, node, path); why != "" {
			need(false, "path merged into the tree", "%s", why)
			continue
		}
		need(true, "path merged into the tree", "")
		why := "no comparison of the new leaf's parent hash with the computed chain"
		for f, v := range st.facts {
			if !v || f.Op != "beq" && f.Op != "eq" {
				continue
			}
			for i := range f.Args {
				if same(f.Args[i], pv(path, "leafNode.parentHash")) {
					if why = m.chain(st, f.Args[1-i], cs, node, path); why == "" {
						break
					}
				}
			}
			if why == "" {
				break
			}
		}
		need(why == "", "parent hash chain matches", "%s", why)
	}
	c.count("merges", n)
}

// iterOf: the completed loop li over seq.
func iterOf(st *State, seq *Term, li *LoopInfo) *iter {
	for _, x := range itersOver(st, seq) {
		if x.li == li {
			return &x
		}
	}
	return nil
}

func (m *mergeParts) match(st *State, final, tree, node, path *Term) string {
	if final.Op != "upd" || !same(final.Args[1], node) {
		return "the sender's leaf is not replaced"
	}
	leaf := derefSnap(st.deepSnap(final.Args[2]))
	if mkField(leaf, "nodeType") != mkInt(1) || !same(derefSnap(mkField(leaf, "leafNode")), mkField(path, "leafNode")) {
		return "the sender's leaf is not replaced by the path's leaf"
	}
	m.filled = strip(final.Args[0])
	li, init, next := lvOf(m.filled)
	if li == nil {
		return "the filtered ancestors are not filled"
	}
	it := iterOf(st, m.filtered, li)
	if it == nil {
		return "not every filtered ancestor is filled"
	}
	for k, b := range li.back {
		n := strip(next[k])
		if n.Op != "upd" || n.Args[0] != m.filled || !same(n.Args[1], mkSel(m.filtered, it.i)) {
			return "a node other than the filtered ancestor is written"
		}
		v := derefSnap(b.deepSnap(n.Args[2]))
		p := derefSnap(mkField(v, "parentNode"))
		if mkField(v, "nodeType") != mkInt(2) || !same(mkField(p, "encryptionKey"), mkField(mkSel(mkField(path, "nodes"), it.i), "encryptionKey")) || norm(mkField(p, "unmergedLeaves")) != tNil && !isZero(mkField(p, "unmergedLeaves")) {
			return "a filtered ancestor is not a parent node with the path node's key and no unmerged leaves"
		}
	}
	m.blanked = strip(init)
	li, init, next = lvOf(m.blanked)
	if li == nil || !same(init, tree) {
		return "the direct path of the sender is not blanked"
	}
	for k := range li.back {
		n := strip(next[k])
		if n.Op != "upd" || n.Args[0] != m.blanked || n.Args[2] != tNil {
			return "an ancestor of the sender is not blanked"
		}
		d := strip(n.Args[1])
		if d.Op == "sel" && isDirectPath(st, d.Args[0], node, tree) && iterOf(st, d.Args[0], li) != nil && iterOf(st, d.Args[0], li).i == d.Args[1] {
			m.direct = strip(d.Args[0])
			continue
		}
		if _, par := climber(st, li, node, tree); par != nil && same(d, par) {
			continue
		}
		return "the direct path of the sender is not blanked completely"
	}
	return ""
}

// chain: h is the parent hash of the sender's leaf computed from the root down
// along the filtered path.
func (m *mergeParts) chain(st *State, h, cs, node, path *Term) string {
	h = strip(h)
	li, init, next := lvOf(h)
	if li == nil || norm(init) != tNil || len(next) != len(li.back) {
		return "parent hash is not computed along the path"
	}
	it := iterOf(st, m.filtered, li)
	if it == nil {
		return "parent hashes are not computed for every filtered ancestor"
	}
	if !it.down {
		return "parent hashes are not computed from the root down"
	}
	ni := mkSel(m.filtered, it.i)
	par := pv(mk("deref", "", mkSel(m.filled, ni)), "*parentNode")
	for k, b := range li.back {
		n := strip(next[k])
		items := hashItems(n, cs)
		if items == nil {
			return "parent hash is not the hash of its input"
		}
		var l []*Term
		for _, x := range items {
			if x.Op == "bytes" && strip(x.Args[0]).Op == "built" {
				_, y := catItems(strip(x.Args[0]).Args[0])
				l = append(l, y...)
			} else {
				l = append(l, x)
			}
		}
		if len(l) != 3 || l[0].Op != "opaque" || l[1].Op != "opaque" || l[2].Op != "opaque" {
			return "parent hash input does not have three parts"
		}
		if !same(l[0].Args[0], mkField(par, "encryptionKey")) && !same(l[0].Args[0], mkField(mkSel(mkField(path, "nodes"), it.i), "encryptionKey")) {
			return "parent hash input does not start with the node's key"
		}
		if !same(l[1].Args[0], h) {
			return "parent hash input does not contain the parent hash of the node above"
		}
		th := strip(l[2].Args[0])
		if th.Op != "ext" || th.Aux != "0" || th.Args[0].Aux != "ratchetTree.computeTreeHash" || norm(th.Args[0].Args[3]) != tNil || !same(th.Args[0].Args[0], m.filled) || !same(th.Args[0].Args[1], cs) {
			return "parent hash input does not contain the original sibling tree hash"
		}
		left, right := tCall("nodeIndex.left", ni), tCall("nodeIndex.right", ni)
		s := strip(th.Args[0].Args[2])
		side := m.side(b, st, ni, mkExt(left, 0), node)
		if !(side == "left" && same(s, mkExt(right, 0)) || side == "right" && same(s, mkExt(left, 0))) {
			return "the sibling used for the parent hash is not the child away from the sender"
		}
		got := b.load(mkFA(mkField(mk("deref", "", mkSel(m.filled, ni)), "parentNode"), "parentHash", nil))
		if !same(got, h) {
			return "the parent hash is not stored in the path node"
		}
	}
	return ""
}

// side: on which side of ni the node lies, as far as b knows.
func (m *mergeParts) side(b, st *State, ni, left, node *Term) string {
	if b.truth(mkLt(node, ni, false)) == 1 || b.truth(mkLt(node, ni, true)) == 1 {
		return "left"
	}
	if b.truth(mkLt(node, ni, false)) == 0 || b.truth(mkLt(ni, node, false)) == 1 {
		return "right"
	}
	if b.holds(mkEq(left, node)) {
		return "left"
	}
	if m.direct == nil {
		return ""
	}
	for f, v := range b.facts {
		if v && f.Op == "eq" {
			for i := range f.Args {
				if f.Args[i] == left && f.Args[1-i].Op == "sel" && same(f.Args[1-i].Args[0], m.direct) {
					return "left"
				}
			}
		}
	}
	if b.refuted(mkEq(left, node)) && forAll(b, m.direct, func(b2 *State, el, i *Term) bool { return b2.refuted(mkEq(el, left)) }) {
		return "right"
	}
	return ""
}

// hashItems: t is a hash; returns the hashed items.
func hashItems(t, cs *Term) []*Term {
	t = strip(t)
	if t.Op != "sum" {
		return nil
	}
	root, items := catItems(t.Args[0])
	if root.Op != "hinit" || !same(root.Args[0], tCall("CipherSuite.hash", cs)) {
		return nil
	}
	return items
}

// deepSnap is the value of t with memory written out.
func (s *State) deepSnap(t *Term) *Term { return (&Engine{}).snapD(s, t, 0) }
