package main

import "fmt"

// ---- integrity of a received tree (RFC 9420 sections 7.8, 7.9, 12.4.3.1) ------

// A treeCtx says what a tree is validated against.
type treeCtx struct {
	tree, gid, hash, now *Term
	cs                   []*Term // terms equal to the cipher suite
}

func (x *treeCtx) isCS(t *Term) bool {
	for _, c := range x.cs {
		if same(t, c) {
			return true
		}
	}
	return false
}

// nodeIter is a completed loop that visits all parent nodes of a tree.
type nodeIter struct {
	iter
	node *Term
	skip func(b *State) bool // the iteration met no parent node
}

func parentIters(st *State, tree *Term) []nodeIter {
	var l []nodeIter
	add := func(it iter) {
		node := mkSel(tree, it.i)
		n := mk("deref", "", node)
		l = append(l, nodeIter{it, node, func(b *State) bool {
			t := mkField(n, "nodeType")
			return b.holds(mkEq(node, tNil)) || b.holds(mkEq(t, mkInt(1))) || b.refuted(mkEq(t, mkInt(2))) || b.holds(mkEq(mkField(n, "parentNode"), tNil)) ||
				b.refuted(mkExt(tCall("nodeIndex.left", it.i), 1)) || b.refuted(mkExt(tCall("nodeIndex.right", it.i), 1)) || evenIndex(b, it.i)
		}})
	}
	for _, it := range itersOver(st, tree) {
		add(it)
	}
	// only odd indices, or up to the width of the tree
	n, w := norm(mkLen(tree)), norm(tCall("numLeaves.width", tCall("ratchetTree.numLeaves", strip(tree))))
	for f, v := range st.facts {
		if f.Op != "lt" || v || len(f.Args) != 2 {
			continue
		}
		b := norm(f.Args[1])
		if b != n && b != w {
			continue
		}
		if li, ok := counter(f.Args[0]); ok && b == w {
			add(iter{li: li, i: f.Args[0]})
		}
		if li, init, next := lvOf(f.Args[0]); li != nil && init == mkInt(1) && allEq(next, mkBin("+", f.Args[0], mkInt(2))) {
			add(iter{li: li, i: f.Args[0]})
		}
	}
	return l
}

func evenIndex(b *State, i *Term) bool {
	return b.holds(mkEq(mkBin("%", i, mkInt(2)), mkInt(0))) || b.refuted(mkEq(mkBin("%", i, mkInt(2)), mkInt(1))) || b.holds(mkEq(mkBin("&", i, mkInt(1)), mkInt(0)))
}

// integrity checks that st establishes the integrity of a received tree.
func (c *Ctx) integrity(st *State, x *treeCtx, where, pos string) {
	hash := false
	for f, v := range st.facts {
		if !v || f.Op != "beq" && f.Op != "eq" {
			continue
		}
		for k := 0; k < 2; k++ {
			if !same(f.Args[1-k], x.hash) {
				continue
			}
			for _, cs := range x.cs {
				if t := treeHash(f.Args[k], cs); t != nil && same(t, x.tree) && st.holds(mkEq(mkExt(strip(f.Args[k]).Args[0], 1), tNil)) {
					hash = true
				}
			}
		}
	}
	c.oblige(hash, "tree hash matches the signed context", where, pos, "the hash of the tree's root is not compared with the signed tree hash")
	ph := false
	for _, cs := range x.cs {
		ph = ph || st.holds(tCall("ratchetTree.verifyParentHashes", x.tree, cs)) || st.holds(tCall("ratchetTree.verifyParentHashes", strip(x.tree), cs))
	}
	c.oblige(ph, "parent hashes verified", where, pos, "the parent hashes of the tree are not verified")

	why, sigs, encs := c.leavesValid(st, x)
	c.oblige(why == "", "every leaf valid", where, pos, "%s", why)
	_ = sigs
	why = parentKeysUnique(st, x, encs)
	c.oblige(why == "", "no two nodes share an encryption key", where, pos, "%s", why)
	why = unmergedOK(st, x)
	c.oblige(why == "", "unmerged leaves consistent", where, pos, "%s", why)
	c.count("trees_validated", 1)
}

// leavesValid: a loop over all leaves verifies each with the right options and
// tables of the keys of the leaves before it. Returns the key tables.
func (c *Ctx) leavesValid(st *State, x *treeCtx) (why string, sigs, encs *Term) {
	why = "the leaves are not all verified"
	for _, it := range leafIters(st, x.tree) {
		w, s, e := leafLoop(st, it, x)
		if w == "" {
			return "", s, e
		}
		if why == "the leaves are not all verified" || w != notVerified {
			why = w
		}
	}
	return
}

const notVerified = "a leaf is accepted without being verified"

func leafLoop(st *State, it leafIter, x *treeCtx) (why string, sigs, encs *Term) {
	node := mk("deref", "", it.node)
	leaf := mk("deref", "", mkField(node, "leafNode"))
	n := 0
	for k, b := range it.li.back {
		if it.skip(b) || it.dead(st, k) {
			continue
		}
		why = notVerified
		for f, v := range b.facts {
			if !v || f.Op != "eq" {
				continue
			}
			for j := 0; j < 2; j++ {
				call := f.Args[j]
				if f.Args[1-j] != tNil || call.Op != "call" || call.Aux != "leafNode.verify" || !same(derefSnap(call.Args[0]), leaf) && !same(call.Args[0], mkField(node, "leafNode")) {
					continue
				}
				o := derefSnap(call.Args[1])
				if why = treeLeafOptions(b, it, k, o, x); why == "" {
					sigs, encs = mapVal(mkField(o, "signatureKeys")), mapVal(mkField(o, "encryptionKeys"))
					n++
				}
			}
		}
		if why != "" {
			return why, nil, nil
		}
	}
	if n == 0 {
		return "no leaf is verified", nil, nil
	}
	return "", sigs, encs
}

func treeLeafOptions(b *State, it leafIter, k int, o *Term, x *treeCtx) string {
	idx := mkField(o, "leafIndex")
	okIdx := it.index != nil && same(idx, it.index) || it.index == nil && (same(idx, mkBin("/", it.i, mkInt(2))) || same(idx, mkBin(">>", it.i, mkInt(1))))
	leaf := mk("deref", "", mkField(mk("deref", "", it.node), "leafNode"))
	switch {
	case !x.isCS(mkField(o, "cipherSuite")):
		return fmt.Sprintf("a leaf is verified with cipher suite %v", mkField(o, "cipherSuite"))
	case !same(mkField(o, "groupID"), x.gid):
		return fmt.Sprintf("a leaf is verified for group %v", mkField(o, "groupID"))
	case !okIdx:
		return fmt.Sprintf("a leaf is verified at index %v", idx)
	case !same(mapVal(mkField(o, "supportedCreds")), tCall("ratchetTree.supportedCreds", strip(x.tree))):
		return fmt.Sprintf("a leaf is verified with supported credentials %v", mkField(o, "supportedCreds"))
	case !same(mkField(o, "now"), x.now):
		return fmt.Sprintf("a leaf is verified with clock %v", mkField(o, "now"))
	}
	for _, f := range []string{"signatureKey", "encryptionKey"} {
		m := mapVal(mkField(o, f+"s"))
		li, init, next := lvOf(m)
		if li != it.li || init.Op != "emptymap" || len(next) != len(li.back) {
			return fmt.Sprintf("the %ss in use given to the verification of a leaf are %v", f, m)
		}
		for j, bb := range li.back {
			keys := mapGrown(strip(next[j]), m)
			if keys == nil {
				return "the table of " + f + "s loses entries"
			}
			if !it.skip(bb) && !keys[norm(mkField(leaf, f))] {
				return "the " + f + " of a leaf is not recorded"
			}
		}
	}
	return ""
}

// parentKeysUnique: each parent node's key is absent from a table that has the
// keys of all leaves and of the parents before it.
func parentKeysUnique(st *State, x *treeCtx, encs *Term) string {
	if encs == nil {
		return "the encryption keys of the leaves are not collected"
	}
	why := "the encryption keys of parent nodes are not compared"
	for _, it := range parentIters(st, x.tree) {
		key := norm(mkField(mk("deref", "", mkField(mk("deref", "", it.node), "parentNode")), "encryptionKey"))
		for name, m := range it.li.lv {
			init, next := strip(it.li.init[name]), it.li.next[name]
			if init != encs || len(next) != len(it.li.back) {
				continue
			}
			why = ""
			for k, b := range it.li.back {
				keys := mapGrown(strip(next[k]), m)
				if keys == nil {
					why = "the table of encryption keys loses entries"
				}
				if it.skip(b) || it.dead(st, k) {
					continue
				}
				if !b.refuted(mkMapHas(m, key)) && !b.refutedGet(m, key) {
					why = "a parent node is accepted although its encryption key may be in use"
				} else if !keys[key] {
					why = "the encryption key of a parent node is not recorded"
				}
			}
			if why == "" {
				return ""
			}
		}
	}
	return why
}

// unmergedOK: every unmerged leaf of every parent node is present, below it,
// and listed by all present nodes in between.
func unmergedOK(st *State, x *treeCtx) string {
	why := "the unmerged leaves of parent nodes are not examined"
	for _, it := range parentIters(st, x.tree) {
		parent := mk("deref", "", mkField(mk("deref", "", it.node), "parentNode"))
		why = ""
		for k, b := range it.li.back {
			if it.skip(b) || it.dead(st, k) {
				continue
			}
			w := "not every unmerged leaf of a parent node is examined"
			if forAll(b, mkField(parent, "unmergedLeaves"), func(bb *State, el, i *Term) bool {
				if !presentLeaf(bb, x.tree, el) {
					w = "a parent node may list a blank leaf as unmerged"
					return false
				}
				if ww := below(bb, el, it.i, x.tree); ww != "" {
					w = ww
					return false
				}
				return true
			}) {
				continue
			}
			why = w
		}
		if why == "" {
			return ""
		}
	}
	return why
}

// below: leaf el is below node p and listed by all present nodes in between.
func below(b *State, el, p, tree *Term) string {
	start := mkBin("*", mkInt(2), el)
	parentOf := func(t *Term) *Term {
		return mkExt(tCall("numLeaves.parent", tCall("ratchetTree.numLeaves", strip(tree)), t), 0)
	}
	listed := func(bb *State, n *Term) bool {
		node := mkSel(tree, n)
		return bb.holds(mkEq(node, tNil)) || elemOf(bb, el, mkField(mk("deref", "", mkField(mk("deref", "", node), "parentNode")), "unmergedLeaves"))
	}
	why := "an unmerged leaf is not established to be below its parent node"
	for f, v := range b.facts {
		if !v || f.Op != "eq" {
			continue
		}
		for k := 0; k < 2; k++ {
			if !same(f.Args[1-k], p) {
				continue
			}
			t := strip(f.Args[k])
			x := t
			up := false // the comparison is with the parent of the loop's node
			if t.Op == "ext" && t.Args[0].Op == "call" && t.Args[0].Aux == "numLeaves.parent" {
				x, up = strip(t.Args[0].Args[1]), true
				if !same(t, parentOf(x)) {
					continue
				}
			}
			li, init, next := lvOf(x)
			if li == nil || len(next) != len(li.back) {
				continue
			}
			fromLeaf, fromParent := same(init, start), same(init, parentOf(start))
			if !(fromLeaf || fromParent && !up) {
				continue
			}
			// a variable that records whether the node exists
			var exists *Term
			for _, q := range li.lv {
				_, qi, qn := lvOf(q)
				if fromParent && qi == mkExt(strip(init).Args[0], 1) && len(qn) == len(next) && b.holds(q) {
					exists = q
					for j, n := range qn {
						if s := strip(next[j]); len(s.Args) == 0 || n != mkExt(s.Args[0], 1) || !li.back[j].holds(q) {
							exists = nil
							break
						}
					}
				}
			}
			ok := true
			for j, bb := range li.back {
				n := strip(next[j])
				if !same(n, parentOf(x)) || exists == nil && !bb.holds(mkExt(n.Args[0], 1)) {
					ok = false
					why = "the way from an unmerged leaf to its parent node does not follow the parents"
					break
				}
				// nodes in between: the parent of x unless it is p (if the
				// comparison is with the parent, it was not p)
				done := listed(bb, n)
				if fromParent {
					done = listed(bb, x)
				} else if !up {
					done = done || bb.holds(mkEq(n, p))
				}
				if !done {
					ok = false
					why = "a present node between an unmerged leaf and its parent node need not list the leaf"
				}
			}
			if ok {
				return ""
			}
		}
	}
	return why
}

// ---- parent hashes ------------------------------------------------------------

// parentHashRule checks ratchetTree.verifyParentHashes.
func (c *Ctx) parentHashRule() {
	const where = "ratchetTree.verifyParentHashes"
	fn := c.fn(where)
	a := SymArgs(fn)
	tree, cs := a[0], a[1]
	e := c.engine(c.groupOpaque(nil, setOf(where)))
	for _, o := range successes(c.run(e, fn, nil, a)) {
		why := "not every parent node is examined"
		for _, it := range parentIters(o.st, tree) {
			why = ""
			for k, b := range it.li.back {
				c.count("parent_paths", 1)
				if it.skip(b) || it.dead(o.st, k) {
					continue
				}
				if w := parentHashValid(b, tree, cs, it.i); w != "" {
					why = w
				}
			}
			if why == "" {
				break
			}
		}
		if o.st.holds(mkEq(mkLen(tree), mkInt(0))) {
			why = ""
		}
		c.oblige(why == "", "parent-hash valid for exactly one side", where, c.pos(o.pos), "%s", why)
	}
}

// parentHashValid: in b, node i is parent-hash valid with respect to exactly
// one of its children.
func parentHashValid(b *State, tree, cs, i *Term) string {
	parent := mk("deref", "", mkField(mk("deref", "", mkSel(tree, i)), "parentNode"))
	l, r := mkExt(tCall("nodeIndex.left", i), 0), mkExt(tCall("nodeIndex.right", i), 0)
	fl, sl, wl := childMatch(b, tree, cs, parent, l, r)
	fr, sr, wr := childMatch(b, tree, cs, parent, r, l)
	switch {
	case sl == 0:
		return "left child: " + wl
	case sr == 0:
		return "right child: " + wr
	}
	// sl, sr: -1 not matching, 1 matching, 2 matching if the flag is set
	known := func(s int, f *Term) int {
		if s == 2 {
			switch b.truth(f) {
			case 1:
				return 1
			case 0:
				return -1
			}
		}
		return s
	}
	sl, sr = known(sl, fl), known(sr, fr)
	if sl == 2 && sr == 2 && b.truth(mkEq(fl, fr)) == 0 {
		return ""
	}
	if sl == 1 && sr == -1 || sl == -1 && sr == 1 {
		return ""
	}
	return "a parent node is accepted although it may match neither or both of its children"
}

// childMatch examines the comparison of the resolution of one child with the
// parent's hash for that side.
func childMatch(b *State, tree, cs, parent, child, sibling *Term) (flag *Term, status int, why string) {
	res := tCall("ratchetTree.resolve", strip(tree), child)
	// a loop over the resolution that was left early
	var exits []*LoopInfo
	for f, v := range b.facts {
		if f.Op == "lt" && v && norm(f.Args[1]) == norm(mkLen(res)) {
			if li, ok := counter(f.Args[0]); ok {
				exits = append(exits, li)
			}
		}
	}
	why = "the resolution is not examined"
	for _, it := range itersOver(b, res) {
		for name, f := range it.li.lv {
			init, next := it.li.init[name], it.li.next[name]
			if init != tFalse || len(next) != len(it.li.back) {
				continue
			}
			ok := true
			for k, bb := range it.li.back {
				n := mk("deref", "", mkSel(tree, mkSel(res, it.i)))
				if !matchedNode(bb, tree, cs, parent, sibling, mkSel(res, it.i)) {
					// not a candidate: blank, an unmerged leaf, or no node at all
					t := mkField(n, "nodeType")
					blank := bb.holds(mkEq(mkSel(tree, mkSel(res, it.i)), tNil))
					none := bb.refuted(mkEq(t, mkInt(1))) && bb.refuted(mkEq(t, mkInt(2)))
					if !blank && !none && !unmergedIn(bb, parent, mkSel(res, it.i)) {
						ok = false
						why = "a node of the resolution is passed over without having the parent hash or being an unmerged leaf"
					}
					if next[k] != f && !none {
						ok = false
						why = "a child matches without a node that has the parent hash"
					}
					continue
				}
				if next[k] != tTrue || bb.truth(f) != 0 {
					ok = false
					why = "more than one node of the resolution may have the parent hash"
				}
			}
			if ok {
				return f, 2, ""
			}
		}
	}
	for _, li := range exits {
		_ = li
		return nil, -1, ""
	}
	return nil, 0, why
}

// matchedNode: node n of a resolution has the parent hash of parent for the
// side whose sibling is given.
func matchedNode(b *State, tree, cs, parent, sibling, n *Term) bool {
	node := mk("deref", "", mkSel(tree, n))
	for f, v := range b.facts {
		if !v || f.Op != "beq" {
			continue
		}
		for k := 0; k < 2; k++ {
			h := f.Args[k]
			own := false
			for t, name := range map[int64]string{1: "leafNode", 2: "parentNode"} {
				if same(f.Args[1-k], mkField(mk("deref", "", mkField(node, name)), "parentHash")) && (b.holds(mkEq(mkField(node, "nodeType"), mkInt(t))) || b.refuted(mkEq(mkField(node, "nodeType"), mkInt(3-t)))) {
					own = true
				}
			}
			if !own {
				continue
			}
			items := flatItems(hashItems(h, cs))
			if len(items) != 3 {
				continue
			}
			sh := items[2]
			if !same(items[0], iOpaque(mkField(parent, "encryptionKey"))) || !same(items[1], iOpaque(mkField(parent, "parentHash"))) || sh.Op != "opaque" {
				continue
			}
			th := strip(sh.Args[0])
			if th.Op != "ext" || th.Aux != "0" || !isCall(th.Args[0], "ratchetTree.computeTreeHash") {
				continue
			}
			a := th.Args[0].Args
			if same(a[0], tree) && same(a[1], cs) && same(a[2], sibling) && setIs(b, mapVal(a[3]), mkField(parent, "unmergedLeaves")) && b.holds(mkEq(mkExt(th.Args[0], 1), tNil)) {
				return true
			}
		}
	}
	return false
}

// flatItems replaces written encodings by their items.
func flatItems(l []*Term) []*Term {
	var r []*Term
	for _, t := range l {
		if t.Op == "bytes" {
			if b := strip(t.Args[0]); b.Op == "built" {
				if base, items := catItems(b.Args[0]); base == bEmpty {
					r = append(r, items...)
					continue
				}
			}
		}
		r = append(r, t)
	}
	return r
}

// setIs: m is the set of the elements of seq.
func setIs(b *State, m, seq *Term) bool {
	m = strip(m)
	if m.Op == "emptymap" || m == tNil {
		return b.holds(mkEq(mkLen(seq), mkInt(0)))
	}
	li, init, next := lvOf(m)
	if li == nil || init.Op != "emptymap" {
		return false
	}
	for _, it := range itersOver(b, seq) {
		if it.li != li {
			continue
		}
		for _, n := range next {
			keys := mapGrown(strip(n), m)
			if len(keys) != 1 || !keys[norm(mkSel(seq, it.i))] {
				return false
			}
		}
		return len(next) > 0
	}
	return false
}

// unmergedIn: node n is a leaf that parent lists as unmerged.
func unmergedIn(b *State, parent, n *Term) bool {
	if !evenIndex(b, n) {
		return false
	}
	seq := mkField(parent, "unmergedLeaves")
	li := norm(mkBin("/", n, mkInt(2)))
	for f, v := range b.facts {
		if v && (f.Op == "maphas" || f.Op == "mapget") && norm(f.Args[1]) == li && setIs(b, mapVal(f.Args[0]), seq) {
			return true
		}
	}
	return elemOf(b, li, seq)
}

// ---- tree hash ----------------------------------------------------------------

// treeHashRule checks ratchetTree.computeTreeHash (RFC 9420 section 7.8).
func (c *Ctx) treeHashRule() {
	const where = "ratchetTree.computeTreeHash"
	fn := c.fn(where)
	a := SymArgs(fn)
	e := c.engine(c.groupOpaque(nil, setOf(where)))
	for _, o := range successes(c.run(e, fn, nil, a)) {
		why := hashOfNode(o.st, o.res[0], a[0], a[1], a[2], a[3])
		c.oblige(why == "", "tree hash covers the whole subtree", where, c.pos(o.pos), "%s", why)
		c.count("tree_hash_paths", 1)
	}
	fn = c.fn("ratchetTree.computeRootTreeHash")
	a = SymArgs(fn)
	e = c.engine(c.groupOpaque(nil, nil))
	for _, o := range successes(c.run(e, fn, nil, a)) {
		t := treeHash(o.res[0], a[1])
		c.oblige(t != nil && same(t, a[0]), "tree hash covers the whole subtree", "ratchetTree.computeRootTreeHash", c.pos(o.pos), "the hash of the root is %v", o.res[0])
	}
}

func hashOfNode(st *State, h, tree, cs, x, exclude *Term) string {
	items := flatItems(hashItems(h, cs))
	if items == nil {
		return fmt.Sprintf("the result %v is no hash", h)
	}
	node := mkSel(tree, x)
	n := mk("deref", "", node)
	ex := mk("deref", "", exclude)
	blank := st.holds(mkEq(node, tNil))
	present := st.refuted(mkEq(node, tNil))
	rest := func(want ...*Term) bool {
		if len(items) != len(want) {
			return false
		}
		for k, w := range want {
			if !same(items[k], w) {
				return false
			}
		}
		return true
	}
	isLeaf := evenIndex(st, x) || st.refuted(mkExt(tCall("nodeIndex.left", x), 1)) || st.refuted(mkExt(tCall("nodeIndex.right", x), 1))
	if isLeaf {
		li := mkBin("/", x, mkInt(2))
		leaf := mkField(n, "leafNode")
		excluded := mapHasIn(st, ex, li) || mapHasIn(st, exclude, li)
		if blank || excluded || st.holds(mkEq(leaf, tNil)) {
			if !rest(iInt("u8", mkInt(1)), iInt("u32", li), iInt("u8", mkInt(0))) {
				return fmt.Sprintf("the hash of a blank or excluded leaf is over %v", items)
			}
			return ""
		}
		if !present || !(notInMap(st, ex, li) || notInMap(st, exclude, li) || st.holds(mkEq(exclude, tNil))) {
			return "a leaf is hashed without finding out whether it is blank or excluded"
		}
		if !rest(iInt("u8", mkInt(1)), iInt("u32", li), iInt("u8", mkInt(1)), iEnc("leafNode", mk("deref", "", leaf))) {
			return fmt.Sprintf("the hash of a leaf is over %v", items)
		}
		return ""
	}
	parentIdx := st.holds(mkExt(tCall("nodeIndex.left", x), 1)) || st.holds(mkExt(tCall("nodeIndex.right", x), 1)) || st.refuted(mkEq(mkBin("%", x, mkInt(2)), mkInt(0)))
	if !parentIdx {
		return "the hash does not depend on whether the node is a leaf"
	}
	sub := func(side string) *Term {
		call := tCall("ratchetTree.computeTreeHash", tree, cs, mkExt(tCall("nodeIndex."+side, x), 0), exclude)
		if !st.holds(mkEq(mkExt(call, 1), tNil)) {
			return tNil
		}
		return iOpaque(mkExt(call, 0))
	}
	lh, rh := sub("left"), sub("right")
	if lh == tNil || rh == tNil {
		return "the hashes of both children are not computed"
	}
	if blank {
		if !rest(iInt("u8", mkInt(2)), iInt("u8", mkInt(0)), lh, rh) {
			return fmt.Sprintf("the hash of a blank parent is over %v", items)
		}
		return ""
	}
	if !present || len(items) != 5 || items[2].Op != "enc" || items[2].Aux != "parentNode" {
		return fmt.Sprintf("the hash of a parent is over %v", items)
	}
	p := items[2].Args[0]
	if !rest(iInt("u8", mkInt(2)), iInt("u8", mkInt(1)), items[2], lh, rh) {
		return fmt.Sprintf("the hash of a parent is over %v", items)
	}
	want := mk("deref", "", mkField(n, "parentNode"))
	for _, f := range []string{"encryptionKey", "parentHash"} {
		if !same(mkField(p, f), mkField(want, f)) {
			return fmt.Sprintf("the %s hashed for a parent is %v", f, mkField(p, f))
		}
	}
	ul, got := mkField(want, "unmergedLeaves"), mkField(p, "unmergedLeaves")
	if same(got, ul) {
		noEx := st.holds(mkEq(exclude, tNil)) || st.refuted(mkLt(mkInt(0), mk("maplen", "", ex), false)) || st.holds(mkEq(mk("maplen", "", ex), mkInt(0))) || st.holds(mkEq(mkLen(ul), mkInt(0)))
		if !noEx {
			return "excluded leaves are hashed as unmerged leaves of a parent"
		}
		return ""
	}
	// filtered: exactly those not excluded, in order
	g := strip(got)
	li, init, next := lvOf(g)
	if li == nil || !emptySlice(st, init) || len(next) != len(li.back) {
		return fmt.Sprintf("the unmerged leaves hashed for a parent are %v", got)
	}
	for _, it := range itersOver(st, ul) {
		if it.li != li {
			continue
		}
		for k, b := range li.back {
			el := mkSel(ul, it.i)
			added := appendedIn(b, next[k], g)
			switch {
			case strip(next[k]) == g && (mapHasIn(b, ex, el) || mapHasIn(b, exclude, el)):
			case added != nil && same(added, el) && (notInMap(b, ex, el) || notInMap(b, exclude, el)):
			default:
				return "the unmerged leaves hashed for a parent are not those that are not excluded"
			}
		}
		return ""
	}
	return "not all unmerged leaves are considered for the hash of a parent"
}

// emptySlice: t is an empty slice (possibly with capacity).
func emptySlice(st *State, t *Term) bool {
	if norm(t) == tNil {
		return true
	}
	c := strip(st.content(t))
	return c.Op == "zeros" && c.Args[0] == mkInt(0) || st.truth(mkEq(mkLen(t), mkInt(0))) == 1
}

// appendedIn: t is base with one element appended.
func appendedIn(b *State, t, base *Term) *Term {
	t = strip(t)
	if t.Op != "append" || strip(t.Args[0]) != strip(base) {
		return nil
	}
	l := strip(b.content(t.Args[1]))
	if x := appendedOne(t, base); x != nil {
		return x
	}
	if l.Op == "list" && len(l.Args) == 1 {
		return l.Args[0]
	}
	if l.Op == "upd" && l.Args[1] == mkInt(0) {
		return l.Args[2]
	}
	return nil
}

// ---- resolution ---------------------------------------------------------------

// resolutionRule checks ratchetTree.resolve (RFC 9420 section 4.1.1).
func (c *Ctx) resolutionRule() {
	const where = "ratchetTree.resolve"
	fn := c.fn(where)
	a := SymArgs(fn)
	e := c.engine(c.groupOpaque(nil, setOf(where)))
	for _, o := range c.run(e, fn, nil, a) {
		why := resolutionIs(e, o.st, o.res[0], a[0], a[1])
		c.oblige(why == "", "resolution of a node", where, c.pos(o.pos), "%s", why)
		c.count("resolution_paths", 1)
	}
}

func resolutionIs(e *Engine, st *State, r, tree, x *Term) string {
	node := mkSel(tree, x)
	n := mk("deref", "", node)
	t := e.snap(st, r, nil)
	leafIdx := evenIndex(st, x) || st.refuted(mkExt(tCall("nodeIndex.left", x), 1)) || st.refuted(mkExt(tCall("nodeIndex.right", x), 1))
	if st.holds(mkEq(node, tNil)) {
		if leafIdx {
			if norm(t) != tNil && !emptySlice(st, r) {
				return fmt.Sprintf("the resolution of a blank leaf is %v", t)
			}
			return ""
		}
		sub := func(side string) *Term {
			return tCall("ratchetTree.resolve", tree, mkExt(tCall("nodeIndex."+side, x), 0))
		}
		u := strip(t)
		for u.Op == "append" && (norm(u.Args[0]).Op == "append") {
			// append(append(nil, left...), right...)
			in := strip(u.Args[0])
			if norm(in.Args[0]) != tNil {
				return fmt.Sprintf("the resolution of a blank parent is %v", t)
			}
			u = mk("append", "", in.Args[1], u.Args[1])
		}
		if u.Op != "append" || !same(u.Args[0], sub("left")) || !same(u.Args[1], sub("right")) {
			return fmt.Sprintf("the resolution of a blank parent is %v", t)
		}
		return ""
	}
	if !st.refuted(mkEq(node, tNil)) {
		return "the resolution does not depend on whether the node is blank"
	}
	ul := mkField(mk("deref", "", mkField(n, "parentNode")), "unmergedLeaves")
	none := leafIdx || st.holds(mkEq(mkLen(ul), mkInt(0))) || st.holds(mkEq(mkField(n, "nodeType"), mkInt(1))) || st.refuted(mkEq(mkField(n, "nodeType"), mkInt(2))) || st.holds(mkEq(mkField(n, "parentNode"), tNil))
	li, init, next := lvOf(r)
	if li == nil {
		if one := single(e, st, t); one == nil || !same(one, x) {
			return fmt.Sprintf("the resolution of a node is %v", t)
		}
		if !none {
			return "the resolution of a parent node lacks its unmerged leaves"
		}
		return ""
	}
	if one := single(e, st, e.snap(st, init, nil)); one == nil || !same(one, x) {
		return fmt.Sprintf("the resolution of a node starts with %v", init)
	}
	for _, it := range itersOver(st, ul) {
		if it.li != li || len(next) != len(li.back) {
			continue
		}
		for k, b := range li.back {
			if added := appendedIn(b, next[k], strip(r)); added == nil || !same(added, mkBin("*", mkInt(2), mkSel(ul, it.i))) {
				return fmt.Sprintf("for an unmerged leaf the resolution becomes %v", next[k])
			}
		}
		return ""
	}
	return "the resolution of a parent node lacks some of its unmerged leaves"
}

// single is the element of a one-element slice.
func single(e *Engine, st *State, t *Term) *Term {
	t = strip(t)
	if t.Op == "append" && (norm(t.Args[0]) == tNil || emptySlice(st, t.Args[0])) {
		t = strip(t.Args[1])
	}
	t = strip(e.snap(st, st.content(t), nil))
	if t.Op == "list" && len(t.Args) == 1 {
		return t.Args[0]
	}
	if t.Op == "upd" && t.Args[1] == mkInt(0) {
		return t.Args[2]
	}
	return nil
}

func checkC13(c *Ctx) {
	c.guard("groupFromSecrets", func() {
		j := c.joinRun()
		for _, o := range successes(j.outs) {
			j.treeOK(o)
		}
	})
	c.guard("ratchetTree.verifyParentHashes", c.parentHashRule)
	c.guard("ratchetTree.computeTreeHash", c.treeHashRule)
	c.guard("ratchetTree.resolve", c.resolutionRule)
	c.guard("leafNode.verify", c.leafRule)
	c.guard("ratchetTree.supportedCreds", c.supportedCredsRule)
}
