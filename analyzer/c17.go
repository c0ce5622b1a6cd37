package main

// Private keys obtained from path secrets.

// pathKey matches val as the private key of the node key pair derived from a
// path secret, and returns the path secret and the matching public key.
func pathKey(val, cs *Term) (ps, pub *Term) {
	val = strip(val)
	if val.Op != "ext" || val.Aux != "0" || val.Args[0].Op != "call" || val.Args[0].Aux != "kem.PrivateKey.MarshalBinary" {
		return nil, nil
	}
	priv := strip(val.Args[0].Args[0])
	if priv.Op != "ext" || priv.Aux != "1" || priv.Args[0].Op != "call" || priv.Args[0].Aux != "kem.Scheme.DeriveKeyPair" {
		return nil, nil
	}
	d := priv.Args[0]
	if !same(d.Args[0], tCall("hpke.KEM.Scheme", hpkeParam(cs, 0))) {
		return nil, nil
	}
	ps, ctx := isExpand(d.Args[1], cs, "node", kdfSize(cs))
	if ps == nil || norm(ctx) != tNil {
		return nil, nil
	}
	return ps, mkExt(tCall("kem.PublicKey.MarshalBinary", mkExt(d, 0)), 0)
}

// matchesNode: st establishes that pub is the public key of node idx of a tree
// accepted by tree.
func matchesNode(st *State, pub, idx *Term, tree func(*Term) bool) bool {
	pub = norm(pub)
	for f, v := range st.facts {
		if !v || f.Op != "beq" && f.Op != "eq" || len(f.Args) != 2 {
			continue
		}
		for i := range f.Args {
			if norm(f.Args[i]) == pub && isNodeKey(f.Args[1-i], idx, tree) {
				return true
			}
		}
	}
	return false
}

// isNodeKey: t is the encryption key of node idx of the tree.
func isNodeKey(t, idx *Term, tree func(*Term) bool) bool {
	t = strip(t)
	if t.Op != "field" || t.Aux != "encryptionKey" {
		return false
	}
	n := strip(t.Args[0])
	if n.Op != "deref" || n.Args[0].Op != "field" || n.Args[0].Aux != "leafNode" && n.Args[0].Aux != "parentNode" {
		return false
	}
	n = strip(n.Args[0].Args[0])
	if n.Op != "deref" {
		return false
	}
	n = strip(n.Args[0])
	return n.Op == "sel" && same(n.Args[1], idx) && tree(n.Args[0])
}

// meets: t is the lowest common ancestor of two nodes.
func meets(c *Ctx, t, a, b *Term) bool {
	t = strip(t)
	if t.Op != "call" || len(t.Args) != 2 || t.Aux != fnName(c.p.lca()) {
		return false
	}
	return same(t.Args[0], a) && same(t.Args[1], b) || same(t.Args[0], b) && same(t.Args[1], a)
}

// indexed matches t as element i of a sequence (elements of a tail of a
// sequence are elements of the sequence).
func indexed(t *Term) (seq, i *Term) {
	t = strip(t)
	if t.Op != "sel" {
		return nil, nil
	}
	return strip(t.Args[0]), t.Args[1]
}

// privKeys checks the private keys of the new epoch: those of the previous
// epoch at their positions, plus, for a path, one verified key per filtered
// ancestor from the meeting point up, with the chain of path secrets.
func (r *commitRun) privKeys(st *State, content, ctx *Term) string {
	tree := func(t *Term) bool { return r.newTree(st, t) == "" }
	t := strip(content)
	if st.holds(mkEq(mkField(r.commit, "path"), tNil)) {
		return r.copiedKeys(st, t, tree)
	}
	me := mkBin("*", mkInt(2), mkField(r.group, "myLeafIndex"))
	sender := mkBin("*", mkInt(2), r.sender)
	var stepSecret *Term // path secret variable of the loop
	var stepSeq *Term
	var stepFrom *linForm
	var stepIdx *Term
	var derived []*State
	first := false
	if t.Op == "lv" {
		li, init, next := lvOf(t)
		if li == nil || len(next) != len(li.back) {
			return "private keys are not extended along the path"
		}
		for k, b := range li.back {
			n := strip(next[k])
			if n.Op != "upd" || n.Args[0] != t {
				return "a private key is not stored for every node above the meeting point"
			}
			seq, i := indexed(n.Args[1])
			if seq == nil {
				return "a private key is stored at " + brief(n.Args[1])
			}
			from, ok := countsToEnd(st, li, seq, i)
			if !ok {
				return "private keys are not stored for every node up to the root"
			}
			ps, pub := pathKey(n.Args[2], r.cs)
			if ps == nil {
				return "a private key is not derived from a path secret: " + brief(n.Args[2])
			}
			prev, c := isExpand(ps, r.cs, "path", kdfSize(r.cs))
			if prev != nil && norm(c) == tNil {
				derived = append(derived, b)
			} else if startsAt(b, i, from) {
				prev, first = ps, true // the decrypted secret itself
			} else {
				return "a path secret is not derived from the previous one"
			}
			prev = strip(prev)
			pl, _, pn := lvOf(prev)
			if pl != li || !same(pn[k], ps) {
				return "a path secret is not derived from that of the node below"
			}
			if !matchesNode(b, pub, n.Args[1], tree) {
				return "a private key is stored without comparing the derived public key with the tree's"
			}
			if stepSecret != nil && (stepSecret != prev || stepSeq != seq || !stepFrom.equal(from)) {
				return "path secrets are derived inconsistently"
			}
			stepSecret, stepSeq, stepFrom, stepIdx = prev, seq, from, i
		}
		if !isFilteredPath(st, stepSeq, sender, mkTreeLike(st, r, ctx)) {
			return "private keys are not stored along the filtered direct path of the sender"
		}
		t = strip(init)
	}
	if first {
		// the loop starts at the meeting point itself
		for _, b := range derived {
			if !startsAfter(b, stepIdx, stepFrom) {
				return "the path secret of the meeting point is not used as decrypted"
			}
		}
		_, ps, _ := lvOf(stepSecret)
		why := ""
		for _, meet := range []*Term{tCall(fnName(r.c.p.lca()), sender, me), tCall(fnName(r.c.p.lca()), me, sender)} {
			var j *Term
			if j, why = r.decrypted(st, ps, meet, t, ctx, stepSeq, tree); why == "" {
				if !stepFrom.equal(linOf(j)) {
					return "the first private key is not stored where sender's and receiver's paths meet"
				}
				return r.copiedKeys(st, t, tree)
			}
		}
		return why
	}
	if t.Op != "upd" {
		return "no private key is stored for the meeting point"
	}
	idx := t.Args[1]
	if !meets(r.c, idx, sender, me) {
		return "the first private key is not stored where sender's and receiver's paths meet, but at " + brief(idx)
	}
	ps, pub := pathKey(t.Args[2], r.cs)
	if ps == nil {
		return "the first private key is not derived from a path secret"
	}
	if !matchesNode(st, pub, idx, tree) {
		return "the first private key is stored without comparing the derived public key with the tree's"
	}
	if stepSecret == nil {
		return "private keys are not stored up to the root"
	}
	_, psInit, _ := lvOf(stepSecret)
	if !same(psInit, ps) {
		return "the second path secret is not derived from the decrypted one"
	}
	j, why := r.decrypted(st, ps, idx, t.Args[0], ctx, stepSeq, tree)
	if why != "" {
		return why
	}
	if !stepFrom.equal(linOf(mkBin("+", j, mkInt(1)))) {
		return "the keys of the ancestors do not start right above the meeting point"
	}
	return r.copiedKeys(st, strip(t.Args[0]), tree)
}

// startsAt: in b the index i has its first value; startsAfter: a later one.
func startsAt(b *State, i *Term, from *linForm) bool {
	for f, v := range b.facts {
		if len(f.Args) != 2 || f.Op != "eq" && f.Op != "lt" {
			continue
		}
		d, w := linOf(f.Args[0]).add(linOf(f.Args[1]), -1), linOf(i).add(from, -1)
		neg := (&linForm{}).add(w, -1)
		// i == from; not from < i
		if f.Op == "eq" && v && (d.equal(w) || d.equal(neg)) || f.Op == "lt" && !v && d.equal(neg) {
			return true
		}
	}
	return false
}

func startsAfter(b *State, i *Term, from *linForm) bool {
	for f, v := range b.facts {
		if len(f.Args) != 2 || f.Op != "eq" && f.Op != "lt" {
			continue
		}
		d, w := linOf(f.Args[0]).add(linOf(f.Args[1]), -1), linOf(i).add(from, -1)
		neg := (&linForm{}).add(w, -1)
		if f.Op == "eq" && !v && (d.equal(w) || d.equal(neg)) || f.Op == "lt" && v && d.equal(neg) {
			return true
		}
	}
	return false
}

// countsToEnd: i is a variable of loop li plus a constant offset, counting up
// by one until i is len(seq); returns where i starts.
func countsToEnd(st *State, li *LoopInfo, seq, i *Term) (*linForm, bool) {
	for _, v := range li.lv {
		_, init, next := lvOf(v)
		if !allEq(next, mkBin("+", v, mkInt(1))) {
			continue
		}
		li2 := li
		off := linOf(i).add(linOf(v), -1)
		if off.any(func(t *Term) bool { l, _, _ := lvOf(t); return l == li2 }) {
			continue
		}
		for f, fv := range st.facts {
			// not i < len(seq), or i == len(seq), up to moving terms
			if f.Op == "lt" && !fv || f.Op == "eq" && fv {
				d := linOf(f.Args[0]).add(linOf(f.Args[1]), -1)
				w := linOf(i).add(linOf(mkLen(seq)), -1)
				if d.equal(w) || f.Op == "eq" && d.equal((&linForm{}).add(w, -1)) {
					return off.add(linOf(init), 1), true
				}
			}
		}
	}
	return nil, false
}

// A linForm is a sum of terms with integer factors plus a constant.
type linForm struct {
	m map[*Term]int64
	c int64
}

func linOf(t *Term) *linForm {
	t = strip(t)
	if n, ok := t.intVal(); ok {
		return &linForm{c: n}
	}
	if t.Op == "bin" && len(t.Args) == 2 {
		switch t.Aux {
		case "+":
			return linOf(t.Args[0]).add(linOf(t.Args[1]), 1)
		case "-":
			return linOf(t.Args[0]).add(linOf(t.Args[1]), -1)
		case "*":
			for i := range t.Args {
				if n, ok := t.Args[i].intVal(); ok {
					return (&linForm{}).add(linOf(t.Args[1-i]), n)
				}
			}
		}
	}
	return &linForm{m: map[*Term]int64{norm(t): 1}}
}

func (l *linForm) add(o *linForm, k int64) *linForm {
	r := &linForm{m: map[*Term]int64{}, c: l.c + k*o.c}
	for t, n := range l.m {
		r.m[t] += n
	}
	for t, n := range o.m {
		r.m[t] += k * n
	}
	for t, n := range r.m {
		if n == 0 {
			delete(r.m, t)
		}
	}
	return r
}

func (l *linForm) equal(o *linForm) bool {
	d := l.add(o, -1)
	return len(d.m) == 0 && d.c == 0
}

func (l *linForm) any(f func(*Term) bool) bool {
	for t := range l.m {
		if t.any(f) {
			return true
		}
	}
	return false
}

// mkTreeLike is the tree of the new context, for comparing sizes.
func mkTreeLike(st *State, r *commitRun, ctx *Term) *Term {
	if t := treeHash(mkField(ctx, "treeHash"), r.cs); t != nil {
		return t
	}
	return tNil
}

// decrypted: ps is the path secret decrypted with the private key, and from
// the ciphertext, at the same position of the resolution of the copath child
// of the meeting point; returns the position in the filtered direct path.
func (r *commitRun) decrypted(st *State, ps, meet, privs, ctx, filtered *Term, tree func(*Term) bool) (*Term, string) {
	ps = strip(ps)
	if ps.Op != "ext" || ps.Aux != "0" || ps.Args[0].Op != "call" || ps.Args[0].Aux != "CipherSuite.decryptWithLabel" {
		return nil, "the first path secret is not decrypted from the update path"
	}
	d := ps.Args[0].Args
	if !st.holds(mkEq(mkExt(ps.Args[0], 1), tNil)) {
		return nil, "the error of decrypting the path secret is not checked"
	}
	if !same(d[0], r.cs) || norm(d[2]) != mkStr("UpdatePathNode") || !same(d[3], encoded(iEnc("groupContext", ctx))) {
		return nil, "the path secret is not decrypted with the provisional group context"
	}
	key := strip(d[1])
	if key.Op != "sel" || !same(key.Args[0], privs) {
		return nil, "the path secret is not decrypted with a stored private key"
	}
	pos := strip(key.Args[1])
	if pos.Op != "sel" {
		return nil, "the private key is not chosen from the resolution"
	}
	res, i := strip(pos.Args[0]), pos.Args[1]
	if res.Op != "call" || res.Aux != "ratchetTree.resolve" || !tree(res.Args[0]) {
		return nil, "the private key is not chosen from the resolution of the new tree"
	}
	me, sender := mkBin("*", mkInt(2), mkField(r.group, "myLeafIndex")), mkBin("*", mkInt(2), r.sender)
	child := strip(res.Args[1])
	side := ""
	if child.Op == "ext" && child.Aux == "0" && child.Args[0].Op == "call" && same(child.Args[0].Args[0], meet) {
		side = child.Args[0].Aux
	}
	left := lessThan(st, me, sender) == 1 || lessThan(st, sender, me) == 0 || lessThan(st, me, meet) == 1
	right := lessThan(st, me, sender) == 0 || lessThan(st, sender, me) == 1 || lessThan(st, me, meet) == 0 || lessThan(st, meet, me) == 1
	if !(side == "nodeIndex.left" && left || side == "nodeIndex.right" && right) {
		return nil, "the resolution is not that of the child above the receiver: " + brief(child)
	}
	if !st.refuted(mkEq(key, tNil)) && st.truth(mkLt(mkInt(0), mkLen(key), false)) != 1 && !st.refuted(mkEq(mkLen(key), mkInt(0))) {
		return nil, "the private key may be absent"
	}
	ct := strip(d[5])
	kem := strip(d[4])
	if ct.Op != "field" || ct.Aux != "ciphertext" || kem.Op != "field" || kem.Aux != "kemOutput" || !same(ct.Args[0], kem.Args[0]) {
		return nil, "KEM output and ciphertext are not of the same encrypted path secret"
	}
	e := strip(ct.Args[0])
	if e.Op != "sel" || !same(e.Args[1], i) {
		return nil, "the ciphertext is not at the position of the private key in the resolution"
	}
	n := strip(e.Args[0])
	if n.Op != "field" || n.Aux != "encryptedPathSecret" || strip(n.Args[0]).Op != "sel" || !same(strip(n.Args[0]).Args[0], mkField(r.path, "nodes")) {
		return nil, "the ciphertext is not one of a path node's"
	}
	j := strip(n.Args[0]).Args[1]
	if !st.holds(mkEq(meet, mkSel(filtered, j))) {
		return nil, "the path node used is not the one of the meeting point"
	}
	return j, ""
}

// lessThan is the truth of a < b, however the comparison was written.
func lessThan(st *State, a, b *Term) int {
	for _, u := range []bool{false, true} {
		if v := st.truth(mkLt(a, b, u)); v >= 0 {
			return v
		}
		if st.truth(mkLt(b, a, u)) == 1 {
			return 0
		}
	}
	// 2*x < 2*y iff x < y for leaf positions
	if x, y := halved(a), halved(b); x != nil && y != nil {
		return lessThan(st, x, y)
	}
	return -1
}

func halved(t *Term) *Term {
	t = strip(t)
	if t.Op == "bin" && t.Aux == "*" {
		if t.Args[0] == mkInt(2) {
			return t.Args[1]
		}
		if t.Args[1] == mkInt(2) {
			return t.Args[0]
		}
	}
	return nil
}

// copiedKeys: t is a private key list of the new tree's length holding the
// previous epoch's keys at their positions.
func (r *commitRun) copiedKeys(st *State, t *Term, tree func(*Term) bool) string {
	old := mkField(r.group, "privTree")
	fresh := func(t *Term) bool {
		t = strip(t)
		if t.Op != "zeros" || t.Args[0].Op != "len" {
			return false
		}
		return r.sameLength(st, t.Args[0].Args[0], tree)
	}
	t = strip(t)
	if t.Op == "copied" {
		// neither side leaves out keys both lists have room for
		whole := true
		for _, n := range t.Args[2:] {
			n = strip(n)
			whole = whole && (n == mkLen(old) || n.Op == "len" && r.sameLength(st, n.Args[0], tree) || same(n, mkLen(t.Args[0])) || same(n, t.Args[0].Args[0]))
		}
		if fresh(t.Args[0]) && same(t.Args[1], old) && whole {
			return ""
		}
		return "the previous private keys are not copied: " + brief(t)
	}
	li, init, next := lvOf(t)
	if li == nil || len(next) != len(li.back) || !fresh(init) {
		return "the new private keys do not start from those of the previous epoch: " + brief(t)
	}
	var it *iter
	for _, s := range []*Term{mkField(r.group, "tree"), old, strip(init)} {
		if it = iterOf(st, s, li); it != nil {
			break
		}
	}
	if it == nil {
		for f := range st.facts {
			if f.Op == "lt" && f.Args[1].Op == "len" && tree(f.Args[1].Args[0]) {
				if it = iterOf(st, f.Args[1].Args[0], li); it != nil {
					break
				}
			}
		}
	}
	if it == nil {
		return "not every private key of the previous epoch is copied"
	}
	for k, b := range li.back {
		n := strip(next[k])
		if n == t {
			// only skipped outside the shorter of the lists
			ok := false
			for f, v := range b.facts {
				if f.Op == "lt" && !v && f.Args[0] == it.i && f.Args[1].Op == "len" && (same(f.Args[1].Args[0], old) || r.sameLength(st, f.Args[1].Args[0], tree) || same(f.Args[1].Args[0], mkField(r.group, "tree"))) {
					ok = true
				}
			}
			if ok || b.holds(mkEq(mkSel(old, it.i), tNil)) {
				continue
			}
			return "a private key of the previous epoch is not copied"
		}
		if n.Op != "upd" || n.Args[0] != t || n.Args[1] != it.i || !same(n.Args[2], mkSel(old, it.i)) {
			return "a private key of the previous epoch is copied to another position"
		}
	}
	return ""
}

// sameLength: t is a tree as long as the new tree (merging a path does not
// change the length).
func (r *commitRun) sameLength(st *State, t *Term, tree func(*Term) bool) bool {
	if tree(t) {
		return true
	}
	return appliedTree(st, strip(through(st, t)), mkField(r.group, "tree"), r.props, r.senders) == ""
}

// joinedKeys checks the private keys of a member that joined: its own leaf's
// key, plus, when a path secret was sent, one verified key per present
// ancestor from the meeting point up.
func (j *joinRun) joinedKeys(st *State, content, info, tree, myLeaf *Term) string {
	isTree := func(t *Term) bool { return same(t, tree) }
	cs := mkField(mkField(info, "groupContext"), "cipherSuite")
	ps0 := mkField(j.secrets, "pathSecret")
	me := mkBin("*", mkInt(2), myLeaf)
	signer := mkBin("*", mkInt(2), mkField(info, "signer"))
	t := strip(content)
	base := mk("upd", "", mk("zeros", "hpkePrivateKey", mkLen(tree)), me, pv(j.pair, "Private.EncryptionKey"))
	if st.holds(mkEq(ps0, tNil)) || st.holds(mkEq(mkLen(ps0), mkInt(0))) {
		if !same(t, base) {
			return "private keys are " + brief(t)
		}
		return ""
	}
	li, init, next := lvOf(t)
	if li == nil || len(next) != len(li.back) {
		return "private keys are not derived along the path"
	}
	t1 := strip(init)
	if t1.Op != "upd" || !same(t1.Args[0], base) {
		return "private keys do not start from the own leaf's key"
	}
	meet := t1.Args[1]
	if !meets(j.c, meet, me, signer) {
		return "the path secret is not used where the signer's and the own path meet, but at " + brief(meet)
	}
	key, pub := pathKey(t1.Args[2], cs)
	if key == nil || !same(key, ps0) {
		return "the first private key is not derived from the path secret"
	}
	if !matchesNode(st, pub, meet, isTree) {
		return "the first private key is stored without comparing the derived public key with the tree's"
	}
	_, par := climber(st, li, meet, tree)
	if par == nil {
		return "private keys are not derived up to the root"
	}
	var sec *Term
	for k, b := range li.back {
		n := strip(next[k])
		blank := b.holds(mkEq(mkSel(tree, par), tNil))
		if n == t {
			if !blank {
				return "no private key is derived for a present ancestor"
			}
			continue
		}
		if n.Op != "upd" || n.Args[0] != t || !same(n.Args[1], par) {
			return "a private key is stored elsewhere than for the ancestor"
		}
		ps, pub := pathKey(n.Args[2], cs)
		if ps == nil {
			return "a private key is not derived from a path secret"
		}
		prev, ctx := isExpand(ps, cs, "path", kdfSize(cs))
		if prev == nil || norm(ctx) != tNil {
			return "a path secret is not derived from the previous one"
		}
		prev = strip(prev)
		pl, pinit, pn := lvOf(prev)
		if pl != li || !same(pinit, ps0) || len(pn) != len(li.back) || !same(pn[k], ps) {
			return "a path secret is not derived from that of the node below"
		}
		if sec != nil && sec != prev {
			return "path secrets are derived inconsistently"
		}
		sec = prev
		if blank {
			return "a private key is derived for a blank node"
		}
		if !matchesNode(b, pub, par, isTree) {
			return "a private key is stored without comparing the derived public key with the tree's"
		}
	}
	if sec == nil {
		return "no path secrets are derived above the meeting point"
	}
	_, _, pn := lvOf(sec)
	for k := range li.back {
		if strip(next[k]) == t && strip(pn[k]) != sec {
			return "the path secret advances at a blank node"
		}
	}
	return ""
}

func checkC17(c *Ctx) {
	r := c.commitRun()
	n := 0
	for _, o := range successes(r.outs) {
		n++
		g := o.st.load(r.gp)
		ctx := mkField(g, "groupContext")
		why := r.privKeys(o.st, o.st.content(mkField(g, "privTree")), r.provisional(ctx))
		c.oblige(why == "", "private keys match the new tree", "Group.processCommit", c.pos(o.pos), "%s", why)
		if o.st.holds(mkEq(mkField(r.commit, "path"), tNil)) {
			continue
		}
		ep, why := epochOf(mkField(g, "epochSecret"), r.cs)
		if c.oblige(ep != nil, "commit secret follows the last path secret", "Group.processCommit", c.pos(o.pos), "%s", why) {
			why = r.commitSecret(o.st, ep, o.st.content(mkField(g, "privTree")))
			c.oblige(why == "", "commit secret follows the last path secret", "Group.processCommit", c.pos(o.pos), "%s", why)
		}
	}
	c.count("commit_paths", n)
	j := c.joinRun()
	n = 0
	for _, o := range successes(j.outs) {
		n++
		g := o.st.load(o.res[0])
		why := j.joinedKeys(o.st, o.st.content(mkField(g, "privTree")), j.infoOf(o.st, g), mkField(g, "tree"), mkField(g, "myLeafIndex"))
		c.oblige(why == "", "private keys match the joined tree", "groupFromSecrets", c.pos(o.pos), "%s", why)
	}
	c.count("join_paths", n)
	fn := c.fn("CreateGroup")
	e := c.engine(c.groupOpaque(setOf("extractPSKSecret"), nil))
	a := SymArgs(fn)
	for _, o := range successes(c.run(e, fn, nil, a)) {
		g := o.st.load(o.res[0])
		want := mk("upd", "", mk("zeros", "hpkePrivateKey", mkInt(1)), mkInt(0), pv(mk("deref", "", a[1]), "Private.EncryptionKey"))
		got := e.snap(o.st, o.st.content(mkField(g, "privTree")), nil)
		ok := same(got, want) || got.Op == "upd" && same(got.Args[1], mkInt(0)) && same(got.Args[2], want.Args[2]) && (strip(got.Args[0]).Op == "zeros" || isZero(strip(got.Args[0]))) || got.Op == "list" && len(got.Args) == 1 && same(got.Args[0], want.Args[2])
		c.oblige(ok, "private keys match the created tree", "CreateGroup", c.pos(o.pos), "private keys are %v", got)
	}
	c.guard("ratchetTree.resolve", c.resolutionRule)
}

// provisional is the context the path secrets are encrypted with: the new one
// before the transcript hash is replaced.
func (r *commitRun) provisional(ctx *Term) *Term {
	return mkWithFields(r.ctx, map[string]*Term{"epoch": mkField(ctx, "epoch"), "treeHash": mkField(ctx, "treeHash")}, nil)
}

// commitSecret: the commit secret is derived from the path secret of the last
// stored key.
func (r *commitRun) commitSecret(st *State, ep *epoch, privs *Term) string {
	if ep.commitSecret == nil {
		return "the joiner secret is not derived from a commit secret"
	}
	s, ctx := isExpand(ep.commitSecret, r.cs, "path", kdfSize(r.cs))
	if s == nil || norm(ctx) != tNil {
		return "the commit secret is not derived with label \"path\""
	}
	s = strip(s)
	li, _, next := lvOf(s)
	t := strip(privs)
	pl, _, pnext := lvOf(t)
	if li == nil || li != pl || len(next) != len(pnext) {
		return "the commit secret is not derived from the last path secret"
	}
	for k := range next {
		n := strip(pnext[k])
		ps, _ := pathKey(n.Args[len(n.Args)-1], r.cs)
		if ps == nil || !same(ps, next[k]) {
			return "the commit secret is not derived from the last path secret"
		}
	}
	return ""
}
