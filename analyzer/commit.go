package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// Proposal types of RFC 9420 section 12.1.
const (
	ptAdd, ptUpdate, ptRemove, ptPSK, ptReInit, ptExternalInit, ptGCE = 1, 2, 3, 4, 5, 6, 7
)

// A commitRun is the analysis of processing one commit.
type commitRun struct {
	c                  *Ctx
	e                  *Engine
	fn                 *ssa.Function
	gp, group, ctx, cs *Term
	auth, content      *Term
	commit, path       *Term // the commit and its update path (values)
	sender             *Term
	resolved           *Term // call of resolveProposals
	props, senders     *Term
	pskIDs, psks, now  *Term
	outs               []Outcome
	stores             []effect
}

// commitRun analyses Group.processCommit: all helpers are followed, the
// resolution of proposals and the PSK chain are opaque (checked on their own).
func (c *Ctx) commitRun() *commitRun { return c.commitRunHook(nil) }

// commitRunHook is commitRun with a further hook for stores.
func (c *Ctx) commitRunHook(hook func(e *Engine, st *State, addr, val *Term, in ssa.Instruction)) *commitRun {
	fn := c.fn("Group.processCommit")
	c.fn("resolveProposals")
	a := SymArgs(fn)
	r := &commitRun{c: c, fn: fn, gp: a[0], group: mk("deref", "", a[0]), auth: mk("deref", "", a[1]), pskIDs: a[2], psks: a[3], now: a[4]}
	r.ctx = mkField(r.group, "groupContext")
	r.cs = mkField(r.ctx, "cipherSuite")
	r.content = mkField(r.auth, "content")
	r.commit = pv(r.content, "*commit")
	r.path = pv(r.commit, "*path")
	r.sender = pv(r.content, "sender.leafIndex")
	r.resolved = tCall("resolveProposals", mkField(r.commit, "proposals"), r.sender, mkField(r.group, "pendingProposals"))
	r.props, r.senders = mkExt(r.resolved, 0), mkExt(r.resolved, 1)
	r.e = c.engine(c.groupOpaque(setOf("resolveProposals", "extractPSKSecret"), nil))
	r.e.hooks.onStore = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		if hook != nil {
			hook(e, st, addr, val, in)
		}
		if addrRoot(addr) == r.gp {
			r.stores = append(r.stores, effect{kind: "store", st: st.clone(), where: fnName(in.Parent()), pos: c.pos(in.Pos()), addr: addr, val: e.snap(st, val, nil)})
		}
	}
	r.outs = c.run(r.e, fn, nil, a)
	return r
}

func isType(b *State, el *Term, t int64) bool {
	return b.holds(mkEq(mkField(el, "proposalType"), mkInt(t)))
}
func notType(b *State, el *Term, t int64) bool {
	return b.refuted(mkEq(mkField(el, "proposalType"), mkInt(t)))
}

func selType(t int64) func(b *State, el *Term) bool {
	return func(b *State, el *Term) bool { return !notType(b, el, t) }
}

// listRules are the proposal list rules of RFC 9420 section 12.2 that st
// establishes for the proposals; the result lists those that it does not.
func listRules(st *State, props, senders, committer *Term) []string {
	var bad []string
	need := func(ok bool, what string) {
		if !ok {
			bad = append(bad, what)
		}
	}
	sender := func(i *Term) *Term { return mkSel(senders, i) }
	need(unique(st, props, keyed{selType(ptAdd), func(el, i *Term) *Term { return pv(el, "*add.keyPackage.leafNode.signatureKey") }}),
		"no two additions with the same signature key")
	need(forAll(st, props, func(b *State, el, i *Term) bool {
		return notType(b, el, ptUpdate) || b.refuted(mkEq(sender(i), committer))
	}), "no update by the committer")
	need(forAll(st, props, func(b *State, el, i *Term) bool {
		return notType(b, el, ptRemove) || b.refuted(mkEq(pv(el, "*remove.removed"), committer))
	}), "no removal of the committer")
	need(unique(st, props,
		keyed{selType(ptUpdate), func(el, i *Term) *Term { return sender(i) }},
		keyed{selType(ptRemove), func(el, i *Term) *Term { return pv(el, "*remove.removed") }}),
		"no two updates or removals of the same leaf")
	need(unique(st, props, keyed{selType(ptPSK), func(el, i *Term) *Term {
		return encoded(iEnc("preSharedKeyID", pv(el, "*preSharedKey.psk")))
	}}), "no pre-shared key twice")
	need(atMostOne(st, props, selType(ptGCE)), "no two group context extension changes")
	need(forAll(st, props, func(b *State, el, i *Term) bool {
		return notType(b, el, ptReInit) || atMostLen1(b, props)
	}) || atMostLen1(st, props), "no reinitialisation together with another proposal")
	need(forAll(st, props, func(b *State, el, i *Term) bool { return notType(b, el, ptExternalInit) }), "no external init")
	return bad
}

func atMostLen1(st *State, s *Term) bool {
	n := mkLen(s)
	return st.truth(mkLt(mkInt(1), n, false)) == 0 || st.truth(mkLt(n, mkInt(2), false)) == 1 || st.truth(mkEq(n, mkInt(1))) == 1
}

// pathNotRequired: st establishes that the proposals do not require a path.
func pathNotRequired(st *State, props *Term) bool {
	if !hasElements(st, props) {
		return false
	}
	return forAll(st, props, func(b *State, el, i *Term) bool {
		return notType(b, el, ptUpdate) && notType(b, el, ptRemove) && notType(b, el, ptExternalInit) && notType(b, el, ptGCE)
	})
}

// through resolves slices made during the analysis to their content in st.
func through(st *State, t *Term) *Term {
	for k := 0; k < 8; k++ {
		s := strip(t)
		if v, ok := st.mem[s]; ok && v != s {
			t = v
			continue
		}
		return s
	}
	return strip(t)
}

// appliedTree: tree is base with all updates, then all removals, then all
// additions of the proposals applied. It returns what is wrong, or "".
func appliedTree(st *State, tree, base, props, senders *Term) string {
	empty := st.holds(mkEq(mkLen(props), mkInt(0)))
	t := strip(tree)
	type stage struct {
		fn   string
		typ  int64
		args func(el, i *Term) []*Term
		ptr  int // index of an argument compared by value behind pointer
	}
	stages := []stage{
		{"ratchetTree.add", ptAdd, func(el, i *Term) []*Term { return []*Term{pv(el, "*add.keyPackage.leafNode")} }, 0},
		{"ratchetTree.remove", ptRemove, func(el, i *Term) []*Term { return []*Term{pv(el, "*remove.removed")} }, -1},
		{"ratchetTree.update", ptUpdate, func(el, i *Term) []*Term { return []*Term{mkSel(senders, i), pv(el, "*update.leafNode")} }, 1},
	}
	for _, s := range stages {
		if empty {
			break
		}
		if t.Op == "mk" || t.Op == "alloc" {
			t = through(st, t)
		}
		li, init, next := lvOf(t)
		if li == nil || len(next) != len(li.back) {
			return fmt.Sprintf("no loop over all proposals calling %s", s.fn)
		}
		var it *iter
		for _, x := range itersOver(st, props) {
			if x.li == li {
				x := x
				it = &x
			}
		}
		from := func(t *Term) *Term { return t }
		if it == nil {
			// over those gathered before
			if it, from = gathered(st, li, props, props, s.typ); it == nil {
				return fmt.Sprintf("the loop calling %s does not visit every proposal", s.fn)
			}
		}
		el := mkSel(props, it.i)
		for k, b := range li.back {
			n := strip(next[k])
			if n == t {
				if !notType(b, el, s.typ) {
					return fmt.Sprintf("%s not called for some proposal of its type", s.fn)
				}
				continue
			}
			if n.Op != "out" || n.Aux != "0" || n.Args[0].Aux != s.fn || strip(n.Args[0].Args[0]) != t {
				return fmt.Sprintf("tree changed by something else than %s: %v", s.fn, n)
			}
			if it.li == li && !isType(b, el, s.typ) {
				return fmt.Sprintf("%s called for proposals of another type", s.fn)
			}
			for j, w := range s.args(el, it.i) {
				a := from(n.Args[0].Args[j+1])
				if j == s.ptr {
					a = derefSnap(a)
				}
				if !sameIn(b, a, w) {
					return fmt.Sprintf("argument of %s is %v", s.fn, a)
				}
			}
		}
		t = strip(init)
	}
	if t.Op == "mk" || t.Op == "alloc" {
		t = through(st, t)
	}
	if !same(t, base) {
		return fmt.Sprintf("the changes start from %v, not from the current tree", t)
	}
	return ""
}

// gathered: li visits all elements of a list that an earlier loop over the
// proposals (asLong is a list of the same length) filled with one element for each proposal of the type, in order.
// The result is that earlier loop and a function that expresses what is taken
// from the list by the proposal it was made from.
func gathered(st *State, li *LoopInfo, props, asLong *Term, typ int64) (*iter, func(*Term) *Term) {
	for _, b := range li.back {
		for f := range b.facts {
			if f.Op != "lt" || f.Args[1].Op != "len" {
				continue
			}
			l := strip(f.Args[1].Args[0])
			it := iterOf(st, l, li)
			l2, _, _ := lvOf(l)
			if it == nil || it.down || l2 == nil || l2 == li {
				continue
			}
			at := iterOf(st, props, l2)
			if at == nil {
				at = iterOf(st, asLong, l2)
			}
			if at == nil || at.down {
				continue
			}
			el := mkSel(props, at.i)
			takes := func(l *Term) *Term {
				li, init, next := lvOf(l)
				if li != l2 || len(next) != len(l2.back) || !emptySlice(l2.entry, init) {
					return nil
				}
				var v *Term
				for k, b := range l2.back {
					if n := strip(next[k]); n == strip(l) {
						if !notType(b, el, typ) {
							return nil
						}
						continue
					}
					e := appendedOne(next[k], strip(l))
					if e == nil || !isType(b, el, typ) || v != nil && v != e {
						return nil
					}
					v = e
				}
				return v
			}
			if takes(l) == nil {
				continue
			}
			return at, func(t *Term) *Term { return fromLists(t, it.i, takes) }
		}
	}
	return nil, nil
}

// A source is what an element of a list was made from.
type source struct {
	st *State
	t  *Term
}

// sources: t is or is part of an element of a list that a loop filled by
// appending; these are the values appended, in the states they were.
func sources(t *Term) []source {
	var l *Term
	for x := strip(t); l == nil; x = strip(x.Args[0]) {
		switch {
		case x.Op == "sel" && strip(x.Args[0]).Op == "lv":
			l = x
		case x.Op == "field" || x.Op == "fa" || x.Op == "deref" || x.Op == "sel":
			continue
		case x.Op == "bin" && x.Aux == "*" && x.Args[0].isConst():
			return eachSource(sources(x.Args[1]), func(y *Term) *Term { return mkBin("*", x.Args[0], y) })
		default:
			return nil
		}
		if l == nil && len(x.Args) == 0 {
			return nil
		}
	}
	list := strip(l.Args[0])
	li, init, next := lvOf(list)
	if li == nil || len(next) != len(li.back) || !emptySlice(li.entry, init) {
		return nil
	}
	var r []source
	for k, n := range next {
		if strip(n) == list {
			continue
		}
		v := appendedOne(n, list)
		if v == nil {
			return nil
		}
		r = append(r, source{li.back[k], fromLists(t, l.Args[1], func(x *Term) *Term {
			if strip(x) == list {
				return v
			}
			return nil
		})})
	}
	return r
}

func eachSource(l []source, f func(*Term) *Term) []source {
	r := make([]source, len(l))
	for i, s := range l {
		r[i] = source{s.st, f(s.t)}
	}
	return r
}

// fromLists replaces elements at i of the lists that takes knows.
func fromLists(t, i *Term, takes func(*Term) *Term) *Term {
	if t.Op == "sel" && t.Args[1] == i {
		if v := takes(t.Args[0]); v != nil {
			return v
		}
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for k, a := range t.Args {
		args[k] = fromLists(a, i, takes)
		ch = ch || args[k] != a
	}
	if !ch {
		return t
	}
	if t.Op == "deref" {
		if p := strip(args[0]); p.Op == "ia" {
			return mkSel(p.Args[0], p.Args[1])
		}
	}
	return rebuild(t, args)
}

// treeHash: t is the root tree hash of the returned tree.
func treeHash(t, cs *Term) *Term {
	t = strip(t)
	if t.Op != "ext" || t.Aux != "0" || t.Args[0].Op != "call" || t.Args[0].Aux != "ratchetTree.computeTreeHash" {
		return nil
	}
	a := t.Args[0].Args
	if !same(a[1], cs) || norm(a[3]) != tNil || !same(a[2], tCall("numLeaves.root", tCall("ratchetTree.numLeaves", strip(a[0])))) {
		return nil
	}
	return strip(a[0])
}

// hashOf is the cipher suite hash of the concatenated items.
func hashOf(cs *Term, items ...*Term) *Term {
	b := mk("hinit", "", tCall("CipherSuite.hash", cs))
	for _, it := range items {
		b = mkCat(b, it)
	}
	return mk("sum", "", b)
}

// An epoch describes the matched terms of an epoch's key schedule.
type epoch struct {
	ctx, joiner, psk, epochSecret, commitSecret, initSecret *Term
}

// epochOf matches t as an epoch secret: Expand(Extract(joiner, psk), "epoch",
// context), and the joiner as Expand(Extract(init, commit), "joiner", context).
func epochOf(t, cs *Term) (*epoch, string) {
	sec, ctx := isExpand(t, cs, "epoch", kdfSize(cs))
	if sec == nil {
		return nil, "not derived with label \"epoch\""
	}
	ep := &epoch{epochSecret: t}
	if ep.ctx = builtFrom(ctx, "groupContext"); ep.ctx == nil {
		return nil, "the context of the epoch secret is not the encoded group context"
	}
	x := isExtract(sec, cs)
	if x == nil {
		return nil, "epoch secret is not derived from an extraction"
	}
	ep.psk, ep.joiner = x[0], x[1]
	sec, ctx = isExpand(ep.joiner, cs, "joiner", kdfSize(cs))
	if sec == nil {
		return ep, ""
	}
	if c2 := builtFrom(ctx, "groupContext"); c2 == nil || !same(c2, ep.ctx) {
		return nil, "joiner and epoch secret use different contexts"
	}
	x = isExtract(sec, cs)
	if x == nil {
		return nil, "joiner secret is not derived from an extraction"
	}
	ep.commitSecret, ep.initSecret = x[0], x[1]
	return ep, ""
}

// isExtract matches KDF.Extract and returns input keying material and salt.
func isExtract(t, cs *Term) []*Term {
	t = strip(t)
	if t.Op != "call" || t.Aux != "hpke.KDF.Extract" || !same(t.Args[0], hpkeParam(cs, 1)) {
		return nil
	}
	return []*Term{t.Args[1], t.Args[2]}
}

// builtFrom matches the encoding of one value of type T and returns the value.
func builtFrom(t *Term, T string) *Term {
	t = strip(t)
	if t.Op != "built" || t.Args[0].Op != "cat" || t.Args[0].Args[0] != bEmpty {
		return nil
	}
	it := t.Args[0].Args[1]
	if it.Op != "enc" || it.Aux != T {
		return nil
	}
	return it.Args[0]
}

// pskIs: t is the PSK secret computed by call (zeros when that is nil).
func pskIs(st *State, t, call, cs *Term) bool {
	t = strip(t)
	v := mkExt(call, 0)
	return same(t, v) || st.holds(mkEq(v, tNil)) && same(t, mkZerosN(kdfSize(cs)))
}

func mkZerosN(n *Term) *Term { return mk("zeros", "byte", n) }

// confirmedHash is the confirmed transcript hash after auth.
func confirmedHash(cs, interim, wf, content, sig *Term) *Term {
	return hashOf(cs, iBytes(interim), iBytes(encoded(iEnc("wireFormat", wf), iEnc("framedContent", content), iOpaque(sig))))
}

func interimHash(cs, confirmed, tag *Term) *Term {
	return hashOf(cs, iBytes(confirmed), iBytes(encoded(iOpaque(tag))))
}

// newEpoch checks that ep is the epoch this commit creates, and returns its
// tree.
func (r *commitRun) newEpoch(st *State, ep *epoch, bad func(format string, args ...any)) (tree *Term) {
	ctx := ep.ctx
	for _, f := range []string{"version", "cipherSuite", "groupID"} {
		if !same(mkField(ctx, f), mkField(r.ctx, f)) {
			bad("new context has %s %v", f, mkField(ctx, f))
		}
	}
	if !same(mkField(ctx, "epoch"), mkBin("+", mkField(r.ctx, "epoch"), mkInt(1))) {
		bad("new epoch is %v", mkField(ctx, "epoch"))
	}
	cth := confirmedHash(r.cs, mkField(r.group, "interimTranscriptHash"), mkField(r.auth, "wireFormat"), r.content, pv(r.auth, "auth.signature"))
	if !same(mkField(ctx, "confirmedTranscriptHash"), cth) {
		bad("confirmed transcript hash is %v", mkField(ctx, "confirmedTranscriptHash"))
	}
	tree = treeHash(mkField(ctx, "treeHash"), r.cs)
	if tree == nil {
		bad("tree hash of the new context is %v", mkField(ctx, "treeHash"))
	} else if why := r.newTree(st, tree); why != "" {
		bad("tree hash is not that of the new tree: %s", why)
	}
	if !pskIs(st, ep.psk, tCall("extractPSKSecret", r.cs, r.pskIDs, r.psks), r.cs) {
		bad("PSK secret is %v", ep.psk)
	}
	if ep.commitSecret == nil {
		bad("the joiner secret is not derived from the commit secret: %v", ep.joiner)
		return
	}
	if !same(ep.initSecret, mkField(r.group, "initSecret")) {
		bad("joiner secret uses init secret %v", ep.initSecret)
	}
	hasPath := st.refuted(mkEq(mkField(r.commit, "path"), tNil))
	noPath := st.holds(mkEq(mkField(r.commit, "path"), tNil))
	switch {
	case hasPath:
		if s, ctx := isExpand(ep.commitSecret, r.cs, "path", kdfSize(r.cs)); s == nil || norm(ctx) != tNil || !pathSecretFrom(s, r.path) {
			bad("commit secret is not derived from the last path secret: %v", ep.commitSecret)
		}
	case noPath:
		if !same(ep.commitSecret, mkZerosN(kdfSize(r.cs))) {
			bad("commit secret without a path is %v", ep.commitSecret)
		}
	default:
		bad("commit secret does not depend on the presence of a path")
	}
	return
}

// pathSecretFrom: t comes from decrypting a path secret of the update path.
func pathSecretFrom(t, path *Term) bool {
	return deepAny(t, func(x *Term) bool {
		return x.Op == "call" && x.Aux == "CipherSuite.decryptWithLabel" && deepAny(x, func(y *Term) bool { return y == mkField(path, "nodes") })
	})
}

// newTree: t is the tree this commit produces.
func (r *commitRun) newTree(st *State, t *Term) string {
	t = strip(t)
	if t.Op == "mk" || t.Op == "alloc" || t.Op == "lv" {
		t = through(st, t)
	}
	if st.holds(mkEq(mkField(r.commit, "path"), tNil)) {
		return appliedTree(st, t, mkField(r.group, "tree"), r.props, r.senders)
	}
	if t.Op != "out" || t.Aux != "0" || t.Args[0].Aux != "ratchetTree.mergeUpdatePath" {
		return "the update path is not merged into it"
	}
	a := t.Args[0].Args
	if !same(a[1], r.cs) || !same(a[2], r.sender) || !same(derefSnap(a[3]), r.path) {
		return "the merged path is not the commit's path at the sender's position"
	}
	return appliedTree(st, a[0], mkField(r.group, "tree"), r.props, r.senders)
}

// tagVerified finds the comparison of the confirmation tag and returns the
// matched epoch.
func (r *commitRun) tagVerified(st *State) (*epoch, string) {
	return tagIn(st, r.cs, pv(r.auth, "auth.confirmationTag"))
}

// tagIn finds the comparison of a confirmation tag with the MAC of an epoch.
func tagIn(st *State, cs, tag *Term) (*epoch, string) {
	tag = norm(tag)
	why := "no complete comparison of the confirmation tag"
	for f, v := range st.facts {
		if !v || f.Op != "beq" && f.Op != "eq" {
			continue
		}
		a, b := norm(f.Args[0]), norm(f.Args[1])
		if b == tag {
			a, b = b, a
		}
		if a != tag || b.Op != "sum" {
			continue
		}
		m := b.Args[0]
		if m.Op != "cat" || m.Args[0].Op != "macinit" || m.Args[1].Op != "bytes" {
			why = "confirmation tag compared with " + fmt.Sprint(b)
			continue
		}
		key := m.Args[0].Args[1]
		sec, ctx := isExpand(key, cs, "confirm", kdfSize(cs))
		if sec == nil || norm(ctx) != tNil {
			why = "confirmation key is not derived with label \"confirm\""
			continue
		}
		ep, w := epochOf(sec, cs)
		if ep == nil {
			why = "confirmation key: " + w
			continue
		}
		data := m.Args[1].Args[0]
		if norm(b) != norm(macOf(cs, key, data)) || !same(data, mkField(ep.ctx, "confirmedTranscriptHash")) {
			why = "confirmation tag is not over the new confirmed transcript hash"
			continue
		}
		return ep, ""
	}
	return nil, why
}

// validated checks everything that must be established before the commit
// takes effect.
func (r *commitRun) validated(st *State, where, pos string) {
	need := func(ok bool, rule, format string, args ...any) bool {
		return r.c.oblige(ok, rule, where, pos, format, args...)
	}
	need(st.holds(mkEq(mkField(r.content, "contentType"), mkInt(3))), "content is a commit", "content type not established")
	need(st.holds(mkEq(mkExt(r.resolved, 2), tNil)), "referenced proposals known", "the error of resolving the commit's proposals is not checked")
	bad := listRules(st, r.props, r.senders, r.sender)
	need(len(bad) == 0, "proposal list rules", "not established: %v", bad)
	need(forAll(st, r.props, func(b *State, el, i *Term) bool {
		return notType(b, el, ptAdd) || r.addValid(b, el)
	}), "added key packages valid", "not every added key package is verified for this group")
	tree := mkField(r.group, "tree")
	need(forAll(st, r.props, func(b *State, el, i *Term) bool {
		return notType(b, el, ptRemove) || presentLeaf(b, tree, pv(el, "*remove.removed"))
	}), "removed leaves exist", "not every removed leaf is established to be present")
	hasPath := st.refuted(mkEq(mkField(r.commit, "path"), tNil))
	need(hasPath || pathNotRequired(st, r.props), "path present when required", "a commit without update path is applied although the proposals may require one")
	ep, why := r.tagVerified(st)
	if need(ep != nil, "confirmation tag verified", "%s", why) {
		r.newEpoch(st, ep, func(format string, args ...any) {
			need(false, "confirmation tag verified", "tag is not for the new epoch: "+format, args...)
		})
	}
	if st.holds(mkEq(mkField(r.commit, "path"), tNil)) {
		return
	}
	leaf := mkField(r.path, "leafNode")
	need(st.holds(mkEq(mkField(leaf, "leafNodeSource"), mkInt(3))), "path leaf comes from a commit", "leaf node source not established to be commit")
	why = r.pathLeaf(st)
	need(why == "", "path leaf verified", "%s", why)
	t0 := r.appliedIn(st)
	need(t0 != nil && forAll(st, mkField(r.path, "nodes"), func(b *State, el, i *Term) bool {
		return b.refuted(mkMapHas(mk("deref", "", mkExt(tCall("ratchetTree.keys", t0), 1)), mkField(el, "encryptionKey")))
	}), "path node keys unused", "not every path node's key is checked against the encryption keys of the tree")
	ok := false
	for f, v := range st.facts {
		if !v || f.Op != "eq" {
			continue
		}
		for _, call := range f.Args {
			if call.Op == "call" && call.Aux == "ratchetTree.mergeUpdatePath" && same(call.Args[1], r.cs) && same(call.Args[2], r.sender) && same(derefSnap(call.Args[3]), r.path) {
				ok = true
			}
		}
	}
	need(ok, "path merged", "the result of merging the update path is not checked")
}

// appliedIn: the tree with the proposals applied (argument of the merge).
func (r *commitRun) appliedIn(st *State) *Term {
	var t *Term
	for f, v := range st.facts {
		if !v || f.Op != "eq" {
			continue
		}
		for _, call := range f.Args {
			if call.Op == "call" && call.Aux == "ratchetTree.mergeUpdatePath" {
				t = strip(call.Args[0])
			}
		}
	}
	return t
}

func (r *commitRun) addValid(b *State, el *Term) bool {
	for f, v := range b.facts {
		if !v || f.Op != "eq" {
			continue
		}
		for _, call := range f.Args {
			if call.Op == "call" && call.Aux == "KeyPackage.verify" && sameIn(b, derefSnap(call.Args[0]), pv(el, "*add.keyPackage")) && same(derefSnap(call.Args[1]), r.ctx) {
				return true
			}
		}
	}
	return false
}

// pathLeaf: the new leaf of the committer was verified for its place.
func (r *commitRun) pathLeaf(st *State) string {
	why := "the new leaf is not verified"
	for f, v := range st.facts {
		if !v || f.Op != "eq" || f.Args[0].Op != "call" && f.Args[1].Op != "call" {
			continue
		}
		call := f.Args[0]
		if call == tNil {
			call = f.Args[1]
		}
		if call.Aux == "leafNode.verify" && same(derefSnap(call.Args[0]), mkField(r.path, "leafNode")) {
			if why = r.leafOptions(st, derefSnap(call.Args[1])); why == "" {
				break
			}
		}
	}
	return why
}

// leafOptions checks the options the new leaf is verified with.
func (r *commitRun) leafOptions(st *State, o *Term) string {
	for f, w := range map[string]*Term{"cipherSuite": r.cs, "groupID": mkField(r.ctx, "groupID"), "leafIndex": r.sender, "now": r.now} {
		if !same(mkField(o, f), w) {
			return fmt.Sprintf("the new leaf is verified with %s %v", f, mkField(o, f))
		}
	}
	sc := strip(mkField(o, "supportedCreds"))
	if sc.Op != "call" || sc.Aux != "ratchetTree.supportedCreds" {
		return fmt.Sprintf("the new leaf is verified with supported credentials %v", sc)
	}
	t := strip(sc.Args[0])
	if why := appliedTree(st, t, mkField(r.group, "tree"), r.props, r.senders); why != "" {
		return "supported credentials are not those of the new tree: " + why
	}
	keys := tCall("ratchetTree.keys", t)
	deref := func(x *Term) *Term {
		x = strip(x)
		if x.Op == "deref" {
			return x
		}
		return x
	}
	enc := deref(mkField(o, "encryptionKeys"))
	if !same(enc, mkExt(keys, 1)) && !same(enc, mk("deref", "", mkExt(keys, 1))) {
		return fmt.Sprintf("the new leaf is verified against encryption keys %v", enc)
	}
	sig := deref(mkField(o, "signatureKeys"))
	if sig.Op == "mapdel" && same(sig.Args[1], mkField(leafOf(t, r.sender), "signatureKey")) {
		sig = sig.Args[0]
	}
	if !same(sig, mkExt(keys, 0)) && !same(sig, mk("deref", "", mkExt(keys, 0))) {
		return fmt.Sprintf("the new leaf is verified against signature keys %v", sig)
	}
	return ""
}

func checkC09(c *Ctx) {
	r := c.commitRun()
	for i := range r.stores {
		s := &r.stores[i]
		r.validated(s.st, s.where+" write to the group", s.pos)
	}
	c.count("group_writes", len(r.stores))
	n := 0
	for _, o := range successes(r.outs) {
		n++
		r.validated(o.st, "Group.processCommit success", c.pos(o.pos))
	}
	c.count("successful_paths", n)
	c.guard("resolveProposals", func() { c.resolveRule() })
	c.guard("ratchetTree.mergeUpdatePath", func() { c.mergeRule() })
	c.guard("leafNode.verify", c.leafRule)
	c.guard("KeyPackage.verify", c.keyPackageRule)
	c.guard("ratchetTree.supportedCreds", c.supportedCredsRule)
	c.guard("ratchetTree.keys", c.keysRule)
	c.guard("ratchetTree.resolve", c.resolutionRule)
}
