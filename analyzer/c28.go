package main

import "fmt"

// ---- lists built element by element -----------------------------------------

// A pointwise list has been filled by a completed loop over seq: its element i
// is val, computed in the iteration with index i that ended in state b.
type pointwise struct {
	li     *LoopInfo
	i, val *Term
	b      *State
}

// pointwiseOf matches list as built by one completed loop over seq.
func pointwiseOf(st *State, list, seq *Term) (*pointwise, string) {
	t := through(st, list)
	if t.Op == "mk" || t.Op == "alloc" {
		t = strip(st.content(t))
	}
	li, init, next := lvOf(t)
	if li == nil {
		return nil, fmt.Sprintf("it is not filled by a loop: %v", t)
	}
	if len(next) != len(li.back) {
		return nil, "it is filled irregularly"
	}
	for _, it := range itersOver(st, seq) {
		if it.li != li {
			continue
		}
		var p *pointwise
		for k, b := range li.back {
			if it.dead(st, k) {
				continue
			}
			n := strip(next[k])
			var v *Term
			switch {
			case n.Op == "upd" && n.Args[0] == t && n.Args[1] == it.i && init.Op == "zeros" && same(init.Args[0], mkLen(seq)):
				v = n.Args[2]
			case n.Op == "append" && n.Args[0] == t && n.Args[1].Op == "list" && len(n.Args[1].Args) == 1 && (emptySlice(li.entry, init) || emptySlice(st, init)):
				v = n.Args[1].Args[0]
			default:
				return nil, fmt.Sprintf("an iteration does not set exactly its own element: %v", n)
			}
			if p != nil && p.val != v {
				return nil, "elements are computed in different ways"
			}
			p = &pointwise{li: li, i: it.i, val: v, b: b}
		}
		if p == nil {
			return nil, "no iteration fills it"
		}
		return p, ""
	}
	return nil, "the loop that fills it is not shown to visit every element"
}

// isAddition: in state b, v is an Add proposal of key package kp.
func isAddition(b *State, v, kp *Term) bool {
	v = strip(v)
	if !sameIn(b, mkField(v, "proposalType"), mkInt(ptAdd)) {
		return false
	}
	a := derefSnap(mkField(v, "add"))
	if a == nil || a.Op == "deref" || a.Op == "alloc" {
		a = b.load(mkField(v, "add"))
	}
	return same(mkField(a, "keyPackage"), kp)
}

// additions: list holds, for each key package in order, its Add proposal.
func additions(st *State, list, keyPkgs *Term) string {
	p, why := pointwiseOf(st, list, keyPkgs)
	if p == nil {
		return why
	}
	if !isAddition(p.b, p.val, mkSel(keyPkgs, p.i)) {
		return fmt.Sprintf("an element is %v, not the addition of the key package at its position", p.val)
	}
	return ""
}

// commitAdds: the proposals of a commit are exactly the additions, by value.
func commitAdds(st *State, list, keyPkgs *Term) string {
	p, why := pointwiseOf(st, list, keyPkgs)
	if p == nil {
		// or built from a list that is
		if li, _, _ := lvOf(through(st, list)); li != nil {
			for _, b := range li.back {
				for f := range b.facts {
					if p == nil && f.Op == "lt" && f.Args[1].Op == "len" && additions(st, f.Args[1].Args[0], keyPkgs) == "" {
						p, _ = pointwiseOf(st, list, f.Args[1].Args[0])
					}
				}
			}
		}
	}
	if p == nil {
		return why
	}
	if !same(mkField(p.val, "typ"), mkInt(1)) {
		return "a proposal is not sent by value"
	}
	ptr := strip(mkField(p.val, "proposal"))
	if ptr.Op == "ia" || ptr.Op == "iap" {
		if ptr.Args[1] != p.i {
			return "a proposal refers to the wrong position"
		}
		return additions(st, ptr.Args[0], keyPkgs)
	}
	v := derefSnap(ptr)
	if v.Op == "deref" || v.Op == "alloc" {
		v = p.b.load(ptr)
	}
	if !isAddition(p.b, v, mkSel(keyPkgs, p.i)) {
		return fmt.Sprintf("a proposal is %v", v)
	}
	return ""
}

// addedTree: tree is base with the leaf of every key package added, in order.
func addedTree(st *State, tree, base, keyPkgs *Term) string {
	t := strip(tree)
	done := false
	for k := 0; k < 8; k++ {
		if t.Op == "mk" || t.Op == "alloc" {
			t = through(st, t)
		}
		li, init, next := lvOf(t)
		if li == nil {
			break
		}
		if len(next) != len(li.back) {
			return "the tree is changed irregularly"
		}
		seqs := append([]*Term{keyPkgs}, completed(st)...)
		why := "a loop changing the tree does not visit every new member"
		adds := false
	seqs:
		for _, seq := range seqs {
			direct := same(seq, keyPkgs)
			if !direct && additions(st, seq, keyPkgs) != "" {
				continue
			}
			its := itersOver(st, seq)
			if !direct {
				its = append(its, itersOver(st, keyPkgs)...)
			}
			for _, it := range its {
				if it.li != li {
					continue
				}
				el := mkSel(seq, it.i)
				leaf := mkField(el, "leafNode")
				if !direct {
					leaf = pv(el, "*add.keyPackage.leafNode")
				}
				n, same0 := 0, 0
				why = ""
				for k, b := range li.back {
					if it.dead(st, k) || !direct && otherType(b, el) {
						continue
					}
					n++
					x := strip(next[k])
					if x == t {
						same0++
						continue
					}
					if x.Op != "out" || x.Aux != "0" || x.Args[0].Aux != "ratchetTree.add" || strip(x.Args[0].Args[0]) != t {
						why = fmt.Sprintf("tree changed by %v", x)
					} else if !sameIn(b, derefSnap(x.Args[0].Args[1]), leaf) {
						why = fmt.Sprintf("the added leaf is %v", x.Args[0].Args[1])
					}
				}
				if why == "" && same0 != 0 && same0 != n {
					why = "some new members are not added"
				}
				if why == "" {
					adds = n > 0 && same0 == 0
					break seqs
				}
			}
		}
		if why != "" {
			// over those gathered from them
			for _, seq := range completed(st) {
				if additions(st, seq, keyPkgs) != "" {
					continue
				}
				for _, typ := range []int64{ptUpdate, ptRemove} {
					if it, _ := gathered(st, li, seq, keyPkgs, typ); it != nil {
						why = ""
					}
				}
				if it, from := gathered(st, li, seq, keyPkgs, ptAdd); it != nil {
					why, adds = "", true
					for k, b := range li.back {
						x := strip(next[k])
						if x.Op != "out" || x.Aux != "0" || x.Args[0].Aux != "ratchetTree.add" || strip(x.Args[0].Args[0]) != t || !sameIn(b, derefSnap(from(x.Args[0].Args[1])), pv(mkSel(seq, it.i), "*add.keyPackage.leafNode")) {
							why = fmt.Sprintf("tree changed by %v", x)
						}
					}
				}
			}
		}
		if why != "" {
			return why
		}
		if adds && done {
			return "new members are added twice"
		}
		done = done || adds
		t = strip(init)
	}
	if t.Op == "mk" || t.Op == "alloc" {
		t = through(st, t)
	}
	switch {
	case !same(t, base):
		return fmt.Sprintf("the changes start from %v, not from the current tree", t)
	case !done && !st.holds(mkEq(mkLen(keyPkgs), mkInt(0))):
		return "the new members are not added"
	}
	return ""
}

// completed are the lists that loops known in st were over, or used elements of.
func completed(st *State) []*Term {
	var l []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if !seen[t] {
			seen[t] = true
			l = append(l, t)
		}
	}
	for f, v := range st.facts {
		if f.Op != "lt" || v {
			continue
		}
		if f.Args[1].Op == "len" {
			add(f.Args[1].Args[0])
		}
		if li, ok := counter(f.Args[0]); ok {
			for _, b := range li.back {
				for g := range b.facts {
					g.any(func(x *Term) bool {
						if x.Op == "sel" && x.Args[1] == f.Args[0] {
							add(x.Args[0])
						}
						return false
					})
				}
			}
		}
	}
	return l
}

// otherType: b establishes that el is not an Add proposal.
func otherType(b *State, el *Term) bool {
	if notType(b, el, ptAdd) {
		return true
	}
	for k := int64(2); k <= 7; k++ {
		if isType(b, el, k) {
			return true
		}
	}
	return false
}

// ---- welcome ----------------------------------------------------------------

// tagEpoch matches t as the confirmation tag of an epoch.
func tagEpoch(t, cs *Term) (*epoch, string) {
	t = strip(t)
	if t.Op != "sum" || t.Args[0].Op != "cat" || t.Args[0].Args[0].Op != "macinit" || t.Args[0].Args[1].Op != "bytes" {
		return nil, fmt.Sprintf("it is %v, not a MAC", t)
	}
	m := t.Args[0]
	key := m.Args[0].Args[1]
	sec, ctx := isExpand(key, cs, "confirm", kdfSize(cs))
	if sec == nil || norm(ctx) != tNil {
		return nil, "its key is not derived with label \"confirm\""
	}
	ep, why := epochOf(sec, cs)
	if ep == nil {
		return nil, why
	}
	data := m.Args[1].Args[0]
	if norm(t) != norm(macOf(cs, key, data)) || !same(data, mkField(ep.ctx, "confirmedTranscriptHash")) {
		return nil, "it is not over the confirmed transcript hash"
	}
	return ep, ""
}

// welcomeMade checks one successful path of inviting members.
func (r *sendRun) welcomeMade(o Outcome, keyPkgs *Term) {
	c, st, cs := r.c, o.st, r.cs
	where, pos := fnName(r.fn), c.pos(o.pos)
	need := func(ok bool, rule, format string, args ...any) bool {
		return c.oblige(ok, rule, where, pos, format, args...)
	}
	c.count("invitations", 1)
	w := st.load(o.res[0])
	need(same(mkField(w, "cipherSuite"), cs), "welcome names the cipher suite", "cipher suite is %v", mkField(w, "cipherSuite"))
	my := mkField(r.group, "myLeafIndex")

	// every package is valid for this group
	need(forAll(st, keyPkgs, func(b *State, el, i *Term) bool {
		for f, v := range b.facts {
			if !v || f.Op != "eq" || f.Args[0] != tNil && f.Args[1] != tNil {
				continue
			}
			x := f.Args[0]
			if x == tNil {
				x = f.Args[1]
			}
			if x.Op == "call" && x.Aux == "KeyPackage.verify" && same(derefSnap(x.Args[0]), el) && (same(derefSnap(x.Args[1]), r.ctx) || x.Args[1] == mkFA(r.gp, "groupContext", nil)) {
				return true
			}
		}
		return false
	}), "invited key packages are valid for the group", "a key package is not established to verify against the current group context")

	// the group information
	egi := r.e.snap(st, mkField(w, "encryptedGroupInfo"), nil)
	op := sealed(egi, cs)
	if !need(op != nil, "group info encrypted", "encrypted group info is %v", egi) {
		return
	}
	info := builtFrom(op.data, "groupInfo")
	if !need(info != nil, "group info encrypted", "the encrypted bytes are %v", op.data) {
		return
	}
	ep, why := tagEpoch(mkField(info, "confirmationTag"), cs)
	if !need(ep != nil, "confirmation tag of the new epoch", "%s", why) {
		return
	}
	k, kc := isExpand(op.key, cs, "key", aeadSize(cs, "KeySize"))
	n, nc := isExpand(op.nonce, cs, "nonce", aeadSize(cs, "NonceSize"))
	why = ""
	switch {
	case k == nil || n == nil || !same(k, n) || norm(kc) != tNil || norm(nc) != tNil || norm(op.aad) != tNil:
		why = "key and nonce are not the welcome key and nonce"
	default:
		s, sc := isExpand(k, cs, "welcome", kdfSize(cs))
		x := []*Term(nil)
		if s != nil && norm(sc) == tNil {
			x = isExtract(s, cs)
		}
		if x == nil || !same(x[0], ep.psk) || !same(x[1], ep.joiner) {
			why = "the welcome secret is not that of the new epoch"
		}
	}
	need(why == "", "group info encrypted under the welcome key", "%s", why)

	// the epoch
	ctx := ep.ctx
	need(same(mkField(info, "groupContext"), ctx), "group info describes the new epoch", "its context is %v", mkField(info, "groupContext"))
	for _, f := range c.p.structFields("groupContext") {
		switch f {
		case "epoch", "treeHash", "confirmedTranscriptHash":
		default:
			need(same(mkField(ctx, f), mkField(r.ctx, f)), "new context keeps "+f, "%s is %v", f, mkField(ctx, f))
		}
	}
	need(same(mkField(ctx, "epoch"), mkBin("+", mkField(r.ctx, "epoch"), mkInt(1))), "next epoch", "epoch is %v", mkField(ctx, "epoch"))
	tree := treeHash(mkField(ctx, "treeHash"), cs)
	if need(tree != nil, "tree hash of the new tree", "tree hash is %v", mkField(ctx, "treeHash")) {
		why = addedTree(st, tree, mkField(r.group, "tree"), keyPkgs)
		need(why == "", "new tree has the new members", "%s", why)
	}
	zeros := mkZerosN(kdfSize(cs))
	need(same(ep.psk, zeros), "no PSK", "PSK secret is %v", ep.psk)
	need(ep.commitSecret != nil && same(ep.commitSecret, zeros) && same(ep.initSecret, mkField(r.group, "initSecret")), "joiner secret of the new epoch", "joiner secret is %v", ep.joiner)
	need(same(mkField(info, "signer"), my), "signed by the sender", "signer is %v", mkField(info, "signer"))

	// the signature
	sig := strip(mkField(info, "signature"))
	why = "signature is " + fmt.Sprint(sig)
	if sig.Op == "ext" && sig.Aux == "0" && sig.Args[0].Aux == "CipherSuite.signWithLabel" {
		a := sig.Args[0].Args
		switch {
		case !same(a[0], cs) || !same(a[1], mkField(r.group, "signaturePriv")) || norm(a[2]) != mkStr("GroupInfoTBS"):
			why = "signed with another key, label or suite"
		case !st.holds(mkEq(mkExt(sig.Args[0], 1), tNil)):
			why = "a failure to sign is not detected"
		default:
			why = c.laidOut(r.e, st, a[3], groupInfoBase, info, nil)
		}
	}
	need(why == "", "signed by the sender", "%s", why)

	// the tree is included
	exts := through(st, mkField(info, "extensions"))
	why = "the extensions are " + fmt.Sprint(exts)
	if exts.Op == "list" {
		why = "no ratchet tree extension"
		for _, x := range exts.Args {
			if same(mkField(x, "extensionType"), mkInt(2)) {
				why = ""
				if t := builtFrom(mkField(x, "extensionData"), "ratchetTree"); t == nil || tree == nil || !same(t, tree) {
					why = "the included tree is not the new tree"
				}
				break
			}
		}
	}
	need(why == "", "new tree included", "%s", why)

	// one entry per new member
	p, why := pointwiseOf(st, mkField(w, "secrets"), keyPkgs)
	if need(p != nil, "one entry for each new member", "%s", why) {
		kp := mkSel(keyPkgs, p.i)
		ref := strip(mkField(p.val, "newMember"))
		ok := ref.Op == "ext" && ref.Aux == "0" && ref.Args[0].Aux == "CipherSuite.refHash"
		if ok {
			a := ref.Args[0].Args
			ok = (same(a[0], cs) || same(a[0], mkField(kp, "cipherSuite"))) && norm(a[1]) == mkStr("MLS 1.0 KeyPackage Reference") && same(a[2], encoded(iEnc("KeyPackage", kp)))
		}
		need(ok, "entry names the key package", "the reference is %v", ref)
		ct := mkField(p.val, "encryptedGroupSecrets")
		call := strip(mkField(ct, "kemOutput"))
		ok = call.Op == "ext" && call.Aux == "0" && call.Args[0].Aux == "CipherSuite.encryptWithLabel"
		why = fmt.Sprintf("the entry is %v", ct)
		if ok {
			call = call.Args[0]
			a := call.Args
			gs := builtFrom(a[4], "groupSecrets")
			switch {
			case !same(mkField(ct, "ciphertext"), mkExt(call, 1)):
				why = "KEM output and ciphertext belong to different encryptions"
			case !same(a[0], cs) || norm(a[2]) != mkStr("Welcome"):
				why = "encrypted with another suite or label"
			case !same(a[1], mkField(kp, "initKey")):
				why = fmt.Sprintf("encrypted to %v, not to the init key of the entry's key package", a[1])
			case !same(a[3], egi):
				why = "the context is not the encrypted group info"
			case gs == nil:
				why = fmt.Sprintf("the encrypted bytes are %v", a[4])
			case !same(mkField(gs, "joinerSecret"), ep.joiner):
				why = fmt.Sprintf("the joiner secret sent is %v", mkField(gs, "joinerSecret"))
			case norm(mkField(gs, "pathSecret")) != tNil || norm(mkField(gs, "psks")) != tNil:
				why = "a path secret or PSK is sent that the commit does not have"
			case !p.b.holds(mkEq(mkExt(call, 2), tNil)):
				why = "a failure to encrypt is not detected"
			default:
				why = ""
			}
		}
		need(why == "", "entry carries the joiner secret for its key package", "%s", why)
	}

	// the commit
	s := r.sent(o, o.res[1], 3)
	if s == nil {
		return
	}
	commit := derefSnap(mkField(s.content, "commit"))
	why = commitAdds(st, mkField(commit, "proposals"), keyPkgs)
	need(why == "", "commit adds exactly the new members", "%s", why)
	need(norm(mkField(commit, "path")) == tNil, "commit without path", "path is %v", mkField(commit, "path"))
	need(same(pv(s.content, "auth.confirmationTag"), mkField(info, "confirmationTag")), "commit and group info confirm the same epoch", "the commit's tag is %v", pv(s.content, "auth.confirmationTag"))
	cth := confirmedHash(cs, mkField(r.group, "interimTranscriptHash"), mkInt(2), s.framed, pv(s.content, "auth.signature"))
	need(sameIn(st, mkField(ctx, "confirmedTranscriptHash"), cth), "transcript includes the commit sent", "confirmed transcript hash is %v", mkField(ctx, "confirmedTranscriptHash"))
}

func checkC28(c *Ctx) {
	r := c.sendRun("Group.CreateWelcome")
	keyPkgs := SymArgs(r.fn)[1]
	for _, o := range successes(r.outs) {
		r.welcomeMade(o, keyPkgs)
	}
	c.sentAs("Welcome", "encryptedGroupSecrets", "groupSecrets", "groupInfo")
	c.guard("key packages", c.keyPackageRule)
	c.guard("references", c.refRule)
	c.guard("hpke", c.hpkeRule)
	c.guard("signatures", c.signatureRule)
}
