package main

import "golang.org/x/tools/go/ssa"

// A joinRun is the analysis of creating a group from a welcome's secrets.
type joinRun struct {
	c                               *Ctx
	e                               *Engine
	fn                              *ssa.Function
	welcome, pair, secrets, options *Term
	outs                            []Outcome
}

func (c *Ctx) joinRun() *joinRun {
	fn := c.fn("groupFromSecrets")
	a := SymArgs(fn)
	j := &joinRun{c: c, fn: fn, welcome: mk("deref", "", a[0]), pair: mk("deref", "", a[1]), secrets: mk("deref", "", a[2]), options: mk("deref", "", a[3])}
	j.e = c.engine(c.groupOpaque(setOf("extractPSKSecret"), nil))
	j.outs = c.run(j.e, fn, nil, a)
	return j
}

// infoOf is the decoded group info the group g was created from.
func (j *joinRun) infoOf(st *State, g *Term) *Term {
	var info *Term
	mkField(g, "groupContext").any(func(t *Term) bool {
		if t.Op == "dec" && t.Aux == "groupInfo" {
			info = t
		}
		return info != nil
	})
	if info == nil {
		return tNil
	}
	return info
}

// opt is a field of the options in effect.
func (j *joinRun) opt(st *State, f string) *Term {
	if st.holds(mkEq(SymArgs(j.fn)[3], tNil)) {
		return tNil
	}
	return mkField(j.options, f)
}

// suites are the terms for the group's cipher suite.
func (j *joinRun) suites(st *State, info *Term) []*Term {
	ics, wcs := pv(info, "groupContext.cipherSuite"), mkField(j.welcome, "cipherSuite")
	if st.holds(mkEq(ics, wcs)) {
		return []*Term{ics, wcs}
	}
	return []*Term{ics}
}

// treeOK checks the integrity of the tree a group was joined with.
func (j *joinRun) treeOK(o Outcome) {
	j.c.integrity(o.st, j.treeCtx(o), "groupFromSecrets", j.c.pos(o.pos))
}

func (j *joinRun) treeCtx(o Outcome) *treeCtx {
	g := o.st.load(o.res[0])
	info := j.infoOf(o.st, g)
	ctx := mkField(info, "groupContext")
	return &treeCtx{tree: mkField(g, "tree"), gid: mkField(ctx, "groupID"), hash: mkField(ctx, "treeHash"), now: j.opt(o.st, "now"), cs: j.suites(o.st, info)}
}

// decoded: st establishes that v is the complete decoding of a T, and returns
// the bytes.
func decodedAll(st *State, v *Term, T string) *Term {
	v = strip(v)
	if v.Op != "dec" || v.Aux != T {
		return nil
	}
	s := v.Args[0]
	if !st.holds(mk("candec", T, v.Args...)) || !st.holds(mkEq(mkLen(mk("rest", T, v.Args...)), mkInt(0))) {
		return nil
	}
	return s
}

// joined checks one successful path of joining.
func (j *joinRun) joined(o Outcome) {
	c, st := j.c, o.st
	pos := c.pos(o.pos)
	const where = "groupFromSecrets"
	need := func(ok bool, rule, format string, args ...any) bool {
		return c.oblige(ok, rule, where, pos, format, args...)
	}
	g := st.load(o.res[0])
	info := j.infoOf(st, g)
	if !need(info != tNil, "group info decrypted", "the group context of the new group is %v", mkField(g, "groupContext")) {
		return
	}
	ctx := mkField(info, "groupContext")
	wcs := mkField(j.welcome, "cipherSuite")
	tree := mkField(g, "tree")
	psk := tCall("extractPSKSecret", wcs, mkField(j.secrets, "psks"), j.opt(st, "psks"))
	// the group info is the decryption of the welcome's
	why := ""
	raw := decodedAll(st, info, "groupInfo")
	switch op := (*aeadCall)(nil); {
	case raw == nil:
		why = "it is not completely decoded"
	default:
		if op = isAEAD(raw, wcs, "Open"); op == nil {
			why = "it is not decrypted with the AEAD of the welcome's cipher suite"
			break
		}
		k, kc := isExpand(op.key, wcs, "key", aeadSize(wcs, "KeySize"))
		n, nc := isExpand(op.nonce, wcs, "nonce", aeadSize(wcs, "NonceSize"))
		switch {
		case !same(op.data, mkField(j.welcome, "encryptedGroupInfo")):
			why = "the decrypted bytes are not the welcome's group info"
		case !st.holds(mkEq(mkExt(strip(raw).Args[0], 1), tNil)):
			why = "a failed decryption is not detected"
		case k == nil || n == nil || !same(k, n) || norm(kc) != tNil || norm(nc) != tNil || norm(op.aad) != tNil:
			why = "key and nonce are not the welcome key and nonce"
		default:
			s, sc := isExpand(k, wcs, "welcome", kdfSize(wcs))
			x := []*Term(nil)
			if s != nil && norm(sc) == tNil {
				x = isExtract(s, wcs)
			}
			if x == nil || !pskIs(st, x[0], psk, wcs) || !same(x[1], mkField(j.secrets, "joinerSecret")) {
				why = "the welcome secret is not derived from the joiner secret and the PSK secret"
			}
		}
	}
	need(why == "", "group info decrypted", "%s", why)
	need(st.holds(mkEq(mkExt(psk, 1), tNil)), "PSK secret computed", "a failure to compute the PSK secret is not detected")
	need(st.holds(mkEq(mkField(ctx, "cipherSuite"), wcs)), "cipher suite is that of the welcome", "the cipher suite of the group info is not compared with the welcome's")
	// the tree is the one in the options or in the group info
	rawTree := decodedAll(st, tree, "ratchetTree")
	ok := rawTree != nil && same(rawTree, j.opt(st, "rawTree")) && j.opt(st, "rawTree") != tNil
	if rawTree != nil && !ok {
		if ext := decodedFrom(rawTree, "extensionData"); ext != nil && ext.Op == "sel" && same(ext.Args[0], mkField(info, "extensions")) && st.holds(mkEq(mkField(ext, "extensionType"), mkInt(2))) {
			ok = true
		}
	}
	need(ok, "tree comes from the options or the group info", "the tree is decoded from %v", rawTree)
	// signature
	signer := mkField(info, "signer")
	need(presentLeaf(st, tree, signer), "signer present", "the signer's leaf is not established to be present")
	why = ""
	for _, cs := range j.suites(st, info) {
		if why = c.verified(j.e, st, cs, mkField(leafOf(tree, signer), "signatureKey"), "GroupInfoTBS", groupInfoBase, info, nil, mkField(info, "signature")); why == "" {
			break
		}
	}
	need(why == "", "group info signature verified", "%s", why)
	// confirmation tag
	why = ""
	for _, cs := range j.suites(st, info) {
		var ep *epoch
		ep, why = tagIn(st, cs, mkField(info, "confirmationTag"))
		if ep == nil {
			continue
		}
		switch {
		case !same(ep.ctx, ctx):
			why = "the tag is not that of the signed context"
		case !same(ep.joiner, mkField(j.secrets, "joinerSecret")):
			why = "the tag is not computed from the joiner secret"
		case !pskIs(st, ep.psk, psk, cs) && !pskIs(st, ep.psk, psk, wcs):
			why = "the tag is not computed with the PSK secret"
		}
		if why == "" {
			break
		}
	}
	need(why == "", "confirmation tag verified", "%s", why)
	// own leaf
	my := mkField(g, "myLeafIndex")
	need(presentLeaf(st, tree, my) && st.holdsBytesEq(encoded(iEnc("leafNode", leafOf(tree, my))), encoded(iEnc("leafNode", pv(j.pair, "Public.leafNode")))), "own leaf in the tree",
		"the leaf at the own index is not established to be identical to the own key package's leaf")
	why = j.joinedKeys(st, st.content(mkField(g, "privTree")), info, tree, my)
	need(why == "", "private keys match the joined tree", "%s", why)
	need(same(mkField(g, "groupContext"), ctx), "group is the validated one", "the context of the new group is %v", mkField(g, "groupContext"))
	need(same(mkField(g, "signaturePriv"), pv(j.pair, "Private.SignatureKey")), "group is the validated one", "the signature key of the new group is %v", mkField(g, "signaturePriv"))
	j.treeOK(o)
	c.count("join_paths", 1)
}

// welcomeRule checks GroupFromWelcome: which secrets are decrypted, and how.
func (c *Ctx) welcomeRule() {
	const where = "GroupFromWelcome"
	fn := c.fn(where)
	a := SymArgs(fn)
	w, pair := mk("deref", "", a[0]), mk("deref", "", a[1])
	e := c.engine(c.groupOpaque(setOf("groupFromSecrets"), nil))
	for _, o := range successes(c.run(e, fn, nil, a)) {
		st := o.st
		pos := c.pos(o.pos)
		c.count("welcome_paths", 1)
		t := strip(o.res[0])
		if !c.oblige(t.Op == "ext" && isCall(t.Args[0], "groupFromSecrets"), "group comes from the validated join", where, pos, "the returned group is %v", t) {
			continue
		}
		call := t.Args[0]
		c.oblige(st.holds(mkEq(mkExt(call, 1), tNil)), "group comes from the validated join", where, pos, "a failed join is not reported")
		opt := derefSnap(call.Args[3])
		zero := norm(call.Args[3]) == tNil
		if !zero {
			zero = true
			for _, f := range []string{"rawTree", "psks", "now"} {
				v := norm(mkField(opt, f))
				zero = zero && (v == tNil || v.Op == "emptymap")
			}
		}
		c.oblige(same(call.Args[0], a[0]) && same(call.Args[1], a[1]) && zero, "group comes from the validated join", where, pos, "joins with %v, %v, options %v", call.Args[0], call.Args[1], opt)
		sec := derefSnap(call.Args[2])
		why := secretsOf(st, sec, w, pair)
		c.oblige(why == "", "secrets decrypted for the own key package", where, pos, "%s", why)
		psks := mkField(sec, "psks")
		c.oblige(atMostOne(st, psks, reinitOrBranch), "at most one reinitialisation or branch PSK", where, pos, "the number of reinitialisation and branch PSKs is not limited to one")
	}
	fn = c.fn("groupSecrets.verifySingleReinitOrBranchPSK")
	a = SymArgs(fn)
	for _, o := range successes(c.run(e, fn, nil, a)) {
		c.oblige(atMostOne(o.st, mkField(mk("deref", "", a[0]), "psks"), reinitOrBranch), "at most one reinitialisation or branch PSK", "groupSecrets.verifySingleReinitOrBranchPSK", c.pos(o.pos), "more than one such PSK may be accepted")
		c.count("psk_paths", 1)
	}
}

// reinitOrBranch: the PSK may be for reinitialisation or a branch.
func reinitOrBranch(b *State, el *Term) bool {
	ty, us := mkField(el, "pskType"), mkField(el, "usage")
	if b.refuted(mkEq(ty, mkInt(2))) || b.holds(mkEq(ty, mkInt(1))) {
		return false
	}
	return !(b.refuted(mkEq(us, mkInt(2))) && b.refuted(mkEq(us, mkInt(3))))
}

// secretsOf: sec are the welcome's secrets addressed to the key package,
// decrypted with its init key and the encrypted group info as context.
func secretsOf(st *State, sec, w, pair *Term) string {
	raw := decodedAll(st, sec, "groupSecrets")
	if raw == nil {
		return "the secrets are not completely decoded"
	}
	raw = strip(raw)
	if raw.Op != "ext" || raw.Aux != "0" || !isCall(raw.Args[0], "CipherSuite.decryptWithLabel") {
		return "the secrets are not decrypted"
	}
	d := raw.Args[0]
	if !st.holds(mkEq(mkExt(d, 1), tNil)) {
		return "a failed decryption is not detected"
	}
	a := d.Args
	cs, pkg := mkField(w, "cipherSuite"), mkField(pair, "Public")
	switch {
	case !same(a[0], cs):
		return "the secrets are decrypted with another cipher suite than the welcome's"
	case !same(a[1], pv(pair, "Private.InitKey")):
		return "the secrets are not decrypted with the init key"
	case norm(a[2]) != mkStr("Welcome"):
		return "the secrets are decrypted with a wrong label"
	case !same(a[3], mkField(w, "encryptedGroupInfo")):
		return "the encrypted group info is not the context of the decryption"
	}
	ct := strip(a[5])
	if ct.Op != "field" || ct.Aux != "ciphertext" || !same(a[4], mkField(ct.Args[0], "kemOutput")) {
		return "the decrypted ciphertext is not one of the welcome's"
	}
	el := decodedFrom(ct.Args[0], "encryptedGroupSecrets")
	if el == nil || el.Op != "sel" || !same(el.Args[0], mkField(w, "secrets")) {
		return "the decrypted ciphertext is not one of the welcome's"
	}
	for _, k := range []*Term{mkField(pkg, "cipherSuite"), cs} {
		ref := tCall("CipherSuite.refHash", k, mkStr("MLS 1.0 KeyPackage Reference"), encoded(iEnc("KeyPackage", pkg)))
		if st.holdsBytesEq(mkField(el, "newMember"), mkExt(ref, 0)) && st.holds(mkEq(mkExt(ref, 1), tNil)) {
			return ""
		}
	}
	return "the decrypted entry is not established to be addressed to the own key package"
}

func checkC12(c *Ctx) {
	c.guard("groupFromSecrets", func() {
		j := c.joinRun()
		for _, o := range successes(j.outs) {
			j.joined(o)
		}
	})
	c.guard("GroupFromWelcome", c.welcomeRule)
	c.guard("leafNode.verify", c.leafRule)
	c.guard("ratchetTree.supportedCreds", c.supportedCredsRule)
	c.guard("ratchetTree.verifyParentHashes", c.parentHashRule)
	c.guard("ratchetTree.computeTreeHash", c.treeHashRule)
	c.guard("ratchetTree.resolve", c.resolutionRule)
	c.guard("CipherSuite.refHash", c.refHashRule)
	c.guard("HPKE", c.hpkeRule)
	c.guard("signatures", c.signatureRule)
}
