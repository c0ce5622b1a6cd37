package main

import (
	"golang.org/x/tools/go/ssa"
)

// An effect is a point where a received message takes effect: the group is
// handed to commit processing, group memory is written, or plaintext returned.
type effect struct {
	kind  string // "commit", "store", "plaintext"
	st    *State
	where string
	pos   string
	auth  *Term // commit: the authenticated content (snapshot)
	addr  *Term
	val   *Term
}

type recvRun struct {
	c     *Ctx
	e     *Engine
	fn    *ssa.Function
	outs  []Outcome
	effs  []effect
	group *Term // *Group value
	gp    *Term // pointer
	msg   *Term // decoded mlsMessage
	ctx   *Term // group.groupContext
	cs    *Term
}

// receive analyses Group.UnmarshalAndProcessMessage with commit processing
// opaque and collects its effects.
func (c *Ctx) receive() *recvRun {
	fn := c.fn("Group.UnmarshalAndProcessMessage")
	c.fn("Group.processCommit")
	args := SymArgs(fn)
	r := &recvRun{c: c, fn: fn, gp: args[0]}
	r.group = mk("deref", "", args[0])
	r.ctx = mkField(r.group, "groupContext")
	r.cs = mkField(r.ctx, "cipherSuite")
	r.msg = mk("dec", "mlsMessage", args[1])
	e := c.engine(c.groupOpaque(setOf("Group.processCommit"), nil))
	r.e = e
	e.hooks.onCall = func(e *Engine, st *State, name string, a []*Term, in ssa.CallInstruction, fn *ssa.Function) {
		if name == "Group.processCommit" {
			where := fnName(in.Parent())
			c.oblige(a[0] == r.gp, "commit applied to the receiving group", where, c.pos(in.Pos()), "processCommit called on %v", a[0])
			r.effs = append(r.effs, effect{kind: "commit", st: st.clone(), where: where, pos: c.pos(in.Pos()), auth: derefSnap(e.snap(st, a[1], nil))})
		}
	}
	e.hooks.onStore = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		if addrRoot(addr) == r.gp {
			r.effs = append(r.effs, effect{kind: "store", st: st.clone(), where: fnName(in.Parent()), pos: c.pos(in.Pos()), addr: addr, val: e.snap(st, val, nil)})
		}
	}
	r.outs = c.run(e, fn, nil, args)
	for i := range r.effs {
		r.variant(r.effs[i].st)
	}
	for _, o := range r.outs {
		r.variant(o.st)
	}
	for _, o := range successes(r.outs) {
		if o.res[0] != tNil {
			r.effs = append(r.effs, effect{kind: "plaintext", st: o.st, where: fnName(fn), pos: c.pos(o.pos), val: e.snap(o.st, o.res[0], nil)})
		}
	}
	return r
}

// variant adds to st what the presence of a variant of the decoded message
// says about its wire format.
func (r *recvRun) variant(st *State) {
	for n, f := range map[int64]string{1: "publicMessage", 2: "privateMessage"} {
		if p := mkEq(mkField(r.msg, f), tNil); st.refuted(p) {
			st.assume(mkEq(r.wf(), mkInt(n)), true)
		} else if st.holds(p) {
			st.assume(mkEq(r.wf(), mkInt(n)), false)
		}
	}
}

func (r *recvRun) wf() *Term { return mkField(r.msg, "wireFormat") }

// pub and priv are the decoded public and private message.
func (r *recvRun) pub() *Term  { return mk("deref", "", mkField(r.msg, "publicMessage")) }
func (r *recvRun) priv() *Term { return mk("deref", "", mkField(r.msg, "privateMessage")) }

func (r *recvRun) leafAt(i *Term) *Term { return leafOf(mkField(r.group, "tree"), i) }

// leafOf is the leaf node at leaf index i of a tree.
func leafOf(tree, i *Term) *Term {
	n := mkSel(tree, mkBin("*", mkInt(2), i))
	return mk("deref", "", mkField(mk("deref", "", n), "leafNode"))
}

func presentLeaf(st *State, tree, i *Term) bool {
	return st.refuted(mkEq(mkSel(tree, mkBin("*", mkInt(2), i)), tNil))
}

// authOf is the authenticated content an effect acts on: for commits the
// argument, for pending proposals and plaintext it is the content their parts
// come from.
func (r *recvRun) want(e *effect, ok bool, rule, format string, args ...any) bool {
	return r.c.oblige(ok, rule, e.where+" "+e.kind, e.pos, "%s: "+format, append([]any{e.kind}, args...)...)
}

// signedBy: the state establishes that the signature over content (with wire
// format wf) verified under the leaf key of sender leaf.
func (r *recvRun) signed(st *State, wf, content, auth, leaf *Term) bool {
	key := mkField(r.leafAt(leaf), "signatureKey")
	tbs := encoded(tbsItems(wf, content, r.ctx)...)
	return st.holds(tCall("CipherSuite.verifyWithLabel", r.cs, key, mkStr("FramedContentTBS"), tbs, mkField(auth, "signature")))
}

// pendingEntry: the store appends exactly one entry to the pending proposals;
// it returns the entry.
func (r *recvRun) pendingEntry(ef *effect) *Term {
	if ef.addr != mkFA(r.gp, "pendingProposals", nil) {
		return nil
	}
	v := strip(ef.val)
	if v.Op != "append" || v.Args[0] != mkField(r.group, "pendingProposals") || v.Args[1].Op != "list" || len(v.Args[1].Args) != 1 {
		return nil
	}
	return v.Args[1].Args[0]
}

func checkC07(c *Ctx) {
	r := c.receive()
	pub := r.pub()
	content, auth := mkField(pub, "content"), mkField(pub, "auth")
	n := 0
	for i := range r.effs {
		ef := &r.effs[i]
		st := ef.st
		if st.refuted(mkEq(r.wf(), mkInt(1))) {
			continue // not an unencrypted message; C08
		}
		if st.holds(mkEq(r.wf(), mkInt(2))) {
			continue
		}
		n++
		if ef.kind == "plaintext" {
			r.want(ef, false, "no plaintext from unencrypted messages", "returns %v", ef.val)
			continue
		}
		r.memberAuthentic(ef, content, auth)
		leaf := tPath(content, "sender.leafIndex")
		key := deriveS(r.cs, mkField(r.group, "epochSecret"), "membership")
		tbm := encoded(append(tbsItems(mkInt(1), content, r.ctx), iEnc("framedContentAuthData", auth, mkField(content, "contentType")))...)
		tag := mkField(pub, "membershipTag")
		r.want(ef, st.holdsBytesEq(tag, macOf(r.cs, key, tbm)), "membership tag verified", "no complete comparison of the message's membership tag with the tag computed over the signed content and authentication data")
		switch ef.kind {
		case "commit":
			r.want(ef, same(mkField(ef.auth, "content"), content) && same(mkField(ef.auth, "auth"), auth), "processed content is the verified content", "commit processing receives %v", ef.auth)
			r.want(ef, mkField(ef.auth, "wireFormat") == mkInt(1), "wire format kept", "wire format of the processed content is %v", mkField(ef.auth, "wireFormat"))
		case "store":
			ent := r.pendingEntry(ef)
			if r.want(ef, ent != nil, "only the pending list changes", "writes %v to %v", ef.val, ef.addr) {
				r.want(ef, same(mkField(ent, "proposal"), mkField(content, "proposal")) && same(mkField(ent, "sender"), leaf), "processed content is the verified content", "pending entry is %v", ent)
			}
			r.want(ef, st.holds(mkEq(mkField(content, "contentType"), mkInt(2))), "pending entry from a proposal", "content type not established")
		}
	}
	c.count("effects", n)
	for _, o := range successes(r.outs) {
		if o.st.refuted(mkEq(r.wf(), mkInt(1))) || o.st.holds(mkEq(r.wf(), mkInt(2))) {
			continue
		}
		c.count("successful_paths", 1)
		c.oblige(o.st.refuted(mkEq(mkField(content, "contentType"), mkInt(1))), "unencrypted application data refused", fnName(r.fn), c.pos(o.pos), "a public message with application content can succeed")
		c.oblige(o.st.holds(mkEq(r.wf(), mkInt(1))), "known wire format", fnName(r.fn), c.pos(o.pos), "succeeds for a message that is neither public nor private")
	}
	// the verification functions themselves, as other callers see them
	c.guard("Group.verifyPublicMessage", func() { c.verifyPublicDirect() })
	c.guard("signatures", c.signatureRule)
}

// memberAuthentic: group, epoch, present member sender and signature.
func (r *recvRun) memberAuthentic(ef *effect, content, auth *Term) {
	st := ef.st
	leaf := tPath(content, "sender.leafIndex")
	r.want(ef, st.holdsBytesEq(mkField(content, "groupID"), mkField(r.ctx, "groupID")), "group identifier checked", "no comparison of the message's group identifier with the group's")
	r.want(ef, st.holds(mkEq(mkField(content, "epoch"), mkField(r.ctx, "epoch"))), "epoch checked", "no comparison of the message's epoch with the group's")
	r.want(ef, st.holds(mkEq(tPath(content, "sender.senderType"), mkInt(1))), "sender is a member", "sender type not established to be member")
	r.want(ef, presentLeaf(st, mkField(r.group, "tree"), leaf), "sender leaf present", "the sender's leaf is not established to be present")
	r.want(ef, r.signed(st, mkInt(1), content, auth, leaf), "signature verified", "no successful verification of the signature over the whole content and current group context under the sender's key")
}

// verifyPublicDirect checks the outcomes of verifyPublicMessage by itself.
func (c *Ctx) verifyPublicDirect() {
	fn := c.fn("Group.verifyPublicMessage")
	args := SymArgs(fn)
	r := &recvRun{c: c, fn: fn, gp: args[0], group: mk("deref", "", args[0])}
	r.ctx = mkField(r.group, "groupContext")
	r.cs = mkField(r.ctx, "cipherSuite")
	e := c.engine(c.groupOpaque(nil, nil))
	r.e = e
	pub := mk("deref", "", args[1])
	content, auth := mkField(pub, "content"), mkField(pub, "auth")
	n := 0
	for _, o := range successes(c.run(e, fn, nil, args)) {
		n++
		ef := &effect{kind: "verified", st: o.st, where: fnName(fn), pos: c.pos(o.pos)}
		r.memberAuthentic(ef, content, auth)
		v := derefSnap(e.snap(o.st, o.res[0], nil))
		r.want(ef, same(mkField(v, "content"), content) && same(mkField(v, "auth"), auth) && mkField(v, "wireFormat") == mkInt(1), "returned content is the verified content", "returns %v", v)
		key := deriveS(r.cs, mkField(r.group, "epochSecret"), "membership")
		tbm := encoded(append(tbsItems(mkInt(1), content, r.ctx), iEnc("framedContentAuthData", auth, mkField(content, "contentType")))...)
		r.want(ef, o.st.holdsBytesEq(mkField(pub, "membershipTag"), macOf(r.cs, key, tbm)), "membership tag verified", "no complete comparison of the membership tag")
	}
	c.count("successful_paths", n)
}

func checkC08(c *Ctx) {
	r := c.receive()
	n := 0
	for i := range r.effs {
		ef := &r.effs[i]
		st := ef.st
		if st.refuted(mkEq(r.wf(), mkInt(2))) || st.holds(mkEq(r.wf(), mkInt(1))) {
			continue // unencrypted; C07
		}
		n++
		r.checkPrivate(ef)
	}
	c.count("effects", n)
	for _, o := range successes(r.outs) {
		if o.st.holds(mkEq(r.wf(), mkInt(1))) {
			continue
		}
		c.count("successful_paths", 1)
		c.oblige(o.st.holds(mkEq(r.wf(), mkInt(2))), "known wire format", fnName(r.fn), c.pos(o.pos), "succeeds for a message that is neither public nor private")
	}
	c.guard("signatures", c.signatureRule)
}

// checkPrivate: every obligation of an effect caused by an encrypted message.
func (r *recvRun) checkPrivate(ef *effect) {
	st := ef.st
	msg := r.priv()
	m := &mp{c: r.c, st: st, cs: r.cs, tree: mkField(r.group, "tree"), es: mkField(r.group, "epochSecret")}
	gid, epoch, ct, ad := mkField(msg, "groupID"), mkField(msg, "epoch"), mkField(msg, "contentType"), mkField(msg, "authenticatedData")
	r.want(ef, st.holdsBytesEq(gid, mkField(r.ctx, "groupID")), "group identifier checked", "no comparison of the message's group identifier with the group's")
	r.want(ef, st.holds(mkEq(epoch, mkField(r.ctx, "epoch"))), "epoch checked", "no comparison of the message's epoch with the group's")

	// the decrypted content the effect acts on
	var pc *Term
	switch ef.kind {
	case "commit":
		pc = decodedFrom(mkField(mkField(ef.auth, "content"), "commit"), "commit")
	case "store":
		ent := r.pendingEntry(ef)
		if !r.want(ef, ent != nil, "only the pending list changes", "writes %v to %v", ef.val, ef.addr) {
			return
		}
		pc = decodedFrom(mkField(ent, "proposal"), "proposal")
	case "plaintext":
		pc = decodedFrom(ef.val, "applicationData")
	}
	if !r.want(ef, pc != nil && pc.Op == "dec" && pc.Aux == "privateMessageContent" && len(pc.Args) == 2, "acts on the decrypted content", "the data used is not a field of the decoded private message content") {
		return
	}
	r.want(ef, same(pc.Args[1], ct), "content decoded as the announced type", "decoded as %v", pc.Args[1])
	open := isAEAD(pc.Args[0], r.cs, "Open")
	if !r.want(ef, open != nil, "content decrypted", "content is decoded from %v, not from an authenticated decryption", pc.Args[0]) {
		return
	}
	r.want(ef, st.holds(mkEq(mkExt(strip(pc.Args[0]).Args[0], 1), tNil)), "decryption failure detected", "the error of decrypting the content is not checked")
	r.want(ef, same(open.data, mkField(msg, "ciphertext")), "content decrypted", "decrypts %v", open.data)
	r.want(ef, m.sameIn(open.aad, encoded(contentAADItems(gid, epoch, ct, ad)...)), "content associated data", "associated data is %v", open.aad)
	r.want(ef, emptied(st, strip(pc.Args[0])) || zeroPadded(r.e, st, streamRoot(pc.Args[0])) || zeroPadded(r.e, st, strip(pc.Args[0])), "padding is all zero", "bytes after the content are not all compared with zero")

	// the sender data: whose generation, guard and leaf are used
	sds := map[*Term]bool{}
	collect := func(t *Term) {
		deepAny(t, func(x *Term) bool {
			if x.Op == "dec" && x.Aux == "senderData" {
				sds[x] = true
			}
			return false
		})
	}
	collect(open.key)
	collect(open.nonce)
	if !r.want(ef, len(sds) == 1, "one sender data", "keys depend on %d sender data values", len(sds)) {
		return
	}
	var sd *Term
	for x := range sds {
		sd = x
	}
	so := isAEAD(sd.Args[0], r.cs, "Open")
	if !r.want(ef, so != nil, "sender data decrypted", "sender data decoded from %v", sd.Args[0]) {
		return
	}
	r.want(ef, st.holds(mkEq(mkExt(strip(sd.Args[0]).Args[0], 1), tNil)), "decryption failure detected", "the error of decrypting the sender data is not checked")
	r.want(ef, same(so.data, mkField(msg, "encryptedSenderData")), "sender data decrypted", "decrypts %v", so.data)
	r.want(ef, m.sameIn(so.aad, encoded(senderDataAADItems(gid, epoch, ct)...)), "sender data associated data", "associated data is %v", so.aad)
	why := m.senderDataKeys(so.key, so.nonce, mkField(msg, "ciphertext"))
	r.want(ef, why == "", "sender data keys", "%s", why)
	leaf := mkField(sd, "leafIndex")
	why = m.contentKeys(open.key, open.nonce, leaf, ct, mkField(sd, "generation"), mkField(sd, "reuseGuard"))
	r.want(ef, why == "", "content keys", "%s", why)

	r.want(ef, presentLeaf(st, m.tree, leaf), "sender leaf present", "the claimed sender's leaf is not established to be present")
	// the signed content
	content := r.privContent(msg, pc, leaf)
	auth := mkField(pc, "auth")
	key := mkField(r.leafAt(leaf), "signatureKey")
	ok := false
	for f, v := range st.facts {
		if !v || f.Op != "call" || f.Aux != "CipherSuite.verifyWithLabel" {
			continue
		}
		if same(f.Args[0], r.cs) && same(f.Args[1], key) && norm(f.Args[2]) == mkStr("FramedContentTBS") && same(f.Args[4], mkField(auth, "signature")) &&
			m.sameIn(f.Args[3], encoded(tbsItems(mkInt(2), content, r.ctx)...)) {
			ok = true
		}
	}
	r.want(ef, ok, "signature verified", "no successful verification of the signature over the decrypted content and current group context under the claimed sender's key")
	if ef.kind == "commit" {
		r.want(ef, m.sameIn(mkField(ef.auth, "content"), content) && same(mkField(ef.auth, "auth"), auth) && mkField(ef.auth, "wireFormat") == mkInt(2), "processed content is the verified content", "commit processing receives %v", ef.auth)
	}
	if ef.kind == "store" {
		ent := r.pendingEntry(ef)
		r.want(ef, same(mkField(ent, "sender"), leaf), "processed content is the verified content", "sender of the pending entry is %v", mkField(ent, "sender"))
	}
	wantCT := map[string]int64{"commit": 3, "store": 2, "plaintext": 1}[ef.kind]
	r.want(ef, st.holds(mkEq(ct, mkInt(wantCT))), "content type decides the effect", "content type not established to be %d", wantCT)
}

// privContent is the framed content reconstructed from a private message.
func (r *recvRun) privContent(msg, pc, leaf *Term) *Term {
	ft := r.c.p.namedType("framedContent")
	snd := mkWithFields(zeroOf(r.c.p.namedType("sender")), map[string]*Term{"senderType": mkInt(1), "leafIndex": leaf}, nil)
	return mkWithFields(zeroOf(ft), map[string]*Term{
		"groupID": mkField(msg, "groupID"), "epoch": mkField(msg, "epoch"), "sender": snd,
		"authenticatedData": mkField(msg, "authenticatedData"), "contentType": mkField(msg, "contentType"),
		"applicationData": mkField(pc, "applicationData"), "proposal": mkField(pc, "proposal"), "commit": mkField(pc, "commit"),
	}, nil)
}

// decodedFrom: t is field f of a value; returns that value.
func decodedFrom(t *Term, f string) *Term {
	t = strip(t)
	if t.Op == "deref" {
		t = t.Args[0]
	}
	if t.Op == "field" && t.Aux == f {
		return strip(t.Args[0])
	}
	return nil
}
