package main

import "go/types"

func checkC16(c *Ctx) {
	r := c.commitRun()
	check := func(st *State, where, pos string) {
		bad := map[string]bool{}
		for _, b := range listRules(st, r.props, r.senders, r.sender) {
			bad[b] = true
		}
		for _, rule := range allListRules {
			c.oblige(!bad[rule], rule, where, pos, "not established for every proposal of the list when the commit takes effect")
		}
		hasPath := st.refuted(mkEq(mkField(r.commit, "path"), tNil))
		c.oblige(hasPath || pathNotRequired(st, r.props), "path present when required", where, pos, "takes effect without an update path although the proposals may require one")
	}
	for i := range r.stores {
		s := &r.stores[i]
		check(s.st, s.where+" write to the group", s.pos)
	}
	n := 0
	for _, o := range successes(r.outs) {
		n++
		check(o.st, "Group.processCommit success", c.pos(o.pos))
	}
	c.count("group_writes", len(r.stores))
	c.count("successful_paths", n)
	c.guard("resolveProposals", func() { c.resolveRule() })
}

var allListRules = []string{
	"no two additions with the same signature key", "no update by the committer", "no removal of the committer",
	"no two updates or removals of the same leaf", "no pre-shared key twice", "no two group context extension changes",
	"no reinitialisation together with another proposal", "no external init",
}

func checkC10(c *Ctx) {
	r := c.commitRun()
	n := 0
	for _, o := range successes(r.outs) {
		n++
		c.guard("Group.processCommit", func() { r.replaced(o) })
	}
	c.count("commit_paths", n)
	c.guard("resolveProposals", func() { c.resolveRule() })
	c.guard("ratchetTree.mergeUpdatePath", func() { c.mergeRule() })
	c.guard("Group.UnmarshalAndProcessMessage", func() { c.receivedEffects() })
	for _, fn := range c.groupMethods() {
		c.guard(fnName(fn), func() { c.groupUnchanged(fn) })
	}
}

// groupFields are the parts of a group that a commit replaces.
var groupFields = setOf("tree", "privTree", "groupContext", "interimTranscriptHash", "pskSecret", "epochSecret", "initSecret", "pendingProposals")

// replaced: on a successful path the whole epoch state is that of the new
// epoch.
func (r *commitRun) replaced(o Outcome) {
	c, st := r.c, o.st
	pos := c.pos(o.pos)
	need := func(ok bool, rule, format string, args ...any) bool {
		return c.oblige(ok, rule, "Group.processCommit", pos, format, args...)
	}
	g := st.load(r.gp)
	field := func(n string) *Term { return mkField(g, n) }
	for _, f := range c.p.structFields("Group") {
		if !groupFields[f] {
			need(same(field(f), mkField(r.group, f)), "own identity kept", "a commit changes %s to %v", f, brief(field(f)))
		}
	}
	ep, why := epochOf(field("epochSecret"), r.cs)
	if !need(ep != nil, "epoch secret replaced", "%s: %v", why, brief(field("epochSecret"))) {
		return
	}
	r.newEpoch(st, ep, func(format string, args ...any) {
		need(false, "epoch secret replaced", "not that of the new epoch: "+format, args...)
	})
	need(same(field("groupContext"), ep.ctx), "group context replaced", "group context is %v", brief(field("groupContext")))
	need(pskIs(st, field("pskSecret"), tCall("extractPSKSecret", r.cs, r.pskIDs, r.psks), r.cs), "PSK secret replaced", "PSK secret is %v", brief(field("pskSecret")))
	need(same(field("initSecret"), deriveS(r.cs, ep.epochSecret, "init")), "init secret replaced", "init secret is %v", brief(field("initSecret")))
	need(same(field("interimTranscriptHash"), interimHash(r.cs, mkField(ep.ctx, "confirmedTranscriptHash"), pv(r.auth, "auth.confirmationTag"))), "interim transcript hash replaced", "interim transcript hash is %v", brief(field("interimTranscriptHash")))
	pp := norm(r.e.snap(st, field("pendingProposals"), nil))
	need(pp == tNil || isZero(pp) || st.holds(mkEq(mkLen(field("pendingProposals")), mkInt(0))), "pending proposals emptied", "pending proposals are %v", brief(pp))
	why = r.newTree(st, st.content(field("tree")))
	need(why == "", "tree replaced", "%s", why)
	th := treeHash(mkField(ep.ctx, "treeHash"), r.cs)
	need(th != nil && same(through(st, th), through(st, field("tree"))), "tree replaced", "the tree is not the one whose hash is in the new context")
	why = r.privKeys(st, st.content(field("privTree")), r.provisional(ep.ctx))
	need(why == "", "private keys replaced", "%s", why)
	if st.refuted(mkEq(mkField(r.commit, "path"), tNil)) {
		why = r.commitSecret(st, ep, st.content(field("privTree")))
		need(why == "", "commit secret follows the last path secret", "%s", why)
	}
}

// receivedEffects: a received proposal is appended to the pending list, a
// received commit is processed as such, application data changes nothing.
func (c *Ctx) receivedEffects() {
	r := c.receive()
	n := 0
	for _, o := range successes(r.outs) {
		st := o.st
		pos := c.pos(o.pos)
		need := func(ok bool, rule, format string, args ...any) bool {
			return c.oblige(ok, rule, "Group.UnmarshalAndProcessMessage", pos, format, args...)
		}
		n++
		ct := pv(r.pub(), "content.contentType")
		if st.holds(mkEq(r.wf(), mkInt(2))) {
			ct = mkField(r.priv(), "contentType")
		}
		g := r.e.snap(st, st.load(r.gp), nil)
		switch {
		case st.holds(mkEq(ct, mkInt(1))):
			need(g == r.group, "application data changes nothing", "the group becomes %v", brief(g))
		case st.holds(mkEq(ct, mkInt(3))):
			need(g.Op == "out" && g.Args[0].Aux == "Group.processCommit", "a commit is processed", "a commit message is accepted without commit processing; the group is %v", brief(g))
		case st.holds(mkEq(ct, mkInt(2))):
			c.pendingRule(r, st, g, need)
		default:
			need(false, "content type distinguished", "a message is accepted without establishing its content type")
		}
	}
	c.count("receiving_paths", n)
}

// pendingRule: exactly one entry with its own reference, content and sender is
// appended to the pending proposals.
func (c *Ctx) pendingRule(r *recvRun, st *State, g *Term, need func(ok bool, rule, format string, args ...any) bool) {
	for _, f := range c.p.structFields("Group") {
		if f != "pendingProposals" {
			need(same(mkField(g, f), mkField(r.group, f)), "only the pending list changes", "a proposal changes %s to %v", f, brief(mkField(g, f)))
		}
	}
	v := strip(mkField(g, "pendingProposals"))
	ent := appendedOne(v, mkField(r.group, "pendingProposals"))
	if !need(ent != nil, "one entry is appended", "pending proposals become %v", brief(v)) {
		return
	}
	ref := strip(mkField(ent, "ref"))
	if !need(ref.Op == "ext" && ref.Aux == "0" && ref.Args[0].Op == "call" && ref.Args[0].Aux == "CipherSuite.refHash" && same(ref.Args[0].Args[0], r.cs) &&
		norm(ref.Args[0].Args[1]) == mkStr("MLS 1.0 Proposal Reference"), "entry has its own reference", "reference is %v", brief(ref)) {
		return
	}
	need(st.holds(mkEq(mkExt(ref.Args[0], 1), tNil)), "entry has its own reference", "the error of computing the reference is not checked")
	auth := builtFrom(ref.Args[0].Args[2], "authenticatedContent")
	if !need(auth != nil, "entry has its own reference", "the reference is not the hash of the authenticated content: %v", brief(ref)) {
		return
	}
	content := mkField(auth, "content")
	need(same(mkField(ent, "proposal"), mkField(content, "proposal")), "entry has its own content", "proposal is %v", brief(mkField(ent, "proposal")))
	need(same(mkField(ent, "sender"), pv(content, "sender.leafIndex")), "entry has its own sender", "sender is %v", brief(mkField(ent, "sender")))
	wf := mkField(auth, "wireFormat")
	need(sameIn(st, wf, r.wf()), "entry has its own reference", "wire format hashed is %v", wf)
	if st.holds(mkEq(r.wf(), mkInt(1))) {
		need(same(content, mkField(r.pub(), "content")) && same(mkField(auth, "auth"), mkField(r.pub(), "auth")), "entry has its own content", "the content is not that of the message: %v", brief(content))
		return
	}
	p := mkField(content, "proposal")
	pc := decodedFrom(p, "proposal")
	need(pc != nil && pc.Op == "dec" && pc.Aux == "privateMessageContent" && same(mkField(auth, "auth"), mkField(pc, "auth")), "entry has its own content", "the content is not that of the message: %v", brief(content))
	for _, f := range []string{"groupID", "epoch", "authenticatedData", "contentType"} {
		need(sameIn(st, mkField(content, f), mkField(r.priv(), f)), "entry has its own content", "%s is %v", f, brief(mkField(content, f)))
	}
	need(sameIn(st, pv(content, "sender.senderType"), mkInt(1)), "entry has its own sender", "sender type is %v", pv(content, "sender.senderType"))
	leaf := strip(pv(content, "sender.leafIndex"))
	need(leaf.Op == "field" && leaf.Aux == "leafIndex" && strip(leaf.Args[0]).Op == "dec" && strip(leaf.Args[0]).Aux == "senderData", "entry has its own sender", "sender is %v", brief(leaf))
}

// structFields are the field names of a struct type of the package.
func (p *Program) structFields(name string) []string {
	var l []string
	if o := p.pkg.Types.Scope().Lookup(name); o != nil {
		if s, ok := o.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				l = append(l, s.Field(i).Name())
			}
		}
	}
	return l
}
