package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// A sentMsg is a matched encrypted message produced by a group member.
type sentMsg struct {
	content *Term // privateMessageContent
	framed  *Term // the signed framedContent
}

// sendRun is the analysis of an operation that produces messages.
type sendRun struct {
	c                  *Ctx
	e                  *Engine
	fn                 *ssa.Function
	gp, group, ctx, cs *Term
	outs               []Outcome
}

func (c *Ctx) sendRun(name string) *sendRun {
	fn := c.fn(name)
	a := SymArgs(fn)
	r := &sendRun{c: c, fn: fn, gp: a[0], group: mk("deref", "", a[0])}
	r.ctx = mkField(r.group, "groupContext")
	r.cs = mkField(r.ctx, "cipherSuite")
	r.e = c.engine(c.groupOpaque(nil, nil))
	r.outs = c.run(r.e, fn, nil, a)
	return r
}

// sealed matches a Seal call; the output must be the ciphertext alone.
func sealed(t, cs *Term) *aeadCall {
	op := isAEAD(t, cs, "Seal")
	if op == nil || norm(op.dst) != tNil {
		return nil
	}
	return op
}

// paddedContent matches the plaintext of a private message: the content
// followed by nothing but zero bytes.
func paddedContent(t *Term) (content, ct *Term) {
	t = strip(t)
	for t.Op == "append" && len(t.Args) == 2 && allZero(t.Args[1]) {
		t = strip(t.Args[0])
	}
	if t.Op != "built" {
		return nil, nil
	}
	base, items := catItems(t.Args[0])
	if base != bEmpty || len(items) == 0 || items[0].Op != "enc" || items[0].Aux != "privateMessageContent" || len(items[0].Args) != 2 {
		return nil, nil
	}
	for _, it := range items[1:] {
		if !(it.Op == "bytes" && allZero(it.Args[0]) || it.Op == "int" && it.Args[0] == mkInt(0)) {
			return nil, nil
		}
	}
	return items[0].Args[0], items[0].Args[1]
}

// allZero: t consists of zero bytes only.
func allZero(t *Term) bool {
	t = strip(t)
	if t.Op == "list" {
		for _, a := range t.Args {
			if a != mkInt(0) {
				return false
			}
		}
		return true
	}
	return t.Op == "zeros"
}

// freshGuard: t is a whole buffer of n random bytes whose generation is known
// to have succeeded.
func freshGuard(st *State, t *Term, n int64) bool {
	t = strip(t)
	return t.Op == "random" && t.Args[0] == mkInt(n) && st.holds(mkEq(mk("ext", "err", t), tNil))
}

// sent checks one encrypted message: raw are the bytes returned.
func (r *sendRun) sent(o Outcome, raw *Term, ct int64) *sentMsg {
	c, st := r.c, o.st
	where, pos := fnName(r.fn), c.pos(o.pos)
	need := func(ok bool, rule, format string, args ...any) bool {
		return c.oblige(ok, rule, where, pos, format, args...)
	}
	raw = r.e.snap(st, raw, nil)
	msg := builtFrom(raw, "mlsMessage")
	if !need(msg != nil, "a message is returned", "returns %v", raw) {
		return nil
	}
	c.count("messages", 1)
	need(same(mkField(msg, "version"), mkInt(1)), "protocol version", "version is %v", mkField(msg, "version"))
	if !need(same(mkField(msg, "wireFormat"), mkInt(2)), "sent encrypted", "wire format is %v", mkField(msg, "wireFormat")) {
		return nil
	}
	pm := derefSnap(mkField(msg, "privateMessage"))
	gid, epoch, ctT := mkField(pm, "groupID"), mkField(pm, "epoch"), mkField(pm, "contentType")
	ad := mkField(pm, "authenticatedData")
	need(same(gid, mkField(r.ctx, "groupID")), "header names the group", "group identifier is %v", gid)
	need(same(epoch, mkField(r.ctx, "epoch")), "header names the epoch", "epoch is %v", epoch)
	need(same(ctT, mkInt(ct)), "header names the content type", "content type is %v", ctT)
	m := &mp{c: c, st: st, cs: r.cs, tree: mkField(r.group, "tree"), es: mkField(r.group, "epochSecret")}
	my := mkField(r.group, "myLeafIndex")

	// sender data
	ciphertext := mkField(pm, "ciphertext")
	sd := (*Term)(nil)
	so := sealed(mkField(pm, "encryptedSenderData"), r.cs)
	if need(so != nil, "sender data encrypted", "encrypted sender data is %v", mkField(pm, "encryptedSenderData")) {
		why := m.senderDataKeys(so.key, so.nonce, ciphertext)
		need(why == "", "sender data keys", "%s", why)
		need(m.sameIn(so.aad, encoded(senderDataAADItems(gid, epoch, ctT)...)), "sender data associated data", "associated data is %v", so.aad)
		sd = builtFrom(so.data, "senderData")
		need(sd != nil, "sender data sent", "the encrypted sender data is %v", so.data)
	}
	if sd == nil {
		return nil
	}
	need(same(mkField(sd, "leafIndex"), my), "sender data names the own leaf", "leaf index is %v", mkField(sd, "leafIndex"))
	guard := mkField(sd, "reuseGuard")
	need(freshGuard(st, guard, 4), "reuse guard freshly drawn", "the reuse guard is %v", guard)

	// content
	op := sealed(ciphertext, r.cs)
	if !need(op != nil, "content encrypted", "ciphertext is %v", ciphertext) {
		return nil
	}
	why := m.contentKeys(op.key, op.nonce, my, ctT, mkField(sd, "generation"), guard)
	need(why == "", "content keys", "%s", why)
	need(m.sameIn(op.aad, encoded(contentAADItems(gid, epoch, ctT, ad)...)), "content associated data", "associated data is %v", op.aad)
	pc, as := paddedContent(op.data)
	if !need(pc != nil, "content sent with zero padding only", "the plaintext is %v", op.data) {
		return nil
	}
	need(same(as, ctT), "content encoded as the announced type", "encoded as type %v", as)

	// what is signed is what the receiver reconstructs
	snd := mkWithFields(zeroOf(c.p.namedType("sender")), map[string]*Term{"senderType": mkInt(1), "leafIndex": my}, nil)
	framed := mkWithFields(zeroOf(c.p.namedType("framedContent")), map[string]*Term{
		"groupID": gid, "epoch": epoch, "sender": snd, "authenticatedData": ad, "contentType": ctT,
		"applicationData": mkField(pc, "applicationData"), "proposal": mkField(pc, "proposal"), "commit": mkField(pc, "commit"),
	}, nil)
	sig := pv(pc, "auth.signature")
	tbs := encoded(tbsItems(mkInt(2), framed, r.ctx)...)
	want := mkExt(tCall("CipherSuite.signWithLabel", r.cs, mkField(r.group, "signaturePriv"), mkStr("FramedContentTBS"), tbs), 0)
	need(m.sameIn(sig, want), "signature over what the receiver reconstructs", "signature is %v", sig)
	if x := strip(sig); x.Op == "ext" {
		need(st.holds(mkEq(mkExt(x.Args[0], 1), tNil)), "signing failure detected", "the error of signing is not checked")
	}
	return &sentMsg{content: pc, framed: framed}
}

func checkC19(c *Ctx) {
	r := c.sendRun("Group.CreateApplicationMessage")
	data := SymArgs(r.fn)[1]
	for _, o := range successes(r.outs) {
		if s := r.sent(o, o.res[0], 1); s != nil {
			c.oblige(same(mkField(s.content, "applicationData"), data), "the given data is sent", fnName(r.fn), c.pos(o.pos), "application data is %v", mkField(s.content, "applicationData"))
		}
	}
	w := c.sendRun("Group.CreateWelcome")
	for _, o := range successes(w.outs) {
		w.sent(o, o.res[1], 3)
	}
	c.guard("encryptPrivateMessage", c.encryptRule)
	c.sentAs("senderData", "privateMessage")
	c.count("guards", len(c.guardSites()))
	// receiving
	rr := c.receive()
	n := 0
	for i := range rr.effs {
		ef := &rr.effs[i]
		if ef.st.refuted(mkEq(rr.wf(), mkInt(2))) || ef.st.holds(mkEq(rr.wf(), mkInt(1))) {
			continue
		}
		n++
		rr.checkPrivate(ef)
	}
	c.count("receptions", n)
}

// encryptRule: whatever content is encrypted, including ones the group
// operations do not produce yet, its header is sent and authenticated.
func (c *Ctx) encryptRule() {
	fn := c.fn("encryptPrivateMessage")
	a := SymArgs(fn)
	if len(a) != 6 {
		c.violate("content of any kind", fnName(fn), c.pos(fn.Pos()), "unexpected signature %v", fn.Signature)
		return
	}
	cs, fc, sd := a[0], mk("deref", "", a[3]), mk("deref", "", a[5])
	e := c.engine(c.groupOpaque(nil, nil))
	for _, o := range successes(c.run(e, fn, nil, a)) {
		pos := c.pos(o.pos)
		need := func(ok bool, rule, format string, args ...any) bool {
			return c.oblige(ok, rule, fnName(fn), pos, format, args...)
		}
		pm := derefSnap(e.snap(o.st, o.res[0], nil))
		m := &mp{c: c, st: o.st, cs: cs}
		for _, f := range []string{"groupID", "epoch", "contentType", "authenticatedData"} {
			need(m.sameIn(mkField(pm, f), mkField(fc, f)), "header taken from the content", "%s is %v", f, mkField(pm, f))
		}
		gid, epoch, ct, ad := mkField(fc, "groupID"), mkField(fc, "epoch"), mkField(fc, "contentType"), mkField(fc, "authenticatedData")
		if so := sealed(mkField(pm, "encryptedSenderData"), cs); need(so != nil, "sender data encrypted", "encrypted sender data is %v", mkField(pm, "encryptedSenderData")) {
			need(m.sameIn(so.aad, encoded(senderDataAADItems(gid, epoch, ct)...)), "sender data associated data", "associated data is %v", so.aad)
			got := builtFrom(so.data, "senderData")
			need(got != nil && m.sameIn(got, sd), "sender data sent", "the encrypted sender data is %v", so.data)
		}
		if op := sealed(mkField(pm, "ciphertext"), cs); need(op != nil, "content encrypted", "ciphertext is %v", mkField(pm, "ciphertext")) {
			need(m.sameIn(op.aad, encoded(contentAADItems(gid, epoch, ct, ad)...)), "content associated data", "associated data is %v", op.aad)
			pc, as := paddedContent(op.data)
			if need(pc != nil, "content sent with zero padding only", "the plaintext is %v", op.data) {
				need(m.sameIn(as, ct), "content encoded as the announced type", "encoded as type %v", as)
			}
		}
		c.count("encryptions_of_any_content", 1)
	}
}

// guardSites checks every place sender data is made: pinned constructors must
// draw the guard themselves.
func (c *Ctx) guardSites() []string {
	var sites []string
	c.guard("newSenderData", func() {
		fn := c.fn("newSenderData")
		e := c.engine(nil)
		a := SymArgs(fn)
		for _, o := range successes(c.run(e, fn, nil, a)) {
			v := derefSnap(e.snap(o.st, o.res[0], nil))
			c.oblige(freshGuard(o.st, mkField(v, "reuseGuard"), 4), "reuse guard freshly drawn", "newSenderData", c.pos(o.pos), "the reuse guard is %v", mkField(v, "reuseGuard"))
			c.oblige(same(mkField(v, "leafIndex"), a[0]) && same(mkField(v, "generation"), a[1]), "sender data as requested", "newSenderData", c.pos(o.pos), "sender data is %v", v)
			sites = append(sites, fmt.Sprint(c.pos(o.pos)))
		}
	})
	return sites
}
