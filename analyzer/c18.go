package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What signatures, tags and references cover.

// framedTBS is FramedContentTBS relative to {wireFormat, content}.
func framedTBS(wf, content string) []item {
	return []item{iu(16, "$version"), ien("wireFormat", wf), ist("framedContent", content),
		isw(content+".sender.senderType", map[int64][]item{1: {ist("groupContext", "$ctx")}, 2: {}, 3: {}, 4: {ist("groupContext", "$ctx")}})}
}

// labelled: the labels and what they are used for.
var labelled = map[string]map[string]string{
	"CipherSuite.signWithLabel":    {"FramedContentTBS": "", "LeafNodeTBS": "", "KeyPackageTBS": "", "GroupInfoTBS": ""},
	"CipherSuite.verifyWithLabel":  {"FramedContentTBS": "", "LeafNodeTBS": "", "KeyPackageTBS": "", "GroupInfoTBS": ""},
	"CipherSuite.refHash":          {"MLS 1.0 KeyPackage Reference": "KeyPackage", "MLS 1.0 Proposal Reference": "authenticatedContent"},
	"CipherSuite.encryptWithLabel": {"Welcome": "", "UpdatePathNode": "groupContext"},
	"CipherSuite.decryptWithLabel": {"Welcome": "", "UpdatePathNode": "groupContext"},
}

// labelArgs: positions of the label and of the labelled bytes.
var labelArgs = map[string][2]int{
	"CipherSuite.signWithLabel": {2, 3}, "CipherSuite.verifyWithLabel": {2, 3}, "CipherSuite.refHash": {1, 2},
	"CipherSuite.encryptWithLabel": {2, 3}, "CipherSuite.decryptWithLabel": {2, 3},
}

// tbsOf checks the bytes signed or verified under a label: which structure
// they are the complete encoding of.
func (c *Ctx) tbsOf(e *Engine, st *State, label string, t *Term) string {
	t = strip(t)
	if t.Op != "built" {
		return fmt.Sprintf("the bytes are %v, not a complete encoding", t)
	}
	base, items := catItems(t.Args[0])
	if base != bEmpty || len(items) == 0 {
		return fmt.Sprintf("the bytes are %v", t)
	}
	owner := func(it *Term, f string) *Term {
		if len(it.Args) == 0 {
			return nil
		}
		v := strip(it.Args[0])
		if v.Op == "conv" {
			v = v.Args[0]
		}
		if v.Op == "field" && v.Aux == f {
			return v.Args[0]
		}
		return nil
	}
	switch label {
	case "FramedContentTBS":
		if len(items) < 3 || len(items[2].Args) == 0 {
			return "the bytes do not contain the content"
		}
		v := mkWithFields(tSym("$tbs"), map[string]*Term{"wireFormat": items[1].Args[0], "content": items[2].Args[0]}, nil)
		vars := map[string]*Term{"$version": mkInt(1), "$ctx": tNil}
		if o := owner(items[0], "version"); o != nil {
			vars["$version"] = mkField(o, "version") // a caller's FramedContentTBS
		}
		if len(items) > 3 && items[3].Op == "enc" && items[3].Aux == "groupContext" {
			vars["$ctx"] = items[3].Args[0]
		}
		return c.laidOut(e, st, t, framedTBS("wireFormat", "content"), v, vars)
	case "LeafNodeTBS":
		v := owner(items[0], "encryptionKey")
		if v == nil {
			return ""
		}
		vars := map[string]*Term{"$gid": tNil, "$index": mkInt(-1)}
		if n := len(items); n > 2 && items[n-1].Op == "int" && items[n-2].Op == "opaque" {
			vars["$gid"], vars["$index"] = strip(items[n-2].Args[0]), items[n-1].Args[0]
		}
		return c.laidOut(e, st, t, leafTBS, v, vars)
	case "KeyPackageTBS":
		if v := owner(items[0], "version"); v != nil {
			return c.laidOut(e, st, t, keyPackageTBS, v, nil)
		}
	case "GroupInfoTBS":
		if items[0].Op != "enc" || items[0].Aux != "groupContext" {
			return fmt.Sprintf("the bytes start with %v", items[0])
		}
		if v := owner(items[0], "groupContext"); v != nil {
			return c.laidOut(e, st, t, groupInfoBase, v, nil)
		}
	}
	return ""
}

// labelUses checks every labelled operation on every path of every function.
func (c *Ctx) labelUses() {
	is := func(f *ssa.Function) bool { return labelled[fnName(f)] != nil }
	for _, n := range sortedKeys(c.p.fns) {
		fn := c.p.fns[n]
		if is(fn) || fn.Blocks == nil || !c.p.reaches(fn, is) {
			continue
		}
		direct := false
		for g := range c.p.calleesOf(fn) {
			direct = direct || is(g)
		}
		if !direct && !c.exported(fn) {
			continue
		}
		c.guard(n, func() {
			e := c.engine(c.groupOpaque(nil, nil))
			args := SymArgs(fn)
			e.hooks.onCall = func(e *Engine, st *State, name string, a []*Term, in ssa.CallInstruction, f *ssa.Function) {
				table := labelled[name]
				if table == nil {
					return
				}
				where := fnName(in.Parent()) + " in " + n
				pos := labelArgs[name]
				label := norm(e.snap(st, a[pos[0]], nil))
				for i, p := range args {
					if label == norm(p) && i < len(fn.Params) && !c.exported(fn) {
						return // decided at the callers
					}
				}
				l, ok := label.strVal()
				if !c.oblige(ok, "constant label", where, c.pos(in.Pos()), "%s is given the label %v", name, label) {
					return
				}
				T, ok := table[l]
				if !c.oblige(ok, "known label", where, c.pos(in.Pos()), "%s is given the label %q", name, l) {
					return
				}
				c.count("label_uses", 1)
				data := e.snap(st, a[pos[1]], nil)
				why := ""
				switch {
				case T != "":
					if builtFrom(data, T) == nil {
						why = fmt.Sprintf("the bytes are %v, not a complete %s", data, T)
					}
				case l == "Welcome":
					if strip(data).Op == "built" {
						why = fmt.Sprintf("the context is %v, not an encrypted group info", data)
					}
				case name == "CipherSuite.signWithLabel" || name == "CipherSuite.verifyWithLabel":
					why = c.tbsOf(e, st, l, data)
				}
				c.oblige(why == "", "whole structure covered", where+" "+l, c.pos(in.Pos()), "%s: %s", name, why)
			}
			c.run(e, fn, nil, args)
		})
	}
}

// signatures are made and checked only with labels.
func (c *Ctx) onlyLabelled() {
	raw := func(f *ssa.Function) string {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				var name string
				switch {
				case g != nil && g.Pkg != nil && g.Pkg != c.p.ssa:
					if g.Pkg.Pkg.Path() == "crypto/hmac" {
						continue
					}
					name = g.Pkg.Pkg.Path() + "." + g.Name()
				case ci.Common().IsInvoke() && ci.Common().Method.Pkg() != nil && ci.Common().Method.Pkg() != c.p.ssa.Pkg:
					name = ci.Common().Method.FullName()
				}
				if strings.Contains(name, "crypto") || strings.Contains(name, "circl") {
					if i := strings.LastIndex(name, "."); strings.HasPrefix(name[i+1:], "Sign") || strings.HasPrefix(name[i+1:], "Verify") {
						return name
					}
				}
			}
		}
		return ""
	}
	for _, n := range sortedKeys(c.p.fns) {
		fn := c.p.fns[n]
		if !c.exported(fn) {
			continue
		}
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if seen[f] || fnName(f) == "CipherSuite.signWithLabel" || fnName(f) == "CipherSuite.verifyWithLabel" {
				return
			}
			seen[f] = true
			if s := raw(f); s != "" {
				c.violate("signatures only with labels", fnName(f)+" in "+n, c.pos(f.Pos()), "%s is used other than through the labelled operations", s)
			}
			for g := range c.p.calleesOf(f) {
				walk(g)
			}
		}
		walk(fn)
		c.count("signature_users", 1)
	}
}

// verifies: on every successful path the structure's signature was verified.
func (c *Ctx) verifies(name string, spec func(a []*Term) (cs, key *Term, label string, layout []item, v *Term, vars map[string]*Term, sig *Term)) {
	c.guard(name, func() {
		fn := c.fn(name)
		a := SymArgs(fn)
		for i := range a {
			termTypes[a[i]] = fn.Params[i].Type()
		}
		e := c.engine(c.groupOpaque(nil, nil))
		n := 0
		cs, key, label, layout, v, vars, sig := spec(a)
		for _, o := range successes(c.run(e, fn, nil, a)) {
			n++
			c.count("verifications", 1)
			why := c.verified(e, o.st, cs, key, label, layout, v, vars, sig)
			c.oblige(why == "", "verified bytes", name, c.pos(o.pos), "%s", why)
		}
		c.oblige(n > 0, "verification possible", name, c.pos(fn.Pos()), "no path can succeed")
	})
}

// signs: on every successful path the structure is signed completely.
func (c *Ctx) signs(name string, wf int64) {
	c.guard(name, func() {
		fn := c.fn(name)
		a := SymArgs(fn)
		for i := range a {
			termTypes[a[i]] = fn.Params[i].Type()
		}
		cs, key, content, ctx := a[0], a[1], mk("deref", "", a[2]), mk("deref", "", a[3])
		e := c.engine(c.groupOpaque(nil, nil))
		n := 0
		for _, o := range successes(c.run(e, fn, nil, a)) {
			n++
			c.count("signings", 1)
			msg := derefSnap(e.snap(o.st, o.res[0], nil))
			pos := c.pos(o.pos)
			sig := strip(pv(msg, "auth.signature"))
			why := ""
			if sig.Op != "ext" || sig.Aux != "0" || !isCall(sig.Args[0], "CipherSuite.signWithLabel") {
				why = fmt.Sprintf("the signature is %v", sig)
			} else {
				x := sig.Args[0].Args
				v := mkWithFields(tSym("$tbs"), map[string]*Term{"wireFormat": mkInt(wf), "content": content}, nil)
				switch {
				case !same(x[0], cs) && !sameIn(o.st, x[0], mkField(ctx, "cipherSuite")), !same(x[1], key):
					why = fmt.Sprintf("signed with %v and key %v", x[0], x[1])
				case norm(x[2]) != mkStr("FramedContentTBS"):
					why = fmt.Sprintf("signed with label %v", x[2])
				default:
					why = c.laidOut(e, o.st, x[3], framedTBS("wireFormat", "content"), v, map[string]*Term{"$version": mkInt(1), "$ctx": ctx})
				}
			}
			c.oblige(why == "", "signed bytes", name, pos, "%s", why)
			if wf == 1 {
				c.oblige(same(mkField(msg, "content"), content), "signed content is returned", name, pos, "returns content %v", mkField(msg, "content"))
				continue
			}
			for _, f := range []string{"applicationData", "proposal", "commit"} {
				c.oblige(sameIn(o.st, mkField(msg, f), mkField(content, f)), "signed content is returned", name+" "+f, pos, "returns %v", mkField(msg, f))
			}
		}
		c.oblige(n > 0, "signing possible", name, c.pos(fn.Pos()), "no path can succeed")
	})
}

// membershipRule: what the membership tag covers.
func (c *Ctx) membershipRule() {
	tbm := append(framedTBS("$wf", "content"), istx("framedContentAuthData", "auth", "content.contentType"))
	check := func(e *Engine, st *State, name, pos string, msg, cs, key, ctx, tag *Term) {
		tag = strip(tag)
		why := "no tag"
		if tag.Op == "sum" && tag.Args[0].Op == "cat" {
			m, it := tag.Args[0].Args[0], tag.Args[0].Args[1]
			want := mk("macinit", "", mk("closure", "crypto.New$bound", tCall("CipherSuite.hash", cs)), key)
			switch {
			case !sameIn(st, m, want):
				why = fmt.Sprintf("tag made with %v", m)
			case it.Op != "bytes":
				why = fmt.Sprintf("tag over %v", it)
			default:
				why = c.laidOut(e, st, it.Args[0], tbm, msg, map[string]*Term{"$version": mkInt(1), "$ctx": ctx, "$wf": mkInt(1)})
			}
		}
		c.count("tags", 1)
		c.oblige(why == "", "membership tag covers the message", name, pos, "%s", why)
	}
	c.guard("publicMessage.signMembershipTag", func() {
		fn := c.fn("publicMessage.signMembershipTag")
		a := SymArgs(fn)
		termTypes[a[0]] = fn.Params[0].Type()
		msg, ctx := mk("deref", "", a[0]), mk("deref", "", a[3])
		e := c.engine(c.groupOpaque(nil, nil))
		for _, o := range successes(c.run(e, fn, nil, a)) {
			after := e.snap(o.st, o.st.load(a[0]), nil)
			if o.st.refuted(mkEq(pv(msg, "content.sender.senderType"), mkInt(1))) {
				continue
			}
			check(e, o.st, fnName(fn), c.pos(o.pos), msg, a[1], a[2], ctx, mkField(after, "membershipTag"))
			for _, f := range []string{"content", "auth"} {
				c.oblige(same(mkField(after, f), mkField(msg, f)), "message unchanged by tagging", fnName(fn)+" "+f, c.pos(o.pos), "%s becomes %v", f, mkField(after, f))
			}
		}
	})
	c.guard("publicMessage.verifyMembershipTag", func() {
		fn := c.fn("publicMessage.verifyMembershipTag")
		a := SymArgs(fn)
		termTypes[a[0]] = fn.Params[0].Type()
		msg, ctx := mk("deref", "", a[0]), mk("deref", "", a[2])
		e := c.engine(c.groupOpaque(nil, nil))
		for _, o := range successes(c.run(e, fn, nil, a)) {
			if o.st.refuted(mkEq(pv(msg, "content.sender.senderType"), mkInt(1))) {
				continue
			}
			tag := norm(mkField(msg, "membershipTag"))
			var mac *Term = tNil
			for f, v := range o.st.facts {
				if !v || f.Op != "beq" && f.Op != "eq" {
					continue
				}
				if x, y := norm(f.Args[0]), norm(f.Args[1]); x == tag {
					mac = strip(f.Args[1])
				} else if y == tag {
					mac = strip(f.Args[0])
				}
			}
			check(e, o.st, fnName(fn), c.pos(o.pos), msg, mkField(ctx, "cipherSuite"), a[1], ctx, mac)
		}
	})
}

// confirmationRule: the confirmation tag is the MAC of the transcript.
func (c *Ctx) confirmationRule() {
	rule := func(name string, want func(a []*Term) (tag, mac []*Term)) {
		c.guard(name, func() {
			fn := c.fn(name)
			a := SymArgs(fn)
			e := c.engine(c.groupOpaque(nil, nil))
			tag, macs := want(a)
			for _, o := range successes(c.run(e, fn, nil, a)) {
				ok := false
				for _, m := range macs {
					ok = ok || o.st.holdsBytesEq(tag[0], m)
				}
				c.count("tags", 1)
				c.oblige(ok, "confirmation tag over the confirmed transcript", name, c.pos(o.pos), "succeeds without comparing the tag with the MAC: %v", factList(o.st, 6))
			}
		})
	}
	rule("framedContentAuthData.verifyConfirmationTag", func(a []*Term) (tag, mac []*Term) {
		return []*Term{mkField(mk("deref", "", a[0]), "confirmationTag")}, []*Term{macOf(a[1], a[2], a[3])}
	})
	rule("groupInfo.verifyConfirmationTag", func(a []*Term) (tag, mac []*Term) {
		info := mk("deref", "", a[0])
		cs := pv(info, "groupContext.cipherSuite")
		for _, psk := range []*Term{a[2], mkZerosN(kdfSize(cs))} {
			es := expandL(cs, extractT(cs, a[1], psk), "epoch", encoded(iEnc("groupContext", mkField(info, "groupContext"))), kdfSize(cs))
			mac = append(mac, macOf(cs, deriveS(cs, es, "confirm"), pv(info, "groupContext.confirmedTranscriptHash")))
		}
		return []*Term{mkField(info, "confirmationTag")}, mac
	})
}

// transcriptRule: what the transcript hashes cover.
func (c *Ctx) transcriptRule() {
	opq := c.groupOpaque(nil, nil)
	c.derivesIf("confirmedTranscriptHashInput.hash", opq, func(st *State, r *Term, a []*Term) string {
		in := mk("deref", "", a[0])
		if !same(r, confirmedHash(a[1], a[2], mkField(in, "wireFormat"), mkField(in, "content"), mkField(in, "signature"))) {
			return fmt.Sprintf("yields %v", r)
		}
		return ""
	})
	c.derives("nextInterimTranscriptHash", opq, func(a []*Term) *Term { return interimHash(a[0], a[1], a[2]) })
	c.guard("authenticatedContent.confirmedTranscriptHashInput", func() {
		fn := c.fn("authenticatedContent.confirmedTranscriptHashInput")
		a := SymArgs(fn)
		e := c.engine(opq)
		for _, o := range c.run(e, fn, nil, a) {
			r, in := derefSnap(e.snap(o.st, o.res[0], nil)), mk("deref", "", a[0])
			c.oblige(same(mkField(r, "wireFormat"), mkField(in, "wireFormat")) && same(mkField(r, "content"), mkField(in, "content")) && same(mkField(r, "signature"), pv(in, "auth.signature")),
				"transcript input is the signed content", fnName(fn), c.pos(o.pos), "yields %v", r)
		}
	})
}

// encodersRule: the encoders of everything signed write every field.
// sentAs: values of the types are sent with all their fields.
func (c *Ctx) sentAs(types ...string) {
	problem := func(rule, construct, format string, args ...any) {
		c.violate(rule, construct, posOf(c, construct), format, args...)
	}
	for _, T := range types {
		c.guard(T+".marshal", func() {
			n := len(c.viol)
			l, ok := layouts[T]
			if !ok {
				l = writerLayouts[T]
			}
			c.writerMatch(T, l, T+".marshal", problem)
			c.oblige(len(c.viol) == n, "encoder writes every field", T, "", "see layout reports")
			c.count("encoders", 1)
		})
	}
}

func (c *Ctx) encodersRule() {
	problem := func(rule, construct, format string, args ...any) {
		c.violate(rule, construct, posOf(c, construct), format, args...)
	}
	structs, enums := codecTypes()
	used := map[string]bool{}
	var add func(items []item)
	add = func(items []item) {
		for _, it := range items {
			if it.typ != "" && !used[it.typ] {
				used[it.typ] = true
				add(layouts[it.typ])
			}
			add(it.sub)
			for _, l := range it.cases {
				add(l)
			}
		}
	}
	for _, l := range [][]item{framedTBS("wireFormat", "content"), leafTBS, keyPackageTBS, groupInfoBase, {ist("KeyPackage", ""), ist("authenticatedContent", "")}} {
		add(l)
	}
	for _, T := range structs {
		if used[T] {
			c.guard(T+".marshal", func() {
				n := len(c.viol)
				c.writerMatch(T, layouts[T], T+".marshal", problem)
				c.oblige(len(c.viol) == n, "encoder writes every field", T, "", "see layout reports")
				c.count("encoders", 1)
			})
		}
	}
	for _, T := range enums {
		if used[T] {
			c.guard(T, func() { c.enumCodec(T, problem) })
		}
	}
}

func checkC18(c *Ctx) {
	c.guard("signatures", c.signatureRule)
	c.guard("CipherSuite.refHash", c.refHashRule)
	c.guard("hpke", c.hpkeRule)
	c.guard("KeyPackage.GenerateRef", c.refRule)
	d := func(t *Term) *Term { return mk("deref", "", t) }
	c.verifies("KeyPackage.verifySignature", func(a []*Term) (cs, key *Term, label string, layout []item, v *Term, vars map[string]*Term, sig *Term) {
		p := d(a[0])
		return mkField(p, "cipherSuite"), pv(p, "leafNode.signatureKey"), "KeyPackageTBS", keyPackageTBS, p, nil, mkField(p, "signature")
	})
	c.verifies("leafNode.verifySignature", func(a []*Term) (cs, key *Term, label string, layout []item, v *Term, vars map[string]*Term, sig *Term) {
		n := d(a[0])
		return a[1], mkField(n, "signatureKey"), "LeafNodeTBS", leafTBS, n, map[string]*Term{"$gid": a[2], "$index": a[3]}, mkField(n, "signature")
	})
	c.verifies("groupInfo.verifySignature", func(a []*Term) (cs, key *Term, label string, layout []item, v *Term, vars map[string]*Term, sig *Term) {
		i := d(a[0])
		return pv(i, "groupContext.cipherSuite"), a[1], "GroupInfoTBS", groupInfoBase, i, nil, mkField(i, "signature")
	})
	c.verifies("framedContentAuthData.verifySignature", func(a []*Term) (cs, key *Term, label string, layout []item, v *Term, vars map[string]*Term, sig *Term) {
		return a[1], a[2], "FramedContentTBS", writerLayouts["framedContentTBS"], d(a[3]), nil, mkField(d(a[0]), "signature")
	})
	c.verifies("authenticatedContent.verifySignature", func(a []*Term) (cs, key *Term, label string, layout []item, v *Term, vars map[string]*Term, sig *Term) {
		return mkField(d(a[2]), "cipherSuite"), a[1], "FramedContentTBS", framedTBS("wireFormat", "content"), d(a[0]), map[string]*Term{"$version": mkInt(1), "$ctx": d(a[2])}, pv(d(a[0]), "auth.signature")
	})
	c.signs("signPublicMessage", 1)
	c.signs("signPrivateMessageContent", 2)
	c.guard("GenerateKeyPairPackage", c.generateRule)
	c.membershipRule()
	c.confirmationRule()
	c.transcriptRule()
	c.guard("Group.CreateWelcome", func() {
		r := c.sendRun("Group.CreateWelcome")
		for _, o := range successes(r.outs) {
			r.welcomeMade(o, SymArgs(r.fn)[1])
			r.sent(o, o.res[1], 3)
		}
	})
	c.guard("Group.CreateApplicationMessage", func() {
		r := c.sendRun("Group.CreateApplicationMessage")
		for _, o := range successes(r.outs) {
			r.sent(o, o.res[0], 1)
		}
	})
	c.guard("Group.verifyPublicMessage", c.verifyPublicDirect)
	c.guard("receiving", func() {
		rr := c.receive()
		for i := range rr.effs {
			ef := &rr.effs[i]
			if !ef.st.refuted(mkEq(rr.wf(), mkInt(2))) && !ef.st.holds(mkEq(rr.wf(), mkInt(1))) {
				rr.checkPrivate(ef)
			}
		}
	})
	c.guard("labels", c.labelUses)
	c.guard("raw signatures", c.onlyLabelled)
	c.encodersRule()
}
