package main

import "fmt"

// keyPackageRule checks KeyPackage.verify (RFC 9420 section 10.1).
func (c *Ctx) keyPackageRule() {
	fn := c.fn("KeyPackage.verify")
	a := SymArgs(fn)
	termTypes[a[0]] = fn.Params[0].Type()
	pkg, ctx := mk("deref", "", a[0]), mk("deref", "", a[1])
	e := c.engine(c.groupOpaque(nil, setOf("KeyPackage.verify")))
	const where = "KeyPackage.verify"
	for _, o := range successes(c.run(e, fn, nil, a)) {
		st, pos := o.st, c.pos(o.pos)
		c.count("package_paths", 1)
		for _, f := range []string{"version", "cipherSuite"} {
			c.oblige(st.holds(mkEq(mkField(pkg, f), mkField(ctx, f))), f+" equals that of the group", where, pos, "a key package is accepted without comparing its %s with the group's", f)
		}
		c.oblige(st.holds(mkEq(pv(pkg, "leafNode.leafNodeSource"), mkInt(1))), "leaf originates from a key package", where, pos, "a key package is accepted whose leaf may have another source")
		why := c.verified(e, st, mkField(pkg, "cipherSuite"), pv(pkg, "leafNode.signatureKey"), "KeyPackageTBS", keyPackageTBS, pkg, nil, mkField(pkg, "signature"))
		c.oblige(why == "", "key package signature verified", where, pos, "a key package is accepted although: %s", why)
		c.oblige(st.bytesDiffer(pv(pkg, "leafNode.encryptionKey"), mkField(pkg, "initKey")), "init key differs from encryption key", where, pos, "a key package is accepted without finding its init key different from its encryption key")
	}
}

// bytesDiffer: st establishes that two byte strings differ.
func (s *State) bytesDiffer(a, b *Term) bool {
	a, b = norm(a), norm(b)
	for f, v := range s.facts {
		if v || f.Op != "beq" && f.Op != "eq" {
			continue
		}
		x, y := norm(f.Args[0]), norm(f.Args[1])
		if x == a && y == b || x == b && y == a {
			return true
		}
	}
	return false
}

// generateRule checks GenerateKeyPairPackage for every suite.
func (c *Ctx) generateRule() {
	fn := c.fn("GenerateKeyPairPackage")
	for _, s := range suites {
		s := s
		where := fmt.Sprintf("GenerateKeyPairPackage suite %d", s.id)
		c.guard(where, func() {
			cs := mkInt(s.id)
			a := SymArgs(fn)
			a[0] = cs
			e := c.engine(c.groupOpaque(nil, setOf("CipherSuite.hash", "CipherSuite.hpke")))
			for _, o := range successes(c.run(e, fn, nil, a)) {
				c.count("generated_packages", 1)
				pos := c.pos(o.pos)
				pair := derefSnap(e.snap(o.st, o.res[0], nil))
				pub, priv := mkField(pair, "Public"), mkField(pair, "Private")
				leaf := mkField(pub, "leafNode")
				c.oblige(mkField(pub, "version") == mkInt(1) && mkField(pub, "cipherSuite") == cs, "generated for the suite", where, pos, "generated package has version %v and suite %v", mkField(pub, "version"), mkField(pub, "cipherSuite"))
				g1, w1 := s.hpkePair(mkField(pub, "initKey"), mkField(priv, "InitKey"))
				c.oblige(w1 == "", "fresh matching init key", where, pos, "init key: %s", w1)
				g2, w2 := s.hpkePair(mkField(leaf, "encryptionKey"), mkField(priv, "EncryptionKey"))
				c.oblige(w2 == "", "fresh matching encryption key", where, pos, "encryption key: %s", w2)
				c.oblige(g1 == nil || g1 != g2, "distinct keys", where, pos, "init and encryption key are the same key")
				w3 := s.sigPair(mkField(leaf, "signatureKey"), mkField(priv, "SignatureKey"))
				c.oblige(w3 == "", "fresh matching signature key", where, pos, "%s", w3)
				c.oblige(mkField(leaf, "leafNodeSource") == mkInt(1), "leaf originates from a key package", where, pos, "leaf source %v", mkField(leaf, "leafNodeSource"))
				c.oblige(same(mkField(leaf, "credential"), mk("deref", "", a[1])), "credential is the caller's", where, pos, "credential %v", mkField(leaf, "credential"))
				w := signedBytes(c, e, o.st, mkField(leaf, "signature"), cs, mkField(priv, "SignatureKey"), "LeafNodeTBS", leafTBS, leaf)
				c.oblige(w == "", "leaf signed with the generated key over its final contents", where, pos, "%s", w)
				w = signedBytes(c, e, o.st, mkField(pub, "signature"), cs, mkField(priv, "SignatureKey"), "KeyPackageTBS", keyPackageTBS, pub)
				c.oblige(w == "", "package signed with the generated key over its final contents", where, pos, "%s", w)
				w = generatedLifetime(mkField(leaf, "lifetime"))
				c.oblige(w == "", "lifetime valid from now", where, pos, "%s", w)
			}
		})
	}
}

// signedBytes: sig is the signature with label by key over v's layout.
func signedBytes(c *Ctx, e *Engine, st *State, sig, cs, key *Term, label string, layout []item, v *Term) string {
	sig = strip(sig)
	if sig.Op != "ext" || sig.Aux != "0" || !isCall(sig.Args[0], "CipherSuite.signWithLabel") {
		return fmt.Sprintf("the signature is %v", sig)
	}
	a := sig.Args[0].Args
	switch {
	case !sameIn(st, a[0], cs):
		return fmt.Sprintf("signed with cipher suite %v", a[0])
	case !same(a[1], key):
		return fmt.Sprintf("signed with key %v", a[1])
	case norm(a[2]) != mkStr(label):
		return fmt.Sprintf("signed with label %v", a[2])
	}
	return c.laidOut(e, st, a[3], layout, v, nil)
}

// generatedLifetime: from the current time (or before), until later but not
// longer than the maximum.
func generatedLifetime(lt *Term) string {
	l := derefSnap(lt)
	nb, na := strip(mkField(l, "notBefore")), strip(mkField(l, "notAfter"))
	base := func(t *Term) (*Term, int64, bool) {
		if !isCall(t, "time.Time.Unix") {
			return nil, 0, false
		}
		t = strip(t.Args[0])
		if isCall(t, "time.Time.Add") {
			if n, ok := t.Args[1].intVal(); ok {
				return strip(t.Args[0]), n, true
			}
			return nil, 0, false
		}
		return t, 0, true
	}
	b1, n1, ok1 := base(nb)
	b2, n2, ok2 := base(na)
	if !ok1 || !ok2 || !isCall(b1, "time.Now") || !isCall(b2, "time.Now") {
		return fmt.Sprintf("lifetime from %v to %v", nb, na)
	}
	if n1 > 0 || n2 <= 0 || n2-n1 > maxLifetime {
		return fmt.Sprintf("lifetime from %d to %d ns after now", n1, n2)
	}
	return ""
}

// refRule checks KeyPackage.GenerateRef.
func (c *Ctx) refRule() {
	fn := c.fn("KeyPackage.GenerateRef")
	a := SymArgs(fn)
	pkg := mk("deref", "", a[0])
	e := c.engine(c.groupOpaque(nil, nil))
	for _, o := range successes(c.run(e, fn, nil, a)) {
		want := mkExt(tCall("CipherSuite.refHash", mkField(pkg, "cipherSuite"), mkStr("MLS 1.0 KeyPackage Reference"), encoded(iEnc("KeyPackage", pkg))), 0)
		c.oblige(same(o.res[0], want), "reference is the hash of the complete package", "KeyPackage.GenerateRef", c.pos(o.pos), "reference is %v", o.res[0])
		c.count("reference_paths", 1)
	}
}

func checkC15(c *Ctx) {
	c.guard("KeyPackage.verify", c.keyPackageRule)
	c.guard("GenerateKeyPairPackage", c.generateRule)
	c.guard("KeyPackage.GenerateRef", c.refRule)
	c.guard("CipherSuite.refHash", c.refHashRule)
	c.guard("signatures", c.signatureRule)
}
