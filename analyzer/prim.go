package main

import (
	"fmt"
	"strings"
)

// The cryptographic primitives of a cipher suite, as RFC 9420 (sections 5.1
// and 17.1) defines them.

type suiteSpec struct {
	id             int64
	kem, kdf, aead int64
	hash           int64
	sig            string // "ed25519", "ed448", or an elliptic curve for ECDSA
	keyLen         int64  // public key length of EdDSA
}

var suites = []suiteSpec{
	{1, 32, 1, 1, 5, "ed25519", 32},
	{2, 16, 1, 1, 5, "P256", 0},
	{3, 32, 1, 3, 5, "ed25519", 32},
	{4, 33, 3, 2, 7, "ed448", 57},
	{5, 18, 3, 2, 7, "P521", 0},
	{6, 33, 3, 3, 7, "ed448", 57},
	{7, 17, 2, 2, 6, "P384", 0},
}

func (s suiteSpec) curve() *Term { return tCall("crypto/elliptic." + s.sig) }

func (s suiteSpec) hpke() *Term {
	return tCall("github.com/cloudflare/circl/hpke.NewSuite", mkInt(s.kem), mkInt(s.kdf), mkInt(s.aead))
}

func (s suiteSpec) scheme() *Term {
	return tCall("hpke.KEM.Scheme", mkExt(tCall("hpke.Suite.Params", s.hpke()), 0))
}

// isCall: t is a call of the named function; a call site suffix is ignored.
func isCall(t *Term, name string) bool {
	if t.Op != "call" {
		return false
	}
	n, _, _ := strings.Cut(t.Aux, "@")
	return n == name || strings.HasSuffix(n, "/"+name)
}

// withPrefix: t is the constant prefix followed by label.
func withPrefix(t *Term, prefix string, label *Term) bool {
	t = norm(t)
	if t == norm(label) {
		return false
	}
	switch t.Op {
	case "append":
		return len(t.Args) == 2 && norm(t.Args[0]) == mkStr(prefix) && norm(t.Args[1]) == norm(label)
	case "bin":
		return t.Aux == "+" && norm(t.Args[0]) == mkStr(prefix) && norm(t.Args[1]) == norm(label)
	case "call":
		if t.Aux == "bytes.Join" && len(t.Args) == 2 && t.Args[0].Op == "list" && len(t.Args[0].Args) == 2 {
			a, ok := norm(t.Args[0].Args[0]).strVal()
			sep, is := norm(t.Args[1]).strVal()
			return ok && is && a+sep == prefix && norm(t.Args[0].Args[1]) == norm(label)
		}
		if strings.HasPrefix(t.Aux, "slices.Concat") && len(t.Args) == 1 && t.Args[0].Op == "list" && len(t.Args[0].Args) == 2 {
			return norm(t.Args[0].Args[0]) == mkStr(prefix) && norm(t.Args[0].Args[1]) == norm(label)
		}
	}
	return false
}

// twoOpaque: t encodes opaque(first), opaque(second) after the given items.
func opaques(t *Term, lead []*Term, ok ...func(*Term) bool) bool {
	t = strip(t)
	if t.Op != "built" {
		return false
	}
	base, items := catItems(t.Args[0])
	if base != bEmpty || len(items) != len(lead)+len(ok) {
		return false
	}
	for i, l := range lead {
		if norm(items[i]) != norm(l) {
			return false
		}
	}
	for i, f := range ok {
		if it := items[len(lead)+i]; it.Op != "opaque" || !f(it.Args[0]) {
			return false
		}
	}
	return true
}

func is(want *Term) func(*Term) bool {
	return func(t *Term) bool { return same(t, want) }
}

func mlsLabel(label *Term) func(*Term) bool {
	return func(t *Term) bool { return withPrefix(t, "MLS 1.0 ", label) }
}

// signContent: t is SignContent (or EncryptContext) of label and content.
func signContent(t, label, content *Term) bool {
	return opaques(t, nil, mlsLabel(label), is(content))
}

// suiteRule: hash() and hpke() select the registered algorithms.
func (c *Ctx) suiteRule() {
	for _, s := range suites {
		cs := mkInt(s.id)
		e := c.engine(nil)
		for _, o := range c.run(e, c.fn("CipherSuite.hash"), nil, []*Term{cs}) {
			c.oblige(same(o.res[0], mkInt(s.hash)), "registered hash", fmt.Sprintf("CipherSuite.hash suite %d", s.id), c.pos(o.pos), "suite %d uses hash %v", s.id, o.res[0])
			c.count("suite_functions", 1)
		}
		for _, o := range c.run(e, c.fn("CipherSuite.hpke"), nil, []*Term{cs}) {
			c.oblige(same(o.res[0], s.hpke()), "registered KEM, KDF and AEAD", fmt.Sprintf("CipherSuite.hpke suite %d", s.id), c.pos(o.pos), "suite %d uses %v", s.id, o.res[0])
			c.count("suite_functions", 1)
		}
	}
}

// signatureRule: signing and verifying with label use the registered algorithm
// over the labelled content, and only that.
func (c *Ctx) signatureRule() {
	for _, s := range suites {
		s := s
		c.guard(fmt.Sprintf("signatures of suite %d", s.id), func() {
			cs := mkInt(s.id)
			e := c.engine(nil)
			fn := c.fn("CipherSuite.verifyWithLabel")
			a := SymArgs(fn)
			a[0] = cs
			n := 0
			for _, o := range c.run(e, fn, nil, a) {
				r := strip(o.res[0])
				if r == tFalse || o.st.truth(r) == 0 {
					continue
				}
				n++
				why := s.verifyIs(o.st, r, a[1], a[2], a[3], a[4])
				c.oblige(why == "", "signature verification by the registered algorithm over the labelled content", fmt.Sprintf("CipherSuite.verifyWithLabel suite %d", s.id), c.pos(o.pos), "%s", why)
			}
			c.oblige(n > 0, "signatures can verify", fmt.Sprintf("CipherSuite.verifyWithLabel suite %d", s.id), c.pos(fn.Pos()), "no path can succeed")
			fn = c.fn("CipherSuite.signWithLabel")
			a = SymArgs(fn)
			a[0] = cs
			for _, o := range successes(c.run(e, fn, nil, a)) {
				why := s.signIs(e.snap(o.st, o.res[0], nil), a[1], a[2], a[3])
				c.oblige(why == "", "signature by the registered algorithm over the labelled content", fmt.Sprintf("CipherSuite.signWithLabel suite %d", s.id), c.pos(o.pos), "%s", why)
				n++
			}
			c.count("signature_paths", n)
		})
	}
}

// digest: t is the suite hash of SignContent.
func (s suiteSpec) digest(t, label, content *Term) bool {
	t = strip(t)
	if t.Op == "sum" {
		b := t.Args[0]
		return b.Op == "cat" && b.Args[0].Op == "hinit" && b.Args[0].Args[0] == mkInt(s.hash) && b.Args[1].Op == "bytes" && signContent(b.Args[1].Args[0], label, content)
	}
	return false
}

func (s suiteSpec) verifyIs(st *State, r, key, label, content, sig *Term) string {
	switch s.sig {
	case "ed25519", "ed448":
		if !isCall(r, s.sig+".Verify") {
			return fmt.Sprintf("accepts when %v", r)
		}
		switch {
		case !same(r.Args[0], key):
			return fmt.Sprintf("verifies under key %v", r.Args[0])
		case !signContent(r.Args[1], label, content):
			return fmt.Sprintf("verifies over %v", r.Args[1])
		case !same(r.Args[2], sig):
			return fmt.Sprintf("verifies signature %v", r.Args[2])
		case len(r.Args) > 3 && norm(r.Args[3]) != tNil:
			return fmt.Sprintf("verifies with context %v", r.Args[3])
		case !lenIs(st, key, s.keyLen):
			return "the key is used before its length was checked"
		}
		return ""
	}
	if !isCall(r, "ecdsa.VerifyASN1") {
		return fmt.Sprintf("accepts when %v", r)
	}
	k := derefSnap(r.Args[0])
	u := tCall("crypto/elliptic.Unmarshal", s.curve(), key)
	switch {
	case !same(mkField(k, "Curve"), s.curve()):
		return fmt.Sprintf("uses curve %v", mkField(k, "Curve"))
	case !same(mkField(k, "X"), mkExt(u, 0)) || !same(mkField(k, "Y"), mkExt(u, 1)):
		return fmt.Sprintf("the public key is %v", k)
	case st.truth(mkEq(mkExt(u, 0), tNil)) != 0:
		return "the key is used without checking that it was decoded"
	case !s.digest(r.Args[1], label, content):
		return fmt.Sprintf("verifies over %v", r.Args[1])
	case !same(r.Args[2], sig):
		return fmt.Sprintf("verifies signature %v", r.Args[2])
	}
	return ""
}

func lenIs(st *State, t *Term, n int64) bool { return st.truth(mkEq(mkLen(t), mkInt(n))) == 1 }

func (s suiteSpec) signIs(r, key, label, content *Term) string {
	r = strip(r)
	switch s.sig {
	case "ed25519", "ed448":
		if !isCall(r, s.sig+".Sign") {
			return fmt.Sprintf("the signature is %v", r)
		}
		k := strip(r.Args[0])
		switch {
		case !isCall(k, s.sig+".NewKeyFromSeed") || !same(k.Args[0], key):
			return fmt.Sprintf("signs with key %v", k)
		case !signContent(r.Args[1], label, content):
			return fmt.Sprintf("signs %v", r.Args[1])
		case len(r.Args) > 2 && norm(r.Args[2]) != tNil:
			return fmt.Sprintf("signs with context %v", r.Args[2])
		}
		return ""
	}
	if r.Op == "ext" {
		r = r.Args[0]
	}
	if !isCall(r, "ecdsa.SignASN1") {
		return fmt.Sprintf("the signature is %v", r)
	}
	k := derefSnap(r.Args[1])
	d := strip(mkField(k, "D"))
	switch {
	case !isSystemRand(r.Args[0]):
		return fmt.Sprintf("signs with randomness %v", r.Args[0])
	case !same(mkField(mkField(k, "PublicKey"), "Curve"), s.curve()):
		return fmt.Sprintf("signs on curve %v", mkField(mkField(k, "PublicKey"), "Curve"))
	case !isCall(d, "big.Int.SetBytes") || !same(d.Args[1], key):
		return fmt.Sprintf("signs with key %v", d)
	case !s.digest(r.Args[2], label, content):
		return fmt.Sprintf("signs %v", r.Args[2])
	}
	return ""
}

// isSystemRand: the operating system's generator.
func isSystemRand(t *Term) bool {
	t = strip(t)
	return t.Op == "deref" && t.Args[0].Op == "global" && strings.HasSuffix(t.Args[0].Aux, "crypto/rand.Reader") || strings.HasSuffix(t.String(), "crypto/rand.Reader")
}

// sigPair: pub and priv are one freshly generated signature key pair.
func (s suiteSpec) sigPair(pub, priv *Term) string {
	pub, priv = strip(pub), strip(priv)
	switch s.sig {
	case "ed25519", "ed448":
		if pub.Op != "ext" || pub.Aux != "0" || !isCall(pub.Args[0], s.sig+".GenerateKey") || !isSystemRand(pub.Args[0].Args[0]) {
			return fmt.Sprintf("the signature public key is %v", pub)
		}
		if !isCall(priv, s.sig+".PrivateKey.Seed") || norm(priv.Args[0]) != norm(mkExt(pub.Args[0], 1)) {
			return fmt.Sprintf("the signature private key is %v", priv)
		}
		return ""
	}
	if !isCall(priv, "big.Int.Bytes") && !isCall(priv, "big.Int.FillBytes") {
		return fmt.Sprintf("the signature private key is %v", priv)
	}
	var gen *Term
	priv.Args[0].any(func(t *Term) bool {
		if isCall(t, "ecdsa.GenerateKey") {
			gen = t
		}
		return gen != nil
	})
	if gen == nil || !same(gen.Args[0], s.curve()) || !isSystemRand(gen.Args[1]) {
		return fmt.Sprintf("the signature private key is %v", priv)
	}
	key := mkExt(gen, 0)
	at := func(path string) *Term {
		t := mk("deref", "", key)
		for _, f := range strings.Split(path, ".") {
			t = mkField(t, f)
		}
		return norm(t)
	}
	if x := norm(derefSnap(priv.Args[0])); x != at("D") && norm(priv.Args[0]) != at("D") {
		return fmt.Sprintf("the signature private key is %v", priv)
	}
	curve := func(t *Term) bool { return norm(t) == at("PublicKey.Curve") || same(t, s.curve()) }
	if !isCall(pub, "elliptic.Marshal") || !curve(pub.Args[0]) || norm(pub.Args[1]) != at("PublicKey.X") || norm(pub.Args[2]) != at("PublicKey.Y") {
		return fmt.Sprintf("the signature public key is %v", pub)
	}
	return ""
}

// hpkePair: pub and priv are one freshly generated HPKE key pair; it returns
// the generating call.
func (s suiteSpec) hpkePair(pub, priv *Term) (*Term, string) {
	pub, priv = strip(pub), strip(priv)
	half := func(t *Term, what string, i int) *Term {
		if t.Op != "ext" || t.Aux != "0" || !isCall(t.Args[0], "kem."+what+".MarshalBinary") {
			return nil
		}
		k := strip(t.Args[0].Args[0])
		if k.Op != "ext" || k.Aux != fmt.Sprint(i) || !isCall(k.Args[0], "kem.Scheme.GenerateKeyPair") || !same(k.Args[0].Args[0], s.scheme()) {
			return nil
		}
		return k.Args[0]
	}
	g1 := half(pub, "PublicKey", 0)
	if g1 == nil {
		return nil, fmt.Sprintf("the public key is %v", pub)
	}
	if g2 := half(priv, "PrivateKey", 1); g2 != g1 {
		return nil, fmt.Sprintf("the private key %v does not belong to the public key", priv)
	}
	return g1, ""
}

// expandRule: expandWithLabel is Expand over KDFLabel.
func (c *Ctx) expandRule() {
	fn := c.fn("CipherSuite.expandWithLabel")
	a := SymArgs(fn)
	e := c.engine(c.groupOpaque(nil, setOf("CipherSuite.expandWithLabel")))
	for _, o := range successes(c.run(e, fn, nil, a)) {
		r := strip(o.res[0])
		ok := isCall(r, "hpke.KDF.Expand") && same(r.Args[0], hpkeParam(a[0], 1)) && same(r.Args[1], a[1]) && same(r.Args[3], a[4]) &&
			opaques(r.Args[2], []*Term{iInt("u16", a[4])}, mlsLabel(a[2]), is(a[3]))
		c.oblige(ok, "ExpandWithLabel", "CipherSuite.expandWithLabel", c.pos(o.pos), "yields %v", r)
		c.count("primitive_paths", 1)
	}
}

// refHashRule: refHash is the hash over label and value.
func (c *Ctx) refHashRule() {
	fn := c.fn("CipherSuite.refHash")
	a := SymArgs(fn)
	e := c.engine(c.groupOpaque(nil, setOf("CipherSuite.refHash")))
	for _, o := range successes(c.run(e, fn, nil, a)) {
		r := strip(o.res[0])
		c.oblige(same(r, hashOf(a[0], iBytes(encoded(iOpaque(a[1]), iOpaque(a[2]))))), "RefHash", "CipherSuite.refHash", c.pos(o.pos), "yields %v", r)
		c.count("primitive_paths", 1)
	}
}

// hpkeRule: encryptWithLabel and decryptWithLabel are single-shot HPKE in base
// mode with EncryptContext as info and no associated data.
func (c *Ctx) hpkeRule() {
	fn := c.fn("CipherSuite.encryptWithLabel")
	a := SymArgs(fn)
	e := c.engine(c.groupOpaque(nil, setOf("CipherSuite.encryptWithLabel", "CipherSuite.decryptWithLabel")))
	suite := func(cs *Term) *Term { return tCall("CipherSuite.hpke", cs) }
	for _, o := range successes(c.run(e, fn, nil, a)) {
		why := func() string {
			kem, ct := strip(o.res[0]), strip(o.res[1])
			if ct.Op != "ext" || ct.Aux != "0" || !isCall(ct.Args[0], "hpke.Sealer.Seal") || o.st.truth(mkEq(mkExt(ct.Args[0], 1), tNil)) != 1 {
				return fmt.Sprintf("the ciphertext is %v", ct)
			}
			seal := ct.Args[0]
			if !same(seal.Args[1], a[4]) {
				return fmt.Sprintf("encrypts %v", seal.Args[1])
			}
			if norm(seal.Args[2]) != tNil {
				return fmt.Sprintf("uses associated data %v", seal.Args[2])
			}
			s := strip(seal.Args[0])
			if s.Op != "ext" || s.Aux != "1" || !isCall(s.Args[0], "hpke.Sender.Setup") || !isSystemRand(s.Args[0].Args[1]) {
				return fmt.Sprintf("encrypts with %v", s)
			}
			if kem != mkExt(s.Args[0], 0) {
				return fmt.Sprintf("the KEM output is %v", kem)
			}
			ns := strip(s.Args[0].Args[0])
			if ns.Op != "ext" || ns.Aux != "0" || !isCall(ns.Args[0], "hpke.Suite.NewSender") || !same(ns.Args[0].Args[0], suite(a[0])) {
				return fmt.Sprintf("the sender is %v", ns)
			}
			if pk := strip(ns.Args[0].Args[1]); !same(pk, mkExt(tCall("kem.Scheme.UnmarshalBinaryPublicKey", tCall("hpke.KEM.Scheme", hpkeParam(a[0], 0)), a[1]), 0)) {
				return fmt.Sprintf("encrypts to %v", pk)
			}
			if !signContent(ns.Args[0].Args[2], a[2], a[3]) {
				return fmt.Sprintf("the context is %v", ns.Args[0].Args[2])
			}
			return ""
		}()
		c.oblige(why == "", "EncryptWithLabel", "CipherSuite.encryptWithLabel", c.pos(o.pos), "%s", why)
		c.count("primitive_paths", 1)
	}
	fn = c.fn("CipherSuite.decryptWithLabel")
	a = SymArgs(fn)
	for _, o := range successes(c.run(e, fn, nil, a)) {
		why := func() string {
			pt := strip(o.res[0])
			if pt.Op != "ext" || pt.Aux != "0" || !isCall(pt.Args[0], "hpke.Opener.Open") || o.st.truth(mkEq(mkExt(pt.Args[0], 1), tNil)) != 1 {
				return fmt.Sprintf("the plaintext is %v", pt)
			}
			open := pt.Args[0]
			if !same(open.Args[1], a[5]) || norm(open.Args[2]) != tNil {
				return fmt.Sprintf("opens %v with associated data %v", open.Args[1], open.Args[2])
			}
			s := strip(open.Args[0])
			if s.Op != "ext" || s.Aux != "0" || !isCall(s.Args[0], "hpke.Receiver.Setup") || !same(s.Args[0].Args[1], a[4]) {
				return fmt.Sprintf("opens with %v", s)
			}
			nr := strip(s.Args[0].Args[0])
			if nr.Op != "ext" || nr.Aux != "0" || !isCall(nr.Args[0], "hpke.Suite.NewReceiver") || !same(nr.Args[0].Args[0], suite(a[0])) {
				return fmt.Sprintf("the receiver is %v", nr)
			}
			if sk := strip(nr.Args[0].Args[1]); !same(sk, mkExt(tCall("kem.Scheme.UnmarshalBinaryPrivateKey", tCall("hpke.KEM.Scheme", hpkeParam(a[0], 0)), a[1]), 0)) {
				return fmt.Sprintf("decrypts with %v", sk)
			}
			if !signContent(nr.Args[0].Args[2], a[2], a[3]) {
				return fmt.Sprintf("the context is %v", nr.Args[0].Args[2])
			}
			return ""
		}()
		c.oblige(why == "", "DecryptWithLabel", "CipherSuite.decryptWithLabel", c.pos(o.pos), "%s", why)
		c.count("primitive_paths", 1)
	}
}
