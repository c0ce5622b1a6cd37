package main

// Recognisers for the terms of message protection (RFC 9420 section 6.3 and
// 9). They accept any way of writing the computation that yields the same
// dataflow term.

// mp describes one message-protection context.
type mp struct {
	c    *Ctx
	st   *State
	cs   *Term
	tree *Term // the group's ratchet tree
	es   *Term // epoch secret
}

func aeadSize(cs *Term, what string) *Term { return tCall("hpke.AEAD."+what, hpkeParam(cs, 2)) }

// isExpand matches expandWithLabel(cs, secret, label, ctx, n)#0 and returns
// secret and context.
func isExpand(t, cs *Term, label string, n *Term) (secret, ctx *Term) {
	t = strip(t)
	if t.Op != "ext" || t.Aux != "0" {
		return nil, nil
	}
	t = t.Args[0]
	if t.Op != "call" || t.Aux != "CipherSuite.expandWithLabel" || !same(t.Args[0], cs) || norm(t.Args[2]) != mkStr(label) || !same(t.Args[4], u16(n)) {
		return nil, nil
	}
	return t.Args[1], t.Args[3]
}

// sample: t is the ciphertext sample of ct.
func (m *mp) sample(t, ct *Term) bool {
	t, ct = strip(t), strip(ct)
	size := kdfSize(m.cs)
	if same(t, ct) {
		return m.st.truth(mk("lt", "", mkLen(ct), size)) == 1 || m.st.truth(mk("lt", "", size, mkLen(ct))) == 0
	}
	if t.Op == "slice" && same(t.Args[0], ct) && t.Args[1] == mkInt(0) {
		hi := t.Args[2]
		if same(hi, size) {
			return true
		}
		if hi.Op == "call" && hi.Aux == "min" && len(hi.Args) == 2 {
			a, b := norm(hi.Args[0]), norm(hi.Args[1])
			x, y := norm(size), norm(mkLen(ct))
			return a == x && b == y || a == y && b == x
		}
	}
	return false
}

// cipherOf matches the AEAD object for a key: AEAD.New(aead(cs), key)#0.
func cipherOf(t, cs *Term) *Term {
	t = strip(t)
	if t.Op == "ext" && t.Aux == "0" && t.Args[0].Op == "call" && t.Args[0].Aux == "hpke.AEAD.New" && same(t.Args[0].Args[0], hpkeParam(cs, 2)) {
		return t.Args[0].Args[1]
	}
	return nil
}

// aeadCall is a matched Open or Seal call.
type aeadCall struct{ key, dst, nonce, data, aad *Term }

func isAEAD(t, cs *Term, what string) *aeadCall {
	t = strip(t)
	if what == "Open" {
		if t.Op != "ext" || t.Aux != "0" {
			return nil
		}
		t = t.Args[0]
	}
	if t.Op != "call" || t.Aux != "cipher.AEAD."+what || len(t.Args) != 5 {
		return nil
	}
	k := cipherOf(t.Args[0], cs)
	if k == nil {
		return nil
	}
	return &aeadCall{key: k, dst: t.Args[1], nonce: t.Args[2], data: t.Args[3], aad: t.Args[4]}
}

// senderDataKeys: key and nonce are the sender data key and nonce for ct.
func (m *mp) senderDataKeys(key, nonce, ct *Term) string {
	secret := deriveS(m.cs, m.es, "sender data")
	s, ctx := isExpand(key, m.cs, "key", aeadSize(m.cs, "KeySize"))
	if s == nil || !same(s, secret) || !m.sample(ctx, ct) {
		return "sender data key is not ExpandWithLabel(sender_data_secret, \"key\", ciphertext sample)"
	}
	s, ctx = isExpand(nonce, m.cs, "nonce", aeadSize(m.cs, "NonceSize"))
	if s == nil || !same(s, secret) || !m.sample(ctx, ct) {
		return "sender data nonce is not ExpandWithLabel(sender_data_secret, \"nonce\", ciphertext sample)"
	}
	return ""
}

func senderDataAADItems(gid, epoch, ct *Term) []*Term {
	return []*Term{iOpaque(gid), iInt("u64", epoch), iEnc("contentType", ct)}
}

func contentAADItems(gid, epoch, ct, ad *Term) []*Term {
	return append(senderDataAADItems(gid, epoch, ct), iOpaque(ad))
}

// sameIn compares terms; the contents may use constants known in the state.
func (m *mp) sameIn(a, b *Term) bool { return sameIn(m.st, a, b) }

func sameIn(st *State, a, b *Term) bool {
	return same(a, b) || norm(st.substConst(a)) == norm(st.substConst(b))
}

// substConst replaces subterms known to be constant.
func (s *State) substConst(t *Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if c, ok := s.eqc[t]; ok {
			r = c
		} else if len(t.Args) > 0 {
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = f(a)
				ch = ch || args[i] != a
			}
			if ch {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return f(t)
}

// lvField views t as a loop-variant value: its value on entry and at the back
// edges, and the loop.
func lvOf(t *Term) (li *LoopInfo, init *Term, next []*Term) {
	t = strip(t)
	if t.Op == "lv" {
		if i, n, ok := lvParts(t); ok {
			return lvInfo[t], i, n
		}
	}
	if t.Op == "field" {
		li, i, n := lvOf(t.Args[0])
		if li == nil {
			return nil, nil, nil
		}
		var l []*Term
		for _, x := range n {
			l = append(l, mkField(x, t.Aux))
		}
		return li, mkField(i, t.Aux), l
	}
	return nil, nil, nil
}

// counter: t is a loop-variant that starts at 0 and grows by one.
func counter(t *Term) (*LoopInfo, bool) {
	li, init, next := lvOf(t)
	if li == nil || init != mkInt(0) || len(next) == 0 {
		return nil, false
	}
	for _, n := range next {
		if n != mkBin("+", t, mkInt(1)) {
			return nil, false
		}
	}
	return li, true
}

// loopEq: t (a counter) equals bound when the loop was left in state st,
// directly or because another counter of the same loop does.
func loopEq(st *State, t, bound *Term) bool {
	if same(t, bound) || st.holds(mkEq(t, bound)) {
		return true
	}
	li, ok := counter(t)
	if !ok {
		return false
	}
	for _, x := range li.lv {
		if l2, ok := counter(x); !ok || l2 != li {
			continue
		}
		if st.holds(mkEq(x, bound)) || st.refuted(mk("lt", "", x, bound)) {
			return true
		}
	}
	return false
}

// ratchetRoot is generation 0 of the ratchet of a leaf.
func (m *mp) ratchetRoot(leaf *Term, label string) *Term {
	enc := deriveS(m.cs, m.es, "encryption")
	tree := mkExt(tCall("deriveSecretTree", m.cs, tCall("ratchetTree.numLeaves", m.tree), enc), 0)
	return expandL(m.cs, mkSel(tree, mkBin("*", mkInt(2), leaf)), label, tNil, kdfSize(m.cs))
}

func (m *mp) ratchetLabel(ct *Term) string {
	switch {
	case m.st.holds(mkEq(ct, mkInt(1))):
		return "application"
	case m.st.refuted(mkEq(ct, mkInt(1))), m.st.holds(mkEq(ct, mkInt(2))), m.st.holds(mkEq(ct, mkInt(3))):
		return "handshake"
	}
	return "?"
}

// ratchetAt: (secret, gen) is the state of the leaf's ratchet for content
// type ct at the wanted generation.
func (m *mp) ratchetAt(secret, gen, leaf, ct, want *Term) string {
	label := m.ratchetLabel(ct)
	if label == "?" {
		return "content type not established when the ratchet is chosen"
	}
	root := m.ratchetRoot(leaf, label)
	if same(secret, root) {
		if !same(gen, mkInt(0)) || !same(want, mkInt(0)) {
			return "generation 0 key used for another generation"
		}
		return ""
	}
	l1, i1, n1 := lvOf(secret)
	if l1 == nil || !same(i1, root) {
		return "ratchet does not start at the " + label + " ratchet of the sender's leaf"
	}
	l2, i2, n2 := lvOf(gen)
	if l2 == nil && len(n1) > 0 { // constant generation
		return "generation is not advanced with the ratchet"
	}
	if l2 != l1 || i2 != mkInt(0) || len(n1) != len(n2) || len(n1) == 0 {
		return "ratchet secret and generation do not advance together"
	}
	for k := range n1 {
		s, ctx := isExpand(n1[k], m.cs, "secret", kdfSize(m.cs))
		if s == nil || !same(s, secret) || !same(ctx, encoded(iInt("u32", gen))) || n2[k] != mkBin("+", gen, mkInt(1)) {
			return "ratchet step is not ExpandWithLabel(secret, \"secret\", generation)"
		}
	}
	if !loopEq(m.st, gen, want) {
		return "ratchet not advanced to the generation in the sender data"
	}
	return ""
}

// contentKeys: key and nonce protect content of type ct from leaf at
// generation gen with the reuse guard mixed in.
func (m *mp) contentKeys(key, nonce, leaf, ct, gen, guard *Term) string {
	ks, kctx := isExpand(key, m.cs, "key", aeadSize(m.cs, "KeySize"))
	if ks == nil {
		return "content key is not derived with label \"key\""
	}
	g := genOf(kctx)
	if g == nil {
		return "content key context is not the generation"
	}
	if s := m.ratchetAt(ks, g, leaf, ct, gen); s != "" {
		return s
	}
	base := expandL(m.cs, ks, "nonce", encoded(iInt("u32", g)), aeadSize(m.cs, "NonceSize"))
	if !m.guarded(nonce, base, guard) {
		return "content nonce is not the ratchet nonce with all four bytes of the reuse guard mixed in"
	}
	return ""
}

// genOf matches the encoding of a 32-bit number.
func genOf(t *Term) *Term {
	t = norm(t)
	if t.Op == "built" && t.Args[0].Op == "cat" && t.Args[0].Args[0] == bEmpty {
		if it := t.Args[0].Args[1]; it.Op == "int" && it.Aux == "u32" {
			return it.Args[0]
		}
	}
	if t.Op == "list" && len(t.Args) == 4 {
		var g int64
		for _, x := range t.Args {
			v, ok := x.intVal()
			if !ok {
				return nil
			}
			g = g<<8 | v
		}
		return mkInt(g)
	}
	return nil
}

// guarded: nonce is base with guard[i] XORed into byte i for i in 0..3.
func (m *mp) guarded(nonce, base, guard *Term) bool {
	nonce, base, guard = strip(nonce), strip(base), strip(guard)
	xored := func(v, old, i *Term) bool {
		g := mkSel(guard, i)
		return v.Op == "bin" && v.Aux == "^" && (v.Args[0] == old && same(v.Args[1], g) || v.Args[1] == old && same(v.Args[0], g))
	}
	if li, init, next := lvOf(nonce); li != nil {
		if !same(init, base) || len(next) == 0 {
			return false
		}
		for _, n := range next {
			if n.Op != "upd" || n.Args[0] != nonce {
				return false
			}
			i := n.Args[1]
			if l2, ok := counter(i); !ok || l2 != li || !xored(n.Args[2], mkSel(nonce, i), i) {
				return false
			}
			if m.st.truth(mkLt(i, mkInt(4), false)) != 0 && !m.st.holds(mkEq(i, mkInt(4))) {
				return false
			}
			// no more than four
			if !boundedBy(li, i, mkInt(4)) {
				return false
			}
		}
		return true
	}
	done := map[int64]bool{}
	t := nonce
	for t.Op == "upd" {
		i, ok := t.Args[1].intVal()
		if !ok || i < 0 || i > 3 || done[i] || !xored(t.Args[2], mkSel(base, t.Args[1]), t.Args[1]) {
			return false
		}
		done[i] = true
		t = strip(t.Args[0])
	}
	if len(done) == 4 && same(t, base) {
		return true
	}
	if nonce.Op == "out" && nonce.Args[0].Op == "call" && nonce.Args[0].Aux == "crypto/subtle.XORBytes" {
		a := nonce.Args[0].Args
		first4 := func(t *Term) bool {
			t = strip(t)
			return same(t, base) || t.Op == "slice" && same(t.Args[0], base) && t.Args[1] == mkInt(0) && t.Args[2] == mkInt(4)
		}
		whole := func(t *Term) bool { t = strip(t); return same(t, guard) }
		return first4(a[0]) && (first4(a[1]) && whole(a[2]) || first4(a[2]) && whole(a[1]))
	}
	return false
}

// boundedBy: in every iteration of the loop, i < n.
func boundedBy(li *LoopInfo, i, n *Term) bool {
	for _, b := range li.back {
		if b.truth(mkLt(i, n, false)) != 1 {
			return false
		}
	}
	return true
}

// deepAny is Term.any following loop-variant values to what they start from
// and become.
func deepAny(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		if t.Op == "lv" {
			if init, next, ok := lvParts(t); ok {
				if walk(init) {
					return true
				}
				for _, n := range next {
					if walk(n) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(t)
}
