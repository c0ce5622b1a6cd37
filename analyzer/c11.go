package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Derivation of secrets.

// derives: on every successful path of a function its first result is the
// term want builds from the arguments.
func (c *Ctx) derives(name string, opq func(*ssa.Function) bool, want func(a []*Term) *Term) {
	c.derivesIf(name, opq, func(st *State, r *Term, a []*Term) string {
		if sameIn(st, r, want(a)) {
			return ""
		}
		return fmt.Sprintf("yields %v, not %v", r, want(a))
	})
}

func (c *Ctx) derivesIf(name string, opq func(*ssa.Function) bool, ok func(st *State, r *Term, a []*Term) string) {
	c.guard(name, func() {
		fn := c.fn(name)
		e := c.engine(func(f *ssa.Function) bool { return f != fn && opq(f) })
		a := SymArgs(fn)
		n := 0
		for _, o := range successes(c.run(e, fn, nil, a)) {
			n++
			why := ok(o.st, e.snap(o.st, o.res[0], nil), a)
			c.oblige(why == "", "derivation", name, c.pos(o.pos), "%s", why)
			c.count("derivation_paths", 1)
		}
		c.oblige(n > 0, "derivation possible", name, c.pos(fn.Pos()), "no path can succeed")
	})
}

// keySchedule checks the derivation functions.
func (c *Ctx) keySchedule() {
	opq := c.groupOpaque(nil, nil)
	c.derives("CipherSuite.deriveSecret", opq, func(a []*Term) *Term {
		return mkExt(tCall("CipherSuite.expandWithLabel", a[0], a[1], a[2], tNil, u16(kdfSize(a[0]))), 0)
	})
	c.derives("groupContext.extractJoinerSecret", opq, func(a []*Term) *Term {
		ctx := mk("deref", "", a[0])
		cs := mkField(ctx, "cipherSuite")
		return expandL(cs, extractT(cs, a[1], a[2]), "joiner", encoded(iEnc("groupContext", ctx)), kdfSize(cs))
	})
	psk := func(st *State, t, cs *Term) *Term {
		if st.holds(mkEq(t, tNil)) {
			return mkZerosN(kdfSize(cs))
		}
		return t
	}
	c.derivesIf("groupContext.extractEpochSecret", opq, func(st *State, r *Term, a []*Term) string {
		ctx := mk("deref", "", a[0])
		cs := mkField(ctx, "cipherSuite")
		if !same(r, expandL(cs, extractT(cs, a[1], psk(st, a[2], cs)), "epoch", encoded(iEnc("groupContext", ctx)), kdfSize(cs))) {
			return fmt.Sprintf("yields %v", r)
		}
		return ""
	})
	c.derivesIf("extractWelcomeSecret", opq, func(st *State, r *Term, a []*Term) string {
		if !same(r, deriveS(a[0], extractT(a[0], a[1], psk(st, a[2], a[0])), "welcome")) {
			return fmt.Sprintf("yields %v", r)
		}
		return ""
	})
	c.derives("deriveExporter", opq, func(a []*Term) *Term {
		d := mkExt(tCall("CipherSuite.expandWithLabel", a[0], a[1], a[2], tNil, u16(kdfSize(a[0]))), 0)
		return mkExt(tCall("CipherSuite.expandWithLabel", a[0], d, mkStr("exported"), hashOf(a[0], iBytes(a[3])), a[4]), 0)
	})
	c.derivesIf("extractPSKSecret", opq, pskChain)
	for i, l := range []string{"key", "nonce"} {
		size := []string{"KeySize", "NonceSize"}[i]
		c.derivesIf([]string{"expandSenderDataKey", "expandSenderDataNonce"}[i], opq, func(st *State, r *Term, a []*Term) string {
			s, ctx := isExpand(r, a[0], l, aeadSize(a[0], size))
			m := &mp{c: c, st: st, cs: a[0]}
			if s == nil || !same(s, a[1]) || !m.sample(ctx, a[2]) {
				return fmt.Sprintf("yields %v", r)
			}
			return ""
		})
	}
	// nodes
	c.derivesIf("nodePrivFromPathSecret", opq, func(st *State, r *Term, a []*Term) string { return nodeKeyOf(r, a[0], a[1]) })
	// ratchets
	c.derives("deriveTreeSecret", opq, func(a []*Term) *Term {
		return mkExt(tCall("CipherSuite.expandWithLabel", a[0], a[1], a[2], encoded(iInt("u32", a[3])), a[4]), 0)
	})
	step := func(label string, n func(cs *Term) *Term) func(a []*Term) *Term {
		return func(a []*Term) *Term {
			return expandL(a[1], mkField(a[0], "secret"), label, encoded(iInt("u32", mkField(a[0], "generation"))), n(a[1]))
		}
	}
	c.derives("ratchetSecret.deriveKey", opq, step("key", func(cs *Term) *Term { return aeadSize(cs, "KeySize") }))
	c.derives("ratchetSecret.deriveNonce", opq, step("nonce", func(cs *Term) *Term { return aeadSize(cs, "NonceSize") }))
	next := step("secret", kdfSize)
	c.derivesIf("ratchetSecret.deriveNext", opq, func(st *State, r *Term, a []*Term) string {
		if !same(mkField(r, "secret"), next(a)) || !same(mkField(r, "generation"), mkBin("+", mkField(a[0], "generation"), mkInt(1))) {
			return fmt.Sprintf("yields %v", r)
		}
		return ""
	})
	c.derivesIf("secretTree.deriveRatchetRoot", opq, func(st *State, r *Term, a []*Term) string {
		want := mkExt(tCall("CipherSuite.expandWithLabel", a[1], mkSel(a[0], a[2]), a[3], tNil, u16(kdfSize(a[1]))), 0)
		if !same(mkField(r, "secret"), want) || mkField(r, "generation") != mkInt(0) {
			return fmt.Sprintf("yields %v", r)
		}
		return ""
	})
	c.guard("deriveSecretTree", c.secretTreeRule)
	c.guard("ratchet labels", func() {
		fn := c.fn("ratchetLabelFromContentType")
		for ct, want := range map[int64]string{1: "application", 2: "handshake", 3: "handshake"} {
			for _, o := range c.run(c.engine(nil), fn, nil, []*Term{mkInt(ct)}) {
				c.oblige(norm(o.res[0]) == mkStr(want), "ratchet of the content type", "ratchetLabelFromContentType", c.pos(o.pos), "content type %d uses %v", ct, o.res[0])
			}
		}
	})
}

// pskChain: r is the PSK secret of all PSKs in order.
func pskChain(st *State, r *Term, a []*Term) string {
	cs, ids, psks := a[0], a[1], a[2]
	zeros := mkZerosN(kdfSize(cs))
	if st.holds(mkEq(mkLen(ids), mkInt(0))) && same(r, zeros) {
		return ""
	}
	li, init, next := lvOf(r)
	if li == nil {
		if same(r, zeros) {
			return "the PSKs are ignored"
		}
		return fmt.Sprintf("yields %v", r)
	}
	if i := strip(init); i.Op == "mk" || i.Op == "alloc" {
		init = through(li.entry, i)
	}
	if !same(init, zeros) || len(next) == 0 {
		return fmt.Sprintf("the chain starts with %v", init)
	}
	if !st.holds(mkEq(mkLen(ids), mkLen(psks))) {
		return "the numbers of PSKs and identifiers are not compared"
	}
	for _, n := range next {
		x := isExtract(n, cs)
		if x == nil || !same(x[0], r) {
			return fmt.Sprintf("a step is %v", n)
		}
		s, ctx := isExpand(x[1], cs, "derived psk", kdfSize(cs))
		if s == nil {
			return fmt.Sprintf("the input of a step is %v", x[1])
		}
		b, items := catItems(strip(ctx).Args[0])
		if strip(ctx).Op != "built" || b != bEmpty || len(items) != 3 || items[0].Op != "enc" || items[0].Aux != "preSharedKeyID" || items[1].Op != "int" || items[1].Aux != "u16" {
			return fmt.Sprintf("the context of a step is %v", ctx)
		}
		i := items[1].Args[0]
		if i.Op == "conv" {
			i = i.Args[0]
		}
		if l2, ok := counter(i); !ok || l2 != li {
			return fmt.Sprintf("the index in the PSK label is %v", i)
		}
		cnt := items[2]
		if cnt.Op != "int" || cnt.Aux != "u16" || !(same(cnt.Args[0], mkLen(ids)) || same(cnt.Args[0], mkLen(psks)) || same(cnt.Args[0], u16(mkLen(ids))) || same(cnt.Args[0], u16(mkLen(psks)))) {
			return fmt.Sprintf("the count in the PSK label is %v", cnt)
		}
		if !same(items[0].Args[0], mkSel(ids, i)) {
			return fmt.Sprintf("the identifier in the PSK label is %v", items[0].Args[0])
		}
		y := isExtract(s, cs)
		if y == nil || !same(y[0], mkSel(psks, i)) || !same(y[1], zeros) {
			return fmt.Sprintf("a PSK is extracted as %v", s)
		}
		if !loopEq(st, i, mkLen(ids)) && !loopEq(st, i, mkLen(psks)) {
			return "not all PSKs are used"
		}
	}
	return ""
}

// nodeKeyOf: r is the private key of the node key pair of a path secret.
func nodeKeyOf(r, cs, path *Term) string {
	node := deriveS(cs, path, "node")
	ok := false
	r.any(func(t *Term) bool {
		if t.Op == "ext" && t.Aux == "1" && isCall(t.Args[0], "kem.Scheme.DeriveKeyPair") {
			k := t.Args[0]
			ok = same(k.Args[0], tCall("hpke.KEM.Scheme", hpkeParam(cs, 0))) && same(k.Args[1], node)
		}
		return ok
	})
	if !ok {
		return fmt.Sprintf("the node's private key is %v, not derived from the node secret", r)
	}
	return ""
}

// secretTreeRule: the secret tree has the encryption secret at the root, and
// each child's secret is derived from its parent's.
func (c *Ctx) secretTreeRule() {
	fn := c.fn("deriveSecretTree")
	var rec *ssa.Function
	seen := map[*ssa.Function]bool{}
	var find func(f *ssa.Function)
	find = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for g := range c.p.calleesOf(f) {
			if g == f {
				rec = f
			}
			find(g)
		}
	}
	find(fn)
	if !c.oblige(rec != nil, "secret tree derived recursively", "deriveSecretTree", c.pos(fn.Pos()), "no recursive derivation found") {
		return
	}
	opq := c.groupOpaque(nil, nil)
	ti, ci, xi := -1, -1, -1
	for i, p := range rec.Params {
		switch {
		case isSuite(p.Type()):
			ci = i
		case namedType(p.Type(), "nodeIndex"):
			xi = i
		case namedType(p.Type(), "secretTree"):
			ti = i
		}
	}
	if !c.oblige(ti >= 0 && ci >= 0 && xi >= 0, "secret tree derived recursively", fnName(rec), c.pos(rec.Pos()), "parameters not recognised") {
		return
	}
	// the start
	if rec != fn {
		a := SymArgs(fn)
		e := c.engine(func(f *ssa.Function) bool { return f == rec || f != fn && opq(f) })
		for _, o := range successes(c.run(e, fn, nil, a)) {
			st := o.st
			c.count("derivation_paths", 1)
			ok := false
			root := tCall("numLeaves.root", a[1])
			for f, v := range st.facts {
				if !v || f.Op != "eq" {
					continue
				}
				for _, t := range f.Args {
					for t.Op == "ext" {
						t = t.Args[0]
					}
					if t.Op != "call" || t.Obj != rec && t.Aux != fnName(rec) {
						continue
					}
					ok = ok || same(t.Args[ci], a[0]) && same(t.Args[xi], root) && same(treeAt(strip(t.Args[ti]), root, nil, rec), a[2])
				}
			}
			c.oblige(ok, "secret tree starts with the encryption secret at the root", "deriveSecretTree", c.pos(o.pos), "success without deriving below a root holding the encryption secret: %v", factList(st, 6))
		}
	}
	// one step
	a := SymArgs(rec)
	tree, cs, x := a[ti], a[ci], a[xi]
	child := func(side string) *Term { return mkExt(tCall("nodeIndex."+side, x), 0) }
	secret := func(side string) *Term {
		return expandL(cs, mkSel(tree, x), "tree", mkStr(side), kdfSize(cs))
	}
	sides := []string{"left", "right"}
	e := c.engine(func(f *ssa.Function) bool { return f != rec && opq(f) })
	e.hooks.onCall = func(e *Engine, st *State, name string, args []*Term, in ssa.CallInstruction, f *ssa.Function) {
		if f != rec {
			return
		}
		if odd(st, x) && (st.refuted(mkExt(tCall("nodeIndex.left", x), 1)) || st.refuted(mkExt(tCall("nodeIndex.right", x), 1))) {
			return // impossible: parents have children
		}
		c.count("derivation_paths", 1)
		for i, s := range sides {
			if !same(args[xi], child(s)) {
				continue
			}
			at := treeAt(strip(e.snap(st, args[ti], nil)), child(s), child(sides[1-i]), rec)
			c.oblige(same(args[ci], cs) && same(at, secret(s)), "child secret", fnName(rec)+" "+s, c.pos(in.Pos()), "the secret of the %s child is %v", s, at)
			return
		}
		c.violate("child secret", fnName(rec), c.pos(in.Pos()), "derivation continues at %v", args[xi])
	}
	for _, o := range successes(c.run(e, rec, nil, a)) {
		st := o.st
		if st.refuted(mkExt(tCall("nodeIndex.left", x), 1)) || st.refuted(mkExt(tCall("nodeIndex.right", x), 1)) || st.holds(mkEq(mkBin("%", x, mkInt(2)), mkInt(0))) || st.holds(mkEq(mkBin("&", x, mkInt(1)), mkInt(0))) {
			continue // a leaf
		}
		for _, s := range sides {
			ok := false
			for f, v := range st.facts {
				if !v || f.Op != "eq" || f.Args[0] != tNil && f.Args[1] != tNil {
					continue
				}
				for _, t := range f.Args {
					for t.Op == "ext" {
						t = t.Args[0]
					}
					ok = ok || t.Op == "call" && (t.Obj == rec || t.Aux == fnName(rec)) && same(t.Args[xi], child(s))
				}
			}
			c.oblige(ok, "both subtrees derived", fnName(rec)+" "+s, c.pos(o.pos), "success without deriving the %s subtree", s)
		}
	}
}

// odd: x is the index of a parent node.
func odd(st *State, x *Term) bool {
	return st.refuted(mkEq(mkBin("%", x, mkInt(2)), mkInt(0))) || st.refuted(mkEq(mkBin("&", x, mkInt(1)), mkInt(0))) || st.holds(mkEq(mkBin("%", x, mkInt(2)), mkInt(1))) || st.holds(mkEq(mkBin("&", x, mkInt(1)), mkInt(1)))
}

// treeAt is what a tree holds at position i; writes at other and in the
// subtrees handled by rec are ignored.
func treeAt(t, i, other *Term, rec *ssa.Function) *Term {
	for {
		t = strip(t)
		switch {
		case t.Op == "upd" && same(t.Args[1], i):
			return t.Args[2]
		case t.Op == "upd" && other != nil && same(t.Args[1], other):
			t = t.Args[0]
		case t.Op == "out" && t.Args[0].Op == "call" && t.Args[0].Aux == fnName(rec):
			for k, p := range rec.Params {
				if namedType(p.Type(), "secretTree") {
					t = t.Args[0].Args[k]
				}
			}
		default:
			return mkSel(t, i)
		}
	}
}

func namedType(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name
}

// createdRule: the secrets of a new group.
func (c *Ctx) createdRule() {
	c.createdSecret()
	fn := c.fn("CreateGroup")
	e := c.engine(c.groupOpaque(nil, nil))
	for _, o := range successes(c.run(e, fn, nil, SymArgs(fn))) {
		g := derefSnap(e.snap(o.st, o.res[0], nil))
		cs := pv(g, "groupContext.cipherSuite")
		c.groupSecretsOf(o, "CreateGroup", g, mkField(g, "epochSecret"), cs, macOf(cs, deriveS(cs, mkField(g, "epochSecret"), "confirm"), pv(g, "groupContext.confirmedTranscriptHash")))
		cth := norm(pv(g, "groupContext.confirmedTranscriptHash"))
		c.oblige(cth == tNil || emptySlice(o.st, cth), "initial transcript empty", "CreateGroup", c.pos(o.pos), "initial confirmed transcript hash is %v", cth)
		c.oblige(same(mkField(g, "pskSecret"), mkZerosN(kdfSize(cs))) || norm(mkField(g, "pskSecret")) == tNil, "no PSK", "CreateGroup", c.pos(o.pos), "PSK secret is %v", mkField(g, "pskSecret"))
	}
}

// groupSecretsOf: a group's other secrets belong to its epoch secret and tag.
func (c *Ctx) groupSecretsOf(o Outcome, where string, g, es, cs, tag *Term) {
	pos := c.pos(o.pos)
	c.count("epochs", 1)
	c.oblige(sameIn(o.st, mkField(g, "initSecret"), deriveS(cs, es, "init")), "init secret", where, pos, "init secret is %v", mkField(g, "initSecret"))
	c.oblige(sameIn(o.st, mkField(g, "interimTranscriptHash"), interimHash(cs, pv(g, "groupContext.confirmedTranscriptHash"), tag)), "interim transcript hash", where, pos, "interim transcript hash is %v", mkField(g, "interimTranscriptHash"))
}

// joinedRule: the secrets of a joined group.
func (c *Ctx) joinedRule() {
	j := c.joinRun()
	for _, o := range successes(j.outs) {
		st := o.st
		g := derefSnap(j.e.snap(st, o.res[0], nil))
		info := j.infoOf(st, g)
		pos := c.pos(o.pos)
		why := "the group's context is not from a group info"
		for _, cs := range j.suites(st, info) {
			ep, w := epochOf(mkField(g, "epochSecret"), cs)
			if ep == nil {
				why = w
				continue
			}
			wcs := mkField(j.welcome, "cipherSuite")
			psk := tCall("extractPSKSecret", wcs, mkField(j.secrets, "psks"), j.opt(st, "psks"))
			why = ""
			switch {
			case !same(ep.ctx, mkField(info, "groupContext")):
				why = "epoch secret of another context"
			case !same(ep.joiner, mkField(j.secrets, "joinerSecret")):
				why = "epoch secret of another joiner secret"
			case !pskIs(st, ep.psk, psk, cs) && !pskIs(st, ep.psk, psk, wcs):
				why = "epoch secret of other PSKs"
			}
			ok := false
			for _, k := range j.suites(st, info) {
				for _, k2 := range j.suites(st, info) {
					ok = ok || same(mkField(g, "initSecret"), deriveS(k, mkField(g, "epochSecret"), "init")) &&
						same(mkField(g, "interimTranscriptHash"), interimHash(k2, pv(info, "groupContext.confirmedTranscriptHash"), mkField(info, "confirmationTag")))
				}
			}
			if why == "" && !ok {
				why = fmt.Sprintf("init secret is %v, interim transcript hash %v", mkField(g, "initSecret"), mkField(g, "interimTranscriptHash"))
			}
			break
		}
		c.count("epochs", 1)
		c.oblige(why == "", "secrets of the joined epoch", "groupFromSecrets", pos, "%s", why)
	}
}

// derivation: what RFC 9420 allows to derive with a label.
type derivation struct {
	ctx    string // "", "context", "side", "generation", "sample", "psk", "hash"
	size   string // "Nh", "Nk", "Nn"
	parent string
}

var derivations = map[string][]derivation{
	"joiner":         {{"context", "Nh", "extract"}},
	"epoch":          {{"context", "Nh", "extract"}},
	"welcome":        {{"", "Nh", "extract"}},
	"derived psk":    {{"psk", "Nh", "extract"}},
	"init":           {{"", "Nh", "epoch"}},
	"sender data":    {{"", "Nh", "epoch"}},
	"encryption":     {{"", "Nh", "epoch"}},
	"exporter":       {{"", "Nh", "epoch"}},
	"external":       {{"", "Nh", "epoch"}},
	"confirm":        {{"", "Nh", "epoch"}},
	"membership":     {{"", "Nh", "epoch"}},
	"resumption":     {{"", "Nh", "epoch"}},
	"authentication": {{"", "Nh", "epoch"}},
	"application":    {{"", "Nh", "leaf"}},
	"handshake":      {{"", "Nh", "leaf"}},
	"secret":         {{"generation", "Nh", "ratchet"}},
	"key":            {{"generation", "Nk", "ratchet"}, {"sample", "Nk", "sender data"}, {"", "Nk", "welcome"}},
	"nonce":          {{"generation", "Nn", "ratchet"}, {"sample", "Nn", "sender data"}, {"", "Nn", "welcome"}},
	"node":           {{"", "Nh", "path"}},
	"path":           {{"", "Nh", "path"}},
}

// parents classifies the secret something is derived from: the possible
// origins.
func parents(t *Term, seen map[*Term]bool) map[string]bool {
	r := map[string]bool{}
	t = strip(t)
	if seen[t] {
		return r
	}
	seen[t] = true
	switch {
	case t.Op == "field" && t.Aux == "epochSecret", t.Op == "random":
		r["epoch"] = true
	case t.Op == "field" && t.Aux == "pathSecret":
		r["path"] = true
	case isCall(t, "hpke.KDF.Extract"):
		r["extract"] = true
	case t.Op == "sel" && strip(t.Args[0]).Op == "ext" && isCall(strip(t.Args[0]).Args[0], "deriveSecretTree"):
		r["leaf"] = true
	case t.Op == "ext" && t.Aux == "0" && isCall(t.Args[0], "CipherSuite.decryptWithLabel"):
		r["path"] = true
	case t.Op == "ext" && t.Aux == "0" && isCall(t.Args[0], "CipherSuite.expandWithLabel"):
		switch l := strVal(norm(t.Args[0].Args[2])); l {
		case "application", "handshake", "secret":
			r["ratchet"] = true
		default:
			r[l] = true
		}
	default:
		if li, init, next := lvOf(t); li != nil {
			for _, n := range append(next, init) {
				for k := range parents(n, seen) {
					r[k] = true
				}
			}
			return r
		}
		r["?"] = true
	}
	return r
}

func strVal(t *Term) string {
	s, ok := t.strVal()
	if !ok {
		return "?"
	}
	return s
}

// derivationOK: a derivation is in the table.
func derivationOK(cs, secret, label, ctx, n *Term) string {
	l, ok := norm(label).strVal()
	if !ok {
		return fmt.Sprintf("derives with the variable label %v", label)
	}
	rows, ok := derivations[l]
	if !ok {
		return fmt.Sprintf("derives with the unknown label %q", l)
	}
	ps := parents(secret, map[*Term]bool{})
	sizes := map[string]*Term{"Nh": kdfSize(cs), "Nk": aeadSize(cs, "KeySize"), "Nn": aeadSize(cs, "NonceSize")}
	why := ""
	for _, d := range rows {
		if len(ps) != 1 || !ps[d.parent] {
			why = fmt.Sprintf("%q is derived from %v", l, secret)
			continue
		}
		if !same(n, u16(sizes[d.size])) {
			return fmt.Sprintf("%q is derived with length %v", l, n)
		}
		x := strip(ctx)
		okc := false
		switch d.ctx {
		case "":
			okc = norm(ctx) == tNil
		case "context":
			okc = builtFrom(x, "groupContext") != nil
		case "generation":
			okc = genOf(x) != nil
		case "psk":
			okc = x.Op == "built"
		case "sample":
			okc = norm(ctx) != tNil
		}
		if !okc {
			return fmt.Sprintf("%q is derived with context %v", l, ctx)
		}
		return ""
	}
	return why
}

// onlyDerivations: everything derived on paths of exported functions is a
// derivation of the table.
func (c *Ctx) onlyDerivations() {
	opq := c.groupOpaque(nil, nil)
	is := func(f *ssa.Function) bool { return fnName(f) == "CipherSuite.expandWithLabel" }
	for _, n := range sortedKeys(c.p.fns) {
		fn := c.p.fns[n]
		if !c.exported(fn) && n != "groupFromSecrets" || !c.p.reaches(fn, is) {
			continue
		}
		c.guard(n, func() {
			e := c.engine(opq)
			type use struct {
				args []*Term
				in   ssa.CallInstruction
			}
			var uses []use
			e.hooks.onCall = func(e *Engine, st *State, name string, a []*Term, in ssa.CallInstruction, f *ssa.Function) {
				if name != "CipherSuite.expandWithLabel" {
					return
				}
				v := make([]*Term, len(a))
				for i := range a {
					v[i] = e.snap(st, a[i], nil)
				}
				uses = append(uses, use{v, in})
			}
			c.run(e, fn, nil, SymArgs(fn))
			for _, u := range uses {
				why := derivationOK(u.args[0], u.args[1], u.args[2], u.args[3], u.args[4])
				c.count("derivations", 1)
				c.oblige(why == "", "known derivation", fnName(u.in.Parent())+" in "+n, c.pos(u.in.Pos()), "%s", why)
			}
		})
	}
}

func checkC11(c *Ctx) {
	c.guard("ExpandWithLabel", c.expandRule)
	c.keySchedule()
	c.guard("CreateGroup", c.createdRule)
	c.guard("groupFromSecrets", c.joinedRule)
	c.guard("derivations", c.onlyDerivations)
	c.guard("Group.processCommit", func() {
		r := c.commitRun()
		for _, o := range successes(r.outs) {
			ep, why := r.tagVerified(o.st)
			where, pos := "Group.processCommit", c.pos(o.pos)
			if !c.oblige(ep != nil, "secrets of the committed epoch", where, pos, "%s", why) {
				continue
			}
			r.newEpoch(o.st, ep, func(format string, args ...any) {
				c.violate("secrets of the committed epoch", where, pos, format, args...)
			})
			g := o.st.load(r.gp)
			c.oblige(same(mkField(g, "epochSecret"), ep.epochSecret), "secrets of the committed epoch", where, pos, "epoch secret is %v", mkField(g, "epochSecret"))
			c.groupSecretsOf(o, where, g, ep.epochSecret, r.cs, pv(r.auth, "auth.confirmationTag"))
		}
	})
	c.guard("Group.CreateWelcome", func() {
		r := c.sendRun("Group.CreateWelcome")
		for _, o := range successes(r.outs) {
			r.welcomeMade(o, SymArgs(r.fn)[1])
			r.sent(o, o.res[1], 3)
		}
	})
	c.guard("Group.CreateApplicationMessage", func() {
		r := c.sendRun("Group.CreateApplicationMessage")
		for _, o := range successes(r.outs) {
			r.sent(o, o.res[0], 1)
		}
	})
	c.guard("receiving", func() {
		rr := c.receive()
		for i := range rr.effs {
			ef := &rr.effs[i]
			if ef.st.refuted(mkEq(rr.wf(), mkInt(2))) || ef.st.holds(mkEq(rr.wf(), mkInt(1))) {
				continue
			}
			rr.checkPrivate(ef)
		}
	})
}
