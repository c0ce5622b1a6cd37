package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// prims are the functions that group-level analyses treat as uninterpreted;
// each of them is checked in its own right by another rule. Their names are
// fixed by the existing tests.
var prims = setOf("CipherSuite.expandWithLabel", "CipherSuite.verifyWithLabel", "CipherSuite.signWithLabel",
	"CipherSuite.decryptWithLabel", "CipherSuite.encryptWithLabel", "CipherSuite.refHash", "CipherSuite.hpke", "CipherSuite.hash",
	"deriveSecretTree",
	"ratchetTree.computeTreeHash", "ratchetTree.resolve", "ratchetTree.verifyParentHashes", "ratchetTree.supportedCreds",
	"ratchetTree.keys", "ratchetTree.add", "ratchetTree.update", "ratchetTree.remove", "ratchetTree.mergeUpdatePath",
	"ratchetTree.numLeaves", "numLeaves.parent", "numLeaves.sibling", "numLeaves.root",
	"leafNode.verify", "KeyPackage.verify", "nodeIndex.left", "nodeIndex.right")

func setOf(l ...string) map[string]bool {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m
}

// lca is the lowest-common-ancestor function (checked by C26).
func (p *Program) lca() *ssa.Function {
	return p.role("commonAncestor", "func(x nodeIndex, y nodeIndex) nodeIndex")
}

// groupOpaque: primitives and wire codecs are opaque; more and less adjust.
func (c *Ctx) groupOpaque(more, less map[string]bool) func(*ssa.Function) bool {
	codec := c.codecOpaque()
	lca := c.p.lca()
	return func(f *ssa.Function) bool {
		n := fnName(f)
		if less[n] {
			return false
		}
		return more[n] || prims[n] || codec(f) || f == lca
	}
}

// ---- expected terms -------------------------------------------------------

func tCall(name string, args ...*Term) *Term { return mk("call", name, args...) }

func tSym(n string) *Term { return mk("sym", n) }

// tPath is the value of a field path of a pointer parameter.
func tPath(v *Term, path string) *Term {
	for _, f := range strings.Split(path, ".") {
		v = mkField(v, f)
	}
	return v
}

func hpkeParam(cs *Term, i int) *Term {
	return mkExt(tCall("hpke.Suite.Params", tCall("CipherSuite.hpke", cs)), i)
}

func kdfSize(cs *Term) *Term { return tCall("hpke.KDF.ExtractSize", hpkeParam(cs, 1)) }

func u16(t *Term) *Term { return mk("conv", "uint16", t) }

// expandL is the result of ExpandWithLabel.
func expandL(cs, secret *Term, label string, ctx, n *Term) *Term {
	return mkExt(tCall("CipherSuite.expandWithLabel", cs, secret, mkStr(label), ctx, u16(n)), 0)
}

// deriveS is DeriveSecret.
func deriveS(cs, secret *Term, label string) *Term {
	return expandL(cs, secret, label, tNil, kdfSize(cs))
}

func extractT(cs, salt, ikm *Term) *Term {
	return tCall("hpke.KDF.Extract", hpkeParam(cs, 1), ikm, salt)
}

// encoded is the byte string consisting of the given items.
func encoded(items ...*Term) *Term {
	b := bEmpty
	for _, it := range items {
		b = mkCat(b, it)
	}
	return mkBuilt(b)
}

func iInt(kind string, v *Term) *Term { return mk("int", kind, v) }
func iEnc(T string, v *Term, extra ...*Term) *Term {
	return mk("enc", T, append([]*Term{v}, extra...)...)
}
func iOpaque(v *Term) *Term { return mk("opaque", "", v) }
func iBytes(v *Term) *Term  { return mk("bytes", "", v) }

// tbsItems are the items of FramedContentTBS for a member's message.
func tbsItems(wf, content, ctx *Term) []*Term {
	return []*Term{iInt("u16", mkInt(1)), iEnc("wireFormat", wf), iEnc("framedContent", content), iEnc("groupContext", ctx)}
}

// macOf is the MAC of data under key.
func macOf(cs, key, data *Term) *Term {
	return mk("sum", "", mkCat(mk("macinit", "", mk("closure", "crypto.New$bound", tCall("CipherSuite.hash", cs)), key), iBytes(data)))
}

// ---- comparing ------------------------------------------------------------

// norm rewrites a term to a form in which equal values written differently
// compare equal: snapshot wrappers are dropped and empty byte strings unified.
func norm(t *Term) *Term { return normM(t, map[*Term]*Term{}) }

func normM(t *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = t
	s := strip(t)
	if s.Op == "const" && s.Aux == `""` || s.Op == "list" && len(s.Args) == 0 || s.Op == "zeros" && s.Args[0] == mkInt(0) {
		s = tNil
	}
	if len(s.Args) > 0 {
		args := make([]*Term, len(s.Args))
		ch := false
		for i, a := range s.Args {
			args[i] = normM(a, memo)
			ch = ch || args[i] != a
		}
		if ch {
			if s.Op == "beq" {
				s = mkBytesEq(s.Aux, args[0], args[1])
			} else {
				s = rebuild(s, args)
			}
		}
	}
	if s.Op == "upd" {
		if l := asList(s); l != nil {
			s = l
		}
	}
	if b := bigEndian(s); b != nil {
		s = b
	}
	memo[t] = s
	return s
}

// bigEndian views integers encoded without a builder (encoding/binary, shifts)
// as the encoding a builder would produce.
func bigEndian(t *Term) *Term {
	enc := func(base *Term, kind string, v *Term) *Term {
		if base == nil {
			base = bEmpty
		}
		b := mkBuilt(mkCat(base, iInt(kind, v)))
		if l := bigEndian(b); l != nil {
			return l
		}
		return b
	}
	kinds := map[string]int64{"u16": 2, "u32": 4, "u64": 8}
	switch {
	case t.Op == "built" && t.Args[0].Op == "cat" && t.Args[0].Args[0] == bEmpty && t.Args[0].Args[1].Op == "int" && t.Args[0].Args[1].Args[0].isConst():
		// constants are written out
		it := t.Args[0].Args[1]
		if v, ok := it.Args[0].intVal(); ok && kinds[it.Aux] > 0 {
			var l []*Term
			for k := kinds[it.Aux] - 1; k >= 0; k-- {
				l = append(l, mkInt(v>>(8*k)&0xff))
			}
			return mk("list", "", l...)
		}
	case t.Op == "call" && strings.HasPrefix(t.Aux, "binary.bigEndian.AppendUint") && len(t.Args) == 3:
		kind := "u" + strings.TrimPrefix(t.Aux, "binary.bigEndian.AppendUint")
		switch b := t.Args[1]; {
		case b == tNil:
			return enc(nil, kind, t.Args[2])
		case b.Op == "built":
			return enc(b.Args[0], kind, t.Args[2])
		}
	case t.Op == "out" && t.Aux == "1" && t.Args[0].Op == "call" && strings.HasPrefix(t.Args[0].Aux, "binary.bigEndian.PutUint") && len(t.Args[0].Args) == 3:
		a := t.Args[0].Args
		kind := "u" + strings.TrimPrefix(t.Args[0].Aux, "binary.bigEndian.PutUint")
		if n, ok := mkLen(a[1]).intVal(); ok && n == kinds[kind] {
			return enc(nil, kind, a[2])
		}
	case t.Op == "list" && (len(t.Args) == 2 || len(t.Args) == 4 || len(t.Args) == 8):
		last := t.Args[len(t.Args)-1]
		if last.Op != "conv" || last.Aux != "uint8" {
			return nil
		}
		v := last.Args[0]
		for i, x := range t.Args[:len(t.Args)-1] {
			if k := 8 * (len(t.Args) - 1 - i); k > 32 || x != mk("conv", "uint8", mkBin("/", v, mkInt(1<<k))) {
				return nil
			}
		}
		return enc(nil, map[int]string{2: "u16", 4: "u32", 8: "u64"}[len(t.Args)], v)
	}
	return nil
}

// asList views an array whose every element was set as the list of them.
func asList(t *Term) *Term {
	set := map[int64]*Term{}
	for t.Op == "upd" {
		i, ok := t.Args[1].intVal()
		if !ok {
			return nil
		}
		if set[i] == nil {
			set[i] = t.Args[2]
		}
		t = t.Args[0]
	}
	var n int64
	if t.Op != "zero" || t.Typ == nil {
		return nil
	}
	if a, ok := t.Typ.Underlying().(*types.Array); ok {
		n = a.Len()
	}
	if n == 0 || n > 64 || int64(len(set)) != n {
		return nil
	}
	args := make([]*Term, n)
	for i := range args {
		if args[i] = set[int64(i)]; args[i] == nil {
			return nil
		}
	}
	return mk("list", "", args...)
}

// same compares two terms modulo norm.
func same(a, b *Term) bool { return a == b || norm(a) == norm(b) }

// holds: the state's facts establish the atom (polarity true).
func (s *State) holds(atom *Term) bool {
	if s.truth(atom) == 1 {
		return true
	}
	n := norm(atom)
	for f, v := range s.facts {
		if v && (f == n || f.Op == n.Op && norm(f) == n) {
			return true
		}
	}
	return false
}

// refuted: the facts establish the negation of the atom.
func (s *State) refuted(atom *Term) bool {
	if s.truth(atom) == 0 {
		return true
	}
	n := norm(atom)
	for f, v := range s.facts {
		if !v && (f == n || f.Op == n.Op && norm(f) == n) {
			return true
		}
	}
	return false
}

// holdsBytesEq: equality of two byte strings, by any complete comparison.
func (s *State) holdsBytesEq(a, b *Term, how ...string) bool {
	a, b = norm(a), norm(b)
	if a == b {
		return true
	}
	for f, v := range s.facts {
		if !v || f.Op != "beq" && f.Op != "eq" {
			continue
		}
		if f.Op == "beq" && len(how) > 0 && !setOf(how...)[f.Aux] {
			continue
		}
		if f.Op == "eq" && len(how) > 0 {
			continue
		}
		x, y := norm(f.Args[0]), norm(f.Args[1])
		if x == a && y == b || x == b && y == a {
			return true
		}
	}
	return false
}

// addrRoot is what an address is based on.
func addrRoot(a *Term) *Term {
	for {
		switch a.Op {
		case "fa", "ia", "iap", "deref", "field", "sel", "slice", "arr", "mapelem", "view", "mapget", "append", "ref", "slc":
			a = a.Args[0]
		default:
			return a
		}
	}
}
