package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- bytes of a known layout ------------------------------------------------

// laidOut: t is the encoding of value v with the given layout. It returns what
// is wrong, or "".
func (c *Ctx) laidOut(e *Engine, st *State, t *Term, layout []item, v *Term, vars map[string]*Term) string {
	t = strip(t)
	if t.Op != "built" {
		return fmt.Sprintf("the bytes are %v, not a complete encoding", t)
	}
	base, items := catItems(t.Args[0])
	if base != bEmpty {
		return fmt.Sprintf("the bytes continue %v", base)
	}
	why := ""
	m := &matcher{r: &codecRun{c: c, e: e}, covered: map[string]bool{}, vars: vars, problem: func(rule, construct, format string, args ...any) {
		if why == "" {
			why = construct + fmt.Sprintf(format, args...)
		}
	}}
	m.write(layout, items, st, v)
	c.count("layout_items", m.items)
	return why
}

// verified finds a successful signature verification over a laid out value.
func (c *Ctx) verified(e *Engine, st *State, cs, key *Term, label string, layout []item, v *Term, vars map[string]*Term, sig *Term) string {
	why := "no signature with label " + label + " was verified"
	for f, ok := range st.facts {
		if !ok || f.Op != "call" || f.Aux != "CipherSuite.verifyWithLabel" {
			continue
		}
		a := f.Args
		switch {
		case norm(a[2]) != mkStr(label):
		case !sameIn(st, a[0], cs):
			why = fmt.Sprintf("the signature is verified with cipher suite %v", a[0])
		case !same(a[1], key):
			why = fmt.Sprintf("the signature is verified under key %v", a[1])
		case !same(a[4], sig):
			why = fmt.Sprintf("the verified signature is %v", a[4])
		default:
			w := c.laidOut(e, st, a[3], layout, v, vars)
			if w == "" {
				return ""
			}
			why = "signed bytes: " + w
		}
	}
	return why
}

// leafTBS is LeafNodeTBS relative to a leaf node, with $gid and $index.
var leafTBS = cat(leafBase, []item{isw("leafNodeSource", map[int64][]item{
	1: {}, 2: {iop("$gid"), iu(32, "$index")}, 3: {iop("$gid"), iu(32, "$index")}})})

// keyPackageTBS is KeyPackageTBS; the version is whatever was compared.
var keyPackageTBS = []item{iu(16, "version"), iu(16, "cipherSuite"), iop("initKey"), ist("leafNode", "leafNode"), ivec("extensions", extVec...)}

// ---- membership -------------------------------------------------------------

// elemOf: st establishes that x is an element of seq.
func elemOf(st *State, x, seq *Term) bool {
	x, seq = norm(x), norm(seq)
	for f, v := range st.facts {
		if !v {
			continue
		}
		switch f.Op {
		case "eq":
			for k := 0; k < 2; k++ {
				if a := norm(f.Args[k]); norm(f.Args[1-k]) == x && a.Op == "sel" && a.Args[0] == seq {
					return true
				}
			}
		case "call":
			if strings.HasPrefix(f.Aux, "slices.Contains") && len(f.Args) == 2 && norm(f.Args[0]) == seq && norm(f.Args[1]) == x {
				return true
			}
		case "maphas", "mapget":
			if norm(f.Args[1]) == x && mapOf(f.Args[0], seq, f.Op == "mapget") {
				return true
			}
		case "lv": // a flag
			li, init, next := lvOf(f)
			if li == nil || init != tFalse || len(next) != len(li.back) {
				continue
			}
			ok := true
			for k, b := range li.back {
				if next[k] == f || next[k] == tFalse {
					continue
				}
				set := b.clone()
				ok = ok && set.assume(next[k], true) && elemOf(set, x, seq)
			}
			if ok {
				return true
			}
		}
	}
	// slices.Index(seq, x) >= 0
	for f, v := range st.facts {
		if f.Op == "lt" && !v && strings.HasPrefix(f.Args[0].Aux, "slices.Index") && f.Args[0].Op == "call" && norm(f.Args[1]) == mkInt(0) && norm(f.Args[0].Args[0]) == seq && norm(f.Args[0].Args[1]) == x {
			return true
		}
	}
	return false
}

// mapOf: every key of m is an element of seq.
func mapOf(m, seq *Term, values bool) bool {
	li, init, next := lvOf(strip(m))
	if li == nil || init.Op != "emptymap" {
		return false
	}
	m = strip(m)
	for _, n := range next {
		n = strip(n)
		for n != m {
			if n.Op != "mapset" {
				return false
			}
			k := norm(n.Args[1])
			if k.Op != "sel" || k.Args[0] != seq {
				if !values || n.Args[2] != tFalse {
					return false
				}
			}
			n = n.Args[0]
		}
	}
	return true
}

// ---- leaf node validation (RFC 9420 section 7.3) --------------------------------

const maxLifetime = 3 * 30 * 24 * 3600 * 1e9 // nanoseconds

// notAfterT: st establishes a <= b for two points in time.
func notAfterT(st *State, a, b *Term) bool {
	a, b = norm(a), norm(b)
	is := func(t *Term, name string, x, y *Term) bool {
		return t.Op == "call" && t.Aux == name && len(t.Args) == 2 && norm(t.Args[0]) == x && norm(t.Args[1]) == y
	}
	sec := func(t *Term) *Term { // seconds of a point in time
		if t.Op == "call" && t.Aux == "time.Unix" {
			return norm(t.Args[0])
		}
		return norm(tCall("time.Time.Unix", t))
	}
	for f, v := range st.facts {
		if v && (is(f, "time.Time.After", b, a) || is(f, "time.Time.Before", a, b) || is(f, "time.Time.Equal", a, b) || is(f, "time.Time.Equal", b, a)) {
			return true
		}
		if !v && (is(f, "time.Time.After", a, b) || is(f, "time.Time.Before", b, a)) {
			return true
		}
		if f.Op == "lt" {
			x, y := norm(f.Args[0]), norm(f.Args[1])
			if v && x == sec(a) && y == sec(b) || !v && x == sec(b) && y == sec(a) {
				return true
			}
			if !v && y == mkInt(0) && is(x, "time.Time.Sub", b, a) || v && x == mkInt(0) && is(y, "time.Time.Sub", b, a) {
				return true
			}
			if !v && y == mkInt(0) && is(x, "time.Time.Compare", b, a) || v && x == mkInt(0) && is(y, "time.Time.Compare", b, a) {
				return true
			}
			if v && y == mkInt(0) && is(x, "time.Time.Compare", a, b) || !v && x == mkInt(0) && is(y, "time.Time.Compare", a, b) {
				return true
			}
		}
	}
	return false
}

// atMostMax: st establishes na - nb <= the maximum lifetime.
func atMostMax(st *State, nb, na *Term) bool {
	d := norm(tCall("time.Time.Sub", na, nb))
	ds := norm(mkBin("-", na.Args[0], nb.Args[0]))
	for f, v := range st.facts {
		if f.Op != "lt" {
			continue
		}
		x, y := norm(f.Args[0]), norm(f.Args[1])
		for _, k := range []struct {
			t   *Term
			max int64
		}{{d, maxLifetime}, {ds, maxLifetime / 1e9}} {
			if n, ok := x.intVal(); ok && !v && y == k.t && n <= k.max {
				return true
			}
			if n, ok := y.intVal(); ok && v && x == k.t && n <= k.max+1 {
				return true
			}
		}
		// na.After(nb.Add(max)) refuted is seen as a call fact
	}
	for f, v := range st.facts {
		if v || f.Op != "call" || f.Aux != "time.Time.After" || norm(f.Args[0]) != norm(na) {
			continue
		}
		if a := norm(f.Args[1]); a.Op == "call" && a.Aux == "time.Time.Add" && a.Args[0] == norm(nb) {
			if n, ok := a.Args[1].intVal(); ok && n <= maxLifetime {
				return true
			}
		}
	}
	return false
}

// isClock: t is the current time according to now (nil means the system's).
func isClock(st *State, t, now *Term) bool {
	t = strip(t)
	if t.Op != "call" {
		return false
	}
	if strings.HasPrefix(t.Aux, "dyn@") && len(t.Args) == 1 && same(t.Args[0], now) {
		return true
	}
	return t.Aux == "time.Now" && st.truth(mkEq(now, tNil)) == 1
}

// lifetimeOK: the leaf has no lifetime, the clock is disabled, or the lifetime
// is in order and contains the current time.
func lifetimeOK(st *State, lt, now *Term) string {
	if st.holds(mkEq(lt, tNil)) {
		return ""
	}
	l := mk("deref", "", lt)
	at := func(f string) *Term { return tCall("time.Unix", mkField(l, f), mkInt(0)) }
	nb, na := at("notBefore"), at("notAfter")
	// candidates for the current time
	var clocks []*Term
	for f := range st.facts {
		f.any(func(t *Term) bool {
			if t.Op == "call" && isClock(st, t, now) {
				clocks = append(clocks, t)
			}
			return false
		})
	}
	why := "a leaf with a lifetime is accepted without looking at the clock"
	for _, t := range clocks {
		if st.holds(tCall("time.Time.IsZero", t)) {
			return ""
		}
		switch {
		case !notAfterT(st, nb, t):
			why = "a leaf whose lifetime has not begun is accepted"
		case !notAfterT(st, t, na):
			why = "a leaf whose lifetime has ended is accepted"
		case !atMostMax(st, nb, na):
			why = "a leaf with a lifetime longer than the maximum is accepted"
		default:
			return ""
		}
	}
	return why
}

// leafRule checks leafNode.verify.
func (c *Ctx) leafRule() {
	fn := c.fn("leafNode.verify")
	a := SymArgs(fn)
	termTypes[a[0]] = fn.Params[0].Type()
	node, opt := mk("deref", "", a[0]), mk("deref", "", a[1])
	e := c.engine(c.groupOpaque(nil, setOf("leafNode.verify")))
	const where = "leafNode.verify"
	for _, o := range successes(c.run(e, fn, nil, a)) {
		st := o.st
		pos := c.pos(o.pos)
		c.count("leaf_paths", 1)
		why := c.verified(e, st, mkField(opt, "cipherSuite"), mkField(node, "signatureKey"), "LeafNodeTBS", leafTBS, node,
			map[string]*Term{"$gid": mkField(opt, "groupID"), "$index": mkField(opt, "leafIndex")}, mkField(node, "signature"))
		c.oblige(why == "", "leaf signature verified", where, pos, "a leaf is accepted although: %s", why)
		c.oblige(mapHasIn(st, mkField(opt, "supportedCreds"), pv(node, "credential.credentialType")), "credential type supported by all", where, pos, "a leaf is accepted without finding its credential type among those supported by all members")
		why = lifetimeOK(st, mkField(node, "lifetime"), mkField(opt, "now"))
		c.oblige(why == "", "lifetime checked", where, pos, "%s", why)
		c.oblige(forAll(st, mkField(node, "extensions"), func(b *State, el, i *Term) bool {
			return elemOf(b, mkField(el, "extensionType"), pv(node, "capabilities.extensions"))
		}), "extensions supported by the leaf", where, pos, "a leaf is accepted without finding every extension type among its own capabilities")
		for _, k := range []string{"signature", "encryption"} {
			c.oblige(notInMap(st, mkField(opt, k+"Keys"), mkField(node, k+"Key")), k+" key not in use", where, pos, "a leaf is accepted without finding its %s key absent from the keys in use", k)
		}
	}
}

// mapHasIn: st establishes that the map has the key (for a map of booleans:
// that the entry is true).
func mapHasIn(st *State, m, key *Term) bool {
	m, key = norm(m), norm(key)
	for f, v := range st.facts {
		if v && (f.Op == "maphas" || f.Op == "mapget") && norm(mapVal(f.Args[0])) == m && norm(f.Args[1]) == key {
			return true
		}
	}
	return false
}

func notInMap(st *State, m, key *Term) bool {
	m, key = norm(m), norm(key)
	for f, v := range st.facts {
		if !v && (f.Op == "maphas" || f.Op == "mapget") && norm(mapVal(f.Args[0])) == m && norm(f.Args[1]) == key {
			return true
		}
	}
	return false
}

// mapVal is the map value behind a reference.
func mapVal(m *Term) *Term {
	m = strip(m)
	if m.Op == "deref" || m.Op == "map" {
		return strip(m.Args[0])
	}
	return m
}

// ---- leaves of a tree ---------------------------------------------------------

// A leafIter is a completed loop over all leaves of a tree. node is the node
// pointer of the iteration, index its leaf index; skip says that the iteration
// ending in b met no leaf.
type leafIter struct {
	iter
	node, index *Term
	skip        func(b *State) bool
}

func leafIters(st *State, tree *Term) []leafIter {
	var l []leafIter
	n := norm(tCall("ratchetTree.numLeaves", strip(tree)))
	seen := map[*LoopInfo]bool{}
	w := norm(mkLen(tree))
	for f, v := range st.facts {
		if f.Op != "lt" || v || len(f.Args) != 2 {
			continue
		}
		i := f.Args[0]
		switch b := norm(f.Args[1]); {
		case b == n:
		case b == w && i.Op == "bin" && i.Aux == "*" && i.Args[0] == mkInt(2): // 2*i < width
			i = i.Args[1]
		case b == w && i.Op == "bin" && i.Aux == "*" && i.Args[1] == mkInt(2):
			i = i.Args[0]
		case b == w: // every other node
			li, init, next := lvOf(i)
			if li == nil || seen[li] || init != mkInt(0) || !allEq(next, mkBin("+", i, mkInt(2))) {
				continue
			}
			seen[li] = true
			node := mkSel(tree, i)
			l = append(l, leafIter{iter{li: li, i: i}, node, nil, func(b *State) bool {
				return b.holds(mkEq(node, tNil)) || b.holds(mkEq(mkField(mk("deref", "", node), "leafNode"), tNil))
			}})
			continue
		default:
			continue
		}
		li, ok := counter(i)
		if !ok || li == nil || seen[li] {
			continue
		}
		seen[li] = true
		node := mkSel(tree, mkBin("*", mkInt(2), i))
		l = append(l, leafIter{iter{li: li, i: i}, node, i, func(b *State) bool {
			return b.holds(mkEq(node, tNil)) || b.holds(mkEq(mkField(mk("deref", "", node), "leafNode"), tNil)) ||
				b.truth(mkLt(i, tCall("ratchetTree.numLeaves", strip(tree)), true)) == 0 ||
				b.truth(mkLt(mkBin("*", mkInt(2), i), mkLen(tree), true)) == 0
		}})
	}
	for _, it := range itersOver(st, tree) {
		if seen[it.li] {
			continue
		}
		seen[it.li] = true
		node := mkSel(tree, it.i)
		l = append(l, leafIter{it, node, nil, func(b *State) bool {
			t := mkField(mk("deref", "", node), "nodeType")
			return b.holds(mkEq(node, tNil)) || b.holds(mkEq(mkField(mk("deref", "", node), "leafNode"), tNil)) || b.refuted(mkEq(t, mkInt(1))) || b.holds(mkEq(t, mkInt(2)))
		}})
	}
	return l
}

// keysRule checks ratchetTree.keys: both sets contain the key of every leaf.
func (c *Ctx) keysRule() {
	fn := c.fn("ratchetTree.keys")
	a := SymArgs(fn)
	e := c.engine(c.groupOpaque(nil, setOf("ratchetTree.keys")))
	for _, o := range c.run(e, fn, nil, a) {
		for k, f := range []string{"signatureKey", "encryptionKey"} {
			m := through(o.st, o.res[k])
			why := fmt.Sprintf("the returned set %v does not contain the %s of every leaf", m, f)
			for _, it := range leafIters(o.st, a[0]) {
				if w := collects(o.st, it, m, f); w == "" {
					why = ""
					break
				} else {
					why = w
				}
			}
			c.oblige(why == "", "keys of every leaf collected", "ratchetTree.keys "+f, c.pos(o.pos), "%s", why)
			c.count("key_sets", 1)
		}
	}
}

// collects: the map m gained field f of each leaf in loop it.
func collects(st *State, it leafIter, m *Term, f string) string {
	for name, lv := range it.li.lv {
		if lv != m {
			continue
		}
		next := it.li.next[name]
		if len(next) != len(it.li.back) {
			return "loop not understood"
		}
		for k, b := range it.li.back {
			keys := mapGrown(strip(next[k]), m)
			if keys == nil {
				return "keys are removed from the set"
			}
			if it.skip(b) {
				continue
			}
			if !keys[norm(mkField(mk("deref", "", mkField(mk("deref", "", it.node), "leafNode")), f))] {
				return "the " + f + " of some leaf is not recorded"
			}
		}
		return ""
	}
	return "the set of " + f + " is not filled by a loop over all leaves"
}

// supportedCredsRule checks ratchetTree.supportedCreds: a returned type is
// listed by every leaf.
func (c *Ctx) supportedCredsRule() {
	fn := c.fn("ratchetTree.supportedCreds")
	a := SymArgs(fn)
	e := c.engine(c.groupOpaque(nil, setOf("ratchetTree.supportedCreds")))
	for _, o := range c.run(e, fn, nil, a) {
		why := supportedByAll(o.st, through(o.st, o.res[0]), a[0])
		c.oblige(why == "", "supported credential types are those of every member", "ratchetTree.supportedCreds", c.pos(o.pos), "%s", why)
		c.count("credential_sets", 1)
	}
}

func supportedByAll(st *State, res, tree *Term) string {
	if res.Op == "emptymap" {
		return ""
	}
	li, init, next := lvOf(res)
	if li == nil || init.Op != "emptymap" || len(next) != len(li.back) {
		return fmt.Sprintf("the result %v is not filled type by type", res)
	}
	for k, b := range li.back {
		n := strip(next[k])
		for n != res {
			if n.Op != "mapset" {
				return "the result is changed otherwise than by adding types"
			}
			if n.Args[2] == tFalse {
				n = n.Args[0]
				continue
			}
			key := norm(n.Args[1])
			// the number of members listing key equals the number of members
			ok := false
			why := "a type is added without comparing how many members list it with the number of members"
			for f, v := range b.facts {
				if f.Op != "eq" || !v {
					continue
				}
				for j := 0; j < 2; j++ {
					cnt := f.Args[j]
					var m *Term
					switch {
					case cnt.Op == "mapget" && norm(cnt.Args[1]) == key:
						m = strip(cnt.Args[0])
					case cnt.Op == "nextval" && key.Op == "nextkey" && norm(cnt.Args[0]) == norm(key.Args[0]):
						if r := cnt.Args[0]; r.Op == "next" && r.Args[0].Op == "range" {
							m = strip(r.Args[0].Args[0])
						}
					}
					if m == nil {
						continue
					}
					if w := countedByLeaf(st, m, strip(f.Args[1-j]), tree); w == "" {
						ok = true
					} else {
						why = w
					}
				}
			}
			if !ok {
				return why
			}
			n = n.Args[0]
		}
	}
	return ""
}

// countedByLeaf: m counts, per credential type, leaves that list it, and n
// counts all leaves.
func countedByLeaf(st *State, m, n, tree *Term) string {
	for _, it := range leafIters(st, tree) {
		mi, m0, mn := lvOf(m)
		ni, n0, nn := lvOf(n)
		if mi != it.li || ni != it.li || len(mn) != len(mi.back) || len(nn) != len(mi.back) {
			continue
		}
		if m0.Op != "emptymap" || n0 != mkInt(0) {
			return "counting does not start at zero"
		}
		creds := norm(mkField(mkField(mk("deref", "", mkField(mk("deref", "", it.node), "leafNode")), "capabilities"), "credentials"))
		for k, b := range mi.back {
			if it.skip(b) {
				if mn[k] != m || nn[k] != n {
					return "a blank leaf is counted"
				}
				continue
			}
			if nn[k] != mkBin("+", n, mkInt(1)) {
				return "a present leaf is not counted as a member"
			}
			if strip(mn[k]) == m {
				continue
			}
			if w := countsOnce(strip(mn[k]), m, creds); w != "" {
				return w
			}
		}
		return ""
	}
	return "the counts are not made in a loop over all leaves of the tree"
}

// countsOnce: r is m with the count of elements of seq increased, each type at
// most once.
func countsOnce(r, m, seq *Term) string {
	li, init, next := lvOf(r)
	if li == nil || strip(init) != m || len(next) != len(li.back) {
		return fmt.Sprintf("the counts of a leaf are %v", r)
	}
	for k, b := range li.back {
		n := strip(next[k])
		if n == r {
			continue
		}
		if n.Op != "mapset" || strip(n.Args[0]) != r || n.Args[2] != mkBin("+", mk("mapget", "", r, n.Args[1]), mkInt(1)) {
			return fmt.Sprintf("the counts of a leaf become %v", n)
		}
		key := norm(n.Args[1])
		fromSeq := key.Op == "sel" && key.Args[0] == seq
		once := false
		for name, seen := range li.lv {
			if seen == r || li.init[name].Op != "emptymap" || len(li.next[name]) != len(li.back) {
				continue
			}
			keys := mapGrown(strip(li.next[name][k]), seen)
			grown := true
			for _, x := range li.next[name] {
				grown = grown && mapGrown(strip(x), seen) != nil
			}
			if grown && keys[key] && (b.refuted(mkMapHas(seen, n.Args[1])) || b.refutedGet(seen, key)) {
				once = true
			}
		}
		if key.Op == "nextkey" && key.Args[0].Op == "next" && key.Args[0].Args[0].Op == "range" {
			// the keys of a set made from the list
			once = true
			fromSeq = mapOf(key.Args[0].Args[0].Args[0], seq, false)
		}
		if !fromSeq {
			return fmt.Sprintf("a type that the leaf does not list is counted: %v", key)
		}
		if !once {
			return "a type that a leaf lists twice is counted twice"
		}
	}
	return ""
}

var _ *ssa.Function

func checkC14(c *Ctx) {
	c.guard("leafNode.verify", c.leafRule)
	c.guard("ratchetTree.supportedCreds", c.supportedCredsRule)
	c.guard("ratchetTree.keys", c.keysRule)
	c.guard("signatures", c.signatureRule)
	c.guard("Group.processCommit", func() {
		r := c.commitRun()
		for _, o := range successes(r.outs) {
			if o.st.holds(mkEq(mkField(r.commit, "path"), tNil)) {
				continue
			}
			why := r.pathLeaf(o.st)
			c.oblige(why == "", "committer's new leaf verified", "Group.processCommit", c.pos(o.pos), "%s", why)
			c.count("uses", 1)
		}
	})
	c.guard("groupFromSecrets", func() {
		j := c.joinRun()
		for _, o := range successes(j.outs) {
			why, _, _ := c.leavesValid(o.st, j.treeCtx(o))
			c.oblige(why == "", "every leaf of a joined tree verified", "groupFromSecrets", c.pos(o.pos), "%s", why)
			c.count("uses", 1)
		}
	})
}
