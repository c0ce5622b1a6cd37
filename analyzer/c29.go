package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isSuite: a type is CipherSuite.
func isSuite(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "CipherSuite"
}

// panicsOnSuite: fn is a method of CipherSuite that panics itself (for suites
// without a description).
func panicsOnSuite(fn *ssa.Function) bool {
	if fn == nil || fn.Signature.Recv() == nil || !isSuite(fn.Signature.Recv().Type()) {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Panic); ok {
				return true
			}
		}
	}
	return false
}

// suitePre are the cipher suites opaque functions receive behind pointers:
// their callers must pass a known one, and they may rely on it.
var suitePre = map[string]map[int]string{
	"KeyPackage.verify": {1: "cipherSuite"},
	"leafNode.verify":   {1: "cipherSuite"},
}

// knownSuite: st establishes that cs has a description, or it belongs to an
// existing group or is a parameter covered by the callers.
func knownSuite(st *State, cs *Term, given map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var known func(t *Term) bool
	known = func(t *Term) bool {
		t = norm(st.substConst(t))
		if seen[t] {
			return false
		}
		seen[t] = true
		if given[t] {
			return true
		}
		if v, ok := t.intVal(); ok {
			return v >= 1 && v <= int64(len(suites))
		}
		if st.truth(mkLt(t, mkInt(1), true)) == 0 && st.truth(mkLt(mkInt(int64(len(suites))), t, true)) == 0 {
			return true
		}
		if lo, hi, ok := st.interval(t); ok && lo >= 1 && hi <= int64(len(suites)) {
			return true
		}
		for f, v := range st.facts {
			switch {
			case f.Op == "maphas" && v && norm(f.Args[1]) == t && suiteTable(f.Args[0]):
				return true
			case f.Op == "eq" && v && len(f.Args) == 2:
				a, b := norm(f.Args[0]), norm(f.Args[1])
				if a == t && known(b) || b == t && known(a) {
					return true
				}
			}
		}
		return false
	}
	return known(cs)
}

// suiteTable: m is a constant table with the supported suites as keys.
func suiteTable(m *Term) bool {
	n := 0
	m = strip(m)
	for m.Op == "mapset" {
		k, ok := m.Args[1].intVal()
		if !ok || k < 1 || k > int64(len(suites)) {
			return false
		}
		n++
		m = strip(m.Args[0])
	}
	return m.Op == "emptymap" && n > 0
}

// suiteUses: every use of a cipher suite that would fail abruptly for unknown
// ones has a suite known to be supported.
func (c *Ctx) suiteUses() {
	opq := c.groupOpaque(nil, nil)
	todo := []*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if !seen[f] {
			seen[f] = true
			todo = append(todo, f)
		}
	}
	for _, n := range sortedKeys(c.p.fns) {
		f := c.p.fns[n]
		if c.exported(f) && c.p.reaches(f, panicsOnSuite) && !panicsOnSuite(f) {
			add(f)
		}
	}
	for k := 0; k < len(todo); k++ {
		fn := todo[k]
		c.guard(fnName(fn), func() { c.suiteUsesIn(fn, opq, add) })
	}
}

// hashChosen: name starts a hash or MAC; whether the algorithm depends on
// anything.
func hashChosen(name string, a []*Term) (depends, ok bool) {
	switch {
	case name == "crypto.Hash.New", name == "crypto/hmac.New":
		return a[0].any(func(t *Term) bool {
			switch t.Op {
			case "sym", "call", "lv", "deref", "ext", "field":
				return true
			}
			return false
		}), true
	case strings.HasPrefix(name, "crypto/sha"):
		return false, true
	}
	return false, false
}

func (c *Ctx) suiteUsesIn(fn *ssa.Function, opq func(*ssa.Function) bool, add func(*ssa.Function)) {
	args := SymArgs(fn)
	given := map[*Term]bool{}
	ext := c.exported(fn)
	for i, p := range fn.Params {
		t := p.Type()
		if ptr, ok := t.Underlying().(*types.Pointer); ok {
			t = ptr.Elem()
		}
		n, _ := t.(*types.Named)
		switch {
		case isSuite(p.Type()) && !ext:
			given[norm(args[i])] = true
		case n != nil && n.Obj().Name() == "Group":
			given[norm(pv(mk("deref", "", args[i]), "groupContext.cipherSuite"))] = true
		case n != nil && n.Obj().Name() == "groupContext" && !ext:
			given[norm(mkField(mk("deref", "", args[i]), "cipherSuite"))] = true
		}
		if f := suitePre[fnName(fn)][i]; f != "" {
			given[norm(mkField(mk("deref", "", args[i]), f))] = true
		}
	}
	e := c.engine(func(f *ssa.Function) bool { return f != fn && opq(f) })
	need := func(st *State, cs *Term, what string, in ssa.Instruction) {
		c.count("uses", 1)
		c.oblige(knownSuite(st, e.snap(st, cs, nil), given), "suite known before use", fnName(in.Parent())+" in "+fnName(fn), c.pos(in.Pos()), "%s is reached with cipher suite %v, which is not established to be supported", what, cs)
	}
	signs := fnName(fn) == "CipherSuite.signWithLabel" || fnName(fn) == "CipherSuite.verifyWithLabel"
	e.hooks.onCall = func(e *Engine, st *State, name string, a []*Term, in ssa.CallInstruction, f *ssa.Function) {
		if h, ok := hashChosen(name, a); ok && !signs {
			c.count("hashes_chosen", 1)
			c.oblige(h, "hash of the suite", fnName(in.Parent())+" in "+fnName(fn), c.pos(in.Pos()), "%s is used with a hash that does not depend on the cipher suite: %v", name, a)
		}
		if f == nil || !c.p.ours(f) {
			return
		}
		if panicsOnSuite(f) {
			need(st, a[0], name, in)
			return
		}
		if !opq(f) || !c.p.reaches(f, panicsOnSuite) {
			return
		}
		add(f)
		for i, p := range f.Params {
			if i >= len(a) {
				break
			}
			if isSuite(p.Type()) {
				need(st, a[i], name, in)
			} else if pre := suitePre[name][i]; pre != "" {
				need(st, mkField(e.derefOf(st, a[i]), pre), name, in)
			}
		}
	}
	for _, o := range successes(c.run(e, fn, nil, args)) {
		if len(o.res) == 0 || !ext {
			continue
		}
		if ptr, ok := fn.Signature.Results().At(0).Type().(*types.Pointer); ok && typeStr(ptr.Elem()) == "Group" {
			g := o.st.load(o.res[0])
			c.oblige(knownSuite(o.st, pv(g, "groupContext.cipherSuite"), given), "groups have a supported suite", fnName(fn), c.pos(o.pos), "the new group's cipher suite is %v", pv(g, "groupContext.cipherSuite"))
		}
	}
	c.count("roots_examined", 1)
}

// derefOf is the value behind a pointer.
func (e *Engine) derefOf(st *State, p *Term) *Term {
	return st.load(p)
}

// supportedRule: Supported answers no for unregistered suites, and for
// registered ones only when their KEM cannot be used with their KDF.
func (c *Ctx) supportedRule() {
	fn := c.fn("CipherSuite.Supported")
	for _, v := range []int64{0, 8, 9, 255, 256, 65535} {
		for _, o := range c.run(c.engine(nil), fn, nil, []*Term{mkInt(v)}) {
			c.oblige(o.st.truth(o.res[0]) == 0, "supported suites", "CipherSuite.Supported", c.pos(o.pos), "unregistered suite %d: %v", v, o.res[0])
		}
	}
	for _, s := range suites {
		cs := s.hpke()
		kdf := mkExt(tCall("hpke.Suite.Params", cs), 1)
		fit := mkEq(tCall("kem.Scheme.SeedSize", s.scheme()), tCall("hpke.KDF.ExtractSize", kdf))
		n := 0
		for _, o := range c.run(c.engine(nil), fn, nil, []*Term{mkInt(s.id)}) {
			if o.st.truth(o.res[0]) == 1 || norm(o.res[0]) == fit {
				n++
				continue
			}
			c.oblige(o.st.truth(fit) == 0, "supported suites", "CipherSuite.Supported", c.pos(o.pos), "registered suite %d: %v", s.id, o.res[0])
		}
		c.oblige(n > 0, "supported suites", "CipherSuite.Supported", c.pos(fn.Pos()), "registered suite %d is never supported", s.id)
	}
}

// unknownRule: the operations of an unregistered suite do not select an
// algorithm in its place.
func (c *Ctx) unknownRule() {
	for _, n := range []string{"CipherSuite.hash", "CipherSuite.hpke", "CipherSuite.signWithLabel", "CipherSuite.verifyWithLabel"} {
		fn := c.fn(n)
		for _, v := range []int64{0, 8, 9, 255, 256, 65535} {
			args := SymArgs(fn)
			args[0] = mkInt(v)
			for _, o := range successes(c.run(c.engine(nil), fn, nil, args)) {
				refused := len(o.res) > 0 && (o.st.truth(o.res[0]) == 0 || norm(o.res[0]) == tNil)
				c.oblige(refused, "unregistered suites select nothing", n, c.pos(o.pos), "unregistered suite %d: %v", v, o.res)
			}
			c.count("unregistered_suites", 1)
		}
	}
}

func checkC29(c *Ctx) {
	c.guard("suites", c.suiteRule)
	c.guard("signatures", c.signatureRule)
	c.guard("hpke", c.hpkeRule)
	c.guard("kdf", c.expandRule)
	c.guard("references", c.refHashRule)
	c.guard("generation", c.generateRule)
	c.guard("supported", c.supportedRule)
	c.guard("unregistered", c.unknownRule)
	c.suiteUses()
}
