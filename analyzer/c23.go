package main

import (
	"fmt"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// nodeArgs: tree operations that are given a position; the argument number and
// whether it is one of a leaf.
var nodeArgs = map[string]struct {
	arg  int
	leaf bool
}{
	"ratchetTree.update":          {1, true},
	"ratchetTree.remove":          {1, true},
	"ratchetTree.mergeUpdatePath": {2, true},
	"ratchetTree.resolve":         {1, false},
	"ratchetTree.computeTreeHash": {2, false},
}

func nodeArg(name string, args []*Term) *Term {
	na := nodeArgs[name]
	x := args[na.arg]
	if na.leaf {
		return mkBin("*", mkInt(2), x)
	}
	return x
}

// positions runs f and returns the accesses to trees by position.
func (c *Ctx) positions(f func()) []access {
	var acc []access
	wrapped := map[*Term]bool{}
	c.setup = func(e *Engine) {
		e.hooks.onIndex = func(e *Engine, st *State, base, idx *Term, in ssa.Instruction) {
			if treeSlice(in.(*ssa.IndexAddr).X.Type()) {
				acc = append(acc, access{st: st.clone(), base: base, idx: idx, instr: in})
			}
		}
		e.hooks.onCompare = func(e *Engine, st *State, x, y *Term, in *ssa.BinOp) {
			if wraps(in.X, 0) && unbounded(x) || wraps(in.Y, 0) && unbounded(y) {
				for _, t := range []*Term{mkLt(x, y, true), mkLt(y, x, true), mkLt(x, y, false), mkLt(y, x, false)} {
					a, _ := atomOf(t)
					wrapped[a] = true
				}
			}
		}
		e.hooks.onTreeOp = func(e *Engine, st *State, name string, args []*Term, in ssa.CallInstruction) {
			if _, ok := nodeArgs[name]; !ok {
				return
			}
			base := args[0]
			if name == "ratchetTree.remove" {
				base = st.load(base)
			}
			acc = append(acc, access{st: st.clone(), base: base, idx: nodeArg(name, args), call: name, instr: in})
		}
	}
	defer func() { c.setup = nil }()
	f()
	for _, a := range acc {
		for t := range wrapped {
			delete(a.st.facts, t)
		}
	}
	return acc
}

// wraps: v is computed by a multiplication of 32-bit numbers, which may be that
// of a smaller number too.
func wraps(v ssa.Value, depth int) bool {
	switch v := v.(type) {
	case *ssa.Convert:
		return wraps(v.X, depth)
	case *ssa.ChangeType:
		return wraps(v.X, depth)
	case *ssa.BinOp:
		switch v.Op {
		case token.MUL, token.SHL:
			w := intWidth(v.Type())
			return w != 0 && w <= 32
		case token.ADD, token.SUB:
			return wraps(v.X, depth) || wraps(v.Y, depth)
		}
	case *ssa.Call:
		fn := v.Call.StaticCallee()
		if fn == nil || depth > 3 || fn.Signature.Results().Len() != 1 {
			return false
		}
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && wraps(r.Results[0], depth+1) {
				return true
			}
		}
	}
	return false
}

// unbounded: a multiple of something received rather than counted.
func unbounded(t *Term) bool {
	for x := range linOf(t).m {
		if x = strip(x); x.Op != "lv" && x.Op != "len" && !(x.Op == "call" && x.Aux == "ratchetTree.numLeaves") {
			return true
		}
	}
	return false
}

// folded: the position is the remainder of one received, so that positions
// outside the tree address some other leaf.
func folded(idx *Term) bool {
	return idx.any(func(t *Term) bool {
		if t.Op != "bin" || t.Aux != "%" && t.Aux != "&" {
			return false
		}
		return !t.Args[1].isConst() && !t.Args[0].isConst() && unbounded(t.Args[0]) && t.Args[1].any(func(x *Term) bool {
			return x.Op == "len" || x.Op == "call" && x.Aux == "ratchetTree.numLeaves"
		})
	})
}

func (c *Ctx) soloRun(name string, less ...string) ([]*Term, []Outcome) {
	fn := c.fn(name)
	a := SymArgs(fn)
	return a, c.run(c.engine(c.groupOpaque(nil, setOf(append(less, name)...))), fn, nil, a)
}

func checkC23(c *Ctx) {
	b := &bounds{c: c}
	needs := map[string]bool{}
	judge := func(root string, acc []access) {
		c.count("tree_accesses", len(acc))
		for _, a := range acc {
			if a.call != "" && !needs[a.call] {
				continue
			}
			where, what := fnName(a.instr.Parent()), "access"
			if a.call != "" {
				what = a.call
			}
			if !b.feasible(a.st) {
				continue
			}
			c.oblige(!folded(a.idx), "position addressed is the one received", fmt.Sprintf("%s in %s", what, where), c.pos(a.instr.Pos()),
				"in %s: position %.200s is brought inside the tree instead of being checked", root, a.idx)
			c.oblige(b.inside(a.st, a.base, a.idx), "position inside the tree", fmt.Sprintf("%s in %s", what, where), c.pos(a.instr.Pos()),
				"in %s: position %.200s is not known to lie inside the tree %.200s", root, a.idx, a.base)
		}
	}
	// operations with a position argument: what they need of it
	type opRun struct {
		acc  []access
		args []*Term
	}
	ops := map[string]*opRun{}
	for _, name := range sortedKeys(nodeArgs) {
		c.guard(name, func() {
			r := &opRun{}
			r.acc = c.positions(func() { r.args, _ = c.soloRun(name) })
			ops[name] = r
		})
	}
	for changed := true; changed; {
		changed = false
		for name, r := range ops {
			for _, a := range r.acc {
				if !needs[name] && a.call != name && (a.call == "" || needs[a.call]) && b.feasible(a.st) && !b.inside(a.st, a.base, a.idx) {
					needs[name], changed = true, true
				}
			}
		}
	}
	for _, name := range sortedKeys(ops) {
		r := ops[name]
		tree, pos := r.args[0], nodeArg(name, r.args)
		if name == "ratchetTree.remove" {
			tree = mk("deref", "", tree)
		}
		b.assume = func(st *State, base, idx *Term) bool {
			return needs[name] && linK(idx).equal(linK(pos)) && sameSize(base, tree)
		}
		judge(name, r.acc)
		b.assume = nil
	}
	for _, name := range []string{"CreateGroup", "Group.CreateWelcome", "Group.CreateApplicationMessage", "ratchetTree.add", "ratchetTree.verifyParentHashes",
		"ratchetTree.supportedCreds", "ratchetTree.keys", "deriveSecretTree", "ratchetTree.unmarshal", "ratchetTree.marshal"} {
		c.guard(name, func() {
			acc := c.positions(func() {
				a, outs := c.soloRun(name)
				switch name {
				case "deriveSecretTree":
					b.count = a[1]
					for _, o := range successes(outs) {
						c.oblige(!b.feasible(o.st) || leavesOf(a[1], o.res[0]), "secret tree has a node per position", name, c.pos(o.pos), "the secret tree made for %v leaves has %v nodes", a[1], mkLen(o.res[0]))
					}
				case "ratchetTree.unmarshal":
					for _, o := range successes(outs) {
						c.treeAccepted(b, o, o.st.load(a[0]))
					}
				}
			})
			judge(name, acc)
			b.count = nil
		})
	}
	c.guard("Group.UnmarshalAndProcessMessage", func() {
		var r *recvRun
		judge("Group.UnmarshalAndProcessMessage", c.positions(func() { r = c.receive() }))
		for i := range r.effs {
			ef := &r.effs[i]
			var li *Term
			switch ef.kind {
			case "commit":
				li = pv(ef.auth, "content.sender.leafIndex")
			case "store":
				if en := r.pendingEntry(ef); en != nil {
					li = mkField(en, "sender")
				}
			}
			if li != nil {
				r.want(ef, b.inside(ef.st, mkField(r.group, "tree"), mkBin("*", mkInt(2), li)), "sender inside the tree", "the sender %v of what is processed or kept is not known to be inside the tree", li)
			}
		}
	})
	c.guard("groupFromSecrets", func() {
		var j *joinRun
		judge("groupFromSecrets", c.positions(func() { j = c.joinRun() }))
		c.groups(b, j.e, successes(j.outs))
	})
	c.guard("CreateGroup", func() {
		_, outs := c.soloRun("CreateGroup")
		c.groups(b, nil, successes(outs))
	})
	c.guard("Group.processCommit", func() {
		var r *commitRun
		acc := c.positions(func() { r = c.commitRun() })
		b.committer = r.sender
		judge("Group.processCommit", acc)
		for _, o := range successes(r.outs) {
			if b.feasible(o.st) {
				c.groupKept(b, o, o.st.load(mkFA(r.gp, "tree", nil)), o.st.load(mkFA(r.gp, "privTree", nil)), mkField(r.group, "myLeafIndex"), r.props)
			}
		}
		b.committer = nil
	})
}

// nonEmpty: the slice has elements, perhaps appended to one known to have some.
func nonEmpty(st *State, t *Term) bool {
	for k := 0; k < 20; k++ {
		t = lenBase(t)
		n := mkLen(t)
		if st.refuted(mkEq(n, mkInt(0))) || st.truth(mkLt(mkInt(0), n, false)) == 1 {
			return true
		}
		if t.Op == "append" {
			if appendedIn(st, t, t.Args[0]) != nil {
				return true
			}
			t = t.Args[0]
			continue
		}
		li, init, next := lvOf(t)
		if li == nil {
			return false
		}
		for _, x := range next {
			for x = strip(x); x.Op == "append" || x.Op == "upd"; {
				x = strip(x.Args[0])
			}
			if x != t {
				return false
			}
		}
		t = init
	}
	return false
}

// treeAccepted: a decoded tree has nodes, and lists only leaves it has.
func (c *Ctx) treeAccepted(b *bounds, o Outcome, tree *Term) {
	where := fnName(o.fn)
	c.oblige(nonEmpty(o.st, tree), "tree not empty", where, c.pos(o.pos), "an empty tree is accepted")
	c.oblige(forAll(o.st, tree, func(at *State, el, i *Term) bool {
		n := mk("deref", "", el)
		if at.holds(mkEq(el, tNil)) || at.refuted(mkEq(mkField(n, "nodeType"), mkInt(2))) || at.holds(mkEq(mkField(n, "nodeType"), mkInt(1))) {
			return true
		}
		b.untrusted = true
		defer func() { b.untrusted = false }()
		return forAll(at, pv(n, "*parentNode.unmergedLeaves"), func(at *State, x, i *Term) bool {
			return b.inside(at, tree, mkBin("*", mkInt(2), x))
		})
	}), "unmerged leaves inside the tree", where, c.pos(o.pos), "a tree is accepted without establishing that the unmerged leaves of all parent nodes are inside the tree")
}

// groups: what created groups contain.
func (c *Ctx) groups(b *bounds, e *Engine, outs []Outcome) {
	for _, o := range outs {
		g := o.res[0]
		if b.feasible(o.st) {
			c.groupKept(b, o, o.st.load(mkFA(g, "tree", nil)), o.st.load(mkFA(g, "privTree", nil)), o.st.load(mkFA(g, "myLeafIndex", nil)), nil)
		}
	}
}

// groupKept: a group has as many private keys as tree nodes and its own leaf is
// inside the tree.
func (c *Ctx) groupKept(b *bounds, o Outcome, tree, priv, mine, props *Term) {
	where := fnName(o.fn)
	c.oblige(sameSize(tree, priv), "as many private keys as nodes", where, c.pos(o.pos), "the group has %v private keys for %v nodes", mkLen(priv), mkLen(tree))
	ok := b.inside(o.st, tree, mkBin("*", mkInt(2), mine))
	if !ok && props != nil {
		// nothing was removed
		ok = forAll(o.st, props, func(at *State, e, i *Term) bool { return notType(at, e, 3) })
	}
	c.oblige(ok, "own leaf inside the tree", where, c.pos(o.pos), "the group's own leaf %v is not known to be inside its tree %v", mine, tree)
}
