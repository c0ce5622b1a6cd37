package main

import "fmt"

// Changes of the ratchet tree.

// blanks peels changes off t that blank nodes: single nodes and, with a loop,
// all ancestors of start (incl: also start itself). It returns what the
// changes were made to and what was blanked.
type blanked struct {
	base        *Term
	start, ancs bool
	why         string
}

func blanks(st *State, t, start, tree *Term) blanked {
	b := blanked{}
	for k := 0; k < 12; k++ {
		t = strip(t)
		if t.Op == "upd" && norm(t.Args[2]) == tNil {
			i := strip(t.Args[1])
			if same(i, start) {
				b.start = true
				t = t.Args[0]
				continue
			}
			// the last node of a loop that sets each node before climbing
			in := strip(t.Args[0])
			li, init, next := lvOf(in)
			if li == nil || climbs(st, i, start, tree) != li {
				b.why = fmt.Sprintf("node %v is blanked", i)
				b.base = t
				return b
			}
			for _, n := range next {
				if n = strip(n); n.Op != "upd" || n.Args[0] != in || !same(n.Args[1], i) || norm(n.Args[2]) != tNil {
					b.why = fmt.Sprintf("an iteration does not blank the node reached: %v", n)
					return b
				}
			}
			b.start, b.ancs = true, true
			t = init
			continue
		}
		li, init, next := lvOf(t)
		if li == nil || b.ancs {
			break
		}
		ok := len(next) > 0
		for _, n := range next {
			if n = strip(n); n.Op != "upd" || n.Args[0] != t || norm(n.Args[2]) != tNil {
				b.base = t
				return b
			}
			d := strip(n.Args[1])
			if d.Op == "sel" && isDirectPath(st, d.Args[0], start, tree) && iterOf(st, d.Args[0], li) != nil && iterOf(st, d.Args[0], li).i == d.Args[1] {
				continue
			}
			if _, par := climber(st, li, start, tree); par != nil && same(d, par) {
				continue
			}
			if climbsWhile(st, li, d, start, tree) {
				b.start = true
				continue
			}
			ok = false
		}
		if !ok {
			b.why = "a loop does not blank all ancestors up to the root"
			b.base = t
			return b
		}
		b.ancs = true
		t = init
	}
	b.base = strip(t)
	return b
}

// climbsWhile: x goes from start up to the root, the loop being left when a
// variable tells that the node just visited has no parent.
func climbsWhile(st *State, li *LoopInfo, x, start, tree *Term) bool {
	if climbs(nil, x, start, tree) != li {
		return false
	}
	_, _, next := lvOf(x)
	for _, q := range li.lv {
		_, qi, qn := lvOf(q)
		if qi == tTrue && allEq(qn, mkExt(strip(next[0]).Args[0], 1)) && st.refuted(q) {
			return true
		}
	}
	return false
}

// leafIs: v is a leaf node holding leaf.
func leafIs(st *State, v, leaf *Term) bool {
	n := derefSnap(st.deepSnap(v))
	l := mkField(n, "leafNode")
	return mkField(n, "nodeType") == mkInt(1) && (same(l, leaf) || same(derefSnap(l), mk("deref", "", leaf)) || same(derefSnap(l), derefSnap(leaf)))
}

// updateRule: the leaf is replaced, its ancestors blanked, nothing else.
func (c *Ctx) updateRule() {
	fn := c.fn("ratchetTree.update")
	a := SymArgs(fn)
	tree, leaf := a[0], a[2]
	node := mkBin("*", mkInt(2), a[1])
	e := c.engine(c.groupOpaque(nil, setOf("ratchetTree.update")))
	for _, o := range successes(c.run(e, fn, nil, a)) {
		c.count("tree_changes", 1)
		st := o.st
		t := strip(through(st, tree))
		why := func() string {
			set := false
			if t.Op == "upd" && same(t.Args[1], node) && leafIs(st, t.Args[2], leaf) {
				set = true
				t = strip(t.Args[0])
			}
			b := blanks(st, t, node, tree)
			switch {
			case b.why != "":
				return b.why
			case !b.ancs:
				return fmt.Sprintf("the ancestors of the leaf are not blanked: %v", b.base)
			}
			t = b.base
			if !set && t.Op == "upd" && same(t.Args[1], node) && leafIs(st, t.Args[2], leaf) && !b.start {
				set = true
				t = strip(t.Args[0])
			}
			if !set {
				return "the leaf is not replaced"
			}
			if !same(t, tree) {
				return fmt.Sprintf("another change is made: %v", t)
			}
			return ""
		}()
		c.oblige(why == "", "update replaces the leaf and blanks its ancestors", fnName(fn), c.pos(o.pos), "%s", why)
	}
}

// removeRule: the leaf and its ancestors are blanked, and the right half of the
// tree is dropped as long as it has no leaves.
func (c *Ctx) removeRule() {
	fn := c.fn("ratchetTree.remove")
	a := SymArgs(fn)
	ptr := a[0]
	tree := mk("deref", "", ptr)
	node := mkBin("*", mkInt(2), a[1])
	e := c.engine(c.groupOpaque(nil, setOf("ratchetTree.remove")))
	n := 0
	for _, o := range successes(c.run(e, fn, nil, a)) {
		n++
		c.count("tree_changes", 1)
		st := o.st
		why := func() string {
			content := strip(through(st, tree))
			b := blanks(st, content, node, tree)
			switch {
			case b.why != "":
				return b.why
			case !b.start:
				return "the leaf is not blanked"
			case !b.ancs:
				return fmt.Sprintf("the ancestors of the leaf are not blanked: %v", b.base)
			case !same(b.base, tree):
				return fmt.Sprintf("another change is made: %v", b.base)
			}
			return pruned(st, strip(st.load(ptr)), tree, content)
		}()
		c.oblige(why == "", "removal blanks the leaf and its ancestors and prunes the tree", fnName(fn), c.pos(o.pos), "%s", why)
	}
	c.oblige(n > 0, "removal possible", fnName(fn), c.pos(fn.Pos()), "no path returns")
}

// lastLeaf: st knows s to be the last leaf that is present (blank 0) or, if
// blank is 1, that there is none.
func lastLeaf(st *State, tree, content *Term) (s *Term, li *LoopInfo, blank int) {
	seen := map[*Term]bool{}
	consider := func(x *Term) {
		seen[x] = true
		l, init, next := lvOf(x)
		if l == nil || len(next) != len(l.back) {
			return
		}
		at := mkSel(content, mkBin("*", mkInt(2), x))
		if n := mkSizeOf(init); allEq(next, mkBin("-", x, mkInt(1))) && n != tNil && sizeOf(n, tree) && linOf(init).equal(linOf(mkBin("-", n, mkInt(1)))) {
			// going down from the last leaf
			for _, b := range l.back {
				if !b.holds(mkEq(at, tNil)) {
					return
				}
			}
			switch {
			case st.holds(mkEq(at, tNil)) && st.holds(mkEq(x, mkInt(0))):
				s, li, blank = x, l, 1
			case st.refuted(mkEq(at, tNil)):
				s, li, blank = x, l, 0
			}
			return
		}
		if init == mkInt(0) {
			// going up, remembering the number of leaves up to the last one seen
			var i *Term
			for _, k := range l.lv {
				if _, ok := counter(k); ok && insideTree(st, linK(mkBin("*", mkInt(2), k)), tree) == 0 {
					i = k
				}
			}
			if i == nil {
				return
			}
			here := mkSel(content, mkBin("*", mkInt(2), i))
			for k, b := range l.back {
				switch n := strip(next[k]); {
				case n == x && b.holds(mkEq(here, tNil)):
				case n == mkBin("+", i, mkInt(1)) && b.refuted(mkEq(here, tNil)):
				default:
					return
				}
			}
			switch {
			case st.truth(mkLt(x, mkInt(1), false)) == 1 || st.holds(mkEq(x, mkInt(0))):
				s, li, blank = mkBin("-", x, mkInt(1)), l, 1
			case st.truth(mkLt(x, mkInt(1), false)) == 0 || st.refuted(mkEq(x, mkInt(0))):
				s, li, blank = mkBin("-", x, mkInt(1)), l, 0
			}
		}
	}
	for f := range st.facts {
		f.any(func(x *Term) bool {
			if x.Op == "lv" && !seen[x] && s == nil {
				consider(x)
			}
			return false
		})
	}
	return
}

// iters is the number of completed iterations of a loop.
func iters(li *LoopInfo) *Term {
	t := mk("iters", li.id)
	itersOf[t] = li
	return t
}

var itersOf = map[*Term]*LoopInfo{}

// linK is linOf with variables that change by a constant in each iteration
// expressed by the number of iterations.
func linK(t *Term) *linForm { return linKd(t, 0) }

func linKd(t *Term, depth int) *linForm {
	t = strip(t)
	if depth > 6 {
		return linOf(t)
	}
	if n, ok := t.intVal(); ok {
		return &linForm{c: n}
	}
	if t.Op == "bin" && len(t.Args) == 2 {
		switch t.Aux {
		case "+":
			return linKd(t.Args[0], depth+1).add(linKd(t.Args[1], depth+1), 1)
		case "-":
			return linKd(t.Args[0], depth+1).add(linKd(t.Args[1], depth+1), -1)
		case "*", "<<":
			for i := range t.Args {
				if n, ok := t.Args[i].intVal(); ok && (t.Aux == "*" || i == 1 && n < 32) {
					if t.Aux == "<<" {
						n = 1 << n
					}
					return (&linForm{}).add(linKd(t.Args[1-i], depth+1), n)
				}
			}
		case "/", ">>":
			n, ok := t.Args[1].intVal()
			if t.Aux == ">>" {
				n, ok = 1<<(uint(n)&31), ok && n >= 0 && n < 31
			}
			if !ok || n <= 0 {
				break
			}
			f := linKd(t.Args[0], depth+1)
			r := &linForm{m: map[*Term]int64{}, c: f.c / n}
			whole := f.c%n == 0
			for x, k := range f.m {
				whole = whole && k%n == 0
				r.m[x] = k / n
			}
			if whole {
				return r
			}
		}
	}
	x := t
	if t.Op == "len" {
		x = strip(t.Args[0])
	}
	if x.Op != "lv" {
		return &linForm{m: map[*Term]int64{norm(t): 1}}
	}
	li, init, next := lvOf(x)
	if li == nil || len(next) == 0 {
		return &linForm{m: map[*Term]int64{norm(t): 1}}
	}
	k := linOf(iters(li))
	if t.Op == "len" {
		for _, n := range next {
			if appendedOne(n, x) == nil {
				return &linForm{m: map[*Term]int64{norm(t): 1}}
			}
		}
		return linKd(mkLen(init), depth+1).add(k, 1)
	}
	if d := linOf(next[0]).add(linOf(x), -1); len(d.m) == 0 && allEq(next, next[0]) {
		return linKd(init, depth+1).add(k, d.c)
	}
	// a value derived from such a variable: f(k) with init = f(0), next = f(k+1)
	if !allEq(next, next[0]) || deepSelf(next[0], x) {
		return &linForm{m: map[*Term]int64{norm(t): 1}}
	}
	f := linKd(next[0], depth+1)
	prev := (&linForm{}).add(f, 1)
	prev.c -= f.m[iters(li)]
	zero := (&linForm{}).add(prev, 1)
	delete(zero.m, iters(li))
	if len(prev.m) > len(zero.m) && zero.equal(linKd(init, depth+1)) {
		return prev
	}
	return &linForm{m: map[*Term]int64{norm(t): 1}}
}

func deepSelf(t, x *Term) bool { return t.any(func(y *Term) bool { return y == x }) }

// knowsLess: b's knowledge of 0 < d (1: true, 0: false, -1: unknown).
func knowsLess(b *State, d *linForm) int {
	for f, v := range b.facts {
		if len(f.Args) != 2 {
			continue
		}
		x := linK(f.Args[1]).add(linK(f.Args[0]), -1)
		switch f.Op {
		case "lt":
			if x.equal(d) {
				if v {
					return 1
				}
				return 0
			}
			y := (&linForm{}).add(x, -1) // not a < b: b <= a, b < a+1
			y.c++
			if y.equal(d) {
				if v {
					return 0
				}
				return 1
			}
		case "eq":
			if v && (x.equal(d) || (&linForm{}).add(x, -1).equal(d)) {
				return 0
			}
		}
	}
	return -1
}

// insideTree: what b knows about node (twice a leaf index) being in the tree,
// whose size is 2n-1 for n leaves or 0.
func insideTree(b *State, node *linForm, tree *Term) int {
	if v := knowsLess(b, linOf(mkLen(tree)).add(node, -1)); v >= 0 {
		return v
	}
	half := halfForm(node)
	if half == nil {
		return -1
	}
	for f := range b.facts {
		for _, a := range f.Args {
			if n := mkSizeOf(a); n != tNil && sizeOf(n, tree) {
				if v := knowsLess(b, linOf(n).add(half, -1)); v >= 0 {
					return v
				}
				if li := loopOf(half); li != nil && b.refuted(f) && f.Op == "eq" {
					// k != n in every iteration: k < n
					all := linK(f.Args[0]).add(linK(f.Args[1]), -1)
					if want := linOf(n).add(half, -1); !all.equal(want) && !(&linForm{}).add(all, -1).equal(want) {
						continue
					}
					ok := true
					for _, x := range li.back {
						ok = ok && x.refuted(f)
					}
					if ok {
						return 1
					}
				}
			}
		}
	}
	return -1
}

func halfForm(f *linForm) *linForm {
	r := &linForm{m: map[*Term]int64{}, c: f.c / 2}
	if f.c%2 != 0 {
		return nil
	}
	for x, k := range f.m {
		if k%2 != 0 {
			return nil
		}
		r.m[x] = k / 2
	}
	return r
}

// loopOf: f is the number of iterations of a loop.
func loopOf(f *linForm) *LoopInfo {
	if f == nil || f.c != 0 || len(f.m) != 1 {
		return nil
	}
	for x, k := range f.m {
		if x.Op == "iters" && k == 1 {
			return itersOf[x]
		}
	}
	return nil
}

// elemIs: what b knows about tree[node] being nil.
func elemNil(b *State, tree *Term, node *linForm) int {
	for f, v := range b.facts {
		if f.Op != "eq" || len(f.Args) != 2 || f.Args[0] != tNil && f.Args[1] != tNil {
			continue
		}
		x := strip(f.Args[0])
		if x == tNil {
			x = strip(f.Args[1])
		}
		if x.Op == "sel" && same(x.Args[0], tree) && linK(x.Args[1]).equal(node) {
			if v {
				return 1
			}
			return 0
		}
	}
	return -1
}

// mkSizeOf finds the number of leaves in a term.
func mkSizeOf(t *Term) *Term {
	r := tNil
	t.any(func(x *Term) bool {
		if x.Op == "call" && x.Aux == "ratchetTree.numLeaves" {
			r = x
		}
		return r != tNil
	})
	return r
}

// isPow2 decides what b knows about x being a power of two: 1, 0 or -1.
func isPow2(b *State, x *Term) int {
	if b.holds(mkEq(x, mkInt(0))) {
		return 0
	}
	for _, t := range []*Term{mkEq(mkBin("&", x, mkBin("-", x, mkInt(1))), mkInt(0)), mkEq(mkBin("&", mkBin("-", x, mkInt(1)), x), mkInt(0)),
		mkEq(tCall("math/bits.OnesCount32", x), mkInt(1)), mkEq(tCall("math/bits.OnesCount", x), mkInt(1)), mkEq(tCall("math/bits.OnesCount64", x), mkInt(1))} {
		switch {
		case b.refuted(t):
			return 0
		case b.holds(t) && (t.any(func(y *Term) bool { return y.Op == "call" }) || b.refuted(mkEq(x, mkInt(0))) || b.truth(mkLt(mkInt(0), x, false)) == 1):
			return 1
		}
	}
	return -1
}

// pruned: the tree result is content without trailing empty halves.
func pruned(st *State, result, tree, content *Term) string {
	s, li, blank := lastLeaf(st, tree, content)
	if s == nil {
		return "the last present leaf is not looked for"
	}
	twice := mkBin("*", mkInt(2), s)
	if blank == 1 {
		if norm(result) != tNil && !emptySlice(st, result) {
			return fmt.Sprintf("a tree without leaves becomes %v", result)
		}
		return ""
	}
	// hi is 2n-1 for the smallest power of two n above s; p is the variable
	// that determines it
	valid := func(hi *linForm) bool {
		if len(hi.m) != 1 {
			return false
		}
		var p *Term
		var k int64
		for x, n := range hi.m {
			p, k = x, n
		}
		l, init, next := lvOf(p)
		if l == nil || l != li || len(next) != len(l.back) {
			return false
		}
		at := func(v *Term) *linForm {
			r := (&linForm{}).add(linOf(v), k)
			r.c += hi.c
			return r
		}
		start := at(init).equal(linOf(mkLen(tree)))
		if n := mkSizeOf(init); n != tNil && sizeOf(n, tree) {
			start = start || at(init).equal(linOf(mkBin("-", mkBin("*", mkInt(2), n), mkInt(1))))
		}
		if !start {
			return false
		}
		for k, b := range l.back {
			n := strip(next[k])
			pow := isPow2(b, twice)
			if pow == -1 {
				pow = isPow2(b, s)
			}
			if !(n == strip(p) && pow == 0) && !(at(n).equal(linOf(mkBin("-", twice, mkInt(1)))) && pow == 1) {
				return false
			}
		}
		return true
	}
	r := result
	if r.Op == "slice" && same(r.Args[0], tree) && r.Args[1] == mkInt(0) {
		hi := strip(r.Args[2])
		if valid(linOf(hi)) || sizeAbove(st, hi, s, tree) {
			return ""
		}
		return fmt.Sprintf("the tree is cut at %v", hi)
	}
	if same(r, tree) {
		// unchanged: the size to keep is the current one
		for _, p := range li.lv {
			for _, f := range []*Term{p, mkBin("-", p, mkInt(1)), mkBin("-", mkBin("*", mkInt(2), p), mkInt(1))} {
				if valid(linOf(f)) && (knowsLess(st, linOf(mkLen(tree)).add(linOf(f), -1)) == 0) {
					return ""
				}
			}
		}
		return "the tree is not pruned"
	}
	return fmt.Sprintf("the tree becomes %v", r)
}

// sizeAbove: hi is 2n-1 for the smallest power of two n above s.
func sizeAbove(st *State, hi, s, tree *Term) bool {
	var found bool
	hi.any(func(x *Term) bool {
		l, init, next := lvOf(x)
		if x.Op != "lv" || l == nil || found || !linOf(hi).equal(linOf(mkBin("-", mkBin("*", mkInt(2), x), mkInt(1)))) {
			return false
		}
		up := init == mkInt(1)
		half := sizeOf(init, tree)
		for k, b := range l.back {
			n := strip(next[k])
			switch {
			case up && linOf(n).equal(linOf(mkBin("*", mkInt(2), x))):
				up = b.truth(mkLt(s, x, true)) == 0 || b.truth(mkLt(s, x, false)) == 0
			case half && same(n, mkBin("/", x, mkInt(2))):
				h := mkBin("/", x, mkInt(2))
				half = b.truth(mkLt(s, h, true)) == 1 || b.truth(mkLt(s, h, false)) == 1
			default:
				up, half = false, false
			}
		}
		h := mkBin("/", x, mkInt(2))
		found = up && (st.truth(mkLt(s, x, true)) == 1 || st.truth(mkLt(s, x, false)) == 1) ||
			half && (st.truth(mkLt(s, h, true)) == 0 || st.truth(mkLt(s, h, false)) == 0)
		return found
	})
	return found
}

// addRule: the leftmost blank leaf is used, or the tree doubled; present
// ancestors list the leaf as unmerged.
func (c *Ctx) addRule() {
	fn := c.fn("ratchetTree.add")
	a := SymArgs(fn)
	ptr, leaf := a[0], a[1]
	tree := mk("deref", "", ptr)
	e := c.engine(c.groupOpaque(nil, setOf("ratchetTree.add")))
	kinds := map[string]int{}
	for _, o := range successes(c.run(e, fn, nil, a)) {
		if leafless(o.st, tree) || pastEnd(o.st, tree) {
			continue
		}
		c.count("tree_changes", 1)
		st := o.st
		why := func() string {
			result := strip(st.load(ptr))
			content := strip(through(st, result))
			if content.Op != "upd" || !leafIs(st, content.Args[2], leaf) {
				// the leaf may be set before the ancestors change
				content = leafFirst(st, content, leaf)
				if content == nil {
					return "the leaf is not stored"
				}
			}
			node := strip(content.Args[1])
			at := linK(node)
			li := loopOf(halfForm(at))
			rest := strip(content.Args[0])
			passed := func(li *LoopInfo) bool {
				for _, b := range li.back {
					if elemNil(b, tree, linOf(mkBin("*", mkInt(2), iters(li)))) != 0 {
						return false
					}
				}
				return true
			}
			if li == nil {
				// behind the current leaves, after a search
				if n := mkSizeOf(node); n != tNil && sizeOf(n, tree) && at.equal(linOf(mkBin("*", mkInt(2), n))) {
					for _, l := range loopsIn(st) {
						if passed(l) && insideTree(st, linOf(mkBin("*", mkInt(2), iters(l))), tree) == 0 {
							kinds["tree extended"]++
							return unmergedAdded(st, rest, node, func(base *Term) string { return extended(st, base, tree) })
						}
					}
				}
				return fmt.Sprintf("the leaf is stored at %v", node)
			}
			if !passed(li) {
				return "a blank leaf further left may be passed over"
			}
			switch {
			case same(result, tree) && elemNil(st, tree, at) == 1 && insideTree(st, at, tree) == 1:
				kinds["blank leaf reused"]++
				return unmergedAdded(st, rest, node, func(base *Term) string {
					if !same(base, tree) {
						return fmt.Sprintf("another change is made: %v", base)
					}
					return ""
				})
			case insideTree(st, at, tree) == 0:
				kinds["tree extended"]++
				return unmergedAdded(st, rest, node, func(base *Term) string { return extended(st, base, tree) })
			}
			return "neither a blank leaf is used nor the tree found to be full"
		}()
		c.oblige(why == "", "addition uses the leftmost blank leaf or extends the tree", fnName(fn), c.pos(o.pos), "%s", why)
	}
	for _, k := range []string{"blank leaf reused", "tree extended"} {
		c.oblige(kinds[k] > 0, "both kinds of addition occur", "ratchetTree.add "+k, c.pos(fn.Pos()), "no path: %s", k)
	}
}

// leafless: st knows a node of the tree to be a leaf without its content, which
// no tree has.
func leafless(st *State, tree *Term) bool {
	for f, v := range st.facts {
		if !v || f.Op != "eq" || f.Args[0] != tNil && f.Args[1] != tNil {
			continue
		}
		x := strip(f.Args[0])
		if x == tNil {
			x = strip(f.Args[1])
		}
		if x.Op == "field" && x.Aux == "leafNode" && strip(x.Args[0]).Op == "deref" {
			if n := strip(strip(x.Args[0]).Args[0]); n.Op == "sel" && same(n.Args[0], tree) && st.refuted(mkEq(n, tNil)) && st.holds(mkEq(mkField(x.Args[0], "nodeType"), mkInt(1))) {
				return true
			}
		}
	}
	return false
}

// pastEnd: st knows the counter of a loop over the leaves to be beyond their
// number, which is where the loop ends.
func pastEnd(st *State, tree *Term) bool {
	for f, v := range st.facts {
		if v || f.Op != "lt" {
			continue
		}
		li, ok := counter(f.Args[0])
		if ok && sizeOf(f.Args[1], tree) && boundedBy(li, f.Args[0], f.Args[1]) && st.refuted(mkEq(f.Args[0], f.Args[1])) {
			return true
		}
	}
	return false
}

// leafFirst reorders a store of the leaf made before a loop over its
// ancestors (which are other nodes) behind the loop.
func leafFirst(st *State, t, leaf *Term) *Term {
	li, init, _ := lvOf(t)
	if li == nil {
		return nil
	}
	i := strip(init)
	if i.Op != "upd" || !leafIs(st, i.Args[2], leaf) {
		return nil
	}
	return mk("upd", "", t, i.Args[1], i.Args[2])
}

// loopsIn are the loops whose variables st knows something about.
func loopsIn(st *State) []*LoopInfo {
	var l []*LoopInfo
	seen := map[*LoopInfo]bool{}
	for f := range st.facts {
		f.any(func(x *Term) bool {
			if li := lvInfo[x]; li != nil && !seen[li] {
				seen[li] = true
				l = append(l, li)
			}
			return false
		})
	}
	return l
}

// extended: grown is tree with as many blank nodes appended as it has, and one
// more.
func extended(st *State, grown, tree *Term) string {
	full := linOf(mkBin("+", mkBin("*", mkInt(2), mkLen(tree)), mkInt(1)))
	grown = strip(grown)
	if li, init, next := lvOf(grown); li != nil {
		if !same(init, tree) {
			return fmt.Sprintf("the tree is extended from %v", init)
		}
		missing := full.add(linK(mkLen(grown)), -1)
		for k, b := range li.back {
			if e := appendedOne(next[k], grown); e == nil || norm(e) != tNil {
				return fmt.Sprintf("the tree is extended with %v", next[k])
			}
			if knowsLess(b, missing) != 1 {
				return "the tree may be extended too far"
			}
		}
		if knowsLess(st, missing) != 0 {
			return "the tree may be extended too little"
		}
		return ""
	}
	if grown.Op == "copied" && same(grown.Args[1], tree) && strip(grown.Args[0]).Op == "zeros" && linOf(mkLen(grown)).equal(full) {
		return ""
	}
	if grown.Op == "append" && same(grown.Args[0], tree) {
		z := strip(through(st, grown.Args[1]))
		if z.Op == "zeros" && linOf(z.Args[0]).equal(linOf(mkBin("+", mkLen(tree), mkInt(1)))) {
			return ""
		}
	}
	return fmt.Sprintf("the tree is extended to %v", grown)
}

// unmergedAdded: t is a tree accepted by base with leaf pos added to the
// unmerged leaves of every present ancestor of node.
func unmergedAdded(st *State, t, node *Term, base func(*Term) string) string {
	li, init, next := lvOf(t)
	if li == nil {
		return "no ancestors are visited"
	}
	tree := strip(init)
	if tree.Op == "upd" && same(tree.Args[1], node) {
		tree = strip(tree.Args[0])
	}
	if why := base(tree); why != "" {
		return why
	}
	_, anc := climber(st, li, node, tree)
	for _, n := range next {
		if n = strip(n); anc == nil && n.Op == "upd" && strip(n.Args[1]).Op == "sel" {
			d := strip(n.Args[1])
			if it := iterOf(st, d.Args[0], li); it != nil && it.i == d.Args[1] && isDirectPath(st, d.Args[0], node, tree) {
				anc = d
			}
		}
	}
	if anc == nil {
		return "not all ancestors of the leaf are visited"
	}
	for k, b := range li.back {
		n := strip(next[k])
		at := mkSel(t, anc)
		if n == t {
			if !b.holds(mkEq(at, tNil)) {
				return "a present ancestor may be left unchanged"
			}
			continue
		}
		if n.Op != "upd" || n.Args[0] != t || !same(n.Args[1], anc) {
			return fmt.Sprintf("an iteration changes %v", n)
		}
		if !b.refuted(mkEq(at, tNil)) {
			return "a blank ancestor may be filled"
		}
		v := derefSnap(b.deepSnap(n.Args[2]))
		p := derefSnap(mkField(v, "parentNode"))
		old := mk("deref", "", mkField(mk("deref", "", at), "parentNode"))
		if mkField(v, "nodeType") != mkInt(2) && !same(mkField(v, "nodeType"), mkField(mk("deref", "", at), "nodeType")) {
			return "an ancestor becomes another kind of node"
		}
		for _, f := range []string{"encryptionKey", "parentHash"} {
			if !same(mkField(p, f), mkField(old, f)) {
				return fmt.Sprintf("an ancestor's %s becomes %v", f, mkField(p, f))
			}
		}
		um := mkField(p, "unmergedLeaves")
		if e := appendedIn(b, um, mkField(old, "unmergedLeaves")); e == nil || !(&linForm{}).add(linK(e), 2).equal(linK(node)) {
			return fmt.Sprintf("an ancestor's unmerged leaves become %v", um)
		}
	}
	return ""
}

func checkC27(c *Ctx) {
	c.guard("ratchetTree.add", c.addRule)
	c.guard("ratchetTree.update", c.updateRule)
	c.guard("ratchetTree.remove", c.removeRule)
	c.guard("ratchetTree.mergeUpdatePath", c.mergeRule)
	c.guard("ratchetTree.resolve", c.resolutionRule)
	c.guard("Group.processCommit", func() {
		r := c.commitRun()
		for _, o := range successes(r.outs) {
			g := o.st.load(r.gp)
			why := r.newTree(o.st, mkField(g, "tree"))
			c.count("applied", 1)
			c.oblige(why == "", "proposals applied in order, then the path", "Group.processCommit", c.pos(o.pos), "%s", why)
		}
	})
}
