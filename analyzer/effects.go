package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ownership of memory: which memory that existed before the analysed call may
// a pointer, slice or map value refer to.

type owner struct {
	c    *Ctx
	st   *State
	memo map[*Term]map[string]bool
	busy map[*Term]bool
}

func (c *Ctx) owner(st *State) *owner {
	return &owner{c: c, st: st, memo: map[*Term]map[string]bool{}, busy: map[*Term]bool{}}
}

// treeMutators change only the elements (and length) of the tree they are
// given; checked by mutatorRule.
var treeMutators = setOf("ratchetTree.add", "ratchetTree.remove", "ratchetTree.update", "ratchetTree.mergeUpdatePath")

// of is the set of parameters and globals whose memory t may be part of;
// empty means t was allocated during the call.
func (o *owner) of(t *Term) map[string]bool {
	if r, ok := o.memo[t]; ok {
		return r
	}
	if o.busy[t] {
		return nil
	}
	o.busy[t] = true
	r := map[string]bool{}
	add := func(ts ...*Term) {
		for _, x := range ts {
			for k := range o.of(x) {
				r[k] = true
			}
		}
	}
	switch t.Op {
	case "const", "alloc", "mk", "mkmap", "hobj", "random", "built", "sum", "zeros", "zero", "list", "errv", "func", "int", "varint", "enc",
		"bEmpty", "bempty", "hinit", "macinit", "emptymap", "bin", "len", "eq", "lt", "not", "dec", "candec", "can", "cap", "maplen", "maphas", "beq", "conv", "encerr", "sumsize", "copyn", "anyidx", "berr":
	case "sym":
		r[t.Aux] = true
	case "global":
		r["global "+t.Aux] = true
	case "lv":
		if init, next, ok := lvParts(t); ok {
			add(init)
			add(next...)
		} else {
			r["?"] = true
		}
	case "sel":
		if v := o.filled(t); v != nil {
			add(v...)
			break
		}
		add(t.Args[0])
		for x := strip(t.Args[0]); x.Op == "upd"; x = strip(x.Args[0]) {
			add(x.Args[2])
		}
	case "upd":
		add(t.Args[0], t.Args[2])
	case "append", "fa", "ia", "iap", "slice", "arr", "field", "mapget", "mapelem", "ext", "sub", "mapset", "mapdel":
		add(t.Args[0])
	case "call":
		if f, ok := t.Obj.(*ssa.Function); ok && f != nil && o.c.p.ours(f) {
			if !o.c.returnsFresh(f) {
				add(t.Args...)
			}
			break
		}
		if viewExternal(t.Aux) {
			add(t.Args...)
		}
	case "out":
		if treeMutators[t.Args[0].Aux] {
			add(t.Args[0].Args[0])
		} else {
			add(t.Args[0].Args...)
		}
	default:
		add(t.Args...)
	}
	delete(o.busy, t)
	if len(o.busy) == 0 {
		o.memo[t] = r
	}
	return r
}

// filled: t selects an element at an index of a sequence whose elements were
// all used as indices to fill the array; the filled values are returned.
func (o *owner) filled(t *Term) []*Term {
	arr, idx := strip(t.Args[0]), strip(t.Args[1])
	if idx.Op != "sel" {
		return nil
	}
	li, _, next := lvOf(arr)
	if li == nil {
		return nil
	}
	it := iterOf(o.st, idx.Args[0], li)
	if it == nil {
		return nil
	}
	var l []*Term
	for _, n := range next {
		n = strip(n)
		if n.Op != "upd" || n.Args[0] != arr || !same(n.Args[1], mkSel(idx.Args[0], it.i)) {
			return nil
		}
		l = append(l, n.Args[2])
	}
	return l
}

// viewExternal: external functions whose result may share memory with an
// argument.
func viewExternal(n string) bool {
	for _, p := range []string{"bytes.Trim", "bytes.Split", "bytes.Cut", "bytes.Fields", "slices.Grow", "slices.Clip", "slices.Insert", "slices.Delete", "slices.Compact", "slices.Replace", "bytes.NewBuffer", "bytes.NewReader", "append", "maps.", "unsafe."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

var freshCache = map[*ssa.Function]int{} // 1 fresh, 2 not, 3 running

// returnsFresh: everything f returns was allocated by f.
func (c *Ctx) returnsFresh(f *ssa.Function) bool {
	switch freshCache[f] {
	case 1, 3: // by induction for recursive calls
		return true
	case 2:
		return false
	}
	freshCache[f] = 3
	ok := true
	if len(f.Blocks) == 0 {
		ok = false
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					ok = false
				}
			}()
			name := fnName(f)
			e := c.engine(c.groupOpaque(nil, setOf(name)))
			for _, o := range e.Run(f, newState(), SymArgs(f)) {
				ow := c.owner(o.st)
				for i, r := range o.res {
					if pointery(f.Signature.Results().At(i).Type()) && len(ow.of(r)) > 0 {
						ok = false
					}
				}
			}
		}()
	}
	freshCache[f] = 2
	if ok {
		freshCache[f] = 1
	}
	return ok
}

func pointery(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Interface:
		return !types.Identical(t, types.Universe.Lookup("error").Type())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointery(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointery(u.Elem())
	}
	return true
}

// A write is a change of memory that existed before the call.
type write struct {
	addr   *Term
	owners []string
	st     *State
	pos    string
	where  string
}

// A effRun is a root analysed for its effects.
type effRun struct {
	c      *Ctx
	e      *Engine
	fn     *ssa.Function
	args   []*Term
	outs   []Outcome
	sites  map[*Term]string // memory root -> a position that writes it
	calls  map[*Term]string // memory root -> a call that is given it
	stores []write          // all stores, when hooked
	apps   []write          // appends to existing memory
	subs   []write          // those that overwrite existing elements
}

type callHook func(e *Engine, st *State, name string, args []*Term, in ssa.CallInstruction, fn *ssa.Function)

func (c *Ctx) effects(fn *ssa.Function, opaque func(*ssa.Function) bool) *effRun {
	return c.effectsHook(fn, opaque, nil)
}

func (c *Ctx) effectsHook(fn *ssa.Function, opaque func(*ssa.Function) bool, hook callHook) *effRun {
	r := &effRun{c: c, fn: fn, args: SymArgs(fn), sites: map[*Term]string{}, calls: map[*Term]string{}}
	r.e = c.engine(opaque)
	r.e.freshConv = true
	var apps []write
	root := func(a *Term) *Term {
		for a.Op == "fa" || a.Op == "ia" || a.Op == "iap" || a.Op == "mapelem" || a.Op == "slice" || a.Op == "arr" {
			a = a.Args[0]
		}
		return a
	}
	r.e.hooks.onStore = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		c.counts["writes_examined"]++
		if hook != nil {
			r.stores = append(r.stores, write{addr: addr, st: st.clone(), pos: c.pos(in.Pos()), where: fnName(in.Parent())})
		}
		if k := root(addr); r.sites[k] == "" {
			r.sites[k] = c.pos(in.Pos()) + " in " + fnName(in.Parent())
		}
	}
	r.e.hooks.onCall = func(e *Engine, st *State, name string, args []*Term, in ssa.CallInstruction, fn *ssa.Function) {
		if hook != nil {
			hook(e, st, name, args, in, fn)
		}
		for _, a := range args {
			if k := root(a); r.calls[k] == "" && k.Op != "const" && writesArg(c, fn, args, a) {
				r.calls[k] = c.pos(in.Pos()) + " (call of " + name + ")"
			}
		}
	}
	r.e.hooks.onAppend = func(e *Engine, st *State, base *Term, in ssa.Instruction) {
		c.counts["appends_examined"]++
		if !base.isConst() {
			apps = append(apps, write{addr: base, st: st.clone(), pos: c.pos(in.Pos()), where: fnName(in.Parent())})
		}
	}
	// package variables keep their identity
	gi, im := globalInit, initMaps
	globalInit, initMaps = map[string]*Term{}, map[*Term]*Term{}
	defer func() { globalInit, initMaps = gi, im }()
	r.outs = c.run(r.e, fn, nil, r.args)
	for _, w := range apps {
		if ow := c.owner(w.st).of(w.addr); len(ow) > 0 {
			w.owners = names(ow)
			r.apps = append(r.apps, w)
			if w.addr.Op == "slice" && w.addr.Args[2] != mkLen(w.addr.Args[0]) {
				r.subs = append(r.subs, w)
			}
		}
	}
	return r
}

// writesArg: the callee may write through argument a.
func writesArg(c *Ctx, fn *ssa.Function, args []*Term, a *Term) bool {
	if fn == nil || !c.p.ours(fn) {
		return true
	}
	for i, x := range args {
		if x == a && c.p.mayWrite(fn, i) {
			return true
		}
	}
	return false
}

func names(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// net are the changes of old memory visible when the call returns in st.
func (r *effRun) net(st *State) []write {
	var l []write
	ow := r.c.owner(st)
	for k, v := range st.mem {
		if v == initialOf(st, k) {
			continue
		}
		if len(k.roots) > 0 && (k.Op == "alloc" || k.Op == "mk" || k.Op == "mkmap" || k.Op == "hobj") {
			continue
		}
		o := ow.of(k)
		if len(o) == 0 {
			continue
		}
		l = append(l, write{addr: k, owners: names(o), st: st, pos: orPos(r.sites[k], r.calls[k])})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].addr.id < l[j].addr.id })
	return l
}

// mutatorRule: a tree mutator writes only the tree it is given (its length and
// elements) and memory it allocates itself; never the nodes.
func (c *Ctx) mutatorRule(name string) {
	fn := c.fn(name)
	r := c.effects(fn, c.groupOpaque(nil, setOf(name)))
	tree := r.args[0]
	for _, o := range r.outs {
		ok := true
		for _, w := range r.net(o.st) {
			t := w.addr
			if t == tree || t == mk("deref", "", tree) || growsFrom(t, tree) {
				continue
			}
			ok = false
			c.violate("tree operations change only the tree's slots", name, orPos(w.pos, c.pos(o.pos)), "writes %v (memory of %v), which other copies of the tree share", t, w.owners)
		}
		c.pass(ok, "tree operations change only the tree's slots", name)
	}
	for _, w := range r.subs {
		c.violate("tree operations change only the tree's slots", name, w.pos, "appends over existing elements of %v", w.addr)
	}
}

func orPos(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

// growsFrom: t is the tree slice, possibly extended in a loop.
func growsFrom(t, tree *Term) bool {
	base := mk("deref", "", tree)
	for t = strip(t); t.Op == "append"; t = strip(t.Args[0]) {
		if t.Args[0] == base || t.Args[0] == tree {
			return true
		}
	}
	li, init, next := lvOf(t)
	if li == nil {
		return false
	}
	if init != base && init != tree {
		return false
	}
	for _, n := range next {
		n = strip(n)
		for n.Op == "append" {
			n = n.Args[0]
		}
		if n != strip(t) {
			return false
		}
	}
	return true
}

func checkC06(c *Ctx) {
	for _, n := range sortedKeys(treeMutators) {
		c.guard(n, func() { c.mutatorRule(n) })
	}
	for _, fn := range c.groupMethods() {
		name := fnName(fn)
		c.guard(name, func() { c.groupUnchanged(fn) })
	}
}

// groupMethods are the operations on an existing group: exported methods, and
// commit processing.
func (c *Ctx) groupMethods() []*ssa.Function {
	var l []*ssa.Function
	for _, n := range sortedKeys(c.p.fns) {
		if strings.HasPrefix(n, "Group.") && types.IsInterface(c.p.fns[n].Signature.Recv().Type()) == false && exportedName(n[6:]) {
			l = append(l, c.p.fns[n])
		}
	}
	c.fn("Group.UnmarshalAndProcessMessage")
	return append(l, c.fn("Group.processCommit"))
}

func exportedName(n string) bool {
	return n != "" && n[0] >= 'A' && n[0] <= 'Z' && !strings.Contains(n, "$")
}

func (c *Ctx) groupUnchanged(fn *ssa.Function) {
	name := fnName(fn)
	mutates := name == "Group.UnmarshalAndProcessMessage" || name == "Group.processCommit"
	opq := setOf("resolveProposals", "extractPSKSecret")
	if name != "Group.processCommit" {
		opq["Group.processCommit"] = true
	}
	r := c.effects(fn, c.groupOpaque(opq, nil))
	gp := r.args[0]
	for _, o := range r.outs {
		failed := false
		var commitErr *Term // error of commit processing returned as is
		if n := len(o.res); n > 0 {
			last := o.res[n-1]
			failed = o.st.truth(mkEq(last, tNil)) == 0
			if last.Op == "call" && last.Aux == "Group.processCommit" {
				commitErr = last
			}
		}
		ok := true
		bad := func(w write, format string, args ...any) {
			ok = false
			c.violate("group left unchanged", name, orPos(w.pos, c.pos(o.pos)), format, args...)
		}
		for _, w := range r.net(o.st) {
			t := w.addr
			switch {
			case t == gp && mutates && !failed && (commitErr == nil || onlyCommit(o.st.mem[gp], commitErr)):
				// the intended change of a successful operation; C07-C10
			case t.Op == "append" && mutates && !failed && commitErr == nil:
				// elements of a list the group is given
			case t == gp && mutates:
				bad(w, "on a path that returns an error the group has been changed to %v", brief(o.st.mem[gp]))
			case t == gp:
				bad(w, "the group is changed to %v", brief(o.st.mem[gp]))
			default:
				bad(w, "writes memory of %v: %v", w.owners, brief(t))
			}
		}
		c.pass(ok, "group left unchanged", name)
	}
	for _, w := range r.subs {
		c.violate("group left unchanged", name, w.pos, "append overwrites elements of %v", brief(w.addr))
	}
	c.count("operations", 1)
}

// onlyCommit: the group value is exactly what commit processing left.
func onlyCommit(g, call *Term) bool {
	return g != nil && g.Op == "out" && g.Aux == "0" && g.Args[0] == call
}

func brief(t *Term) string {
	s := t.String()
	if len(s) > 200 {
		s = s[:190] + "…"
	}
	return s
}
