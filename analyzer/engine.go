package main

import (
	"fmt"
	"go/token"
	"go/types"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An Outcome is one way a function can return.
type Outcome struct {
	st  *State
	res []*Term
	pos token.Pos
	fn  *ssa.Function
}

// LoopInfo summarises a loop for universally quantified obligations.
type LoopInfo struct {
	id    string
	fn    *ssa.Function
	pos   token.Pos
	init  map[string]*Term   // loop-variant name -> value on entry
	lv    map[string]*Term   // loop-variant name -> header term
	next  map[string][]*Term // loop-variant name -> values at back edges
	back  []*State           // states at the back edges (one generic iteration)
	entry *State
	prov  bool // recorded while an enclosing loop was not stable yet
}

type Hooks struct {
	onCall    func(e *Engine, st *State, name string, args []*Term, instr ssa.CallInstruction, fn *ssa.Function)
	onStore   func(e *Engine, st *State, addr, val *Term, instr ssa.Instruction)
	onLoad    func(e *Engine, st *State, addr *Term, instr ssa.Instruction)
	onAddr    func(e *Engine, st *State, ptr *Term, instr ssa.Instruction) // field address / deref of ptr
	onIndex   func(e *Engine, st *State, base, idx *Term, instr ssa.Instruction)
	onSlice   func(e *Engine, st *State, base, lo, hi *Term, instr *ssa.Slice)
	onPanic   func(e *Engine, st *State, instr *ssa.Panic)
	onCompare func(e *Engine, st *State, a, b *Term, instr *ssa.BinOp)
	onAppend  func(e *Engine, st *State, base *Term, instr ssa.Instruction)
	onMake    func(e *Engine, st *State, size *Term, instr ssa.Instruction)
	onTreeOp  func(e *Engine, st *State, name string, args []*Term, instr ssa.CallInstruction) // as onCall
	onNarrow  func(e *Engine, st *State, x *Term, instr *ssa.Convert)                          // 64 to 32 bits
}

// Engine runs the path-sensitive, interprocedural provenance analysis.
type Engine struct {
	p         *Program
	opaque    func(fn *ssa.Function) bool
	model     map[string]modelFunc // overrides / additions to the external models
	hooks     Hooks
	quiet     int
	freshConv bool // []byte(s) allocates
	loops     map[string]*LoopInfo
	stack     []frame
	pinned    map[*Term]bool
	budget    int
	fresh     int
	undec     []string
	saved     [][]*Term
}

type frame struct {
	fn   *ssa.Function
	ctx  string
	site ssa.Instruction
}

type modelFunc func(e *Engine, st *State, c *callCtx) []callRes

type callRes struct {
	st  *State
	val *Term // single value, or tuple term
}

type callCtx struct {
	name  string
	args  []*Term
	instr ssa.CallInstruction
	fn    *ssa.Function // static callee, may be nil
	sig   *types.Signature
	ctx   string
	id    string // unique call site id
}

func newEngine(p *Program) *Engine {
	return &Engine{p: p, opaque: func(*ssa.Function) bool { return false }, model: map[string]modelFunc{},
		loops: map[string]*LoopInfo{}, pinned: map[*Term]bool{}, budget: 4000000}
}

type undecided struct{ msg string }

func (e *Engine) fail(format string, args ...any) {
	panic(undecided{fmt.Sprintf(format, args...)})
}

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if fn.Signature.Recv() != nil {
		t := fn.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		pre := ""
		if fn.Pkg != nil && fn.Pkg.Pkg.Name() != "mls" {
			pre = fn.Pkg.Pkg.Name() + "."
		} else if fn.Pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil && fn.Object().Pkg().Name() != "mls" {
			pre = fn.Object().Pkg().Name() + "."
		}
		if n, ok := t.(*types.Named); ok {
			return pre + n.Obj().Name() + "." + fn.Name()
		}
		return pre + typeStr(t) + "." + fn.Name()
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Name() != "mls" {
		return fn.Pkg.Pkg.Path() + "." + fn.Name()
	}
	if fn.Pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil && fn.Object().Pkg().Name() != "mls" {
		return fn.Object().Pkg().Path() + "." + fn.Name()
	}
	return fn.Name()
}

func (e *Engine) ctx() string {
	if len(e.stack) == 0 {
		return ""
	}
	return e.stack[len(e.stack)-1].ctx
}

// Run analyses fn with the given arguments from state st.
func (e *Engine) Run(fn *ssa.Function, st *State, args []*Term) []Outcome {
	return e.runFn(fn, st, args, nil, fnName(fn), nil)
}

// SymArgs makes one symbolic argument per parameter.
func SymArgs(fn *ssa.Function) []*Term {
	var l []*Term
	for _, p := range fn.Params {
		t := mk("sym", p.Name())
		l = append(l, t)
	}
	return l
}

func (e *Engine) inStack(fn *ssa.Function) bool {
	for _, f := range e.stack {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (e *Engine) runFn(fn *ssa.Function, st *State, args, free []*Term, ctx string, site ssa.Instruction) []Outcome {
	if len(fn.Blocks) == 0 {
		e.fail("function %s has no body", fnName(fn))
	}
	if stats.inlined == nil {
		stats.inlined = map[string]bool{}
	}
	stats.inlined[fnName(fn)] = true
	e.stack = append(e.stack, frame{fn, ctx, site})
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	if len(e.stack) > 60 {
		e.fail("call depth exceeded in %s", fnName(fn))
	}
	callerEnv := st.env
	ns := st
	ns.env = map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		if i < len(args) {
			ns.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			ns.env[f] = free[i]
		}
	}
	var held []*Term
	for _, v := range callerEnv {
		held = append(held, v)
	}
	e.saved = append(e.saved, held)
	defer func() { e.saved = e.saved[:len(e.saved)-1] }()
	fi := e.p.info(fn)
	r := &region{e: e, fi: fi, ctx: ctx}
	r.run([]pend{{st: ns, blk: fn.Blocks[0]}}, nil)
	if len(r.exits) > 0 || len(r.backs) > 0 {
		e.fail("internal: stray exits in %s", fnName(fn))
	}
	// restore the caller's registers, drop unreachable fresh objects
	keep := map[*Term]bool{}
	for _, v := range callerEnv {
		for _, root := range v.roots {
			keep[root] = true
		}
	}
	for _, a := range args {
		for _, root := range a.roots {
			keep[root] = true
		}
	}
	var outs []Outcome
	for _, o := range r.outs {
		o.st.env = callerEnv
		e.gc(o.st, keep, o.res)
		outs = append(outs, o)
	}
	outs = mergeOutcomes(outs)
	for i := range outs {
		// env maps are shared between outcomes: copy
		env := make(map[ssa.Value]*Term, len(callerEnv)+4)
		for k, v := range callerEnv {
			env[k] = v
		}
		outs[i].st.env = env
	}
	return outs
}

func (e *Engine) gc(st *State, keep map[*Term]bool, res []*Term) {
	live := map[*Term]bool{}
	var work []*Term
	add := func(t *Term) {
		for _, r := range t.roots {
			if !live[r] {
				live[r] = true
				work = append(work, r)
			}
		}
	}
	for k := range keep {
		add(k)
	}
	for _, f := range e.frameRoots() {
		add(f)
	}
	for _, t := range res {
		add(t)
	}
	for p := range e.pinned {
		add(p)
	}
	for k, v := range st.mem {
		if len(k.roots) == 0 {
			add(v)
		}
	}
	// fixpoint over memory
	for changed := true; changed; {
		changed = false
		for k, v := range st.mem {
			if len(k.roots) == 0 {
				continue
			}
			all := true
			for _, r := range k.roots {
				if !live[r] {
					all = false
				}
			}
			if all {
				n := len(live)
				add(v)
				if len(live) != n {
					changed = true
				}
			}
		}
	}
	for k := range st.mem {
		for _, r := range k.roots {
			if !live[r] {
				delete(st.mem, k)
				break
			}
		}
	}
}

func (e *Engine) frameRoots() []*Term {
	var l []*Term
	for _, f := range e.saved {
		for _, v := range f {
			l = append(l, v)
		}
	}
	return l
}

func mergeOutcomes(outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	groups := map[string][]Outcome{}
	var order []string
	for _, o := range outs {
		var l []string
		for k, v := range o.st.mem {
			l = append(l, strconv.Itoa(k.id)+"="+strconv.Itoa(v.id))
		}
		sort.Strings(l)
		k := strings.Join(l, ";") + "|"
		for _, r := range o.res {
			k += strconv.Itoa(r.id) + ","
		}
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	var res []Outcome
	for _, k := range order {
		g := groups[k]
		var sts []*State
		for _, o := range g {
			sts = append(sts, o.st)
		}
		for _, s := range mergeFacts(sts) {
			pos := g[0].pos
			for _, o := range g {
				if o.st == s {
					pos = o.pos
				}
			}
			res = append(res, Outcome{st: s, res: g[0].res, pos: pos, fn: g[0].fn})
		}
	}
	return res
}

// ---- regions and loops ----------------------------------------------------

type pend struct {
	st   *State
	blk  *ssa.BasicBlock
	pred *ssa.BasicBlock
}

type region struct {
	e     *Engine
	fi    *fnInfo
	ctx   string
	outs  []Outcome
	exits []pend // edges leaving the loop region
	backs []pend // edges to the loop header

	header    *ssa.BasicBlock // header of the loop being unrolled
	undecided bool            // its condition is not a constant
}

func (r *region) run(start []pend, loop *loopNode) {
	pending := map[*ssa.BasicBlock][]pend{}
	for _, p := range start {
		pending[p.blk] = append(pending[p.blk], p)
	}
	first := true
	for _, b := range r.fi.rpo {
		if loop != nil && !loop.blocks[b] {
			continue
		}
		ps := pending[b]
		if len(ps) == 0 {
			continue
		}
		delete(pending, b)
		if inner := r.fi.headerOf[b]; inner != nil && !(loop == inner && first) {
			// collapse the inner loop
			outEdges := r.runLoop(inner, ps)
			for _, p := range outEdges {
				r.route(p, loop, pending)
			}
			continue
		}
		var states []*State
		if loop != nil && b == loop.header {
			for _, p := range ps {
				states = append(states, p.st) // phis already bound
			}
			first = false
		} else {
			states = r.enter(b, ps)
		}
		for _, s := range states {
			r.execBlock(b, s, func(p pend) { r.route(p, loop, pending) })
		}
	}
	for b, ps := range pending {
		if len(ps) > 0 {
			r.e.fail("irreducible control flow in %s block %d", fnName(r.fi.fn), b.Index)
		}
	}
}

func (r *region) route(p pend, loop *loopNode, pending map[*ssa.BasicBlock][]pend) {
	if loop != nil {
		if p.blk == loop.header {
			r.backs = append(r.backs, p)
			return
		}
		if !loop.blocks[p.blk] {
			r.exits = append(r.exits, p)
			return
		}
	}
	pending[p.blk] = append(pending[p.blk], p)
}

// enter binds the phis of b for each incoming state, prunes dead registers and
// merges.
func (r *region) enter(b *ssa.BasicBlock, ps []pend) []*State {
	var states []*State
	for _, p := range ps {
		r.bindPhis(b, p)
		r.prune(b, p.st)
		states = append(states, p.st)
	}
	return mergeStates(states)
}

func (r *region) bindPhis(b *ssa.BasicBlock, p pend) {
	if p.pred == nil {
		return
	}
	idx := -1
	for i, q := range b.Preds {
		if q == p.pred {
			idx = i
		}
	}
	vals := map[*ssa.Phi]*Term{}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[phi] = r.e.val(p.st, phi.Edges[idx])
	}
	for phi, v := range vals {
		p.st.env[phi] = v
	}
}

func (r *region) prune(b *ssa.BasicBlock, st *State) {
	live := r.fi.liveIn[b]
	for v := range st.env {
		if !live[v] {
			delete(st.env, v)
		}
	}
}

func (r *region) runLoop(l *loopNode, ps []pend) []pend {
	ins := r.enter(l.header, ps)
	var out []pend
	for _, in := range ins {
		// the name of a loop's variant terms depends on the values it starts
		// from, so that two runs from different values do not get confused
		h := fnv.New32a()
		h.Write([]byte(in.envMemKey()))
		id := fmt.Sprintf("%s@%d#%x", r.ctx, l.header.Index, h.Sum32())
		out = append(out, r.oneLoop(l, in, id)...)
	}
	return out
}

// ifaceOf is the interface a value had before it was converted to another one.
var ifaceOf = map[*Term]types.Type{}

// maxUnroll bounds the number of iterations of an unrolled loop.
const maxUnroll = 8

// unrollable: the loop tests its condition in the header and its body calls
// functions (a loop that only moves data is summarised instead).
func unrollable(l *loopNode) bool {
	if _, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if _, ok := call.Call.Value.(*ssa.Builtin); !ok {
					return true
				}
			}
		}
	}
	return false
}

// unroll executes a loop whose number of iterations is a small constant, such
// as a loop over the elements of an array literal.
func (r *region) unroll(l *loopNode, in *State) ([]pend, []Outcome, bool) {
	var exits []pend
	var outs []Outcome
	cur := []*State{in}
	for n := 0; len(cur) > 0; n++ {
		if n > maxUnroll {
			return nil, nil, false
		}
		var next []*State
		for _, s := range cur {
			sub := &region{e: r.e, fi: r.fi, ctx: fmt.Sprintf("%s~%d", r.ctx, n), header: l.header}
			r.e.saved = append(r.e.saved, r.envTerms(s))
			sub.run([]pend{{st: s.clone(), blk: l.header}}, l)
			r.e.saved = r.e.saved[:len(r.e.saved)-1]
			if sub.undecided {
				return nil, nil, false
			}
			for _, b := range sub.backs {
				sub.bindPhis(l.header, b)
				sub.prune(l.header, b.st)
				next = append(next, b.st)
			}
			exits = append(exits, sub.exits...)
			outs = append(outs, sub.outs...)
		}
		cur = mergeStates(next)
	}
	return exits, outs, true
}

func (r *region) oneLoop(l *loopNode, in *State, id string) []pend {
	e := r.e
	if unrollable(l) {
		e.quiet++
		_, _, ok := r.unroll(l, in)
		e.quiet--
		if ok {
			exits, outs, _ := r.unroll(l, in)
			r.outs = append(r.outs, outs...)
			return exits
		}
	}
	head := in.clone()
	li := &LoopInfo{id: id, fn: r.fi.fn, pos: l.pos, entry: in, prov: e.quiet > 0}
	for pass := 0; ; pass++ {
		if pass > 14 {
			e.fail("loop in %s does not stabilise", fnName(r.fi.fn))
		}
		e.quiet++
		sub := &region{e: e, fi: r.fi, ctx: r.ctx}
		e.saved = append(e.saved, r.envTerms(head))
		sub.run([]pend{{st: head.clone(), blk: l.header}}, l)
		e.saved = e.saved[:len(e.saved)-1]
		e.quiet--
		// bind phis on back edges
		for _, b := range sub.backs {
			sub.bindPhis(l.header, b)
			sub.prune(l.header, b.st)
		}
		next := generalize(e, id, in, head, sub.backs)
		if sameState(next, head) {
			break
		}
		head = next
	}
	li.init, li.lv, li.next = map[string]*Term{}, map[string]*Term{}, map[string][]*Term{}
	describeLoop(li, in, head)
	if old := e.loops[id]; old != nil && !old.prov && !sameNames(old.lv, li.lv) {
		return r.oneLoop(l, in, id+"'")
	}
	// final pass with hooks on
	sub := &region{e: e, fi: r.fi, ctx: r.ctx}
	e.saved = append(e.saved, r.envTerms(head))
	sub.run([]pend{{st: head.clone(), blk: l.header}}, l)
	e.saved = e.saved[:len(e.saved)-1]
	for _, b := range sub.backs {
		sub.bindPhis(l.header, b)
		sub.prune(l.header, b.st)
		li.back = append(li.back, b.st)
	}
	li.init, li.lv, li.next = map[string]*Term{}, map[string]*Term{}, map[string][]*Term{}
	describeLoop(li, in, head)
	if old := e.loops[id]; old != nil && !old.prov {
		if !li.prov {
			// same values, other facts: one loop with the iterations of both
			old.back = append(old.back, li.back...)
			for n := range old.next {
				old.next[n] = append(old.next[n], li.next[n]...)
			}
			li = old
		}
	} else {
		e.loops[id] = li
	}
	for n, t := range e.loops[id].lv {
		lvInfo[t], lvName[t] = e.loops[id], n
	}
	stats.loops++
	for _, t := range li.init {
		for _, rt := range t.roots {
			e.pinned[rt] = true
		}
	}
	for _, m := range li.next {
		for _, t := range m {
			for _, rt := range t.roots {
				e.pinned[rt] = true
			}
		}
	}
	r.outs = append(r.outs, sub.outs...)
	return sub.exits
}

func sameNames(a, b map[string]*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for n := range a {
		if b[n] == nil {
			return false
		}
	}
	return true
}

func (r *region) envTerms(st *State) []*Term {
	var l []*Term
	for _, v := range st.env {
		l = append(l, v)
	}
	return l
}

func sameState(a, b *State) bool {
	if len(a.env) != len(b.env) || len(a.mem) != len(b.mem) {
		return false
	}
	for k, v := range a.env {
		if b.env[k] != v {
			return false
		}
	}
	for k, v := range a.mem {
		if b.mem[k] != v {
			return false
		}
	}
	return true
}

// generalize computes the next header state: everything that differs between
// the entry state and some back edge becomes a loop-variant term.
func generalize(e *Engine, id string, in, head *State, backs []pend) *State {
	n := head.clone()
	// loop-variant memory: only roots known at the header matter
	for _, b := range backs {
		for k, v := range n.env {
			if w, ok := b.st.env[k]; ok && w != v {
				n.env[k] = antiUnify(id, regName(k), in.env[k], v, w)
			}
		}
		for k, w := range b.st.mem {
			v, ok := n.mem[k]
			if !ok {
				if hasFreshOutside(k, in) {
					continue // object created inside the loop
				}
				v = initialOf(in, k)
			}
			if v != w {
				iv, ok := in.mem[k]
				if !ok {
					iv = initialOf(in, k)
				}
				n.mem[k] = antiUnify(id, "m:"+strconv.Itoa(k.id), iv, v, w)
			}
		}
	}
	return n
}

func initialOf(st *State, k *Term) *Term {
	t := &State{mem: map[*Term]*Term{}}
	_ = st
	switch k.Op {
	case "mk", "append", "lv", "slice":
		return t.content(k)
	}
	if isSliceRoot[k] {
		return t.content(k)
	}
	return t.load(k)
}

// isSliceRoot remembers memory roots that are slice values (content roots).
var isSliceRoot = map[*Term]bool{}

// hasFreshOutside reports whether k is rooted in an object that did not exist
// at loop entry.
func hasFreshOutside(k *Term, in *State) bool {
	for _, r := range k.roots {
		if _, ok := in.mem[r]; !ok {
			return true
		}
	}
	return false
}

func regName(v ssa.Value) string {
	if phi, ok := v.(*ssa.Phi); ok && phi.Comment != "" {
		return phi.Comment + "." + phi.Name()
	}
	return v.Name()
}

func mkLv(id, name string) *Term {
	t := mk("lv", id+":"+name)
	return t
}

func antiUnify(id, name string, init, a, b *Term) *Term {
	if a == b {
		return a
	}
	lvt := mkLv(id, name)
	if a == lvt {
		return a
	}
	if a.Op == "bin" && a.Args[0] == lvt {
		return a
	}
	if init != nil {
		if n, ok := init.intVal(); ok && n == -1 {
			return mkBin("+", lvt, mkInt(-1))
		}
	}
	// field-wise for structures
	fa, basea, ok1 := fieldsOf(a)
	fb, baseb, ok2 := fieldsOf(b)
	if (ok1 || ok2) && basea == baseb {
		names := map[string]bool{}
		for n := range fa {
			names[n] = true
		}
		for n := range fb {
			names[n] = true
		}
		out := map[string]*Term{}
		for n := range names {
			var fi *Term
			if init != nil {
				fi = mkField(init, n)
			}
			out[n] = antiUnify(id, name+"."+n, fi, mkField(a, n), mkField(b, n))
		}
		return mkWithFields(basea, out, nil)
	}
	return lvt
}

func fieldsOf(t *Term) (map[string]*Term, *Term, bool) {
	if t.Op == "with" {
		m := map[string]*Term{}
		for i, n := range strings.Split(t.Aux, ",") {
			m[n] = t.Args[i+1]
		}
		return m, t.Args[0], true
	}
	return nil, t, false
}

// describeLoop records init/next values for every loop-variant term.
func describeLoop(li *LoopInfo, in, head *State) {
	add := func(name string, h, init *Term, nexts []*Term) {
		collectLv(li, name, h, init, nexts)
	}
	for k, h := range head.env {
		init := in.env[k]
		if init == nil || h == init {
			continue
		}
		var nx []*Term
		for _, b := range li.back {
			if v, ok := b.env[k]; ok {
				nx = append(nx, v)
			}
		}
		add(regName(k), h, init, nx)
	}
	for k, h := range head.mem {
		init, ok := in.mem[k]
		if !ok {
			init = initialOf(in, k)
		}
		if h == init {
			continue
		}
		var nx []*Term
		for _, b := range li.back {
			v, ok := b.mem[k]
			if !ok {
				v = initialOf(in, k)
			}
			nx = append(nx, v)
		}
		add("m:"+strconv.Itoa(k.id), h, init, nx)
	}
}

func collectLv(li *LoopInfo, name string, h, init *Term, nexts []*Term) {
	lvt := mkLv(li.id, name)
	if h == lvt {
		li.lv[name], li.init[name], li.next[name] = h, init, nexts
		return
	}
	if h.Op == "bin" && h.Args[0] == lvt { // shifted induction variable
		_, c := linear(h)
		var nx []*Term
		for _, n := range nexts {
			nx = append(nx, mkBin("+", n, mkInt(-c)))
		}
		li.lv[name], li.init[name], li.next[name] = lvt, mkBin("+", init, mkInt(-c)), nx
		return
	}
	if f, _, ok := fieldsOf(h); ok {
		for n := range f {
			var nx []*Term
			for _, t := range nexts {
				nx = append(nx, mkField(t, n))
			}
			collectLv(li, name+"."+n, mkField(h, n), mkField(init, n), nx)
		}
	}
}

var lvInfo = map[*Term]*LoopInfo{}
var lvName = map[*Term]string{}

// lvNext returns entry value and back-edge values of a loop-variant term.
func lvParts(t *Term) (init *Term, next []*Term, ok bool) {
	li := lvInfo[t]
	if li == nil {
		return nil, nil, false
	}
	n := lvName[t]
	return li.init[n], li.next[n], true
}

// ---- instructions ---------------------------------------------------------

func (e *Engine) val(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v.Value, v.Type())
	case *ssa.Global:
		n := v.Name()
		if v.Pkg != nil && v.Pkg.Pkg.Name() != "mls" {
			n = v.Pkg.Pkg.Path() + "." + n
		}
		t := mk("global", n)
		t.Typ = v.Type()
		return t
	case *ssa.Function:
		t := mk("func", fnName(v))
		t.Obj = v
		return t
	case *ssa.Builtin:
		return mk("builtin", v.Name())
	}
	t, ok := st.env[v]
	if !ok {
		e.fail("internal: no value for %s in %s", v.Name(), v.Parent())
	}
	return t
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func intWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Int64, types.Uint64, types.Int, types.Uint, types.Uintptr:
		return 64
	}
	return 0
}

func isKind(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

func (e *Engine) pos(p token.Pos) string { return e.p.pos(p) }

func (r *region) execBlock(b *ssa.BasicBlock, st *State, route func(pend)) {
	stats.blocks++
	r.execFrom(b, 0, st, route)
}

func (r *region) execFrom(b *ssa.BasicBlock, i int, st *State, route func(pend)) {
	e := r.e
	for ; i < len(b.Instrs); i++ {
		e.budget--
		if e.budget < 0 {
			e.fail("analysis budget exhausted in %s", fnName(r.fi.fn))
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := e.val(st, in.Cond)
			tr := st.truth(c)
			if b == r.header && c != tTrue && c != tFalse {
				r.undecided = true
			}
			if tr != 0 {
				s := st
				if tr < 0 {
					s = st.clone()
					if !s.assume(c, true) {
						s = nil
					}
				}
				if s != nil {
					route(pend{st: s, blk: b.Succs[0], pred: b})
				}
			}
			if tr != 1 {
				if st.assume(c, false) {
					route(pend{st: st, blk: b.Succs[1], pred: b})
				}
			}
			return
		case *ssa.Jump:
			route(pend{st: st, blk: b.Succs[0], pred: b})
			return
		case *ssa.Return:
			var res []*Term
			for _, v := range in.Results {
				res = append(res, e.val(st, v))
			}
			r.outs = append(r.outs, Outcome{st: st, res: res, pos: in.Pos(), fn: r.fi.fn})
			return
		case *ssa.Panic:
			if e.hooks.onPanic != nil && e.quiet == 0 {
				e.hooks.onPanic(e, st, in)
			}
			return
		case *ssa.Defer:
			// executed where the function is left
		case *ssa.RunDefers:
			sts := []*State{st}
			for _, d := range e.deferred(in) {
				var next []*State
				for _, s := range sts {
					for _, x := range e.call(r, s, d) {
						next = append(next, x.st)
					}
				}
				sts = mergeStates(next)
			}
			if len(sts) != 1 {
				for _, s := range sts {
					r.execFrom(b, i+1, s, route)
				}
				return
			}
			st = sts[0]
		case *ssa.Call:
			rs := e.call(r, st, in)
			if len(rs) == 0 {
				return
			}
			if len(rs) > 1 {
				var sts []*State
				for _, x := range rs {
					x.st.env[in] = x.val
					sts = append(sts, x.st)
				}
				sts = mergeStates(sts)
				for _, s := range sts {
					r.execFrom(b, i+1, s, route)
				}
				return
			}
			st = rs[0].st
			st.env[in] = rs[0].val
		default:
			if v := e.exec(r, st, b.Instrs[i]); v != nil {
				st.env[b.Instrs[i].(ssa.Value)] = v
			}
		}
	}
}

func (e *Engine) site(r *region, in ssa.Instruction) string {
	return r.ctx + "/" + e.p.instrID(in)
}

func (e *Engine) exec(r *region, st *State, in ssa.Instruction) *Term {
	switch in := in.(type) {
	case *ssa.Alloc:
		a := mk("alloc", e.site(r, in)+"."+in.Comment)
		elem := in.Type().Underlying().(*types.Pointer).Elem()
		a.Typ = elem
		st.mem[a] = zeroOf(elem)
		return a
	case *ssa.FieldAddr:
		base := e.val(st, in.X)
		if e.hooks.onAddr != nil && e.quiet == 0 {
			e.hooks.onAddr(e, st, base, in)
		}
		stt := in.X.Type().Underlying().(*types.Pointer).Elem()
		f := stt.Underlying().(*types.Struct).Field(in.Field).Name()
		return mkFA(base, f, stt)
	case *ssa.Field:
		v := e.val(st, in.X)
		f := in.X.Type().Underlying().(*types.Struct).Field(in.Field).Name()
		return mkField(v, f)
	case *ssa.IndexAddr:
		base, idx := e.val(st, in.X), e.val(st, in.Index)
		if e.hooks.onIndex != nil && e.quiet == 0 {
			e.hooks.onIndex(e, st, base, idx, in)
		}
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			return mk("iap", "", base, idx)
		}
		isSliceRoot[sliceRoot(base)] = true
		return elemAddr(base, idx)
	case *ssa.Index:
		base, idx := e.val(st, in.X), e.val(st, in.Index)
		return mkSel(base, idx)
	case *ssa.UnOp:
		x := e.val(st, in.X)
		switch in.Op {
		case token.MUL:
			if e.hooks.onAddr != nil && e.quiet == 0 {
				e.hooks.onAddr(e, st, x, in)
			}
			if e.hooks.onLoad != nil && e.quiet == 0 {
				e.hooks.onLoad(e, st, x, in)
			}
			v := st.load(x)
			return v
		case token.NOT:
			return mkNot(x)
		case token.SUB:
			return mkBin("-", mkInt(0), x)
		case token.XOR:
			return mk("un", "^", x)
		}
		e.fail("unsupported unary %s at %s", in.Op, e.pos(in.Pos()))
	case *ssa.BinOp:
		return e.binop(st, in)
	case *ssa.Store:
		addr, v := e.val(st, in.Addr), e.val(st, in.Val)
		if e.hooks.onAddr != nil && e.quiet == 0 {
			e.hooks.onAddr(e, st, addr, in)
		}
		if e.hooks.onStore != nil && e.quiet == 0 {
			e.hooks.onStore(e, st, addr, v, in)
		}
		st.store(addr, v)
		return nil
	case *ssa.ChangeType:
		return e.val(st, in.X)
	case *ssa.Convert:
		x := e.val(st, in.X)
		from, to := in.X.Type(), in.Type()
		wf, wt := intWidth(from), intWidth(to)
		if wf != 0 && wt != 0 {
			if wt < 32 && wt < wf {
				if n, ok := x.intVal(); ok {
					return mkInt(n & (1<<uint(wt) - 1))
				}
				return mk("conv", "uint"+strconv.Itoa(wt), x)
			}
			if wt < wf && e.hooks.onNarrow != nil && e.quiet == 0 {
				e.hooks.onNarrow(e, st, x, in)
			}
			if wt < wf && isKind(from, types.Uint64) && !x.isConst() && x.Op != "len" {
				return mk("conv", "uint"+strconv.Itoa(wt), x)
			}
			return x
		}
		if wf != 0 || wt != 0 {
			return mk("conv", typeStr(to), x)
		}
		if e.freshConv && isString(from) && isBytes(to) && !x.isConst() {
			t := mk("mk", e.site(r, in)+"#bytes", mkLen(x))
			t.Typ = types.Typ[types.Byte]
			isSliceRoot[t] = true
			st.mem[t] = x
			return t
		}
		return x // string <-> []byte and named types: same content
	case *ssa.MakeInterface:
		x := e.val(st, in.X)
		t := mk("iface", typeStr(in.X.Type()), x)
		t.Typ = in.X.Type()
		return t
	case *ssa.ChangeInterface:
		x := e.val(st, in.X)
		if _, ok := ifaceOf[x]; !ok && x.Op != "iface" && x != tNil {
			ifaceOf[x] = in.X.Type()
		}
		return x
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var args []*Term
		for _, b := range in.Bindings {
			args = append(args, e.val(st, b))
		}
		t := mk("closure", fnName(fn), args...)
		t.Obj = fn
		return t
	case *ssa.MakeSlice:
		n := e.val(st, in.Len)
		if e.hooks.onMake != nil && e.quiet == 0 {
			e.hooks.onMake(e, st, n, in)
			if k := e.val(st, in.Cap); k != n {
				e.hooks.onMake(e, st, k, in)
			}
		}
		t := mk("mk", e.site(r, in), n)
		t.Typ = in.Type().Underlying().(*types.Slice).Elem()
		st.mem[t] = mkZeros(t)
		return t
	case *ssa.MakeMap:
		t := mk("mkmap", e.site(r, in))
		st.mem[t] = mk("emptymap", "")
		return t
	case *ssa.MapUpdate:
		m, k, v := e.val(st, in.Map), e.val(st, in.Key), e.val(st, in.Value)
		k = e.snap(st, k, nil)
		if e.hooks.onStore != nil && e.quiet == 0 {
			e.hooks.onStore(e, st, mk("mapelem", "", m, k), v, in)
		}
		st.mem[m] = mkMapSet(st.load(m), k, v)
		return nil
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			return mkSel(e.val(st, in.X), e.val(st, in.Index))
		}
		m, k := e.val(st, in.X), e.snap(st, e.val(st, in.Index), nil)
		c := st.load(m)
		if m == tNil {
			c = mk("emptymap", "")
		}
		vt := in.X.Type().Underlying().(*types.Map).Elem()
		v := mkMapGet(c, k, vt)
		if in.CommaOk {
			return mk("tuple", "", v, mkMapHas(c, k))
		}
		return v
	case *ssa.Extract:
		return mkExt(e.val(st, in.Tuple), in.Index)
	case *ssa.Slice:
		return e.sliceOp(st, in)
	case *ssa.TypeAssert:
		x := e.val(st, in.X)
		if x.Op == "iface" && types.Identical(x.Typ, in.AssertedType) {
			if in.CommaOk {
				return mk("tuple", "", x.Args[0], tTrue)
			}
			return x.Args[0]
		}
		if in.CommaOk {
			return mk("tuple", "", mk("assert", typeStr(in.AssertedType), x), mk("isa", typeStr(in.AssertedType), x))
		}
		return mk("assert", typeStr(in.AssertedType), x)
	case *ssa.Range:
		return mk("range", e.site(r, in), st.load(e.val(st, in.X)))
	case *ssa.Next:
		it := e.val(st, in.Iter)
		n := mk("next", e.site(r, in), it)
		return mk("tuple", "", mk("nextok", "", n), mk("nextkey", "", n), mk("nextval", "", n))
	}
	e.fail("unsupported instruction %T at %s", in, e.pos(in.Pos()))
	return nil
}

func mkFA(base *Term, f string, structType types.Type) *Term {
	t := mk("fa", f, base)
	if t.Typ == nil {
		t.Typ = structType
	}
	return t
}

func sliceRoot(s *Term) *Term {
	for s.Op == "slice" {
		s = s.Args[0]
	}
	return s
}

func mkMapSet(c, k, v *Term) *Term {
	if c.Op == "mapset" && c.Args[1] == k {
		c = c.Args[0]
	}
	if c.Op == "mapdel" && c.Args[1] == k {
		c = c.Args[0]
	}
	return mk("mapset", "", c, k, v)
}

func mkMapGet(c, k *Term, vt types.Type) *Term {
	switch c.Op {
	case "emptymap":
		if vt != nil {
			return zeroOf(vt)
		}
	case "mapset":
		if c.Args[1] == k {
			return c.Args[2]
		}
		if c.Args[1].isConst() && k.isConst() {
			return mkMapGet(c.Args[0], k, vt)
		}
	case "mapdel":
		if c.Args[1] == k && vt != nil {
			return zeroOf(vt)
		}
	}
	t := mk("mapget", "", c, k)
	if t.Typ == nil {
		t.Typ = vt
	}
	return t
}

func mkMapHas(c, k *Term) *Term {
	switch c.Op {
	case "emptymap":
		return tFalse
	case "mapset":
		if c.Args[1] == k {
			return tTrue
		}
		if c.Args[1].isConst() && k.isConst() {
			return mkMapHas(c.Args[0], k)
		}
	case "mapdel":
		if c.Args[1] == k {
			return tFalse
		}
	}
	return mk("maphas", "", c, k)
}

func (e *Engine) binop(st *State, in *ssa.BinOp) *Term {
	a, b := e.val(st, in.X), e.val(st, in.Y)
	uns := isUnsigned(in.X.Type())
	if e.hooks.onCompare != nil && e.quiet == 0 {
		switch in.Op {
		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ, token.XOR, token.SUB:
			e.hooks.onCompare(e, st, a, b, in)
		}
	}
	switch in.Op {
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.LSS:
		return mkLt(a, b, uns)
	case token.GTR:
		return mkLt(b, a, uns)
	case token.LEQ:
		return mkNot(mkLt(b, a, uns))
	case token.GEQ:
		return mkNot(mkLt(a, b, uns))
	}
	if c := st.constOf(a); c != nil {
		a = c
	}
	if c := st.constOf(b); c != nil {
		b = c
	}
	return mkBin(in.Op.String(), a, b)
}

func (e *Engine) sliceOp(st *State, in *ssa.Slice) *Term {
	x := e.val(st, in.X)
	var lo, hi *Term
	if in.Low != nil {
		lo = e.val(st, in.Low)
	} else {
		lo = mkInt(0)
	}
	switch t := in.X.Type().Underlying().(type) {
	case *types.Pointer: // array
		n := t.Elem().Underlying().(*types.Array).Len()
		if n == 0 {
			return mk("list", "")
		}
		arr := mk("arr", strconv.FormatInt(n, 10), x)
		if in.High != nil {
			hi = e.val(st, in.High)
		} else {
			hi = mkInt(n)
		}
		if l, ok := lo.intVal(); ok && l == 0 {
			if h, ok := hi.intVal(); ok && h == n {
				return mk("slice", "", arr, lo, hi)
			}
		}
		return mk("slice", "", arr, lo, hi)
	default:
		if in.High != nil {
			hi = e.val(st, in.High)
		} else {
			hi = mkLen(x)
		}
		if e.hooks.onSlice != nil && e.quiet == 0 {
			e.hooks.onSlice(e, st, x, lo, hi, in)
		}
		if l, ok := lo.intVal(); ok && l == 0 && hi == mkLen(x) {
			return x
		}
		if s, ok := x.strVal(); ok {
			l, ok1 := lo.intVal()
			h, ok2 := hi.intVal()
			if ok1 && ok2 && l >= 0 && h <= int64(len(s)) && l <= h {
				return mkStr(s[l:h])
			}
		}
		if x.Op == "slice" {
			lo, hi = mkBin("+", x.Args[1], lo), mkBin("+", x.Args[1], hi)
			x = x.Args[0]
		}
		return mk("slice", "", x, lo, hi)
	}
}

// snap is the value of t with everything reachable through known memory
// written out, so that later writes do not change its meaning.
func (e *Engine) snap(st *State, t *Term, seen map[*Term]bool) *Term {
	return e.snapD(st, t, 0)
}

func (e *Engine) snapD(st *State, t *Term, depth int) *Term {
	if depth > 14 {
		return t
	}
	switch t.Op {
	case "const", "sym", "func", "global", "builtin", "ref", "slc", "deref":
		if v, ok := st.mem[t]; ok && t.Op != "global" {
			if isSliceRoot[t] {
				if v == t {
					return t
				}
				return mk("slc", "", e.snapD(st, v, depth+1))
			}
			if t.Op == "sym" {
				return mk("ref", "", e.snapD(st, v, depth+1))
			}
		}
		return t
	case "alloc":
		v := st.load(t)
		return mk("ref", "", e.snapD(st, v, depth+1))
	case "mk":
		c := st.content(t)
		if c.Op == "zeros" {
			return mkZeros(t)
		}
		return mk("slc", "", e.snapD(st, c, depth+1))
	case "mkmap":
		return mk("map", "", e.snapD(st, st.load(t), depth+1))
	case "slice":
		lo, ok := t.Args[1].intVal()
		c := st.content(t.Args[0])
		hi := t.Args[2]
		if ok && lo == 0 {
			if t.Args[0].Op == "arr" {
				n, ok1 := hi.intVal()
				m, _ := strconv.ParseInt(t.Args[0].Aux, 10, 64)
				if l := listOf(c, n); ok1 && n == m && l != nil {
					return e.snapD(st, l, depth+1)
				}
				if ok1 && n == m {
					return mk("slc", "", e.snapD(st, c, depth+1))
				}
			}
		}
		if c == t.Args[0] {
			return t
		}
		return mk("slice", "", mk("slc", "", e.snapD(st, c, depth+1)), t.Args[1], hi)
	case "fa", "ia", "iap":
		root := t
		for root.Op == "fa" || root.Op == "ia" || root.Op == "iap" {
			root = root.Args[0]
		}
		if _, ok := st.mem[root]; ok || len(root.roots) > 0 {
			return mk("ref", "", e.snapD(st, st.load(t), depth+1))
		}
		return t
	case "lv", "append", "sel", "field", "ext":
		if v, ok := st.mem[t]; ok && v != t {
			if isSliceRoot[t] {
				return mk("slc", "", e.snapD(st, v, depth+1))
			}
			return mk("ref", "", e.snapD(st, v, depth+1))
		}
		if len(t.roots) == 0 {
			return t
		}
	}
	if len(t.roots) == 0 {
		switch t.Op {
		case "with", "list", "upd", "tuple", "iface", "closure", "mapset":
			// pointers obtained elsewhere whose targets were written
			if !st.writtenElsewhere() {
				return t
			}
		default:
			return t
		}
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = e.snapD(st, a, depth+1)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	return rebuild(t, args)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "with":
		f := map[string]*Term{}
		for i, n := range strings.Split(t.Aux, ",") {
			f[n] = args[i+1]
		}
		return mkWithFields(args[0], f, nil)
	case "field":
		return mkField(args[0], t.Aux)
	case "append":
		return mkAppend(args[0], args[1])
	case "sel":
		return mkSel(args[0], args[1])
	case "len":
		return mkLen(args[0])
	case "eq":
		return mkEq(args[0], args[1])
	case "not":
		return mkNot(args[0])
	case "bin":
		return mkBin(t.Aux, args[0], args[1])
	case "lt":
		return mkLt(args[0], args[1], false)
	case "maphas":
		return mkMapHas(args[0], args[1])
	case "mapget":
		return mkMapGet(args[0], args[1], t.Typ)
	}
	n := mk(t.Op, t.Aux, args...)
	if n.Typ == nil {
		n.Typ = t.Typ
	}
	if n.Obj == nil {
		n.Obj = t.Obj
	}
	return n
}

// listOf turns a fully known array content into a list.
func listOf(c *Term, n int64) *Term {
	if n > 64 {
		return nil
	}
	var l []*Term
	for i := int64(0); i < n; i++ {
		v := mkSel(c, mkInt(i))
		if v.Op == "sel" && !stored(c, mkInt(i), v) {
			return nil
		}
		l = append(l, v)
	}
	return mk("list", "", l...)
}

// stored: the element of c at i was written with v.
func stored(c, i, v *Term) bool {
	for ; c.Op == "upd"; c = c.Args[0] {
		if c.Args[1] == i {
			return c.Args[2] == v
		}
		if !provablyDistinct(c.Args[1], i) {
			return false
		}
	}
	return false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
