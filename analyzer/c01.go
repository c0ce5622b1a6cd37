package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// calleesOf lists the package functions a function (and its closures) may
// call directly, including interface calls resolved by method name.
func (p *Program) calleesOf(fn *ssa.Function) map[*ssa.Function]bool {
	if m, ok := p.callees[fn]; ok {
		return m
	}
	m := map[*ssa.Function]bool{}
	p.callees[fn] = m
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					c := ci.Common()
					if c.IsInvoke() {
						for _, g := range p.all {
							if g.Signature.Recv() != nil && g.Name() == c.Method.Name() && types.Implements(g.Signature.Recv().Type(), c.Value.Type().Underlying().(*types.Interface)) {
								m[g] = true
							}
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if p.ours(g) {
							m[g] = true
						} else if o, ok := g.Object().(*types.Func); ok && g.Synthetic != "" {
							if h := p.prog.FuncValue(o); h != nil && h.Pkg == p.ssa {
								m[h] = true
							}
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	return m
}

// reaches reports whether fn may transitively call a function satisfying is.
func (p *Program) reaches(fn *ssa.Function, is func(*ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for g := range p.calleesOf(f) {
			if is(g) || walk(g) {
				return true
			}
		}
		return false
	}
	return walk(fn)
}

// slicer makes functions that cannot reach any of the given functions opaque.
func (p *Program) slicer(is func(*ssa.Function) bool) func(*ssa.Function) bool {
	cache := map[*ssa.Function]bool{}
	return func(f *ssa.Function) bool {
		v, ok := cache[f]
		if !ok {
			v = !p.reaches(f, is)
			cache[f] = v
		}
		return v
	}
}

func streamRoot(s *Term) *Term {
	r, _ := chain(s)
	return r
}

// checkReads: facts of a successful outcome (or of a loop iteration that is
// continued) must not include a failed read.
func (c *Ctx) checkReads(where string, pos string, st *State) {
	for f, v := range st.facts {
		if f.Op != "can" && f.Op != "candec" {
			continue
		}
		c.oblige(v, "failed read reported", where, pos, "succeeds although reading %s from %v failed", f.Aux, f.Args[0])
	}
}

// allStreams lists the positions of streams mentioned in a state's facts.
func allStreams(st *State) map[*Term]bool {
	m := map[*Term]bool{}
	for f := range st.facts {
		f.any(func(x *Term) bool {
			switch x.Op {
			case "can", "candec", "rest", "dec", "rd":
				if x.Op == "candec" || x.Op == "dec" || x.Op == "can" || x.Op == "rest" || x.Op == "rd" {
					m[x.Args[0]] = true
				}
				if x.Op == "rest" {
					m[x] = true
				}
			}
			return false
		})
	}
	return m
}

// emptied reports whether the facts establish that the stream starting at root
// was consumed to its end.
func emptied(st *State, root *Term) bool {
	for f, v := range st.facts {
		if v && f.Op == "eq" && f.Args[1] == mkInt(0) && f.Args[0].Op == "len" {
			if streamRoot(f.Args[0].Args[0]) == root {
				return true
			}
		}
	}
	return false
}

func checkC01(c *Ctx) {
	structs, enums := codecTypes()
	for _, T := range append(append([]string{}, structs...), enums...) {
		c.guard(T+".unmarshal", func() {
			r := c.runCodec(T, "unmarshal")
			where := T + ".unmarshal"
			c.oblige(len(r.outs) > 0, "decoder succeeds", where, c.pos(r.fn.Pos()), "no successful outcome")
			for _, o := range r.outs {
				c.streamEnds(r.e, where, o, mk("deref", "", r.s))
				v := r.e.snap(o.st, o.st.load(r.self), nil)
				p := v.any(func(x *Term) bool { return x.Op == "partial" })
				c.oblige(!p, "no partial value", where, c.pos(o.pos), "succeeds with a partly decoded value %v", v)
				q := o.st.load(r.s).any(func(x *Term) bool { return x.Op == "partialrest" })
				c.oblige(!q, "no partial value", where, c.pos(o.pos), "continues after a failed nested decoding")
			}
			c.loopReads(r.e, where)
			// the decoder consumes everything the structure defines
			n := len(c.viol)
			if _, ok := layouts[T]; ok {
				m := &matcher{r: r, reader: true, covered: map[string]bool{}, where: where}
				m.problem = func(rule, construct, format string, args ...any) {
					c.violate("complete structure", construct, c.pos(r.fn.Pos()), format, args...)
				}
				for _, o := range r.outs {
					root, steps := chain(o.st.load(r.s))
					m.read(layouts[T], root, steps, o.st, r.e.snap(o.st, o.st.load(r.self), nil))
				}
				c.count("layout_items", m.items)
			} else {
				for _, o := range r.outs {
					_, steps := chain(o.st.load(r.s))
					c.oblige(len(steps) == 1, "complete structure", where, c.pos(o.pos), "reads %d items instead of one", len(steps))
				}
			}
			c.oblige(n == len(c.viol), "complete structure", where, c.pos(r.fn.Pos()), "see reports")
		})
	}
	// every other function that starts decoding
	starts := func(f *ssa.Function) bool { return isCodecMethod(f, "unmarshal") }
	slice := c.p.slicer(starts)
	n := 0
	for _, fn := range c.p.all {
		if fn.Parent() != nil || isCodecMethod(fn, "unmarshal") || slice(fn) || fn.Name() == "init" || c.takesStream(fn) {
			continue
		}
		n++
		c.guard(fnName(fn), func() { c.decodingRoot(fn) })
	}
	c.count("decoding_functions", n)
}

// takesStream: the function continues a stream that its caller owns.
func (c *Ctx) takesStream(fn *ssa.Function) bool {
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if fn.Signature.Params().At(i).Type().String() == "*golang.org/x/crypto/cryptobyte.String" {
			return true
		}
	}
	return false
}

func (c *Ctx) loopReads(e *Engine, where string) {
	for _, id := range sortedKeys(e.loops) {
		li := e.loops[id]
		if li.prov {
			continue
		}
		for _, b := range li.back {
			c.checkReads(where+" loop", c.pos(li.pos), b)
			for _, v := range b.mem {
				if v.any(func(x *Term) bool { return x.Op == "partial" || x.Op == "partialrest" }) {
					c.oblige(false, "no partial value", where, c.pos(li.pos), "an iteration keeps a partly decoded value")
				}
			}
		}
	}
}

// streamEnds: all streams except the caller's are consumed to the end.
func (c *Ctx) streamEnds(e *Engine, where string, o Outcome, own *Term) {
	c.checkReads(where, c.pos(o.pos), o.st)
	roots := map[*Term]bool{}
	for s := range allStreams(o.st) {
		roots[streamRoot(s)] = true
	}
	for root := range roots {
		if root == own {
			continue
		}
		if init, _, ok := lvParts(root); ok && streamRoot(init) == own && root.Op == "lv" {
			continue
		}
		c.oblige(emptied(o.st, root) || zeroPadded(e, o.st, root), "stream consumed", where, c.pos(o.pos),
			"succeeds without checking that nothing is left of %v", root)
	}
}

// zeroPadded: what is left of the stream is looked at byte by byte and every
// byte is zero (padding of private messages).
func zeroPadded(e *Engine, st *State, root *Term) bool {
	seqs := map[*Term]bool{}
	for f := range st.facts {
		if f.Op == "lt" && f.Args[1] == mkInt(0) {
			if _, init, _ := lvOf(f.Args[0]); init != nil {
				f = init // counting down from the length
			}
		}
		f.any(func(x *Term) bool {
			if len(x.Args) > 0 && (x.Op == "len" || x.Op == "beq" || x.Op == "call") {
				for _, a := range x.Args {
					a := strip(a)
					if a.Op == "const" {
						continue
					}
					r := streamRoot(a)
					if init, _, ok := lvParts(a); a.Op == "lv" && ok && init != nil {
						r = streamRoot(init) // being consumed
					}
					if r == root {
						seqs[a] = true
					}
				}
			}
			return false
		})
	}
	for s := range seqs {
		if zeroBytes(st, s) || zeroReads(st, s) {
			return true
		}
	}
	return false
}

// zeroReads: s, nothing of which is left in st, was consumed by a loop that
// goes on only after reading bytes that are zero.
func zeroReads(st *State, s *Term) bool {
	li, _, next := lvOf(s)
	if li == nil || len(next) == 0 || len(next) != len(li.back) || st.truth(mkEq(mkLen(s), mkInt(0))) != 1 {
		return false
	}
	for k, b := range li.back {
		root, steps := chain(next[k])
		if root != s || len(steps) == 0 {
			return false
		}
		cur := s
		for _, x := range steps {
			v := mk("rd", x.Aux, cur)
			if x.Aux != "u8" && x.Aux != "u16" && x.Aux != "u24" && x.Aux != "u32" && x.Aux != "u64" || b.truth(mkEq(v, mkInt(0))) != 1 {
				return false
			}
			cur = x
		}
	}
	return true
}

// zeroBytes: st establishes that every byte of s is zero.
func zeroBytes(st *State, s *Term) bool {
	if forAll(st, s, func(b *State, el, _ *Term) bool { return b.truth(mkEq(el, mkInt(0))) == 1 }) {
		return true
	}
	// the bytes are ORed together
	for _, it := range itersOver(st, s) {
		for name, acc := range it.li.lv {
			next := it.li.next[name]
			if it.li.init[name] != mkInt(0) || len(next) == 0 || st.truth(mkEq(acc, mkInt(0))) != 1 {
				continue
			}
			el := mkSel(s, it.i)
			ok := true
			for _, n := range next {
				n = strip(n)
				ok = ok && n.Op == "bin" && n.Aux == "|" && (n.Args[0] == acc && n.Args[1] == el || n.Args[1] == acc && n.Args[0] == el)
			}
			if ok {
				return true
			}
		}
	}
	for f, v := range st.facts {
		// nothing is left after trimming zeros
		if v && f.Op == "eq" {
			for k := range f.Args {
				l, z := f.Args[k], f.Args[1-k]
				if l.Op == "len" && z == mkInt(0) {
					l = strip(l.Args[0])
				} else if z != tNil {
					continue
				}
				if l.Op == "call" && strings.HasPrefix(l.Aux, "bytes.Trim") && len(l.Args) == 2 && same(l.Args[0], s) {
					if cut, ok := l.Args[1].strVal(); ok && cut == "\x00" {
						return true
					}
				}
			}
		}
	}
	return st.holdsBytesEq(s, mk("zeros", "byte", mkLen(s)))
}

func steps1(li *LoopInfo, n string) bool {
	if len(li.next[n]) == 0 {
		return false
	}
	for _, x := range li.next[n] {
		if x != mkBin("+", li.lv[n], mkInt(1)) {
			return false
		}
	}
	return true
}

// predicate: f tests its arguments without calling functions of the package
// other than such tests.
func (p *Program) predicate(f *ssa.Function) bool {
	return p.tests(f, 3)
}

func (p *Program) tests(f *ssa.Function, depth int) bool {
	res := f.Signature.Results()
	if res.Len() != 1 || depth == 0 {
		return false
	}
	switch t := res.At(0).Type(); {
	case types.Identical(t, types.Typ[types.Bool]), types.Identical(t, types.Typ[types.Int]):
	case types.Identical(t, types.Universe.Lookup("error").Type()):
		// what is refused is in the bytes given
		bytes := false
		for _, a := range f.Params {
			sl, ok := a.Type().Underlying().(*types.Slice)
			bytes = bytes || ok && types.Identical(sl.Elem().Underlying(), types.Typ[types.Byte])
		}
		if !bytes {
			return false
		}
	default:
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if call.Common().IsInvoke() {
				return false
			}
			if g := call.Common().StaticCallee(); g != nil && p.ours(g) && !p.tests(g, depth-1) {
				return false
			}
		}
	}
	return true
}

func (c *Ctx) decodingRoot(fn *ssa.Function) {
	e := c.engine(nil)
	slice := c.p.slicer(func(f *ssa.Function) bool { return isCodecMethod(f, "unmarshal") })
	e.opaque = func(f *ssa.Function) bool { return isCodecMethod(f, "unmarshal") || slice(f) && !c.p.predicate(f) }
	e.model["unmarshaler.unmarshal"] = func(e *Engine, st *State, cc *callCtx) []callRes {
		s := st.load(cc.args[1])
		return modelDecode(e, st, cc, "any", cc.args[0], cc.args[1], s, nil)
	}
	outs := c.run(e, fn, nil, SymArgs(fn))
	where := fnName(fn)
	for _, o := range successes(outs) {
		c.streamEnds(e, where, o, nil)
	}
	c.loopReads(e, where)
}
