package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Randomness.

// extCallee is the name and signature of a call that leaves the package.
func (c *Ctx) extCallee(in ssa.CallInstruction) (pkg, name string, sig *types.Signature) {
	cc := in.Common()
	if cc.IsInvoke() {
		p := cc.Method.Pkg()
		if p == nil || p == c.p.ssa.Pkg {
			return "", "", nil
		}
		return p.Path(), cc.Method.Name(), cc.Method.Type().(*types.Signature)
	}
	f := cc.StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg == c.p.ssa {
		return "", "", nil
	}
	return f.Pkg.Pkg.Path(), f.Name(), f.Signature
}

func isReader(t types.Type) bool { return typeStr(t) == "io.Reader" }

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// drawsRandom: a call outside the package uses or is a random generator.
func drawsRandom(pkg, name string, sig *types.Signature) bool {
	if sig == nil {
		return false
	}
	if pkg == "crypto/rand" || strings.HasPrefix(pkg, "math/rand") || randomised("."+name) {
		return true
	}
	if strings.HasPrefix(pkg, "crypto") || strings.Contains(pkg, "circl") {
		for i := 0; i < sig.Params().Len(); i++ {
			if isReader(sig.Params().At(i).Type()) {
				return true
			}
		}
	}
	return false
}

// fromSystem: v is the system's generator, wherever it comes from.
func (c *Ctx) fromSystem(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.UnOp:
		g, ok := v.X.(*ssa.Global)
		return ok && g.Pkg.Pkg.Path() == "crypto/rand" && g.Name() == "Reader" || ok && g.Pkg == c.p.ssa && c.globalFromSystem(g, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !c.fromSystem(e, seen) {
				return false
			}
		}
		return true
	case *ssa.ChangeInterface:
		return c.fromSystem(v.X, seen)
	case *ssa.Parameter:
		fn := v.Parent()
		if c.exported(fn) {
			return false
		}
		idx, n := -1, 0
		for i, p := range fn.Params {
			if p == v {
				idx = i
			}
		}
		for _, f := range c.p.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == fn {
						n++
						if !c.fromSystem(call.Common().Args[idx], seen) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	}
	return false
}

// globalFromSystem: every assignment of a package variable is the system's
// generator.
func (c *Ctx) globalFromSystem(g *ssa.Global, seen map[ssa.Value]bool) bool {
	n := 0
	fns := []*ssa.Function{c.p.ssa.Func("init")}
	for _, f := range c.p.fns {
		fns = append(fns, f)
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					n++
					if !c.fromSystem(s.Val, seen) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// randomSites checks every place outside randomness enters the package.
func (c *Ctx) randomSites() {
	for _, name := range sortedKeys(c.p.fns) {
		fn := c.p.fns[name]
		draws, fallible := 0, false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "crypto/rand" {
						c.violate("system generator kept", name, c.pos(in.Pos()), "%s is replaced", g.Name())
					}
				}
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				pkg, callee, sig := c.extCallee(call)
				reader := pkg == "io" && sig != nil && sig.Params().Len() > 0 && isReader(sig.Params().At(0).Type())
				if !drawsRandom(pkg, callee, sig) && !reader {
					continue
				}
				c.count("random_sites", 1)
				c.oblige(!strings.HasPrefix(pkg, "math/rand"), "system generator", name, c.pos(in.Pos()), "%s.%s is not the system's generator", pkg, callee)
				args := call.Common().Args
				off := len(args) - sig.Params().Len()
				if sig.Variadic() {
					off = 0
				}
				for i := 0; i < sig.Params().Len(); i++ {
					if isReader(sig.Params().At(i).Type()) && i+off < len(args) {
						c.oblige(c.fromSystem(args[i+off], map[ssa.Value]bool{}), "system generator", name, c.pos(in.Pos()), "the generator given to %s.%s is not crypto/rand.Reader", pkg, callee)
					}
				}
				if r := sig.Results(); r.Len() > 0 && isErrorType(r.At(r.Len()-1).Type()) {
					fallible = true
				}
				draws++
			}
		}
		if draws > 0 && fallible {
			c.guard(name, func() { c.drawn(fn) })
		}
	}
}

// drawn: whatever fn draws is only used in successful results when drawing
// succeeded, and whole.
func (c *Ctx) drawn(fn *ssa.Function) {
	e := c.engine(c.groupOpaque(nil, nil))
	wasOpaque := e.opaque
	e.opaque = func(f *ssa.Function) bool { return f != fn && wasOpaque(f) }
	last := map[string]int{}
	e.hooks.onCall = func(e *Engine, st *State, name string, a []*Term, in ssa.CallInstruction, f *ssa.Function) {
		if r := in.Common().Signature().Results(); r.Len() > 1 && isErrorType(r.At(r.Len()-1).Type()) {
			last[name] = r.Len() - 1
		}
	}
	for _, o := range successes(c.run(e, fn, nil, SymArgs(fn))) {
		st := o.st
		seen := map[*Term]bool{}
		visit := func(t *Term) bool {
			var err *Term
			switch {
			case t.Op == "random":
				err = mk("ext", "err", t)
			case t.Op == "call":
				name, _, _ := strings.Cut(t.Aux, "@")
				if n := last[name]; n > 0 && randomised(name) {
					err = mkExt(t, n)
				}
			case t.Op == "partfill" && t.Args[1].Op == "random":
				c.violate("random values filled whole", fnName(fn), c.pos(o.pos), "only a part is drawn: %v", t)
			}
			if err != nil && !seen[err] {
				seen[err] = true
				c.count("draws", 1)
				c.oblige(st.holds(mkEq(err, tNil)), "failure of the generator is reported", fnName(fn), c.pos(o.pos), "success although drawing may have failed: %v", t)
			}
			return false
		}
		for _, r := range o.res {
			deepAny(e.snap(st, r, nil), visit)
		}
		for _, v := range st.mem {
			deepAny(v, visit)
		}
		for f := range st.facts {
			deepAny(f, visit)
		}
	}
}

// created checks a new group's initial secret.
func (c *Ctx) createdSecret() {
	fn := c.fn("CreateGroup")
	e := c.engine(c.groupOpaque(nil, nil))
	for _, o := range successes(c.run(e, fn, nil, SymArgs(fn))) {
		g := derefSnap(e.snap(o.st, o.res[0], nil))
		cs := pv(g, "groupContext.cipherSuite")
		s := strip(mkField(g, "epochSecret"))
		c.count("initial_secrets", 1)
		c.oblige(s.Op == "random" && sameIn(o.st, s.Args[0], kdfSize(cs)) && o.st.holds(mkEq(mk("ext", "err", s), tNil)), "initial epoch secret freshly drawn", "CreateGroup", c.pos(o.pos), "the epoch secret is %v", s)
	}
}

func checkC21(c *Ctx) {
	c.guard("signatures", c.signatureRule)
	c.guard("hpke", c.hpkeRule)
	c.guard("generation", c.generateRule)
	c.guard("initial secret", c.createdSecret)
	for _, name := range []string{"Group.CreateApplicationMessage", "Group.CreateWelcome"} {
		c.guard(name, func() {
			r := c.sendRun(name)
			for _, o := range successes(r.outs) {
				r.guardOf(o, o.res[len(o.res)-2])
			}
		})
	}
	c.count("guards", len(c.guardSites()))
	c.guard("sites", c.randomSites)
}

// guardOf checks the reuse guard of one encrypted message.
func (r *sendRun) guardOf(o Outcome, raw *Term) {
	c := r.c
	msg := builtFrom(r.e.snap(o.st, raw, nil), "mlsMessage")
	if msg == nil {
		c.violate("a message is returned", fnName(r.fn), c.pos(o.pos), "returns %v", raw)
		return
	}
	pm := derefSnap(mkField(msg, "privateMessage"))
	so := sealed(mkField(pm, "encryptedSenderData"), r.cs)
	var sd *Term
	if so != nil {
		sd = builtFrom(so.data, "senderData")
	}
	if !c.oblige(sd != nil, "sender data sent", fnName(r.fn), c.pos(o.pos), "encrypted sender data is %v", mkField(pm, "encryptedSenderData")) {
		return
	}
	c.count("messages", 1)
	g := mkField(sd, "reuseGuard")
	c.oblige(freshGuard(o.st, g, 4), "reuse guard freshly drawn", fnName(r.fn), c.pos(o.pos), "the reuse guard is %v", g)
}
