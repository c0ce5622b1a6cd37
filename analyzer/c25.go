package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const ruleShared = "package-level memory is never written"

func checkC25(c *Ctx) {
	roots := c.effectRoots()
	seen := map[*ssa.Function]bool{}
	for _, f := range roots {
		c.guard(fnName(f), func() { c.globalsUntouched(f, seen) })
	}
	// nothing is left out: every function that can be reached from outside
	// was entered from one of the roots
	for _, f := range c.p.all {
		if f.Parent() != nil || f.Synthetic != "" || f.Name() == "init" || seen[f] {
			continue
		}
		reached := false
		for _, r := range roots {
			if reached = r == f || c.p.reaches(r, func(g *ssa.Function) bool { return g == f }); reached {
				break
			}
		}
		if reached {
			c.guard(fnName(f), func() { c.globalsUntouched(f, seen) })
		}
	}
	n := 0
	for _, m := range c.p.ssa.Members {
		if g, ok := m.(*ssa.Global); ok && pointery(g.Type().(*types.Pointer).Elem()) && !strings.Contains(g.Name(), "$") {
			n++
		}
	}
	c.count("package_variables", n)
}

func ofGlobals(owners map[string]bool) string {
	for _, o := range names(owners) {
		if strings.HasPrefix(o, "global ") && !strings.Contains(strings.TrimPrefix(o, "global "), "/") {
			return o[7:]
		}
	}
	return ""
}

func (c *Ctx) globalsUntouched(f *ssa.Function, seen map[*ssa.Function]bool) {
	name := fnName(f)
	ofGlobals := ofGlobals
	if c.implements(f) && !isCodecMethod(f, "marshal") && !isCodecMethod(f, "unmarshal") {
		// the receiver is an entry of a package-level table
		recv, plain := f.Params[0].Name(), ofGlobals
		ofGlobals = func(o map[string]bool) string {
			if o[recv] {
				return "holding the receiver"
			}
			return plain(o)
		}
	}
	type given struct {
		a    *Term
		st   *State
		name string
		pos  string
	}
	var passed []given
	r := c.effectsHook(f, c.groupOpaque(effectOpaque, setOf(name)), func(e *Engine, st *State, cn string, args []*Term, in ssa.CallInstruction, fn *ssa.Function) {
		seen[in.Parent()] = true
		if fn != nil && c.p.ours(fn) {
			return
		}
		if _, inside := c.p.implsOf(&callCtx{fn: fn, instr: in}); inside {
			return // the implementations are roots
		}
		recv := fn != nil && fn.Signature.Recv() != nil && types.IsInterface(fn.Signature.Recv().Type()) == false
		for i, a := range args {
			if a.isConst() || a.Op == "func" {
				continue
			}
			_, modelled := models[modelName(&callCtx{name: cn})]
			if modelled && !writesModel(cn, i) || !modelled && pureExternal(cn) && !externalWriter(cn) && !(recv && i == 0 && ptrRecv(fn)) {
				continue
			}
			passed = append(passed, given{a, st.clone(), cn, c.pos(in.Pos())})
		}
	})
	seen[f] = true
	for _, o := range r.outs {
		ok := true
		ow := c.owner(o.st)
		for _, w := range r.net(o.st) {
			if g := ofGlobals(ow.of(w.addr)); g != "" {
				ok = false
				c.violate(ruleShared, name, orPos(w.pos, c.pos(o.pos)), "writes memory of package variable %s: %v", g, brief(w.addr))
			}
		}
		c.pass(ok, ruleShared, name)
		for i, v := range o.res {
			if !c.exported(f) || !pointery(f.Signature.Results().At(i).Type()) {
				continue
			}
			g := ofGlobals(ow.of(v))
			c.oblige(g == "", "package-level memory is not handed out", name, c.pos(o.pos), "result is memory of package variable %s: %v", g, brief(v))
		}
	}
	for _, w := range r.apps {
		g := ofGlobals(c.owner(w.st).of(w.addr))
		c.oblige(g == "", ruleShared, name, w.pos, "appends in place to package variable %s: %v", g, brief(w.addr))
	}
	for _, w := range r.stores {
		g := ofGlobals(c.owner(w.st).of(w.addr))
		c.oblige(g == "", ruleShared, name, w.pos, "writes memory of package variable %s: %v", g, brief(w.addr))
	}
	for _, p := range passed {
		g := ofGlobals(c.owner(p.st).of(p.a))
		c.oblige(g == "", ruleShared, name, p.pos, "gives memory of package variable %s to %s, which may write it", g, p.name)
	}
	c.count("roots", 1)
}

func ptrRecv(fn *ssa.Function) bool {
	_, ok := fn.Signature.Recv().Type().(*types.Pointer)
	return ok
}

// writesModel: argument i of a modelled external function is written.
func writesModel(n string, i int) bool {
	switch {
	case strings.HasPrefix(n, "cryptobyte."):
		return i == 0 || strings.Contains(n, "Read") || strings.Contains(n, "Copy")
	case n == "crypto/rand.Read", strings.HasPrefix(n, "hash."):
		return i == 0
	case n == "io.ReadFull":
		return i == 1
	}
	return false
}
