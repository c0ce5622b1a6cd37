package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var effectOpaque = setOf("resolveProposals", "extractPSKSecret", "Group.processCommit", "groupFromSecrets")

// effectRoots are the functions analysed for their effects: everything the
// caller can call, commit processing and joining, and everything that is
// opaque in those.
func (c *Ctx) effectRoots() []*ssa.Function {
	opq := c.groupOpaque(effectOpaque, nil)
	var l []*ssa.Function
	for _, n := range sortedKeys(c.p.fns) {
		f := c.p.fns[n]
		if f.Parent() != nil || len(f.Blocks) == 0 || f.Name() == "init" {
			continue
		}
		if c.exported(f) || opq(f) || c.implements(f) {
			l = append(l, f)
		}
	}
	have := map[*ssa.Function]bool{}
	for _, f := range l {
		have[f] = true
	}
	for _, n := range readers {
		if f := c.fn(n); !have[f] {
			l = append(l, f)
		}
	}
	return l
}

// readers are internal operations on received or stored structures.
var readers = []string{"Group.processCommit", "groupFromSecrets", "Group.verifyPublicMessage",
	"privateMessage.authenticatedContent", "privateMessage.decryptContent", "privateMessage.decryptSenderData",
	"publicMessage.authenticatedContent", "publicMessage.verifyMembershipTag",
	"Welcome.decryptGroupInfo", "Welcome.decryptGroupSecrets", "groupInfo.verifyConfirmationTag", "groupInfo.verifySignature",
	"framedContentAuthData.verifyConfirmationTag", "framedContentAuthData.verifySignature", "authenticatedContent.verifySignature",
	"KeyPackage.verify", "KeyPackage.verifySignature", "leafNode.verify", "leafNode.verifySignature", "groupSecrets.verifySingleReinitOrBranchPSK",
	"ratchetTree.computeRootTreeHash", "ratchetTree.keys", "ratchetTree.supportedCreds", "ratchetTree.verifyParentHashes",
	"ratchetSecret.deriveKey", "ratchetSecret.deriveNonce", "ratchetSecret.deriveNext", "groupContext.extractEpochSecret", "groupContext.extractJoinerSecret",
	"deriveSecretTree", "extractPSKSecret", "resolveProposals", "nodePrivFromPathSecret"}

// implements: the method is called through an interface of the package.
func (c *Ctx) implements(f *ssa.Function) bool {
	r := f.Signature.Recv()
	if r == nil {
		return false
	}
	sc := c.p.ssa.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		it, ok := tn.Type().Underlying().(*types.Interface)
		if !ok || !types.Implements(r.Type(), it) {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == f.Name() {
				return true
			}
		}
	}
	return false
}

// exported: the function can be called from outside the package.
func (c *Ctx) exported(f *ssa.Function) bool {
	if !exportedName(f.Name()) {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := t.(*types.Named)
		return ok && n.Obj().Exported()
	}
	return true
}

func checkC05(c *Ctx) {
	for _, f := range c.effectRoots() {
		c.guard(fnName(f), func() { c.argsUntouched(f) })
	}
}

const (
	ruleArgs  = "arguments are not modified"
	ruleAlias = "decoded data is independent of the input"
)

func (c *Ctx) argsUntouched(f *ssa.Function) {
	name := fnName(f)
	r := c.effects(f, c.groupOpaque(effectOpaque, setOf(name)))
	may := map[string]bool{} // parameters whose memory the function is there to change
	cell := map[*Term]bool{} // cells it may set
	dec := isCodecMethod(f, "unmarshal")
	switch {
	case dec:
		may[r.args[0].Aux] = true
		cell[r.args[1]] = true
	case isCodecMethod(f, "marshal"):
		cell[r.args[1]] = true
	case recvNamed(f, "Group"):
		may[r.args[0].Aux] = true // C06
	case treeMutators[name]:
		may[r.args[0].Aux] = true // C06
	}
	allowed := func(w write) bool {
		if cell[w.addr] {
			return true
		}
		for _, o := range w.owners {
			if !may[o] {
				return false
			}
		}
		return true
	}
	for _, o := range r.outs {
		ok := true
		for _, w := range r.net(o.st) {
			if !allowed(w) {
				ok = false
				c.violate(ruleArgs, name, orPos(w.pos, c.pos(o.pos)), "writes %v, memory of %v", brief(w.addr), w.owners)
			}
		}
		c.pass(ok, ruleArgs, name)
	}
	for _, w := range r.apps {
		c.oblige(allowed(w), ruleArgs, name, w.pos, "appends in place to %v, memory of %v: elements after its end may be overwritten", brief(w.addr), w.owners)
	}
	c.count("functions_examined", 1)

	for _, o := range r.outs {
		_, succeeded := asSuccess(o)
		switch {
		case dec && succeeded:
			typ := f.Params[0].Type().(*types.Pointer).Elem()
			c.independent(name, o, r.args[1].Aux, o.st.load(r.args[0]), typ)
		case c.exported(f):
			for i, v := range o.res {
				typ := f.Signature.Results().At(i).Type()
				for _, p := range f.Params {
					if isBytes(p.Type()) && pointery(typ) && decodesTo(typ) {
						c.independent(name, o, p.Name(), v, typ)
					}
				}
			}
		}
	}
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Byte])
}

// decodesTo: results holding decoded values; identifiers given by the caller
// may be kept.
func decodesTo(t types.Type) bool {
	if isBytes(t) {
		return true
	}
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && (n.Obj().Name() == "Welcome" || n.Obj().Name() == "KeyPackage")
}

func recvNamed(f *ssa.Function, n string) bool {
	return f.Signature.Recv() != nil && recvType(f) == n
}

// independent: nothing reachable from v is memory of parameter param.
func (c *Ctx) independent(name string, o Outcome, param string, v *Term, typ types.Type) {
	w := &reachWalk{ow: c.owner(o.st), st: o.st, param: param, seen: map[*Term]bool{}}
	w.walk(v, typ, "")
	c.count("memory_cells_followed", w.n)
	c.oblige(w.bad == "", ruleAlias, name, c.pos(o.pos), "%s", w.bad)
}

type reachWalk struct {
	ow    *owner
	st    *State
	param string
	seen  map[*Term]bool
	bad   string
	n     int
}

func (w *reachWalk) own(t *Term, path string) bool {
	w.n++
	if o := w.ow.of(t); o[w.param] || o["?"] {
		w.bad = "the value" + path + " is (part of) the input: " + brief(t)
		return false
	}
	return true
}

func (w *reachWalk) walk(t *Term, typ types.Type, path string) {
	if w.bad != "" || t == nil || !pointery(typ) {
		return
	}
	if t.Op == "ref" || t.Op == "slc" || t.Op == "map" {
		return // snapshot
	}
	switch t.Op {
	case "dec", "zero", "const":
		return
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		if w.own(t, path) && !w.seen[t] {
			w.seen[t] = true
			w.walk(w.st.load(t), u.Elem(), path)
		}
	case *types.Slice:
		if w.own(t, path) && !w.seen[t] {
			w.seen[t] = true
			w.elems(w.st.content(t), u.Elem(), path+"[]")
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			w.walk(mkField(t, f.Name()), f.Type(), path+"."+f.Name())
		}
	case *types.Array:
		w.elems(t, u.Elem(), path+"[]")
	default:
		w.own(t, path)
	}
}

// elems follows the elements of an array value.
func (w *reachWalk) elems(t *Term, typ types.Type, path string) {
	if w.bad != "" || !pointery(typ) {
		return
	}
	switch t.Op {
	case "zeros", "zero", "dec", "const", "emptymap":
	case "list":
		for _, a := range t.Args {
			w.walk(a, typ, path)
		}
	case "append", "copied":
		for _, a := range t.Args {
			w.elems(a, typ, path)
		}
	case "upd":
		w.elems(t.Args[0], typ, path)
		w.walk(t.Args[2], typ, path)
	case "lv":
		if w.seen[t] {
			return
		}
		w.seen[t] = true
		if init, next, ok := lvParts(t); ok {
			w.elems(init, typ, path)
			for _, n := range next {
				w.elems(n, typ, path)
			}
			return
		}
		w.own(t, path)
	default:
		w.own(t, path)
	}
}
