package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Comparisons of tags and secrets.

// constantTime: comparisons that take the same time whatever differs.
func constantTime(name string) bool {
	return name == "crypto/hmac.Equal" || name == "crypto/subtle.ConstantTimeCompare"
}

// comparison: library functions whose running time depends on the contents of
// what they compare or search.
func comparison(name string, sig *types.Signature) bool {
	for _, p := range []string{"bytes.", "slices.", "reflect.", "strings.", "cmp.", "maps.", "sort."} {
		if !strings.HasPrefix(name, p) {
			continue
		}
		if r := sig.Results(); r.Len() > 0 {
			if b, ok := r.At(0).Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsBoolean|types.IsInteger) != 0 {
				return true
			}
		}
		return strings.Contains(name, "Sort") || strings.Contains(name, "Compact")
	}
	return false
}

func wholeValue(t *Term) bool {
	t = norm(t)
	return t.Op != "slice" && t.Op != "sub" && t.Op != "append"
}

// tagRule: a verification method only succeeds on a complete constant-time
// comparison of the received tag with the recomputed one.
func (c *Ctx) tagRule(name string, tag func(a []*Term) *Term) {
	c.guard(name, func() {
		fn := c.fn(name)
		e := c.engine(c.groupOpaque(nil, nil))
		a := SymArgs(fn)
		n := 0
		for _, o := range c.run(e, fn, nil, a) {
			st := o.st.clone()
			if st.truth(o.res[0]) == 0 || !st.assume(o.res[0], true) {
				continue
			}
			if st.refuted(mkEq(pv(mk("deref", "", a[0]), "content.sender.senderType"), mkInt(1))) {
				continue // only members' messages carry a membership tag
			}
			n++
			c.count("tag_checks", 1)
			want := norm(tag(a))
			ok := false
			for f, v := range st.facts {
				if !v || f.Op != "beq" || !constantTime(f.Aux) {
					continue
				}
				x, y := norm(f.Args[0]), norm(f.Args[1])
				ok = ok || x == want && isMAC(y) || y == want && isMAC(x)
			}
			c.oblige(ok, "tag compared completely in constant time", name, c.pos(o.pos), "can succeed without a constant-time comparison of %v with the whole recomputed tag: %v", want, factList(st, 6))
		}
		c.oblige(n > 0, "tags can verify", name, c.pos(fn.Pos()), "no path can succeed")
	})
}

func checkC22(c *Ctx) {
	recv := func(f string) func(a []*Term) *Term {
		return func(a []*Term) *Term { return mkField(mk("deref", "", a[0]), f) }
	}
	c.tagRule("publicMessage.verifyMembershipTag", recv("membershipTag"))
	c.tagRule("framedContentAuthData.verifyConfirmationTag", recv("confirmationTag"))
	c.tagRule("groupInfo.verifyConfirmationTag", recv("confirmationTag"))

	s := c.secrecy()
	s.macs = true
	visit := func(e *Engine, root *ssa.Function) {
		where := func(in ssa.Instruction) string { return fnName(in.Parent()) + " in " + fnName(root) }
		e.hooks.onCall = func(e *Engine, st *State, name string, a []*Term, in ssa.CallInstruction, f *ssa.Function) {
			if constantTime(name) {
				c.count("constant_time", 1)
				x, y := e.snap(st, a[0], nil), e.snap(st, a[1], nil)
				c.oblige(wholeValue(x) && wholeValue(y), "whole values compared", where(in), c.pos(in.Pos()), "only parts are compared: %v with %v", x, y)
				return
			}
			if !comparison(name, in.Common().Signature()) {
				return
			}
			c.count("comparisons", 1)
			for _, x := range a {
				l := s.leak(e.snap(st, x, nil), false)
				c.oblige(l == nil, "secrets compared in constant time only", where(in), c.pos(in.Pos()), "%s is given %v", name, l)
			}
		}
		e.hooks.onCompare = func(e *Engine, st *State, a, b *Term, in *ssa.BinOp) {
			if in.Op == token.XOR || in.Op == token.SUB || a == tNil || b == tNil {
				return
			}
			switch t := in.X.Type().Underlying().(type) {
			case *types.Basic:
				if t.Info()&types.IsString == 0 && t.Kind() != types.Uint8 {
					return
				}
			case *types.Array, *types.Struct, *types.Interface:
			default:
				return
			}
			c.count("operators", 1)
			for _, x := range []*Term{a, b} {
				l := s.leak(e.snap(st, x, nil), false)
				c.oblige(l == nil, "secrets compared in constant time only", where(in), c.pos(in.Pos()), "%s compares %v", in.Op, l)
			}
		}
	}
	s.secretUses(visit, nil)
}
