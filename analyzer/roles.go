package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// roles finds functions by what they are rather than by name only: first by
// name, then, if the name is gone, by a signature no other function has.
func (p *Program) role(name, sig string) *ssa.Function {
	if fn := p.fns[name]; fn != nil {
		return fn
	}
	if sig == "" {
		return nil
	}
	var found *ssa.Function
	for _, fn := range p.fns {
		if fn.Signature.Recv() == nil && typeStr(fn.Signature) == sig {
			if found != nil {
				return nil
			}
			found = fn
		}
	}
	return found
}

func (p *Program) varints() (rd, wr *ssa.Function) {
	return p.role("readVarint", "func(s *cryptobyte.String, out *uint32) bool"),
		p.role("writeVarint", "func(b *cryptobyte.Builder, n uint32)")
}

// useVarintModels makes the length-prefix primitives atomic; C04 checks them.
func (e *Engine) useVarintModels() {
	rd, wr := e.p.varints()
	if rd != nil {
		e.model[fnName(rd)] = func(e *Engine, st *State, c *callCtx) []callRes {
			s := st.load(c.args[0])
			return e.readItem(st, c, mk("can", "varint", s), func(ok *State) {
				ok.store(c.args[1], mkRdVal("varint", s))
				ok.store(c.args[0], mkRest("varint", s))
			})
		}
	}
	if wr != nil {
		e.model[fnName(wr)] = func(e *Engine, st *State, c *callCtx) []callRes {
			st.store(c.args[0], mkCat(e.bload(st, c.args[0]), mk("varint", "", c.args[1])))
			return one(st, mk("tuple", ""))
		}
	}
}

var _ types.Type
