package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Variable-size length prefixes (RFC 9420 section 2.1.2): the two upper bits of
// the first byte are the logarithm of the number of bytes; 3 is not allowed.

// prefixDecoded: what readVarint does with every input.
func (c *Ctx) prefixDecoded(fn *ssa.Function) {
	where := fnName(fn)
	for length := 0; length <= 9; length++ {
		for p := 0; p < 4; p++ {
			var in []bits
			for i := 0; i < length; i++ {
				b := free(8*i, 8)
				if i == 0 {
					b[6], b[7] = bitsOf(uint64(p), 2)[0], bitsOf(uint64(p), 2)[1]
				}
				in = append(in, b)
			}
			part := fmt.Sprintf("prefix %d in an input of %d bytes", p, length)
			for _, o := range c.bitRuns(fn, func(r *bitRun) []any {
				r.input = nil
				for _, b := range in {
					r.input = append(r.input, b.subst(r.as))
				}
				r.out = &bitObj{elems: []any{bitsOf(0xdead, 32)}}
				return []any{&bitStream{}, bitPtr{r.out, 0}}
			}) {
				c.count("cases", 1)
				why := func() string {
					if o.panics != "" {
						return o.panics + " at " + c.pos(o.pos)
					}
					res, isBits := o.res[0].(bits)
					if !isBits || !res[0].isConst() {
						return "the result is undetermined"
					}
					ok := res[0] == bit1
					n := 1 << p
					if p == 3 || length < n {
						if ok {
							return "invalid input is accepted"
						}
						return ""
					}
					v := make(bits, 0, 32)
					for i := n - 1; i >= 0; i-- {
						v = append(v, in[i]...)
					}
					v = append(v[:8*n-2:8*n-2], bitsOf(0, 32-8*n+2)...).subst(o.as)
					// shortest encoding: some bit above those a shorter one has
					min, open := p == 0, false
					if p > 0 {
						for i := 8*n/2 - 2; i < 8*n-2; i++ {
							min = min || v[i] == bit1
							open = open || !v[i].isConst()
						}
					}
					switch {
					case ok && !min:
						return "an encoding longer than needed is accepted"
					case !ok && (min || open):
						return "a shortest encoding is rejected"
					case !ok:
						return ""
					}
					got, isBits := o.run.out.elems[0].(bits)
					if !isBits || !got.equal(v) {
						return fmt.Sprintf("decodes %v as %v", showBits(v), showBits(o.run.out.elems[0]))
					}
					if o.run.used != n {
						return fmt.Sprintf("consumes %d bytes instead of %d", o.run.used, n)
					}
					return ""
				}()
				if why != "" {
					c.violate("prefix decoding", where, c.pos(fn.Pos()), "%s: %s", part, why)
					return
				}
			}
			c.pass(true, "prefix decoding", where)
		}
	}
}

// prefixEncoded: what writeVarint does with every length.
func (c *Ctx) prefixEncoded(fn *ssa.Function) {
	where := fnName(fn)
	for top := -1; top < 32; top++ {
		n := bitsOf(0, 32)
		if top >= 0 {
			copy(n, free(0, top))
			n[top] = bit1
		}
		for _, o := range c.bitRuns(fn, func(r *bitRun) []any { return []any{&bitObj{}, n.subst(r.as)} }) {
			c.count("cases", 1)
			why := func() string {
				if o.panics != "" {
					return o.panics + " at " + c.pos(o.pos)
				}
				var got bits // most significant byte first
				failed := false
				for _, ev := range o.run.events {
					failed = failed || ev.what == "error"
					got = append(append(bits(nil), ev.arg...), got...)
				}
				if top >= 30 {
					if !failed {
						return "no error is signalled"
					}
					return ""
				}
				if failed {
					return "an error is signalled"
				}
				size, p := 1, uint64(0)
				for top >= 8*size-2 {
					size *= 2
					p++
				}
				want := append(append(bits(nil), n[:8*size-2]...), bitsOf(p, 2)...).subst(o.as)
				if !got.equal(want) {
					return fmt.Sprintf("writes %d bytes %v, not %v", len(got)/8, got, want)
				}
				return ""
			}()
			if why != "" {
				c.violate("prefix encoding", where, c.pos(fn.Pos()), "lengths of %d bits: %s", top+1, why)
				return
			}
		}
		c.pass(true, "prefix encoding", where)
	}
}

// allocations: memory is allocated for a received length only after it was found
// not to exceed the input.
func (c *Ctx) allocations(e *Engine, seen map[string]bool) {
	e.hooks.onMake = func(e *Engine, st *State, size *Term, in ssa.Instruction) {
		if !size.any(func(x *Term) bool { return x.Op == "rd" || x.Op == "dec" }) || size.any(func(x *Term) bool { return x.Op == "len" }) {
			return
		}
		ok := false
		for f, v := range st.facts {
			if f.Op == "can" && f.Aux == "bytes" && v && linOf(f.Args[1]).equal(linOf(size)) {
				ok = true // that many bytes have been read
			}
			if f.Op != "lt" || !linOf(f.Args[0]).equal(linOf(size)) && !linOf(f.Args[1]).equal(linOf(size)) {
				continue
			}
			inputLen := func(t *Term) bool {
				l := strip(t)
				return l.Op == "len" && !strings.HasPrefix(strip(l.Args[0]).Op, "mk")
			}
			ok = ok || !v && linOf(f.Args[1]).equal(linOf(size)) && inputLen(f.Args[0]) || // not len < size
				v && linOf(f.Args[0]).equal(linOf(size)) && inputLen(f.Args[1]) // size < len
		}
		fn := in.Parent()
		c.oblige(ok, "allocation bounded by the input", fnName(fn), c.pos(in.Pos()), "allocates %v elements, a received number not compared with the length of the input", size)
		if !seen[c.pos(in.Pos())] {
			seen[c.pos(in.Pos())] = true
			c.count("allocation_sites", 1)
		}
	}
}

func checkC04(c *Ctx) {
	rd, wr := c.p.varints()
	c.guard("readVarint", func() {
		if c.oblige(rd != nil, "prefix decoder found", "readVarint", "?", "no function decodes length prefixes") {
			c.prefixDecoded(rd)
		}
	})
	c.guard("writeVarint", func() {
		if c.oblige(wr != nil, "prefix encoder found", "writeVarint", "?", "no function encodes length prefixes") {
			c.prefixEncoded(wr)
		}
	})
	structs, enums := codecTypes()
	seen := map[string]bool{}
	for _, T := range append(append([]string{}, structs...), enums...) {
		c.guard(T+".unmarshal", func() {
			c.setup = func(e *Engine) { c.allocations(e, seen) }
			defer func() { c.setup = nil }()
			c.runCodec(T, "unmarshal")
			c.count("decoders", 1)
		})
	}
	bigBuffers = true
	defer func() { bigBuffers = false }()
	narrowed := map[string]bool{}
	for _, T := range structs {
		if c.p.fns[T+".marshal"] == nil {
			continue
		}
		c.guard(T+".marshal", func() {
			conv := map[*Term]bool{}
			c.setup = func(e *Engine) {
				e.hooks.onNarrow = func(e *Engine, st *State, x *Term, in *ssa.Convert) { conv[x] = true }
				e.hooks.onCall = func(e *Engine, st *State, name string, args []*Term, in ssa.CallInstruction, fn *ssa.Function) {
					if fn == nil || fn != wr {
						return
					}
					n := args[1]
					if narrowed[c.pos(in.Pos())] = true; !conv[n] {
						return
					}
					_, hi, _ := st.interval(n)
					c.oblige(hi < 1<<32, "length not truncated", fnName(in.Parent()), c.pos(in.Pos()), "the length %v is converted to 32 bits without a check", n)
				}
			}
			defer func() { c.setup = nil }()
			c.runCodec(T, "marshal")
		})
	}
	c.count("prefix_writers", len(narrowed))
}
