package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// Index arithmetic of complete binary trees (RFC 9420 appendix C): the j-th
// node from the left on level l has index j*2^(l+1) + 2^l - 1.

const maxDepth = 31 // a tree of 2^31 leaves has 2^32-1 nodes

// nodeAt is the index of the j-th node of level l.
func nodeAt(l int, j bits) bits {
	n := bitsOf(1<<l-1, 32)
	for i, b := range j {
		if l+1+i < 32 {
			n[l+1+i] = b
		}
	}
	return n
}

// free are n arbitrary bits, numbered from v.
func free(v, n int) bits {
	var b bits
	for i := 0; i < n; i++ {
		b = append(b, bitVars[v+i])
	}
	return b
}

// upper drops the n least significant bits.
func upper(j bits, n int) bits {
	if n >= len(j) {
		return nil
	}
	return j[n:]
}

// lower adds bits below.
func lower(j bits, low ...*bit) bits { return append(append(bits(nil), low...), j...) }

func flip(j bits) bits { return lower(upper(j, 1), bitNot(j[0])) }

// arithmetic compares what fn computes with what it should, for all inputs in a
// part. want are the expected results; nil stands for any value.
func (c *Ctx) arithmetic(fn *ssa.Function, part string, args, want []any) bool {
	ok := true
	for _, o := range c.bitRuns(fn, func(r *bitRun) []any {
		l := make([]any, len(args))
		for i, a := range args {
			l[i] = substVal(a, r.as)
		}
		return l
	}) {
		c.count("cases", 1)
		why := ""
		switch {
		case o.panics != "":
			why = o.panics
			if o.pos.IsValid() {
				why += " at " + c.pos(o.pos)
			}
		case len(o.res) != len(want):
			why = "has other results"
		default:
			for i := range want {
				if why == "" && want[i] != nil {
					why = differs(o.res[i], substVal(want[i], o.as))
					if why != "" && len(want) > 1 {
						why = fmt.Sprintf("result %d: %s", i, why)
					}
				}
			}
		}
		if why != "" {
			c.violate("tree index arithmetic", fnName(fn), c.pos(fn.Pos()), "for %s (case %s): %s", part, caseOf(substVal(args, o.as)), why)
			return false
		}
	}
	c.pass(ok, "tree index arithmetic", fnName(fn))
	return true
}

func caseOf(v any) string {
	s := ""
	for i, a := range v.([]any) {
		if i > 0 {
			s += ", "
		}
		if b, ok := a.(bits); ok {
			if n, known := b.known(); known {
				s += fmt.Sprint(n)
				continue
			}
		}
		s += fmt.Sprint(a)
	}
	return s
}

func substVal(v any, as assignment) any {
	switch v := v.(type) {
	case bits:
		return v.subst(as)
	case []bits:
		l := make([]bits, len(v))
		for i := range v {
			l[i] = v[i].subst(as)
		}
		return l
	case []any:
		l := make([]any, len(v))
		for i := range v {
			l[i] = substVal(v[i], as)
		}
		return l
	}
	return v
}

func differs(got, want any) string {
	switch want := want.(type) {
	case bits:
		g, ok := got.(bits)
		if !ok || len(g) != len(want) || !g.equal(want) {
			return fmt.Sprintf("computes %v, not %v", showBits(got), showBits(want))
		}
	case []bits: // a list
		l, ok := elemsOf(got)
		if !ok || len(l) != len(want) {
			return fmt.Sprintf("computes a list of %d nodes, not %d", len(l), len(want))
		}
		for i := range l {
			if why := differs(l[i], want[i]); why != "" {
				return fmt.Sprintf("node %d of the list: %s", i, why)
			}
		}
	}
	return ""
}

func showBits(v any) string {
	if b, ok := v.(bits); ok {
		if n, ok := b.known(); ok {
			return fmt.Sprint(n)
		}
		return b.String()
	}
	return fmt.Sprint(v)
}

func checkC26(c *Ctx) {
	yes, no := bits{bit1}, bits{bit0}
	u32 := func(n uint64) bits { return bitsOf(n, 32) }
	each := func(name string, f func(fn *ssa.Function)) {
		if fn := c.p.fns[name]; fn != nil {
			c.guard(name, func() {
				c.count("arithmetic_functions", 1)
				f(fn)
			})
		}
	}
	c.fn("numLeaves.parent")
	c.fn("numLeaves.root")
	c.fn("nodeIndex.left")
	c.fn("nodeIndex.right")

	// sizes
	each("numLeaves.root", func(fn *ssa.Function) {
		for k := 0; k <= maxDepth; k++ {
			c.arithmetic(fn, fmt.Sprintf("2^%d leaves", k), []any{u32(1 << k)}, []any{u32(1<<k - 1)})
		}
	})
	each("numLeaves.width", func(fn *ssa.Function) {
		c.arithmetic(fn, "no leaves", []any{u32(0)}, []any{u32(0)})
		for k := 0; k <= maxDepth; k++ {
			c.arithmetic(fn, fmt.Sprintf("2^%d leaves", k), []any{u32(1 << k)}, []any{u32(1<<(k+1) - 1)})
		}
	})
	each("numLeavesFromWidth", func(fn *ssa.Function) {
		if len(fn.Params) != 1 {
			return
		}
		w, _, ok := widthOf(fn.Params[0].Type())
		if !ok {
			return
		}
		c.arithmetic(fn, "no nodes", []any{bitsOf(0, w)}, []any{u32(0)})
		for k := 0; k <= maxDepth; k++ {
			c.arithmetic(fn, fmt.Sprintf("2^%d nodes", k+1), []any{bitsOf(1<<(k+1)-1, w)}, []any{u32(1 << k)})
		}
	})
	each("ratchetTree.numLeaves", func(fn *ssa.Function) {
		c.arithmetic(fn, "no nodes", []any{bitSlice{size: bitsOf(0, 64)}}, []any{u32(0)})
		for k := 0; k <= maxDepth; k++ {
			c.arithmetic(fn, fmt.Sprintf("2^%d nodes", k+1), []any{bitSlice{size: bitsOf(1<<(k+1)-1, 64)}}, []any{u32(1 << k)})
		}
	})

	// neighbours: level l of a tree of depth k
	inTree := func(fn *ssa.Function, f func(k, l int, j, x bits) []any) {
		for k := 0; k <= maxDepth; k++ {
			for l := 0; l <= k; l++ {
				j := free(0, k-l)
				x := nodeAt(l, j)
				if !c.arithmetic(fn, fmt.Sprintf("level %d in a tree of 2^%d leaves", l, k), []any{u32(1 << k), x}, f(k, l, j, x)) {
					return
				}
			}
		}
	}
	each("numLeaves.parent", func(fn *ssa.Function) {
		inTree(fn, func(k, l int, j, x bits) []any {
			if l == k {
				return []any{nil, no}
			}
			return []any{nodeAt(l+1, upper(j, 1)), yes}
		})
	})
	each("numLeaves.sibling", func(fn *ssa.Function) {
		inTree(fn, func(k, l int, j, x bits) []any {
			if l == k {
				return []any{nil, no}
			}
			return []any{nodeAt(l, flip(j)), yes}
		})
	})
	each("numLeaves.directPath", func(fn *ssa.Function) {
		c.bitSpecs = neighbours
		defer func() { c.bitSpecs = nil }()
		inTree(fn, func(k, l int, j, x bits) []any {
			p := []bits{}
			for m := l + 1; m <= k; m++ {
				p = append(p, nodeAt(m, upper(j, m-l)))
			}
			return []any{p}
		})
	})
	each("numLeaves.copath", func(fn *ssa.Function) {
		c.bitSpecs = neighbours
		defer func() { c.bitSpecs = nil }()
		inTree(fn, func(k, l int, j, x bits) []any {
			p := []bits{}
			for m := l; m < k; m++ {
				p = append(p, nodeAt(m, flip(upper(j, m-l))))
			}
			return []any{p}
		})
	})

	// nodes of any tree
	nodes := func(fn *ssa.Function, f func(l int, j, x bits) []any) {
		for l := 0; l <= maxDepth; l++ {
			j := free(0, maxDepth-l)
			x := nodeAt(l, j)
			if !c.arithmetic(fn, fmt.Sprintf("level %d", l), []any{x}, f(l, j, x)) {
				return
			}
		}
	}
	each("nodeIndex.left", func(fn *ssa.Function) {
		nodes(fn, func(l int, j, x bits) []any {
			if l == 0 {
				return []any{nil, no}
			}
			return []any{nodeAt(l-1, lower(j, bit0)), yes}
		})
	})
	each("nodeIndex.right", func(fn *ssa.Function) {
		nodes(fn, func(l int, j, x bits) []any {
			if l == 0 {
				return []any{nil, no}
			}
			return []any{nodeAt(l-1, lower(j, bit1)), yes}
		})
	})
	each("nodeIndex.children", func(fn *ssa.Function) {
		nodes(fn, func(l int, j, x bits) []any {
			if l == 0 {
				return []any{nil, nil, no}
			}
			return []any{nodeAt(l-1, lower(j, bit0)), nodeAt(l-1, lower(j, bit1)), yes}
		})
	})
	each("nodeIndex.level", func(fn *ssa.Function) {
		w, _, ok := widthOf(fn.Signature.Results().At(0).Type())
		if !ok {
			return
		}
		nodes(fn, func(l int, j, x bits) []any { return []any{bitsOf(uint64(l), w)} })
	})
	each("nodeIndex.isLeaf", func(fn *ssa.Function) {
		nodes(fn, func(l int, j, x bits) []any {
			if l == 0 {
				return []any{yes}
			}
			return []any{no}
		})
	})
	each("nodeIndex.leafIndex", func(fn *ssa.Function) {
		nodes(fn, func(l int, j, x bits) []any {
			if l > 0 {
				return []any{nil, no}
			}
			return []any{append(append(bits(nil), j...), bit0), yes}
		})
	})
	each("leafIndex.nodeIndex", func(fn *ssa.Function) {
		li := append(free(0, 31), bit0)
		c.arithmetic(fn, "all leaves", []any{li}, []any{nodeAt(0, li[:31])})
	})

	// lowest common ancestors: of the nodes below node i of level m
	if fn := c.p.lca(); fn != nil && len(fn.Params) == 2 {
		c.guard(fnName(fn), func() {
			c.count("arithmetic_functions", 1)
			for m := 0; m <= maxDepth; m++ {
				i := free(0, maxDepth-m)
				a := nodeAt(m, i)
				below := func(l, v int, side *bit) bits { // on level l, in the subtree on one side
					return nodeAt(l, append(free(v, m-1-l), lower(i, side)...))
				}
				for l := 0; l <= m; l++ {
					part := fmt.Sprintf("level %d and its ancestor on level %d", l, m)
					d := nodeAt(l, append(free(40, m-l), i...))
					if !c.arithmetic(fn, part, []any{d, a}, []any{a}) || !c.arithmetic(fn, part, []any{a, d}, []any{a}) {
						return
					}
				}
				for l := 0; l < m; l++ {
					for l2 := 0; l2 < m; l2++ {
						part := fmt.Sprintf("levels %d and %d meeting on level %d", l, l2, m)
						x, y := below(l, 40, bit0), below(l2, 80, bit1)
						if !c.arithmetic(fn, part, []any{x, y}, []any{a}) || !c.arithmetic(fn, part, []any{y, x}, []any{a}) {
							return
						}
					}
				}
			}
		})
	}
}

// neighbours is what these functions compute, as checked separately.
var neighbours = map[string]func(r *bitRun, args []any) any{
	"numLeaves.sibling": func(r *bitRun, args []any) any {
		return neighbour(args, func(x bits, l int) { x[l+1] = bitNot(x[l+1]) })
	},
	"numLeaves.parent": func(r *bitRun, args []any) any {
		return neighbour(args, func(x bits, l int) { x[l], x[l+1] = bit1, bit0 })
	},
}

func neighbour(args []any, change func(x bits, l int)) any {
	n, x := need(args[0].(bits)), append(bits(nil), args[1].(bits)...)
	l := 0
	for l < len(x) && decide(x[l]) {
		l++
	}
	if l+1 >= len(x) || n>>l <= 1 {
		return []any{bitsOf(0, 32), bits{bit0}}
	}
	change(x, l)
	return []any{x, bits{bit1}}
}
