package main

import (
	"fmt"
	"go/token"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Ctx collects the obligations of one property check.
type Ctx struct {
	setup    func(e *Engine) // applied to each engine
	bitSpecs map[string]func(r *bitRun, args []any) any
	p        *Program
	id       string
	engines  []*Engine
	total    int
	viol     []Violation
	seen     map[string]bool
	counts   map[string]int
	funcs    map[string]bool
	rules    map[string]int
	samples  []string
	thorough bool
}

type Violation struct {
	Key    string // rule and construct, no line numbers
	Pos    string
	Detail string
}

func newCtx(p *Program, id string) *Ctx {
	return &Ctx{p: p, id: id, seen: map[string]bool{}, counts: map[string]int{}, funcs: map[string]bool{}, rules: map[string]int{}}
}

// oblige records one obligation. key identifies rule and construct.
func (c *Ctx) oblige(ok bool, rule, construct, pos, format string, args ...any) bool {
	c.total++
	c.rules[rule]++
	if len(c.samples) < 12 && c.rules[rule] <= 2 {
		c.samples = append(c.samples, rule+": "+construct)
	}
	if !ok {
		c.violate(rule, construct, pos, format, args...)
	}
	return ok
}

// pass records an obligation whose violations were reported by violate.
func (c *Ctx) pass(ok bool, rule, construct string) {
	n := len(c.viol)
	c.oblige(ok, rule, construct, "", "")
	c.viol = c.viol[:n]
}

func (c *Ctx) violate(rule, construct, pos, format string, args ...any) {
	k := rule + " | " + construct
	d := fmt.Sprintf(format, args...)
	if c.seen[k+d] {
		return
	}
	c.seen[k+d] = true
	c.viol = append(c.viol, Violation{Key: k, Pos: pos, Detail: d})
}

func (c *Ctx) count(name string, n int) { c.counts[name] += n }

// guard runs f; an analysis that cannot decide is a violation of the check's
// obligation, not a silent pass.
func (c *Ctx) guard(construct string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				c.violate("undecided", construct, "?", "analysis could not decide: %s", u.msg)
				return
			}
			if os.Getenv("MLSVET_DEBUG") != "" {
				debug.PrintStack()
			}
			c.violate("undecided", construct, "?", "analysis failed: %v", r)
		}
	}()
	f()
}

// fn resolves an anchor function; a missing anchor is a violation.
func (c *Ctx) fn(name string) *ssa.Function {
	f := c.p.fn(name)
	if f == nil {
		panic(undecided{"function " + name + " not found"})
	}
	c.funcs[name] = true
	return f
}

func (c *Ctx) pos(p token.Pos) string { return c.p.pos(p) }

// engine makes an engine whose opaque functions are given by f.
func (c *Ctx) engine(f func(fn *ssa.Function) bool) *Engine {
	e := newEngine(c.p)
	e.useVarintModels()
	if f != nil {
		e.opaque = f
	}
	if c.setup != nil {
		c.setup(e)
	}
	return e
}

func (c *Ctx) run(e *Engine, fn *ssa.Function, st *State, args []*Term) []Outcome {
	if st == nil {
		st = newState()
	}
	c.funcs[fnName(fn)] = true
	for t := range isSliceRoot {
		if t.Op == "sym" {
			delete(isSliceRoot, t) // names of parameters mean something else now
		}
	}
	outs := e.Run(fn, st, args)
	c.count("paths", len(outs))
	return outs
}

// successes selects the outcomes whose last result (an error or a bool) means
// success, with that assumption added.
func successes(outs []Outcome) []Outcome {
	var l []Outcome
	for _, o := range outs {
		if s, ok := asSuccess(o); ok {
			l = append(l, s)
		}
	}
	return l
}

func asSuccess(o Outcome) (Outcome, bool) {
	if len(o.res) == 0 {
		return o, true
	}
	r := o.res[len(o.res)-1]
	rt := o.fn.Signature.Results()
	t := rt.At(rt.Len() - 1).Type().String()
	var c *Term
	switch t {
	case "error":
		c = mkEq(r, tNil)
	case "bool":
		c = r
	default:
		return o, true
	}
	if o.st.truth(c) == 0 {
		return o, false
	}
	n := o
	n.st = o.st.clone()
	if !n.st.assume(c, true) {
		return o, false
	}
	return n, true
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// factList renders the facts of a state for reports.
func factList(st *State, max int) string {
	var l []string
	for f, v := range st.facts {
		s := f.String()
		if !v {
			s = "not " + s
		}
		if len(s) > 160 {
			s = s[:150] + "…"
		}
		l = append(l, s)
	}
	sort.Strings(l)
	if len(l) > max {
		l = append(l[:max], fmt.Sprintf("… %d more", len(l)-max))
	}
	return strings.Join(l, "; ")
}
