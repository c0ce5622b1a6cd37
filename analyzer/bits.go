package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// A bit-precise abstract domain for functions that compute with fixed-width
// integers: each bit of a value is a Boolean function of input bits in
// algebraic normal form (exclusive or of conjunctions), which is canonical, so
// equality of values is equality of representations. Inputs are partitioned by
// the checks such that control flow is determined in each part; where it is
// not, the part is divided on an input bit.

// mono is a conjunction of input bits (by number).
type mono [2]uint64

func (m mono) or(n mono) mono { return mono{m[0] | n[0], m[1] | n[1]} }
func (m mono) has(v int) bool { return m[v/64]>>(v%64)&1 == 1 }

// bit is an exclusive or of conjunctions, sorted.
type bit struct {
	terms []mono
	id    int // for comparing constants and variables quickly
}

var (
	bit0    = &bit{}
	bit1    = &bit{terms: []mono{{}}}
	bitVars [128]*bit
)

func init() {
	for i := range bitVars {
		m := mono{}
		m[i/64] = 1 << (i % 64)
		bitVars[i] = &bit{terms: []mono{m}}
	}
}

func less(a, b mono) bool { return a[1] < b[1] || a[1] == b[1] && a[0] < b[0] }

// canon is b, or the shared value equal to it.
func canon(t []mono) *bit {
	switch {
	case len(t) == 0:
		return bit0
	case len(t) == 1 && t[0] == mono{}:
		return bit1
	case len(t) > maxTerms:
		panic(bitFail("a bit depends on the input in too complicated a way"))
	}
	return &bit{terms: t}
}

const maxTerms = 4096

type bitFail string

func bitXor(a, b *bit) *bit {
	switch {
	case a == bit0:
		return b
	case b == bit0:
		return a
	case a == b:
		return bit0
	}
	var r []mono
	i, j := 0, 0
	for i < len(a.terms) || j < len(b.terms) {
		switch {
		case j == len(b.terms) || i < len(a.terms) && less(a.terms[i], b.terms[j]):
			r = append(r, a.terms[i])
			i++
		case i == len(a.terms) || less(b.terms[j], a.terms[i]):
			r = append(r, b.terms[j])
			j++
		default:
			i++
			j++
		}
	}
	return canon(r)
}

func bitAnd(a, b *bit) *bit {
	switch {
	case a == bit0 || b == bit0:
		return bit0
	case a == bit1 || a == b:
		return b
	case b == bit1:
		return a
	}
	n := map[mono]bool{}
	for _, x := range a.terms {
		for _, y := range b.terms {
			m := x.or(y)
			if n[m] {
				delete(n, m)
			} else {
				n[m] = true
			}
		}
		if len(n) > maxTerms {
			panic(bitFail("a bit depends on the input in too complicated a way"))
		}
	}
	var r []mono
	for m := range n {
		r = append(r, m)
	}
	sort.Slice(r, func(i, j int) bool { return less(r[i], r[j]) })
	return canon(r)
}

func bitNot(a *bit) *bit   { return bitXor(a, bit1) }
func bitOr(a, b *bit) *bit { return bitXor(bitXor(a, b), bitAnd(a, b)) }

func bitEq(a, b *bit) bool {
	if len(a.terms) != len(b.terms) {
		return false
	}
	for i := range a.terms {
		if a.terms[i] != b.terms[i] {
			return false
		}
	}
	return true
}

func (a *bit) isConst() bool { return a == bit0 || a == bit1 }

// subst gives input bit v a value.
func (a *bit) subst(v int, val bool) *bit {
	if a.isConst() {
		return a
	}
	r := bit0
	for _, m := range a.terms {
		if m.has(v) {
			if !val {
				continue
			}
			m[v/64] &^= 1 << (v % 64)
		}
		r = bitXor(r, canon([]mono{m}))
	}
	return r
}

// anyVar is an input bit a depends on.
func (a *bit) anyVar() int {
	for _, m := range a.terms {
		for v := 0; v < 128; v++ {
			if m.has(v) {
				return v
			}
		}
	}
	panic("constant bit")
}

// bits is an integer, least significant bit first.
type bits []*bit

func bitsOf(n uint64, width int) bits {
	r := make(bits, width)
	for i := range r {
		r[i] = bit0
		if i < 64 && n>>i&1 == 1 {
			r[i] = bit1
		}
	}
	return r
}

func (b bits) known() (uint64, bool) {
	var n uint64
	for i, x := range b {
		if !x.isConst() {
			return 0, false
		}
		if x == bit1 {
			n |= 1 << i
		}
	}
	return n, true
}

func (b bits) equal(o bits) bool {
	if len(b) != len(o) {
		return false
	}
	for i := range b {
		if !bitEq(b[i], o[i]) {
			return false
		}
	}
	return true
}

func (b bits) subst(as assignment) bits {
	r := append(bits(nil), b...)
	for v, val := range as {
		for i := range r {
			r[i] = r[i].subst(v, val)
		}
	}
	return r
}

func (b bits) String() string {
	s := ""
	for i := len(b) - 1; i >= 0; i-- {
		switch {
		case b[i] == bit0:
			s += "0"
		case b[i] == bit1:
			s += "1"
		default:
			s += "x"
		}
	}
	return s
}

func bitsAdd(a, b bits, c *bit) bits {
	r := make(bits, len(a))
	for i := range a {
		x := bitXor(a[i], b[i])
		r[i] = bitXor(x, c)
		if i+1 < len(a) {
			c = bitXor(bitAnd(a[i], b[i]), bitAnd(c, x))
		}
	}
	return r
}

func bitsMap(a bits, f func(*bit) *bit) bits {
	r := make(bits, len(a))
	for i := range a {
		r[i] = f(a[i])
	}
	return r
}

func bitsZip(a, b bits, f func(x, y *bit) *bit) bits {
	r := make(bits, len(a))
	for i := range a {
		r[i] = f(a[i], b[i])
	}
	return r
}

func bitsShl(a bits, n int) bits {
	r := make(bits, len(a))
	for i := range r {
		r[i] = bit0
		if i >= n {
			r[i] = a[i-n]
		}
	}
	return r
}

func bitsShr(a bits, n int, signed bool) bits {
	r := make(bits, len(a))
	for i := range r {
		r[i] = bit0
		if signed {
			r[i] = a[len(a)-1]
		}
		if i+n < len(a) {
			r[i] = a[i+n]
		}
	}
	return r
}

func bitsMul(a, b bits) bits {
	r := bitsOf(0, len(a))
	for i := range b {
		if b[i] == bit0 {
			continue
		}
		s := bitsShl(a, i)
		r = bitsAdd(r, bitsMap(s, func(x *bit) *bit { return bitAnd(x, b[i]) }), bit0)
	}
	return r
}

// split asks for the part to be divided on an input bit.
type split int

// decide is the value of a condition; the part is divided if it is not
// determined.
func decide(b *bit) bool {
	if !b.isConst() {
		panic(split(b.anyVar()))
	}
	return b == bit1
}

func need(b bits) uint64 {
	for i := len(b) - 1; i >= 0; i-- {
		decide(b[i])
	}
	n, _ := b.known()
	return n
}

func bitsSame(a, b bits) bool {
	var open *bit
	for i := len(a) - 1; i >= 0; i-- {
		switch d := bitXor(a[i], b[i]); {
		case d == bit1:
			return false
		case d != bit0 && open == nil:
			open = d
		}
	}
	if open != nil {
		panic(split(open.anyVar()))
	}
	return true
}

func bitsLess(a, b bits, signed bool) bool {
	for i := len(a) - 1; i >= 0; i-- {
		x, y := a[i], b[i]
		if bitEq(x, y) {
			continue
		}
		if signed && i == len(a)-1 {
			x, y = y, x
		}
		if !x.isConst() {
			panic(split(x.anyVar()))
		}
		if !y.isConst() {
			panic(split(y.anyVar()))
		}
		return y == bit1
	}
	return false
}

// ---- interpretation ---------------------------------------------------------

// Values: bits, *bitObj-based pointers and slices, tuples ([]any), bitErr,
// functions, nil.
type (
	bitObj struct {
		elems []any
		name  string
	}
	bitPtr struct {
		obj *bitObj
		i   int
	}
	bitSlice struct {
		obj    *bitObj
		lo, hi int
		size   bits // for slices of which only the length is known
	}
	bitErr   struct{}
	bitEvent struct {
		what string
		arg  bits
	}
)

type assignment map[int]bool

// bitOutcome is what a function does in a part of the input.
type bitOutcome struct {
	as     assignment
	res    []any
	panics string
	pos    token.Pos
	run    *bitRun
}

// bitRun is one abstract run.
type bitRun struct {
	p      *Program
	as     assignment
	steps  int
	fns    map[*ssa.Function]bool
	events []bitEvent
	input  []bits // bytes of the stream, for readers
	used   int
	calls  int
	out    *bitObj // where a reader stores its result
	specs  map[string]func(r *bitRun, args []any) any
}

// bitRuns interprets fn; mk makes the arguments for a part.
func (c *Ctx) bitRuns(fn *ssa.Function, mkArgs func(r *bitRun) []any) []bitOutcome {
	c.funcs[fnName(fn)] = true
	var outs []bitOutcome
	todo := []assignment{{}}
	for len(todo) > 0 {
		as := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if len(outs)+len(todo) > 5000 {
			panic(bitFail(fmt.Sprintf("%s divides its input too finely", fnName(fn))))
		}
		r := &bitRun{p: c.p, as: as, fns: map[*ssa.Function]bool{}, specs: c.bitSpecs}
		o, sp := r.try(fn, mkArgs(r))
		for f := range r.fns {
			if stats.inlined == nil {
				stats.inlined = map[string]bool{}
			}
			stats.inlined[fnName(f)] = true
		}
		stats.calls += r.calls
		if sp >= 0 {
			for _, val := range []bool{true, false} {
				n := assignment{sp: val}
				for k, v := range as {
					n[k] = v
				}
				todo = append(todo, n)
			}
			continue
		}
		outs = append(outs, o)
	}
	return outs
}

func (r *bitRun) try(fn *ssa.Function, args []any) (o bitOutcome, sp int) {
	sp = -1
	o.as, o.run = r.as, r
	defer func() {
		switch e := recover().(type) {
		case nil:
		case split:
			sp = int(e)
		case bitPanic:
			o.panics, o.pos = e.what, e.pos
		default:
			panic(e)
		}
	}()
	o.res = r.call(fn, args)
	return o, -1
}

type bitPanic struct {
	what string
	pos  token.Pos
}

func (r *bitRun) fail(pos token.Pos, format string, args ...any) {
	panic(bitFail(fmt.Sprintf("%s: %s", r.p.ssa.Prog.Fset.Position(pos), fmt.Sprintf(format, args...))))
}

func widthOf(t types.Type) (int, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 1, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	}
	return 0, false, false
}

func zeroBits(t types.Type) any {
	if w, _, ok := widthOf(t); ok {
		return bitsOf(0, w)
	}
	return nil
}

func (r *bitRun) call(fn *ssa.Function, args []any) []any {
	if fn.Blocks == nil {
		r.fail(fn.Pos(), "no body: %s", fn)
	}
	r.fns[fn] = true
	env := map[ssa.Value]any{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	b := fn.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		phis := map[*ssa.Phi]any{}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				for i, p := range b.Preds {
					if p == prev {
						phis[phi] = r.val(env, phi.Edges[i])
					}
				}
			}
		}
		for phi, v := range phis {
			env[phi] = v
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			if r.steps++; r.steps > 200000 {
				r.fail(in.Pos(), "does not terminate within bounds")
			}
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				if decide(r.val(env, in.Cond).(bits)[0]) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				var l []any
				for _, v := range in.Results {
					l = append(l, r.val(env, v))
				}
				return l
			case *ssa.Panic:
				panic(bitPanic{"panics", in.Pos()})
			case *ssa.Store:
				if _, ok := r.val(env, in.Addr).(*bitStream); ok {
					v, ok := r.val(env, in.Val).(bitView)
					if !ok {
						r.fail(in.Pos(), "the stream is replaced")
					}
					r.used = v.off
					break
				}
				p, ok := r.val(env, in.Addr).(bitPtr)
				if !ok {
					r.fail(in.Pos(), "store through an unknown pointer")
				}
				p.obj.elems[p.i] = r.val(env, in.Val)
			case ssa.Value:
				env[in] = r.eval(env, in)
			default:
				r.fail(in.Pos(), "unsupported instruction %v", in)
			}
		}
		prev, b = b, next
	}
}

func (r *bitRun) val(env map[ssa.Value]any, v ssa.Value) any {
	switch v := v.(type) {
	case *ssa.Const:
		w, _, ok := widthOf(v.Type())
		switch {
		case v.Value == nil:
			return nil
		case ok && v.Value.Kind() == constant.Bool:
			if constant.BoolVal(v.Value) {
				return bits{bit1}
			}
			return bits{bit0}
		case ok:
			if n, exact := constant.Uint64Val(v.Value); exact {
				return bitsOf(n, w)
			}
			n, _ := constant.Int64Val(v.Value)
			return bitsOf(uint64(n), w)
		}
		return v
	case *ssa.Function:
		return v
	case *ssa.Global:
		return v
	}
	x, ok := env[v]
	if !ok {
		r.fail(v.Pos(), "value %s not available", v.Name())
	}
	return x
}

func (r *bitRun) eval(env map[ssa.Value]any, in ssa.Value) any {
	val := func(v ssa.Value) any { return r.val(env, v) }
	num := func(v ssa.Value) bits {
		b, ok := val(v).(bits)
		if !ok {
			r.fail(in.Pos(), "%s is not a number here", v.Name())
		}
		return b
	}
	switch in := in.(type) {
	case *ssa.BinOp:
		return r.binop(in, val(in.X), val(in.Y))
	case *ssa.UnOp:
		switch in.Op {
		case token.XOR, token.NOT:
			return bitsMap(num(in.X), bitNot)
		case token.SUB:
			x := num(in.X)
			return bitsAdd(bitsMap(x, bitNot), bitsOf(0, len(x)), bit1)
		case token.MUL:
			switch p := val(in.X).(type) {
			case bitPtr:
				return p.obj.elems[p.i]
			case *bitStream:
				return bitView{r.used}
			}
		}
	case *ssa.ChangeType:
		return val(in.X)
	case *ssa.Convert:
		x, ok := val(in.X).(bits)
		w, _, ok2 := widthOf(in.Type())
		_, signed, ok3 := widthOf(in.X.Type())
		if ok && ok2 && ok3 {
			n := make(bits, w)
			for i := range n {
				switch {
				case i < len(x):
					n[i] = x[i]
				case signed:
					n[i] = x[len(x)-1]
				default:
					n[i] = bit0
				}
			}
			return n
		}
	case *ssa.MakeInterface:
		return val(in.X)
	case *ssa.ChangeInterface:
		return val(in.X)
	case *ssa.Extract:
		if l, ok := val(in.Tuple).([]any); ok {
			return l[in.Index]
		}
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		if a, ok := t.Underlying().(*types.Array); ok {
			o := &bitObj{name: in.Comment}
			for i := int64(0); i < a.Len() && i < 4096; i++ {
				o.elems = append(o.elems, zeroBits(a.Elem()))
			}
			return bitPtr{o, 0}
		}
		return bitPtr{&bitObj{elems: []any{zeroBits(t)}, name: in.Comment}, 0}
	case *ssa.IndexAddr:
		i := int(need(num(in.Index)))
		switch x := val(in.X).(type) {
		case bitPtr:
			if i < len(x.obj.elems) {
				return bitPtr{x.obj, i}
			}
			panic(bitPanic{"indexes out of range", in.Pos()})
		case bitSlice:
			if x.obj != nil && i < x.hi-x.lo {
				return bitPtr{x.obj, x.lo + i}
			}
			if x.obj != nil {
				panic(bitPanic{"indexes out of range", in.Pos()})
			}
		case bitView:
			if x.off+i >= len(r.input) {
				panic(bitPanic{"indexes out of range", in.Pos()})
			}
			return bitPtr{&bitObj{elems: []any{r.input[x.off+i]}}, 0}
		}
	case *ssa.Slice:
		n := func(v ssa.Value, def int) int {
			if v == nil {
				return def
			}
			return int(need(num(v)))
		}
		switch x := val(in.X).(type) {
		case bitPtr:
			lo, hi := n(in.Low, 0), n(in.High, len(x.obj.elems))
			if lo > hi || hi > len(x.obj.elems) {
				panic(bitPanic{"slices out of range", in.Pos()})
			}
			return bitSlice{obj: x.obj, lo: lo, hi: hi}
		case bitSlice:
			if x.obj != nil {
				lo, hi := n(in.Low, 0), n(in.High, x.hi-x.lo)
				if lo > hi || hi > x.hi-x.lo {
					panic(bitPanic{"slices out of range", in.Pos()})
				}
				return bitSlice{obj: x.obj, lo: x.lo + lo, hi: x.lo + hi}
			}
		case bitView:
			end := len(r.input) - x.off
			lo, hi := n(in.Low, 0), n(in.High, end)
			if lo > hi || hi > end {
				panic(bitPanic{"slices out of range", in.Pos()})
			}
			if hi == end {
				return bitView{x.off + lo}
			}
			o := &bitObj{}
			for _, b := range r.input[x.off+lo : x.off+hi] {
				o.elems = append(o.elems, b)
			}
			return bitSlice{obj: o, hi: hi - lo}
		case nil:
			if n(in.Low, 0) == 0 && n(in.High, 0) == 0 {
				return nil
			}
		}
	case *ssa.MakeSlice:
		n := int(need(num(in.Len)))
		if n > 1<<16 {
			r.fail(in.Pos(), "large slice")
		}
		o := &bitObj{}
		for i := 0; i < n; i++ {
			o.elems = append(o.elems, zeroBits(in.Type().Underlying().(*types.Slice).Elem()))
		}
		return bitSlice{obj: o, hi: n}
	case *ssa.Call:
		return r.callInstr(env, in)
	}
	r.fail(in.Pos(), "unsupported operation %v", in)
	return nil
}

func elemsOf(v any) ([]any, bool) {
	switch v := v.(type) {
	case nil:
		return nil, true
	case bitSlice:
		if v.obj != nil {
			return v.obj.elems[v.lo:v.hi], true
		}
	}
	return nil, false
}

func (r *bitRun) callInstr(env map[ssa.Value]any, in *ssa.Call) any {
	r.calls++
	var args []any
	for _, a := range in.Call.Args {
		args = append(args, r.val(env, a))
	}
	if b, ok := in.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			switch x := args[0].(type) {
			case nil:
				return bitsOf(0, 64)
			case bitSlice:
				if x.obj == nil {
					return x.size
				}
				return bitsOf(uint64(x.hi-x.lo), 64)
			case bitView:
				return bitsOf(uint64(len(r.input)-x.off), 64)
			}
		case "append":
			x, ok1 := elemsOf(args[0])
			y, ok2 := elemsOf(args[1])
			if ok1 && ok2 {
				o := &bitObj{elems: append(append([]any(nil), x...), y...)}
				return bitSlice{obj: o, hi: len(o.elems)}
			}
		case "min", "max":
			_, signed, _ := widthOf(in.Type())
			m := args[0].(bits)
			for _, a := range args[1:] {
				if bitsLess(a.(bits), m, signed) == (b.Name() == "min") {
					m = a.(bits)
				}
			}
			return m
		case "copy":
			x, ok1 := elemsOf(args[0])
			y, ok2 := elemsOf(args[1])
			if ok1 && ok2 {
				return bitsOf(uint64(copy(x, y)), 64)
			}
		}
		r.fail(in.Pos(), "unsupported builtin %s", b.Name())
	}
	fn := in.Call.StaticCallee()
	if fn == nil {
		if f, ok := r.val(env, in.Call.Value).(*ssa.Function); ok {
			fn = f
		}
	}
	if fn == nil {
		r.fail(in.Pos(), "call of an unknown function")
	}
	if f := r.specs[fnName(fn)]; f != nil && r.p.ours(fn) {
		return f(r, args)
	}
	if v, ok := r.model(fn, args, in); ok {
		return v
	}
	if !r.p.ours(fn) {
		r.fail(in.Pos(), "call of %s", fn)
	}
	l := r.call(fn, args)
	switch len(l) {
	case 0:
		return nil
	case 1:
		return l[0]
	}
	return l
}

func (r *bitRun) binop(in *ssa.BinOp, x, y any) any {
	flag := func(b bool) bits {
		if b {
			return bits{bit1}
		}
		return bits{bit0}
	}
	a, ok1 := x.(bits)
	b, ok2 := y.(bits)
	if !ok1 || !ok2 {
		if (in.Op == token.EQL || in.Op == token.NEQ) && (x == nil || y == nil) {
			same := x == nil && y == nil
			if s, ok := x.(bitSlice); ok && s.obj == nil {
				r.fail(in.Pos(), "comparison of unknown slices")
			}
			return flag(same == (in.Op == token.EQL))
		}
		r.fail(in.Pos(), "operation %s on unsupported values", in.Op)
	}
	_, signed, _ := widthOf(in.X.Type())
	switch in.Op {
	case token.ADD:
		return bitsAdd(a, b, bit0)
	case token.SUB:
		return bitsAdd(a, bitsMap(b, bitNot), bit1)
	case token.MUL:
		return bitsMul(a, b)
	case token.AND:
		return bitsZip(a, b, bitAnd)
	case token.OR:
		return bitsZip(a, b, bitOr)
	case token.XOR:
		return bitsZip(a, b, bitXor)
	case token.AND_NOT:
		return bitsZip(a, b, func(x, y *bit) *bit { return bitAnd(x, bitNot(y)) })
	case token.SHL, token.SHR:
		n := need(b)
		if _, s, _ := widthOf(in.Y.Type()); s && int64(n) < 0 {
			panic(bitPanic{"shifts by a negative count", in.Pos()})
		}
		if n > 64 {
			n = 64
		}
		if in.Op == token.SHL {
			return bitsShl(a, int(n))
		}
		return bitsShr(a, int(n), signed)
	case token.QUO, token.REM:
		d := need(b)
		if d == 0 {
			panic(bitPanic{"divides by zero", in.Pos()})
		}
		if signed {
			decide(a[len(a)-1])
		}
		if n, ok := a.known(); ok && !signed {
			if in.Op == token.QUO {
				return bitsOf(n/d, len(a))
			}
			return bitsOf(n%d, len(a))
		}
		if d&(d-1) == 0 && (!signed || a[len(a)-1] == bit0) {
			k := 0
			for d>>k > 1 {
				k++
			}
			if in.Op == token.QUO {
				return bitsShr(a, k, false)
			}
			return bitsShr(bitsShl(a, len(a)-k), len(a)-k, false)
		}
		n, ok := a.known()
		if ok && signed {
			w := uint(64 - len(a))
			i, j := int64(n<<w)>>w, int64(d<<w)>>w
			if in.Op == token.QUO {
				return bitsOf(uint64(i/j), len(a))
			}
			return bitsOf(uint64(i%j), len(a))
		}
		r.fail(in.Pos(), "division by %d", d)
	case token.EQL:
		return flag(bitsSame(a, b))
	case token.NEQ:
		return flag(!bitsSame(a, b))
	case token.LSS:
		return flag(bitsLess(a, b, signed))
	case token.GTR:
		return flag(bitsLess(b, a, signed))
	case token.LEQ:
		return flag(!bitsLess(b, a, signed))
	case token.GEQ:
		return flag(!bitsLess(a, b, signed))
	}
	r.fail(in.Pos(), "unsupported operator %s", in.Op)
	return nil
}

// bitStream is the input of a decoder (*cryptobyte.String), bitView what is
// left of it.
type bitStream struct{}

type bitView struct{ off int }

// model interprets library functions.
func (r *bitRun) model(fn *ssa.Function, args []any, in *ssa.Call) (any, bool) {
	yes, no := bits{bit1}, bits{bit0}
	name := fn.String()
	one := func() bits { return args[0].(bits) }
	switch name {
	case "math/bits.Len", "math/bits.Len8", "math/bits.Len16", "math/bits.Len32", "math/bits.Len64",
		"math/bits.LeadingZeros", "math/bits.LeadingZeros8", "math/bits.LeadingZeros16", "math/bits.LeadingZeros32", "math/bits.LeadingZeros64":
		x := one()
		n := len(x)
		for n > 0 && !decide(x[n-1]) {
			n--
		}
		if name[len("math/bits.")] == 'L' && name[len("math/bits.L")+1] == 'a' {
			n = len(x) - n
		}
		return bitsOf(uint64(n), 64), true
	case "math/bits.TrailingZeros", "math/bits.TrailingZeros8", "math/bits.TrailingZeros16", "math/bits.TrailingZeros32", "math/bits.TrailingZeros64":
		n := 0
		for x := one(); n < len(x) && !decide(x[n]); n++ {
		}
		return bitsOf(uint64(n), 64), true
	case "math/bits.OnesCount", "math/bits.OnesCount8", "math/bits.OnesCount16", "math/bits.OnesCount32", "math/bits.OnesCount64":
		x := one()
		n := bitsOf(0, 64)
		for _, b := range x {
			v := bitsOf(0, 64)
			v[0] = b
			n = bitsAdd(n, v, bit0)
		}
		return n, true
	}
	const str, bld = "(*golang.org/x/crypto/cryptobyte.String).", "(*golang.org/x/crypto/cryptobyte.Builder)."
	sizes := map[string]int{"ReadUint8": 1, "ReadUint16": 2, "ReadUint24": 3, "ReadUint32": 4, "ReadUint64": 8,
		"AddUint8": 1, "AddUint16": 2, "AddUint24": 3, "AddUint32": 4, "AddUint64": 8}
	switch {
	case len(name) > len(str) && name[:len(str)] == str:
		left := len(r.input) - r.used
		m := name[len(str):]
		switch {
		case sizes[m] > 0:
			n := sizes[m]
			if left < n {
				return no, true
			}
			p := args[1].(bitPtr)
			var v bits
			for i := n - 1; i >= 0; i-- {
				v = append(v, r.input[r.used+i]...)
			}
			w := len(p.obj.elems[p.i].(bits))
			for len(v) < w {
				v = append(v, bit0)
			}
			p.obj.elems[p.i] = v
			r.used += n
			return yes, true
		case m == "Skip":
			n := int(need(args[1].(bits)))
			if n < 0 || n > left {
				return no, true
			}
			r.used += n
			return yes, true
		case m == "ReadBytes" || m == "CopyBytes":
			var n int
			var dst bitSlice
			if m == "CopyBytes" {
				d, ok := args[1].(bitSlice)
				if !ok || d.obj == nil {
					return nil, false
				}
				dst, n = d, d.hi-d.lo
			} else {
				n = int(need(args[2].(bits)))
			}
			if n < 0 || n > left {
				return no, true
			}
			var l []any
			for i := 0; i < n; i++ {
				l = append(l, r.input[r.used+i])
			}
			r.used += n
			if m == "CopyBytes" {
				copy(dst.obj.elems[dst.lo:dst.hi], l)
			} else {
				p := args[1].(bitPtr)
				p.obj.elems[p.i] = bitSlice{obj: &bitObj{elems: l}, hi: n}
			}
			return yes, true
		}
		return nil, false
	case name == "(golang.org/x/crypto/cryptobyte.String).Empty":
		if v, ok := args[0].(bitView); ok {
			if len(r.input) == v.off {
				return yes, true
			}
			return no, true
		}
		return nil, false
	case len(name) > len(bld) && name[:len(bld)] == bld:
		m := name[len(bld):]
		switch {
		case sizes[m] > 0:
			v := args[1].(bits)
			r.events = append(r.events, bitEvent{"add", v[:8*sizes[m]]})
			return nil, true
		case m == "AddBytes":
			l, ok := elemsOf(args[1])
			if !ok {
				return nil, false
			}
			for _, x := range l {
				r.events = append(r.events, bitEvent{"add", x.(bits)})
			}
			return nil, true
		case m == "SetError":
			r.events = append(r.events, bitEvent{"error", nil})
			return nil, true
		}
		return nil, false
	case name == "fmt.Errorf" || name == "errors.New":
		return bitErr{}, true
	}
	return nil, false
}
