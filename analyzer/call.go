package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) call(r *region, st *State, in ssa.CallInstruction) []callRes {
	c := in.Common()
	ctx := &callCtx{instr: in, ctx: r.ctx, id: e.site(r, in), sig: c.Signature()}
	stats.calls++
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if n := b.Name(); (n == "print" || n == "println") && e.hooks.onCall != nil && e.quiet == 0 {
			var args []*Term
			for _, a := range c.Args {
				args = append(args, e.val(st, a))
			}
			e.hooks.onCall(e, st, n, args, in, nil)
		}
		call, ok := in.(*ssa.Call)
		if !ok {
			e.fail("unsupported deferred %s at %s", b.Name(), e.pos(in.Pos()))
		}
		return e.builtin(r, st, b.Name(), call)
	}
	var free []*Term
	if c.IsInvoke() {
		recv := e.val(st, c.Value)
		if recv.Op == "iface" {
			m := e.p.prog.LookupMethod(recv.Typ, c.Method.Pkg(), c.Method.Name())
			if m == nil {
				e.fail("no method %s on %s", c.Method.Name(), recv.Typ)
			}
			ctx.fn = m
			ctx.args = append(ctx.args, recv.Args[0])
		} else {
			it := c.Value.Type()
			if t, ok := ifaceOf[recv]; ok {
				if m, _, _ := types.LookupFieldOrMethod(t, false, c.Method.Pkg(), c.Method.Name()); m != nil {
					it = t
				}
			}
			n := typeStr(it)
			ctx.name = n + "." + c.Method.Name()
			ctx.args = append(ctx.args, recv)
		}
	} else {
		switch f := c.Value.(type) {
		case *ssa.Function:
			ctx.fn = f
		default:
			t := e.val(st, c.Value)
			switch t.Op {
			case "closure", "func":
				ctx.fn = t.Obj.(*ssa.Function)
				free = t.Args
			default:
				ctx.name = "dyn"
				ctx.args = append(ctx.args, t)
			}
		}
	}
	for _, a := range c.Args {
		ctx.args = append(ctx.args, e.val(st, a))
	}
	if ctx.fn != nil {
		// bound-method and promoted-method wrappers
		ctx.fn, ctx.args = unwrap(e, ctx.fn, free, ctx.args)
		if ctx.fn.Synthetic == "" || ctx.fn.Parent() != nil {
			ctx.name = fnName(ctx.fn)
		} else {
			ctx.name = fnName(ctx.fn)
		}
	}
	if e.hooks.onTreeOp != nil && e.quiet == 0 {
		e.hooks.onTreeOp(e, st, ctx.name, ctx.args, in)
	}
	if e.hooks.onCall != nil && e.quiet == 0 {
		e.hooks.onCall(e, st, ctx.name, ctx.args, in, ctx.fn)
	}
	if m, ok := e.model[ctx.name]; ok {
		return e.count(m(e, st, ctx))
	}
	if m, ok := models[modelName(ctx)]; ok {
		return e.count(m(e, st, ctx))
	}
	if ctx.fn != nil && len(ctx.fn.Blocks) > 0 && e.p.ours(ctx.fn) {
		if !e.opaque(ctx.fn) && !e.inStack(ctx.fn) {
			return e.inline(st, ctx, free)
		}
		if m := e.methodModel(ctx); m != nil {
			return e.count(m(e, st, ctx))
		}
		return e.opaqueCall(st, ctx, false)
	}
	if ctx.fn != nil && len(ctx.fn.Blocks) > 0 && ctx.fn.Synthetic != "" && ctx.fn.Pkg == nil {
		// promoted-method wrapper of a package type
		return e.inline(st, ctx, free)
	}
	return e.external(st, ctx)
}

func (e *Engine) count(r []callRes) []callRes { return r }

// unwrap resolves bound-method closures ($bound) to the method itself.
func unwrap(e *Engine, fn *ssa.Function, free, args []*Term) (*ssa.Function, []*Term) {
	if strings.HasPrefix(fn.Synthetic, "bound method wrapper") {
		if obj, ok := fn.Object().(*types.Func); ok {
			if m := e.p.prog.FuncValue(obj); m != nil {
				return m, append(append([]*Term(nil), free...), args...)
			}
		}
	}
	return fn, args
}

func (e *Engine) inline(st *State, c *callCtx, free []*Term) []callRes {
	stats.funcs++
	outs := e.runFn(c.fn, st, c.args, free, c.id+":"+c.fn.Name(), c.instr)
	var rs []callRes
	for _, o := range outs {
		rs = append(rs, callRes{o.st, tupleOf(o.res)})
	}
	return rs
}

func tupleOf(res []*Term) *Term {
	switch len(res) {
	case 0:
		return mk("tuple", "")
	case 1:
		return res[0]
	}
	return mk("tuple", "", res...)
}

func (e *Engine) snapArgs(st *State, args []*Term) []*Term {
	l := make([]*Term, len(args))
	for i, a := range args {
		l[i] = e.snap(st, a, nil)
	}
	return l
}

// opaqueCall treats a package function as an uninterpreted function of its
// arguments. Pointer arguments that it may write are given unknown values.
func (e *Engine) opaqueCall(st *State, c *callCtx, impure bool) []callRes {
	t := mk("call", c.name, e.snapArgs(st, c.args)...)
	if impure {
		t = mk("call", c.name+"@"+c.id, e.snapArgs(st, c.args)...)
	}
	if c.fn != nil && t.Obj == nil {
		t.Obj = c.fn
	}
	for i := range c.args {
		if c.fn != nil && e.p.mayWrite(c.fn, i) {
			e.havocArg(st, c.args[i], mk("out", strconv.Itoa(i), t))
		}
	}
	return []callRes{{st, splitResult(t, c.sig)}}
}

func (e *Engine) havocArg(st *State, a, v *Term) {
	switch a.Op {
	case "const":
		return
	}
	if isSliceRoot[sliceRoot(a)] || a.Op == "mk" || a.Op == "slice" || a.Op == "append" {
		isSliceRoot[sliceRoot(a)] = true
		st.setContent(a, v)
		return
	}
	st.store(a, v)
}

func splitResult(t *Term, sig *types.Signature) *Term {
	n := sig.Results().Len()
	switch n {
	case 0:
		return mk("tuple", "")
	case 1:
		return t
	}
	var l []*Term
	for i := 0; i < n; i++ {
		l = append(l, mk("ext", strconv.Itoa(i), t))
	}
	return mk("tuple", "", l...)
}

func (e *Engine) builtin(r *region, st *State, name string, in *ssa.Call) []callRes {
	var args []*Term
	for _, a := range in.Call.Args {
		args = append(args, e.val(st, a))
	}
	one := func(t *Term) []callRes { return []callRes{{st, t}} }
	switch name {
	case "len":
		switch t := in.Call.Args[0].Type().Underlying().(type) {
		case *types.Map:
			return one(mk("maplen", "", st.load(args[0])))
		case *types.Array:
			return one(mkInt(t.Len()))
		case *types.Pointer:
			return one(mkInt(t.Elem().Underlying().(*types.Array).Len()))
		}
		return one(mkLen(args[0]))
	case "cap":
		return one(mk("cap", "", args[0]))
	case "append":
		base, add := args[0], args[1]
		if e.hooks.onAppend != nil && e.quiet == 0 {
			e.hooks.onAppend(e, st, base, in)
		}
		bv, av := e.sliceVal(st, base), e.sliceVal(st, add)
		if (bv == tNil || bv.Op == "list" && len(bv.Args) == 0) && av.Op != "list" && !av.isConst() {
			// a copy in memory of its own
			t := mk("mk", e.site(r, in), mkLen(add))
			t.Typ = in.Type().Underlying().(*types.Slice).Elem()
			isSliceRoot[t] = true
			st.mem[t] = av
			return one(t)
		}
		return one(mkAppend(bv, av))
	case "copy":
		dst, src := args[0], args[1]
		if e.hooks.onStore != nil && e.quiet == 0 {
			e.hooks.onStore(e, st, elemAddr(dst, mk("anyidx", "")), src, in)
		}
		c := st.content(src)
		isSliceRoot[sliceRoot(dst)] = true
		full := mkLen(dst) == mkLen(src)
		if dst.Op == "slice" && dst.Args[0].Op == "arr" {
			full = full || mkLen(src).isConst() && mkLen(src) == mkLen(dst)
		}
		if part := src.Op == "slice" && mkLen(src) != mkLen(src.Args[0]) && src.Args[0].Op != "arr"; full && !part && (dst.Op != "slice" || isFullArr(dst)) {
			st.setContent(dst, c)
		} else {
			st.setContent(dst, mk("copied", "", st.content(dst), c, mkLen(dst), mkLen(src)))
		}
		return one(mk("copyn", "", dst, src))
	case "delete":
		m, k := args[0], e.snap(st, args[1], nil)
		if e.hooks.onStore != nil && e.quiet == 0 {
			e.hooks.onStore(e, st, mk("mapelem", "", m, k), tNil, in)
		}
		st.mem[m] = mk("mapdel", "", st.load(m), k)
		return one(mk("tuple", ""))
	case "min", "max":
		bt, ok := in.Type().Underlying().(*types.Basic)
		if !ok || bt.Info()&types.IsInteger == 0 {
			return one(mk("call", name, args...))
		}
		// one state per possible result
		res := []callRes{{st, args[0]}}
		for _, a := range args[1:] {
			var next []callRes
			for _, r := range res {
				lt := mkLt(r.val, a, bt.Info()&types.IsUnsigned != 0)
				for _, v := range []bool{true, false} {
					s := r.st.clone()
					if t := s.truth(lt); t >= 0 && (t == 1) != v || !s.assume(lt, v) {
						continue
					}
					if v == (name == "min") {
						next = append(next, callRes{s, r.val})
					} else {
						next = append(next, callRes{s, a})
					}
				}
			}
			res = next
		}
		return res
	case "print", "println":
		return one(mk("tuple", ""))
	case "clear":
		if _, ok := in.Call.Args[0].Type().Underlying().(*types.Map); ok {
			st.mem[args[0]] = mk("emptymap", "")
			return one(mk("tuple", ""))
		}
	case "ssa:wrapnilchk":
		return one(args[0])
	}
	e.fail("unsupported builtin %s at %s", name, e.pos(in.Pos()))
	return nil
}

func isFullArr(s *Term) bool {
	return s.Op == "slice" && s.Args[0].Op == "arr" && s.Args[1] == mkInt(0) && s.Args[2].Aux == s.Args[0].Aux
}

// sliceVal is the element sequence of a slice argument, by value.
func (e *Engine) sliceVal(st *State, s *Term) *Term {
	c := st.content(s)
	if s.Op == "slice" && s.Args[0].Op == "arr" {
		if n, ok := mkLen(s).intVal(); ok {
			if l := listOf(c, n); l != nil {
				return l
			}
		}
	}
	if s.Op == "mk" {
		if n, ok := s.Args[0].intVal(); ok && n == 0 && c.Op == "zeros" {
			return mk("list", "")
		}
	}
	if c == s {
		return s
	}
	if s.Op == "slice" {
		return s
	}
	return s
}

// methodModel supplies models for opaque marshal/unmarshal methods.
func (e *Engine) methodModel(c *callCtx) modelFunc {
	if isCodecMethod(c.fn, "unmarshal") {
		return modelUnmarshal
	}
	if isCodecMethod(c.fn, "marshal") {
		return modelMarshal
	}
	return nil
}

// isCodecMethod: a method of a package type with the given name that takes a
// cryptobyte stream as its first argument.
func isCodecMethod(fn *ssa.Function, name string) bool {
	if fn == nil || fn.Name() != name || fn.Signature.Recv() == nil || fn.Signature.Params().Len() < 1 {
		return false
	}
	s := fn.Signature.Params().At(0).Type().String()
	return strings.HasSuffix(s, "cryptobyte.String") || strings.HasSuffix(s, "cryptobyte.Builder")
}

func recvType(fn *ssa.Function) string {
	t := fn.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return typeStr(t)
}

// modelUnmarshal: T.unmarshal(dst, s, extra...) either fails or stores the
// decoded value and consumes it from the stream.
func modelUnmarshal(e *Engine, st *State, c *callCtx) []callRes {
	T := recvType(c.fn)
	dst, sp := c.args[0], c.args[1]
	extra := e.snapArgs(st, c.args[2:])
	return modelDecode(e, st, c, T, dst, sp, st.load(sp), extra)
}

func modelDecode(e *Engine, st *State, c *callCtx, T string, dst, sp, s *Term, extra []*Term) []callRes {
	okT := mk("candec", T, append([]*Term{s}, extra...)...)
	bad := st.clone()
	var out []callRes
	if st.assume(okT, true) {
		st.store(dst, mk("dec", T, append([]*Term{s}, extra...)...))
		st.store(sp, mk("rest", T, append([]*Term{s}, extra...)...))
		out = append(out, callRes{st, tNil})
	}
	if bad.assume(okT, false) {
		bad.store(dst, mk("partial", T, s))
		bad.store(sp, mk("partialrest", T, s))
		out = append(out, callRes{bad, mk("errv", "decode "+T+"@"+c.id, s)})
	}
	return out
}

// modelMarshal: T.marshal(v, b, extra...) appends the encoding of v.
func modelMarshal(e *Engine, st *State, c *callCtx) []callRes {
	T := recvType(c.fn)
	v := e.snap(st, c.args[0], nil)
	if _, ok := c.fn.Signature.Recv().Type().(*types.Pointer); ok {
		v = derefSnap(v)
	}
	bp := c.args[1]
	extra := e.snapArgs(st, c.args[2:])
	st.store(bp, mkCat(e.bload(st, bp), mk("enc", T, append([]*Term{v}, extra...)...)))
	return []callRes{{st, mk("tuple", "")}}
}

// derefSnap is the value a snapshotted pointer points to.
func derefSnap(p *Term) *Term {
	switch p.Op {
	case "ref":
		return p.Args[0]
	case "fa":
		return mkField(derefSnap(p.Args[0]), p.Aux)
	case "ia":
		return mkSel(p.Args[0], p.Args[1])
	case "iap":
		return mkSel(derefSnap(p.Args[0]), p.Args[1])
	}
	return mk("deref", "", p)
}

// appendsTo is the index of the argument an external function appends its
// result to, or -1.
func appendsTo(n string) int {
	switch {
	case n == "cipher.AEAD.Seal" || n == "cipher.AEAD.Open" || n == "hash.Hash.Sum":
		return 1
	case strings.Contains(n, "Endian.Append"):
		return 1
	case strings.HasPrefix(n, "strconv.Append"), strings.HasPrefix(n, "fmt.Append"), strings.HasPrefix(n, "encoding/hex.Append"):
		return 0
	}
	return -1
}

// appendArg records that a call appends to argument i; when that overwrites
// existing elements their content is lost.
func (e *Engine) appendArg(st *State, c *callCtx, i int) *State {
	a := c.args[i]
	if a.isConst() {
		return st
	}
	if e.hooks.onAppend != nil && e.quiet == 0 {
		e.hooks.onAppend(e, st, a, c.instr)
	}
	if a.Op == "slice" && a.Args[2] == mkInt(0) {
		pre := e.snapArgs(st, c.args)
		e.havocArg(st, a.Args[0], mk("out", strconv.Itoa(i), mk("call", c.name, pre...)))
	}
	return st
}

func (e *Engine) external(st *State, c *callCtx) []callRes {
	pure := pureExternal(c.name)
	if i := appendsTo(c.name); i >= 0 && i < len(c.args) {
		pre := e.snapArgs(st, c.args)
		if a := c.args[i]; a.Op == "slice" && a.Args[2] == mkInt(0) {
			pre[i] = tNil
		}
		t := mk("call", c.name, pre...)
		st = e.appendArg(st, c, i)
		return []callRes{{st, splitResult(t, c.sig)}}
	}
	t := mk("call", c.name, e.snapArgs(st, c.args)...)
	if !pure {
		t = mk("call", c.name+"@"+c.id, e.snapArgs(st, c.args)...)
		e.note("unmodelled external call " + c.name)
	} else if randomised(c.name) {
		t = mk("call", c.name+"@"+c.id, e.snapArgs(st, c.args)...)
	}
	if !pure || externalWriter(c.name) {
		impl, inside := e.p.implsOf(c)
		for i, a := range c.args {
			if inside {
				w := false
				for _, m := range impl {
					w = w || e.p.mayWrite(m, i)
				}
				if !w {
					continue
				}
			}
			if writable(c, i) {
				e.havocArg(st, a, mk("out", strconv.Itoa(i), t))
			}
		}
	}
	return []callRes{{st, splitResult(t, c.sig)}}
}

// implsOf: the package's implementations of a called interface method, when
// the interface is the package's own and not exported.
func (p *Program) implsOf(c *callCtx) ([]*ssa.Function, bool) {
	if c.fn != nil || c.instr == nil || !c.instr.Common().IsInvoke() {
		return nil, false
	}
	com := c.instr.Common()
	n, ok := com.Value.Type().(*types.Named)
	if !ok || n.Obj().Pkg() != p.ssa.Pkg || n.Obj().Exported() {
		return nil, false
	}
	return p.implementations(n.Underlying().(*types.Interface), com.Method.Name()), true
}

func (p *Program) implementations(it *types.Interface, method string) []*ssa.Function {
	var l []*ssa.Function
	for _, g := range p.all {
		if r := g.Signature.Recv(); r != nil && g.Name() == method && g.Pkg == p.ssa && types.Implements(r.Type(), it) {
			l = append(l, g)
		}
	}
	return l
}

// externalWriter: library functions that write through an argument.
func externalWriter(n string) bool {
	for _, p := range []string{"crypto/subtle.XORBytes", "crypto/subtle.ConstantTimeCopy", "slices.Sort", "slices.Reverse", "slices.Delete", "slices.Insert", "slices.Compact", "slices.Replace", "sort.", "maps.Copy", "maps.DeleteFunc", "encoding/hex.", "encoding/binary.Write", "encoding/binary.Read", "bigEndian.Put", "littleEndian.Put", "binary.bigEndian.Put", "binary.littleEndian.Put", "binary.PutUvarint", "crypto/rand."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// writable: argument i is memory the callee could write to.
func writable(c *callCtx, i int) bool {
	ps := c.sig.Params()
	k := i
	if c.fn != nil && c.fn.Signature.Recv() != nil || c.fn == nil && len(c.args) > ps.Len() {
		k--
	}
	if k < 0 || k >= ps.Len() {
		return false
	}
	switch ps.At(k).Type().Underlying().(type) {
	case *types.Slice, *types.Pointer, *types.Map:
		return c.args[i].Op != "closure"
	}
	return false
}

var notes = map[string]int{}

func (e *Engine) note(s string) { notes[s]++ }

// randomised: library functions whose result differs from call to call.
func randomised(n string) bool {
	m := n[strings.LastIndexByte(n, '.')+1:]
	switch m {
	case "GenerateKeyPair", "GenerateKey", "Encapsulate", "SignASN1", "Sign":
		return true
	}
	return n == "hpke.Sender.Setup"
}

func pureExternal(n string) bool {
	for _, p := range []string{"fmt.Sprintf", "strconv.", "strings.", "bytes.", "hpke.", "crypto.", "time.", "math/bits.", "elliptic.", "slices.", "sort.", "github.com/cloudflare/circl/", "kem.", "cipher.AEAD", "crypto/", "big.", "ed25519.", "binary.", "encoding/", "subtle.", "math/", "maps.", "errors."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

var _ = fmt.Sprint

// modelName is the name under which a library function is modelled, for an
// instance of a generic one without its type arguments.
func modelName(c *callCtx) string {
	n, args, ok := strings.Cut(c.name, "[")
	switch {
	case !ok:
	case n == "slices.Clone", n == "slices.Equal" && strings.HasSuffix(args, "byte]"):
		return n
	}
	return c.name
}

// deferred are the calls executed at in, the last one first.
func (e *Engine) deferred(in *ssa.RunDefers) []*ssa.Defer {
	l, ok := defersAt(in)
	if !ok {
		e.fail("conditionally deferred call in %s", fnName(in.Parent()))
	}
	return l
}

func defersAt(in *ssa.RunDefers) ([]*ssa.Defer, bool) {
	var l []*ssa.Defer
	for _, b := range in.Parent().DomPreorder() {
		for _, x := range b.Instrs {
			d, ok := x.(*ssa.Defer)
			if !ok {
				continue
			}
			if b.Dominates(in.Block()) && !reaches(b, b) {
				l = append([]*ssa.Defer{d}, l...)
			} else if reaches(b, in.Block()) {
				return nil, false
			}
		}
	}
	return l, true
}

// reaches: control can go from a to b along at least one edge.
func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), a.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	return false
}
