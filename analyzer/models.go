package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- byte streams ---------------------------------------------------------

// mkCat appends an item to an encoding. A length prefix followed by the bytes
// it measures is one length-prefixed ("opaque") item.
func mkCat(b, item *Term) *Term {
	if b.Op == "berr" {
		return b
	}
	if item.Op == "bytes" && b.Op == "cat" && b.Args[1].Op == "varint" {
		if b.Args[1].Args[0] == mkLen(item.Args[0]) {
			return mk("cat", "", b.Args[0], mk("opaque", "", item.Args[0]))
		}
	}
	if item.Op == "bytes" {
		if s, ok := item.Args[0].strVal(); ok && s == "" || isEmptyList(item.Args[0]) {
			return b
		}
		if item.Args[0] == tNil {
			if b.Op == "cat" && b.Args[1] == mk("varint", "", mkInt(0)) {
				return mk("cat", "", b.Args[0], mk("opaque", "", tNil))
			}
			return b
		}
	}
	return mk("cat", "", b, item)
}

var bEmpty = mk("bempty", "")

// catItems flattens an encoding.
func catItems(b *Term) (base *Term, items []*Term) {
	for b.Op == "cat" {
		items = append([]*Term{b.Args[1]}, items...)
		b = b.Args[0]
	}
	return b, items
}

func (e *Engine) bload(st *State, p *Term) *Term {
	v := st.load(p)
	if v.Op == "zero" {
		return bEmpty
	}
	return v
}

func addInt(kind string) modelFunc {
	return func(e *Engine, st *State, c *callCtx) []callRes {
		v := c.args[1]
		if v.Op == "conv" && v.Aux == "uint"+strings.TrimPrefix(kind, "u") {
			v = v.Args[0] // the cast matches the field width
		}
		st.store(c.args[0], mkCat(e.bload(st, c.args[0]), mk("int", kind, v)))
		return []callRes{{st, mk("tuple", "")}}
	}
}

// mkItem / reading: the value, feasibility and remainder of reading an item
// from stream term s.
func mkRest(kind string, s *Term, n ...*Term) *Term {
	if kind == "bytes" {
		if k, src := opaqueShape(s, n[0]); k {
			return mk("rest", "opaque", src)
		}
	}
	return mk("rest", kind, append([]*Term{s}, n...)...)
}

func mkRdVal(kind string, s *Term, n ...*Term) *Term {
	if kind == "bytes" {
		if k, src := opaqueShape(s, n[0]); k {
			return mk("rd", "opaque", src)
		}
	}
	return mk("rd", kind, append([]*Term{s}, n...)...)
}

func opaqueShape(s, n *Term) (bool, *Term) {
	if s.Op == "rest" && s.Aux == "varint" && n.Op == "rd" && n.Aux == "varint" && n.Args[0] == s.Args[0] {
		return true, s.Args[0]
	}
	return false, nil
}

func readInt(kind string) modelFunc {
	return func(e *Engine, st *State, c *callCtx) []callRes {
		s := st.load(c.args[0])
		return e.readItem(st, c, mk("can", kind, s), func(ok *State) {
			ok.store(c.args[1], mkRdVal(kind, s))
			ok.store(c.args[0], mkRest(kind, s))
		})
	}
}

func (e *Engine) readItem(st *State, c *callCtx, can *Term, eff func(ok *State)) []callRes {
	bad := st.clone()
	var out []callRes
	if st.assume(can, true) {
		eff(st)
		out = append(out, callRes{st, tTrue})
	}
	if bad.assume(can, false) {
		out = append(out, callRes{bad, tFalse})
	}
	return out
}

func mkErr(c *callCtx) *Term { return mk("errv", c.name+"@"+c.id, c.args...) }

func pureCall(e *Engine, st *State, c *callCtx) []callRes {
	return []callRes{{st, splitResult(mk("call", c.name, e.snapArgs(st, c.args)...), c.sig)}}
}

func one(st *State, t *Term) []callRes { return []callRes{{st, t}} }

func fillRandom(e *Engine, st *State, c *callCtx, buf *Term) []callRes {
	isSliceRoot[sliceRoot(buf)] = true
	if e.hooks.onStore != nil && e.quiet == 0 {
		e.hooks.onStore(e, st, elemAddr(buf, mk("anyidx", "")), mk("random", c.id), c.instr)
	}
	r := mk("random", c.id, mkLen(buf))
	if buf.Op == "slice" && !isFullArr(buf) {
		st.setContent(buf, mk("partfill", "", st.content(buf.Args[0]), r, buf.Args[1], buf.Args[2]))
	} else {
		st.setContent(buf, r)
	}
	return one(st, mk("tuple", "", mkLen(buf), mk("ext", "err", r)))
}

// equality of byte strings
func bytesEqual(e *Engine, st *State, c *callCtx) []callRes {
	a, b := e.snap(st, c.args[0], nil), e.snap(st, c.args[1], nil)
	return one(st, mkBytesEq(c.name, a, b))
}

func mkBytesEq(name string, a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("beq", name, a, b)
}

var models map[string]modelFunc

func init() {
	S, B := "cryptobyte.String.", "cryptobyte.Builder."
	models = map[string]modelFunc{
		S + "ReadUint8":  readInt("u8"),
		S + "ReadUint16": readInt("u16"),
		S + "ReadUint24": readInt("u24"),
		S + "ReadUint32": readInt("u32"),
		S + "ReadUint48": readInt("u48"),
		S + "ReadUint64": readInt("u64"),
		S + "Empty": func(e *Engine, st *State, c *callCtx) []callRes {
			return one(st, mkEq(mkLen(c.args[0]), mkInt(0)))
		},
		S + "ReadBytes": func(e *Engine, st *State, c *callCtx) []callRes {
			s := st.load(c.args[0])
			n := c.args[2]
			return e.readItem(st, c, mk("can", "bytes", s, n), func(ok *State) {
				ok.store(c.args[1], mkAlias(mkRdVal("bytes", s, n)))
				ok.store(c.args[0], mkRest("bytes", s, n))
			})
		},
		S + "CopyBytes": func(e *Engine, st *State, c *callCtx) []callRes {
			s := st.load(c.args[0])
			n := mkLen(c.args[1])
			return e.readItem(st, c, mk("can", "bytes", s, n), func(ok *State) {
				isSliceRoot[sliceRoot(c.args[1])] = true
				v := mkRdVal("bytes", s, n)
				if c.args[1].Op == "slice" && !isFullArr(c.args[1]) {
					v = mk("partfill", "", ok.content(c.args[1].Args[0]), v, c.args[1].Args[1], c.args[1].Args[2])
				}
				ok.setContent(c.args[1], v)
				ok.store(c.args[0], mkRest("bytes", s, n))
			})
		},
		S + "Skip": func(e *Engine, st *State, c *callCtx) []callRes {
			s := st.load(c.args[0])
			n := c.args[1]
			return e.readItem(st, c, mk("can", "bytes", s, n), func(ok *State) {
				ok.store(c.args[0], mkRest("bytes", s, n))
			})
		},

		"golang.org/x/crypto/cryptobyte.NewBuilder": func(e *Engine, st *State, c *callCtx) []callRes {
			a := mk("alloc", c.id+".builder")
			a.Typ = c.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			buf := e.snap(st, c.args[0], nil)
			if emptySlice(st, buf) {
				st.mem[a] = bEmpty
			} else {
				st.mem[a] = mkCat(bEmpty, mk("bytes", "", buf))
			}
			return one(st, a)
		},
		B + "AddUint8":  addInt("u8"),
		B + "AddUint16": addInt("u16"),
		B + "AddUint24": addInt("u24"),
		B + "AddUint32": addInt("u32"),
		B + "AddUint48": addInt("u48"),
		B + "AddUint64": addInt("u64"),
		B + "AddBytes": func(e *Engine, st *State, c *callCtx) []callRes {
			v := e.snap(st, c.args[1], nil)
			st.store(c.args[0], mkCat(e.bload(st, c.args[0]), mk("bytes", "", v)))
			return one(st, mk("tuple", ""))
		},
		B + "SetError": func(e *Engine, st *State, c *callCtx) []callRes {
			st.store(c.args[0], mk("berr", ""))
			return one(st, mk("tuple", ""))
		},
		B + "Bytes":        builderBytes,
		B + "BytesOrPanic": func(e *Engine, st *State, c *callCtx) []callRes { return one(st, mkBuilt(e.bload(st, c.args[0]))) },

		"bytes.Equal":                       bytesEqual,
		"crypto/hmac.Equal":                 bytesEqual,
		"crypto/subtle.ConstantTimeCompare": ctCompare,
		"slices.Equal":                      bytesEqual,
		"bytes.Clone":                       cloneSlice,
		"slices.Clone":                      cloneSlice,
		"fmt.Errorf":                        errNew,
		"errors.New":                        errNew,
		"errors.Join":                       errNew,
		"crypto/rand.Read":                  func(e *Engine, st *State, c *callCtx) []callRes { return fillRandom(e, st, c, c.args[0]) },
		"io.ReadFull":                       readFull,
		"crypto.Hash.New":                   func(e *Engine, st *State, c *callCtx) []callRes { return hashNew(e, st, c, mk("hinit", "", c.args[0])) },
		"crypto/hmac.New": func(e *Engine, st *State, c *callCtx) []callRes {
			return hashNew(e, st, c, mk("macinit", "", c.args[0], e.snap(st, c.args[1], nil)))
		},
		"hash.Hash.Write": hashWrite,
		"io.Writer.Write": hashWrite,
		"hash.Hash.Sum":   hashSum,
		"hash.Hash.Reset": hashReset,
		"io.WriteString":  hashWrite,
		"slices.Contains": pureCall,
		"slices.Index":    pureCall,
	}
}

func mkAlias(v *Term) *Term { return mk("view", "", v) }

func cloneSlice(e *Engine, st *State, c *callCtx) []callRes {
	src := c.args[0]
	t := mk("mk", c.id+"#clone", mkLen(src))
	if s, ok := c.sig.Results().At(0).Type().Underlying().(*types.Slice); ok {
		t.Typ = s.Elem()
	}
	isSliceRoot[t] = true
	st.mem[t] = st.content(src)
	return one(st, t)
}

func errNew(e *Engine, st *State, c *callCtx) []callRes { return one(st, mk("errv", c.id)) }

func ctCompare(e *Engine, st *State, c *callCtx) []callRes {
	a, b := e.snap(st, c.args[0], nil), e.snap(st, c.args[1], nil)
	eq := mkBytesEq(c.name, a, b)
	s2 := st.clone()
	var out []callRes
	if st.assume(eq, true) {
		out = append(out, callRes{st, mkInt(1)})
	}
	if s2.assume(eq, false) {
		out = append(out, callRes{s2, mkInt(0)})
	}
	return out
}

func readFull(e *Engine, st *State, c *callCtx) []callRes {
	r := c.args[0]
	if r.Op == "deref" && r.Args[0].Op == "global" && r.Args[0].Aux == "crypto/rand.Reader" {
		return fillRandom(e, st, c, c.args[1])
	}
	return e.external(st, c)
}

// ---- hashes ---------------------------------------------------------------

func hashNew(e *Engine, st *State, c *callCtx, init *Term) []callRes {
	h := mk("hobj", c.id)
	st.mem[h] = init
	return one(st, h)
}

func hashWrite(e *Engine, st *State, c *callCtx) []callRes {
	h := c.args[0]
	v := e.snap(st, c.args[1], nil)
	in := st.load(h)
	if v.Op == "built" {
		// plain bytes in front of the rest are like a write of their own
		base, items := catItems(v.Args[0])
		for base == bEmpty && len(items) > 1 && items[0].Op == "bytes" {
			in = mkCat(in, items[0])
			items = items[1:]
			v = bEmpty
			for _, x := range items {
				v = mkCat(v, x)
			}
			v = mk("built", "", v)
		}
	}
	st.mem[h] = mkCat(in, mk("bytes", "", v))
	return one(st, mk("tuple", "", mkLen(c.args[1]), tNil))
}

func hashReset(e *Engine, st *State, c *callCtx) []callRes {
	h := c.args[0]
	b, _ := catItems(st.load(h))
	st.mem[h] = b
	return one(st, mk("tuple", ""))
}

func hashSum(e *Engine, st *State, c *callCtx) []callRes {
	h := c.args[0]
	t := mk("sum", "", st.load(h))
	pre := e.snap(st, c.args[1], nil)
	st = e.appendArg(st, c, 1)
	return one(st, mkAppendNil(pre, t))
}

func mkAppendNil(s, t *Term) *Term {
	if s == tNil || s.Op == "list" && len(s.Args) == 0 || s.Op == "zeros" && s.Args[0] == mkInt(0) {
		return t
	}
	if s.Op == "slice" && s.Args[2] == mkInt(0) {
		return t
	}
	return mk("append", "", s, t)
}

// ---- builders -------------------------------------------------------------

func mkBuilt(b *Term) *Term {
	base, items := catItems(b)
	if base == bEmpty && len(items) == 1 && items[0].Op == "bytes" {
		return items[0].Args[0]
	}
	return mk("built", "", b)
}

func builderBytes(e *Engine, st *State, c *callCtx) []callRes {
	b := e.bload(st, c.args[0])
	if b.Op == "berr" {
		return one(st, mk("tuple", "", tNil, mk("errv", "builder@"+c.id)))
	}
	return one(st, mk("tuple", "", mkBuilt(b), mk("encerr", "", b)))
}

// ---- who writes through its arguments -------------------------------------

var (
	mayWriteCache  = map[*ssa.Function]map[int]bool{}
	mayReturnCache = map[*ssa.Function]map[int]bool{}
)

// mayReturn reports whether fn may return memory reachable from parameter i.
func (p *Program) mayReturn(fn *ssa.Function, i int) bool {
	p.mayWrite(fn, i)
	return mayReturnCache[fn][i]
}

// mayWrite reports whether fn may write memory reachable from parameter i.
// It is a flow-insensitive over-approximation used for opaque calls only.
func (p *Program) mayWrite(fn *ssa.Function, i int) bool {
	if m, ok := mayWriteCache[fn]; ok {
		return m[i]
	}
	m := map[int]bool{}
	ret := map[int]bool{}
	mayReturnCache[fn] = ret
	mayWriteCache[fn] = m // recursion: optimistic, iterate below
	blocks := withClosures(fn)
	for pass := 0; pass < 4; pass++ {
		derived := map[ssa.Value]map[int]bool{} // memory of a parameter
		holds := map[ssa.Value]map[int]bool{}   // addresses of variables that refer to it
		for k, prm := range fn.Params {
			derived[prm] = map[int]bool{k: true}
		}
		for ch := true; ch; {
			ch = false
			into := func(m map[ssa.Value]map[int]bool, dst ssa.Value, ks map[int]bool) {
				for k := range ks {
					if m[dst] == nil {
						m[dst] = map[int]bool{}
					}
					if !m[dst][k] {
						m[dst][k] = true
						ch = true
					}
				}
			}
			prop := func(dst ssa.Value, srcs ...ssa.Value) {
				for _, s := range srcs {
					into(derived, dst, derived[s])
					into(holds, dst, holds[s])
				}
			}
			for _, b := range blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.FieldAddr:
						prop(in, in.X)
					case *ssa.IndexAddr:
						prop(in, in.X)
					case *ssa.UnOp:
						prop(in, in.X)
						into(derived, in, holds[in.X])
					case *ssa.Slice:
						prop(in, in.X)
					case *ssa.ChangeType:
						prop(in, in.X)
					case *ssa.Convert:
						prop(in, in.X)
					case *ssa.MakeInterface:
						prop(in, in.X)
					case *ssa.Field:
						prop(in, in.X)
					case *ssa.Phi:
						prop(in, in.Edges...)
					case *ssa.Extract:
						prop(in, in.Tuple)
					case *ssa.Lookup:
						prop(in, in.X)
					case *ssa.Store:
						if a, ok := in.Addr.(*ssa.Alloc); ok && canRefer(in.Val.Type()) {
							into(holds, a, derived[in.Val])
						}
					case *ssa.Call:
						callee := in.Common().StaticCallee()
						if callee == nil || !p.ours(callee) {
							continue
						}
						for ai, a := range in.Common().Args {
							if len(derived[a]) > 0 && p.mayReturn(callee, ai) {
								into(derived, in, derived[a])
							}
						}
					case *ssa.MakeClosure:
						for k, v := range in.Bindings {
							prop(in.Fn.(*ssa.Function).FreeVars[k], v)
						}
					}
				}
			}
		}
		for _, b := range blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Return:
					for _, v := range in.Results {
						if in.Parent() == fn && canRefer(v.Type()) {
							for k := range derived[v] {
								ret[k] = true
							}
						}
					}
				case *ssa.Store:
					for k := range derived[in.Addr] {
						m[k] = true
					}
				case *ssa.MapUpdate:
					for k := range derived[in.Map] {
						m[k] = true
					}
				case ssa.CallInstruction:
					com := in.Common()
					if bi, ok := com.Value.(*ssa.Builtin); ok {
						if bi.Name() == "copy" || bi.Name() == "delete" || bi.Name() == "clear" {
							for k := range derived[com.Args[0]] {
								m[k] = true
							}
						}
						continue
					}
					callee := com.StaticCallee()
					if callee != nil && !p.ours(callee) && externalWriter(fnName(callee)) {
						for _, a := range com.Args {
							if _, basic := a.Type().Underlying().(*types.Basic); basic {
								continue
							}
							for k := range derived[a] {
								m[k] = true
							}
						}
					}
					if callee != nil && p.ours(callee) {
						for ai, a := range com.Args {
							if len(derived[a]) > 0 && p.mayWrite(callee, ai) {
								for k := range derived[a] {
									m[k] = true
								}
							}
						}
					}
				}
			}
		}
	}
	return m[i]
}

// withClosures are the blocks of fn and of the functions inside it.
func withClosures(fn *ssa.Function) []*ssa.BasicBlock {
	l := append([]*ssa.BasicBlock(nil), fn.Blocks...)
	for _, f := range fn.AnonFuncs {
		l = append(l, withClosures(f)...)
	}
	return l
}

// canRefer: values of the type can refer to memory.
func canRefer(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return !ok || b.Kind() == types.UnsafePointer
}

func isEmptyList(t *Term) bool {
	return t.Op == "list" && len(t.Args) == 0 || t.Op == "zeros" && t.Args[0] == mkInt(0)
}
