package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Secrecy: which values are secret, and where they may go.

// secretNames are the fields that hold secrets, beyond those whose type says
// so.
var secretNames = []string{"epochSecret", "initSecret", "pskSecret", "joinerSecret", "pathSecret", "secret", "InitKey", "EncryptionKey", "SignatureKey", "psks"}

var secretTypeNames = setOf("hpkePrivateKey", "signaturePrivateKey", "secretTree", "ratchetSecret")

type secrecy struct {
	c      *Ctx
	fields map[string]bool // names of fields holding secrets
	given  map[*Term]bool  // further secrets: parameters
	last   map[string]int  // index of the error result of functions
	macs   bool            // tags are secret, too
	read   bool            // bytes read are secret
}

func (c *Ctx) secrecy() *secrecy {
	s := &secrecy{c: c, fields: setOf(secretNames...), given: map[*Term]bool{}, last: map[string]int{}}
	for _, n := range c.p.ssa.Pkg.Scope().Names() {
		st, ok := c.p.ssa.Pkg.Scope().Lookup(n).Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if byteSecret(st.Field(i).Type()) {
				s.fields[st.Field(i).Name()] = true
			}
		}
	}
	return s
}

// byteSecret: a type of secret bytes, or a list of those.
func byteSecret(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && secretTypeNames[n.Obj().Name()] {
		return true
	}
	switch t := t.Underlying().(type) {
	case *types.Slice:
		return byteSecret(t.Elem())
	case *types.Array:
		return byteSecret(t.Elem())
	case *types.Pointer:
		return byteSecret(t.Elem())
	case *types.Map:
		return byteSecret(t.Elem())
	}
	return false
}

// ofBytes: bytes, text or lists of those.
func ofBytes(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Kind() == types.Uint8 || t.Info()&types.IsString != 0
	case *types.Slice:
		return ofBytes(t.Elem())
	case *types.Array:
		return ofBytes(t.Elem())
	case *types.Interface:
		return true
	}
	return false
}

// holdsSecrets: values of a type include secrets.
func (s *secrecy) holdsSecrets(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if byteSecret(t) {
		return true
	}
	n, _ := t.(*types.Named)
	if n != nil && n.Obj().Pkg() != s.c.p.ssa.Pkg {
		p := ""
		if n.Obj().Pkg() != nil {
			p = n.Obj().Pkg().Path()
		}
		return (strings.HasPrefix(p, "crypto") || strings.Contains(p, "circl")) && strings.Contains(n.Obj().Name(), "Private")
	}
	switch t := t.Underlying().(type) {
	case *types.Slice:
		return s.holdsSecrets(t.Elem(), seen)
	case *types.Array:
		return s.holdsSecrets(t.Elem(), seen)
	case *types.Pointer:
		return s.holdsSecrets(t.Elem(), seen)
	case *types.Map:
		return s.holdsSecrets(t.Elem(), seen)
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if s.fields[t.Field(i).Name()] || s.holdsSecrets(t.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// callClass is what a call's result reveals: "public", "secret", or "" for
// whatever its arguments reveal.
func callClass(name string) string {
	name, _, _ = strings.Cut(name, "@")
	m := name[strings.LastIndexByte(name, '.')+1:]
	switch name {
	case "CipherSuite.expandWithLabel", "CipherSuite.deriveSecret", "CipherSuite.decryptWithLabel", "deriveSecretTree", "hpke.KDF.Extract", "hpke.KDF.Expand":
		return "secret"
	case "CipherSuite.signWithLabel", "CipherSuite.encryptWithLabel", "CipherSuite.verifyWithLabel", "CipherSuite.hpke", "CipherSuite.hash":
		return "public"
	}
	switch m {
	case "Sign", "SignASN1", "Verify", "VerifyASN1", "Public", "PublicKey", "Size", "Params", "Scheme", "Open":
		return "public"
	case "Seed":
		return "secret"
	case "Export":
		return "secret"
	}
	return ""
}

// leak finds a secret in a value; locations declared to hold secrets are
// skipped if stored is set.
func (s *secrecy) leak(t *Term, stored bool) *Term {
	seen := map[*Term]bool{}
	var walk func(t *Term) *Term
	all := func(l []*Term) *Term {
		for _, a := range l {
			if r := walk(a); r != nil {
				return r
			}
		}
		return nil
	}
	walk = func(t *Term) *Term {
		if seen[t] {
			return nil
		}
		seen[t] = true
		if s.given[t] {
			return t
		}
		switch t.Op {
		case "const", "global", "func", "alloc", "zero", "zeros", "len", "cap", "eq", "lt", "not", "beq", "isa", "maphas", "maplen", "nextok", "can", "candec", "sumsize", "errv", "berr", "encerr", "emptymap", "bempty", "closure", "hobj":
			return nil
		case "sym":
			return nil
		case "rd":
			if s.read && (t.Aux == "bytes" || t.Aux == "opaque") {
				return t
			}
			return all(t.Args)
		case "random":
			return t
		case "field":
			if s.fields[t.Aux] {
				return t
			}
			for b := t.Args[0]; ; b = b.Args[0] {
				if s.given[b] {
					return t
				}
				if len(b.Args) == 0 || b.Op != "field" && b.Op != "deref" && b.Op != "sel" {
					if b.Op == "call" || b.Op == "ext" {
						return walk(b)
					}
					return nil
				}
			}
		case "with":
			names := strings.Split(t.Aux, ",")
			if r := walk(t.Args[0]); r != nil {
				return r
			}
			for i, a := range t.Args[1:] {
				if stored && i < len(names) && s.fields[names[i]] {
					continue
				}
				if r := walk(a); r != nil {
					return r
				}
			}
			return nil
		case "dec", "partial":
			if tn := s.c.p.ssa.Pkg.Scope().Lookup(t.Aux); tn != nil && s.holdsSecrets(tn.Type(), map[types.Type]bool{}) {
				return t
			}
			return nil
		case "sum":
			if t.any(func(x *Term) bool { return x.Op == "macinit" }) && isMAC(t) {
				if s.macs {
					return t
				}
				return nil
			}
			return all(t.Args)
		case "call":
			switch callClass(t.Aux) {
			case "secret":
				return t
			case "public":
				return nil
			}
			if strings.HasSuffix(t.Aux, ".Seal") || strings.Contains(t.Aux, ".Seal@") {
				if len(t.Args) > 1 {
					return walk(t.Args[1]) // the buffer appended to
				}
				return nil
			}
			return all(t.Args)
		case "ext":
			b := t.Args[0]
			if t.Aux == "err" {
				return nil
			}
			if b.Op == "call" {
				name, _, _ := strings.Cut(b.Aux, "@")
				m := name[strings.LastIndexByte(name, '.')+1:]
				if n, ok := s.last[name]; ok && t.Aux == fmt.Sprint(n) {
					return nil
				}
				switch m {
				case "GenerateKeyPair", "DeriveKeyPair", "GenerateKey", "NewKeyFromSeed":
					if t.Aux == "0" && !strings.HasSuffix(name, "ecdsa.GenerateKey") {
						return nil // the public key
					}
					return t
				case "Setup":
					return nil
				}
			}
			return walk(b)
		case "deref":
			return nil
		case "lv":
			if init, next, ok := lvParts(t); ok {
				if r := walk(init); r != nil {
					return r
				}
				return all(next)
			}
			return nil
		case "sel":
			return walk(t.Args[0])
		}
		return all(t.Args)
	}
	return walk(t)
}

// isMAC: a keyed digest.
func isMAC(t *Term) bool {
	if t.Op != "sum" {
		return false
	}
	b, _ := catItems(t.Args[0])
	return b.Op == "macinit"
}

// textSink: functions that turn values into texts others see.
func textSink(name string) bool {
	for _, p := range []string{"fmt.", "errors.New", "log.", "log/", "os.", "runtime/debug."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.HasPrefix(name, "slog.") || strings.HasPrefix(name, "print")
}

// harmlessVerbs are the positions of a format's operands that only print a
// type.
func harmlessVerbs(format string) map[int]bool {
	l := map[int]bool{}
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'T' {
			l[n] = true
		}
		n++
	}
	return l
}

type secretRoot struct {
	fn    *ssa.Function
	given map[int]bool
}

// secretUses runs every entry point and the functions analysed separately;
// visit is called with an engine to install further hooks.
func (s *secrecy) secretUses(visit func(e *Engine, fn *ssa.Function), done func(e *Engine, fn *ssa.Function, outs []Outcome)) {
	c := s.c
	opq := c.groupOpaque(nil, nil)
	given := map[*ssa.Function]map[int]bool{}
	var todo []*ssa.Function
	add := func(f *ssa.Function, i int) {
		g := given[f]
		if g == nil {
			g = map[int]bool{}
			given[f] = g
			todo = append(todo, f)
		} else if i >= 0 && !g[i] {
			todo = append(todo, f)
		}
		if i >= 0 {
			g[i] = true
		}
	}
	for _, n := range sortedKeys(c.p.fns) {
		f := c.p.fns[n]
		if c.exported(f) {
			add(f, -1)
			if n == "Group.CreateApplicationMessage" {
				add(f, 1)
			}
		}
	}
	// PSKs are not accepted by the exported functions yet
	add(c.fn("extractPSKSecret"), 2)
	add(c.fn("groupFromSecrets"), -1)
	for _, n := range sortedKeys(c.p.fns) {
		f := c.p.fns[n]
		if r := f.Signature.Recv(); r != nil && isCodecFn(f) && s.holdsSecrets(r.Type(), map[types.Type]bool{}) {
			add(f, -1)
		}
	}
	for len(todo) > 0 {
		fn := todo[0]
		todo = todo[1:]
		again := false
		for _, f := range todo {
			again = again || f == fn
		}
		if again {
			continue
		}
		c.guard(fnName(fn), func() {
			args := SymArgs(fn)
			s.read = isCodecFn(fn)
			s.given = map[*Term]bool{}
			for i, p := range fn.Params {
				if given[fn][i] || byteSecret(p.Type()) {
					s.given[args[i]] = true
				}
			}
			e := c.engine(func(f *ssa.Function) bool { return f != fn && opq(f) })
			visit(e, fn)
			inner := e.hooks.onCall
			e.hooks.onCall = func(e *Engine, st *State, name string, a []*Term, in ssa.CallInstruction, f *ssa.Function) {
				if r := in.Common().Signature().Results(); r.Len() > 1 && isErrorType(r.At(r.Len()-1).Type()) {
					s.last[name] = r.Len() - 1
				}
				impls, _ := c.p.implsOf(&callCtx{fn: f, instr: in})
				if f != nil && c.p.ours(f) {
					impls = append(impls, f)
				}
				for _, f := range impls {
					if f.Blocks == nil || isCodecFn(f) {
						continue
					}
					if f.Synthetic == "" && f.Parent() == nil && opq(f) {
						add(f, -1)
					}
					for i, x := range a {
						if i < len(f.Params) && !given[f][i] && f.Parent() == nil && ofBytes(f.Params[i].Type()) && s.leak(e.snap(st, x, nil), true) != nil {
							add(f, i)
						}
					}
				}
				if inner != nil {
					inner(e, st, name, a, in, f)
				}
			}
			outs := c.run(e, fn, nil, args)
			c.count("roots_examined", 1)
			if done != nil {
				done(e, fn, outs)
			}
		})
	}
}

// isCodecFn: a function that reads or builds encodings; what it decodes is
// judged by the field it ends up in.
func isCodecFn(f *ssa.Function) bool {
	for _, p := range f.Params {
		if t := typeStr(p.Type()); strings.HasPrefix(t, "*cryptobyte.") || strings.HasPrefix(t, "cryptobyte.") {
			return true
		}
	}
	return false
}

func checkC20(c *Ctx) {
	s := c.secrecy()
	visit := func(e *Engine, root *ssa.Function) {
		where := func(in ssa.Instruction) string { return fnName(in.Parent()) + " in " + fnName(root) }
		text := func(st *State, t *Term, how string, in ssa.Instruction) {
			c.count("texts", 1)
			if t.Op == "iface" && t.Typ != nil && !isErrorType(t.Typ) && s.holdsSecrets(t.Typ, map[types.Type]bool{}) {
				c.violate("no secret in texts", where(in), c.pos(in.Pos()), "%s prints a %s, which includes secrets", how, typeStr(t.Typ))
				return
			}
			v := s.leak(e.snap(st, t, nil), false)
			c.oblige(v == nil, "no secret in texts", where(in), c.pos(in.Pos()), "%s is given the secret %v", how, v)
		}
		e.hooks.onCall = func(e *Engine, st *State, name string, a []*Term, in ssa.CallInstruction, f *ssa.Function) {
			if !textSink(name) {
				return
			}
			harmless := map[int]bool{}
			for _, v := range in.Common().Args {
				if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					harmless = harmlessVerbs(constant.StringVal(k.Value))
				}
			}
			variadic := in.Common().Signature().Variadic()
			for i, x := range a {
				if !variadic || i < len(a)-1 {
					text(st, x, name, in)
					continue
				}
				l := strip(e.snap(st, x, nil))
				if n := norm(l); n.Op == "list" {
					l = n
				}
				if l.Op != "list" {
					text(st, x, name, in)
					continue
				}
				for k, y := range l.Args {
					if !harmless[k] {
						text(st, y, name, in)
					}
				}
			}
		}
		e.hooks.onPanic = func(e *Engine, st *State, in *ssa.Panic) {
			text(st, e.val(st, in.X), "panic", in)
		}
		e.hooks.onStore = func(e *Engine, st *State, addr, v *Term, in ssa.Instruction) {
			r := addrRoot(addr)
			if r.Op == "global" {
				l := s.leak(e.snap(st, v, nil), false)
				c.count("stores", 1)
				c.oblige(l == nil, "no secret in package variables", where(in), c.pos(in.Pos()), "%v is set to the secret %v", addr, l)
				return
			}
			if addr.Op != "fa" || r.Op != "sym" || s.given[r] {
				return
			}
			for b := addr; b.Op == "fa"; b = b.Args[0] {
				if s.fields[b.Aux] {
					return
				}
			}
			l := s.leak(e.snap(st, v, nil), true)
			c.count("stores", 1)
			c.oblige(l == nil, "secrets kept in their fields", where(in), c.pos(in.Pos()), "%v is set to the secret %v", addr, l)
		}
	}
	done := func(e *Engine, fn *ssa.Function, outs []Outcome) {
		if !c.exported(fn) {
			return
		}
		for _, o := range outs {
			for i, r := range o.res {
				if t := fn.Signature.Results().At(i).Type(); isErrorType(t) && r.Op != "iface" {
					continue
				}
				v := s.leak(e.snap(o.st, r, nil), true)
				c.count("outputs", 1)
				c.oblige(v == nil, "no secret handed out", fnName(fn), c.pos(o.pos), "result %d reveals the secret %v", i, v)
			}
		}
	}
	s.secretUses(visit, done)
}
