package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked, SSA form of the package under analysis.
type Program struct {
	dir     string
	fset    *token.FileSet
	pkg     *packages.Package
	prog    *ssa.Program
	ssa     *ssa.Package
	infos   map[*ssa.Function]*fnInfo
	fns     map[string]*ssa.Function // "recv.name" or "name"
	ids     map[ssa.Instruction]string
	callees map[*ssa.Function]map[*ssa.Function]bool
	all     []*ssa.Function // all functions with bodies, incl. closures
}

type loopNode struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	pos    token.Pos
}

type fnInfo struct {
	fn       *ssa.Function
	rpo      []*ssa.BasicBlock
	headerOf map[*ssa.BasicBlock]*loopNode
	liveIn   map[*ssa.BasicBlock]map[ssa.Value]bool
}

// Load reads the package in dir. overlay replaces file contents (self tests).
func Load(dir string, overlay map[string][]byte) (*Program, error) {
	p, err := load(dir, overlay)
	if err != nil {
		return nil, err
	}
	if o := canonical(p.pkg, overlay); o != nil {
		if q, err := load(dir, o); err == nil {
			return q, nil
		}
	}
	return p, nil
}

func load(dir string, overlay map[string][]byte) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir:       dir,
		Tests:     false,
		Overlay:   overlay,
		ParseFile: parseFile,
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one package, got %d", len(pkgs))
	}
	pkg := pkgs[0]
	if len(pkg.Errors) > 0 {
		return nil, fmt.Errorf("package does not type-check: %v", pkg.Errors[0])
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.BuildSerially)
	if spkgs[0] == nil {
		return nil, fmt.Errorf("no SSA package")
	}
	prog.Build()
	p := &Program{dir: dir, fset: pkg.Fset, pkg: pkg, prog: prog, ssa: spkgs[0], infos: map[*ssa.Function]*fnInfo{}, fns: map[string]*ssa.Function{}, ids: map[ssa.Instruction]string{}, callees: map[*ssa.Function]map[*ssa.Function]bool{}}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != p.ssa || len(fn.Blocks) == 0 {
			continue
		}
		if fn.Synthetic != "" && fn.Name() != "init" {
			continue
		}
		p.all = append(p.all, fn)
		if fn.Parent() == nil && fn.Synthetic == "" {
			p.fns[fnName(fn)] = fn
		}
	}
	// methods that are never used still matter
	for _, m := range p.ssa.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		for _, typ := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			ms := prog.MethodSets.MethodSet(typ)
			for i := 0; i < ms.Len(); i++ {
				fn := prog.MethodValue(ms.At(i))
				if fn != nil && fn.Synthetic == "" && fn.Pkg == p.ssa && len(fn.Blocks) > 0 {
					n := fnName(fn)
					if p.fns[n] == nil {
						p.fns[n] = fn
						p.all = append(p.all, fn)
					}
				}
			}
		}
	}
	for _, m := range p.ssa.Members {
		if fn, ok := m.(*ssa.Function); ok && fn.Synthetic == "" && p.fns[fnName(fn)] == nil {
			p.fns[fnName(fn)] = fn
			p.all = append(p.all, fn)
		}
	}
	sort.Slice(p.all, func(i, j int) bool { return p.all[i].Pos() < p.all[j].Pos() })
	p.globals()
	return p, nil
}

// ours: fn is code of the package, possibly an instance of a generic function
// or a closure of one.
func (p *Program) ours(fn *ssa.Function) bool {
	for fn != nil {
		if fn.Pkg != nil {
			return fn.Pkg == p.ssa
		}
		if o := fn.Origin(); o != nil {
			fn = o
		} else {
			fn = fn.Parent()
		}
	}
	return false
}

func (p *Program) fn(name string) *ssa.Function { return p.fns[name] }

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.fset.Position(pos)
	return fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line)
}

// namedType looks up a package type by name.
func (p *Program) namedType(name string) types.Type {
	o := p.pkg.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	if tn, ok := o.(*types.TypeName); ok {
		return tn.Type()
	}
	return nil
}

// globals records the constant initial values of package variables that are
// assigned exactly once, in the initialiser, from a literal.
func (p *Program) globals() {
	globalInit = map[string]*Term{}
	init := p.ssa.Func("init")
	written := map[string]int{}
	for _, fn := range p.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						written[g.Name()]++
					}
				}
			}
		}
	}
	if init == nil {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(undecided); !ok {
				panic(r)
			}
		}
	}()
	e := newEngine(p)
	outs := e.Run(init, newState(), nil)
	for _, o := range outs {
		for g, v := range o.st.mem {
			if g.Op != "global" || written[g.Aux] > 1 || g.Aux == "init$guard" {
				continue
			}
			if v.Op == "mkmap" {
				// the content of a package-level map
				initMaps[v] = o.st.mem[v]
			}
			globalInit[g.Aux] = e.snap(o.st, v, nil)
			if v.Op == "mkmap" {
				globalInit[g.Aux] = v
			}
		}
	}
}

// initMaps: contents of maps created by package initialisation.
var initMaps = map[*Term]*Term{}

func (p *Program) instrID(in ssa.Instruction) string {
	if id, ok := p.ids[in]; ok {
		return id
	}
	fn := in.Parent()
	for _, b := range fn.Blocks {
		for i, x := range b.Instrs {
			p.ids[x] = fmt.Sprintf("%d.%d", b.Index, i)
		}
	}
	return p.ids[in]
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	if fi, ok := p.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, headerOf: map[*ssa.BasicBlock]*loopNode{}}
	// reverse post-order; visit loop-leaving successors first so that they
	// come last
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.headerOf[s]
				if l == nil {
					l = &loopNode{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					for _, in := range s.Instrs {
						if in.Pos().IsValid() {
							l.pos = in.Pos()
							break
						}
					}
					fi.headerOf[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] || !seen[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	for _, l := range fi.headerOf {
		if !l.pos.IsValid() {
			for b := range l.blocks {
				for _, in := range b.Instrs {
					if in.Pos().IsValid() && (!l.pos.IsValid() || in.Pos() < l.pos) {
						l.pos = in.Pos()
					}
				}
			}
		}
	}
	// order: a loop's exits must come after all of the loop. Sort blocks so
	// that for every loop its blocks are contiguous in the order.
	fi.rpo = contiguous(fi.rpo, fi.headerOf)
	fi.liveness()
	p.infos[fn] = fi
	return fi
}

// contiguous reorders a reverse post-order so that each loop body is
// contiguous: blocks outside a loop that were placed between loop blocks move
// behind the loop.
func contiguous(rpo []*ssa.BasicBlock, loops map[*ssa.BasicBlock]*loopNode) []*ssa.BasicBlock {
	var build func(list []*ssa.BasicBlock, skip *loopNode) []*ssa.BasicBlock
	build = func(list []*ssa.BasicBlock, cur *loopNode) []*ssa.BasicBlock {
		var out []*ssa.BasicBlock
		used := map[*ssa.BasicBlock]bool{}
		for _, b := range list {
			if used[b] {
				continue
			}
			l := loops[b]
			if l == nil || l == cur {
				out = append(out, b)
				used[b] = true
				continue
			}
			var body []*ssa.BasicBlock
			for _, x := range list {
				if l.blocks[x] {
					body = append(body, x)
					used[x] = true
				}
			}
			out = append(out, build(body, l)...)
		}
		return out
	}
	return build(rpo, nil)
}

func (fi *fnInfo) liveness() {
	fi.liveIn = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fi.rpo {
		fi.liveIn[b] = map[ssa.Value]bool{}
	}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.liveIn[s] {
					if phi, ok := v.(*ssa.Phi); ok && phi.Block() == s {
						continue
					}
					live[v] = true
				}
				pi := -1
				for k, q := range s.Preds {
					if q == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if tracked(phi.Edges[pi]) {
						live[phi.Edges[pi]] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(*ssa.Phi); ok {
					continue // phis stay live-in: they are bound on entry
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				ops := in.Operands(nil)
				if rd, ok := in.(*ssa.RunDefers); ok {
					l, _ := defersAt(rd)
					for _, d := range l {
						ops = d.Operands(ops)
					}
				}
				for _, op := range ops {
					if op != nil && *op != nil && tracked(*op) {
						live[*op] = true
					}
				}
			}
			old := fi.liveIn[b]
			for v := range live {
				if !old[v] {
					old[v] = true
					changed = true
				}
			}
		}
	}
}

// funcDecl finds the syntax of a function.
func (p *Program) funcDecl(fn *ssa.Function) *ast.FuncDecl {
	d, _ := fn.Syntax().(*ast.FuncDecl)
	return d
}

func shortType(t types.Type) string {
	s := typeStr(t)
	return strings.TrimPrefix(s, "*")
}
