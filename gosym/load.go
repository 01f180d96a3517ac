package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const harnessMod = "verif.local/harness"
const symPkg = harnessMod + "/sym"
const modelPkg = harnessMod + "/model"

type Loaded struct {
	prog      *ssa.Program
	fset      *token.FileSet
	pkgs      []*ssa.Package
	replace   map[string]*ssa.Function
	rtErr     types.Type
	errStr    types.Type
	harnesses map[string]*ssa.Function
	modelInit *ssa.Function
	repoFuncs int
}

func isModelPkg(p string) bool { return p == modelPkg || p == symPkg }
func isRepoPkg(p string) bool  { return strings.HasPrefix(p, "github.com/performancecopilot/speed") }

func isStd(p string) bool {
	first := p
	if i := strings.IndexByte(p, '/'); i >= 0 {
		first = p[:i]
	}
	return !strings.Contains(first, ".")
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOSUMDB=off", "CGO_ENABLED=0", "GONOSUMDB=*", "GOWORK=off")
	return env
}

func Load(dir string, patterns []string) (*Loaded, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: goEnv()}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if isStd(p.PkgPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading %s: %s", dir, strings.Join(errs, "; "))
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	ld := &Loaded{prog: prog, fset: prog.Fset, pkgs: pkgs, replace: map[string]*ssa.Function{}, harnesses: map[string]*ssa.Function{}}
	if rt := prog.ImportedPackage("runtime"); rt != nil {
		ld.rtErr = rt.Type("errorString").Type()
	}
	hre := regexp.MustCompile(`^C\d\d_`)
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		for name, mem := range p.Members {
			if f, ok := mem.(*ssa.Function); ok && hre.MatchString(name) && f.Signature.Params().Len() == 0 {
				ld.harnesses[name] = f
			}
		}
	}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if p.PkgPath != modelPkg {
			return
		}
		sp := prog.ImportedPackage(modelPkg)
		ld.modelInit = sp.Func("Init")
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if rest, ok := strings.CutPrefix(c.Text, "//sym:replace "); ok {
						ld.replace[strings.TrimSpace(rest)] = sp.Func(fd.Name.Name)
					}
				}
			}
		}
	})
	return ld, nil
}

func (ld *Loaded) harnessNames(prefix string) []string {
	var out []string
	for n := range ld.harnesses {
		if strings.HasPrefix(n, prefix+"_") {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

// noInit lists the standard packages whose globals are never initialised by
// interpretation; touching them is reported as unsupported.
func noInit(p string) bool {
	switch p {
	case "runtime", "os", "syscall", "internal/poll", "internal/godebug", "internal/bytealg", "unsafe", "internal/syscall/unix", "os/signal", "net":
		return true
	}
	return strings.HasPrefix(p, "internal/runtime/") || strings.HasPrefix(p, "runtime/")
}

type Poison struct{ why string }

// global returns the cell of a package level variable.
func (m *M) global(g *ssa.Global) *Cell {
	if c, ok := m.globals[g]; ok {
		return c
	}
	pkg := g.Pkg.Pkg.Path()
	if isStd(pkg) && pkg != "os" {
		if c, ok := m.w.stdGlobals[g]; ok && !m.w.badInit[g.Pkg] {
			return c
		}
		if noInit(pkg) {
			unsup("global %s of package %s", g.Name(), pkg)
		}
		if pkg != "internal/cpu" { // its zero values mean: no optional CPU feature
			m.w.initStd(g.Pkg)
		}
		if m.w.badInit[g.Pkg] {
			unsup("global %s: the initialiser of %s could not be interpreted", g.Name(), pkg)
		}
		c, ok := m.w.stdGlobals[g]
		if !ok {
			c = m.w.zeroM.newCell(g.Type().Underlying().(*types.Pointer).Elem())
			m.w.stdGlobals[g] = c
		}
		return c
	}
	c := m.newCell(g.Type().Underlying().(*types.Pointer).Elem())
	m.globals[g] = c
	return c
}

func markShared(c *Cell) {
	c.shared = true
	for _, s := range c.sub {
		markShared(s)
	}
	if c.arr != nil {
		c.arr.shared = true
		for _, e := range c.arr.e {
			if e != nil {
				markShared(e)
			}
		}
	}
}

// initStd interprets the initializer of a standard package once per worker.
func (w *Worker) initStd(p *ssa.Package) {
	if w.stdInit[p] {
		return
	}
	w.stdInit[p] = true
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	for _, mem := range p.Members {
		if g, ok := mem.(*ssa.Global); ok {
			if _, have := w.stdGlobals[g]; !have {
				w.stdGlobals[g] = w.zeroM.newCell(g.Type().Underlying().(*types.Pointer).Elem())
			}
		}
	}
	m := w.zeroM
	saved, savedGs, savedInit := m.cur, m.gs, m.initing
	m.initing = true
	m.gs = nil
	g := m.newG("init " + p.Pkg.Path())
	fi := w.fnInfo(fn)
	m.pushFrame(g, fi, nil, nil, -1)
	m.cur = g
	errs := 0
	for !g.done {
		if len(g.frames) == 1 {
			if fr := g.top(); fr.pc >= len(fi.blocks[fr.blk]) {
				// the terminator of a block depends on a poisoned value
				g.done = true
				w.badInit[p] = true
				break
			}
		}
		if errs++; errs > 200000 {
			g.done = true
			w.badInit[p] = true
			break
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(sigUnsup); ok {
						// poison the result of the failing instruction and go on
						for len(g.frames) > 1 {
							g.frames = g.frames[:len(g.frames)-1]
						}
						g.pend = nil
						g.unwind = nil
						fr := g.top()
						ins := &fr.fi.blocks[fr.blk][fr.pc-1]
						if ins.dst >= 0 {
							fr.env[ins.dst] = Poison{u.msg}
						}
						return
					}
					if _, ok := r.(sigPanic); ok {
						for len(g.frames) > 1 {
							g.frames = g.frames[:len(g.frames)-1]
						}
						fr := g.top()
						ins := &fr.fi.blocks[fr.blk][fr.pc-1]
						if ins.dst >= 0 {
							fr.env[ins.dst] = Poison{"panic in init"}
						}
						return
					}
					// a type error in the executor caused by a poisoned operand
					if len(g.frames) > 0 {
						for len(g.frames) > 1 {
							g.frames = g.frames[:len(g.frames)-1]
						}
						fr := g.top()
						ins := &fr.fi.blocks[fr.blk][fr.pc-1]
						if ins.dst >= 0 {
							fr.env[ins.dst] = Poison{fmt.Sprint(r)}
						}
						return
					}
					panic(r)
				}
			}()
			for !g.done {
				if g.pend != nil {
					op := g.pend
					g.pend = nil
					v := op.run()
					if op.fr != nil && op.dst >= 0 {
						op.fr.env[op.dst] = v
					}
				}
				if len(g.frames) == 0 {
					g.done = true
					break
				}
				m.step(g)
			}
		}()
	}
	m.cur, m.gs, m.initing = saved, savedGs, savedInit
	for _, mem := range p.Members {
		if gl, ok := mem.(*ssa.Global); ok {
			if c := w.stdGlobals[gl]; c != nil {
				markShared(c)
			}
		}
	}
}

func (w *Worker) method(t types.Type, fn *types.Func) *ssa.Function {
	k := methKey{t, fn}
	if f, ok := w.methods[k]; ok {
		return f
	}
	f := w.ld.prog.LookupMethod(t, fn.Pkg(), fn.Name())
	w.methods[k] = f
	return f
}

type methKey struct {
	t  types.Type
	fn *types.Func
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (w *Worker) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if b, ok := w.impls[k]; ok {
		return b
	}
	b := types.Implements(t, i)
	w.impls[k] = b
	return b
}
