package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const pkgPath = "github.com/jayloop/radix"

var repoDir = "/repo"

type Loaded struct {
	prog *ssa.Program
	pkg  *ssa.Package
	tpkg *packages.Package
	sh   *Shared
	wall time.Duration
}

type typeErr struct{ msgs []string }

func (e *typeErr) Error() string { return strings.Join(e.msgs, "; ") }

// loadProgram type-checks and builds SSA for the current source of the
// repository plus the overlay files.
func loadProgram(overlay map[string][]byte, tags string) (*Loaded, error) {
	t0 := time.Now()
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repoDir,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOSUMDB=off", "GOPROXY=off"),
	}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("%d packages loaded", len(pkgs))
	}
	te := &typeErr{}
	for _, e := range pkgs[0].Errors {
		te.msgs = append(te.msgs, e.Error())
	}
	if len(te.msgs) > 0 {
		return nil, te
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	l := &Loaded{prog: prog, pkg: ps[0], tpkg: pkgs[0]}
	if err := l.boot(); err != nil {
		return nil, err
	}
	l.wall = time.Since(t0)
	return l, nil
}

var initWhitelist = map[string]bool{
	"io": true, "bufio": true, "strconv": true, "bytes": true, "strings": true, "math/bits": true,
	"encoding/binary": true, "unicode/utf8": true, "sort": true, "sync": false,
	"github.com/golang/snappy": true, "github.com/jayloop/table": true, pkgPath: true,
}

func (l *Loaded) boot() (err error) {
	sh := &Shared{prog: l.prog, harnPkg: l.pkg, globals: map[*ssa.Global]Ptr{}}
	l.sh = sh
	st := &State{tok: new(Token)}
	for _, p := range l.prog.AllPackages() {
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			func() {
				defer func() { recover() }()
				o := st.newTyped(g.Type().(*types.Pointer).Elem(), 1, g.String())
				o.shared = true
				sh.globals[g] = Ptr{Obj: o.id}
			}()
		}
	}
	if p := l.prog.ImportedPackage("errors"); p != nil {
		if t := p.Type("errorString"); t != nil {
			sh.errStr = types.NewPointer(t.Type())
		}
	}
	sh.initSt = st
	sh.cfg = &RunCfg{MaxSteps: 50e6, NumCPU: 2, locs: newLocTable()}
	sh.q = newQueue()
	// dependency order
	seen := map[*types.Package]bool{}
	var order []*types.Package
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		order = append(order, p)
	}
	visit(l.pkg.Pkg)
	in := &Interp{Shared: sh}
	for _, tp := range order {
		if !initWhitelist[tp.Path()] {
			continue
		}
		p := l.prog.Package(tp)
		f := p.Func("init")
		if f == nil {
			continue
		}
		cf := &Func{fn: f, name: f.String()}
		if f.Blocks == nil {
			continue
		}
		sh.compileBody(cf)
		st.threads = []*Thread{{id: 0, frames: []*Frame{in.newFrame(st, cf, nil, nil, -1)}}}
		st.cur = 0
		end := in.run(st)
		if end.kind != endDone && tp.Path() == pkgPath {
			return fmt.Errorf("package initialisation: %s", end.msg)
		}
		if end.kind != endDone && os.Getenv("VV_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "init of %s: %s\n", tp.Path(), end.msg)
		}
	}
	st.threads = nil
	st.cur = 0
	st.steps = 0
	return nil
}
