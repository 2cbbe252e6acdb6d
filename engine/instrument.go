package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// instrumentRepo rewrites the current source of the package so that every
// access to shared tree memory, every atomic operation, lock operation and
// Gosched is a schedule point of the harness (vvYield). The result is used
// both by the symbolic engine and by native replay.
func instrumentRepo(ov map[string][]byte, tags string) (map[string][]byte, error) {
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps,
		Dir:     repoDir,
		Overlay: ov,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOSUMDB=off", "GOPROXY=off"),
	}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("%d packages", len(pkgs))
	}
	te := &typeErr{}
	for _, e := range pkgs[0].Errors {
		te.msgs = append(te.msgs, e.Error())
	}
	if len(te.msgs) > 0 {
		return nil, te
	}
	p := pkgs[0]
	out := map[string][]byte{}
	fields := atomicFields(p)
	for _, f := range p.Syntax {
		name := p.Fset.Position(f.Pos()).Filename
		if strings.HasPrefix(filepath.Base(name), "zz_verif_") {
			continue
		}
		src, ok := ov[name]
		if !ok {
			src, err = os.ReadFile(name)
			if err != nil {
				return nil, err
			}
		}
		out[name] = instrumentFile(p, f, src, fields)
	}
	return out, nil
}

// atomicFields finds the struct fields whose address is passed to sync/atomic.
// Their plain accesses are schedule points too.
func atomicFields(p *packages.Package) map[*types.Var]bool {
	r := map[*types.Var]bool{}
	for _, f := range p.Syntax {
		if strings.HasPrefix(filepath.Base(p.Fset.Position(f.Pos()).Filename), "zz_verif_") {
			continue
		}
		ast.Inspect(f, func(nd ast.Node) bool {
			c, ok := nd.(*ast.CallExpr)
			if !ok || len(c.Args) == 0 {
				return true
			}
			s, ok := c.Fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			fo, ok := p.TypesInfo.Uses[s.Sel].(*types.Func)
			if !ok || fo.Pkg() == nil || fo.Pkg().Path() != "sync/atomic" {
				return true
			}
			u, ok := ast.Unparen(c.Args[0]).(*ast.UnaryExpr)
			if !ok || u.Op != token.AND {
				return true
			}
			if v := fieldOf(p, ast.Unparen(u.X)); v != nil && plainSuffix(v.Type()) != "?" {
				r[v] = true
			}
			return true
		})
	}
	return r
}

func fieldOf(p *packages.Package, e ast.Expr) *types.Var {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return nil
	}
	sel := p.TypesInfo.Selections[s]
	if sel == nil || sel.Kind() != types.FieldVal {
		return nil
	}
	v, _ := sel.Obj().(*types.Var)
	return v
}

// plainSuffix names the helper for a type ("?": none).
func plainSuffix(t types.Type) string {
	b, ok := t.(*types.Basic)
	if !ok {
		return "?"
	}
	switch b.Kind() {
	case types.Uint64:
		return ""
	case types.Int64:
		return "_int64"
	case types.Int32:
		return "_int32"
	case types.Uint32:
		return "_uint32"
	}
	return "?"
}

type edit struct {
	off, del int
	ins      string
	rank     int // order among edits at one offset
}

func isU64Slice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

var wrappedAtomics = func() map[string]bool {
	m := map[string]bool{"LoadPointer": true, "StorePointer": true, "CompareAndSwapPointer": true}
	for _, t := range []string{"Uint64", "Int64", "Uint32", "Int32"} {
		for _, o := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap"} {
			m[o+t] = true
		}
	}
	return m
}()

func instrumentFile(p *packages.Package, f *ast.File, src []byte, fields map[*types.Var]bool) []byte {
	var es []edit
	off := func(pos token.Pos) int { return p.Fset.Position(pos).Offset }
	ins := func(pos token.Pos, s string, rank int) { es = append(es, edit{off(pos), 0, s, rank}) }
	repl := func(n ast.Node, s string) {
		es = append(es, edit{off(n.Pos()), off(n.End()) - off(n.Pos()), s, 0})
	}
	imports := map[string]bool{}
	for _, im := range f.Imports {
		imports[strings.Trim(im.Path.Value, `"`)] = im.Name == nil
	}
	pkgFunc := func(e ast.Expr) (string, string) {
		s, ok := e.(*ast.SelectorExpr)
		if !ok {
			return "", ""
		}
		id, ok := s.X.(*ast.Ident)
		if !ok {
			return "", ""
		}
		pn, ok := p.TypesInfo.Uses[id].(*types.PkgName)
		if !ok {
			return "", ""
		}
		return pn.Imported().Path(), s.Sel.Name
	}
	lhs := map[ast.Expr]bool{}
	addr := map[ast.Expr]bool{}
	n := 0
	var depth int
	var stack []ast.Node
	inBlock := func() bool {
		if len(stack) < 2 {
			return false
		}
		switch stack[len(stack)-2].(type) {
		case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
			return true
		}
		return false
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	// split turns a read-modify-write of a plain field into two accesses
	split := func(st ast.Stmt, l ast.Expr, op, r string) bool {
		v := fieldOf(p, ast.Unparen(l))
		if v == nil || !fields[v] || !inBlock() {
			return false
		}
		n++
		t := plainSuffix(v.Type())
		repl(st, fmt.Sprintf("{ vvT%d := *vvPR%s(&%s) %s (%s); *vvPW%s(&%s) = vvT%d }", n, t, text(l), op, r, t, text(l), n))
		return true
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		if nd == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, nd)
		switch x := nd.(type) {
		case *ast.SelectorExpr:
			v := fieldOf(p, x)
			if v == nil || !fields[v] || addr[x] {
				return true
			}
			fn := "vvPR"
			if lhs[x] {
				fn = "vvPW"
			}
			depth++
			ins(x.Pos(), "(*"+fn+plainSuffix(v.Type())+"(&", depth)
			ins(x.End(), "))", -depth)
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				addr[ast.Unparen(x.X)] = true
			}
		case *ast.AssignStmt:
			if o := x.Tok.String(); len(x.Lhs) == 1 && x.Tok != token.ASSIGN && x.Tok != token.DEFINE &&
				split(x, x.Lhs[0], strings.TrimSuffix(o, "="), text(x.Rhs[0])) {
				stack = stack[:len(stack)-1]
				return false
			}
			for _, l := range x.Lhs {
				lhs[ast.Unparen(l)] = true
			}
		case *ast.IncDecStmt:
			if split(x, x.X, x.Tok.String()[:1], "1") {
				stack = stack[:len(stack)-1]
				return false
			}
			lhs[ast.Unparen(x.X)] = true
		case *ast.RangeStmt:
			if x.Value == nil || !isU64Slice(p.TypesInfo.TypeOf(x.X)) {
				return true
			}
			n++
			i, s := fmt.Sprintf("vvI%d", n), fmt.Sprintf("vvS%d", n)
			tok := x.Tok.String()
			body := fmt.Sprintf(" %s %s *vvPR(&%s[%s]);", src[off(x.Value.Pos()):off(x.Value.End())], tok, s, i)
			if id, ok := x.Value.(*ast.Ident); ok && id.Name == "_" {
				body = ""
			}
			if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
				body = fmt.Sprintf(" %s %s %s;", id.Name, tok, i) + body
			} else if !ok {
				return true
			}
			// for K, V := range X {   ->   for i, s := 0, X; i < len(s); i++ { K := i; V := ...
			es = append(es, edit{off(x.For) + 3, off(x.X.Pos()) - off(x.For) - 3, fmt.Sprintf(" %s, %s := 0, ", i, s), 0})
			ins(x.X.End(), fmt.Sprintf("; %s < len(%s); %s++", i, s, i), 9)
			ins(x.Body.Lbrace+1, body, 0)
		case *ast.IndexExpr:
			depth++
			if !isU64Slice(p.TypesInfo.TypeOf(x.X)) || addr[x] {
				return true
			}
			fn := "vvPR"
			if lhs[x] {
				fn = "vvPW"
			}
			ins(x.Pos(), "(*"+fn+"(&", depth)
			ins(x.End(), "))", -depth)
		case *ast.CallExpr:
			pk, name := pkgFunc(x.Fun)
			switch {
			case pk == "sync/atomic" && wrappedAtomics[name]:
				repl(x.Fun, "vvA_"+name)
			case pk == "runtime" && name == "Gosched":
				repl(x.Fun, "vvGosched")
			}
			if id, ok := x.Fun.(*ast.Ident); ok {
				if _, b := p.TypesInfo.Uses[id].(*types.Builtin); b && id.Name == "copy" && len(x.Args) == 2 &&
					isU64Slice(p.TypesInfo.TypeOf(x.Args[0])) && isU64Slice(p.TypesInfo.TypeOf(x.Args[1])) {
					repl(x.Fun, "vvCopy")
				}
				if id.Name == "memmove" && len(x.Args) == 3 {
					ins(x.Args[0].Pos(), "vvPtrW(", -100)
					ins(x.Args[0].End(), ")", 100)
					ins(x.Args[1].Pos(), "vvPtrR(", -100)
					ins(x.Args[1].End(), ")", 100)
				}
			}
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 0 {
				if fo, ok := p.TypesInfo.Uses[s.Sel].(*types.Func); ok {
					w := ""
					switch fo.FullName() {
					case "(*sync.Mutex).Lock":
						w = "vvMuLock"
					case "(*sync.Mutex).Unlock":
						w = "vvMuUnlock"
					}
					if w != "" {
						t := p.TypesInfo.TypeOf(s.X)
						_, isPtr := t.Underlying().(*types.Pointer)
						base := t
						if isPtr {
							base = t.Underlying().(*types.Pointer).Elem()
						}
						if nt, ok := base.(*types.Named); ok && nt.Obj().Name() == "Mutex" {
							// X.Lock() -> w(&X)
							amp := "&"
							if isPtr {
								amp = ""
							}
							ins(x.Pos(), w+"("+amp, -100)
							es = append(es, edit{off(s.X.End()), off(x.End()) - off(s.X.End()), ")", 100})
						}
					}
				}
			}
		}
		return true
	})
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		return es[i].rank < es[j].rank
	})
	var sb strings.Builder
	pos := 0
	for _, e := range es {
		if e.off < pos {
			continue // nested inside replaced text
		}
		sb.Write(src[pos:e.off])
		sb.WriteString(e.ins)
		pos = e.off + e.del
	}
	sb.Write(src[pos:])
	sb.WriteString("\n")
	if d := os.Getenv("VV_DUMPINST"); d != "" {
		defer func() {
			os.WriteFile(filepath.Join(d, filepath.Base(p.Fset.Position(f.Pos()).Filename)), []byte(sb.String()), 0o644)
		}()
	}
	if imports["sync/atomic"] {
		sb.WriteString("var _ = atomic.LoadUint64\n")
	}
	if imports["runtime"] {
		sb.WriteString("var _ = runtime.Gosched\n")
	}
	return []byte(sb.String())
}
