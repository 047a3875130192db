// prep rewrites the packages of the code under test, as they are in /repo now,
// into a workspace in which they run inside the simulator:
//
//   - imports of the packages that reach the machine (files, terminal, clock,
//     entropy, locks) go to their simulated stand-ins;
//   - every statement is preceded by a call to the step counter, which is where
//     the simulator may preempt the thread or end a run that got stuck;
//   - go statements, channel operations, ranging over maps and sizes given to
//     make go through the simulator;
//   - package variables can be reset and swapped, so that simulated processes
//     have their own.
//
// It adds text and moves none, so line numbers stay those of /repo.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

var simFor = map[string][2]string{
	"os":            {"os", "dst/simos"},
	"io/ioutil":     {"ioutil", "dst/simioutil"},
	"crypto/rand":   {"rand", "dst/simrand"},
	"time":          {"time", "dst/simtime"},
	"fmt":           {"fmt", "dst/simfmt"},
	"log":           {"log", "dst/simlog"},
	"flag":          {"flag", "dst/simflag"},
	"sync":          {"sync", "dst/simsync"},
	"math/rand":     {"rand", "dst/simmathrand"},
	"math/rand/v2":  {"rand", "dst/simmathrand2"},
	"path/filepath": {"filepath", "dst/simfilepath"},
	"runtime":       {"runtime", "dst/simruntime"},
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "prep: "+f+"\n", a...)
	os.Exit(2)
}

type pkg struct {
	path  string // import path in the workspace
	dir   string
	name  string
	files []*ast.File
	names []string
	srcs  [][]byte
	tpkg  *types.Package
	info  *types.Info
	deps  []string // workspace paths
}

var (
	fset   = token.NewFileSet()
	repo   string
	gopath string
	out    string
	pkgs   = map[string]*pkg{}
	order  []*pkg
	stdset = map[string]bool{}
)

// workspace path of an import found in dir, or "" for the standard library
func wsPath(dir, imp string) (path, srcdir string) {
	if strings.HasPrefix(imp, "./") || strings.HasPrefix(imp, "../") {
		d := filepath.Join(dir, imp)
		rel, err := filepath.Rel(filepath.Join(repo, "src"), d)
		if err != nil || strings.HasPrefix(rel, "..") {
			die("import %q of %s leaves the repository", imp, dir)
		}
		return "poodle/" + filepath.ToSlash(rel), d
	}
	if imp == "golang.org/x/crypto/ssh/terminal" {
		return "", ""
	}
	if strings.Contains(strings.Split(imp, "/")[0], ".") {
		return imp, filepath.Join(gopath, "src", imp)
	}
	return "", ""
}

func load(path, dir string, only []string) *pkg {
	if p := pkgs[path]; p != nil {
		return p
	}
	p := &pkg{path: path, dir: dir}
	pkgs[path] = p
	if only == nil {
		bp, err := build.Default.ImportDir(dir, 0)
		if err != nil {
			die("%s: %v", dir, err)
		}
		only = bp.GoFiles
	}
	for _, f := range only {
		src, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(fset, filepath.Join(dir, f), src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		p.files = append(p.files, af)
		p.names = append(p.names, f)
		p.srcs = append(p.srcs, src)
		p.name = af.Name.Name
		for _, im := range af.Imports {
			ip := im.Path.Value[1 : len(im.Path.Value)-1]
			wp, sd := wsPath(dir, ip)
			if wp != "" {
				load(wp, sd, nil)
				p.deps = append(p.deps, wp)
			} else {
				stdset[ip] = true
			}
		}
	}
	order = append(order, p)
	return p
}

// importer: std from export data, workspace packages from here
type imp struct {
	dir string
	gc  types.Importer
}

func (i imp) Import(path string) (*types.Package, error) {
	wp, _ := wsPath(i.dir, path)
	if wp != "" {
		if p := pkgs[wp]; p != nil && p.tpkg != nil {
			return p.tpkg, nil
		}
		return nil, fmt.Errorf("no package %s", wp)
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return i.gc.Import(path)
}

func stdImporter() types.Importer {
	var l []string
	for s := range stdset {
		if s != "unsafe" && s != "C" && !strings.HasPrefix(s, "golang.org/") {
			l = append(l, s)
		}
	}
	sort.Strings(l)
	exp := map[string]string{}
	cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-f", "{{if .Export}}{{.ImportPath}}={{.Export}}{{end}}"}, l...)...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	for _, ln := range strings.Split(string(b), "\n") {
		if k := strings.Index(ln, "="); k > 0 {
			exp[ln[:k]] = ln[k+1:]
		}
	}
	return importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exp[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
}

func main() {
	if len(os.Args) != 4 {
		die("usage: prep REPO GOPATH OUT")
	}
	repo, gopath, out = os.Args[1], os.Args[2], os.Args[3]
	src := filepath.Join(repo, "src")
	load("poodle/util", filepath.Join(src, "util"), nil)
	load("poodle/collection", filepath.Join(src, "collection"), nil)
	load("poodle/main", filepath.Join(src, "main"), []string{"pkeygen.go"})
	gc := stdImporter()
	for _, p := range order {
		p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp{p.dir, gc}, Error: func(error) {}, FakeImportC: true}
		p.tpkg, _ = conf.Check(p.path, fset, p.files, p.info)
	}
	for _, p := range order {
		emit(p)
	}
}

// ---------------------------------------------------------------- rewriting

type edit struct {
	off, del int
	text     string
	seq      int
}

type rewriter struct {
	p     *pkg
	f     *ast.File
	src   []byte
	base  int
	edits []edit
	nlab  int
}

func (r *rewriter) off(p token.Pos) int { return fset.Position(p).Offset }

func (r *rewriter) ins(p token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(p), 0, s, len(r.edits)})
}
func (r *rewriter) rep(a, b token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(a), r.off(b) - r.off(a), s, len(r.edits)})
}

// render gives the rewritten text of [a, b)
func (r *rewriter) render(a, b int) string {
	var sb bytes.Buffer
	at := a
	for _, e := range r.edits {
		if e.off < a || e.off >= b && !(e.off == b && b == len(r.src)) {
			continue
		}
		if e.off < at {
			continue // inside a replaced range
		}
		sb.Write(r.src[at:e.off])
		sb.WriteString(e.text)
		at = e.off + e.del
	}
	if at < b {
		sb.Write(r.src[at:b])
	}
	return sb.String()
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.p.info.Types[e]; ok {
		return under(tv.Type)
	}
	return nil
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	if o := r.p.info.Uses[id]; o != nil {
		_, b := o.(*types.Builtin)
		return b
	}
	return true
}

func (r *rewriter) stmts(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		r.ins(s.Pos(), "zzsim.Y();")
		if a, ok := s.(*ast.AssignStmt); ok {
			r.tear(a)
		}
	}
}

// tear makes a store of more than one word to memory that may be shared one
// that another thread can see half done.
func (r *rewriter) tear(x *ast.AssignStmt) {
	if x.Tok != token.ASSIGN || len(x.Lhs) != 1 || len(x.Rhs) != 1 {
		return
	}
	l := ast.Unparen(x.Lhs[0])
	switch e := l.(type) {
	case *ast.Ident:
		o, ok := r.p.info.Uses[e].(*types.Var)
		if !ok || o.Parent() == nil || o.Parent() != r.p.tpkg.Scope() {
			return
		}
	case *ast.IndexExpr:
		switch t := r.typeOf(e.X).(type) {
		case *types.Slice, *types.Array:
		case *types.Pointer:
			if _, ok := under(t.Elem()).(*types.Array); !ok {
				return
			}
		default:
			return
		}
	case *ast.SelectorExpr, *ast.StarExpr:
	default:
		return
	}
	pure := true
	ast.Inspect(l, func(n ast.Node) bool {
		switch u := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit:
			pure = false
		case *ast.UnaryExpr:
			if u.Op == token.ARROW {
				pure = false
			}
		case *ast.IndexExpr:
			if _, ok := r.typeOf(u.X).(*types.Map); ok {
				pure = false
			}
		}
		return pure
	})
	if !pure {
		return
	}
	lt, ok := r.p.info.Types[x.Lhs[0]]
	if id, isid := l.(*ast.Ident); isid {
		lt, ok = types.TypeAndValue{Type: r.p.info.Uses[id].Type()}, true
	}
	rt, ok2 := r.p.info.Types[x.Rhs[0]]
	if !ok || !ok2 || lt.Type == nil || rt.Type == nil || rt.Value != nil || rt.IsNil() {
		return
	}
	if b, ok := rt.Type.(*types.Basic); ok && (b.Kind() == types.Invalid || b.Info()&types.IsUntyped != 0) {
		return
	}
	if _, ok := lt.Type.(*types.TypeParam); ok {
		return
	}
	kind := ""
	switch t := lt.Type.Underlying().(type) {
	case *types.Interface:
		kind = "Iface"
	case *types.Slice:
		kind = "Slice"
	case *types.Basic:
		if t.Kind() == types.String {
			kind = "String"
		}
	}
	if kind == "" {
		return
	}
	at := string(r.src[r.off(l.Pos()):r.off(l.End())])
	if strings.Contains(at, "\n") {
		return
	}
	r.ins(x.Rhs[0].Pos(), "zzsim.Hold(&"+at+", ")
	r.ins(x.Rhs[0].End(), ")")
	r.ins(x.End(), "; zzsim.Tear"+kind+"(&"+at+")")
}

func (r *rewriter) walk(n ast.Node) {
	inComm := map[ast.Node]bool{}
	labels := map[ast.Node]token.Pos{}
	bodies := map[*ast.BlockStmt]bool{} // of switches
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.LabeledStmt:
			labels[x.Stmt] = x.Pos()
		case *ast.SwitchStmt:
			bodies[x.Body] = true
		case *ast.TypeSwitchStmt:
			bodies[x.Body] = true
		case *ast.BlockStmt:
			if len(x.List) == 0 && !bodies[x] {
				r.ins(x.Lbrace+1, "zzsim.Y();")
			}
			r.stmts(x.List)
		case *ast.CaseClause:
			r.stmts(x.Body)
		case *ast.CommClause:
			r.stmts(x.Body)
			if x.Comm != nil {
				inComm[x.Comm] = true
				switch c := x.Comm.(type) {
				case *ast.ExprStmt:
					inComm[ast.Unparen(c.X)] = true
				case *ast.AssignStmt:
					inComm[ast.Unparen(c.Rhs[0])] = true
				}
			}
		case *ast.SelectStmt:
			bodies[x.Body] = true
			at := x.Select
			if l, ok := labels[x]; ok {
				at = l
			}
			r.selectStmt(x, at)
		case *ast.GoStmt:
			r.goStmt(x)
		case *ast.SendStmt:
			if inComm[x] {
				break
			}
			r.ins(x.Chan.Pos(), "zzsim.Send(")
			r.rep(x.Arrow, x.Arrow+2, ",")
			r.ins(x.End(), ")")
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !inComm[x] {
				r.rep(x.OpPos, x.OpPos+2, "zzsim.Recv(")
				r.ins(x.End(), ")")
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 && !inComm[x] {
				if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					inComm[u] = true
					r.rep(u.OpPos, u.OpPos+2, "zzsim.Recv2(")
					r.ins(u.End(), ")")
				}
			}
		case *ast.RangeStmt:
			switch r.typeOf(x.X).(type) {
			case *types.Map:
				r.ins(x.X.Pos(), "zzsim.MapRange(")
				r.ins(x.X.End(), ")")
			case *types.Chan:
				r.ins(x.X.Pos(), "zzsim.RangeChan(")
				r.ins(x.X.End(), ")")
			}
		case *ast.CallExpr:
			if r.isBuiltin(x.Fun, "make") && len(x.Args) > 0 {
				if _, ok := r.typeOf(x.Args[0]).(*types.Chan); ok {
					if len(x.Args) == 1 {
						r.ins(x.Rparen, ",1")
					} else {
						r.ins(x.Args[1].Pos(), "zzsim.ChanCap(")
						r.ins(x.Args[1].End(), ")")
					}
					break
				}
				for _, a := range x.Args[1:] {
					if tv, ok := r.p.info.Types[a]; ok && tv.Value != nil {
						continue
					}
					if _, ok := a.(*ast.BasicLit); ok {
						continue
					}
					r.ins(a.Pos(), "zzsim.Sz(")
					r.ins(a.End(), ")")
				}
			}
		}
		return true
	})
}

// selectStmt lets the simulator choose among the cases that are ready, and
// other threads run when none is. Channels and values that take a call to
// get at are evaluated once, before.
func (r *rewriter) selectStmt(x *ast.SelectStmt, at token.Pos) {
	r.nlab++
	id := r.nlab
	calls := func(e ast.Expr) bool {
		found := false
		ast.Inspect(e, func(n ast.Node) bool {
			switch u := n.(type) {
			case *ast.CallExpr:
				found = true
			case *ast.UnaryExpr:
				found = found || u.Op == token.ARROW
			}
			return !found
		})
		return found
	}
	pre, k := "", 0
	hoist := func(e ast.Expr, what string) string {
		txt := string(r.src[r.off(e.Pos()):r.off(e.End())])
		if !calls(e) {
			return txt
		}
		name := fmt.Sprintf("zz%s%d_%d", what, id, k)
		pre += name + " := " + txt + "; "
		return name
	}
	def := false
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			def = true
			r.ins(cc.Colon+1, fmt.Sprintf("if zzs%d.Again() { goto zzsel%d };", id, id))
			continue
		}
		r.ins(cc.Colon+1, "zzsim.SelectDone();")
		var ch ast.Expr
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			r.rep(c.Chan.Pos(), c.Chan.End(), fmt.Sprintf("zzsim.SelSend(zzs%d,%d,%s)", id, k, hoist(c.Chan, "c")))
			if calls(c.Value) {
				r.rep(c.Value.Pos(), c.Value.End(), hoist(c.Value, "v"))
			}
		case *ast.ExprStmt:
			ch = ast.Unparen(c.X).(*ast.UnaryExpr).X
		case *ast.AssignStmt:
			ch = ast.Unparen(c.Rhs[0]).(*ast.UnaryExpr).X
		}
		if ch != nil {
			r.rep(ch.Pos(), ch.End(), fmt.Sprintf("zzsim.SelRecv(zzs%d,%d,%s)", id, k, hoist(ch, "c")))
		}
		k++
	}
	r.ins(at, fmt.Sprintf("%szzs%d := zzsim.NewSel(%d); zzsel%d: ", pre, id, k, id))
	if !def {
		r.ins(x.Body.Rbrace, fmt.Sprintf("default: zzs%d.Wait(); goto zzsel%d; ", id, id))
	}
}

func (r *rewriter) goStmt(x *ast.GoStmt) {
	c := x.Call
	if _, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.rep(x.Go, x.Go+2, "zzsim.Go(")
		// drop the call parentheses
		r.rep(c.Lparen, c.Rparen+1, ")")
		return
	}
	// evaluate the function and its arguments now, call later
	r.rep(x.Go, x.Go+2, "{ zzf := ")
	if _, ok := c.Fun.(*ast.Ident); ok {
		// a plain function (or builtin): no need to evaluate
	}
	pre, post := "", ""
	for i, a := range c.Args {
		if tv, ok := r.p.info.Types[a]; ok && (tv.Value != nil || tv.IsNil()) {
			post += string(r.src[r.off(a.Pos()):r.off(a.End())]) + ","
			continue
		}
		pre += fmt.Sprintf("; zza%d := %s", i, string(r.src[r.off(a.Pos()):r.off(a.End())]))
		post += fmt.Sprintf("zza%d,", i)
	}
	if c.Ellipsis.IsValid() {
		post = strings.TrimSuffix(post, ",") + "..."
	}
	r.rep(c.Lparen, c.Rparen+1, pre+"; zzsim.Go(func() { zzf("+post+") }) }")
}

func emit(p *pkg) {
	name := p.name
	if p.path == "poodle/main" {
		name = "pkeygen"
	}
	dst := filepath.Join(out, "src", p.path)
	if p.path == "poodle/main" {
		dst = filepath.Join(out, "src", "poodle/pkeygen")
	}
	os.RemoveAll(dst)
	if err := os.MkdirAll(dst, 0755); err != nil {
		die("%v", err)
	}
	// variables in initialisation order
	type vinit struct {
		names []string
		call  string
	}
	calls := map[ast.Expr]string{}
	var zero, inits, vars []string
	nv := 0
	var fileTexts []string
	for fi, f := range p.files {
		r := &rewriter{p: p, f: f, src: p.srcs[fi]}
		tail := ""
		// imports
		if p.path == "poodle/main" {
			r.rep(f.Name.Pos(), f.Name.End(), name)
		}
		r.ins(f.Name.End(), `; import zzsim "dst/sim"`)
		for _, im := range f.Imports {
			ip := im.Path.Value[1 : len(im.Path.Value)-1]
			to, nm := ip, ""
			if s, ok := simFor[ip]; ok {
				nm, to = s[0], s[1]
			} else if wp, _ := wsPath(p.dir, ip); wp != "" {
				to = wp
			}
			if to == ip {
				continue
			}
			if im.Name != nil {
				nm = ""
			}
			r.rep(im.Path.Pos(), im.Path.End(), strings.TrimSpace(nm+fmt.Sprintf(" %q", to)))
		}
		type late struct {
			lhs  []string
			expr ast.Expr
			fn   string
		}
		var lates []late
		var zs []struct {
			fn    string
			names []string
			typ   ast.Expr
		}
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.Name == "init" {
					nv++
					fn := fmt.Sprintf("zzinit%d", nv)
					r.rep(x.Name.Pos(), x.Name.End(), fn)
					inits = append(inits, fn)
					tail += "\nfunc init() { " + fn + "() }\n"
				}
				if x.Body != nil {
					r.walk(x.Body)
				}
			case *ast.GenDecl:
				r.walk(x)
				if x.Tok != token.VAR {
					continue
				}
				for _, s := range x.Specs {
					vs := s.(*ast.ValueSpec)
					var names []string
					for _, n := range vs.Names {
						names = append(names, n.Name)
						if n.Name != "_" {
							vars = append(vars, n.Name)
						}
					}
					if len(vs.Values) == 0 {
						nv++
						fn := fmt.Sprintf("zzzero%d", nv)
						zs = append(zs, struct {
							fn    string
							names []string
							typ   ast.Expr
						}{fn, names, vs.Type})
						zero = append(zero, fn)
						continue
					}
					if len(vs.Values) == 1 && len(names) > 1 {
						nv++
						fn := fmt.Sprintf("zzset%d", nv)
						lates = append(lates, late{names, vs.Values[0], fn})
						calls[vs.Values[0]] = fn
						continue
					}
					for i, v := range vs.Values {
						nv++
						fn := fmt.Sprintf("zzset%d", nv)
						lates = append(lates, late{names[i : i+1], v, fn})
						calls[v] = fn
					}
				}
			}
		}
		sort.SliceStable(r.edits, func(i, j int) bool {
			a, b := r.edits[i], r.edits[j]
			if a.off != b.off {
				return a.off < b.off
			}
			// closing insertions (")") of inner expressions come first: they were
			// added after those of the outer ones
			ca, cb := strings.HasPrefix(a.text, ")"), strings.HasPrefix(b.text, ")")
			if ca != cb {
				return ca
			}
			return a.seq < b.seq
		})
		for _, l := range lates {
			tail += fmt.Sprintf("\nfunc %s() { %s = %s }\n", l.fn, strings.Join(l.lhs, ", "), r.render(r.off(l.expr.Pos()), r.off(l.expr.End())))
		}
		for _, z := range zs {
			tail += fmt.Sprintf("\nfunc %s() { var zz %s; ", z.fn, r.render(r.off(z.typ.Pos()), r.off(z.typ.End())))
			for _, n := range z.names {
				tail += n + " = zz; "
			}
			tail += "}\n"
		}
		tail += "\nvar _ = zzsim.Y\n"
		fileTexts = append(fileTexts, r.render(0, len(r.src))+"\n"+tail)
	}
	var seq []string
	if p.info.InitOrder != nil {
		done := map[string]bool{}
		for _, in := range p.info.InitOrder {
			if fn, ok := calls[in.Rhs]; ok && !done[fn] {
				done[fn] = true
				seq = append(seq, fn)
			}
		}
		for _, fn := range calls {
			if !done[fn] {
				die("%s: variable without a place in the initialisation order", p.path)
			}
		}
	} else if len(calls) > 0 {
		die("%s: no initialisation order", p.path)
	}
	var g strings.Builder
	fmt.Fprintf(&g, "package %s\n\nimport zzsim \"dst/sim\"\n\n", name)
	fmt.Fprintf(&g, "func zzReset() {\n")
	for _, fn := range append(append(append([]string(nil), zero...), seq...), inits...) {
		fmt.Fprintf(&g, "\t%s()\n", fn)
	}
	fmt.Fprintf(&g, "}\n\nfunc zzSnap() func() {\n")
	for i, v := range vars {
		fmt.Fprintf(&g, "\tv%d := %s\n", i, v)
	}
	fmt.Fprintf(&g, "\treturn func() {\n")
	for i, v := range vars {
		fmt.Fprintf(&g, "\t\t%s = v%d\n", v, i)
	}
	fmt.Fprintf(&g, "\t}\n}\n\nfunc init() { zzsim.RegisterPackage(%q, zzReset, zzSnap) }\n", p.path)
	if p.path == "poodle/main" {
		fmt.Fprintf(&g, "\nfunc ZZMain() { main() }\n")
	}
	for i, t := range fileTexts {
		if err := os.WriteFile(filepath.Join(dst, p.names[i]), []byte(t), 0644); err != nil {
			die("%v", err)
		}
	}
	if err := os.WriteFile(filepath.Join(dst, "zz_gen.go"), []byte(g.String()), 0644); err != nil {
		die("%v", err)
	}
}
