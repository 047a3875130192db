// genalias writes zz_alias.go of the packages that stand in for the standard
// library's: every exported name they do not define themselves is the real one.
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var osFuncs = map[string]bool{"IsExist": true, "IsNotExist": true, "IsPermission": true, "IsTimeout": true,
	"IsPathSeparator": true, "NewSyscallError": true, "Expand": true}

func main() {
	root := os.Args[1]
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "source", nil)
	for _, p := range [][2]string{{"os", "simos"}, {"io/ioutil", "simioutil"}, {"crypto/rand", "simrand"},
		{"time", "simtime"}, {"fmt", "simfmt"}, {"log", "simlog"}, {"flag", "simflag"}, {"sync", "simsync"},
		{"math/rand", "simmathrand"}, {"math/rand/v2", "simmathrand2"}, {"path/filepath", "simfilepath"},
		{"runtime", "simruntime"}} {
		dir := filepath.Join(root, p[1])
		have := map[string]bool{}
		fs, _ := filepath.Glob(dir + "/*.go")
		for _, f := range fs {
			if strings.HasSuffix(f, "zz_alias.go") {
				continue
			}
			af, err := parser.ParseFile(fset, f, nil, 0)
			if err != nil {
				panic(err)
			}
			for _, d := range af.Decls {
				switch x := d.(type) {
				case *ast.FuncDecl:
					if x.Recv == nil {
						have[x.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range x.Specs {
						switch y := s.(type) {
						case *ast.TypeSpec:
							have[y.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range y.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
		pkg, err := imp.Import(p[0])
		if err != nil {
			panic(err)
		}
		var consts, vars, typs []string
		names := pkg.Scope().Names()
		sort.Strings(names)
		for _, n := range names {
			if !token.IsExported(n) || have[n] {
				continue
			}
			q := "real." + n
			switch o := pkg.Scope().Lookup(n).(type) {
			case *types.Const:
				consts = append(consts, fmt.Sprintf("\t%s = %s", n, q))
			case *types.Var:
				if p[0] == "os" && !strings.HasPrefix(n, "Err") {
					continue
				}
				vars = append(vars, fmt.Sprintf("\t%s = %s", n, q))
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				if p[0] == "os" && (n == "Process" || n == "ProcAttr" || n == "ProcessState" || n == "Root") {
					continue
				}
				typs = append(typs, fmt.Sprintf("\t%s = %s", n, q))
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				if p[0] == "os" && !osFuncs[n] {
					continue
				}
				vars = append(vars, fmt.Sprintf("\t%s = %s", n, q))
			}
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "// Code generated by tools/genalias. DO NOT EDIT.\n\npackage %s\n\n", p[1])
		if len(consts)+len(vars)+len(typs) == 0 {
			os.Remove(dir + "/zz_alias.go")
			continue
		}
		fmt.Fprintf(&sb, "import real %q\n\n", p[0])
		for _, g := range []struct {
			k string
			l []string
		}{{"const", consts}, {"type", typs}, {"var", vars}} {
			if len(g.l) > 0 {
				fmt.Fprintf(&sb, "%s (\n%s\n)\n\n", g.k, strings.Join(g.l, "\n"))
			}
		}
		if err := os.WriteFile(dir+"/zz_alias.go", []byte(sb.String()), 0644); err != nil {
			panic(err)
		}
	}
}
