package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// A hook gives a harness control over one method of the code under test: the
// method is renamed in an overlay copy of its current source, and a method with
// its old name asks the hook variable first.  Everything else stays as it is.
type hook struct {
	prop, dir, recv, method, hookVar, result string
}

var hooks = []hook{
	// every word the generators draw comes from here
	{"C18", "mat/internal/rand", "PCGSource", "Uint64", "ZZWord", "uint64"},
}

func (d *driver) applyHooks(ov map[string][]byte, repl map[string]string) error {
	for i, h := range hooks {
		if h.prop != d.prop {
			continue
		}
		dir := filepath.Join(d.repo, h.dir)
		files, err := filepath.Glob(filepath.Join(dir, "*.go"))
		if err != nil {
			return err
		}
		done := false
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			fs := token.NewFileSet()
			af, err := parser.ParseFile(fs, f, src, 0)
			if err != nil {
				return err
			}
			for _, dc := range af.Decls {
				fd, ok := dc.(*ast.FuncDecl)
				if !ok || fd.Recv == nil || fd.Name.Name != h.method || len(fd.Recv.List) != 1 {
					continue
				}
				rt := fd.Recv.List[0].Type
				ptr := ""
				if st, ok := rt.(*ast.StarExpr); ok {
					rt, ptr = st.X, "*"
				}
				id, ok := rt.(*ast.Ident)
				if !ok || id.Name != h.recv || fd.Type.Params.NumFields() != 0 {
					continue
				}
				at := fs.Position(fd.Name.Pos()).Offset
				out := string(src[:at]) + "zz" + string(src[at:]) +
					fmt.Sprintf("\n\nvar %s func() %s\n\nfunc (r %s%s) %s() %s {\n\tif %s != nil {\n\t\treturn %s()\n\t}\n\treturn r.zz%s()\n}\n",
						h.hookVar, h.result, ptr, h.recv, h.method, h.result, h.hookVar, h.hookVar, h.method)
				tf := filepath.Join(d.tmp, fmt.Sprintf("hook%d.go", i))
				if err := os.WriteFile(tf, []byte(out), 0o644); err != nil {
					return err
				}
				ov[f] = []byte(out)
				repl[f] = tf
				done = true
			}
		}
		if !done {
			return fmt.Errorf("no method %s.%s in %s", h.recv, h.method, h.dir)
		}
	}
	return nil
}
