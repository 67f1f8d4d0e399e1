package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// instrument adds a perturbation point before every statement of the module packages that pkg
// depends on, in copies that the overlay of the replay build refers to.
func instrument(pkg string, ov map[string]string, tmp string) error {
	oj := filepath.Join(tmp, "overlay0.json")
	if err := writeOverlay(oj, ov); err != nil {
		return err
	}
	cmd := exec.Command("go", "list", "-deps", "-overlay", oj, "-tags=zzverif", "-f", "{{.ImportPath}}|{{.Dir}}|{{range .GoFiles}}{{.}},{{end}}", pkg)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	out, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v", err)
	}
	id, nf := 0, 0
	for _, l := range strings.Split(string(out), "\n") {
		p := strings.Split(l, "|")
		if len(p) != 3 || !strings.HasPrefix(p[0], "flychain/") || p[0] == "flychain/zzverif" || p[0] == "flychain/zzverif/zznoise" || strings.HasPrefix(p[0], "flychain/crypto") {
			continue
		}
		for _, fn := range strings.Split(p[2], ",") {
			if fn == "" {
				continue
			}
			dst := filepath.Join(p[1], fn)
			src := dst
			if o, ok := ov[dst]; ok {
				src = o
			}
			b, err := os.ReadFile(src)
			if err != nil {
				continue
			}
			r, ok := addPoints(b, &id)
			if !ok {
				continue
			}
			nf++
			f := filepath.Join(tmp, fmt.Sprintf("n%d_%s", nf, fn))
			if err := os.WriteFile(f, r, 0o644); err != nil {
				return err
			}
			ov[dst] = f
		}
	}
	return nil
}

func addPoints(src []byte, id *int) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, false
	}
	var at []int
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	skip := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SwitchStmt:
			skip[x.Body] = true
		case *ast.TypeSwitchStmt:
			skip[x.Body] = true
		case *ast.SelectStmt:
			skip[x.Body] = true
		case *ast.BlockStmt:
			if !skip[x] {
				list(x.List)
			}
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	if len(at) == 0 {
		return nil, false
	}
	sort.Ints(at)
	var b strings.Builder
	e := fset.Position(f.Name.End()).Offset
	b.Write(src[:e])
	b.WriteString("; import zznoise \"flychain/zzverif/zznoise\"")
	last := e
	for _, o := range at {
		b.Write(src[last:o])
		fmt.Fprintf(&b, "zznoise.P(%d);", *id)
		*id++
		last = o
	}
	b.Write(src[last:])
	return []byte(b.String()), true
}
