//go:build zzverif

package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"
)

// Runs the generator on the harness's types when asked to by the environment.
func init() {
	if os.Getenv("ZZGEN_OUT") == "" {
		return
	}
	if err := zzgen(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	os.Exit(0)
}

const zzRuntime = "flychain/zzverif/rlp"

type zzImporter struct {
	std types.Importer
	rlp *types.Package
}

func (i zzImporter) Import(path string) (*types.Package, error) {
	if path == zzRuntime || path == pathOfPackageRLP {
		return i.rlp, nil
	}
	return i.std.Import(path)
}

func zzgen() error {
	fset := token.NewFileSet()
	imp := zzImporter{std: importer.ForCompiler(fset, "source", nil)}
	rf, err := parser.ParseFile(fset, os.Getenv("ZZGEN_RLP"), nil, 0)
	if err != nil {
		return err
	}
	imp.rlp, err = (&types.Config{Importer: imp}).Check(pathOfPackageRLP, fset, []*ast.File{rf}, nil)
	if err != nil {
		return err
	}
	tf, err := parser.ParseFile(fset, os.Getenv("ZZGEN_TYPES"), nil, 0)
	if err != nil {
		return err
	}
	const path = "flychain/zzverif/hrlp"
	pkg, err := (&types.Config{Importer: imp}).Check(path, fset, []*ast.File{tf}, nil)
	if err != nil {
		return err
	}
	out := map[string]string{}
	var accepted, names []string
	for _, n := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || !tn.Exported() || n == "Own" {
			continue
		}
		if _, ok := tn.Type().Underlying().(*types.Struct); ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		var code []byte
		if dead := os.Getenv("ZZGEN_DEAD"); dead == "*" || strings.Contains(dead, ","+n+",") {
			err = fmt.Errorf("panic: the generator died or did not end")
		} else {
			fmt.Printf("ZZGEN %s\n", n)
			code, err = zzone(imp.rlp, pkg, n)
		}
		if strings.HasPrefix(n, "Bad") {
			if err == nil || strings.HasPrefix(err.Error(), "panic") {
				accepted = append(accepted, fmt.Sprintf("%q", n))
			}
			code, err = nil, fmt.Errorf("refused")
		}
		if err == nil {
			var gf *ast.File
			gf, err = parser.ParseFile(fset, "gen_"+n+".go", code, 0)
			if err == nil {
				_, err = (&types.Config{Importer: imp}).Check(path, fset, []*ast.File{tf, gf}, nil)
			}
		}
		if err != nil {
			code = []byte(fmt.Sprintf("package hrlp\n\nimport \"io\"\nimport %q\nimport \"errors\"\n\nfunc (*%s) EncodeRLP(io.Writer) error { return errors.New(%q) }\n\nfunc (*%s) DecodeRLP(*rlp.Stream) error { return errors.New(%q) }\n", pathOfPackageRLP, n, err.Error(), n, err.Error()))
		}
		out["zzgen_"+strings.ToLower(n)+".go"] = strings.Replace(string(code), fmt.Sprintf("import %q\n", pathOfPackageRLP), "import rlp \""+zzRuntime+"\"\n", 1)
	}
	out["zzgen_accepted.go"] = "package hrlp\n\nvar accepted = []string{" + strings.Join(accepted, ", ") + "}\n"
	b, err := json.Marshal(out)
	if err != nil {
		return err
	}
	return os.WriteFile(os.Getenv("ZZGEN_OUT"), b, 0o644)
}

func zzone(rlp, pkg *types.Package, name string) (code []byte, err error) {
	defer time.AfterFunc(20*time.Second, func() { os.Exit(3) }).Stop()
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	typ, err := lookupStructType(pkg.Scope(), name)
	if err != nil {
		return nil, err
	}
	return newBuildContext(rlp).generate(typ, true, true)
}
