package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Loader struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	override  map[string]*ssa.Function
	rtErrType types.Type
	rtypeT    types.Type
	strT      types.Type
	mu        sync.Mutex
	built     map[*ssa.Package]bool
	overlay   map[string][]byte
}

// repoDir is the tree under verification.
var repoDir = "/repo"
var verifDir = "/verif"

// overlayFiles maps harness files into the repo tree: /verif/harness/<rel>/*.go -> /repo/<rel>/*.go
func overlayFiles(replay bool) (map[string]string, error) {
	out := map[string]string{}
	root := filepath.Join(verifDir, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		out[filepath.Join(repoDir, rel)] = p
		return nil
	})
	for dst, src := range genFiles {
		out[dst] = src
	}
	return out, err
}

// tmpDirs are removed at the end of the run.
var tmpDirs []string

func tempDir() (string, error) {
	d, err := os.MkdirTemp("", "gosym")
	if err == nil {
		tmpDirs = append(tmpDirs, d)
	}
	return d, err
}

func removeTemp() {
	if os.Getenv("GOSYM_KEEP") != "" {
		fmt.Fprintln(os.Stderr, tmpDirs)
		return
	}
	for _, d := range tmpDirs {
		os.RemoveAll(d)
	}
}

// genFiles are sources written by the repository's code generator.
var genFiles map[string]string

// generate runs rlp/rlpgen of the current tree on the harness types of package hrlp.
func generate() error {
	tmp, err := tempDir()
	if err != nil {
		return err
	}
	ov, err := overlayFiles(false)
	if err != nil {
		return err
	}
	es, _ := os.ReadDir(filepath.Join(repoDir, "rlp/rlpgen"))
	for _, x := range es {
		if strings.HasSuffix(x.Name(), "_test.go") {
			ov[filepath.Join(repoDir, "rlp/rlpgen", x.Name())] = ""
		}
	}
	oj, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(of, oj, 0o644); err != nil {
		return err
	}
	bin := filepath.Join(tmp, "rlpgen")
	cmd := exec.Command("go", "build", "-overlay", of, "-tags=zzverif", "-o", bin, "./rlp/rlpgen")
	cmd.Dir, cmd.Env = repoDir, goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("building the generator: %s", out)
	}
	res := filepath.Join(tmp, "out.json")
	h := filepath.Join(verifDir, "harness/zzverif")
	dead := "," // structures on which the generator dies or does not end
	for {
		cmd = exec.Command("timeout", "120", bin)
		cmd.Dir = tmp
		cmd.Env = append(goEnv(), "GOMEMLIMIT=2GiB", "ZZGEN_OUT="+res, "ZZGEN_DEAD="+dead, "ZZGEN_TYPES="+filepath.Join(h, "hrlp/types.go"), "ZZGEN_RLP="+filepath.Join(h, "rlp/rlp.go"))
		out, err := cmd.Output()
		if err == nil {
			break
		}
		i := strings.LastIndex(string(out), "ZZGEN ")
		if i < 0 {
			return fmt.Errorf("running the generator: %v %s", err, out)
		}
		name := strings.TrimSpace(strings.SplitN(string(out[i+6:]), "\n", 2)[0])
		if dead == "*" || strings.Contains(dead, ","+name+",") {
			return fmt.Errorf("running the generator on %s: %v", name, err)
		}
		if dead += name + ","; strings.Count(dead, ",") > 6 {
			dead = "*"
		}
	}
	b, err := os.ReadFile(res)
	if err != nil {
		return err
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	genFiles = map[string]string{}
	for n, src := range m {
		f := filepath.Join(tmp, n)
		if err := os.WriteFile(f, []byte(src), 0o644); err != nil {
			return err
		}
		genFiles[filepath.Join(repoDir, "zzverif/hrlp", n)] = f
	}
	return nil
}

func goEnv() []string {
	env := os.Environ()
	var out []string
	for _, v := range env {
		if strings.HasPrefix(v, "GOFLAGS=") || strings.HasPrefix(v, "GOPROXY=") || strings.HasPrefix(v, "GOTOOLCHAIN=") || strings.HasPrefix(v, "GOWORK=") || strings.HasPrefix(v, "GOSUMDB=") {
			continue
		}
		out = append(out, v)
	}
	return append(out, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0")
}

func Load(pkgPaths []string, extra map[string][]byte) (*Loader, error) {
	for _, p := range pkgPaths {
		if strings.HasSuffix(p, "/hrlp") && genFiles == nil {
			if err := generate(); err != nil {
				return nil, err
			}
		}
	}
	ov, err := overlayFiles(false)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		overlay[dst] = b
	}
	for k, v := range extra {
		overlay[k] = v
	}
	cfg := &packages.Config{
		Mode:       packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repoDir,
		Env:        goEnv(),
		Overlay:    overlay,
		BuildFlags: []string{"-tags=math_big_pure_go,purego,zzverif"},
	}
	pkgs, err := packages.Load(cfg, append(pkgPaths, "flychain/zzverif")...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, "flychain") {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	_ = spkgs
	prog.Build()
	ld := &Loader{prog: prog, pkgs: map[string]*ssa.Package{}, override: map[string]*ssa.Function{}, built: map[*ssa.Package]bool{}, overlay: overlay}
	for _, p := range prog.AllPackages() {
		ld.pkgs[p.Pkg.Path()] = p
	}
	// runtime error type: a unique named type
	tn := types.NewTypeName(0, types.NewPackage("runtime", "runtime"), "zzError", nil)
	ld.rtErrType = types.NewNamed(tn, types.Typ[types.String], nil)
	ld.strT = types.Typ[types.String]
	if rp := ld.pkgs["reflect"]; rp != nil {
		if o := rp.Pkg.Scope().Lookup("rtype"); o != nil {
			ld.rtypeT = types.NewPointer(o.Type())
		}
	}
	rt := ld.pkgs["flychain/zzverif"]
	if rt == nil {
		return nil, fmt.Errorf("runtime package flychain/zzverif not loaded")
	}
	for real, repl := range overrideNames {
		fn := rt.Func(repl)
		if fn == nil {
			return nil, fmt.Errorf("missing override %s", repl)
		}
		ld.override[real] = fn
	}
	return ld, nil
}

func (ld *Loader) ensureBuilt(p *ssa.Package) {}

// functions of the standard library without usable Go source, replaced by plain Go in zzverif
var overrideNames = map[string]string{
	"internal/bytealg.IndexByte":            "xIndexByte",
	"internal/bytealg.IndexByteString":      "xIndexByteString",
	"internal/bytealg.LastIndexByte":        "xLastIndexByte",
	"internal/bytealg.LastIndexByteString":  "xLastIndexByteString",
	"internal/bytealg.Count":                "xCount",
	"internal/bytealg.CountString":          "xCountString",
	"internal/bytealg.Compare":              "xCompare",
	"internal/bytealg.CompareString":        "xCompareString",
	"internal/bytealg.Index":                "xIndex",
	"internal/bytealg.IndexString":          "xIndexString",
	"internal/stringslite.Index":            "xIndexString",
	"strings.Index":                         "xIndexString",
	"bytes.Index":                           "xIndex",
	"internal/bytealg.MakeNoZero":           "xMakeNoZero",
	"internal/stringslite.Clone":            "xClone",
	"strings.Clone":                         "xClone",
	"strings.Compare":                       "xCompareString",
	"bytes.Compare":                         "xCompare",
	"internal/stringslite.IndexByte":        "xIndexByteString",
	"context.WithCancel":                    "xWithCancel",
	"dyadic:strconv.AppendFloat":            "xAppendDyadic",
	"dyadic:strconv.FormatFloat":            "xFormatDyadic",
	"time.AfterFunc":                        "xAfterFunc",
	"fmt.Errorf":                            "xErrorf",
	"golang.org/x/crypto/sha3.NewLegacyKeccak256": "xNewLegacyKeccak256",
	"sort.Slice":                            "xSortSlice",
	"encoding/json.Marshal":                 "xJSONMarshal",
	"encoding/json.MarshalIndent":           "xJSONMarshalIndent",
	"encoding/json.Unmarshal":               "xJSONUnmarshal",
}

var initSkip = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "reflect": true, "net": true,
	"internal/poll": true, "os/signal": true, "testing": true, "flag": true, "log/syslog": true,
	"crypto/rand": true, "math/rand": true, "math/rand/v2": true, "encoding/json": true,
	"text/template": true, "regexp": true, "regexp/syntax": true, "log": true, "go/build": true, "encoding/gob": true,
	"encoding/asn1": true, "crypto/elliptic": true, "golang.org/x/crypto/sha3": true, "net/http": true,
	"crypto": true, "crypto/sha256": true, "crypto/sha512": true, "os/exec": true, "io/fs": true, "path/filepath": true, "io/ioutil": true,
	"runtime/debug": true, "github.com/go-stack/stack": true, "compress/gzip": true, "html/template": true, "database/sql/driver": true, "database/sql": true, "sync": true, "context": false, "math/big": true, "hash/crc32": true, "hash/maphash": true, "encoding/base64": true, "encoding/xml": true, "unique": true, "weak": true, "iter": true,
	"golang.org/x/sys/cpu": true, "log/slog": true, "golang.org/x/sys/unix": true,
}

func (e *Eng) shouldInit(path string) bool {
	if initSkip[path] {
		return false
	}
	if path == "internal/strconv" {
		return true
	}
	if strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "crypto/internal") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "golang.org/x/tools") || strings.HasPrefix(path, "go/") {
		return false
	}
	return true
}

// lazyGlobal gives the value of a global of a package whose init was not interpreted.
func (e *Eng) lazyGlobal(st *State, g *ssa.Global, el types.Type) Value {
	name := g.String()
	switch name {
	case "internal/cpu.X86", "internal/cpu.CacheLineSize", "internal/godebug.asynctimerchan":
		return e.zero(el)
	case "internal/bytealg.MaxLen", "internal/bytealg.MaxBruteForce":
		return e.c.BV(64, 64)
	case "os.Stdin", "os.Stdout", "os.Stderr":
		return PtrV{obj: st.newObj(Opaque{"os file"})}
	case "context.Canceled":
		return e.zero(el)
	case "time.UTC", "time.Local": // the local time zone is taken to be UTC
		if lg, ok := g.Pkg.Members["utcLoc"].(*ssa.Global); ok {
			return PtrV{obj: e.global(st, lg)}
		}
	}
	p := g.Pkg.Pkg.Path()
	switch {
	case p == "sync" || p == "time" && (g.Name() == "UTC" || g.Name() == "Local" || g.Name() == "utcLoc" || g.Name() == "localLoc"):
		return e.zero(el)
	case p == "internal/race" || p == "internal/msan" || p == "internal/asan":
		return e.zero(el)
	}
	if !e.shouldInit(p) {
		// constant-initialised error variables and the like: try the package initialiser store
		if v, ok := e.simpleInit(st, g, el); ok {
			return v
		}
		return Opaque{"uninitialised global " + name}
	}
	return e.zero(el)
}

// simpleInit recognises `var X = errors.New("...")` and constants in skipped packages.
func (e *Eng) simpleInit(st *State, g *ssa.Global, el types.Type) (Value, bool) {
	init := g.Pkg.Func("init")
	if init == nil {
		return nil, false
	}
	stores := 0
	var val ssa.Value
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
				stores++
				val = s.Val
			}
		}
	}
	if stores == 0 {
		return nil, false
	}
	if stores > 1 {
		return nil, false
	}
	switch x := val.(type) {
	case *ssa.Const:
		return e.constVal(x), true
	case *ssa.Call:
		if fn := x.Call.StaticCallee(); fn != nil && fn.String() == "errors.New" {
			if k, ok := x.Call.Args[0].(*ssa.Const); ok {
				es := e.ld.pkgs["errors"].Type("errorString").Type()
				id := ObjID(strHash("lazyerr:"+g.String()) | 1)
				st.put(id, &StructV{[]Value{e.constVal(k)}})
				e.globalIDs[id] = true
				return IfaceV{types.NewPointer(es), PtrV{obj: id}}, true
			}
		}
	}
	return nil, false
}

// blockedFn lists functions that must not be interpreted.
func (e *Eng) blockedFn(fn *ssa.Function) (string, bool) {
	p := fn.Pkg
	if p == nil {
		return "", false
	}
	switch p.Pkg.Path() {
	case "runtime", "syscall", "os", "net", "internal/poll", "golang.org/x/crypto/sha3", "net/http", "encoding/json", "regexp", "text/template", "crypto/elliptic":
		return "call into " + fn.String(), true
	case "reflect":
		if strings.HasPrefix(fn.String(), "(reflect.StructTag)") || fn.Name() == "init" {
			return "", false
		}
		return "call into " + fn.String(), true
	case "math/big":
		if bigInterp(fn.String()) {
			return "", false
		}
		return "unmodelled math/big function " + fn.String(), true
	case "sync":
		if strings.Contains(fn.String(), "sync.Once") || strings.Contains(fn.String(), "sync.OnceFunc") || fn.String() == "sync.NewCond" {
			return "", false
		}
		return "unmodelled " + fn.String(), true
	}
	return "", false
}
