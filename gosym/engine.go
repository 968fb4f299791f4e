package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func logf(f string, a ...any) { fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...) }

const modPath = "github.com/greenpau/go-identity"
const vPath = modPath + "/internal/zzverif/v"
const hPath = modPath + "/internal/zzverif/h"

// Engine is the loaded program.
type Engine struct {
	prog           *ssa.Program
	modpath        string
	vpkg, hpkg     *ssa.Package
	runtimeErrType types.Type
	maxSteps       int
	debug, verbose bool
	thorough       bool
	keys           sync.Map
	loadTime       time.Duration
	mmu            sync.Mutex
	pkgByPath      map[string]*ssa.Package
	ntypes         map[string]types.Type
	monEvents      atomic.Int64
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOSUMDB", "GO111MODULE", "GOWORK":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off")
}

// overlayFiles maps the harness files into the module.
func overlayFiles(repo, harness string) map[string]string {
	m := map[string]string{}
	for _, sub := range []string{"v", "h"} {
		fs, _ := filepath.Glob(filepath.Join(harness, sub, "*.go"))
		for _, f := range fs {
			m[filepath.Join(repo, "internal/zzverif", sub, filepath.Base(f))] = f
		}
	}
	return m
}

func LoadEngine(repo, harness, modfile string) (*Engine, error) {
	t0 := time.Now()
	ov := map[string][]byte{}
	for dst, src := range overlayFiles(repo, harness) {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(), Overlay: ov, BuildFlags: []string{"-modfile=" + modfile}}
	ps, err := packages.Load(cfg, hPath)
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				logf("load: %v", e)
				nerr++
			}
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("%d load errors", nerr)
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, modpath: modPath, maxSteps: 3000000, pkgByPath: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		e.pkgByPath[p.Pkg.Path()] = p
	}
	e.vpkg = e.pkgByPath[vPath]
	e.hpkg = e.pkgByPath[hPath]
	if e.vpkg == nil || e.hpkg == nil {
		return nil, fmt.Errorf("harness packages not found")
	}
	e.runtimeErrType = e.pkgByPath["runtime"].Type("errorString").Type()
	e.loadTime = time.Since(t0)
	return e, nil
}

// harnesses lists the entry points for a property id.
func (e *Engine) harnesses(prefix string) []*ssa.Function {
	var out []*ssa.Function
	for _, m := range e.hpkg.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(f.Name(), prefix) && f.Signature.Params().Len() == 0 {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func (e *Engine) fnKey(fn *ssa.Function) string {
	if k, ok := e.keys.Load(fn); ok {
		return k.(string)
	}
	f := fn
	if fn.Origin() != nil {
		f = fn.Origin()
	}
	k := f.String()
	e.keys.Store(fn, k)
	return k
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	e.mmu.Lock()
	defer e.mmu.Unlock()
	return e.prog.LookupMethod(t, m.Pkg(), m.Name())
}

// method finds the pointer method of a named type.
func (e *Engine) method(pkg, typ, name string) *ssa.Function {
	t := types.NewPointer(e.namedType(pkg, typ))
	e.mmu.Lock()
	defer e.mmu.Unlock()
	return e.prog.LookupMethod(t, e.pkgByPath[pkg].Pkg, name)
}

func (e *Engine) namedType(pkg, name string) types.Type {
	p := e.pkgByPath[pkg]
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

var deniedPrefixes = []string{"reflect", "runtime", "os", "syscall", "net", "crypto", "encoding/json", "encoding/xml", "encoding/gob",
	"fmt", "sync", "log", "internal/", "golang.org/x/", "go.uber.org/", "math/rand", "compress", "unsafe", "regexp", "unicode", "strconv", "math/big", "text/", "html/", "encoding/pem", "encoding/asn1"}
var allowedPkgs = map[string]bool{"crypto/subtle": true, "unicode/utf8": true, "internal/stringslite": true, "internal/byteorder": true, "internal/bytealg": true, "internal/itoa": true, "math/bits": true,
	"net/url": true, "internal/oserror": true, "internal/filepathlite": true, "os/user": false, "strconv": true, "encoding/hex": true, "golang.org/x/crypto/bcrypt": false, "unicode": true, "unicode/utf16": true, "crypto/hmac": false, "crypto/internal/fips140/subtle": true, "net/mail": true, "net/textproto": true, "internal/godebug": false, "internal/strconv": true, "crypto/internal/constanttime": true, "html": true}

func (e *Engine) denied(fn *ssa.Function) bool {
	pkg := fn.Pkg
	if pkg == nil {
		if o := fn.Origin(); o != nil {
			pkg = o.Pkg
		}
		if pkg == nil {
			return false // wrappers, thunks
		}
	}
	path := pkg.Pkg.Path()
	if allowedPkgs[path] {
		return false
	}
	for _, d := range deniedPrefixes {
		if path == strings.TrimSuffix(d, "/") || strings.HasPrefix(path, strings.TrimSuffix(d, "/")+"/") {
			return true
		}
	}
	return false
}

// noInit lists the packages whose variables are never initialised by
// executing their initialisers (they are stubbed, or initialise the runtime).
func (e *Engine) noInit(path string) bool {
	switch path {
	case "internal/strconv":
		return false
	case "time", "unicode", "os", "runtime", "syscall", "reflect", "net", "net/http", "sync", "fmt", "encoding/json", "strconv", "math/rand", "crypto/x509", "crypto/rand":
		return true
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "go.uber.org/") || strings.HasPrefix(path, "golang.org/x/")
}
