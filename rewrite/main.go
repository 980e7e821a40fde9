// Command rewrite turns a copy of the repository into a program whose every
// synchronisation operation goes through the controlled scheduler:
//
//	rewrite -src /repo -rt /verif/rt -harness /verif/harness -out DIR
//
// DIR becomes a module of the same name that holds the rewritten packages, the
// runtime (internal/zzmc) and the harness (internal/zzharness). Only non-test
// files are read. The source of the repository is not changed.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	src     = flag.String("src", "/repo", "")
	rt      = flag.String("rt", "/verif/rt", "")
	harness = flag.String("harness", "/verif/harness", "")
	out     = flag.String("out", "", "")
)

const zz = "/internal/zzmc/"

var modPath, goVersion string

// shims: standard import path -> directory below internal/zzmc
var shims = map[string]string{
	"sync":         "xsync",
	"sync/atomic":  "xatomic",
	"context":      "xcontext",
	"time":         "xtime",
	"net":          "xnet",
	"crypto/rand":  "xcrand",
	"math/rand":    "xmrand",
	"math/rand/v2": "xmrand",
	"maps":         "xmaps",
}

// selectors of packages that are otherwise left alone
var selShim = map[string]struct{ dir, name, keep string }{
	"os.Remove":            {"xnet", "Remove", "Args"},
	"os.RemoveAll":         {"xnet", "Remove", "Args"},
	"runtime.Gosched":      {"mc", "Yield", "GOOS"},
	"io.Pipe":              {"xnet", "IOPipe", "EOF"},
	"os/signal.Notify":     {"mc", "SignalNotify", "Ignored"},
	"runtime.NumGoroutine": {"mc", "NumGoroutine", "GOOS"},
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(2)
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

type pkg struct {
	path  string // import path in the output
	files []string
	names []string
	dir   string // output directory relative to out
	asts  []*ast.File
	tp    *types.Package
	info  *types.Info
	rw    bool
}

var (
	fset  = token.NewFileSet()
	local = map[string]*pkg{}
)

func goCmd(dir string, args ...string) []byte {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off")
	var eb bytes.Buffer
	c.Stderr = &eb
	b, err := c.Output()
	if err != nil {
		fatal("go %v in %s: %v\n%s", args, dir, err, eb.String())
	}
	return b
}

func main() {
	flag.Parse()
	gm, err := os.ReadFile(filepath.Join(*src, "go.mod"))
	must(err)
	var reqs [][2]string
	inReq := false
	for _, l := range strings.Split(string(gm), "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		f := strings.Fields(l)
		switch {
		case len(f) >= 2 && f[0] == "module":
			modPath = f[1]
		case len(f) >= 2 && f[0] == "go":
			goVersion = f[1]
		case len(f) >= 2 && f[0] == "require" && f[1] == "(":
			inReq = true
		case len(f) >= 3 && f[0] == "require":
			reqs = append(reqs, [2]string{f[1], f[2]})
		case len(f) == 1 && f[0] == ")":
			inReq = false
		case inReq && len(f) >= 2:
			reqs = append(reqs, [2]string{f[0], f[1]})
		}
	}

	collectRepo()
	collectTree(*rt, modPath+"/internal/zzmc", "internal/zzmc", false)
	collectTree(*harness, modPath+"/internal/zzharness", "internal/zzharness", true)

	// modules of golang.org/x/sync are rewritten too
	ext := map[string]bool{}
	for _, p := range sortedPkgs() {
		for _, im := range imports(p) {
			if local[im] != nil {
				continue
			}
			if strings.HasPrefix(im, "golang.org/x/sync/") {
				ver := ""
				for _, r := range reqs {
					if r[0] == "golang.org/x/sync" {
						ver = r[1]
					}
				}
				cache := strings.TrimSpace(string(goCmd("/", "env", "GOMODCACHE")))
				sub := strings.TrimPrefix(im, "golang.org/x/sync/")
				d := filepath.Join(cache, "golang.org/x/sync@"+ver, sub)
				np := modPath + "/internal/zzext/" + sub
				collectDir(d, np, "internal/zzext/"+sub, true)
				local[im] = local[np]
				continue
			}
			ext[im] = true
		}
	}
	for _, p := range sortedPkgs() {
		for _, im := range imports(p) {
			if local[im] == nil {
				ext[im] = true
			}
		}
	}

	// go.mod: the requirements that are used
	var mod strings.Builder
	fmt.Fprintf(&mod, "module %s\n\ngo %s\n\n", modPath, goVersion)
	for _, r := range reqs {
		for im := range ext {
			if im == r[0] || strings.HasPrefix(im, r[0]+"/") {
				fmt.Fprintf(&mod, "require %s %s\n", r[0], r[1])
				break
			}
		}
	}
	must(os.MkdirAll(*out, 0o755))
	must(os.WriteFile(filepath.Join(*out, "go.mod"), []byte(mod.String()), 0o644))
	if b, err := os.ReadFile(filepath.Join(*src, "go.sum")); err == nil {
		must(os.WriteFile(filepath.Join(*out, "go.sum"), b, 0o644))
	}

	// export data of everything that is not ours
	exports := map[string]string{}
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Export"}
	var el []string
	for im := range ext {
		el = append(el, im)
	}
	sort.Strings(el)
	dec := json.NewDecoder(bytes.NewReader(goCmd(*out, append(args, el...)...)))
	for {
		var x struct{ ImportPath, Export string }
		if err := dec.Decode(&x); err == io.EOF {
			break
		} else {
			must(err)
		}
		exports[x.ImportPath] = x.Export
	}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	})
	var load func(p *pkg) *types.Package
	imp := importerFunc(func(path string) (*types.Package, error) {
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		if p := local[path]; p != nil {
			return load(p), nil
		}
		return gc.Import(path)
	})
	load = func(p *pkg) *types.Package {
		if p.tp != nil {
			return p.tp
		}
		p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, FakeImportC: true}
		tp, err := conf.Check(p.path, fset, p.asts, p.info)
		must(err)
		p.tp = tp
		return tp
	}
	for _, p := range sortedPkgs() {
		if p.rw {
			load(p)
		}
	}
	for _, p := range sortedPkgs() {
		d := filepath.Join(*out, p.dir)
		must(os.MkdirAll(d, 0o755))
		for i, f := range p.asts {
			var b []byte
			if !p.rw {
				b, err = os.ReadFile(p.files[i])
				must(err)
				if modPath != "github.com/luxfi/zmq/v4" {
					b = bytes.ReplaceAll(b, []byte("github.com/luxfi/zmq/v4"), []byte(modPath))
				}
			} else {
				w := &rewriter{p: p, file: f, info: p.info}
				w.run()
				var buf bytes.Buffer
				if err := format.Node(&buf, fset, f); err != nil {
					fatal("%s: %v", p.files[i], err)
				}
				b = buf.Bytes()
			}
			must(os.WriteFile(filepath.Join(d, p.names[i]), b, 0o644))
		}
	}
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func sortedPkgs() []*pkg {
	seen := map[*pkg]bool{}
	var l []*pkg
	for _, p := range local {
		if !seen[p] {
			seen[p] = true
			l = append(l, p)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].path < l[j].path })
	return l
}

func imports(p *pkg) []string {
	var l []string
	for _, f := range p.asts {
		for _, im := range f.Imports {
			s, _ := strconv.Unquote(im.Path.Value)
			if s != "unsafe" {
				l = append(l, s)
			}
		}
	}
	return l
}

func collectRepo() {
	tmp, err := os.MkdirTemp("", "rwmod")
	must(err)
	defer os.RemoveAll(tmp)
	// go list with a copy of go.mod, so that the repository's stays untouched
	for _, n := range []string{"go.mod", "go.sum"} {
		b, _ := os.ReadFile(filepath.Join(*src, n))
		must(os.WriteFile(filepath.Join(tmp, n), b, 0o644))
	}
	b := goCmd(*src, "list", "-e", "-find", "-modfile="+filepath.Join(tmp, "go.mod"), "-json=Dir,ImportPath,Name,GoFiles", "./...")
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var x struct {
			Dir, ImportPath, Name string
			GoFiles               []string
		}
		if err := dec.Decode(&x); err == io.EOF {
			break
		} else {
			must(err)
		}
		if x.Name == "main" || len(x.GoFiles) == 0 || strings.Contains(x.ImportPath, "/example") {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(x.ImportPath, modPath), "/")
		addPkg(x.Dir, x.GoFiles, x.ImportPath, rel, true)
	}
}

func collectTree(root, path, dir string, rw bool) {
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() {
			rel, _ := filepath.Rel(root, p)
			np, nd := path, dir
			if rel != "." {
				np, nd = path+"/"+filepath.ToSlash(rel), filepath.Join(dir, rel)
			}
			collectDir(p, np, nd, rw)
		}
		return nil
	})
}

func collectDir(d, path, dir string, rw bool) {
	es, err := os.ReadDir(d)
	must(err)
	var fs []string
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
			fs = append(fs, e.Name())
		}
	}
	if len(fs) > 0 {
		addPkg(d, fs, path, dir, rw)
	}
}

func addPkg(d string, files []string, path, dir string, rw bool) {
	p := &pkg{path: path, dir: dir, rw: rw}
	for _, n := range files {
		full := filepath.Join(d, n)
		var sb any
		if b, err := os.ReadFile(full); err == nil && modPath != "github.com/luxfi/zmq/v4" && !strings.HasPrefix(d, *src) {
			sb = bytes.ReplaceAll(b, []byte("github.com/luxfi/zmq/v4"), []byte(modPath))
		}
		f, err := parser.ParseFile(fset, full, sb, parser.SkipObjectResolution)
		must(err)
		if n == "race_on.go" && !rw {
			// build-tagged twin; copied, not type-checked
			p.asts = append(p.asts, &ast.File{Name: f.Name})
		} else {
			p.asts = append(p.asts, f)
		}
		p.files = append(p.files, full)
		p.names = append(p.names, n)
	}
	local[path] = p
}
