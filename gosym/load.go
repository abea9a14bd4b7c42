package main

// Loading of the repository and of the harness packages through an overlay, and
// native builds of the same harness.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/rdimitrov/go-tuf-metadata"

type loaded struct {
	P       *Prog
	pkg     *ssa.Package
	entries []*ssa.Function
	thorO   map[string]bool
	labels  map[string]bool // Reach labels of the harness package
}

// shimmed imports: the repository's own files use the in-memory versions.
var shims = map[string]string{
	"io/ioutil":     modPath + "/zzverif/ioutilshim",
	"path/filepath": modPath + "/zzverif/filepathshim",
	"os":            modPath + "/zzverif/osshim",
}

// cliShims apply to the command line tools only.
var cliShims = map[string]string{
	"io/ioutil":              modPath + "/zzverif/ioutilshim",
	"path/filepath":          modPath + "/zzverif/filepathshim",
	"os":                     modPath + "/zzverif/osshim",
	"fmt":                    modPath + "/zzverif/fmtshim",
	"github.com/spf13/cobra": modPath + "/zzverif/cobrashim",
}

// buildOverlay maps virtual paths under /repo to file contents.
func buildOverlay(repo, harness string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	err := filepath.Walk(harness, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(harness, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		ov[filepath.Join(repo, "zzverif", rel)] = b
		return nil
	})
	if err != nil {
		return nil, err
	}
	err = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if fi.Name() == ".git" || fi.Name() == "testutils" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(repo, p)
		if strings.HasPrefix(rel, "examples/") && !strings.HasPrefix(rel, "examples/cli/") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		to := shims
		if strings.HasPrefix(rel, "examples/cli/") {
			to = cliShims
		}
		nb := rewriteImports(b, to)
		if nb != nil {
			ov[p] = nb
		}
		return nil
	})
	return ov, err
}

func rewriteImports(src []byte, shims map[string]string) []byte {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ImportsOnly)
	if err != nil {
		return nil
	}
	out := string(src)
	changed := false
	// from the end so that offsets stay valid
	for i := len(f.Imports) - 1; i >= 0; i-- {
		im := f.Imports[i]
		path := strings.Trim(im.Path.Value, "\"")
		to, ok := shims[path]
		if !ok {
			continue
		}
		lo, hi := fs.Position(im.Path.Pos()).Offset, fs.Position(im.Path.End()).Offset
		rep := "\"" + to + "\""
		if im.Name == nil {
			rep = path[strings.LastIndex(path, "/")+1:] + " " + rep
		}
		out = out[:lo] + rep + out[hi:]
		changed = true
	}
	if !changed {
		return nil
	}
	return []byte(out)
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0")
}

func load(repo string, ov map[string][]byte, pkgs []string) (*loaded, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: goEnv()}
	var pats []string
	for _, p := range append([]string{"vp", "model", "osshim"}, pkgs...) {
		pats = append(pats, modPath+"/zzverif/"+p)
	}
	// packages the model refers to by name
	pats = append(pats, "encoding/json", "errors", "fmt", "math/big", "crypto/rsa", "crypto/ecdsa", "crypto/ed25519", "time", "runtime", "io", "encoding/base64", "bytes", "strings")
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load:", p.PkgPath, e)
			nerr++
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("%d load errors", nerr)
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{prog: prog, pkgs: map[string]*ssa.Package{}, repoPfx: modPath, infos: map[*ssa.Function]*fnInfo{}, redirs: map[string]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	l := &loaded{P: P, thorO: map[string]bool{}, labels: map[string]bool{}}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !isHarnessPath(p.PkgPath) {
			return
		}
		sp := P.pkgs[p.PkgPath]
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						if strings.HasPrefix(c.Text, "//vp:replace ") {
							nm := strings.TrimSpace(strings.TrimPrefix(c.Text, "//vp:replace "))
							P.redirs[nm] = sp.Func(fd.Name.Name)
						}
						if strings.HasPrefix(c.Text, "//vp:thorough") {
							l.thorO[fd.Name.Name] = true
						}
					}
				}
			}
		}
	})
	for _, pk := range pkgs {
		sp := P.pkgs[modPath+"/zzverif/"+pk]
		if sp == nil {
			return nil, fmt.Errorf("harness package %s not found", pk)
		}
		l.pkg = sp
		var fns []*ssa.Function
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok {
				if strings.HasPrefix(f.Name(), "Check") && f.Signature.Params().Len() == 0 {
					fns = append(fns, f)
				}
			}
		}
		for i := range fns {
			for j := i + 1; j < len(fns); j++ {
				if fns[j].Pos() < fns[i].Pos() {
					fns[i], fns[j] = fns[j], fns[i]
				}
			}
		}
		l.entries = append(l.entries, fns...)
		packages.Visit(ps, nil, func(p *packages.Package) {
			if p.PkgPath != sp.Pkg.Path() {
				return
			}
			for _, f := range p.Syntax {
				ast.Inspect(f, func(n ast.Node) bool {
					c, ok := n.(*ast.CallExpr)
					if !ok || len(c.Args) != 1 {
						return true
					}
					if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Reach" {
						if x, ok := s.X.(*ast.Ident); ok && x.Name == "vp" {
							if lit, ok := c.Args[0].(*ast.BasicLit); ok {
								l.labels[strings.Trim(lit.Value, "\"")] = true
							}
						}
					}
					return true
				})
			}
		})
	}
	return l, nil
}

// writeOverlay materialises the overlay for the go command and adds a main package.
func writeOverlay(dir, repo string, ov map[string][]byte, pkg string, entries []string) (string, error) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t\"%s/zzverif/vp\"\n\th \"%s/zzverif/%s\"\n\t_ \"%s/zzverif/model\"\n)\n\nfunc main() {\n\tvp.Main(map[string]func(){\n", modPath, modPath, pkg, modPath)
	for _, e := range entries {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", e, e)
	}
	sb.WriteString("\t})\n}\n")
	m := map[string]string{}
	i := 0
	put := func(virtual string, b []byte) error {
		i++
		p := filepath.Join(dir, fmt.Sprintf("f%d.go", i))
		m[virtual] = p
		return os.WriteFile(p, b, 0644)
	}
	for _, k := range sortedInt(ov) {
		if err := put(k, ov[k]); err != nil {
			return "", err
		}
	}
	if err := put(filepath.Join(repo, "zzverif", "zmain", "main.go"), []byte(sb.String())); err != nil {
		return "", err
	}
	b, _ := json.Marshal(map[string]any{"Replace": m})
	p := filepath.Join(dir, "overlay.json")
	return p, os.WriteFile(p, b, 0644)
}
