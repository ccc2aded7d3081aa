package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Harness is one entry point with its exploration settings (from its //nd:harness directive).
type Harness struct {
	Name     string
	Prop     string
	Pkg      string // import path
	File     string
	Fn       string
	QueryMS  int
	MaxPaths int
	MaxSteps int64
	Mode     string
	Preempt  int
	Race     bool
	Native   bool
	TimeS    int
	Opts     map[string]int64
	P        map[string]int64
	Doc      string
	Covers   []string
	Skip     bool
	VMOnly   bool
}

func (h *Harness) params(tier string) map[string]int64 { return h.P }

var engineOpts = map[string]bool{"maporder": true, "expectpanic": true, "allowdeadlock": true, "maxtime": true}

func (h *Harness) apply(tok, tier string) error {
	if i := strings.IndexByte(tok, ':'); i > 0 {
		if tok[:i] != tier {
			return nil
		}
		tok = tok[i+1:]
	}
	i := strings.IndexByte(tok, '=')
	if i < 0 {
		if tok == "skip" {
			h.Skip = true
			return nil
		}
		return fmt.Errorf("bad directive token %q", tok)
	}
	k, v := tok[:i], tok[i+1:]
	n, nerr := strconv.ParseInt(v, 10, 64)
	switch k {
	case "prop":
		h.Prop = v
		return nil
	case "mode":
		h.Mode = v
		return nil
	}
	if nerr != nil {
		return fmt.Errorf("bad directive token %q", tok)
	}
	switch k {
	case "preempt":
		h.Preempt = int(n)
	case "race":
		h.Race = n != 0
	case "native":
		h.Native = n != 0
	case "maxpaths":
		h.MaxPaths = int(n)
	case "steps":
		h.MaxSteps = n
	case "time":
		h.TimeS = int(n)
	case "querytimeout":
		h.QueryMS = int(n)
	default:
		if engineOpts[k] {
			h.Opts[k] = n
		} else {
			h.P[k] = n
		}
	}
	return nil
}

type hfile struct {
	src     string // path under /verif/harness
	dst     string // overlay path in /repo
	pkgDir  string
	text    string
	props   map[string]bool
	imports []string
}

// harnessFiles maps every harness source file to its overlay location.
func harnessFiles(hdir, repo string) ([]*hfile, error) {
	var r []*hfile
	err := filepath.Walk(hdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(hdir, p)
		f := &hfile{src: p, props: map[string]bool{}}
		if strings.HasPrefix(rel, "in/") {
			f.dst = filepath.Join(repo, strings.TrimPrefix(rel, "in/"))
		} else {
			f.dst = filepath.Join(repo, "zzverif", rel)
		}
		f.pkgDir = filepath.Dir(f.dst)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		f.text = string(b)
		sc := bufio.NewScanner(strings.NewReader(f.text))
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		for sc.Scan() {
			l := sc.Text()
			if strings.HasPrefix(l, "//nd:harness") {
				for _, t := range strings.Fields(l) {
					if strings.HasPrefix(t, "prop=") {
						f.props[t[5:]] = true
					}
				}
			}
		}
		r = append(r, f)
		return nil
	})
	return r, err
}

func modulePath(repo string) string {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return f[1]
		}
	}
	return ""
}

type Loaded struct {
	P         *Program
	Harnesses []*Harness
	Fns       map[*Harness]*ssa.Function
	Overlay   map[string]string
	Errors    []string
	Dropped   []string
}

// load type-checks the harness packages of a property with all their dependencies from source.
func load(repo, hdir, prop, tier, only string) (*Loaded, error) {
	skip := map[string]bool{}
	var dropped []string
	for {
		ld, err := loadSkip(repo, hdir, prop, tier, only, skip)
		if err == nil {
			ld.Dropped = dropped
			return ld, nil
		}
		// an in-package harness that no longer fits the code is left out, the others still run
		again := false
		if ld != nil {
			for _, e := range ld.Errors {
				i := strings.Index(e, ".go:")
				if i < 0 {
					continue
				}
				if src, ok := ld.Overlay[e[:i+3]]; ok && strings.HasPrefix(src, filepath.Join(hdir, "in")+"/") && !skip[e[:i+3]] {
					skip[e[:i+3]] = true
					dropped = append(dropped, e)
					again = true
				}
			}
		}
		if !again {
			if len(dropped) > 0 {
				err = fmt.Errorf("%v (left out: %s)", err, strings.Join(dropped, "; "))
			}
			return ld, err
		}
	}
}

func loadSkip(repo, hdir, prop, tier, only string, skip map[string]bool) (*Loaded, error) {
	mod := modulePath(repo)
	if mod == "" {
		return nil, fmt.Errorf("no module path in %s/go.mod", repo)
	}
	files, err := harnessFiles(hdir, repo)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	ovFiles := map[string]string{}
	dirs := map[string]bool{}
	for _, f := range files {
		// in-package harness files are only laid over when their package is needed
		if f.props[prop] && !skip[f.dst] {
			dirs[f.pkgDir] = true
		}
	}
	for _, f := range files {
		rel, _ := filepath.Rel(hdir, f.src)
		if strings.HasPrefix(rel, "in/") && !dirs[f.pkgDir] {
			continue
		}
		// several in-package harness files may live in one directory: keep those of this property
		// and those without harnesses (shared helpers)
		if strings.HasPrefix(rel, "in/") && len(f.props) > 0 && !f.props[prop] {
			continue
		}
		if skip[f.dst] {
			continue
		}
		overlay[f.dst] = []byte(f.text)
		ovFiles[f.dst] = f.src
	}
	var patterns []string
	for d := range dirs {
		rel, _ := filepath.Rel(repo, d)
		patterns = append(patterns, "./"+rel)
	}
	sort.Strings(patterns)
	if len(patterns) == 0 {
		return nil, fmt.Errorf("no harness for %s", prop)
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: overlay,
		Env:     append(os.Environ(), "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	ld := &Loaded{Fns: map[*Harness]*ssa.Function{}, Overlay: ovFiles}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, mod) {
				ld.Errors = append(ld.Errors, e.Error())
			}
		}
	})
	if len(ld.Errors) > 0 {
		return ld, fmt.Errorf("packages do not type-check: %s", strings.Join(ld.Errors, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, globals: map[*ssa.Global]int{}, built: map[*ssa.Package]bool{}, models: map[string]*ssa.Function{}, modPath: mod}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	ld.P = P
	initND(mod)
	var all []*packages.Package
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, mod) {
			all = append(all, p)
		}
	})
	for _, pk := range all {
		sp := prog.Package(pk.Types)
		for _, af := range pk.Syntax {
			fname := prog.Fset.Position(af.Pos()).Filename
			if _, ok := ovFiles[fname]; !ok {
				continue
			}
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//nd:model ") {
						for _, n := range strings.Fields(c.Text)[1:] {
							P.models[strings.ReplaceAll(n, "$MOD", mod)] = sp.Func(fd.Name.Name)
						}
					}
					if !strings.HasPrefix(c.Text, "//nd:harness") {
						continue
					}
					h := &Harness{Name: pk.Name + "." + fd.Name.Name, Pkg: pk.PkgPath, File: ovFiles[fname], Fn: fd.Name.Name, Mode: "seq", Native: true, TimeS: 20, Opts: map[string]int64{}, P: map[string]int64{}}
					for _, t := range strings.Fields(c.Text)[1:] {
						if err := h.apply(t, tier); err != nil {
							return nil, err
						}
					}
					if h.Mode != "seq" {
						h.Native = false
						for _, t := range strings.Fields(c.Text)[1:] {
							if t == "native=1" {
								h.Native = true
							}
						}
					}
					h.Doc = strings.TrimSpace(fd.Doc.Text())
					if h.Prop != prop || h.Skip {
						continue
					}
					if only != "" && h.Fn != only {
						continue
					}
					ast.Inspect(fd, func(n ast.Node) bool {
						ce, ok := n.(*ast.CallExpr)
						if !ok {
							return true
						}
						se, ok := ce.Fun.(*ast.SelectorExpr)
						if !ok {
							return true
						}
						if x, ok := se.X.(*ast.Ident); !ok || x.Name != "nd" {
							return true
						}
						k := -1
						if se.Sel.Name == "Cover" {
							k = 0
						} else if se.Sel.Name == "CoverIf" {
							k = 1
						}
						if k >= 0 && k < len(ce.Args) {
							if bl, ok := ce.Args[k].(*ast.BasicLit); ok {
								if s, err := strconv.Unquote(bl.Value); err == nil {
									h.Covers = append(h.Covers, s)
								}
							}
						}
						return true
					})
					ld.Harnesses = append(ld.Harnesses, h)
					ld.Fns[h] = sp.Func(fd.Name.Name)
				}
			}
		}
	}
	sort.Slice(ld.Harnesses, func(i, j int) bool { return ld.Harnesses[i].Name < ld.Harnesses[j].Name })
	return ld, nil
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, append(b, '\n'), 0o644); err != nil {
		return err
	}
	return os.Rename(tmp, path)
}
