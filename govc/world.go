package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Config struct {
	LoopLimit     int
	MaxSteps      int
	MaxViewExpand int
	Unroll        int
	Workers       int
}

type Harness struct {
	Name string
	Prop string
	Fn   *ssa.Function
}

type World struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	harness map[string]*Harness
	buildMu sync.Mutex
	built   map[*ssa.Package]bool
	mCache  sync.Map
	rtErr   types.Type
	repoFns int
	embeds  map[string]string
}

const repoDir = "/repo"
const repoMod = "github.com/transcriptaze/midiasm"

// Overlay is the set of files that exist only while a check runs: accessors for unexported functions,
// the harness registry, and empty stand-ins for harness files that do not compile against this tree.
type Overlay struct {
	files   map[string][]byte
	dropped []string        // harness files left out, with the reason
	lost    map[string]bool // harnesses in them
}

var harnessFn = regexp.MustCompile(`(?m)^func (C\d\d_\w+)\(\)`)

func (o *Overlay) registry(hdir string) {
	var names []string
	fs, _ := filepath.Glob(filepath.Join(hdir, "props", "*.go"))
	for _, f := range fs {
		b, ok := o.files[f]
		if !ok {
			b, _ = os.ReadFile(f)
		}
		for _, mm := range harnessFn.FindAllSubmatch(b, -1) {
			names = append(names, string(mm[1]))
		}
	}
	sort.Strings(names)
	var b strings.Builder
	b.WriteString("package props\n\nvar Registry = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&b, "\t%q: %s,\n", n, n)
	}
	b.WriteString("}\n")
	o.files[filepath.Join(hdir, "props", "registry.go")] = []byte(b.String())
}

// write stores the overlay for go build -overlay.
func (o *Overlay) write(dir string) (string, error) {
	m := map[string]string{}
	i := 0
	for f, b := range o.files {
		p := filepath.Join(dir, fmt.Sprintf("overlay%d.go", i))
		i++
		if err := os.WriteFile(p, b, 0644); err != nil {
			return "", err
		}
		m[f] = p
	}
	b, _ := json.Marshal(map[string]any{"Replace": m})
	p := filepath.Join(dir, "overlay.json")
	return p, os.WriteFile(p, b, 0644)
}

// extractMain copies the program's package main to an importable package: the package clause, the name of
// func main and os.Exit (a panic that the harness recognises) are all that changes.
func extractMain() map[string][]byte {
	out := map[string][]byte{}
	fs, _ := filepath.Glob(filepath.Join(repoDir, "cmd", "midiasm", "*.go"))
	dir := filepath.Join(repoDir, "cmd", "midiasm", "zz_verif_cli")
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil || strings.HasSuffix(f, "_test.go") {
			continue
		}
		s := regexp.MustCompile(`(?m)^package main\b`).ReplaceAllString(string(b), "package cli")
		s = regexp.MustCompile(`(?m)^func main\(\)`).ReplaceAllString(s, "func Main()")
		if strings.Contains(s, "os.Exit(") {
			s = strings.ReplaceAll(s, "os.Exit(", "verifExit(") + "\nvar _ = os.Exit\n"
		}
		out[filepath.Join(dir, filepath.Base(f))] = []byte(s)
	}
	if len(out) > 0 {
		out[filepath.Join(dir, "zz_verif_exit.go")] = []byte("package cli\n\n// Exit stands for the end of the program.\ntype Exit struct{ Code int }\n\nfunc verifExit(code int) { panic(Exit{code}) }\n")
	}
	return out
}

// LoadAll loads the harnesses and the repository's packages.  A harness file that does not compile against
// the repository as it is (an unexported function it looks at was renamed, say) is left out.
func LoadAll(hdir string) (*World, *Overlay, error) {
	o := &Overlay{files: map[string][]byte{}, lost: map[string]bool{}}
	access := map[string]string{} // overlay path -> accessor source
	fs, _ := filepath.Glob(filepath.Join(hdir, "access", "*.go"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, nil, err
		}
		l, _, _ := strings.Cut(string(b), "\n")
		p := strings.TrimSpace(strings.TrimPrefix(l, "// overlay:"))
		o.files[p] = b
		access[p] = f
	}
	for p, b := range extractMain() {
		o.files[p] = b
		access[p] = p
	}
	o.registry(hdir)
	for try := 0; ; try++ {
		w, bad, err := LoadWorld(hdir, o.files, "./props")
		if err == nil {
			return w, o, nil
		}
		progress := false
		for f, why := range bad {
			if _, ok := access[f]; ok && o.files[f] != nil {
				delete(o.files, f)
				delete(access, f)
				o.dropped = append(o.dropped, "accessor "+f+": "+why)
				progress = true
			} else if filepath.Dir(f) == filepath.Join(hdir, "props") && regexp.MustCompile(`^c\d\d`).MatchString(filepath.Base(f)) && o.files[f] == nil {
				b, _ := os.ReadFile(f)
				for _, mm := range harnessFn.FindAllSubmatch(b, -1) {
					o.lost[string(mm[1])] = true
				}
				o.files[f] = []byte("package props\n")
				o.dropped = append(o.dropped, f+": "+why)
				progress = true
			}
		}
		if !progress || try > 20 {
			return nil, o, err
		}
		o.registry(hdir)
	}
}

func LoadWorld(dir string, overlay map[string][]byte, pkgPatterns ...string) (*World, map[string]string, error) {
	bad := map[string]string{}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedEmbedFiles,
		Dir: dir, Overlay: overlay,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off"),
	}
	ps, err := packages.Load(cfg, pkgPatterns...)
	if err != nil {
		return nil, bad, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
			if f, _, ok := strings.Cut(e.Pos, ":"); ok && bad[f] == "" {
				bad[f] = e.Msg
			}
		}
	})
	if len(errs) > 0 {
		return nil, bad, fmt.Errorf("load errors: %s", strings.Join(errs[:min(len(errs), 5)], "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	w := &World{prog: prog, pkgs: map[string]*ssa.Package{}, harness: map[string]*Harness{}, built: map[*ssa.Package]bool{}, embeds: map[string]string{}}
	packages.Visit(ps, nil, func(p *packages.Package) { embedsOf(p, w.embeds) })
	for _, p := range prog.AllPackages() {
		w.pkgs[p.Pkg.Path()] = p
	}
	var wg sync.WaitGroup
	for path, p := range w.pkgs {
		if strings.HasPrefix(path, repoMod) || strings.HasPrefix(path, "verif/") {
			w.built[p] = true
			wg.Add(1)
			go func() { p.Build(); wg.Done() }()
		}
	}
	wg.Wait()
	re := regexp.MustCompile(`^(C\d\d)_\w+$`)
	for path, p := range w.pkgs {
		if !strings.HasPrefix(path, "verif/") {
			continue
		}
		for name, mem := range p.Members {
			fn, ok := mem.(*ssa.Function)
			if !ok {
				continue
			}
			if mm := re.FindStringSubmatch(name); mm != nil && fn.Signature.Params().Len() == 0 {
				w.harness[name] = &Harness{Name: name, Prop: mm[1], Fn: fn}
			}
		}
	}
	w.rtErr = types.NewPointer(types.Typ[types.String])
	if p := w.pkgs["errors"]; p != nil {
		w.rtErr = types.Typ[types.String]
	}
	return w, nil, nil
}

func (w *World) harnesses(prop string) []*Harness {
	var hs []*Harness
	for _, h := range w.harness {
		if h.Prop == prop {
			hs = append(hs, h)
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	return hs
}

func (w *World) build(p *ssa.Package) {
	w.buildMu.Lock()
	defer w.buildMu.Unlock()
	if !w.built[p] {
		p.Build()
		w.built[p] = true
	}
}

func (w *World) runtimeErrorType() types.Type { return w.rtErr }

type methKey struct {
	t    types.Type
	name string
}

func (w *World) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	key := methKey{t, name}
	if x, ok := w.mCache.Load(key); ok {
		return x.(*ssa.Function)
	}
	w.buildMu.Lock()
	defer w.buildMu.Unlock()
	ms := w.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	fn := w.prog.MethodValue(sel)
	w.mCache.Store(key, fn)
	return fn
}

// findMethod reports whether t has an exported method name.
func (w *World) findMethod(t types.Type, name string) *ssa.Function {
	w.buildMu.Lock()
	ms := w.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(nil, name)
	w.buildMu.Unlock()
	if sel == nil {
		return nil
	}
	return w.lookupMethod(t, nil, name)
}

func (w *World) typ(pkg, name string) types.Type {
	p := w.pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}
