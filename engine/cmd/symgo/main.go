// Command symgo decides the properties of /repo by symbolic execution of its
// Go SSA form: it regenerates the encoding from the working tree, runs the
// harnesses of one property, replays every candidate counterexample against
// the natively compiled code and writes the evidence file.
package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/engine/sym"
)

var started = time.Now()

const modPath = "github.com/kuznetsovin/egts-protocol"

var (
	repo    = flag.String("repo", "/repo", "source tree")
	verif   = flag.String("verif", "/verif", "framework directory")
	prop    = flag.String("prop", "", "property id")
	tier    = flag.String("tier", "", "quick or thorough")
	only    = flag.String("only", "", "regexp of harness names")
	verbose = flag.Bool("v", false, "verbose")
	budget  = flag.Int("budget", 0, "override the time budget per harness (s)")
	prof    = flag.String("cpuprofile", "", "write a CPU profile")
	workers = flag.Int("j", 0, "parallel harnesses")
	replayF = flag.String("replay", "", "replay one counterexample file natively (with -only NAME)")
)

type harness struct {
	Name   string
	Prop   string
	Pkg    string // path relative to the module
	Main   bool
	Doc    string
	Bounds string
	Tier   string
	Budget int
	Reach  []string
	Stubs  bool
	Swap   []string // packages to run against stand-ins
}

type result struct {
	H          harness
	Exec       *sym.Exec
	Incomplete string
	Wall       time.Duration
	Crash      string
}

type overlay map[string][]byte

func main() {
	flag.Parse()
	if *prof != "" {
		f, err := os.Create(*prof)
		if err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *prop == "" {
		fmt.Fprintln(os.Stderr, "usage: symgo -prop Cnn [-tier quick|thorough]")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	code := run()
	pprof.StopCPUProfile()
	os.Exit(code)
}

func env() []string {
	var out []string
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "GOPROXY=") || strings.HasPrefix(kv, "GOTOOLCHAIN=") || strings.HasPrefix(kv, "GOWORK=") {
			continue
		}
		out = append(out, kv)
	}
	return append(out, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
}

// collect parses the harness directory.
func collect(withStubs bool) ([]harness, overlay, error) {
	ov := overlay{}
	root := filepath.Join(*verif, "harness")
	sv, err := os.ReadFile(filepath.Join(root, "verifsv", "sv.go"))
	if err != nil {
		return nil, nil, err
	}
	ov[filepath.Join(*repo, "verifsv", "sv.go")] = sv
	var hs []harness
	fset := token.NewFileSet()
	base := filepath.Join(root, "pkgs")
	err = filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(base, filepath.Dir(p))
		stubbed := strings.HasPrefix(filepath.Base(p), "stub_")
		if stubbed && !withStubs {
			return nil
		}
		raw, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, p, raw, parser.ParseComments)
		if err != nil {
			return err
		}
		ov[filepath.Join(*repo, rel, "zz_verif_"+filepath.Base(p))] = raw
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || !strings.HasPrefix(fd.Name.Name, "VH_") {
				continue
			}
			parts := strings.SplitN(fd.Name.Name, "_", 3)
			h := harness{Name: fd.Name.Name, Prop: parts[1], Pkg: rel, Main: f.Name.Name == "main", Doc: fd.Doc.Text(), Stubs: stubbed}
			for _, l := range strings.Split(h.Doc, "\n") {
				l = strings.TrimSpace(l)
				switch {
				case strings.HasPrefix(l, "Bounds:"):
					h.Bounds = strings.TrimSpace(l[7:])
				case strings.HasPrefix(l, "Tier:"):
					h.Tier = strings.TrimSpace(l[5:])
				case strings.HasPrefix(l, "Budget:"):
					h.Budget, _ = strconv.Atoi(strings.TrimSpace(l[7:]))
				case strings.HasPrefix(l, "Swap:"):
					h.Swap = strings.Fields(l[5:])
				case strings.HasPrefix(l, "Reach:"):
					h.Reach = strings.Fields(l[6:])
				}
			}
			hs = append(hs, h)
		}
		return nil
	})
	if err != nil {
		return nil, nil, err
	}
	glue(ov)
	return hs, ov, nil
}

// swap lets the code of the selected harnesses run against stand-ins for the
// libraries that touch the outside world, in command-line tools and in the
// packages a harness names: only the import paths of their current sources
// change.
func swap(hs []harness, ov overlay) error {
	base := filepath.Join(*verif, "harness", "swap")
	have := map[string]bool{}
	err := filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		raw, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(base, filepath.Dir(p))
		have[filepath.ToSlash(rel)] = true
		ov[filepath.Join(*repo, "verifswap", rel, filepath.Base(p))] = raw
		return nil
	})
	if err != nil {
		return err
	}
	seen := map[string]bool{}
	var dirs []string
	add := func(d string) {
		if !seen[d] {
			seen[d] = true
			dirs = append(dirs, d)
		}
	}
	for _, h := range hs {
		if h.Main {
			add(h.Pkg)
		}
		for _, d := range h.Swap {
			add(d)
		}
	}
	for _, d := range dirs {
		fs, _ := filepath.Glob(filepath.Join(*repo, d, "*.go"))
		for f := range ov {
			if filepath.Dir(f) == filepath.Join(*repo, d) && filepath.Base(f) != "zz_verif_dispatch.go" {
				fs = append(fs, f) // harness code shares the types
			}
		}
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			raw, ok := ov[f]
			if !ok {
				if raw, err = os.ReadFile(f); err != nil {
					return err
				}
			}
			fset := token.NewFileSet()
			a, err := parser.ParseFile(fset, f, raw, parser.ImportsOnly)
			if err != nil {
				return err
			}
			out := string(raw)
			for i := len(a.Imports) - 1; i >= 0; i-- {
				im := a.Imports[i]
				ip, _ := strconv.Unquote(im.Path.Value)
				if have[ip] {
					b, e := fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset
					out = out[:b] + strconv.Quote(modPath+"/verifswap/"+ip) + out[e:]
				}
			}
			ov[f] = []byte(out)
		}
	}
	return nil
}

// dispatch generates the programs that run one harness natively.
func dispatch(hs []harness, ov overlay) {
	byPkg := map[string][]string{}
	mains := map[string][]string{}
	for _, h := range hs {
		if h.Main {
			mains[h.Pkg] = append(mains[h.Pkg], h.Name)
		} else {
			byPkg[h.Pkg] = append(byPkg[h.Pkg], h.Name)
		}
	}
	var pk []string
	for p := range byPkg {
		pk = append(pk, p)
	}
	sort.Strings(pk)
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n")
	for i, p := range pk {
		fmt.Fprintf(&sb, "\tp%d %q\n", i, modPath+"/"+p)
	}
	sb.WriteString(")\n\nfunc main() {\n\tswitch os.Getenv(\"VERIF_HARNESS\") {\n")
	for i, p := range pk {
		for _, n := range byPkg[p] {
			fmt.Fprintf(&sb, "\tcase %q:\n\t\tp%d.%s()\n", n, i, n)
		}
	}
	sb.WriteString("\tdefault:\n\t\tfmt.Println(\"VERIF-ERROR unknown harness\")\n\t\tos.Exit(9)\n\t}\n\tfmt.Println(\"VERIF-OK\")\n}\n")
	ov[filepath.Join(*repo, "verifmain", "main.go")] = []byte(sb.String())
	for p, ns := range mains {
		var sb strings.Builder
		sb.WriteString("package main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n)\n\nfunc init() {\n\tswitch os.Getenv(\"VERIF_HARNESS\") {\n\tcase \"\":\n\t\treturn\n")
		for _, n := range ns {
			fmt.Fprintf(&sb, "\tcase %q:\n\t\t%s()\n", n, n)
		}
		sb.WriteString("\tdefault:\n\t\tfmt.Println(\"VERIF-ERROR unknown harness\")\n\t\tos.Exit(9)\n\t}\n\tfmt.Println(\"VERIF-OK\")\n\tos.Exit(0)\n}\n")
		ov[filepath.Join(*repo, p, "zz_verif_dispatch.go")] = []byte(sb.String())
	}
}

// glue generates the adapters that bind harnesses to unexported entry points
// by shape rather than by name.
func glue(ov overlay) {
	dir := filepath.Join(*repo, "cli/receiver/server")
	fset := token.NewFileSet()
	name := ""
	goCalled := map[string]bool{}
	var cands []string
	ents, _ := os.ReadDir(dir)
	for _, en := range ents {
		n := en.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(f, func(x ast.Node) bool {
			if g, ok := x.(*ast.GoStmt); ok {
				if s, ok := g.Call.Fun.(*ast.SelectorExpr); ok {
					goCalled[s.Sel.Name] = true
				}
				ast.Inspect(g, func(y ast.Node) bool {
					if c, ok := y.(*ast.CallExpr); ok {
						if s, ok := c.Fun.(*ast.SelectorExpr); ok {
							goCalled[s.Sel.Name] = true
						}
					}
					return true
				})
			}
			fd, ok := x.(*ast.FuncDecl)
			if !ok || fd.Recv == nil || fd.Type.Params == nil || len(fd.Type.Params.List) != 1 || len(fd.Type.Params.List[0].Names) > 1 {
				return true
			}
			if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
				return true
			}
			s, ok := fd.Type.Params.List[0].Type.(*ast.SelectorExpr)
			if !ok || s.Sel.Name != "Conn" {
				return true
			}
			rt := fd.Recv.List[0].Type
			if st, ok := rt.(*ast.StarExpr); ok {
				rt = st.X
			}
			if id, ok := rt.(*ast.Ident); ok && id.Name == "Server" {
				cands = append(cands, fd.Name.Name)
			}
			return true
		})
	}
	for _, c := range cands {
		if c == "handleConn" {
			name = c
		}
	}
	if name == "" {
		for _, c := range cands {
			if goCalled[c] {
				name = c
			}
		}
	}
	if name == "" && len(cands) > 0 {
		name = cands[0]
	}
	if name == "" {
		name = "handleConn"
	}
	ov[filepath.Join(dir, "zz_verif_glue.go")] = []byte("package server\n\nimport \"net\"\n\nfunc verifHandle(s *Server, c net.Conn) { s." + name + "(c) }\n")
}

func run() int {
	t0 := time.Now()
	hs, ov, err := collect(true)
	if err != nil {
		fmt.Println("harness error:", err)
		return 2
	}
	var sel []harness
	var re *regexp.Regexp
	if *only != "" {
		re = regexp.MustCompile(*only)
	}
	for _, h := range hs {
		if *prop != "all" && h.Prop != *prop {
			continue
		}
		if h.Tier == "thorough" && *tier != "thorough" {
			continue
		}
		if re != nil && !re.MatchString(h.Name) {
			continue
		}
		sel = append(sel, h)
	}
	if len(sel) == 0 {
		fmt.Println("no harness for", *prop)
		return 2
	}
	tmp, err := os.MkdirTemp("", "symgo-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)

	var nat *native
	var natErr chan error
	var pkgs []*packages.Package
	stubs := false
	for _, h := range sel {
		if strings.HasPrefix(h.Pkg, "cli/receiver") {
			stubs = true
		}
	}
	for {
		var flags []string
		dispatch(sel, ov)
		if err = swap(sel, ov); err != nil {
			fmt.Println("swap:", err)
			return 2
		}
		if stubs {
			if flags, err = stubFlags(tmp, ov); err != nil {
				fmt.Println("stubs:", err)
				return 2
			}
		}
		nat = newNative(tmp, ov, flags)
		if *replayF != "" {
			return replayFile(nat, sel)
		}
		natErr = make(chan error, 1)
		go func(n *native, c chan error) { c <- n.build(sel) }(nat, natErr)
		var perr []string
		pkgs, perr = load(sel, ov, flags)
		if len(perr) == 0 {
			break
		}
		<-natErr
		for i, e := range perr {
			if i < 20 {
				fmt.Println("load:", e)
			}
		}
		if !stubs {
			return 2
		}
		// The code uses something the stand-ins do not have: decide what
		// can be decided with the real libraries.
		stubs = false
		hs, ov, err = collect(false)
		if err != nil {
			fmt.Println("harness error:", err)
			return 2
		}
		var rest []harness
		for _, h := range sel {
			if !h.Stubs {
				rest = append(rest, h)
			}
		}
		sel = rest
		fmt.Println("note: retrying without stand-ins for the client libraries")
		if len(sel) == 0 {
			return 2
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	tLoad := time.Since(t0)

	nw := *workers
	if nw == 0 {
		nw = runtime.NumCPU() - 1
		if nw > 8 {
			nw = 8
		}
		if nw < 1 {
			nw = 1
		}
	}
	// longest first
	sort.SliceStable(sel, func(i, j int) bool { return sel[i].Budget > sel[j].Budget })
	results := make([]*result, len(sel))
	sem := make(chan struct{}, nw)
	var wg sync.WaitGroup
	for i := range sel {
		i := i
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			results[i] = runHarness(prog, sel[i])
			if *verbose {
				r := results[i]
				fmt.Fprintf(os.Stderr, "  done %s %.1fs\n", r.H.Name, r.Wall.Seconds())
			}
		}()
	}
	wg.Wait()
	nErr := <-natErr
	if nErr != nil {
		fmt.Println("native build error:", nErr)
		return 2
	}
	return report(results, nat, t0, tLoad)
}

// replayFile runs one saved counterexample against the natively compiled
// code: exit 1 when it still violates the property, 0 when it does not.
func replayFile(nat *native, sel []harness) int {
	raw, err := os.ReadFile(*replayF)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var d replayDoc
	if err := json.Unmarshal(raw, &d); err != nil {
		fmt.Println(err)
		return 2
	}
	for _, h := range sel {
		if h.Name != d.Harness {
			continue
		}
		if err := nat.build([]harness{h}); err != nil {
			fmt.Println("native build error:", err)
			return 2
		}
		for k := 0; k < 8; k++ {
			out, txt := nat.replay(h, d)
			if out != "ok" || k == 7 {
				fmt.Print(txt)
				fmt.Println("outcome:", out)
				if out == "ok" || out == "assume" {
					return 0
				}
				return 1
			}
		}
	}
	fmt.Println("no such harness:", d.Harness)
	return 2
}

// load type-checks the packages of the harnesses.
func load(sel []harness, ov overlay, flags []string) ([]*packages.Package, []string) {
	pats := map[string]bool{}
	for _, h := range sel {
		pats["./"+h.Pkg] = true
	}
	var pl []string
	for p := range pats {
		pl = append(pl, p)
	}
	sort.Strings(pl)
	pl = append(pl, "./verifsv", "errors", "fmt", "time")
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax, Dir: *repo, Env: env(), Overlay: ov, BuildFlags: flags,
	}
	pkgs, err := packages.Load(cfg, pl...)
	if err != nil {
		return nil, []string{err.Error()}
	}
	var out []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			out = append(out, e.Error())
		}
	})
	return pkgs, out
}

// stubFlags puts recording stand-ins in the place of the client libraries:
// replace directives in a copy of go.mod, and an overlay for database/sql.
func stubFlags(tmp string, ov overlay) ([]string, error) {
	root := filepath.Join(*verif, "harness", "stubs")
	mod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	sum, _ := os.ReadFile(filepath.Join(*repo, "go.sum"))
	ents, err := os.ReadDir(root)
	if err != nil {
		return nil, err
	}
	txt := string(mod) + "\n"
	for _, en := range ents {
		m, err := os.ReadFile(filepath.Join(root, en.Name(), "go.mod"))
		if err != nil {
			continue
		}
		name := strings.TrimSpace(strings.TrimPrefix(strings.SplitN(string(m), "\n", 2)[0], "module "))
		txt += fmt.Sprintf("replace %s => %s\n", name, filepath.Join(root, en.Name()))
	}
	mf := filepath.Join(tmp, "verif.mod")
	if err := os.WriteFile(mf, []byte(txt), 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "verif.sum"), sum, 0o644); err != nil {
		return nil, err
	}
	gr, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return nil, err
	}
	dir := filepath.Join(strings.TrimSpace(string(gr)), "src", "database", "sql")
	old, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	for _, en := range old {
		if n := en.Name(); strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			ov[filepath.Join(dir, n)] = []byte("package sql\n")
		}
	}
	src, err := os.ReadFile(filepath.Join(root, "sql", "sql.go"))
	if err != nil {
		return nil, err
	}
	ov[filepath.Join(dir, "sql.go")] = src
	return []string{"-modfile=" + mf, "-mod=mod"}, nil
}

func runHarness(prog *ssa.Program, h harness) (r *result) {
	r = &result{H: h}
	t0 := time.Now()
	e := sym.NewExec(prog, modPath+"/verifsv")
	r.Exec = e
	e.Thorough = *tier == "thorough"
	e.FinalMax = 6
	b := h.Budget
	if b == 0 {
		b = 120
	}
	if *tier == "thorough" {
		b *= 10
	} else if b > 600 {
		b = 600
	}
	if *budget > 0 {
		b = *budget
	}
	e.Lim.Deadline = time.Now().Add(time.Duration(b) * time.Second)
	if *tier != "thorough" {
		// an answer is due in time whatever the code has become
		if end := started.Add(720 * time.Second); e.Lim.Deadline.After(end) {
			e.Lim.Deadline = end
		}
		e.Lim.Grace = 60 * time.Second
	}
	over := make(chan bool)
	defer close(over)
	go func() {
		t := time.NewTimer(time.Until(e.Lim.Deadline) + 10*time.Second)
		defer t.Stop()
		for {
			select {
			case <-over:
				return
			case <-t.C:
				e.S.Interrupt()
				t.Reset(10 * time.Second)
			}
		}
	}()
	defer func() {
		r.Wall = time.Since(t0)
		if x := recover(); x != nil {
			r.Crash = fmt.Sprint(x)
			if *verbose {
				r.Crash += "\n" + string(debug.Stack())
			}
		}
		e.S.Close()
	}()
	p := prog.ImportedPackage(modPath + "/" + h.Pkg)
	if p == nil {
		for _, q := range prog.AllPackages() {
			if q.Pkg.Path() == modPath+"/"+h.Pkg {
				p = q
			}
		}
	}
	if p == nil {
		r.Crash = "package not loaded"
		return
	}
	fn := p.Func(h.Name)
	if fn == nil {
		r.Crash = "harness not found"
		return
	}
	r.Incomplete = e.Run(fn)
	return
}

// ---- native replay ----

type native struct {
	dir   string
	ov    overlay
	bin   string
	mains map[string]string
	n     int
	mu    sync.Mutex
	flags []string
	of    string // the overlay
	once  sync.Once
	race  string // the replay program with the race detector
}

func newNative(dir string, ov overlay, flags []string) *native {
	return &native{dir: dir, ov: ov, mains: map[string]string{}, flags: flags}
}

func (n *native) build(hs []harness) error {
	repl := map[string]string{}
	i := 0
	for p, c := range n.ov {
		f := filepath.Join(n.dir, fmt.Sprintf("ov%d.go", i))
		i++
		if err := os.WriteFile(f, c, 0o644); err != nil {
			return err
		}
		repl[p] = f
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	of := filepath.Join(n.dir, "overlay.json")
	n.of = of
	if err := os.WriteFile(of, js, 0o644); err != nil {
		return err
	}
	gobuild := func(out, pkg string) error {
		args := append([]string{"build", "-overlay", of, "-o", out}, n.flags...)
		cmd := exec.Command("go", append(args, pkg)...)
		cmd.Dir = *repo
		cmd.Env = env()
		if o, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("%v: %s", err, o)
		}
		return nil
	}
	need := false
	for _, h := range hs {
		if h.Main {
			if n.mains[h.Pkg] == "" {
				out := filepath.Join(n.dir, "main_"+strings.ReplaceAll(h.Pkg, "/", "_"))
				if err := gobuild(out, "./"+h.Pkg); err != nil {
					return err
				}
				n.mains[h.Pkg] = out
			}
		} else {
			need = true
		}
	}
	if need {
		n.bin = filepath.Join(n.dir, "replay")
		return gobuild(n.bin, "./verifmain")
	}
	return nil
}

type replayDoc struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Kind     string            `json:"kind"`
	Message  string            `json:"message"`
	Pos      string            `json:"pos,omitempty"`
	Thorough bool              `json:"thorough"`
	Values   map[string]string `json:"values"`
	Outcome  string            `json:"outcome,omitempty"`
	Output   string            `json:"output,omitempty"`
	HowTo    string            `json:"how_to_replay,omitempty"`
}

func mkDoc(h harness, f sym.Finding) replayDoc {
	d := replayDoc{Property: h.Prop, Harness: h.Name, Kind: f.Kind, Message: f.Msg, Pos: f.Pos, Thorough: *tier == "thorough", Values: map[string]string{}}
	for k, v := range f.Model {
		d.Values[k] = fmt.Sprintf("0x%x", v)
	}
	return d
}

// replay runs one assignment natively; outcome is ok, assert, panic, exit,
// hang, assume or error.
func (n *native) replay(h harness, d replayDoc) (string, string) {
	n.mu.Lock()
	n.n++
	f := filepath.Join(n.dir, fmt.Sprintf("replay%d.json", n.n))
	n.mu.Unlock()
	js, _ := json.Marshal(d)
	if err := os.WriteFile(f, js, 0o644); err != nil {
		return "error", err.Error()
	}
	bin := n.bin
	if h.Main {
		bin = n.mains[h.Pkg]
	}
	if d.Kind == "race" {
		n.once.Do(func() {
			args := append([]string{"build", "-race", "-overlay", n.of, "-o", bin + "_race"}, n.flags...)
			cmd := exec.Command("go", append(args, "./verifmain")...)
			cmd.Dir = *repo
			cmd.Env = append(env(), "CGO_ENABLED=1")
			if o, err := cmd.CombinedOutput(); err != nil {
				fmt.Printf("note: no race detector: %v: %s\n", err, o)
				return
			}
			n.race = bin + "_race"
		})
		if n.race == "" {
			return "error", "the replay could not be built with the race detector"
		}
		// at the same time; then one after the other on one processor, which the
		// detector still sees as unordered, and where what one puts into a pool
		// is what the other gets (mostly: under the detector pools drop some)
		o, txt := "", ""
		for i := 0; i < 8 && o != "race"; i++ {
			mode := "VERIF_RACE=seq"
			if i == 0 {
				mode = "VERIF_RACE=par"
			}
			o, txt = n.exec(n.race, h, d, f, mode, "GORACE=halt_on_error=1 exitcode=66")
		}
		return o, txt
	}
	return n.exec(bin, h, d, f)
}

func (n *native) exec(bin string, h harness, d replayDoc, f string, extra ...string) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Dir = n.dir
	cmd.Env = append(env(), "TZ=UTC", "VERIF_REPLAY="+f, "VERIF_HARNESS="+h.Name, "GOTRACEBACK=single")
	cmd.Env = append(cmd.Env, extra...)
	cmd.WaitDelay = 2 * time.Second
	out, err := cmd.CombinedOutput()
	txt := string(out)
	if len(txt) > 4000 {
		txt = txt[:2000] + "\n...\n" + txt[len(txt)-2000:]
	}
	if ctx.Err() != nil {
		return "hang", txt
	}
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	switch {
	case d.Kind == "race" && strings.Contains(txt, "WARNING: DATA RACE"):
		return "race", txt
	case strings.Contains(txt, "VERIF-ASSERT"):
		return "assert", txt
	case strings.Contains(txt, "VERIF-ERROR"):
		return "error", txt
	case strings.Contains(txt, "VERIF-UNWIND"):
		return "hang", txt
	case strings.Contains(txt, "VERIF-ASSUME"):
		return "assume", txt
	case code == 2 && (strings.Contains(txt, "panic:") || strings.Contains(txt, "fatal error:")):
		return "panic", txt
	case strings.Contains(txt, "VERIF-OK"):
		return "ok", txt
	case code >= 0:
		return "exit", txt
	}
	return "error", txt
}
