// Package build makes a model checking binary from the current tree of the
// repository: stage a copy, rewrite it (package instr), compile it together
// with a harness.
package build

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"vmc/instr"
)

// Options of one build.
type Options struct {
	Repo    string
	MC      string // /verif/mc
	Work    string // scratch directory
	Harness string // directory below work/h
	Mem     bool
	Vancap  bool
	Tool    bool
	Verbose bool
}

var goEnv = []string{"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod"}

func env() []string {
	e := os.Environ()
	if os.Getenv("HOME") == "" {
		e = append(e, "HOME=/root")
	}
	return append(e, goEnv...)
}

func run(dir string, name string, args ...string) ([]byte, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = env()
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	if err := c.Run(); err != nil {
		m := errb.String()
		if len(m) > 4000 {
			m = m[:4000]
		}
		return out.Bytes(), fmt.Errorf("%s %s: %v\n%s", name, strings.Join(args, " "), err, m)
	}
	return out.Bytes(), nil
}

// ErrRepo: the repository itself does not compile.
var ErrRepo = errors.New("the repository does not compile")

func copyGo(src, dst string, skipSub func(rel string) bool, edit func(rel string, b []byte) []byte) error {
	return filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if d.IsDir() {
			n := d.Name()
			if rel != "." && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor" || skipSub != nil && skipSub(rel)) {
				return filepath.SkipDir
			}
			return nil
		}
		n := d.Name()
		if strings.HasSuffix(n, "_test.go") || !(strings.HasSuffix(n, ".go") || n == "go.mod" || n == "go.sum") || !d.Type().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if edit != nil && strings.HasSuffix(n, ".go") {
			b = edit(rel, b)
		}
		q := filepath.Join(dst, rel)
		if err := os.MkdirAll(filepath.Dir(q), 0o755); err != nil {
			return err
		}
		return os.WriteFile(q, b, 0o644)
	})
}

// rename changes the package clause main to name.
func rename(b []byte, name string) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", b, parser.PackageClauseOnly)
	if err != nil || f.Name.Name != "main" {
		return b
	}
	o := fset.Position(f.Name.Pos()).Offset
	return append(append(append([]byte{}, b[:o]...), name...), b[o+4:]...)
}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	ImportMap  map[string]string
	Module     *struct {
		Path, Dir, GoVersion string
		Replace              *struct{ Path, Dir, GoVersion string }
	}
	Error *struct{ Err string }
}

const backoffMod = "github.com/cenkalti/backoff/v4"
const amqpMod = "github.com/Azure/go-amqp"
const vanMod = "github.com/c-kruse/vanflow"

// Build returns the path of the binary.
func Build(o Options) (string, error) {
	stage, out := filepath.Join(o.Work, "stage"), filepath.Join(o.Work, "out")
	os.RemoveAll(stage)
	os.RemoveAll(out)
	hasMod := func(rel string) bool {
		_, err := os.Stat(filepath.Join(o.Repo, rel, "go.mod"))
		return err == nil
	}
	err := copyGo(o.Repo, filepath.Join(stage, "vanflow"), hasMod, func(rel string, b []byte) []byte {
		if filepath.Dir(rel) == "cmd/vanflow-tool" {
			return rename(b, "vanflowtool")
		}
		return b
	})
	if err != nil {
		return "", err
	}
	if o.Vancap {
		if err := copyGo(filepath.Join(o.Repo, "vancap"), filepath.Join(stage, "vancap"), hasMod, func(rel string, b []byte) []byte { return rename(b, "vancap") }); err != nil {
			return "", err
		}
		if err := exportTool(filepath.Join(stage, "vancap"), "vancap", 1); err != nil {
			return "", fmt.Errorf("%w: %v", ErrRepo, err)
		}
	}
	if o.Tool {
		// a second copy, so that one execution can run two commands
		src := filepath.Join(stage, "vanflow", "cmd", "vanflow-tool")
		if err := copyGo(src, src+"-b", nil, nil); err != nil {
			return "", fmt.Errorf("%w: %v", ErrRepo, err)
		}
		if err := exportTool(src+"-b", "vanflowtool", 2); err != nil {
			return "", fmt.Errorf("%w: %v", ErrRepo, err)
		}
		if err := exportTool(filepath.Join(stage, "vanflow", "cmd", "vanflow-tool"), "vanflowtool", 1); err != nil {
			return "", fmt.Errorf("%w: %v", ErrRepo, err)
		}
	}
	// harness workspace
	if err := copyGo(filepath.Join(o.MC, "work"), filepath.Join(stage, "work"), nil, nil); err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(o.Repo, "go.sum"))
	if err != nil {
		return "", err
	}
	vsum, _ := os.ReadFile(filepath.Join(o.Repo, "vancap", "go.sum"))
	reqs := requires(filepath.Join(o.Repo, "go.mod"))
	if o.Vancap {
		for k, v := range requires(filepath.Join(o.Repo, "vancap", "go.mod")) {
			reqs[k] = v
		}
		sum = append(sum, vsum...)
	}
	mod := func(dir, van, vancap, amqp, back string) error {
		var b strings.Builder
		b.WriteString("module vmcwork\n\ngo 1.25\n\nrequire (\n")
		var ks []string
		for k := range reqs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&b, "\t%s %s\n", k, reqs[k])
		}
		b.WriteString("\tvmc v0.0.0\n")
		fmt.Fprintf(&b, "\t%s v0.0.0\n", vanMod)
		if o.Vancap {
			fmt.Fprintf(&b, "\t%s/vancap v0.0.0\n", vanMod)
		}
		b.WriteString(")\n\n")
		fmt.Fprintf(&b, "replace vmc => %s\nreplace %s => %s\nreplace %s => %s\n", o.MC, vanMod, van, amqpMod, amqp)
		if o.Vancap {
			fmt.Fprintf(&b, "replace %s/vancap => %s\n", vanMod, vancap)
		}
		if back != "" {
			fmt.Fprintf(&b, "replace %s => %s\n", backoffMod, back)
		}
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644); err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dir, "go.mod"), []byte(b.String()), 0o644)
	}
	sw := filepath.Join(stage, "work")
	if err := mod(sw, filepath.Join(stage, "vanflow"), filepath.Join(stage, "vancap"), filepath.Join(o.MC, "fakeamqp"), ""); err != nil {
		return "", err
	}
	b, err := run(sw, "go", "list", "-e", "-export", "-trimpath", "-deps", "-json=ImportPath,Name,Dir,GoFiles,Export,Standard,ImportMap,Module,Error", "./h/"+o.Harness)
	if err != nil && len(b) == 0 {
		return "", err
	}
	var pkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for dec.More() {
		p := &listPkg{}
		if err := dec.Decode(p); err != nil {
			return "", err
		}
		pkgs = append(pkgs, p)
	}
	if err != nil {
		return "", fmt.Errorf("%w: %v", ErrRepo, err)
	}
	l := &instr.Loader{Export: map[string]string{}, Instrumented: map[string]bool{}}
	var todo []*instr.Package
	outRoot := map[string]string{vanMod: filepath.Join(out, "vanflow"), vanMod + "/vancap": filepath.Join(out, "vancap"), amqpMod: filepath.Join(out, "fakeamqp"), backoffMod: filepath.Join(out, "backoff"), "vmcwork": filepath.Join(out, "work")}
	inRoot := map[string]string{}
	for _, p := range pkgs {
		if p.Error != nil {
			return "", fmt.Errorf("%w: %s: %s", ErrRepo, p.ImportPath, p.Error.Err)
		}
		l.Export[p.ImportPath] = p.Export
		if p.Module == nil {
			continue
		}
		root, ok := outRoot[p.Module.Path]
		if !ok {
			continue
		}
		dir, gv := p.Module.Dir, p.Module.GoVersion
		inRoot[p.Module.Path] = dir
		if p.Module.Replace != nil && p.Module.Replace.GoVersion != "" {
			gv = p.Module.Replace.GoVersion
		}
		rel, err := filepath.Rel(dir, p.Dir)
		if err != nil {
			return "", err
		}
		l.Instrumented[p.ImportPath] = true
		todo = append(todo, &instr.Package{ImportPath: p.ImportPath, Name: p.Name, Dir: p.Dir, Files: p.GoFiles, GoVersion: gv,
			Out: filepath.Join(root, rel), RelDir: rel, ImportMap: p.ImportMap,
			Mem: o.Mem && (strings.HasPrefix(p.Module.Path, vanMod) || p.Module.Path == backoffMod || p.ImportPath == "vmcwork/h/smoke")})
	}
	var wg sync.WaitGroup
	errs := make([]error, len(todo))
	for i, p := range todo {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = l.Instrument(p)
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return "", e
		}
	}
	for m, root := range outRoot {
		if inRoot[m] == "" {
			if m == amqpMod { // required but possibly unused
				inRoot[m] = filepath.Join(o.MC, "fakeamqp")
			} else if m == vanMod {
				inRoot[m] = filepath.Join(stage, "vanflow")
			} else {
				continue
			}
		}
		os.MkdirAll(root, 0o755)
		if m == "vmcwork" {
			continue
		}
		g, err := os.ReadFile(filepath.Join(inRoot[m], "go.mod"))
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(root, "go.mod"), g, 0o644); err != nil {
			return "", err
		}
	}
	ow := filepath.Join(out, "work")
	back := ""
	if inRoot[backoffMod] != "" {
		back = outRoot[backoffMod]
	}
	if err := mod(ow, outRoot[vanMod], outRoot[vanMod+"/vancap"], outRoot[amqpMod], back); err != nil {
		return "", err
	}
	bin := filepath.Join(o.Work, "bin-"+o.Harness)
	if _, err := run(ow, "go", "build", "-trimpath", "-o", bin, "./h/"+o.Harness); err != nil {
		return "", fmt.Errorf("instrumented build: %v", err)
	}
	return bin, nil
}

func requires(gomod string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(gomod)
	if err != nil {
		return out
	}
	in := false
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "//"); i >= 0 {
			l = strings.TrimSpace(l[:i])
		}
		switch {
		case strings.HasPrefix(l, "require ("):
			in = true
		case l == ")":
			in = false
		case in || strings.HasPrefix(l, "require "):
			f := strings.Fields(strings.TrimPrefix(l, "require "))
			if len(f) == 2 {
				out[f[0]] = f[1]
			}
		}
	}
	delete(out, vanMod)
	return out
}

// exportTool makes main callable and the command line settable before init.
func exportTool(dir, pkg string, n int) error {
	fset := token.NewFileSet()
	ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	found := false
	reset := ""
	for _, m := range ms {
		f, err := parser.ParseFile(fset, m, nil, 0)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				found = true
			}
			// flag sets that live longer than one execution
			gd, _ := d.(*ast.GenDecl)
			if gd == nil || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vsp := sp.(*ast.ValueSpec)
				for i, v := range vsp.Values {
					if c, ok := v.(*ast.CallExpr); ok && len(vsp.Values) == len(vsp.Names) {
						if se, ok := c.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "NewFlagSet" {
							reset += fmt.Sprintf("\t%s = flag.NewFlagSet(os.Args[0], flag.ExitOnError)\n", vsp.Names[i].Name)
						}
					}
				}
			}
		}
	}
	if !found {
		return fmt.Errorf("no func main in %s", dir)
	}
	// Variables are initialised before any init function, so the name of the
	// file puts its init first but package variables see what argv left.
	src := fmt.Sprintf("package %s\n\nimport (\n\t\"flag\"\n\t\"os\"\n\n\t\"vmc/argv\"\n)\n\nfunc init() { argv.Use(%d) }\n\n// VmcMain runs the command.\nfunc VmcMain() { main() }\n\n// VmcReset forgets the flags registered by an earlier execution.\nfunc VmcReset() {\n\tflag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ExitOnError)\n%s}\n", pkg, n, reset)
	return os.WriteFile(filepath.Join(dir, "0vmc_export.go"), []byte(src), 0o644)
}
