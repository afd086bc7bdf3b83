package lens

// C14: a catalog program and random programs are analysed statically, then really run with a recording dependency: every
// project function and test that shows up on the call stack of a changed function has to be in the static result.

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

// decl14 is one declared function of the project (ground truth from its source).
type decl14 struct {
	file       string
	key        string // dir|Type.Name
	from, name int    // line of "func" and of the name
	test       bool   // in a _test.go file
	generated  bool
	recv       bool
}

var star14 = regexp.MustCompile(`\*|\[[^\]]*\]|\(|\)`)

func declKey14(dir string, d *ast.FuncDecl) string {
	k := ""
	if d.Recv != nil && len(d.Recv.List) > 0 {
		t := d.Recv.List[0].Type
		for {
			switch x := t.(type) {
			case *ast.StarExpr:
				t = x.X
				continue
			case *ast.ParenExpr:
				t = x.X
				continue
			case *ast.IndexExpr:
				t = x.X
				continue
			case *ast.IndexListExpr:
				t = x.X
				continue
			case *ast.Ident:
				k = x.Name + "."
			}
			break
		}
	}
	return dir + "|" + k + d.Name.Name
}

// identKey14 brings a reported function to the same key.
func identKey14(f Function) string {
	_, rest, _ := strings.Cut(f.FunctionIdent, ":")
	return filepath.Dir(f.FilePath) + "|" + star14.ReplaceAllString(rest, "")
}

func parseTree14(v *vRun, root string) map[string]*decl14 {
	out := map[string]*decl14{}
	_ = filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		if strings.HasSuffix(p, "_windows.go") {
			return nil
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, nil, parser.SkipObjectResolution)
		if err != nil {
			v.unsure("own program does not parse: %v", err)
			return nil
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			k := declKey14(filepath.Dir(p), fd)
			if fd.Name.Name == "init" || fd.Name.Name == "_" {
				continue
			}
			base := filepath.Base(p)
			dd := &decl14{file: p, key: k, from: fset.Position(fd.Pos()).Line, name: fset.Position(fd.Name.Pos()).Line,
				test: strings.HasSuffix(base, "_test.go"), recv: fd.Recv != nil,
				generated: strings.HasSuffix(base, "_gen.go") || strings.HasSuffix(base, "_mock.go") || strings.HasSuffix(base, ".pb.go")}
			if f.Name.Name == "main" && fd.Name.Name == "main" {
				dd.generated = true // not a caller: roots are left out
			}
			out[k] = dd
		}
		return nil
	})
	return out
}

var closure14 = regexp.MustCompile(`\.func\d+|\.gowrap\d+|\.deferwrap\d+|-range\d+|-fm$|\.glob\.|\.init\.|\.init$|\.init\d|\.\d+$`)

// frameKey14 is the declaration key of a runtime frame, "" for closures and wrappers.
func frameKey14(fn, file string) string {
	if closure14.MatchString(fn) {
		return ""
	}
	short := fn[strings.LastIndexByte(fn, '/')+1:]
	if i := strings.IndexByte(short, '['); i >= 0 { // a type argument may hold slashes and dots: cut the brackets first
		base := fn
		var sb strings.Builder
		depth := 0
		for _, c := range base {
			if c == '[' {
				depth++
			}
			if depth == 0 {
				sb.WriteRune(c)
			}
			if c == ']' {
				depth--
			}
		}
		base = sb.String()
		short = base[strings.LastIndexByte(base, '/')+1:]
	}
	_, name, ok := strings.Cut(short, ".")
	if !ok {
		return ""
	}
	return filepath.Dir(file) + "|" + star14.ReplaceAllString(name, "")
}

type stack14 struct {
	change string
	frames [][2]string // function, file
}

func readTrace14(path string) []stack14 {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer func() { _ = f.Close() }()
	var out []stack14
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<22)
	seen := map[string]bool{}
	for sc.Scan() {
		if seen[sc.Text()] {
			continue
		}
		seen[sc.Text()] = true
		var st stack14
		for i, part := range strings.Split(strings.TrimSuffix(sc.Text(), "\x1f"), "\x1f") {
			l := strings.Split(part, "|")
			if len(l) != 3 {
				continue
			}
			if i == 0 {
				st.change = l[0]
				continue
			}
			st.frames = append(st.frames, [2]string{l[0], l[1]})
		}
		out = append(out, st)
	}
	return out
}

// program14 is one project with the run commands that give its ground truth.
type program14 struct {
	name     string
	w        *e2eWorld
	depFiles map[string]string
	files    map[string]string
	pkgs     []string // packages with tests
	mains    []string // packages to run as programs
	exact    map[string][]string // declared key suffix ("pkgdir|Name") -> changes reached, when the whole relation is known
	exactT   map[string][]string // test key -> targets
}

func changes14(v *vRun, depRoot, modPath string) []*ModuleFunction {
	var out []*ModuleFunction
	_ = filepath.Walk(depRoot, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, nil, parser.SkipObjectResolution)
		if err != nil {
			v.unsure("own module does not parse: %v", err)
			return nil
		}
		rel, _ := filepath.Rel(depRoot, filepath.Dir(p))
		pkg := modPath
		if rel != "." {
			pkg += "/" + filepath.ToSlash(rel)
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			calls := false
			for _, s := range fd.Body.List {
				if es, ok := s.(*ast.ExprStmt); ok {
					if c, ok := es.X.(*ast.CallExpr); ok {
						if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "rec" {
							calls = true
						}
					}
				}
			}
			if !calls {
				continue
			}
			out = append(out, &ModuleFunction{Function: Function{FilePath: p, PackageName: pkg, FunctionName: fd.Name.Name,
				FunctionIdent: MakeFunctionIdent(pkg, fd), EntryLineNumber: uint32(fset.Position(fd.Pos()).Line)}})
		}
		return nil
	})
	return out
}

// changeName14: "example.com/dep:*Val.Set" and "example.com/dep.(*Val).Set" both become "dep|Val.Set"
func changeName14(ident string) string {
	if i := strings.IndexByte(ident, ':'); i >= 0 {
		return ident[:i] + "|" + star14.ReplaceAllString(ident[i+1:], "")
	}
	s := star14.ReplaceAllString(ident, "")
	i := strings.LastIndexByte(s, '/')
	j := strings.IndexByte(s[i+1:], '.')
	return s[:i+1+j] + "|" + s[i+1+j+1:]
}

func isTestName14(n string) bool {
	if !strings.HasPrefix(n, "Test") {
		return false
	}
	r := strings.TrimPrefix(n, "Test")
	return r == "" || !(r[0] >= 'a' && r[0] <= 'z')
}

func (p *program14) run(v *vRun) {
	w := p.w
	w.publish("example.com/dep", "v1.0.0", p.depFiles)
	vWriteTree(w.project, p.files)
	for _, d := range []string{"."} {
		if _, ok := p.files["go.work"]; ok {
			break
		}
		if err := w.goRun(filepath.Join(w.project, d), "mod", "tidy"); err != nil {
			v.unsure("%s: %v", p.name, err)
			return
		}
	}
	if _, ok := p.files["go.work"]; ok {
		for n := range p.files {
			if filepath.Base(n) == "go.mod" {
				_ = w.goRun(filepath.Join(w.project, filepath.Dir(n)), "mod", "tidy")
			}
		}
	}
	depRoot := filepath.Join(w.modc, "example.com", "dep@v1.0.0")
	changes := changes14(v, depRoot, "example.com/dep")
	if len(changes) == 0 {
		v.unsure("%s: no changed functions found", p.name)
		return
	}
	// the analysis inherits the environment of this process
	var callers []*CallerFunction
	var reach ReachableModuleChange
	var tests []*TestFunction
	var aerr error
	ok := v.guard("C14:analysis", p.name, 10*time.Minute, false, func() {
		callers, reach, _, _, _, aerr = CallerStaticAnalysis(changes, w.project, w.gopath, w.modc)
		if aerr == nil {
			tests, aerr = TestStaticAnalysis(callers, w.project, w.gopath, w.modc)
		}
	})
	if !ok {
		return
	}
	if aerr != nil {
		v.violate("C14:error", "%s: analysis of a program that builds failed: %v", p.name, aerr)
		return
	}
	decls := parseTree14(v, w.project)

	// what is reported: functions of the project, once, at the right place
	callerOf := map[string]*CallerFunction{}
	for _, c := range callers {
		k := identKey14(c.Function)
		d := decls[k]
		switch {
		case d == nil:
			v.violate("C14:caller-unknown", "%s: reported caller %s (%s) is not a function of the project", p.name, c.FunctionIdent, c.FilePath)
			continue
		case callerOf[k] != nil:
			v.violate("C14:caller-twice", "%s: caller %s reported twice", p.name, c.FunctionIdent)
		case d.file != c.FilePath || int(c.EntryLineNumber) < d.from || int(c.EntryLineNumber) > d.name:
			v.violate("C14:caller-location", "%s: caller %s reported at %s:%d, is declared at %s:%d", p.name, c.FunctionIdent, c.FilePath, c.EntryLineNumber, d.file, d.from)
		case d.generated:
			v.violate("C14:caller-generated", "%s: caller %s is declared in a generated file or is a program's main", p.name, c.FunctionIdent)
		}
		callerOf[k] = c
		seen := map[string]bool{}
		for _, ch := range c.ChangeFunctions {
			if seen[ch.FunctionIdent] {
				v.violate("C14:change-twice", "%s: caller %s lists change %s twice", p.name, c.FunctionIdent, ch.FunctionIdent)
			}
			seen[ch.FunctionIdent] = true
			if reach[ch.FunctionIdent] == nil {
				v.violate("C14:reachable-incomplete", "%s: %s is reached by %s but not among the reachable changes", p.name, ch.FunctionIdent, c.FunctionIdent)
			}
		}
		if len(seen) == 0 {
			v.violate("C14:caller-no-change", "%s: caller %s reaches no change", p.name, c.FunctionIdent)
		}
	}
	known := map[string]bool{}
	for _, ch := range changes {
		known[ch.FunctionIdent] = true
	}
	for id := range reach {
		if !known[id] {
			v.violate("C14:reachable-unknown", "%s: reachable change %s is none of the given ones", p.name, id)
		}
	}
	testOf := map[string]*TestFunction{}
	for _, tf := range tests {
		k := identKey14(tf.Function)
		d := decls[k]
		switch {
		case d == nil || !d.test || d.recv || !isTestName14(tf.FunctionName):
			v.violate("C14:test-unknown", "%s: selected test %s (%s) is not a test of the project", p.name, tf.FunctionIdent, tf.FilePath)
			continue
		case testOf[k] != nil:
			v.violate("C14:test-twice", "%s: test %s selected twice", p.name, tf.FunctionIdent)
		case d.file != tf.FilePath || int(tf.EntryLineNumber) < d.from || int(tf.EntryLineNumber) > d.name:
			v.violate("C14:test-location", "%s: test %s reported at %s:%d, is declared at %s:%d", p.name, tf.FunctionIdent, tf.FilePath, tf.EntryLineNumber, d.file, d.from)
		}
		testOf[k] = tf
		seen := map[string]bool{}
		for _, c := range tf.Targets {
			if seen[c.FunctionIdent] {
				v.violate("C14:target-twice", "%s: test %s lists target %s twice", p.name, tf.FunctionIdent, c.FunctionIdent)
			}
			seen[c.FunctionIdent] = true
			if callerOf[identKey14(c.Function)] == nil {
				v.violate("C14:target-unknown", "%s: test %s has target %s, which is no caller", p.name, tf.FunctionIdent, c.FunctionIdent)
			}
		}
	}
	p.checkExact(v, callerOf, testOf)
	v.observe("callers reported", len(callers))
	v.observe("tests selected", len(tests))
	v.observe("changes", len(changes))
	v.observe("changes reachable", len(reach))

	// ground truth
	type job struct {
		test string // key of the test, "" for a program
		args []string
		dir  string
	}
	var jobs []job
	var mu sync.Mutex
	for _, pk := range p.pkgs {
		dir := filepath.Join(w.project, pk)
		bin := filepath.Join(w.dir, "bin", "t"+strings.ReplaceAll(pk, "/", "_"))
		if err := w.goRun(dir, "test", "-c", "-vet=off", "-gcflags=example.com/...=-l", "-o", bin, "."); err != nil {
			v.unsure("%s: %v", p.name, err)
			return
		}
		cmd := exec.Command(bin, "-test.list", "^Test")
		cmd.Dir = dir
		out, err := cmd.Output()
		if err != nil {
			v.unsure("%s: listing tests: %v", p.name, err)
			return
		}
		for _, n := range strings.Fields(string(out)) {
			jobs = append(jobs, job{test: dir + "|" + n, args: []string{bin, "-test.run", "^" + n + "$", "-test.count=1"}, dir: dir})
		}
	}
	for _, m := range p.mains {
		dir := filepath.Join(w.project, m)
		bin := filepath.Join(w.dir, "bin", "m"+strings.ReplaceAll(m, "/", "_"))
		if err := w.goRun(dir, "build", "-gcflags=example.com/...=-l", "-o", bin, "."); err != nil {
			v.unsure("%s: %v", p.name, err)
			return
		}
		jobs = append(jobs, job{args: []string{bin}, dir: dir})
	}
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	traces := make([][]stack14, len(jobs))
	for i, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			tr := filepath.Join(w.dir, fmt.Sprintf("trace%d", i))
			cmd := exec.Command(j.args[0], j.args[1:]...)
			cmd.Dir = j.dir
			cmd.Env = append(w.env(), "DEP_TRACE=1")
			trf, err := os.Create(tr)
			if err != nil {
				panic(err)
			}
			defer func() { _ = trf.Close() }()
			cmd.ExtraFiles = []*os.File{trf}
			if out, err := cmd.CombinedOutput(); err != nil {
				mu.Lock()
				v.unsure("%s: %v: %v\n%s", p.name, j.args, err, out)
				mu.Unlock()
			}
			traces[i] = readTrace14(tr)
		}()
	}
	wg.Wait()
	for i, j := range jobs {
		for _, st := range traces[i] {
			p.checkStack(v, st, j.test, decls, callerOf, testOf, reach, changes)
		}
	}
}

func (p *program14) checkStack(v *vRun, st stack14, test string, decls map[string]*decl14, callerOf map[string]*CallerFunction, testOf map[string]*TestFunction,
	reach ReachableModuleChange, changes []*ModuleFunction) {
	for _, f := range st.frames {
		if strings.HasSuffix(f[0], ".init") || strings.Contains(f[0], ".init.") || f[0] == "runtime.doInit1" {
			v.observe("stacks rooted in package initialisation (not judged)", 1)
			return
		}
	}
	change := changeName14(st.change)
	v.eval()
	v.observe("call stacks of changed functions", 1)
	text := func() string {
		var l []string
		for _, f := range st.frames {
			l = append(l, f[0])
		}
		return strings.Join(l, " < ")
	}
	shape := []string{change}
	proj := false
	for _, f := range st.frames {
		if strings.HasSuffix(f[1], "_test.go") {
			break // what lies further out reaches the change only through test code
		}
		k := frameKey14(f[0], f[1])
		d := decls[k]
		if d == nil || d.test || d.generated {
			continue
		}
		proj = true
		shape = append(shape, filepath.Base(k))
		c := callerOf[k]
		if c == nil {
			v.violate("C14:caller-missed:"+filepath.Base(k)[strings.IndexByte(filepath.Base(k), '|')+1:], "%s: %s was on the stack of %s but is not among the callers\nstack: %s", p.name, f[0], st.change, text())
			continue
		}
		found := false
		for _, ch := range c.ChangeFunctions {
			found = found || changeName14(ch.FunctionIdent) == change
		}
		if !found {
			v.violate("C14:change-missed:"+filepath.Base(k)[strings.IndexByte(filepath.Base(k), '|')+1:], "%s: caller %s does not list %s, on whose stack it was\nstack: %s", p.name, c.FunctionIdent, st.change, text())
		}
		if test == "" {
			continue
		}
		name := test[strings.LastIndexByte(test, '|')+1:]
		tf := testOf[test]
		if tf == nil {
			v.violate("C14:test-missed:"+name, "%s: running test %s put %s on the stack of %s, but the test is not selected\nstack: %s", p.name, test, f[0], st.change, text())
			continue
		}
		found = false
		for _, c := range tf.Targets {
			found = found || identKey14(c.Function) == k
		}
		if !found {
			v.violate("C14:target-missed:"+name, "%s: test %s does not list target %s, which its run put on the stack of %s\nstack: %s", p.name, tf.FunctionIdent, f[0], st.change, text())
		}
	}
	if proj {
		found := false
		for _, ch := range reach {
			found = found || changeName14(ch.FunctionIdent) == change
		}
		if !found {
			v.violate("C14:reachable-missed:"+change[strings.IndexByte(change, '|')+1:], "%s: %s was really called below project code but is not among the reachable changes\nstack: %s", p.name, st.change, text())
		}
		sort.Strings(shape[1:])
		v.seen(strings.Join(shape, ","))
		if test != "" && len(v.samples) < 6 {
			v.sample(map[string]any{"test": filepath.Base(test), "stack": vShort(st.change+" < "+text(), 400)})
		}
	}
}

func (p *program14) checkExact(v *vRun, callerOf map[string]*CallerFunction, testOf map[string]*TestFunction) {
	if p.exact == nil {
		return
	}
	list := func(m map[string]bool) string {
		var l []string
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	want := func(l []string) string {
		m := map[string]bool{}
		for _, x := range l {
			m[x] = true
		}
		return list(m)
	}
	v.eval()
	for k, chs := range p.exact {
		got := map[string]bool{}
		if c := callerOf[filepath.Join(p.w.project, filepath.FromSlash(k))]; c != nil {
			for _, ch := range c.ChangeFunctions {
				got[ch.FunctionName] = true
			}
		}
		if list(got) != want(chs) {
			v.violate("C14:exact-caller", "%s: %s reaches [%s] by its static calls, reported [%s]", p.name, k, want(chs), list(got))
		}
		v.observe("functions with exactly known reach", 1)
	}
	for k, chs := range p.exactT {
		got := map[string]bool{}
		if tf := testOf[filepath.Join(p.w.project, filepath.FromSlash(k))]; tf != nil {
			for _, c := range tf.Targets {
				got[c.FunctionName] = true
			}
		}
		if list(got) != want(chs) {
			v.violate("C14:exact-test", "%s: %s reaches targets [%s] by its static calls, reported [%s]", p.name, k, want(chs), list(got))
		}
	}
}

func static14(name string) string {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_HOME"), "harness", "static", name))
	if err != nil {
		panic(err)
	}
	return string(b)
}

func catalog14() *program14 {
	p := &program14{name: "catalog", w: e2eNewWorld("c14cat")}
	p.depFiles = map[string]string{"go.mod": "module example.com/dep\n\ngo 1.24\n", "dep.go": static14("dep.go.txt")}
	p.files = map[string]string{
		"go.mod":                   "module example.com/proj\n\ngo 1.24\n\nrequire example.com/dep v1.0.0\n",
		"forms/forms.go":           static14("proj_forms.go.txt"),
		"forms/forms_test.go":      static14("proj_forms_test.go.txt"),
		"forms/ext_test.go":        static14("proj_ext_test.go.txt"),
		"forms/tagged_linux.go":    "package forms\n\nimport \"example.com/dep\"\n\nfunc tagged() int { return dep.InTagged() }\n",
		"forms/tagged_windows.go":  "package forms\n\nfunc tagged() int { return 0 }\n",
		"forms/thing_gen.go":       "package forms\n\nimport \"example.com/dep\"\n\nfunc genFn() int { return dep.InGen() }\n",
		"forms/thing_mock.go":      "package forms\n\nimport \"example.com/dep\"\n\nfunc mockFn() int { return dep.InMock() }\n",
		"internal/low/low.go":      "package low\n\nimport \"example.com/dep\"\n\nfunc Inner(a int) int { return dep.InInternal() + a }\n",
		"internal/low/low_test.go": "package low\n\nimport \"testing\"\n\nfunc TestInner(t *testing.T) { Inner(2) }\n",
		"testutil/util.go": "package testutil\n\nimport (\n\t\"testing\"\n\n\t\"example.com/dep\"\n)\n\nfunc TestEverything(t *testing.T, f func(int) int) {\n\tt.Helper()\n\tf(2)\n}\n" +
			"func Check(t *testing.T) { utilBody() }\nfunc utilBody()           { dep.ViaUtil(3) }\n",
		"cmd/app/main.go": "package main\n\nimport (\n\t\"flag\"\n\n\t\"example.com/dep\"\n)\n\nfunc main() {\n\tflag.Parse()\n\trun()\n\tfunc() { fromClosure() }()\n}\nfunc run() int     { return dep.InMain() }\nfunc fromClosure() { dep.InMainHelp() }\n",
		"cmd/app/main_test.go": "package main\n\nimport (\n\t\"os\"\n\t\"testing\"\n)\n\nfunc TestMain(m *testing.M) { os.Exit(m.Run()) }\nfunc TestRun(t *testing.T) { run() }\nfunc TestWholeMain(t *testing.T) { main() }\n",
	}
	p.pkgs = []string{"forms", "internal/low", "cmd/app"}
	p.mains = []string{"cmd/app"}
	return p
}

// random14 makes a program of plain functions and methods over several packages in layers; calls is the kind of each edge.
func random14(r *rand.Rand, idx int, static bool) *program14 {
	p := &program14{name: fmt.Sprintf("random%d", idx), w: e2eNewWorld("c14rnd")}
	if static {
		p.name = fmt.Sprintf("static%d", idx)
		p.exact, p.exactT = map[string][]string{}, map[string][]string{}
	}
	nChange := 3 + r.Intn(4)
	var dep strings.Builder
	full := static14("dep.go.txt")
	head := full[:strings.Index(full, "func Direct(")]
	head = strings.Replace(head, "\t\"errors\"\n", "", 1)
	head = strings.Replace(head, "\t\"io\"\n", "", 1)
	head = strings.Replace(head, "\t\"iter\"\n", "", 1)
	head = strings.Replace(head, "\t\"fmt\"\n", "", 1)
	head = strings.Replace(head, "\t\"strings\"\n", "", 1)
	dep.WriteString(head)
	dep.WriteString("\ntype N int\n\n")
	for i := 0; i < nChange; i++ {
		switch {
		case static || i%3 == 0:
			fmt.Fprintf(&dep, "func C%d(n N) N { rec(); return n }\n", i)
		case i%3 == 1:
			fmt.Fprintf(&dep, "type M%d struct{}\nfunc (M%d) C%d(n N) N { rec(); return n }\n", i, i, i)
		default:
			fmt.Fprintf(&dep, "func C%d[T any](n T) T { rec(); return n }\n", i)
		}
	}
	p.depFiles = map[string]string{"go.mod": "module example.com/dep\n\ngo 1.24\n", "dep.go": dep.String()}
	nPkg := 2 + r.Intn(3)
	perPkg := 5 + r.Intn(8)
	p.files = map[string]string{"go.mod": "module example.com/proj\n\ngo 1.24\n\nrequire example.com/dep v1.0.0\n"}
	type fn struct {
		pkg, idx int
		kind     int // 0 plain, 1 pointer method, 2 value method, 3 generic
		calls    []int
		changes  []int
	}
	total := nPkg * perPkg
	fns := make([]*fn, total)
	for i := range fns {
		f := &fn{pkg: i / perPkg, idx: i}
		if !static {
			f.kind = r.Intn(4)
		}
		for k := r.Intn(4); k > 0 && i+1 < total; k-- {
			f.calls = append(f.calls, i+1+r.Intn(min(total-i-1, 2*perPkg)))
		}
		if r.Intn(4) == 0 {
			f.changes = append(f.changes, r.Intn(nChange))
		}
		fns[i] = f
	}
	// a few upward calls within a package make cycles (never executed: they are behind a false condition that is only known at run time)
	reachOf := make([]map[int]bool, total)
	back := map[int]int{}
	if r.Intn(2) == 0 {
		for k := 0; k < 3; k++ {
			i := r.Intn(total)
			lo := (i / perPkg) * perPkg
			back[i] = lo + r.Intn(perPkg)
		}
	}
	for i := range fns {
		m := map[int]bool{}
		visited := map[int]bool{}
		var walk func(j int)
		walk = func(j int) {
			if visited[j] {
				return
			}
			visited[j] = true
			for _, c := range fns[j].changes {
				m[c] = true
			}
			for _, c := range fns[j].calls {
				walk(c)
			}
			if b, ok := back[j]; ok {
				walk(b)
			}
		}
		walk(i)
		reachOf[i] = m
	}
	// function i may also be reached by something that reaches the change: caller i's tests' targets need node reach
	nodeReach := func(i int) map[int]bool {
		visited := map[int]bool{}
		var walk func(j int)
		walk = func(j int) {
			if visited[j] {
				return
			}
			visited[j] = true
			for _, c := range fns[j].calls {
				walk(c)
			}
			if b, ok := back[j]; ok {
				walk(b)
			}
		}
		walk(i)
		return visited
	}
	name := func(f *fn) string { return fmt.Sprintf("F%d", f.idx) }
	for pk := 0; pk < nPkg; pk++ {
		var body strings.Builder
		imports := map[string]bool{}
		expr := func(from int, f *fn) string { // callable expression of type func(dep.N) dep.N
			q := ""
			if f.pkg != from {
				q = fmt.Sprintf("p%d.", f.pkg)
				imports[fmt.Sprintf("example.com/proj/p%d", f.pkg)] = true
			}
			switch f.kind {
			case 1:
				return fmt.Sprintf("(&%sT%d{}).%s", q, f.idx, name(f))
			case 2:
				return fmt.Sprintf("(%sT%d{}).%s", q, f.idx, name(f))
			case 3:
				return fmt.Sprintf("%s%s[dep.N]", q, name(f))
			}
			return q + name(f)
		}
		for _, f := range fns[pk*perPkg : (pk+1)*perPkg] {
			if f.kind == 1 || f.kind == 2 {
				fmt.Fprintf(&body, "type T%d struct{}\n", f.idx)
			}
			switch f.kind {
			case 1:
				fmt.Fprintf(&body, "func (*T%d) %s(n dep.N) dep.N {\n", f.idx, name(f))
			case 2:
				fmt.Fprintf(&body, "func (T%d) %s(n dep.N) dep.N {\n", f.idx, name(f))
			case 3:
				fmt.Fprintf(&body, "func %s[X any](n X) X {\n", name(f))
			default:
				fmt.Fprintf(&body, "func %s(n dep.N) dep.N {\n", name(f))
			}
			call := func(e string, form int) {
				if static {
					form = 0
				}
				switch form {
				case 0:
					fmt.Fprintf(&body, "\t%s(1)\n", e)
				case 1:
					fmt.Fprintf(&body, "\tfunc() { defer %s(1) }()\n", e)
				case 2:
					fmt.Fprintf(&body, "\t{\n\t\tc := make(chan dep.N)\n\t\tgo func() { c <- %s(1) }()\n\t\t<-c\n\t}\n", e)
				case 3:
					fmt.Fprintf(&body, "\t{\n\t\tf := %s\n\t\tapply(f)\n\t}\n", e)
				case 4:
					fmt.Fprintf(&body, "\t{\n\t\tvar c caller = fnCaller(%s)\n\t\tc.call()\n\t}\n", e)
				case 5:
					fmt.Fprintf(&body, "\tfor _, f := range map[string]func(dep.N) dep.N{\"a\": %s} {\n\t\tfunc(g func(dep.N) dep.N) { g(2) }(f)\n\t}\n", e)
				}
			}
			for _, c := range f.calls {
				call(expr(pk, fns[c]), r.Intn(6))
			}
			for _, c := range f.changes {
				e := fmt.Sprintf("dep.C%d", c)
				if !static && c%3 == 1 {
					e = fmt.Sprintf("dep.M%d{}.C%d", c, c)
				} else if !static && c%3 == 2 {
					e += "[dep.N]"
				}
				call(e, r.Intn(6))
			}
			if b, ok := back[f.idx]; ok {
				fmt.Fprintf(&body, "\tif never {\n\t\t%s(1)\n\t}\n", expr(pk, fns[b]))
			}
			body.WriteString("\treturn n\n}\n\n")
			if static {
				var l []string
				for c := range reachOf[f.idx] {
					l = append(l, fmt.Sprintf("C%d", c))
				}
				p.exact[fmt.Sprintf("p%d|%s", pk, name(f))] = l
			}
		}
		var head strings.Builder
		fmt.Fprintf(&head, "package p%d\n\n", pk)
		head.WriteString("import \"example.com/dep\"\n")
		var imp []string
		for k := range imports {
			imp = append(imp, k)
		}
		sort.Strings(imp)
		for _, k := range imp {
			fmt.Fprintf(&head, "import \"%s\"\n", k)
		}
		head.WriteString("\nvar never bool\n\n")
		if !static {
			head.WriteString("type caller interface{ call() dep.N }\ntype fnCaller func(dep.N) dep.N\n\nfunc (f fnCaller) call() dep.N { return f(1) }\nfunc apply(f func(dep.N) dep.N) dep.N { return f(1) }\n\n")
		}
		p.files[fmt.Sprintf("p%d/p.go", pk)] = head.String() + body.String()
		var tb strings.Builder
		fmt.Fprintf(&tb, "package p%d\n\nimport (\n\t\"testing\"\n\n\t\"example.com/dep\"\n)\n\nvar _ dep.N\n\n", pk)
		for _, f := range fns[pk*perPkg : (pk+1)*perPkg] {
			if r.Intn(2) == 0 {
				fmt.Fprintf(&tb, "func Test%s(t *testing.T) { %s(1) }\n", name(f), expr(pk, f))
				if static {
					var l []string
					for j := range nodeReach(f.idx) {
						if len(reachOf[j]) > 0 {
							l = append(l, name(fns[j]))
						}
					}
					p.exactT[fmt.Sprintf("p%d|Test%s", pk, name(f))] = l
				}
			}
		}
		fmt.Fprintf(&tb, "func TestNone(t *testing.T) {}\n")
		p.files[fmt.Sprintf("p%d/p_test.go", pk)] = tb.String()
		p.pkgs = append(p.pkgs, fmt.Sprintf("p%d", pk))
	}
	return p
}

// work14 is a workspace of two modules, the second in a directory whose name extends the first one's.
func work14() *program14 {
	p := &program14{name: "workspace", w: e2eNewWorld("c14work")}
	p.depFiles = map[string]string{"go.mod": "module example.com/dep\n\ngo 1.24\n", "dep.go": static14("dep.go.txt")}
	p.files = map[string]string{
		"go.work":         "go 1.24\n\nuse (\n\t./mod\n\t./mod2\n)\n",
		"mod/go.mod":      "module example.com/mod\n\ngo 1.24\n\nrequire example.com/dep v1.0.0\n",
		"mod/m.go":        "package mod\n\nimport \"example.com/dep\"\n\nfunc Use() int { return dep.InWork() }\n",
		"mod/m_test.go":   "package mod\n\nimport \"testing\"\n\nfunc TestUse(t *testing.T) { Use() }\n",
		"mod2/go.mod":     "module example.com/mod2\n\ngo 1.24\n\nrequire (\n\texample.com/dep v1.0.0\n\texample.com/mod v0.0.0\n)\n\nreplace example.com/mod => ../mod\n",
		"mod2/m.go":       "package mod2\n\nimport \"example.com/mod\"\n\ntype S struct{}\n\nfunc (s *S) Deep() int { return mod.Use() }\n",
		"mod2/m_test.go":  "package mod2\n\nimport \"testing\"\n\nfunc TestDeep(t *testing.T) { (&S{}).Deep() }\n",
		"mod2/x_test.go":  "package mod2_test\n\nimport (\n\t\"testing\"\n\n\t\"example.com/mod2\"\n)\n\nfunc TestDeep(t *testing.T) { f := (*mod2.S).Deep; f(&mod2.S{}) }\n",
	}
	delete(p.files, "mod2/x_test.go") // one name, two packages of a directory: go test would refuse to tell them apart
	p.files["mod2/x_test.go"] = "package mod2_test\n\nimport (\n\t\"testing\"\n\n\t\"example.com/mod2\"\n)\n\nfunc TestDeepX(t *testing.T) { f := (*mod2.S).Deep; f(&mod2.S{}) }\n"
	p.pkgs = []string{"mod", "mod2"}
	return p
}

func vMain(t *testing.T) {
	vQuiet()
	v := vNew("a stack is counted by the changed function and the set of project functions on it")
	v.assumptions = []string{"code reached only by reflection, linkname, cgo or package initialisation is not judged",
		"a project function is one declared in a file that is neither a test nor generated; a program's main and init are not"}
	if err := e2ePrepare(); err != nil {
		v.unsure("%v", err)
		v.finish(1)
		return
	}
	r := v.rng("programs")
	progs := []*program14{catalog14(), work14()}
	for i := 0; i < v.n(3, 60); i++ {
		progs = append(progs, random14(r, i, false))
	}
	for i := 0; i < v.n(3, 60); i++ {
		progs = append(progs, random14(r, i, true))
	}
	// the analysed environment: the module proxy of each world is found through the process environment
	for _, p := range progs {
		p.w.cache = e2eTemplate
		for _, kv := range p.w.env() {
			k, val, _ := strings.Cut(kv, "=")
			if k == "GOPROXY" || k == "GOCACHE" || k == "GOFLAGS" {
				_ = os.Setenv(k, val)
			}
		}
		p.run(v)
		p.w.close()
	}
	v.finish(v.n(100, 500))
}
