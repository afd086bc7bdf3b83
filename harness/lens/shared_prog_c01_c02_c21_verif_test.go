package lens

// Programs for C01 and C02: a hand-written catalog of function shapes (harness/prog) and random programs, instrumented
// with the real ASTModifier the way the analysis does, built with the real compiler and run.

import (
	"bytes"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

type pSite struct {
	results []string // per result: the identifier returned, or ""
	pure    bool     // evaluating the results changes nothing
}

type pFn struct {
	file, pkgPath, ident, name, rt string // rt: name in stack traces
	module, retPanic, hasDefer     bool
	named, recovers                bool
	escape                         map[string]bool // variables something else may change
	results                        int
	sites                          []pSite
	state, panicP, entry           []uint32
}

type prog struct {
	name, gov string
	files     map[string]string // relative path -> source
	fns       []*pFn
	dir       string
	conc      bool
}

func progRead(name string) string {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_HOME"), "harness/prog", name))
	if err != nil {
		panic(err)
	}
	return string(b)
}

var progDrive = regexp.MustCompile(`(?m)^//(drive|do): (.*)$`)
var progDriveFmt = regexp.MustCompile(`(?m)^//(drive|do): .*\bfmt\.`)
var progDriveErrors = regexp.MustCompile(`(?m)^//(drive|do): .*\berrors\.`)
var progCall = regexp.MustCompile(`^[\w.]+`)

// progCatalog makes a program of one catalog file; drivers come from its comments.
func progCatalog(name, gov, src string, extra map[string]string) *prog {
	p := &prog{name: name, gov: gov, files: map[string]string{}}
	var d strings.Builder
	d.WriteString("package p\n\nimport \"example.com/prog/tr\"\n")
	if strings.Contains(src, "prog/m\"") {
		d.WriteString("import \"example.com/prog/m\"\n")
	}
	if progDriveFmt.MatchString(src) {
		d.WriteString("import \"fmt\"\n")
	}
	if progDriveErrors.MatchString(src) {
		d.WriteString("import \"errors\"\n")
	}
	d.WriteString("\n// Drive runs the cases.\nfunc Drive() {\n")
	for i, mm := range progDrive.FindAllStringSubmatch(src, -1) {
		stmt := mm[2]
		if mm[1] == "drive" {
			call, rest, _ := strings.Cut(stmt, "; ")
			fn := progCall.FindString(call)
			stmt = fmt.Sprintf("tr.Ret(%q)(%s)", fn, call)
			if rest != "" {
				stmt += "; " + rest
			}
		}
		fmt.Fprintf(&d, "\ttr.Case(%q, func() { %s })\n", fmt.Sprintf("%d %s", i, vShort(mm[2], 50)), stmt)
	}
	d.WriteString("}\n")
	p.files["p/f.go"] = src
	p.files["p/drive.go"] = d.String()
	for k, v := range extra {
		p.files[k] = v
	}
	p.common()
	return p
}

func (p *prog) common() {
	p.files["go.mod"] = "module example.com/prog\n\ngo " + p.gov + "\n"
	p.files["tr/tr.go"] = progRead("tr.go.txt")
	if p.files["main.go"] == "" {
		p.files["main.go"] = "package main\n\nimport \"example.com/prog/p\"\n\nfunc main() { p.Drive() }\n"
	}
}

func progAll(v *vRun, random int) []*prog {
	var l []*prog
	old := progRead("cat_old.go.txt")
	oldm := map[string]string{"m/m.go": progRead("cat_oldm.go.txt")}
	for _, gov := range []string{"1.13", "1.17", "1.21", "1.25"} {
		l = append(l, progCatalog("old-"+gov, gov, old, oldm))
	}
	crlf := progCatalog("old-crlf", "1.20", old, oldm)
	crlf.files["p/f.go"] = strings.ReplaceAll(old, "\n", "\r\n")
	l = append(l, crlf)
	for _, gov := range []string{"1.23", "1.25"} {
		l = append(l, progCatalog("new-"+gov, gov, progRead("cat_new.go.txt"), map[string]string{"p/data.txt": "embedded data\n"}))
	}
	l = append(l, progCatalog("shadow", "1.24", progRead("cat_shadow.go.txt"), nil))
	l = append(l, progCatalog("clash", "1.22", progRead("cat_clash.go.txt"), nil))
	for i := 0; i < random; i++ {
		l = append(l, progRandom(v.rng(fmt.Sprintf("prog%d", i)), i))
	}
	return l
}

// progRT is the name of a function in stack traces.
func progRT(pkgPath string, d *ast.FuncDecl) string {
	name := d.Name.Name
	if d.Recv == nil {
		if d.Type.TypeParams != nil {
			name += "[...]"
		}
		return pkgPath + "." + name
	}
	t := d.Recv.List[0].Type
	star, generic := false, false
	if s, ok := t.(*ast.StarExpr); ok {
		star, t = true, s.X
	}
	switch x := t.(type) {
	case *ast.IndexExpr:
		generic, t = true, x.X
	case *ast.IndexListExpr:
		generic, t = true, x.X
	}
	n := t.(*ast.Ident).Name
	if generic {
		n += "[...]"
	}
	if star {
		n = "(*" + n + ")"
	}
	return pkgPath + "." + n + "." + name
}

// progPrepare finds the functions to monitor; with annotate, ground truth records are put into the sources.
func (p *prog) prepare(annotate bool) error {
	pkgs := map[string][]string{}
	for f := range p.files {
		if strings.HasSuffix(f, ".go") && !strings.HasPrefix(f, "tr/") && f != "main.go" {
			pkgs[filepath.Dir(f)] = append(pkgs[filepath.Dir(f)], f)
		}
	}
	for dir, names := range pkgs {
		sort.Strings(names)
		fset := token.NewFileSet()
		var files []*ast.File
		for _, n := range names {
			f, err := parser.ParseFile(fset, n, p.files[n], parser.ParseComments)
			if err != nil {
				return err
			}
			files = append(files, f)
		}
		info := &types.Info{Scopes: map[ast.Node]*types.Scope{}, Defs: map[*ast.Ident]types.Object{}}
		cfg := types.Config{Importer: progNoImport{}, Error: func(error) {}}
		pkg, _ := cfg.Check("example.com/prog/"+dir, fset, files, info)
		for i, f := range files {
			if strings.HasSuffix(names[i], "drive.go") {
				continue
			}
			src := []byte(p.files[names[i]])
			type ins struct {
				off  int
				text string
			}
			var edits []ins
			off := func(pos token.Pos) int { return fset.Position(pos).Offset }
			for _, dd := range f.Decls {
				d, ok := dd.(*ast.FuncDecl)
				if !ok || d.Body == nil || d.Name.Name == "init" || d.Name.Name == "_" {
					continue
				}
				if d.Doc != nil && strings.Contains(d.Doc.List[len(d.Doc.List)-1].Text, "unmonitored") {
					continue
				}
				pkgPath := "example.com/prog/" + dir
				fn := &pFn{file: names[i], pkgPath: pkgPath, ident: MakeFunctionIdent(pkgPath, d), name: d.Name.Name,
					rt: progRT(pkgPath, d), module: dir == "m"}
				_, _, fn.retPanic = AnalyzeASTFunctionReturnPoints(fset, d)
				if d.Type.Results != nil {
					fn.results = d.Type.Results.NumFields()
				}
				var named []string
				if fn.results > 0 {
					for _, fl := range d.Type.Results.List {
						for _, id := range fl.Names {
							named = append(named, id.Name)
						}
					}
				}
				fn.named = len(named) > 0
				fn.escape = map[string]bool{}
				lits := 0
				var stack []ast.Node
				ast.Inspect(d.Body, func(n ast.Node) bool {
					if n == nil {
						if _, ok := stack[len(stack)-1].(*ast.FuncLit); ok {
							lits--
						}
						stack = stack[:len(stack)-1]
						return true
					}
					stack = append(stack, n)
					switch x := n.(type) {
					case *ast.FuncLit:
						lits++
					case *ast.Ident:
						if lits > 0 {
							fn.escape[x.Name] = true
						}
						fn.recovers = fn.recovers || x.Name == "recover"
					case *ast.DeferStmt:
						if _, ok := x.Call.Fun.(*ast.FuncLit); !ok {
							fn.recovers = true
						}
					case *ast.UnaryExpr:
						if id, ok := x.X.(*ast.Ident); ok && x.Op == token.AND {
							fn.escape[id.Name] = true
						}
					case *ast.SelectorExpr:
						if id, ok := x.X.(*ast.Ident); ok {
							fn.escape[id.Name] = true
						}
					}
					return true
				})
				edits = append(edits, ins{off(d.Body.Lbrace) + 1, fmt.Sprintf(" tr.Enter(%q);", fn.ident)})
				vars := func(pos token.Pos) string {
					var b strings.Builder
					seen := map[string]bool{}
					for s := pkg.Scope().Innermost(pos); s != nil && s != pkg.Scope() && s.Parent() != pkg.Scope(); s = s.Parent() {
						for _, n := range s.Names() {
							o := s.Lookup(n)
							_, isVar := o.(*types.Var)
							if n == "_" || seen[n] || o.Pos() >= pos && isLocal(s, o, d) {
								continue
							}
							if o.Pos() < pos || !isLocal(s, o, d) {
								seen[n] = true
							}
							if isVar && !isRecv(d, n, o) {
								fmt.Fprintf(&b, ", %q, %s", n, n)
							}
						}
					}
					return b.String()
				}
				var walk func(n ast.Node) bool
				walk = func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.FuncLit:
						return false
					case *ast.DeferStmt:
						fn.hasDefer = true
					case *ast.ReturnStmt:
						s := pSite{pure: true}
						for _, e := range x.Results {
							ast.Inspect(e, func(n ast.Node) bool {
								switch n := n.(type) {
								case *ast.CallExpr, *ast.FuncLit:
									s.pure = false
								case *ast.UnaryExpr:
									s.pure = s.pure && n.Op != token.ARROW
								}
								return true
							})
						}
						for _, e := range x.Results {
							for {
								pe, ok := e.(*ast.ParenExpr)
								if !ok {
									break
								}
								e = pe.X
							}
							if id, ok := e.(*ast.Ident); ok {
								s.results = append(s.results, id.Name)
							} else {
								s.results = append(s.results, "")
							}
						}
						if len(x.Results) == 0 {
							s.results = named
						}
						if len(x.Results) == 1 && fn.results > 1 {
							s.results = make([]string, fn.results)
						}
						edits = append(edits, ins{off(x.Pos()), fmt.Sprintf("tr.Pre(%q, %d%s); ", fn.ident, len(fn.sites), vars(x.Pos()))})
						fn.sites = append(fn.sites, s)
					}
					return true
				}
				ast.Inspect(d.Body, walk)
				if fn.results == 0 {
					edits = append(edits, ins{off(d.Body.Rbrace), fmt.Sprintf("\ntr.Pre(%q, %d%s)\n", fn.ident, len(fn.sites), vars(d.Body.Rbrace))})
					fn.sites = append(fn.sites, pSite{pure: true})
				}
				p.fns = append(p.fns, fn)
			}
			if annotate {
				sort.SliceStable(edits, func(a, b int) bool { return edits[a].off < edits[b].off })
				var b bytes.Buffer
				last := 0
				for _, e := range edits {
					b.Write(src[last:e.off])
					b.WriteString(e.text)
					last = e.off
				}
				b.Write(src[last:])
				p.files[names[i]] = b.String()
			}
		}
	}
	sort.Slice(p.fns, func(a, b int) bool {
		if p.fns[a].file != p.fns[b].file {
			return p.fns[a].file < p.fns[b].file
		}
		return p.fns[a].ident < p.fns[b].ident
	})
	return nil
}

func isLocal(s *types.Scope, o types.Object, d *ast.FuncDecl) bool { return o.Pos() > d.Body.Pos() }

func isRecv(d *ast.FuncDecl, n string, o types.Object) bool {
	return d.Recv != nil && len(d.Recv.List[0].Names) == 1 && d.Recv.List[0].Names[0].Name == n && o.Pos() == d.Recv.List[0].Names[0].Pos()
}

type progNoImport struct{}

func (progNoImport) Import(path string) (*types.Package, error) {
	return nil, errors.New("not resolved")
}

func (p *prog) write(dir string) {
	p.dir = dir
	vWriteTree(dir, p.files)
}

// instrument does to the program in p.dir what the analysis does to a project and its modules.
func (p *prog) instrument(port int, r *rand.Rand, finish bool) error {
	m := &ASTModifier{}
	byFile := map[string][]*pFn{}
	var files []string
	for _, f := range p.fns {
		if byFile[f.file] == nil {
			files = append(files, f.file)
		}
		byFile[f.file] = append(byFile[f.file], f)
	}
	dirs := map[string]bool{}
	for _, file := range files {
		abs := filepath.Join(p.dir, file)
		dirs[filepath.Dir(abs)] = true
		fns := byFile[file]
		r.Shuffle(len(fns), func(i, j int) { fns[i], fns[j] = fns[j], fns[i] })
		for _, f := range fns {
			fn := &Function{FilePath: abs, PackageName: f.pkgPath, FunctionIdent: f.ident, FunctionName: f.name, ReturnPanic: f.retPanic}
			if f.module {
				id, err := m.InjectFuncPointEntry(fn)
				if err != nil {
					return fmt.Errorf("entry point of %s: %w", f.ident, err)
				}
				f.entry = append(f.entry, id)
			} else if !f.retPanic {
				ids, err := m.InjectFuncPointReturnStates(fn)
				if err != nil {
					return fmt.Errorf("return points of %s: %w", f.ident, err)
				}
				f.state = ids
			}
			if !f.retPanic {
				id, err := m.InjectFuncPointPanic(fn)
				if err != nil {
					return fmt.Errorf("panic point of %s: %w", f.ident, err)
				}
				f.panicP = append(f.panicP, id)
			}
			if finish && r.Intn(2) == 0 {
				if _, err := m.InjectFuncPointFinish(fn); err != nil {
					return fmt.Errorf("finish point of %s: %w", f.ident, err)
				}
			}
		}
		if err := m.CommitFile(abs); err != nil {
			return fmt.Errorf("commit %s: %w", file, err)
		}
	}
	for d := range dirs {
		if err := m.InjectASTClient(d, port, 10, 200); err != nil {
			return fmt.Errorf("client: %w", err)
		}
	}
	return nil
}

// build compiles the program; the compiler's output is the error.
func (p *prog) build(out string, flags ...string) error {
	args := append([]string{"build"}, flags...)
	cmd := exec.Command("go", append(args, "-o", out, ".")...)
	cmd.Dir = p.dir
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v\n%s", err, vShort(string(b), 3000))
	}
	return nil
}

// progServer starts the real monitoring server on a free port and waits until it answers.
func progServer(h astPointHandler) (int, error) {
	for try := 0; ; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return 0, err
		}
		port := l.Addr().(*net.TCPAddr).Port
		_ = l.Close()
		if _, err = astExecServerStart("127.0.0.1", port, h, 200); err == nil {
			for k := 0; k < 200; k++ {
				if c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port)); err == nil {
					_ = c.Close()
					return port, nil
				}
				time.Sleep(50 * time.Millisecond)
			}
			err = errors.New("server does not accept connections")
		}
		if try == 5 {
			return 0, err
		}
	}
}

type progOut struct {
	stdout, stderr string
	code           int
	hung           bool
}

func progExec(bin string, env ...string) progOut {
	cmd := exec.Command(bin)
	cmd.Env = append(os.Environ(), env...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(2*time.Minute, func() { _ = cmd.Process.Kill() })
	_ = cmd.Wait()
	hung := !t.Stop()
	return progOut{o.String(), e.String(), cmd.ProcessState.ExitCode(), hung}
}

// ---- random programs ----

type pVar struct{ name, typ string }

type pGen struct {
	r       *rand.Rand
	b       *strings.Builder
	n       int // counter for unique numbers
	vars    []pVar
	results []string
	named   []string
	earlier []pSig
	self    string
	depth   int
	budget  int
	gov     string
	loop    int
	labels  []string
	inLit   int
	inner   []pVar // variables at the end of the last block
}

type pSig struct {
	name    string
	results []string
}

var pTypes = []string{"int", "string", "bool", "float64", "error", "interface{}", "*S", "S", "[]int", "E", "I"}

func (g *pGen) num() int { g.n++; return g.n }

// expr makes an expression of a type.
func (g *pGen) expr(t string, d int) string {
	r := g.r
	var cand []string
	hidden := map[string]bool{}
	for i := len(g.vars) - 1; i >= 0; i-- {
		if v := g.vars[i]; v.name != "{" && !hidden[v.name] {
			hidden[v.name] = true
			if v.typ == t {
				cand = append([]string{v.name}, cand...)
			}
		}
	}
	if len(cand) > 0 && r.Intn(3) == 0 {
		return cand[len(cand)-1-r.Intn(min(len(cand), 3))]
	}
	if d < 2 && r.Intn(6) == 0 {
		for _, s := range g.earlier {
			if len(s.results) == 1 && s.results[0] == t && r.Intn(3) == 0 {
				return fmt.Sprintf("%s(%d, %s)", s.name, r.Intn(8), g.expr("string", d+1))
			}
		}
	}
	if d < 2 && r.Intn(8) == 0 {
		return fmt.Sprintf("func() %s { x := %d; _ = x; return %s }()", t, g.num(), g.lit(t))
	}
	switch t {
	case "int":
		switch r.Intn(6) {
		case 0:
			return fmt.Sprintf("tr.I(%s)", g.expr("int", d+1))
		case 1:
			if d < 3 {
				return fmt.Sprintf("%s + %s*2", g.expr("int", d+1), g.expr("int", d+1))
			}
		case 2:
			return fmt.Sprintf("len(%s)", g.expr("string", d+1))
		case 3:
			return "n"
		}
	case "string":
		switch r.Intn(5) {
		case 0:
			return fmt.Sprintf("tr.S(%s)", g.expr("string", d+1))
		case 1:
			if d < 3 {
				return fmt.Sprintf("%s + %s", g.expr("string", d+1), g.lit("string"))
			}
		}
	case "bool":
		switch r.Intn(5) {
		case 0:
			return fmt.Sprintf("tr.B(%s)", g.expr("bool", d+1))
		case 1:
			return fmt.Sprintf("n > %d", r.Intn(7))
		case 2:
			if d < 3 {
				return fmt.Sprintf("(%s && %s)", g.expr("bool", d+1), g.expr("bool", d+1))
			}
		}
	case "error":
		if r.Intn(3) == 0 {
			return fmt.Sprintf("tr.E(%q)", fmt.Sprint("err", g.num()))
		}
	case "interface{}":
		if r.Intn(2) == 0 {
			return fmt.Sprintf("tr.A(%s)", g.expr(vPick(r, "int", "string", "bool"), d+1))
		}
	case "E":
		if r.Intn(2) == 0 {
			return fmt.Sprintf("E(%s)", g.expr("int", d+1))
		}
	case "S":
		if r.Intn(2) == 0 {
			return fmt.Sprintf("S{A: %s, B: %s}", g.expr("int", d+1), g.expr("string", d+1))
		}
	case "*S":
		if r.Intn(2) == 0 {
			return fmt.Sprintf("&S{%s, %s}", g.expr("int", d+1), g.lit("string"))
		}
	case "[]int":
		if r.Intn(2) == 0 {
			return fmt.Sprintf("[]int{%s, %s}", g.expr("int", d+1), g.lit("int"))
		}
	}
	return g.lit(t)
}

func (g *pGen) lit(t string) string {
	r := g.r
	switch t {
	case "int":
		return vPick(r, strconv.Itoa(g.num()), "-3", "1<<5", "'c'", "kInt", "(7)")
	case "string":
		return vPick(r, strconv.Quote(fmt.Sprint("s", g.num())), "kStr", "`raw`", "\"a\" + \"b\"")
	case "bool":
		return vPick(r, "true", "false", "1 < 2")
	case "float64":
		return vPick(r, "2.5", "3", "kInt", "1e3")
	case "error":
		return vPick(r, "nil", "errPkg")
	case "interface{}":
		return vPick(r, "nil", "5", "\"any\"", "kStr", "2.5", "E(3)")
	case "*S":
		return vPick(r, "nil", "&S{}")
	case "S":
		return "S{}"
	case "[]int":
		return vPick(r, "nil", "[]int{}")
	case "E":
		return vPick(r, "4", "E(5)", "kE")
	case "I":
		return vPick(r, "nil", "E(6)")
	}
	panic(t)
}

func (g *pGen) p(format string, a ...any) {
	g.b.WriteString(strings.Repeat("\t", g.depth) + fmt.Sprintf(format, a...))
	if g.r.Intn(12) == 0 {
		g.b.WriteString(vPick(g.r, " // trailing", " /* block */", "\n// own line", "\n"))
	}
	g.b.WriteString("\n")
}

var pNames = []string{"a", "b", "c", "x", "y", "s", "t", "ok", "err2", "v"}

func (g *pGen) declare() {
	r := g.r
	name, t := vPick(r, pNames...), vPick(r, pTypes...)
	e := g.expr(t, 0)
	for _, v := range g.vars[g.scopeStart():] {
		if v.name == name {
			name = fmt.Sprintf("%s_%d", name, g.num())
			break
		}
	}
	if r.Intn(2) == 0 || e == "nil" || true {
		if r.Intn(3) > 0 || t == "interface{}" || t == "error" || t == "I" || t == "E" || t == "float64" || e == "nil" || t == "int" {
			g.p("var %s %s = %s", name, t, e)
		} else {
			g.p("%s := %s", name, e)
		}
	}
	g.p("_ = %s", name)
	g.vars = append(g.vars, pVar{name, t})
}

func (g *pGen) scopeStart() int {
	for i := len(g.vars) - 1; i >= 0; i-- {
		if g.vars[i].name == "{" {
			return i + 1
		}
	}
	return 0
}

func (g *pGen) block(n int, vars ...pVar) {
	save := len(g.vars)
	g.vars = append(g.vars, pVar{"{", ""})
	g.vars = append(g.vars, vars...)
	g.depth++
	g.stmts(n)
	g.depth--
	g.inner = append([]pVar(nil), g.vars...)
	g.vars = g.vars[:save]
}

// shadowed tells whether a parameter or result is hidden by an inner variable.
func (g *pGen) shadowed(name string) bool {
	n := 0
	for _, v := range g.vars {
		if v.name == name {
			n++
		}
	}
	return n > 1
}

func (g *pGen) ret() {
	if g.inLit > 0 {
		g.p("return")
		return
	}
	if len(g.results) == 0 {
		g.p("return")
		return
	}
	shadowed := false
	for _, n := range g.named {
		shadowed = shadowed || g.shadowed(n)
	}
	if len(g.named) > 0 && !shadowed && g.r.Intn(3) == 0 {
		g.p("return")
		return
	}
	if len(g.results) > 1 && g.r.Intn(4) == 0 {
		for _, s := range g.earlier {
			if strings.Join(s.results, ",") == strings.Join(g.results, ",") {
				g.p("return %s(%d, %s)", s.name, g.r.Intn(8), g.expr("string", 1))
				return
			}
		}
	}
	var l []string
	for _, t := range g.results {
		l = append(l, g.expr(t, 0))
	}
	g.p("return %s", strings.Join(l, ", "))
}

func (g *pGen) cond() string {
	return vPick(g.r, fmt.Sprintf("n == %d", g.r.Intn(8)), fmt.Sprintf("n > %d", g.r.Intn(7)), g.expr("bool", 1))
}

func (g *pGen) stmts(n int) {
	for i := 0; i < n; i++ {
		g.stmt()
	}
}

func (g *pGen) exit() {
	if g.r.Intn(3) > 0 {
		g.p("if n == %d {", g.r.Intn(8))
		g.depth++
		g.ret()
		g.depth--
		g.p("}")
		return
	}
	g.ret()
}

func (g *pGen) stmt() {
	r := g.r
	g.budget--
	if g.budget < 0 || g.depth > 5 {
		g.declare()
		return
	}
	sub := func() int { return 1 + r.Intn(3) }
	switch r.Intn(22) {
	case 0, 1, 2:
		g.declare()
	case 3:
		g.p("tr.P(%s)", g.expr(vPick(r, "int", "string", "bool"), 0))
	case 4, 5:
		g.p("if %s {", g.cond())
		g.block(sub())
		g.exitIn()
		for k := r.Intn(4); k > 0; k-- {
			if r.Intn(2) == 0 {
				g.p("} else if q := int(%s); q > %d {", g.expr("int", 1), r.Intn(9))
				g.block(sub(), pVar{"q", "int"})
			} else {
				g.p("} else if %s {", g.cond())
				g.block(sub())
			}
			g.exitIn()
		}
		if r.Intn(2) == 0 {
			g.p("} else {")
			g.block(sub())
			g.exitIn()
		}
		g.p("}")
	case 6:
		label := ""
		if r.Intn(3) == 0 {
			label = fmt.Sprintf("L%d", g.num())
			g.p("%s:", label)
		}
		k := g.num()
		g.p("for i%d := 0; i%d < %d; i%d++ {", k, k, 1+r.Intn(3), k)
		g.block(sub(), pVar{fmt.Sprintf("i%d", k), "int"})
		if label != "" {
			g.p("if n == %d { %s %s }", r.Intn(8), vPick(r, "break", "continue"), label)
			if r.Intn(2) == 0 {
				g.exitIn()
			}
			g.p("if n == 99 { continue %s }", label)
		}
		g.exitIn()
		g.p("}")
	case 7:
		g.p("for k, e := range []string{\"p\", %s} {", g.expr("string", 1))
		g.block(sub(), pVar{"k", "int"}, pVar{"e", "string"})
		g.p("_, _ = k, e")
		g.exitIn()
		g.p("}")
	case 8:
		if g.gov >= "1.22" && r.Intn(2) == 0 {
			g.p("for j := range 2 {")
			g.block(sub(), pVar{"j", "int"})
			g.p("_ = j")
			g.exitIn()
			g.p("}")
		} else if g.gov >= "1.23" {
			g.p("for j := range seq(3) {")
			g.block(sub(), pVar{"j", "int"})
			g.p("_ = j")
			g.exitIn()
			g.p("}")
		}
	case 9, 10:
		if r.Intn(2) == 0 {
			g.p("switch w := int(%s); {", g.expr("int", 1))
			for k := 0; k < 1+r.Intn(3); k++ {
				g.p("case %s || w == %d:", g.cond(), r.Intn(5))
				g.block(sub(), pVar{"w", "int"})
				g.exitIn()
				if r.Intn(4) == 0 {
					g.p("fallthrough")
					g.p("case n == %d:", 20+g.num())
				}
			}
		} else {
			g.p("switch n {")
			for k := 0; k < 1+r.Intn(3); k++ {
				g.p("case %d, %d:", k*2, k*2+1)
				g.block(sub())
				g.exitIn()
			}
		}
		if r.Intn(2) == 0 {
			g.p("default:")
			g.block(sub())
			g.exitIn()
		}
		g.p("}")
	case 11:
		g.p("switch z := interface{}(%s).(type) {", g.expr(vPick(r, "int", "string", "*S", "interface{}", "error"), 1))
		for _, c := range []string{"int", "string", "nil, bool", "error"} {
			if r.Intn(2) == 0 {
				g.p("case %s:", c)
				t := c
				if c == "nil, bool" {
					t = "interface{}"
				}
				g.block(sub(), pVar{"z", t})
				g.exitIn()
			}
		}
		g.p("default:")
		g.p("_ = z")
		if r.Intn(2) == 0 {
			g.exit()
		}
		g.p("}")
	case 12:
		k := g.num()
		g.p("ch%d := make(chan int, 1)", k)
		g.p("if n > %d { ch%d <- %s }", r.Intn(7), k, g.expr("int", 1))
		g.p("select {")
		g.p("case %s := <-ch%d:", "w", k)
		g.p("_ = w")
		g.block(sub(), pVar{"w", "int"})
		g.exitIn()
		g.p("default:")
		g.block(sub())
		g.exitIn()
		g.p("}")
	case 13:
		g.p("{")
		g.block(sub())
		g.exitIn()
		g.p("}")
	case 14:
		g.p("defer tr.P(%s)", g.expr(vPick(r, "int", "string"), 1))
	case 15:
		if len(g.named) > 0 && g.results[0] == "int" && g.inLit == 0 && !g.shadowed(g.named[0]) {
			g.p("defer func() { %s += %d }()", g.named[0], g.num())
		} else {
			g.p("defer func() { tr.P(%d) }()", g.num())
		}
	case 16:
		g.p("func() {")
		save := g.vars
		g.inLit++
		g.block(sub())
		g.p("if n == %d { return }", r.Intn(8))
		g.inLit--
		g.vars = save
		g.p("}()")
	case 17:
		if len(g.earlier) > 0 {
			s := g.earlier[r.Intn(len(g.earlier))]
			call := fmt.Sprintf("%s(%d, %s)", s.name, r.Intn(8), g.expr("string", 1))
			if len(s.results) == 0 {
				g.p("%s", call)
			} else if r.Intn(2) == 0 {
				g.p("tr.Ret(%q)(%s)", s.name, call)
			} else {
				var l []string
				for range s.results {
					l = append(l, fmt.Sprintf("r%d", g.num()))
				}
				g.p("%s := %s", strings.Join(l, ", "), call)
				for i, n := range l {
					g.p("_ = %s", n)
					g.vars = append(g.vars, pVar{n, s.results[i]})
				}
			}
		}
	case 18:
		if r.Intn(3) == 0 {
			g.p("if n == %d { panic(%s) }", r.Intn(8), vPick(r, strconv.Quote(fmt.Sprint("panic", g.num())), "errPkg", "S{1, \"p\"}", "fmt.Sprint(n)"))
		}
	case 19:
		if r.Intn(3) == 0 && g.inLit == 0 {
			g.p("defer func() {")
			g.p("if r := recover(); r != nil {")
			g.p("tr.Caught(r)")
			g.p("}")
			g.p("}()")
		}
	case 20:
		if len(g.named) > 0 && g.inLit == 0 {
			i := r.Intn(len(g.named))
			if !g.shadowed(g.named[i]) {
				g.p("%s = %s", g.named[i], g.expr(g.results[i], 0))
			}
		}
	case 21:
		g.exit2()
	}
}

// exitIn possibly ends the block just generated.
func (g *pGen) exitIn() {
	outer := g.vars
	g.vars = g.inner
	defer func() { g.vars = outer }()
	g.depth++
	switch g.r.Intn(4) {
	case 0:
		g.retOuter()
	case 1:
		g.p("if n == %d {", g.r.Intn(8))
		g.retOuter()
		g.p("}")
	}
	g.depth--
}

// retOuter returns with variables of the enclosing scope only (the block's own variables are closed in the generator).
func (g *pGen) retOuter() { g.ret() }

func (g *pGen) exit2() {
	g.p("if n == %d {", g.r.Intn(8))
	g.depth++
	g.ret()
	g.depth--
	g.p("}")
}

const pPrelude = `type S struct {
	A int
	B string
}

type E int

type I interface{ M(x int) int }

func (e E) M(x int) int { return int(e) + x }

const (
	kInt    = 12
	kStr    = "const"
	kE   E  = 8
)

var errPkg = errors.New("package error")
`

func progRandom(r *rand.Rand, idx int) *prog {
	p := &prog{name: fmt.Sprintf("random%d", idx), gov: vPick(r, "1.18", "1.21", "1.22", "1.23", "1.25"), files: map[string]string{}}
	var drive strings.Builder
	drive.WriteString("package p\n\nimport \"example.com/prog/tr\"\n\nfunc Drive() {\n")
	var earlier []pSig
	counter := 0
	nf := 2
	for f := 0; f < nf; f++ {
		var b strings.Builder
		b.WriteString("package p\n\nimport (\n\t\"errors\"\n\t\"fmt\"\n\n\t\"example.com/prog/tr\"\n)\n\nvar _ = errors.New\nvar _ = fmt.Sprint\nvar _ = tr.P\n\n")
		if f == 0 {
			b.WriteString(pPrelude)
			if p.gov >= "1.23" {
				b.WriteString("\nfunc seq(k int) func(func(int) bool) {\n\treturn func(yield func(int) bool) {\n\t\tfor i := 0; i < k; i++ {\n\t\t\tif !yield(i) {\n\t\t\t\treturn\n\t\t\t}\n\t\t}\n\t}\n}\n")
			}
		}
		for k := 0; k < 5; k++ {
			name := fmt.Sprintf("G%d%d", f, k)
			g := &pGen{r: r, b: &b, n: counter, earlier: earlier, self: name, depth: 1, budget: 14, gov: p.gov}
			for i := r.Intn(4); i > 0; i-- {
				g.results = append(g.results, vPick(r, pTypes...))
			}
			res := strings.Join(g.results, ", ")
			if len(g.results) > 0 && r.Intn(2) == 0 {
				var l []string
				for i, t := range g.results {
					g.named = append(g.named, fmt.Sprintf("res%d", i))
					if r.Intn(4) == 0 && i > 0 {
						g.named[i] = vPick(r, "a", "x", "v") + fmt.Sprint(i)
					}
					l = append(l, g.named[i]+" "+t)
				}
				res = strings.Join(l, ", ")
			}
			g.vars = []pVar{{"{", ""}, {"n", "int"}, {"str", "string"}}
			for i, n := range g.named {
				g.vars = append(g.vars, pVar{n, g.results[i]})
			}
			recv, call := "", name
			switch r.Intn(4) {
			case 0:
				recv, call = "(z0 S) ", "(S{})."+name
			case 1:
				recv, call = "(z0 *S) ", "(&S{3, \"r\"})."+name
			}
			fmt.Fprintf(&b, "\nfunc %s%s(n int, str string) (%s) {\n", recv, name, res)
			g.vars = append(g.vars, pVar{"{", ""})
			g.stmts(3 + r.Intn(5))
			// the first scope marker must stay in place for shadow checks
			if len(g.results) > 0 || r.Intn(3) == 0 {
				g.ret()
			}
			b.WriteString("}\n")
			counter = g.n
			earlier = append(earlier, pSig{call, g.results})
			for n := 0; n < 8; n++ {
				c := fmt.Sprintf("%s(%d, \"arg%d\")", call, n, n)
				if len(g.results) > 0 {
					c = fmt.Sprintf("tr.Ret(%q)(%s)", name, c)
				}
				fmt.Fprintf(&drive, "\ttr.Case(\"%s %d\", func() { %s })\n", name, n, c)
			}
		}
		p.files[fmt.Sprintf("p/f%d.go", f)] = b.String()
	}
	drive.WriteString("}\n")
	p.files["p/drive.go"] = drive.String()
	p.common()
	return p
}

func c02Show(f LensMonitorField) string {
	return vShort(fmt.Sprintf("%s %v %v", f.Type, f.Value, f.Children), 300)
}

// c02Cmp compares a canonical value with a captured field; deep also follows containers.
func c02Cmp(want any, f LensMonitorField, deep bool) string {
	w := want.([]any)
	if s, ok := f.Value.(string); ok && (strings.HasPrefix(s, "<cycle:") || s == "<max-depth>") {
		return ""
	}
	switch w[0] {
	case "nil":
		if f.Value != nil || len(f.Children) > 0 {
			return fmt.Sprintf("nil captured as %s", c02Show(f))
		}
	case "i":
		if got := fmt.Sprint(f.Value); got != w[1] {
			return fmt.Sprintf("%v captured as %s", w[1], c02Show(f))
		}
	case "s":
		s := w[1].(string)
		if got := fmt.Sprint(f.Value); got != s && !(len(s) > 200 && strings.HasPrefix(got, s[:200])) {
			return fmt.Sprintf("%q captured as %s", w[1], c02Show(f))
		}
	case "l":
		if !deep {
			return ""
		}
		var got []string
		switch x := f.Value.(type) {
		case nil:
			for _, c := range f.Children {
				got = append(got, fmt.Sprint(c.Value))
			}
		case []int64:
			for _, e := range x {
				got = append(got, strconv.FormatInt(e, 10))
			}
		case []string:
			got = x
		default:
			return fmt.Sprintf("%v captured as %s", want, c02Show(f))
		}
		if len(got) != len(w)-1 {
			return fmt.Sprintf("%v captured as %s", want, c02Show(f))
		}
		for i, e := range w[1:] {
			if e.([]any)[1] != got[i] {
				return fmt.Sprintf("%v captured as %s", want, c02Show(f))
			}
		}
	case "st":
		if !deep {
			return ""
		}
		m := w[1].(map[string]any)
		if len(m) != len(f.Children) {
			return fmt.Sprintf("%v captured as %s", want, c02Show(f))
		}
		for n, x := range m {
			c := c02Field(f.Children, n)
			if c == nil {
				return fmt.Sprintf("field %s is missing in %s", n, c02Show(f))
			}
			if d := c02Cmp(x, *c, true); d != "" {
				return n + ": " + d
			}
		}
	}
	return ""
}

func c02Field(l []LensMonitorField, name string) *LensMonitorField {
	for i := range l {
		if l[i].Name == name {
			return &l[i]
		}
	}
	return nil
}

func c02Names(l []LensMonitorField) string {
	var s []string
	for _, f := range l {
		s = append(s, f.Name)
	}
	return strings.Join(s, " ")
}

type rec02 struct {
	K     string
	Fn    string
	Site  int
	Names []string
	Vals  []any
	Stack []struct {
		F    string
		File string
		L    int
	}
	Panics int
	Goexit bool
	Go     int
	Text   string
}

func c01Diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		l, r := "<end>", "<end>"
		if i < len(x) {
			l = x[i]
		}
		if i < len(y) {
			r = y[i]
		}
		if l != r {
			from := max(0, i-12)
			return fmt.Sprintf("after\n%s\noriginal:     %s\ninstrumented: %s", strings.Join(x[from:min(i, len(x))], "\n"), l, r)
		}
	}
	return ""
}

func c01Crash(o progOut) string { // the panic that ended the process, without addresses and traces
	for _, l := range strings.Split(o.stderr, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
			l, _, _ = strings.Cut(l, " [recovered")
			return l
		}
	}
	return ""
}

// c01Source adds the source around the first compile error.
func c01Source(p *prog, err error) string {
	s := err.Error()
	for _, l := range strings.Split(s, "\n") {
		var file string
		var line int
		parts := strings.SplitN(l, ":", 3)
		if len(parts) < 3 {
			continue
		}
		file = parts[0]
		if _, e := fmt.Sscan(parts[1], &line); e != nil {
			continue
		}
		b, e := os.ReadFile(filepath.Join(p.dir, file))
		if e != nil {
			continue
		}
		src := strings.Split(string(b), "\n")
		return s + "\n...\n" + strings.Join(src[max(0, line-12):min(len(src), line+3)], "\n")
	}
	return s
}
