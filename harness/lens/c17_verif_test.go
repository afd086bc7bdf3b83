package lens

// C17: pairs of module versions whose edits are known line by line go through the real diff and the real mutation run. The
// tool on the PATH is a stand-in that records what it is given, looks at the marked sources the way go-mutesting does, and
// runs the generated script for planned mutants; the go command the script finds is a second stand-in with planned
// outcomes. A few runs use the real go command, and some the whole analysis tool.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strings"
	"testing"
	"time"
)

// ---- the stand-ins -------------------------------------------------------------------------------------------------

const stub17 = `package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
)

type mutant struct {
	Original, Content, From string
	Go                      goPlan
}
type goPlan struct {
	Out      string
	Exit     int
	TermPPID bool
	Real     bool
}
type plan struct {
	Mutants   []mutant
	Exit      int
	NoSummary bool
	Kill      bool
	NoReport  bool
	Dup       int
	RealGo    string
}
type run struct {
	Exit     int
	Out      string
	Restored string // empty if it was
	Seen     bool   // go test was started
	GoArgs   []string
	GoDir    string
	Content  string // of the original while the tests ran
}
type logT struct {
	Args     []string
	Dir      string
	Gopath   string
	Modcache string
	Files    map[string]string
	Script   string
	Runs     []run
	Killed, Escaped, Skipped, Total int
}

func check(err error) {
	if err != nil {
		fmt.Println("stub:", err)
		os.Exit(99)
	}
}

func state(p string) string {
	b, err := os.ReadFile(p)
	st, err2 := os.Stat(p)
	if err != nil || err2 != nil {
		return fmt.Sprint(err, err2)
	}
	es, _ := os.ReadDir(filepath.Dir(p))
	names := ""
	for _, e := range es {
		names += e.Name() + " "
	}
	return st.Mode().String() + "|" + names + "|" + string(b)
}

func main() {
	dir := os.Getenv("STUB17")
	var p plan
	b, err := os.ReadFile(filepath.Join(dir, "plan.json"))
	check(err)
	check(json.Unmarshal(b, &p))
	if filepath.Base(os.Args[0]) == "go" {
		asGo(dir, p)
		return
	}
	wd, _ := os.Getwd()
	l := logT{Args: os.Args[1:], Dir: wd, Gopath: os.Getenv("GOPATH"), Modcache: os.Getenv("GOMODCACHE"), Files: map[string]string{}}
	script := ""
	for i := 1; i < len(os.Args); i++ {
		switch a := os.Args[i]; {
		case a == "--exec":
			i++
			script = os.Args[i]
		case strings.HasPrefix(a, "--"):
			if a != "--verbose" && a != "--debug" {
				i++
			}
		default:
			if c, err := os.ReadFile(a); err == nil {
				l.Files[a] = string(c)
			} else {
				l.Files[a] = "unreadable: " + err.Error()
			}
		}
	}
	if c, err := os.ReadFile(script); err == nil {
		l.Script = string(c)
	}
	save := func() {
		out, _ := json.Marshal(l)
		check(os.WriteFile(filepath.Join(dir, "log.json"), out, 0o644))
	}
	save()
	for i, m := range p.Mutants {
		mf := filepath.Join(dir, fmt.Sprintf("mutant %d.go", i))
		if m.From != "" { // by name, in what the tool is given
			for f := range l.Files {
				if filepath.Base(f) == m.Original {
					m.Original = f
				}
			}
			c, _ := os.ReadFile(m.Original)
			m.Content = strings.Replace(string(c), m.From, m.Content, 1)
		}
		check(os.WriteFile(mf, []byte(m.Content), 0o644))
		gp, _ := json.Marshal(m.Go)
		check(os.WriteFile(filepath.Join(dir, "go.plan"), gp, 0o644))
		_ = os.Remove(filepath.Join(dir, "go.seen"))
		before := state(m.Original)
		parts := strings.Split(script, " ")
		c := exec.Command(parts[0], parts[1:]...)
		c.Env = append(os.Environ(), "MUTATE_CHANGED="+mf, "MUTATE_DEBUG=false", "MUTATE_ORIGINAL="+m.Original, "MUTATE_PACKAGE="+filepath.Dir(m.Original), "MUTATE_TIMEOUT=5", "MUTATE_VERBOSE=false")
		out, err := c.CombinedOutput()
		r := run{Out: string(out)}
		if ee, ok := err.(*exec.ExitError); ok {
			r.Exit = ee.ExitCode()
		} else if err != nil {
			r.Exit = -2
			r.Out += err.Error()
		}
		if after := state(m.Original); after != before {
			r.Restored = "before: " + before + "\nafter: " + after
		}
		if b, err := os.ReadFile(filepath.Join(dir, "go.seen")); err == nil {
			var g struct {
				Args         []string
				Dir, Content string
			}
			check(json.Unmarshal(b, &g))
			r.Seen, r.GoArgs, r.GoDir, r.Content = true, g.Args, g.Dir, g.Content
		}
		l.Runs = append(l.Runs, r)
		switch r.Exit {
		case 0:
			l.Killed++
			fmt.Printf("PASS %q with checksum %d\n", mf, i)
		case 1:
			l.Escaped++
			fmt.Printf("FAIL %q with checksum %d\n", mf, i)
		case 2:
			l.Skipped++
			fmt.Printf("SKIP %q with checksum %d\n", mf, i)
		default:
			fmt.Printf("UNKOWN exit code for %q with checksum %d\n", mf, i)
		}
		save()
	}
	l.Total = len(p.Mutants)
	save()
	if !p.NoReport {
		check(os.WriteFile("report.json", []byte("{\"stats\":{}}"), 0o644))
	}
	if p.Kill {
		_ = syscall.Kill(os.Getpid(), syscall.SIGKILL)
	}
	if !p.NoSummary {
		s := 0.0
		if l.Total > 0 {
			s = float64(l.Killed) / float64(l.Total)
		}
		fmt.Printf("The mutation score is %f (%d passed, %d failed, %d duplicated, %d skipped, total is %d)\n", s, l.Killed, l.Escaped, p.Dup, l.Skipped, l.Total)
	}
	os.Exit(p.Exit)
}

func asGo(dir string, p plan) {
	if len(os.Args) < 2 || os.Args[1] == "clean" {
		return
	}
	if os.Args[1] != "test" {
		realGo(p)
	}
	var g goPlan
	if b, err := os.ReadFile(filepath.Join(dir, "go.plan")); err == nil {
		check(json.Unmarshal(b, &g))
	}
	wd, _ := os.Getwd()
	c, _ := os.ReadFile(os.Getenv("MUTATE_ORIGINAL"))
	out, _ := json.Marshal(map[string]any{"Args": os.Args[1:], "Dir": wd, "Content": string(c)})
	check(os.WriteFile(filepath.Join(dir, "go.seen"), out, 0o644))
	if g.Real {
		realGo(p)
	}
	fmt.Print(g.Out)
	if g.TermPPID {
		_ = syscall.Kill(parent(), syscall.SIGTERM)
	}
	os.Exit(g.Exit)
}

// parent is the script, which may have started this process through a subshell.
func parent() int {
	pid := os.Getppid()
	for {
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
		if err != nil {
			return pid
		}
		f := strings.Fields(string(b[strings.LastIndexByte(string(b), ')')+1:]))
		var up int
		fmt.Sscan(f[1], &up)
		c, _ := os.ReadFile(fmt.Sprintf("/proc/%d/cmdline", up))
		if !strings.Contains(string(c), "mutationexec") || strings.Contains(string(c), "--exec") {
			return pid
		}
		pid = up
	}
}

func realGo(p plan) {
	c := exec.Command(p.RealGo, os.Args[1:]...)
	c.Stdout, c.Stderr = os.Stdout, os.Stderr
	if err := c.Run(); err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			os.Exit(ee.ExitCode())
		}
		os.Exit(98)
	}
	os.Exit(0)
}
`

type goPlan17 struct {
	Out      string
	Exit     int
	TermPPID bool
	Real     bool
	kind     string
}
type mutant17 struct {
	Original, Content, From string
	Go                      goPlan17
	fn                      *fn17
}
type plan17 struct {
	Mutants   []mutant17
	Exit      int
	NoSummary bool
	Kill      bool
	NoReport  bool
	Dup       int
	RealGo    string
}
type log17 struct {
	Args                            []string
	Dir, Gopath, Modcache, Script   string
	Files                           map[string]string
	Runs                            []run17
	Killed, Escaped, Skipped, Total int
}
type run17 struct {
	Exit          int
	Out, Restored string
	Seen          bool
	GoArgs        []string
	GoDir         string
	Content       string
}

func stubBin17() string {
	dir := filepath.Join(os.Getenv("VERIF_SCRATCH"), "stub17")
	bin := filepath.Join(dir, "bin")
	vWriteTree(dir, map[string]string{"go.mod": "module stub\n\ngo 1.21\n", "main.go": stub17})
	_ = os.MkdirAll(bin, 0o755)
	c := exec.Command("go", "build", "-o", filepath.Join(bin, "go-mutesting"), ".")
	c.Dir = dir
	if out, err := c.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("stub: %v\n%s", err, out))
	}
	if err := os.Link(filepath.Join(bin, "go-mutesting"), filepath.Join(bin, "go")); err != nil && !os.IsExist(err) {
		panic(err)
	}
	return bin
}

// ---- generated functions -------------------------------------------------------------------------------------------

type ln17 struct {
	text   string // without indentation
	key    int    // a literal found nowhere else, 0 if the line has none
	inTok  bool   // starts within a raw string
	tail   bool   // starts within one, and has code after it
	edit   byte   // 0, 'r'eplaced, 'd'eleted
	added  string // a line added after this one
	noEdit bool
}
type fn17 struct {
	recv, name string
	lines      []*ln17 // without signature and closing brace
	sigEdit    bool
	oneLine    bool // the whole function is lines[0]
	noise      bool // the new version has other comments
	ident      string
	file       string
	blocks     bool
}

func (f *fn17) edited() bool {
	if f.sigEdit {
		return true
	}
	for _, l := range f.lines {
		if l.edit != 0 || l.added != "" {
			return true
		}
	}
	return false
}

// marked is whether something which exists before the update was changed.
func (f *fn17) marked() bool {
	if f.sigEdit {
		return true
	}
	for _, l := range f.lines {
		if l.edit != 0 {
			return true
		}
	}
	return false
}

var key17 = 1000000

func k17() int { key17++; return key17 }

func stmt17(r *rand.Rand, f *fn17) {
	add := func(text string, keyed bool, mod ...func(*ln17)) {
		l := &ln17{}
		if keyed {
			l.key = k17()
			text = strings.ReplaceAll(text, "N", fmt.Sprint(l.key))
		} else {
			l.noEdit = true
		}
		l.text = text
		for _, m := range mod {
			m(l)
		}
		f.lines = append(f.lines, l)
	}
	keep := func(l *ln17) { l.noEdit = true }
	in := func(l *ln17) { l.inTok = true }
	tail := func(l *ln17) { l.inTok, l.tail, l.noEdit = true, true, true }
	k := fmt.Sprint(k17())
	switch r.Intn(16) {
	case 0:
		add("x = add(x+N,", true)
		add("\tN,", true)
		add("\tN)", true)
	case 1:
		add("x += N + len(`raw", true, keep)
		add("", false, in)
		add("  // mutator-disable-next-line *", false, in)
		add("  tail "+k+"`)", false, in)
	case 2:
		add("x += N + len(`raw "+k, true, keep)
		add("  tail`) + N", true, tail)
	case 3:
		f.blocks = true
		add("if x > N {", true)
		add("\tx -= N", true)
		add("}", false)
	case 4:
		f.blocks = true
		add("if x > N {", true)
		add("\tx -= N", true)
		add("} else if x == N {", true)
		add("\tx -= N", true)
		add("}", false)
	case 5:
		f.blocks = true
		add("switch x {", false)
		add("case N:", true)
		add("\tx += N", true)
		add("default:", false)
		add("\tx -= N", true)
		add("}", false)
	case 6:
		add("func(k"+k+" int) {", false)
		add("\tx ^= k"+k+" + N", true)
		add("}(N)", true)
	case 7:
		f.blocks = true
		add("for i := N; i < x; i++ {", true)
		add("\tx += N", true)
		add("\tx ^= N", true)
		add("}", false)
	case 8:
		add("x += len(\"// x\") * N", true)
	case 9:
		add("defer func() { x |= N }()", true)
	case 10:
		add("_ = []int{", false)
		f.blocks = true
		add("\tN,", true)
		add("\tN,", true)
		add("}", false)
	case 11:
		add("x += N +", true)
		add("\tN", true)
	case 12:
		add("var v"+k+" int = N", true)
		add("_ = v"+k, false)
	default:
		add(vPick(r, "x += N", "x ^= add(N, 2)", "x -= N % (x | 1)", "_ = map[string]int{\"a\": N}"), true)
	}
}

func gen17(r *rand.Rand, recv, name string) *fn17 {
	f := &fn17{recv: recv, name: name}
	if r.Intn(8) == 0 {
		l := &ln17{key: k17()}
		f.oneLine = true
		l.text = fmt.Sprintf("return x + %d", l.key)
		f.lines = []*ln17{l}
		return f
	}
	for k := 1 + r.Intn(7); k > 0; k-- {
		stmt17(r, f)
	}
	n := k17()
	f.lines = append(f.lines, &ln17{text: fmt.Sprintf("return add(x, %d)", n), key: n})
	return f
}

func (f *fn17) change(r *rand.Rand) {
	if f.oneLine {
		f.lines[0].edit = 'r'
		return
	}
	if r.Intn(12) == 0 {
		f.sigEdit = true
		return
	}
	for n := vPick(r, 1, 1, 1, 2, 3); n > 0; n-- {
		l := f.lines[r.Intn(len(f.lines))]
		switch {
		case r.Intn(4) == 0 && !strings.HasSuffix(l.text, "+") && !l.inTok && !strings.HasPrefix(l.text, "return") && stmtEnd17(f, l):
			k := k17()
			l.added = fmt.Sprintf("x = add(x, %d)", k)
		case l.noEdit || l.edit != 0:
		case r.Intn(3) == 0 && whole17(f, l):
			l.edit = 'd'
		default:
			l.edit = 'r'
		}
	}
}

// whole17: the line is a statement of its own and may go.
func whole17(f *fn17, l *ln17) bool {
	return regexp.MustCompile(`^\t?(x [-+^]= [^+]*[0-9)]|defer .*\(\)|_ = map.*)$`).MatchString(l.text) && stmtEnd17(f, l) && !nextOf17(f, l, "\t")
}

func nextOf17(f *fn17, l *ln17, prefix string) bool {
	i := slices.Index(f.lines, l)
	return i+1 < len(f.lines) && strings.HasPrefix(f.lines[i+1].text, prefix) && !strings.HasPrefix(l.text, prefix)
}

// stmtEnd17: a statement can follow this line.
func stmtEnd17(f *fn17, l *ln17) bool {
	i := slices.Index(f.lines, l)
	if i+1 < len(f.lines) && (f.lines[i+1].inTok || nextOf17(f, l, "\t")) {
		return false
	}
	return regexp.MustCompile(`^\t?(x [-+^]= .*[0-9)]|x = add\(.*\)|defer .*\(\)|_ = map.*|_ = v[0-9]*|\t*[0-9]+\)|\}\([0-9]+\))$`).MatchString(l.text) && !strings.HasSuffix(l.text, "(")
}

func noise17(r *rand.Rand, b *strings.Builder, level int) {
	if level == 0 || r.Intn(6) >= level {
		return
	}
	switch r.Intn(6) {
	case 0:
		b.WriteString("\t// a note\n")
	case 1:
		for k := 2 + r.Intn(4); k > 0; k-- {
			b.WriteString("\t// a longer note\n")
		}
	case 2:
		b.WriteString("\t/* one\n\n   two */\n")
	case 3:
		b.WriteString("\n\n\n")
	case 4:
		b.WriteString("\n")
	case 5:
		b.WriteString("//line other.y:7\n")
	}
}

// render writes one version; def is what the lines of the definition are about ("" where there are no lines of code).
func (f *fn17) render(seed int64, level int, after bool) (string, []string) {
	r := rand.New(rand.NewSource(seed))
	var b strings.Builder
	var def []string
	sig := "func "
	if f.recv != "" {
		sig += "(t " + f.recv + ") "
	}
	sig += f.name + "(x int) "
	if f.sigEdit && after {
		sig += "(res int) {"
	} else {
		sig += "int {"
	}
	if f.oneLine {
		t := f.lines[0].text
		if after && f.lines[0].edit == 'r' {
			t = strings.ReplaceAll(t, fmt.Sprint(f.lines[0].key), fmt.Sprint(f.lines[0].key+5000000))
		}
		return sig + " " + t + " }\n", []string{t}
	}
	b.WriteString(sig + "\n")
	def = append(def, sig)
	for _, l := range f.lines {
		if !l.inTok {
			n := b.Len()
			noise17(r, &b, level)
			if b.Len() != n {
				def = append(def, "")
			}
		}
		t := l.text
		trail := level > 0 && r.Intn(8) == 0
		if !after || l.edit != 'd' {
			if after && l.edit == 'r' {
				t = strings.ReplaceAll(t, fmt.Sprint(l.key), fmt.Sprint(l.key+5000000))
			}
			def = append(def, t)
			if !l.inTok {
				t = "\t" + t
			}
			b.WriteString(t)
			if trail && !strings.Contains(t, "`") && !l.inTok {
				b.WriteString(" // trailing")
			}
			b.WriteString("\n")
		}
		if after && l.added != "" {
			def = append(def, l.added)
			b.WriteString("\t" + l.added + "\n")
		}
	}
	b.WriteString("}\n")
	return b.String(), append(def, "}")
}

// certain17 tells for each old line whether a line difference leaves no doubt about it being unchanged: it lies in a run of
// lines which are next to each other in both versions, longer than any run that may be found twice.
func certain17(old, new []string) map[string]bool {
	pos := map[string]int{}
	for i, s := range new {
		pos[s] = i
	}
	out := map[string]bool{}
	for i := range old {
		for b := i - 3; b <= i; b++ {
			w := [4]int{b, b + 1, b + 2, b + 3}
			if w[0] < 0 || w[3] >= len(old) {
				continue
			}
			j, ok := pos[old[i]]
			ok = ok && old[i] != ""
			for _, q := range w {
				nj := j + q - i
				ok = ok && nj >= 0 && nj < len(new) && new[nj] == old[q]
			}
			if ok {
				out[old[i]] = true
			}
		}
	}
	return out
}

type fileGen17 struct {
	path string // in the module
	pkg  string
	fns  []*fn17
}

type case17 struct {
	base, proj, gopath, modc string
	files                    []*fileGen17
	fns                      map[string]*fn17
	oldDefs, newDefs         map[string][]string
	changes                  []*ModuleFunction
	radius                   int
	level                    int
}

var names17 = []string{"Get", "GetAll", "DoGet", "Set", "set", "Put", "PutIfGet", "Über", "Close", "run", "Run", "Set2"}

func newCase17(v *vRun, r *rand.Rand, i int) *case17 {
	// names that a shell or a regular expression may take for something else
	c := &case17{base: vTempDir("c17"), fns: map[string]*fn17{}, oldDefs: map[string][]string{}, newDefs: map[string][]string{}, radius: r.Intn(2), level: vPick(r, 0, 0, 1, 2, 4)}
	home := filepath.Join(c.base, vPick(r, "home", "home", "my home", "h$HOME`x", "it's", "a*b[c]"))
	c.proj, c.gopath = filepath.Join(home, "proj"), filepath.Join(home, "go")
	c.modc = filepath.Join(c.gopath, "pkg", "mod")
	subs := []string{"", "sub"}
	if r.Intn(2) == 0 {
		subs = append(subs, "sub/two words")
	}
	subs = subs[:2]
	nf := 1 + r.Intn(4)
	for k := 0; k < nf; k++ {
		dir := subs[r.Intn(2)]
		pkg := "dep"
		if dir != "" {
			pkg = "sub"
		}
		fg := &fileGen17{path: filepath.Join(dir, fmt.Sprintf("f%d.go", k)), pkg: pkg}
		used := map[string]bool{}
		n := 1 + r.Intn(6)
		if r.Intn(6) == 0 {
			n = 12
		}
		for j := 0; j < n; j++ {
			recv := vPick(r, "", "", fmt.Sprintf("*T%d", k), fmt.Sprintf("T%d", k))
			name := names17[r.Intn(len(names17))]
			if used[name] {
				continue
			}
			used[name] = true
			if recv == "" {
				name += fmt.Sprint(k) // free functions of one package need different names
			}
			f := gen17(r, recv, name)
			f.ident = "example.com/Dep"
			if dir != "" {
				f.ident += "/" + filepath.ToSlash(dir)
			}
			f.ident += ":"
			if recv != "" {
				f.ident += recv + "."
			}
			f.ident += name
			if r.Intn(2) == 0 {
				f.change(r)
			}
			f.noise = r.Intn(4) == 0
			fg.fns = append(fg.fns, f)
			c.fns[f.ident] = f
		}
		c.files = append(c.files, fg)
	}
	mods := map[bool]string{false: filepath.Join(c.modc, "example.com/!dep@v1.0.0"), true: filepath.Join(c.modc, "example.com/!dep@v1.1.0")}
	for k, fg := range c.files {
		for _, after := range []bool{false, true} {
			var b strings.Builder
			b.WriteString("package " + fg.pkg + "\n\n")
			if k == 0 || c.first(fg) {
				b.WriteString("func add(a ...int) int {\n\tn := 0\n\tfor _, x := range a {\n\t\tn += x\n\t}\n\treturn n\n}\n\n")
			}
			fmt.Fprintf(&b, "type T%d struct{}\n\n", k)
			for j, f := range fg.fns {
				seed := int64(i*1000 + k*100 + j)
				if after && f.noise {
					seed += 500000
				}
				t, def := f.render(seed, c.level, after)
				if c.level > 0 {
					b.WriteString("// " + f.name + " is documented.\n")
				}
				b.WriteString(t + "\n")
				f.file = filepath.Join(mods[false], fg.path)
				if after {
					c.newDefs[f.ident] = def
				} else {
					c.oldDefs[f.ident] = def
				}
			}
			vWriteTree(mods[after], map[string]string{fg.path: b.String()})
		}
	}
	for _, d := range mods {
		vWriteTree(d, map[string]string{"go.mod": "module example.com/Dep\n\ngo 1.21\n"})
	}
	vWriteTree(c.proj, map[string]string{"go.mod": "module example.com/proj\n\ngo 1.21\n\nrequire example.com/Dep v1.0.0\n", "p.go": "package proj\n"})
	by, _, err := AnalyzeModuleChanges(c.modc, false, c.proj, []*ModuleChange{{Name: "example.com/Dep", PriorVersion: "v1.0.0", NewVersion: "v1.1.0"}}, c.radius)
	if err != nil {
		v.violate("C17:diff failed", "the generated module could not be compared: %v", err)
		return c
	}
	c.changes = by["example.com/Dep"]
	sort.Slice(c.changes, func(i, j int) bool { return c.changes[i].FunctionIdent < c.changes[j].FunctionIdent })
	r.Shuffle(len(c.changes), func(i, j int) { c.changes[i], c.changes[j] = c.changes[j], c.changes[i] })
	got, want := map[string]bool{}, map[string]bool{}
	for _, f := range c.changes {
		got[f.FunctionIdent] = true
	}
	for id, f := range c.fns {
		if f.edited() {
			want[id] = true
		}
	}
	if !reflect.DeepEqual(got, want) {
		v.violate("C17:changed functions", "case %d: the functions reported as changed are %v, those edited %v", i, keys17(got), keys17(want))
	}
	return c
}

// first: the file is the first one of its package.
func (c *case17) first(fg *fileGen17) bool {
	for _, o := range c.files {
		if filepath.Dir(o.path) == filepath.Dir(fg.path) {
			return o == fg
		}
	}
	return false
}

func keys17(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- the observed sources ------------------------------------------------------------------------------------------

func toks17(src string) []string {
	var s scanner.Scanner
	fs := token.NewFileSet()
	s.Init(fs.AddFile("", -1, len(src)), []byte(src), func(token.Position, string) {}, 0)
	var out []string
	for {
		_, t, lit := s.Scan()
		if t == token.EOF {
			return out
		}
		if t == token.SEMICOLON {
			lit = ";"
		}
		out = append(out, t.String()+" "+lit)
	}
}

// look17 gives for every function that the tool would select the lines (by key) it may mutate, the way go-mutesting decides.
func look17(src, match string) (selected map[string]bool, mutable map[int]bool, err error) {
	fs := token.NewFileSet()
	af, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	re, err := regexp.Compile(match)
	if err != nil {
		return nil, nil, err
	}
	off := map[int]bool{}
	for _, g := range af.Comments {
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "// mutator-disable-next-line") {
				off[fs.PositionFor(c.End(), false).Line+1] = true
			}
		}
	}
	selected, mutable = map[string]bool{}, map[int]bool{}
	for _, d := range af.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || !re.MatchString(fd.Name.Name) {
			continue
		}
		id := fd.Name.Name
		if fd.Recv != nil {
			t := fd.Recv.List[0].Type
			if st, ok := t.(*ast.StarExpr); ok {
				id = "*" + st.X.(*ast.Ident).Name + "." + id
			} else {
				id = t.(*ast.Ident).Name + "." + id
			}
		}
		selected[id] = true
		ast.Inspect(fd, func(n ast.Node) bool {
			if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.INT && len(l.Value) == 7 {
				var k int
				fmt.Sscan(l.Value, &k)
				mutable[k] = !off[fs.PositionFor(l.Pos(), false).Line]
			}
			return true
		})
	}
	return selected, mutable, nil
}

// ---- one run -------------------------------------------------------------------------------------------------------

type runRes17 struct {
	res      MutationResult
	err      error
	log      *log17
	panicked any
}

// run17 runs the mutation stage with the stand-ins on the PATH.
func (c *case17) run17(v *vRun, bin string, p *plan17, env map[string]string, what string, f func() (MutationResult, error)) (out runRes17) {
	dir := filepath.Join(c.base, "stub")
	_ = os.RemoveAll(dir)
	_ = os.MkdirAll(dir, 0o755)
	p.RealGo = e2eRealGo()
	b, _ := json.Marshal(p)
	if err := os.WriteFile(filepath.Join(dir, "plan.json"), b, 0o644); err != nil {
		panic(err)
	}
	set := map[string]string{"STUB17": dir, "PATH": bin + ":" + os.Getenv("PATH"), "TMPDIR": filepath.Join(c.base, "tmp")}
	for k, x := range env {
		set[k] = x
	}
	_ = os.MkdirAll(set["TMPDIR"], 0o755)
	old := map[string]string{}
	for k, x := range set {
		old[k] = os.Getenv(k)
		_ = os.Setenv(k, x)
	}
	v.guard("C17:run", what, 4*time.Minute, true, func() { out.res, out.err = f() })
	for k, x := range old {
		_ = os.Setenv(k, x)
	}
	if b, err := os.ReadFile(filepath.Join(dir, "log.json")); err == nil {
		out.log = &log17{}
		if err := json.Unmarshal(b, out.log); err != nil {
			panic(err)
		}
	}
	if ents, _ := os.ReadDir(set["TMPDIR"]); len(ents) > 0 {
		v.violate("C17:temp-left", "%s: %s was left in the temporary directory", what, ents[0].Name())
		_ = os.RemoveAll(set["TMPDIR"])
	}
	return out
}

func goTest17(args []string) (run string, hasRun bool, pkgs []string) {
	for i := 1; i < len(args); i++ {
		switch a := args[i]; {
		case a == "-run":
			i++
			run, hasRun = args[i], true
		case strings.HasPrefix(a, "-run="):
			run, hasRun = a[5:], true
		case strings.HasPrefix(a, "-"):
		default:
			pkgs = append(pkgs, a)
		}
	}
	return
}

var goPlans17 = []goPlan17{
	{kind: "alive", Out: "ok  \texample.com/proj\t0.012s\n"},
	{kind: "alive", Out: "ok  \texample.com/proj\t0.012s [no tests to run]\n?   \texample.com/proj/x\t[no test files]\n"},
	{kind: "killed", Exit: 1, Out: "--- FAIL: TestA (0.00s)\n    a_test.go:7: got 3\nFAIL\nFAIL\texample.com/proj\t0.012s\nFAIL\n"},
	{kind: "killed", Exit: 1, Out: "panic: boom\n\ngoroutine 1 [running]:\nFAIL\texample.com/proj\t0.012s\nok  \texample.com/proj/b\t1.2s\nFAIL\n"},
	{kind: "killed", Exit: 1, Out: "# example.com/proj/other\no.go:1:1: undefined: x\nFAIL\texample.com/proj/other [build failed]\nFAIL\texample.com/proj\t0.012s\nFAIL\n"},
	{kind: "skip", Exit: 1, Out: "# example.com/Dep\nf0.go:9:2: declared and not used: y\nFAIL\texample.com/proj [build failed]\nFAIL\n"},
	{kind: "skip", Exit: 1, Out: "# example.com/Dep\nf0.go:9:2: expected operand\nFAIL\texample.com/proj [setup failed]\nok  \texample.com/proj/b\t1.2s\nFAIL\n"},
	{kind: "skip", Exit: 2, Out: "go: something else\n"},
	{kind: "skip", Exit: 137, Out: "signal: killed\n"},
}

func mutation17(v *vRun, bin string) {
	r := v.rng("mutation")
	n := v.n(36, 500)
	for i := 0; i < n; i++ {
		c := newCase17(v, r, i)
		v.observe("module pairs", 1)
		lineScoped, targeted, fast := r.Intn(3) > 0, r.Intn(2) == 0, r.Intn(2) == 0
		// tests and what they reach
		var tests []*TestFunction
		reach := map[string]map[string]bool{} // function -> tests
		perFile := map[string]map[string]bool{}
		testNames := []string{"TestA", "TestAB", "TestB", "TestGet", "TestGetAll", "Test_x", "TestÜ"}
		for _, name := range testNames[:r.Intn(len(testNames)+1)] {
			tf := &TestFunction{Function: Function{FunctionName: name, FunctionIdent: "example.com/proj:" + name, FilePath: filepath.Join(c.proj, "p_test.go")}}
			for k := r.Intn(3); k > 0; k-- {
				cf := &CallerFunction{Function: Function{FunctionName: "caller", FunctionIdent: fmt.Sprintf("example.com/proj:caller%d", k)}}
				for _, ch := range c.changes {
					if r.Intn(4) == 0 {
						cf.ChangeFunctions = append(cf.ChangeFunctions, ch)
						if reach[ch.FunctionIdent] == nil {
							reach[ch.FunctionIdent] = map[string]bool{}
						}
						if perFile[ch.FilePath] == nil {
							perFile[ch.FilePath] = map[string]bool{}
						}
						reach[ch.FunctionIdent][name] = true
						perFile[ch.FilePath][name] = true
					}
				}
				tf.Targets = append(tf.Targets, cf)
			}
			tests = append(tests, tf)
		}
		p := &plan17{Exit: 0}
		how := vPick(r, "ok", "ok", "ok", "ok", "exit", "no summary", "kill", "empty")
		switch how {
		case "exit":
			p.Exit = 1 + r.Intn(3)
			p.NoReport = r.Intn(2) == 0
		case "no summary":
			p.NoSummary = true
		case "kill":
			p.Kill = true
		}
		if r.Intn(4) == 0 {
			p.Dup = r.Intn(4)
		}
		what := fmt.Sprintf("case %d (line scope %v, radius %d, targeted %v, tool %s, noise %d)", i, lineScoped, c.radius, targeted, how, c.level)
		originals := map[string]string{}
		var edited []*fn17
		for _, ch := range c.changes {
			if f := c.fns[ch.FunctionIdent]; f != nil && (f.marked() || !lineScoped) {
				edited = append(edited, f)
			}
		}
		for k := r.Intn(5); k > 0 && len(edited) > 0 && how != "empty"; k-- {
			f := edited[r.Intn(len(edited))]
			b, _ := os.ReadFile(f.file)
			m := mutant17{Original: f.file, Content: fmt.Sprintf("%s\n// mutant %d\n", b, k), fn: f, Go: goPlans17[r.Intn(len(goPlans17))]}
			if r.Intn(10) == 0 {
				m.Go = goPlan17{kind: "terminated", TermPPID: true, Out: "", Exit: 1}
			}
			p.Mutants = append(p.Mutants, m)
		}
		if r.Intn(3) == 0 {
			vWriteTree(c.proj, map[string]string{"report.json": "{\"mine\": true}\n"})
		}
		if r.Intn(3) == 0 { // as a module cache has them
			_ = filepath.Walk(c.modc, func(p string, st os.FileInfo, err error) error {
				if err == nil && st.Mode().IsRegular() {
					_ = os.Chmod(p, 0o444)
				}
				return nil
			})
		}
		for _, fg := range c.files {
			f := filepath.Join(c.modc, "example.com/!dep@v1.0.0", fg.path)
			b, _ := os.ReadFile(f)
			originals[f] = string(b)
		}
		home := filepath.Dir(c.proj)
		before := vTree(home)
		out := c.run17(v, bin, p, nil, what, func() (MutationResult, error) {
			return RunMutationTesting(c.gopath, c.modc, c.proj, fast, lineScoped, targeted, c.changes, tests)
		})
		v.eval()
		if d := vTreeDiff(before, vTree(home)); d != "" {
			v.violate("C17:not restored", "%s: after the run (%v) the trees differ:\n%s", what, out.err, vShort(d, 3000))
		}
		c.judge17(v, what, lineScoped, originals, out)
		wantErr := how == "exit" || how == "no summary" || how == "kill"
		if out.log == nil {
			wantErr = false
		}
		if (out.err != nil) != wantErr {
			v.violate("C17:outcome", "%s: the tool's run was recorded: %v, the error is %v", what, out.log != nil, out.err)
		}
		if out.log != nil {
			l := out.log
			if out.err == nil && (out.res.MutationCount != l.Total || out.res.SquashedCount != l.Killed) {
				v.violate("C17:totals", "%s: reported %+v, of %d mutants %d were killed and %d survived", what, out.res, l.Total, l.Killed, l.Escaped)
			}
			if l.Dir != c.proj || l.Gopath != c.gopath || l.Modcache != c.modc {
				v.violate("C17:environment", "%s: the tool ran in %s with GOPATH %s and GOMODCACHE %s", what, l.Dir, l.Gopath, l.Modcache)
			}
			for k, rn := range l.Runs {
				m := p.Mutants[k]
				v.observe("mutants run", 1)
				v.seen(fmt.Sprintf("mutant:%s/%v/%d", m.Go.kind, targeted, rn.Exit))
				id := fmt.Sprintf("%s, mutant %d of %s (planned %s)", what, k, m.fn.ident, m.Go.kind)
				if rn.Restored != "" {
					v.violate("C17:mutant left", "%s: the source was not put back after the tests:\n%s", id, vShort(rn.Restored, 2000))
				}
				want := perFile[m.fn.file]
				if targeted && len(want) == 0 {
					if rn.Seen || rn.Exit == 0 {
						v.violate("C17:verdict", "%s: no test reaches the file, but tests ran (%v) and the script ended with %d", id, rn.Seen, rn.Exit)
					}
					continue
				}
				if !rn.Seen {
					v.violate("C17:not tested", "%s: no test was run for it: %s", id, vShort(rn.Out, 500))
					continue
				}
				if rn.Content != m.Content {
					v.violate("C17:not the mutant", "%s: the tests saw a different source:\n%s", id, vShort(rn.Content, 500))
				}
				run, has, pkgs := goTest17(rn.GoArgs)
				if rn.GoDir != c.proj || !reflect.DeepEqual(pkgs, []string{"./..."}) {
					v.violate("C17:packages", "%s: tests ran in %s on %q", id, rn.GoDir, pkgs)
				}
				re, err := regexp.Compile(run)
				if err != nil {
					v.violate("C17:tests", "%s: pattern %q: %v", id, run, err)
					continue
				}
				for _, t := range testNames {
					sel := !has || re.MatchString(t)
					switch {
					case !targeted && !sel:
						v.violate("C17:tests", "%s: all tests are to be run, %s is not (-run %q)", id, t, run)
					case targeted && reach[m.fn.ident][t] && !sel:
						v.violate("C17:tests", "%s: %s reaches the function but is not run (-run %q)", id, t, run)
					case targeted && !want[t] && sel:
						v.violate("C17:tests", "%s: %s reaches nothing changed in the file but is run (-run %q)", id, t, run)
					}
				}
				ok := false
				switch m.Go.kind {
				case "alive":
					ok = rn.Exit == 1
				case "killed":
					ok = rn.Exit == 0
				default: // neither
					ok = rn.Exit != 0 && rn.Exit != 1
				}
				if !ok {
					v.violate("C17:verdict", "%s: the script ended with %d after go test ended with %d:\n%s", id, rn.Exit, m.Go.Exit, m.Go.Out)
				}
			}
			if how != "kill" && how != "exit" && len(l.Runs) != len(p.Mutants) {
				v.violate("C17:runs", "%s: %d of %d mutants were run", what, len(l.Runs), len(p.Mutants))
			}
		}
		v.seen(fmt.Sprintf("run:%v/%v/%v/%s/%d/%d", lineScoped, targeted, fast, how, c.radius, c.level))
		_ = exec.Command("chmod", "-R", "u+w", c.base).Run()
		_ = os.RemoveAll(c.base)
	}
}

// judge17 decides which functions and lines the tool was left to mutate.
func (c *case17) judge17(v *vRun, what string, lineScoped bool, originals map[string]string, out runRes17) {
	wantFns := map[string]bool{}
	for id, f := range c.fns {
		if f.edited() && (f.marked() || !lineScoped) {
			wantFns[id] = true
		}
	}
	if lineScoped && c.radius > 0 { // added lines mark their neighbours
		for id, f := range c.fns {
			if f.edited() {
				wantFns[id] = true
			}
		}
	}
	if out.log == nil {
		if len(wantFns) > 0 && out.err == nil {
			v.violate("C17:not run", "%s: changed functions, but the tool was not run", what)
		}
		return
	}
	l := out.log
	match := ""
	for i, a := range l.Args {
		if a == "--match" && i+1 < len(l.Args) {
			match = l.Args[i+1]
		}
	}
	names := map[string]bool{}
	for _, f := range c.fns {
		if f.edited() {
			names[f.name] = true
		}
	}
	selected := map[string]bool{}
	mutable := map[int]bool{}
	for f, src := range l.Files {
		orig, ok := originals[f]
		if !ok {
			v.violate("C17:files", "%s: the tool is given %s, which is no file of the module", what, f)
			continue
		}
		if !reflect.DeepEqual(toks17(orig), toks17(src)) {
			v.violate("C17:code changed", "%s: marking changed the code of %s:\n%s", what, f, vShort(src, 4000))
			continue
		}
		if !lineScoped && orig != src {
			v.violate("C17:marked", "%s: %s was changed although whole functions are in scope", what, f)
		}
		sel, mut, err := look17(src, match)
		if err != nil {
			v.violate("C17:unusable", "%s: %v (match %q)", what, err, match)
			continue
		}
		for id, fn := range c.fns {
			if fn.file == f && sel[id[strings.LastIndex(id, ":")+1:]] {
				selected[id] = true
			}
		}
		for k, m := range mut {
			mutable[k] = m
		}
		if sel["add"] {
			v.violate("C17:unchanged selected", "%s: add is selected in %s, it did not change", what, f)
		}
	}
	for id := range wantFns {
		v.observe("changed functions", 1)
		if !selected[id] {
			v.violate("C17:not selected", "%s: %s changed but is not selected (match %q, %d files)", what, id, match, len(l.Files))
		}
	}
	for id, f := range c.fns {
		if selected[id] && !f.edited() {
			sig := "C17:unchanged selected"
			if names[f.name] {
				sig = "C17:same name selected"
			}
			v.violate(sig, "%s: %s is selected, it did not change (match %q)", what, id, match)
		}
		if !selected[id] || !f.edited() { // what only adds lines may be selected, with all lines excluded
			continue
		}
		sure := certain17(c.oldDefs[id], c.newDefs[id])
		for k, ln := range f.lines {
			if ln.key == 0 {
				continue
			}
			v.observe("lines judged", 1)
			mut := mutable[ln.key]
			if !lineScoped {
				if !mut {
					v.violate("C17:line excluded", "%s: %s line %q may not be mutated although the whole function is in scope", what, id, ln.text)
				}
				continue
			}
			if ln.edit != 0 && !mut {
				v.violate("C17:line excluded", "%s: %s line %q was changed but may not be mutated:\n%s", what, id, ln.text, vShort(l.Files[f.file], 3000))
			}
			if ln.edit != 0 || ln.tail || f.oneLine || !sure[ln.text] {
				continue
			}
			if c.radius > 0 && (near17(f, k) || f.noise) { // a comment counts as a line, too
				continue
			}
			v.observe("unchanged lines judged", 1)
			if !mut {
				continue
			}
			sig := "C17:line in scope"
			if !f.marked() { // not meant to be selected at all
				for _, o := range c.fns {
					if o != f && o.name == f.name && o.marked() {
						sig = "C17:same name selected"
					}
				}
			}
			v.violate(sig, "%s: %s line %q did not change but may be mutated; was %q, is %q:\n%s", what, id, ln.text, c.oldDefs[id], c.newDefs[id], vShort(l.Files[f.file], 3000))
		}
		if lineScoped && c.radius > 0 && c.level == 0 {
			for k, ln := range f.lines {
				if ln.added == "" || ln.edit == 'd' || ln.edit == 'r' {
					continue
				}
				for _, q := range []int{k, k + 1} {
					if q < len(f.lines) && f.lines[q].key != 0 && f.lines[q].edit == 0 && sure[f.lines[q].text] && !mutable[f.lines[q].key] && near1(f, k) {
						v.violate("C17:line excluded", "%s: %s line %q is next to an added one but may not be mutated:\n%s", what, id, f.lines[q].text, vShort(l.Files[f.file], 3000))
					}
				}
			}
		}
	}
}

// near1: the line and the next one have no other edit than the added line.
func near1(f *fn17, k int) bool {
	for q := k - 1; q <= k+2; q++ {
		if q >= 0 && q < len(f.lines) && (f.lines[q].edit != 0 || q != k && f.lines[q].added != "") {
			return false
		}
	}
	return true
}

func near17(f *fn17, k int) bool {
	for q := k - 3; q <= k+3; q++ {
		if q >= 0 && q < len(f.lines) && f.lines[q].added != "" {
			return true
		}
	}
	return f.sigEdit && k < 3
}

// ---- real go command -----------------------------------------------------------------------------------------------

func real17(v *vRun, bin string) {
	if err := e2ePrepare(); err != nil {
		v.unsure("%v", err)
		return
	}
	type kind struct{ name, from, to, want string }
	kinds := []kind{
		{"alive", "return n * 2", "return 2 * n", "alive"},
		{"wrong", "return n * 2", "return n * 3", "killed"},
		{"panic", "return n * 2", "panic(n)", "killed"},
		{"exit", "return n * 2", "os.Exit(0); return 0", "killed"},
		{"exit code", "return n * 2", "os.Exit(2); return 0", "killed"},
		{"hang", "return n * 2", "select {}", "killed"},
		{"syntax", "return n * 2", "return n *", "skip"},
		{"types", "return n * 2", "return \"\"", "skip"},
		{"unused", "return n * 2", "y := n; return n * 2", "skip"},
		{"other", "return n + 1", "return n + 3", "killed in full"}, // function Other, reached by TestOther only
	}
	for i := 0; i < v.n(2, 4); i++ {
		targeted := i%2 == 0
		w := e2eNewWorld("c17real")
		c := &case17{base: w.dir}
		dep := func(x string) map[string]string {
			return map[string]string{"go.mod": "module example.com/dep\n\ngo 1.24\n", "d.go": "package dep\n\nimport \"os\"\n\nvar _ = os.Args\n\n// Twice doubles.\nfunc Twice(n int) int {\n\tif n == 12345 {\n\t\tn += " + x + "\n\t}\n\treturn n * 2\n}\n",
				"o.go": "package dep\n\n// Other adds.\nfunc Other(n int) int {\n\tif n == 54321 {\n\t\tn += " + x + "\n\t}\n\treturn n + 1\n}\n"}
		}
		w.publish("example.com/dep", "v1.0.0", dep("1"))
		w.publish("example.com/dep", "v1.1.0", dep("2"))
		vWriteTree(w.project, map[string]string{"go.mod": "module example.com/proj\n\ngo 1.24\n\nrequire example.com/dep v1.0.0\n",
			"p.go":      "package proj\n\nimport \"example.com/dep\"\n\nfunc Calc(n int) int { return dep.Twice(n) }\n\nfunc More(n int) int { return dep.Other(n) }\n",
			"p_test.go": "package proj\n\nimport \"testing\"\n\nfunc TestCalc(t *testing.T) {\n\tif Calc(4) != 8 {\n\t\tt.Fatal(Calc(4))\n\t}\n}\n\nfunc TestMore(t *testing.T) {\n\tif More(4) != 5 {\n\t\tt.Error(More(4))\n\t}\n}\n"})
		if err := w.goRun(w.project, "mod", "tidy"); err != nil {
			v.unsure("%v", err)
			return
		}
		for _, ver := range []string{"v1.0.0", "v1.1.0"} {
			if err := w.goRun(w.project, "mod", "download", "example.com/dep@"+ver); err != nil {
				v.unsure("%v", err)
				return
			}
		}
		if err := exec.Command("cp", "-a", e2eTemplate+"/.", w.cache).Run(); err != nil {
			v.unsure("%v", err)
			return
		}
		by, _, err := AnalyzeModuleChanges(w.modc, false, w.project, []*ModuleChange{{Name: "example.com/dep", PriorVersion: "v1.0.0", NewVersion: "v1.1.0"}}, 0)
		if err != nil {
			v.violate("C17:diff failed", "%v", err)
			return
		}
		changes := by["example.com/dep"]
		tf := func(name, target string) *TestFunction {
			cf := &CallerFunction{}
			for _, ch := range changes {
				if ch.FunctionName == target {
					cf.ChangeFunctions = append(cf.ChangeFunctions, ch)
				}
			}
			return &TestFunction{Function: Function{FunctionName: name, FunctionIdent: "example.com/proj:" + name}, Targets: []*CallerFunction{cf}}
		}
		tests := []*TestFunction{tf("TestCalc", "Twice"), tf("TestMore", "Other")}
		if targeted { // TestMore is not known to reach Other
			tests = tests[:1]
		}
		p := &plan17{}
		killed := 0
		var want []string
		for _, k := range kinds {
			file := filepath.Join(w.modc, "example.com/dep@v1.0.0", "d.go")
			if k.name == "other" {
				file = filepath.Join(filepath.Dir(file), "o.go")
			}
			b, err := os.ReadFile(file)
			if err != nil || !strings.Contains(string(b), k.from) {
				v.unsure("mutant %s: %v", k.name, err)
				return
			}
			p.Mutants = append(p.Mutants, mutant17{Original: file, Content: strings.Replace(string(b), k.from, k.to, 1), Go: goPlan17{Real: true}})
			wk := k.want
			if wk == "killed in full" {
				wk = "killed"
				if targeted {
					wk = "skip"
				}
			}
			if wk == "killed" {
				killed++
			}
			want = append(want, wk)
		}
		what := fmt.Sprintf("real tests, targeted %v", targeted)
		env := map[string]string{}
		for _, e := range w.env() {
			k, x, _ := strings.Cut(e, "=")
			if k != "PATH" && k != "TMPDIR" {
				env[k] = x
			}
		}
		before := vTree(w.modc)
		proj := vTree(w.project)
		out := c.run17(v, bin, p, env, what, func() (MutationResult, error) {
			return RunMutationTesting(w.gopath, w.modc, w.project, true, true, targeted, changes, tests)
		})
		v.eval()
		if d := vTreeDiff(before, vTree(w.modc)) + vTreeDiff(proj, vTree(w.project)); d != "" {
			v.violate("C17:not restored", "%s: %s", what, vShort(d, 2000))
		}
		if out.err != nil || out.log == nil {
			v.violate("C17:outcome", "%s: %v", what, out.err)
			w.close()
			return
		}
		if out.res.MutationCount != len(kinds) || out.res.SquashedCount != killed {
			v.violate("C17:totals", "%s: %+v, expected %d killed of %d", what, out.res, killed, len(kinds))
		}
		for k, rn := range out.log.Runs {
			v.observe("real test runs", 1)
			got := map[int]string{0: "killed", 1: "alive", 2: "skip"}[rn.Exit]
			if got != want[k] {
				v.violate("C17:verdict", "%s: mutant %q is %s (exit %d), expected %s:\n%s", what, kinds[k].name, got, rn.Exit, want[k], vShort(rn.Out, 1500))
			}
			v.seen("real:" + kinds[k].name + "/" + got)
		}
		w.close()
	}
}

// ---- the whole tool ------------------------------------------------------------------------------------------------

func whole17e(v *vRun, bin string) {
	if err := e2ePrepare(); err != nil {
		v.unsure("%v", err)
		return
	}
	for i := 0; i < v.n(2, 6); i++ {
		scope := vPick(v.rng(fmt.Sprint("whole", i)), "line", "area", "function")
		if i == 0 {
			scope = "line"
		}
		w := e2eNewWorld("c17whole")
		dep := func(x string) map[string]string {
			return map[string]string{"go.mod": "module example.com/dep\n\ngo 1.24\n", "d.go": "package dep\n\n// Twice doubles.\nfunc Twice(n int) int {\n\t// a remark\n\t// of several\n\t// lines\n\tm := n + 1000001\n\tm -= " + x + "\n\treturn m - 1000003 + n\n}\n\nfunc TwiceMore(n int) int {\n\treturn n * 1000004\n}\n"}
		}
		w.publish("example.com/dep", "v1.0.0", dep("1000002"))
		w.publish("example.com/dep", "v1.1.0", dep("1000005"))
		vWriteTree(w.project, map[string]string{"go.mod": "module example.com/proj\n\ngo 1.24\n\nrequire example.com/dep v1.0.0\n",
			"p.go":      "package proj\n\nimport \"example.com/dep\"\n\nfunc Calc(n int) int {\n\tr := dep.Twice(n)\n\treturn r\n}\n",
			"p_test.go": "package proj\n\nimport \"testing\"\n\nfunc TestCalc(t *testing.T) {\n\tif Calc(4) == 123 {\n\t\tt.Fatal(Calc(4))\n\t}\n}\n\nfunc TestCalcNot(t *testing.T) {\n}\n"})
		if err := w.goRun(w.project, "mod", "tidy"); err != nil {
			v.unsure("%v", err)
			return
		}
		if err := w.goRun(w.project, "mod", "download", "example.com/dep@v1.1.0"); err != nil {
			v.unsure("%v", err)
			return
		}
		if err := exec.Command("cp", "-a", e2eTemplate+"/.", w.cache).Run(); err != nil {
			v.unsure("%v", err)
			return
		}
		stub := filepath.Join(w.dir, "stub")
		_ = os.MkdirAll(stub, 0o755)
		file := filepath.Join(w.modc, "example.com/dep@v1.0.0", "d.go")
		orig, _ := os.ReadFile(file)
		p := &plan17{}
		for k, to := range []string{"\treturn 123\n", "\treturn 124\n", "\treturn x\n"} {
			p.Mutants = append(p.Mutants, mutant17{Original: "d.go", From: "\treturn m - 1000003 + n\n", Content: to, Go: goPlan17{kind: []string{"killed", "alive", "skip"}[k], Real: true}})
		}
		p.RealGo = filepath.Join(w.bin, "go")
		b, _ := json.Marshal(p)
		_ = os.WriteFile(filepath.Join(stub, "plan.json"), b, 0o644)
		if err := os.Symlink(filepath.Join(bin, "go-mutesting"), filepath.Join(w.bin, "go-mutesting")); err != nil {
			v.unsure("%v", err)
			return
		}
		mods := filepath.Join(w.modc, "example.com") // next to it the go command keeps what it downloads
		before, proj := vTree(mods), vTree(w.project)
		tmpcopy := i%2 == 0
		what := fmt.Sprintf("whole run, scope %s, temporary copy %v", scope, tmpcopy)
		res := w.analyze(4*time.Minute, []string{"STUB17=" + stub}, fmt.Sprintf("-tmpcopy=%v", tmpcopy), "-mutationscope", scope, "-module", "example.com/dep@v1.1.0")
		v.eval()
		if res.err != nil || res.report == nil {
			v.violate("C17:outcome", "%s: %v\n%s", what, res.err, vShort(res.out, 3000))
			w.close()
			continue
		}
		if d := vTreeDiff(before, vTree(mods)) + vTreeDiff(proj, vTree(w.project)); d != "" {
			v.violate("C17:not restored", "%s: %s", what, vShort(d, 2000))
		}
		if res.report.Validation.MutationCount != 3 || res.report.Validation.MutationsSquashed != 1 {
			v.violate("C17:totals", "%s: the report has %d mutants, %d killed; 3 and 1 expected", what, res.report.Validation.MutationCount, res.report.Validation.MutationsSquashed)
		}
		var l log17
		if b, err := os.ReadFile(filepath.Join(stub, "log.json")); err != nil || json.Unmarshal(b, &l) != nil {
			v.violate("C17:not run", "%s: the tool was not run", what)
			w.close()
			continue
		}
		match := ""
		for k, a := range l.Args {
			if a == "--match" {
				match = l.Args[k+1]
			}
		}
		src := ""
		for f, c := range l.Files {
			if filepath.Base(f) == "d.go" && (f == file) == !tmpcopy {
				src = c
			}
		}
		sel, mut, err := look17(src, match)
		if err != nil || !reflect.DeepEqual(sel, map[string]bool{"Twice": true}) {
			v.violate("C17:unchanged selected", "%s: selected %v with %q (%v) in %d files", what, sel, match, err, len(l.Files))
		}
		line := scope != "function"
		if !mut[1000002] || mut[1000001] == line || mut[1000003] == line {
			v.violate("C17:line in scope", "%s: mutable lines %v; only the second changed:\n%s", what, mut, src)
		}
		if !bytes.Equal([]byte(strings.Join(toks17(src), " ")), []byte(strings.Join(toks17(string(orig)), " "))) {
			v.violate("C17:code changed", "%s: while the tool ran the code was\n%s", what, src)
		}
		for k, rn := range l.Runs {
			if rn.Restored != "" {
				v.violate("C17:mutant left", "%s: mutant %d: %s", what, k, rn.Restored)
			}
		}
		glog, _ := os.ReadFile(w.goLog)
		ran := 0
		for _, ln := range strings.Split(string(glog), "\n") {
			if _, args, ok := strings.Cut(ln, "|"); ok && strings.HasPrefix(args, "test ") && strings.Contains(args, "-failfast") {
				ran++
				run, _, pkgs := goTest17(strings.Split(args, " "))
				re, err := regexp.Compile(run)
				if err != nil || !re.MatchString("TestCalc") || re.MatchString("TestCalcNot") || !reflect.DeepEqual(pkgs, []string{"./..."}) {
					v.violate("C17:tests", "%s: tests ran with %q", what, args)
				}
			}
		}
		if ran != 3 {
			v.violate("C17:not tested", "%s: %d test runs for 3 mutants:\n%s", what, ran, vShort(string(glog), 3000))
		}
		v.observe("whole runs", 1)
		v.seen("whole:" + scope)
		w.close()
	}
}

func vMain(t *testing.T) {
	vQuiet()
	v := vNew("each case is a pair of generated module versions with a known line-by-line edit, a scope, a set of tests and a planned behaviour of the mutation tool; distinct by scope, tests mode, tool outcome, comment density and per-mutant verdict")
	bin := stubBin17()
	old := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
		defer func() { os.Stdout = old }()
	}
	mutation17(v, bin)
	real17(v, bin)
	whole17e(v, bin)
	v.assumptions = []string{"the mutation tool behaves as go-mutesting does: --match selects by function name, a next-line directive excludes what starts on that line, exit codes 0, 1 and 2 of the script mean killed, alive and skipped, and the summary counts the killed ones as passed"}
	v.finish(20)
}
