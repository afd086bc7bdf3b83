package lens

// C20: child commands run with exactly the intended environment. The commands the tool builds are really started; the
// child (this binary under another name) records the environment block, directory and arguments it actually got.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

type seen20 struct {
	Env  []string
	Dir  string
	Args []string
}

// The child: records what it got; compiled by the monitor as a program of its own.
const child20 = `package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func text(k string, n int) []byte {
	var b bytes.Buffer
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "%s %d %s\n", k, i, strings.Repeat(".", i%50))
	}
	return b.Bytes()
}

func behave(ins []string) {
	for _, i := range ins {
		k, val, _ := strings.Cut(i, ":")
		n, _ := strconv.Atoi(val)
		switch k {
		case "out", "err":
			f := os.Stdout
			if k == "err" {
				f = os.Stderr
			}
			f.Write(text(k, n))
		case "exit":
			os.Exit(n)
		case "kill":
			syscall.Kill(os.Getpid(), syscall.SIGKILL)
			time.Sleep(time.Minute)
		}
	}
	os.Exit(0)
}

func main() {
	raw, _ := os.ReadFile("/proc/self/environ")
	dir, _ := os.Readlink("/proc/self/cwd")
	var env []string
	for _, e := range bytes.Split(raw, []byte{0}) {
		if len(e) > 0 {
			env = append(env, string(e))
		}
	}
	b, _ := json.Marshal(map[string]any{"Env": env, "Dir": dir, "Args": os.Args})
	if filepath.Base(os.Args[0]) == "go" { // stand-in for the go command, found through PATH
		at := os.Getenv("PATH")
		os.WriteFile(filepath.Join(at, "go.rec"), b, 0o644)
		ctl, _ := os.ReadFile(filepath.Join(at, "go.ctl"))
		behave(strings.Fields(string(ctl)))
	}
	if len(os.Args) > 2 && os.Args[1] == "record" {
		if err := os.WriteFile(os.Args[2], b, 0o644); err != nil {
			os.Exit(99)
		}
		behave(os.Args[3:])
	}
	behave(os.Args[1:])
}
`

// A process with an unusual environment block (duplicates, malformed entries) that starts a command itself.
func init() {
	if filepath.Base(os.Args[0]) == "verif-nested" {
		cmd := NewProjectExec(os.Args[1], os.Args[3:], filepath.Join(filepath.Dir(os.Args[0]), "verif-helper"), "record", os.Args[2])
		if err := cmd.Run(); err != nil {
			fmt.Println(err)
			os.Exit(98)
		}
		os.Exit(0)
	}
}

func text20(k string, n int) []byte {
	var b bytes.Buffer
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "%s %d %s\n", k, i, strings.Repeat(".", i%50))
	}
	return b.Bytes()
}

var names20 = []string{"GOPATH", "GOPATHX", "GOMODCACHE", "GOFLAGS", "gopath", "PATH", "HOME", "A", "AB", "A.B", "a b", "X%Y", "ÜMLAUT", "LD", "LDX", "_LD_PRELOAD", "XLD_PRELOAD", "LENS_MONITOR_PORT", "PWD", "OLDPWD", "EMPTY", "Q'\"$"}
var ld20 = []string{"LD_PRELOAD", "LD_LIBRARY_PATH", "LD_AUDIT", "LD_DEBUG_OUTPUT", "LD_BIND_NOT", "LD_"}

func val20(r *rand.Rand) string {
	return vPick(r, "", "1", "/x/y", "a=b", "=", "a=b=c", "sp ace", "line\nbreak", "ünï", "'q\"$(x)", strings.Repeat("z", 3000), "LD_PRELOAD=x", ":::")
}

func expect20(inherited map[string]string, overrides []string) map[string]string {
	want := map[string]string{}
	for k, x := range inherited {
		if !strings.HasPrefix(k, "LD_") {
			want[k] = x
		}
	}
	for _, o := range overrides {
		k, x, _ := strings.Cut(o, "=")
		want[k] = x
	}
	return want
}

func checkEnv20(v *vRun, what string, got []string, want map[string]string) bool {
	count := map[string]int{}
	vals := map[string]string{}
	for _, e := range got {
		k, x, ok := strings.Cut(e, "=")
		if !ok {
			v.violate("env:malformed", "%s: child got the entry %q", what, e)
			return false
		}
		count[k]++
		vals[k] = x
	}
	okAll := true
	for _, k := range sortedKeys20(want) {
		if count[k] != 1 || vals[k] != want[k] {
			v.violate("env:value", "%s: child has %s %d times with value %q, want once %q\nenvironment: %q", what, k, count[k], vShort(vals[k], 100), vShort(want[k], 100), vShort(fmt.Sprint(got), 3000))
			okAll = false
		}
	}
	for _, k := range sortedKeys20(vals) {
		if _, ok := want[k]; !ok {
			sig := "env:extra"
			if strings.HasPrefix(k, "LD_") {
				sig = "env:loader"
			}
			v.violate(sig, "%s: child has %s=%q", what, k, vShort(vals[k], 100))
			okAll = false
		}
	}
	v.observe("variables compared", len(want))
	return okAll
}

func sortedKeys20(m map[string]string) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func setenv20(m map[string]string) {
	os.Clearenv()
	for k, x := range m {
		if err := os.Setenv(k, x); err != nil {
			panic(err)
		}
	}
}

func gen20(r *rand.Rand) (map[string]string, []string) {
	in := map[string]string{}
	for i := r.Intn(14); i > 0; i-- {
		in[vPick(r, names20...)] = val20(r)
	}
	for i := r.Intn(3); i > 0; i-- {
		in[vPick(r, ld20...)] = val20(r)
	}
	var ov []string
	used := map[string]bool{}
	for i := r.Intn(7); i > 0; i-- {
		k := vPick(r, names20...)
		if !used[k] {
			used[k] = true
			ov = append(ov, k+"="+val20(r))
		}
	}
	return in, ov
}

func read20(v *vRun, what, p string) (seen20, bool) {
	var s seen20
	b, err := os.ReadFile(p)
	_ = os.Remove(p)
	if err == nil {
		err = json.Unmarshal(b, &s)
	}
	if err != nil {
		v.violate("child:missing", "%s: the command was not executed: %v", what, err)
		return s, false
	}
	return s, true
}

func vMain(t *testing.T) {
	vQuiet()
	v := vNew("one evaluation = one real child process whose environment, directory, arguments, output and outcome were compared with what was asked; distinct = (inherited, override) name sets and outcome classes")
	v.assumptions = []string{"override lists name each variable once", "variable names are not empty"}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	root, _ := filepath.EvalSymlinks(vTempDir("c20"))
	bin := filepath.Join(root, "bin")
	goBin := filepath.Join(root, "gobin")
	for _, d := range []string{bin, goBin} {
		_ = os.MkdirAll(d, 0o755)
	}
	helper := filepath.Join(bin, "verif-helper")
	nested := filepath.Join(bin, "verif-nested")
	vWriteTree(filepath.Join(root, "child"), map[string]string{"go.mod": "module child\n\ngo 1.21\n", "main.go": child20})
	build := exec.Command("go", "build", "-o", helper, ".")
	build.Dir = filepath.Join(root, "child")
	if out, err := build.CombinedOutput(); err != nil {
		v.unsure("building the child: %v %s", err, out)
		v.finish(1)
		return
	}
	for l, to := range map[string]string{nested: self, filepath.Join(goBin, "go"): helper} {
		if err := os.Symlink(to, l); err != nil {
			panic(err)
		}
	}
	orig := map[string]string{}
	for _, e := range os.Environ() {
		k, x, _ := strings.Cut(e, "=")
		orig[k] = x
	}
	dirs := []string{filepath.Join(root, "d1"), filepath.Join(root, "d 2", "sub"), filepath.Join(root, "ü-;$x")}
	for _, d := range dirs {
		_ = os.MkdirAll(d, 0o755)
	}
	r := v.rng("env")
	rec := filepath.Join(root, "rec.json")
	// 1. arbitrary environments
	for i := 0; i < v.n(600, 6000); i++ {
		in, ov := gen20(r)
		dir := dirs[r.Intn(len(dirs))]
		what := fmt.Sprintf("case %d: inherited %q overrides %q", i, in, ov)
		setenv20(in)
		before := strings.Join(os.Environ(), "\x00")
		ovCopy := append([]string(nil), ov...)
		args := []string{"record", rec, "arg with space", "", "-x=1"}
		var runErr error
		if i%4 == 3 { // the logging variant
			os.Stdout, os.Stderr = devnull20(), devnull20()
			runErr = NewProjectLoggedExec(dir, ov, helper, args...).Run()
		} else {
			runErr = NewProjectExec(dir, ov, helper, args...).Run()
		}
		if strings.Join(os.Environ(), "\x00") != before {
			v.violate("parent:changed", "%s: the tool's own environment changed", what)
		}
		setenv20(orig)
		if fmt.Sprint(ov) != fmt.Sprint(ovCopy) {
			v.violate("overrides:changed", "%s: the override list was modified to %q", what, ov)
		}
		if runErr != nil {
			v.violate("run:error", "%s: %v", what, runErr)
			continue
		}
		s, ok := read20(v, what, rec)
		v.eval()
		if !ok {
			continue
		}
		checkEnv20(v, what, s.Env, expect20(in, ovCopy))
		if s.Dir != dir {
			v.violate("dir", "%s: ran in %s, asked for %s", what, s.Dir, dir)
		}
		if fmt.Sprintf("%q", s.Args[1:]) != fmt.Sprintf("%q", args) {
			v.violate("args", "%s: arguments %q, asked for %q", what, s.Args[1:], args)
		}
		v.seen(fmt.Sprint(sortedKeys20(in), len(ov)))
		if i < 2 {
			v.sample(map[string]any{"inherited": in, "overrides": ov})
		}
	}
	// 2. environment blocks that no well-behaved parent produces: the child of such a process
	for i := 0; i < v.n(120, 1500); i++ {
		in, ov := gen20(r)
		delete(in, "LENS_MONITOR_PORT") // read by the monitor's own process when it starts
		var block []string
		for _, k := range sortedKeys20(in) {
			block = append(block, k+"="+in[k])
		}
		dups := map[string]bool{}
		for j := r.Intn(3); j > 0 && len(block) > 0; j-- { // duplicates: which value wins is left open
			k := sortedKeys20(in)[r.Intn(len(in))]
			block = append(block, k+"=dup")
			dups[k] = true
		}
		for j := r.Intn(3); j > 0; j-- {
			block = append(block, vPick(r, "NOEQ", "=", "=x", "LD_NOEQ"))
		}
		r.Shuffle(len(block), func(a, b int) { block[a], block[b] = block[b], block[a] })
		what := fmt.Sprintf("raw block %d: %q overrides %q", i, block, ov)
		cmd := exec.Command(nested, append([]string{dirs[0], rec}, ov...)...)
		cmd.Env = block
		// os/exec drops duplicates: start it directly
		pid, err := syscall.ForkExec(nested, cmd.Args, &syscall.ProcAttr{Env: block, Files: []uintptr{0, devnull20().Fd(), devnull20().Fd()}})
		if err != nil {
			v.unsure("fork: %v", err)
			break
		}
		var ws syscall.WaitStatus
		for {
			if _, err := syscall.Wait4(pid, &ws, 0, nil); err != syscall.EINTR {
				break
			}
		}
		if ws.ExitStatus() != 0 {
			v.violate("raw:error", "%s: starting the command failed (%d)", what, ws.ExitStatus())
			continue
		}
		s, ok := read20(v, what, rec)
		v.eval()
		if !ok {
			continue
		}
		want := expect20(in, ov)
		over := map[string]bool{}
		for _, o := range ov {
			k, _, _ := strings.Cut(o, "=")
			over[k] = true
		}
		var wellFormed []string
		for _, e := range s.Env {
			k, x, eq := strings.Cut(e, "=")
			if strings.HasPrefix(e, "LD_") {
				v.violate("env:loader", "%s: child has %q", what, e)
			}
			if !eq || k == "" {
				continue // malformed entries: left open
			}
			if dups[k] && !over[k] {
				if x != "dup" && x != want[k] {
					v.violate("env:value", "%s: child has %s=%q", what, k, x)
				}
				e = k + "=" + want[k]
			}
			wellFormed = append(wellFormed, e)
		}
		for k := range dups {
			if strings.HasPrefix(k, "LD_") {
				delete(want, k)
			}
		}
		checkEnv20(v, what, wellFormed, want)
		v.observe("raw environment blocks", 1)
	}
	// 3. outcomes and output
	outcome20(v, r, root, helper, dirs)
	// 4. the test command, with a stand-in go and with the real one
	goTest20(v, r, goBin, dirs, orig)
	realGo20(v, filepath.Join(root, "pkg"))
	// 5. concurrent construction
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < v.n(20, 200); j++ {
				rc := filepath.Join(root, fmt.Sprintf("rec-%d.json", i))
				what := fmt.Sprintf("concurrent %d/%d", i, j)
				ov := []string{fmt.Sprintf("WHO=%d-%d", i, j), "GOPATH=/g" + strconv.Itoa(i)}
				if err := NewProjectExec(dirs[i%len(dirs)], ov, helper, "record", rc).Run(); err != nil {
					v.violate("run:error", "%s: %v", what, err)
					continue
				}
				if s, ok := read20(v, what, rc); ok {
					checkEnv20(v, what, s.Env, expect20(orig, ov))
				}
				v.eval()
			}
		}()
	}
	wg.Wait()
	// 6. the go environment list
	for _, c := range [][2]string{{"", ""}, {"/g", ""}, {"", "/m"}, {"/g p", "/m=1"}} {
		var want []string
		if c[0] != "" {
			want = append(want, "GOPATH="+c[0])
		}
		if c[1] != "" {
			want = append(want, "GOMODCACHE="+c[1])
		}
		if g := GoEnv(c[0], c[1]); fmt.Sprintf("%q", g) != fmt.Sprintf("%q", want) && len(g)+len(want) > 0 {
			v.violate("goenv", "GoEnv(%q, %q) = %q", c[0], c[1], g)
		}
		v.eval()
	}
	v.finish(800)
}

var null20 *os.File

func devnull20() *os.File {
	if null20 == nil {
		f, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
		if err != nil {
			panic(err)
		}
		null20 = f
	}
	return null20
}

func outcome20(v *vRun, r *rand.Rand, root, helper string, dirs []string) {
	so, se := os.Stdout, os.Stderr
	defer func() { os.Stdout, os.Stderr = so, se }()
	for i := 0; i < v.n(100, 1000); i++ {
		var ins []string
		var wantOut, wantErr []byte
		for j := r.Intn(4); j > 0; j-- {
			k := vPick(r, "out", "err")
			n := vPick(r, 10, 500, 70000, 300000)
			ins = append(ins, fmt.Sprintf("%s:%d", k, n))
			if k == "out" {
				wantOut = append(wantOut, text20(k, n)...)
			} else {
				wantErr = append(wantErr, text20(k, n)...)
			}
		}
		fail := true
		switch r.Intn(5) {
		case 0:
			ins = append(ins, "exit:1")
		case 1:
			ins = append(ins, "exit:137")
		case 2:
			ins = append(ins, "kill")
		default:
			fail = false
			if r.Intn(2) == 0 {
				ins = append(ins, "exit:0")
			}
		}
		what := fmt.Sprintf("outcome %d: %v", i, ins)
		fo, _ := os.Create(filepath.Join(root, "fwd.out"))
		fe, _ := os.Create(filepath.Join(root, "fwd.err"))
		os.Stdout, os.Stderr = fo, fe
		var out []byte
		var err error
		ok := v.guard("captured", what, 120*time.Second, true, func() {
			out, err = NewProjectCapturedOutputExec(dirs[0], nil, helper, ins...)
		})
		os.Stdout, os.Stderr = so, se
		_ = fo.Close()
		_ = fe.Close()
		if !ok {
			continue
		}
		v.eval()
		if (err != nil) != fail {
			v.violate("outcome", "%s: error %v", what, err)
		}
		fwdO, _ := os.ReadFile(fo.Name())
		fwdE, _ := os.ReadFile(fe.Name())
		if !bytes.Equal(fwdO, wantOut) || !bytes.Equal(fwdE, wantErr) {
			v.violate("forwarded", "%s: forwarded %d/%d bytes of stdout and %d/%d of stderr", what, len(fwdO), len(wantOut), len(fwdE), len(wantErr))
		}
		// both streams are in the capture completely and each in order (chunks interleave at any byte)
		if len(out) != len(wantOut)+len(wantErr) || !merge20(out, wantOut, wantErr) {
			v.violate("captured", "%s: captured %d bytes, written %d to stdout and %d to stderr", what, len(out), len(wantOut), len(wantErr))
		}
		v.observe("captured bytes", len(out))
		v.seen(fmt.Sprintf("outcome fail=%v out=%v err=%v", fail, len(wantOut) > 65536, len(wantErr) > 65536))
	}
	for _, c := range [][2]string{{dirs[0], filepath.Join(root, "no-such-command")}, {filepath.Join(root, "no-such-dir"), helper}} {
		if _, err := NewProjectCapturedOutputExec(c[0], nil, c[1]); err == nil {
			v.violate("outcome:unstartable", "a command that cannot be started (%v) is reported as a success", c)
		}
		if err := NewProjectExec(c[0], nil, c[1]).Run(); err == nil {
			v.violate("outcome:unstartable", "a command that cannot be started (%v) is reported as a success", c)
		}
		v.eval()
	}
}

// merge20: is out an interleaving of a and b? (both streams use disjoint first bytes per line, chunks may split lines)
func merge20(out, a, b []byte) bool {
	// count bytes: cheap necessary condition, then greedy with bounded search over chunk boundaries
	type st struct{ i, j int }
	cur := map[st]bool{{0, 0}: true}
	for _, c := range out {
		next := map[st]bool{}
		for s := range cur {
			if s.i < len(a) && a[s.i] == c {
				next[st{s.i + 1, s.j}] = true
			}
			if s.j < len(b) && b[s.j] == c {
				next[st{s.i, s.j + 1}] = true
			}
		}
		if len(next) > 5000 { // too ambiguous: not decidable cheaply, accept
			return true
		}
		cur = next
	}
	return cur[st{len(a), len(b)}]
}

func goTest20(v *vRun, r *rand.Rand, goBin string, dirs []string, orig map[string]string) {
	defer setenv20(orig)
	for i := 0; i < v.n(100, 1000); i++ {
		in, ov := gen20(r)
		in["PATH"] = goBin
		var o2 []string
		for _, o := range ov {
			if !strings.HasPrefix(o, "PATH=") {
				o2 = append(o2, o)
			}
		}
		ov = o2
		name := vPick(r, "TestA", "TestAB", "TestÜ", "Test_x1", "TestLong"+strings.Repeat("x", 200))
		var ins []string
		var want []byte
		for j := r.Intn(3); j > 0; j-- {
			k := vPick(r, "out", "err")
			n := vPick(r, 10, 500, 70000)
			ins = append(ins, fmt.Sprintf("%s:%d", k, n))
			want = append(want, text20(k, n)...)
		}
		code := vPick(r, 0, 0, 1, 2, 137)
		ins = append(ins, fmt.Sprintf("exit:%d", code))
		_ = os.WriteFile(filepath.Join(goBin, "go.ctl"), []byte(strings.Join(ins, " ")), 0o644)
		dir := dirs[r.Intn(len(dirs))]
		what := fmt.Sprintf("go test %d: %s in %s, go does %v, overrides %q", i, name, dir, ins, ov)
		var out bytes.Buffer
		var w io.Writer = &out
		if r.Intn(8) == 0 {
			w = io.Discard
		}
		tf := &TestFunction{}
		tf.FunctionName = name
		setenv20(in)
		var err error
		ok := v.guard("gotest", what, 120*time.Second, true, func() { err = ExecGoTest(dir, ov, w, tf) })
		setenv20(orig)
		if !ok {
			continue
		}
		v.eval()
		s, ok := read20(v, what, filepath.Join(goBin, "go.rec"))
		if !ok {
			continue
		}
		checkEnv20(v, what, s.Env, expect20(in, ov))
		if s.Dir != dir {
			v.violate("gotest:dir", "%s: ran in %s", what, s.Dir)
		}
		if (err != nil) != (code != 0) {
			v.violate("gotest:outcome", "%s: error %v", what, err)
		}
		if w == &out && !bytes.Equal(out.Bytes(), want) {
			v.violate("gotest:output", "%s: %d bytes of output delivered, %d written", what, out.Len(), len(want))
		}
		v.observe("go test commands", 1)
	}
}

// realGo20 runs real tests: only the named one may run, each time anew, and its outcome is reported.
func realGo20(v *vRun, dir string) {
	vWriteTree(dir, map[string]string{"go.mod": "module example.com/t\n\ngo 1.21\n", "t.go": "package t\n", "t_test.go": `package t

import (
	"os"
	"testing"
)

func ran(name string) {
	f, err := os.OpenFile("ran.log", os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	f.WriteString(name + "\n")
	f.Close()
}

func TestA(t *testing.T)       { ran("TestA") }
func TestAB(t *testing.T)      { ran("TestAB"); t.Error("fails") }
func TestA_B(t *testing.T)     { ran("TestA_B"); t.Skip("skipped") }
func TestXTestA(t *testing.T)  { ran("TestXTestA"); panic("panics") }
func TestSub(t *testing.T)     { t.Run("TestA", func(t *testing.T) { ran("TestSub/TestA") }); t.Run("b", func(t *testing.T) { ran("TestSub/b") }) }
func TestExit(t *testing.T)    { ran("TestExit"); os.Exit(3) }
func TestAÜ(t *testing.T)      { ran("TestAÜ") }
func BenchmarkTestA(b *testing.B) { ran("BenchmarkTestA") }
func ExampleA()                { ran("ExampleA") }
func FuzzTestA(f *testing.F)   { f.Add(1); f.Fuzz(func(t *testing.T, n int) { ran("FuzzTestA") }) }
`, "other/t_test.go": "package other\n\nimport \"testing\"\n\nfunc TestA(t *testing.T) { t.Error(\"wrong package\") }\n"})
	cases := []struct {
		name string
		fail bool
		ran  string
	}{{"TestA", false, "TestA\n"}, {"TestAB", true, "TestAB\n"}, {"TestA_B", false, "TestA_B\n"}, {"TestXTestA", true, "TestXTestA\n"},
		{"TestSub", false, "TestSub/TestA\nTestSub/b\n"}, {"TestExit", true, "TestExit\n"}, {"TestAÜ", false, "TestAÜ\n"}, {"TestA", false, "TestA\n"}}
	for _, c := range cases {
		_ = os.Remove(filepath.Join(dir, "ran.log"))
		tf := &TestFunction{}
		tf.FunctionName = c.name
		var out bytes.Buffer
		var err error
		if !v.guard("realgo", c.name, 300*time.Second, false, func() {
			err = ExecGoTest(dir, []string{"GOFLAGS=-vet=off"}, &out, tf)
		}) {
			return
		}
		b, _ := os.ReadFile(filepath.Join(dir, "ran.log"))
		v.eval()
		if string(b) != c.ran {
			v.violate("realgo:selection", "asked for %s, executed %q\n%s", c.name, b, vShort(out.String(), 2000))
		}
		if (err != nil) != c.fail {
			v.violate("realgo:outcome", "%s: error %v, output %s", c.name, err, vShort(out.String(), 2000))
		}
		v.observe("real tests executed", 1)
		v.seen("real " + c.name)
	}
	runtime.KeepAlive(cases)
}
