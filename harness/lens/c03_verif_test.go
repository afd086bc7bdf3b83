package lens

// C03: random histories of injections, commits and line insertions on generated source trees, with write faults
// injected at random steps (file size limit), then undone; and whole update runs with a stand-in go command that edits
// module files and fails at a chosen call. Digests of every file (path, type, mode, bytes) before and after must agree.

import (
	"errors"
	"fmt"
	"go/ast"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

// c03Limit limits the size of files this process can write (0 lifts it).
func c03Limit(n uint64) {
	var l syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
	l.Cur = n
	if n == ^uint64(0) {
		l.Cur = l.Max
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
}

type c03Fn struct{ pkgPath, file, ident, name string }

var c03Bodies = []string{
	"func %s(a int) int {\n\tif a > 1 {\n\t\treturn a * 2\n\t}\n\treturn helper(a)\n}\n",
	"func %s(a int) (r int, err error) {\n\tdefer func() { r++ }()\n\tfor i := range 3 {\n\t\tr += helper(i)\n\t}\n\treturn\n}\n",
	"func %s(a int) {\n\tb := helper(a)\n\t// comment\n\t_ = b\n}\n",
	"// doc of function\nfunc %s(a ...string) string {\n\ts := `raw\n\ntext`\n\treturn s + a[0]\n}\n",
	"func %s[T any](a T) T { return a }\n",
	"func   %s ( a  int )  int {   return  helper( a )  }\n", // not formatted
	"func %s()\n", // implemented elsewhere
	"func %s(a int) (int, int) {\n\tswitch {\n\tcase a > 0:\n\t\treturn helper(a), 1\n\t}\n\tpanic(\"x\")\n}\n",
}

// c03Tree writes packages with unusual files and returns their functions.
func c03Tree(r *rand.Rand, root, mod string) []c03Fn {
	var fns []c03Fn
	for p := 0; p < 1+r.Intn(3); p++ {
		dir := filepath.Join(root, fmt.Sprintf("pkg%d", p))
		path := fmt.Sprintf("%s/pkg%d", mod, p)
		must(os.MkdirAll(dir, 0o755))
		write := func(name, content string, mode os.FileMode) {
			f := filepath.Join(dir, name)
			must(os.WriteFile(f, []byte(content), 0o644))
			must(os.Chmod(f, mode))
		}
		write("helper.go", fmt.Sprintf("package pkg%d\n\nfunc helper(a int) int { return a }\n", p), 0o644)
		write("x_test.go", fmt.Sprintf("package pkg%d_test\n", p), 0o644)
		write("data.txt", "data", 0o600)
		for f := 0; f < 1+r.Intn(3); f++ {
			name := fmt.Sprintf("f%d.go", f)
			var b strings.Builder
			if r.Intn(4) == 0 {
				b.WriteString("//go:build !never\n\n")
			}
			fmt.Fprintf(&b, "package pkg%d\n\n", p)
			for k := 0; k < 1+r.Intn(4); k++ {
				fn := fmt.Sprintf("F%d%d%d", p, f, k)
				body := vPick(r, c03Bodies...)
				if r.Intn(3) == 0 && strings.HasPrefix(body, "func %s(") {
					fmt.Fprintf(&b, "type T%s struct{}\n\n", fn)
					body = strings.Replace(body, "func %s(", "func (t *T"+fn+") %s(", 1)
					fns = append(fns, c03Fn{path, filepath.Join(dir, name), path + ":*T" + fn + "." + fn, fn})
				} else {
					fns = append(fns, c03Fn{path, filepath.Join(dir, name), path + ":" + fn, fn})
				}
				fmt.Fprintf(&b, body+"\n", fn)
			}
			txt := b.String()
			switch r.Intn(6) {
			case 0:
				txt = strings.ReplaceAll(txt, "\n", "\r\n")
			case 1:
				txt = strings.TrimRight(txt, "\n")
			}
			if r.Intn(5) == 0 { // the file is a link, inside or outside the package
				target := vPick(r, "../real/"+fmt.Sprintf("r%d%d.go.src", p, f), fmt.Sprintf("r%d%d.src", p, f))
				must(os.MkdirAll(filepath.Join(root, "real"), 0o755))
				write(target, txt, vPick[os.FileMode](r, 0o644, 0o600))
				must(os.Symlink(target, filepath.Join(dir, name)))
			} else {
				write(name, txt, vPick[os.FileMode](r, 0o644, 0o644, 0o600, 0o755, 0o444, 0o664))
			}
			if r.Intn(5) == 0 {
				write(name+".bkp", "an older backup of the user", 0o640)
				if r.Intn(3) == 0 {
					write(name+".bkp.bkp", "even older", 0o600)
				}
			}
		}
	}
	return fns
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func c03Op(r *rand.Rand, m *ASTModifier, fns []c03Fn, kinds int) (string, error) {
	f := fns[r.Intn(len(fns))]
	fn := &Function{FilePath: f.file, PackageName: f.pkgPath, FunctionIdent: f.ident, FunctionName: f.name}
	if r.Intn(20) == 0 {
		fn.FunctionIdent += "Missing"
	}
	var err error
	switch r.Intn(kinds) {
	case 0:
		return "client", m.InjectASTClient(filepath.Dir(f.file), 1234, 3, 100)
	case 1, 2:
		_, err = m.InjectFuncPointReturnStates(fn)
		return "return", err
	case 3:
		_, err = m.InjectFuncPointPanic(fn)
		return "panic", err
	case 4:
		_, err = m.InjectFuncPointEntry(fn)
		return "entry", err
	case 5:
		_, err = m.InjectFuncPointFinish(fn)
		return "finish", err
	case 6:
		_, err = m.InjectFuncPointBeforeCall(fn, func(c *ast.CallExpr) (any, bool) {
			id, ok := c.Fun.(*ast.Ident)
			return nil, ok && id.Name == "helper"
		})
		return "call", err
	case 7:
		n := r.Intn(4)
		err = m.InsertFuncLines(fn, func(i int, line string) (string, bool) {
			return vPick(rand.New(rand.NewSource(int64(i))), "", "// marked", "// nolint:x"), i <= n+2
		})
		return "lines", err
	case 8:
		return "commitfile", m.CommitFile(f.file)
	}
	return "commit", m.Commit()
}

func c03History(v *vRun, i int) {
	r := v.rng(fmt.Sprintf("history%d", i))
	root := vTempDir("c03-")
	defer os.RemoveAll(root)
	fns := c03Tree(r, root, "example.com/p")
	before := vTree(root)
	m := &ASTModifier{}
	var log []string
	changedAny, faults, fails := false, 0, 0
	for cycle := 0; cycle < 1+r.Intn(2); cycle++ {
		if r.Intn(4) == 0 { // several workers with packages of their own; a full commit only once all are done
			var wg sync.WaitGroup
			byPkg := map[string][]c03Fn{}
			for _, f := range fns {
				byPkg[f.pkgPath] = append(byPkg[f.pkgPath], f)
			}
			for _, own := range byPkg {
				seed := r.Int63()
				wg.Add(1)
				go func() {
					defer wg.Done()
					rr := rand.New(rand.NewSource(seed))
					for k := 0; k < 8; k++ {
						_, _ = c03Op(rr, m, own, 9)
					}
				}()
			}
			wg.Wait()
			_ = m.Commit()
			v.observe("concurrent histories", 1)
			log = append(log, fmt.Sprintf("%d workers", len(byPkg)))
		} else {
			for k, n := 0, 1+r.Intn(14); k < n; k++ {
				fault := r.Intn(6) == 0
				if fault {
					c03Limit(uint64(vPick(r, 0, 1, 20, 100, 150, 200, 300, 1000, 6000, 20000)))
					faults++
				}
				op, err := c03Op(r, m, fns, 10)
				if fault {
					c03Limit(^uint64(0))
					op += "(fault)"
				}
				if err != nil {
					op += "!"
					fails++
					v.observe("failed steps", 1)
				}
				log = append(log, op)
				if err != nil && r.Intn(2) == 0 {
					break // the analysis gives up and undoes
				}
			}
			if r.Intn(2) == 0 {
				_ = m.Commit()
				log = append(log, "commit")
			}
		}
		if d := vTreeDiff(before, vTree(root)); d != "" {
			changedAny = true
		}
		if lost := filepath.Join(root, "pkg0"); r.Intn(5) == 0 { // one package is gone: all the others are undone all the same
			links := filepath.Join(root, "real", "r0")
			must(os.RemoveAll(lost))
			_ = m.Restore(nil)
			v.eval()
			v.observe("histories with a lost package", 1)
			d := vTreeDiff(c03Without(before, root, lost, links), c03Without(vTree(root), root, lost, links))
			if d != "" {
				v.violate("history:others not restored", "history %d %v, package lost:\n%s", i, log, d)
			}
			break
		}
		var errs []error
		if errs = m.Restore(nil); len(errs) > 0 {
			v.violate("history:restore error", "history %d %v: Restore: %v", i, log, errs)
		}
		log = append(log, "restore")
		v.eval()
		if d := vTreeDiff(before, vTree(root)); d != "" {
			v.violate("history:not restored", "history %d %v:\n%s", i, log, d)
			return
		}
	}
	if changedAny {
		v.observe("histories that changed files", 1)
		v.seen(fmt.Sprintf("history %s", strings.Join(c03Kinds(log), " ")))
	}
	v.observe("write faults injected", faults)
	if i < 3 {
		v.sample(log)
	}
}

// c03Without is the tree without what starts with one of the paths.
func c03Without(tree map[string]string, root string, skip ...string) map[string]string {
	out := map[string]string{}
next:
	for p, d := range tree {
		for _, s := range skip {
			if strings.HasPrefix(p, s) || strings.HasPrefix(filepath.Join(root, p), s) {
				continue next
			}
		}
		out[p] = d
	}
	return out
}

func c03Kinds(log []string) []string {
	set := map[string]bool{}
	for _, l := range log {
		set[l] = true
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// c03Update: a whole update run with a stand-in go command.
func c03Update(v *vRun, i int, stub string) {
	r := v.rng(fmt.Sprintf("update%d", i))
	root := vTempDir("c03-")
	defer os.RemoveAll(root)
	proj, cache := filepath.Join(root, "proj"), filepath.Join(root, "modcache")
	fns := c03Tree(r, proj, "example.com/p")
	moddir := filepath.Join(cache, "example.com/m@v1.0.0")
	mfns := c03Tree(r, moddir, "example.com/m")
	file := func(name, content string) {
		p := filepath.Join(proj, name)
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, []byte(content), 0o644))
		must(os.Chmod(p, vPick[os.FileMode](r, 0o644, 0o644, 0o600, 0o664)))
	}
	modText := func(n string) string {
		return "module example.com/p" + n + "\n\ngo 1.21\n\nrequire example.com/m v1.0.0\n"
	}
	dirs := []string{""}
	if r.Intn(3) == 0 {
		dirs = []string{"", "a", "b"}
		if r.Intn(2) == 0 {
			dirs = []string{"a", "b"}
			file("go.work", "go 1.21\n\nuse (\n\t./a\n\t./b\n)\n")
		} else {
			file("go.work", "go 1.21\n\nuse (\n\t.\n\t./a\n\t./b\n)\n")
		}
		if r.Intn(2) == 0 {
			file("go.work.sum", "example.com/w v1.0.0 h1:x\n")
		}
	}
	for _, d := range dirs {
		if r.Intn(5) == 0 {
			file(filepath.Join(d, "real.mod"), modText(d))
			must(os.Symlink("real.mod", filepath.Join(proj, d, "go.mod")))
		} else {
			file(filepath.Join(d, "go.mod"), modText(d))
		}
		if r.Intn(3) > 0 {
			file(filepath.Join(d, "go.sum"), "example.com/m v1.0.0 h1:y=\nexample.com/m v1.0.0/go.mod h1:z=\n")
		}
		if r.Intn(4) == 0 {
			file(filepath.Join(d, "go.mod.bkp"), "user backup")
		}
		if r.Intn(4) == 0 {
			file(filepath.Join(d, "go.sum.bkp"), "user sum backup")
		}
	}
	before := vTree(root)
	var callers []*CallerFunction
	for _, f := range fns {
		if r.Intn(2) == 0 {
			callers = append(callers, &CallerFunction{Function: Function{FilePath: f.file, PackageName: f.pkgPath, FunctionIdent: f.ident, FunctionName: f.name}})
		}
	}
	if r.Intn(8) == 0 && len(callers) > 0 { // a function that is not there: injection fails after others are done
		c := *callers[len(callers)-1]
		c.FunctionIdent += "Missing"
		callers = append(callers, &c)
	}
	change := &ModuleChange{Name: "example.com/m", PriorVersion: "v1.0.0", NewVersion: "v1.1.0"}
	reach := ReachableModuleChange{}
	for _, f := range mfns {
		if r.Intn(2) == 0 {
			reach[f.ident] = &ModuleFunction{Function: Function{FilePath: f.file, PackageName: f.pkgPath, FunctionIdent: f.ident, FunctionName: f.name}, Module: change}
		}
	}
	tests := []*TestFunction{{Function: Function{FilePath: filepath.Join(proj, "pkg0/x_test.go"), PackageName: "example.com/p/pkg0", FunctionIdent: "example.com/p/pkg0:TestX", FunctionName: "TestX"}}}
	var pre, post func(*ASTModifier) (map[uint32]*string, error)
	hook := func(m *ASTModifier) (map[uint32]*string, error) {
		f := fns[r.Intn(len(fns))]
		_, _ = m.InjectFuncPointEntry(&Function{FilePath: f.file, PackageName: f.pkgPath, FunctionIdent: f.ident, FunctionName: f.name})
		if r.Intn(2) == 0 {
			_ = m.CommitFile(f.file)
		}
		if r.Intn(3) == 0 {
			return nil, errors.New("extension failed")
		}
		return nil, nil
	}
	if r.Intn(3) == 0 {
		pre = hook
	}
	if r.Intn(3) == 0 {
		post = hook
	}
	state := filepath.Join(root+"-state", "n")
	must(os.MkdirAll(filepath.Dir(state), 0o755))
	defer os.RemoveAll(filepath.Dir(state))
	failAt := r.Intn(16)
	os.Setenv("C03_STATE", filepath.Dir(state))
	os.Setenv("C03_FAIL", fmt.Sprint(failAt))
	os.Setenv("C03_PROJ", proj)
	os.Setenv("C03_LIMIT", "")
	port := 21000 + (i%200)*8
	_, _, _, _, _, err := RunModuleUpdateAnalysis("", cache, proj, port, NewMemStorage(), 3, 100, []*ModuleChange{change}, reach, callers, tests, pre, post)
	v.eval()
	calls, _ := os.ReadFile(filepath.Join(filepath.Dir(state), "log"))
	nc := strings.Count(string(calls), "\n")
	v.observe("go commands run in updates", nc)
	if err != nil {
		v.observe("update runs that failed", 1)
	} else {
		v.observe("update runs that succeeded", 1)
	}
	v.seen(fmt.Sprintf("update fail=%d calls=%d err=%v dirs=%d hooks=%v%v", failAt, nc, err != nil, len(dirs), pre != nil, post != nil))
	if d := vTreeDiff(before, vTree(root)); d != "" {
		v.violate("update:not restored", "update %d (go fails at call %d, error %v):\n%s\ngo commands:\n%s", i, failAt, err, d, calls)
	}
}

const c03Stub = `#!/bin/bash
# stand-in for the go command: records the call, edits module files like go get and go mod tidy do, fails on request
[ -n "$C03_STATE" ] || exit 0
n=$(cat "$C03_STATE/n" 2>/dev/null || echo 0); n=$((n+1)); echo $n > "$C03_STATE/n"
echo "$n $PWD $*" >> "$C03_STATE/log"
case "$1" in
get) sed -i --follow-symlinks 's/m v1.0.0/m v1.1.0/' go.mod; echo "example.com/m v1.1.0 h1:new=" >> go.sum
     [ -f "$C03_PROJ/go.work" ] && { echo "example.com/new v1 h1:q=" >> "$C03_PROJ/go.work.sum"; sed -i 's/^go 1.21$/go 1.22/' "$C03_PROJ/go.work"; } ;;
mod) echo "// tidied" >> go.mod; rm -f go.sum; [ "$n" -gt 5 ] && echo "tidy" > go.sum ;;
esac
[ "$n" = "$C03_FAIL" ] && exit 1
exit 0
`

func vMain(t *testing.T) {
	v := vNew("an evaluation is one undone history or update run whose trees were compared; distinct: sets of steps and outcomes")
	vQuiet()
	v.assumptions = []string{"hard links between files are not generated", "undoing itself meets no further fault"}
	signal.Ignore(syscall.SIGXFSZ)
	bin := filepath.Join(os.Getenv("VERIF_SCRATCH"), "stub")
	vWriteTree(bin, map[string]string{"go": c03Stub})
	must(os.Chmod(filepath.Join(bin, "go"), 0o755))
	must(os.Setenv("PATH", bin+":"+os.Getenv("PATH")))
	// output of the code under test is not interesting
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
	for i := 0; i < v.n(500, 12000); i++ {
		v.guard("history", fmt.Sprintf("history %d", i), 5*time.Minute, true, func() { c03History(v, i) })
	}
	for i := 0; i < v.n(90, 3000); i++ {
		v.guard("update", fmt.Sprintf("update %d", i), 5*time.Minute, true, func() { c03Update(v, i, bin) })
	}
	v.finish(300)
}
