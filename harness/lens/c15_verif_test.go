package lens

// C15: what an analysis does to the file system around it. Strict snapshots (content, mode, inode, modification and change
// time) of the user's project, GOPATH and module cache are compared around tree copies, engine runs with destructive stages,
// and whole runs of the tool which succeed, fail at a chosen command or are killed.

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"io/fs"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"golang.org/x/tools/go/packages"
)

// strict15 describes every entry below root so that any touch shows.
func strict15(root string) map[string]string {
	out := map[string]string{}
	_ = filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		rel, _ := filepath.Rel(root, p)
		if err != nil {
			out[rel] = "error " + err.Error()
			return nil
		}
		fi, err := d.Info()
		if err != nil {
			out[rel] = "error " + err.Error()
			return nil
		}
		st, _ := fi.Sys().(*syscall.Stat_t)
		s := fmt.Sprintf("%v ino=%d mtime=%d ctime=%d", fi.Mode(), st.Ino, fi.ModTime().UnixNano(), st.Ctim.Nano())
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			s += " -> " + t
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				s += " error " + err.Error()
			}
			h := sha256.Sum256(b)
			s += fmt.Sprintf(" %d %s", len(b), hex.EncodeToString(h[:8]))
		}
		out[rel] = s
		return nil
	})
	return out
}

// faithful15 compares a copy with its source: same entries, contents and links; the copy may only be more writable.
func faithful15(src, dst string) string {
	var l []string
	seen := map[string]bool{}
	_ = filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		rel, _ := filepath.Rel(src, p)
		seen[rel] = true
		fi, e1 := os.Lstat(p)
		gi, e2 := os.Lstat(filepath.Join(dst, rel))
		if e1 != nil || e2 != nil {
			l = append(l, fmt.Sprintf("%s: %v %v", rel, e1, e2))
			return nil
		}
		if fi.Mode().Type() != gi.Mode().Type() {
			l = append(l, fmt.Sprintf("%s: %v copied as %v", rel, fi.Mode(), gi.Mode()))
			return nil
		}
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			a, _ := os.Readlink(p)
			b, _ := os.Readlink(filepath.Join(dst, rel))
			if filepath.IsAbs(a) && (a == src || strings.HasPrefix(a, src+"/")) {
				a = dst + strings.TrimPrefix(a, src) // a link into the tree refers to the same place of the copy
			}
			if a != b {
				l = append(l, fmt.Sprintf("%s: link to %q copied as link to %q", rel, a, b))
			}
		case fi.IsDir():
			if gi.Mode().Perm() != fi.Mode().Perm()|0o700 && gi.Mode().Perm() != fi.Mode().Perm() {
				l = append(l, fmt.Sprintf("%s: directory %v copied as %v", rel, fi.Mode(), gi.Mode()))
			}
		default:
			if gi.Mode().Perm()&^0o222 != fi.Mode().Perm()&^0o222 || gi.Mode().Perm()&fi.Mode().Perm() != fi.Mode().Perm() {
				l = append(l, fmt.Sprintf("%s: file %v copied as %v", rel, fi.Mode(), gi.Mode()))
			}
			a, _ := os.ReadFile(p)
			b, _ := os.ReadFile(filepath.Join(dst, rel))
			if string(a) != string(b) {
				l = append(l, fmt.Sprintf("%s: content differs (%d, %d bytes)", rel, len(a), len(b)))
			}
		}
		return nil
	})
	_ = filepath.WalkDir(dst, func(p string, d fs.DirEntry, err error) error {
		if rel, _ := filepath.Rel(dst, p); !seen[rel] {
			l = append(l, rel+": is not in the source")
		}
		return nil
	})
	sort.Strings(l)
	if len(l) > 20 {
		l = l[:20]
	}
	return strings.Join(l, "\n")
}

// grow15 fills root with a random tree.
func grow15(r *rand.Rand, root string, n int) {
	if err := os.MkdirAll(root, 0o755); err != nil {
		panic(err)
	}
	dirs := []string{"."}
	type chm struct {
		p string
		m os.FileMode
	}
	var later []chm
	var files []string
	for i := 0; i < n; i++ {
		name := vPick(r, "a", "b c", "ü", ".hidden", "x.go", "-dash", "..dots", "UP", "vendor", "a.bkp", "ver@v1.2.3", "!escaped") + fmt.Sprint(i)
		p := filepath.Join(vPick(r, dirs...), name)
		full := filepath.Join(root, p)
		switch r.Intn(8) {
		case 0, 1:
			if os.Mkdir(full, 0o755) == nil {
				dirs = append(dirs, p)
				if r.Intn(3) == 0 {
					later = append(later, chm{full, vPick(r, os.FileMode(0o500), 0o555, 0o700, 0o750, 0o777)})
				}
			}
		case 2:
			var t string
			switch r.Intn(6) {
			case 0:
				t = "missing"
			case 1:
				t = "../" + name
			case 2:
				t = filepath.Join(root, vPick(r, dirs...))
			case 3:
				t = "/dev/null"
			default:
				if len(files) > 0 {
					f := vPick(r, files...)
					if r.Intn(2) == 0 {
						t = filepath.Join(root, f)
					} else {
						t, _ = filepath.Rel(filepath.Dir(p), f)
					}
				} else {
					t = "."
				}
			}
			_ = os.Symlink(t, full)
		default:
			size := vPick(r, 0, 1, 10, 100, 4096, 70000)
			b := make([]byte, size)
			r.Read(b)
			if os.WriteFile(full, b, 0o644) == nil {
				_ = os.Chmod(full, vPick(r, os.FileMode(0o644), 0o644, 0o755, 0o444, 0o600, 0o555, 0o400, 0o664, 0o711))
				files = append(files, p)
			}
		}
	}
	for i := len(later) - 1; i >= 0; i-- {
		_ = os.Chmod(later[i].p, later[i].m)
	}
}

func wipe15(dir string) {
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.IsDir() {
			_ = os.Chmod(p, 0o755)
		}
		return nil
	})
	_ = os.RemoveAll(dir)
}

func copies15(v *vRun, r *rand.Rand) {
	n := v.n(60, 1500)
	for i := 0; i < n; i++ {
		base := vTempDir("c15copy")
		src, dst := filepath.Join(base, "src"), filepath.Join(base, "dst")
		grow15(r, src, 3+r.Intn(60))
		before := strict15(src)
		var notified atomic.Int64
		var err error
		if !v.guard("C15:copy", "CopyDir", 5*time.Minute, true, func() {
			var cb func(string, os.FileInfo)
			if i%3 > 0 {
				cb = func(string, os.FileInfo) { notified.Add(1) }
			}
			err = CopyDir(context.Background(), src, dst, cb)
		}) {
			wipe15(base)
			continue
		}
		v.eval()
		v.seen(fmt.Sprintf("copy:%d entries, %d kinds", len(before)/10, kinds15(before)))
		if err != nil {
			v.violate("C15:copy-error", "copy of a readable tree failed: %v", err)
		} else if d := faithful15(src, dst); d != "" {
			v.violate("C15:copy-unfaithful", "the copy differs from its source:\n%s", d)
		}
		if d := vTreeDiff(before, strict15(src)); d != "" {
			v.violate("C15:copy-source-touched", "copying changed the source:\n%s", d)
		}
		v.observe("entries copied", len(before))

		// a copy that fails: nothing may happen in the destination once it has returned
		src2 := filepath.Join(base, "src2")
		for k := 0; k < 30; k++ {
			vWriteTree(src2, map[string]string{fmt.Sprintf("d%02d/f", k): "x", fmt.Sprintf("e%02d", k): "y"})
		}
		dst2 := filepath.Join(base, "dst2")
		_ = os.MkdirAll(dst2, 0o755)
		ctx, cancel := context.WithCancel(context.Background())
		how := vPick(r, "blocked", "dir-blocked", "cancel")
		switch how {
		case "blocked": // a directory stands where a file has to go
			_ = os.MkdirAll(filepath.Join(dst2, fmt.Sprintf("e%02d", r.Intn(30)), "x"), 0o755)
		case "dir-blocked":
			vWriteTree(dst2, map[string]string{fmt.Sprintf("d%02d", r.Intn(30)): "a file"})
		}
		var returned atomic.Bool
		var late, count atomic.Int64
		stop := int64(r.Intn(40))
		err = CopyDir(ctx, src2, dst2, func(string, os.FileInfo) {
			if count.Add(1) == stop && how == "cancel" {
				cancel()
			}
			time.Sleep(200 * time.Microsecond)
			if returned.Load() {
				late.Add(1)
			}
		})
		returned.Store(true)
		time.Sleep(3 * time.Millisecond)
		cancel()
		if err == nil && how != "cancel" {
			v.violate("C15:copy-no-error", "a copy which could not be made (%s) reported no error", how)
		}
		if err == nil && how == "cancel" {
			if d := faithful15(src2, dst2); d != "" {
				v.violate("C15:copy-cancelled-no-error", "an incomplete copy reported no error:\n%s", d)
			}
		}
		if late.Load() > 0 {
			v.violate("C15:copy-late", "CopyDir returned (%v) while files were still being copied", err)
		}
		v.observe("failed copies", 1)
		wipe15(base)
	}
}

func kinds15(m map[string]string) int {
	k := map[string]bool{}
	for _, s := range m {
		k[s[:10]] = true
	}
	return len(k)
}

// ---- engine runs with destructive stages ----

type stage15 struct {
	v       *vRun
	name    string
	cfg     *Config
	orig    [3]string // project, gopath, module cache
	tmp     string
	failAt  int
	how     string
	calls   int
	checked bool
}

var errStage15 = errors.New("stage failed")

// at is every stage's work: look at what is there once, destroy it, then fail if it is this stage's turn.
func (s *stage15) at(stage int, cfg Config) error {
	s.calls++
	dirs := [3]string{cfg.AbsProjDir, cfg.Gopath, cfg.Gomodcache}
	if cfg.TmpCopy && !s.checked {
		s.checked = true
		for i, d := range dirs {
			if !strings.HasPrefix(d, s.tmp+"/") {
				s.v.violate("C15:stage-sees-original", "%s: a stage is given %s, which is not a temporary copy", s.name, d)
				return errStage15
			}
			if diff := faithful15(s.orig[i], d); diff != "" {
				s.v.violate("C15:temp-copy-unfaithful", "%s: %s differs from %s:\n%s", s.name, d, s.orig[i], diff)
			}
		}
	}
	if cfg.TmpCopy {
		for _, d := range dirs {
			k := 0
			_ = filepath.WalkDir(d, func(p string, e fs.DirEntry, err error) error {
				if err != nil {
					return nil
				}
				k++
				switch {
				case e.Type().IsRegular():
					if f, err := os.OpenFile(p, os.O_WRONLY|os.O_TRUNC, 0); err == nil {
						_, _ = f.WriteString("ruined")
						_ = f.Close()
					} else {
						s.v.violate("C15:temp-copy-not-writable", "%s: %v", s.name, err)
					}
				case e.Type()&os.ModeSymlink != 0:
					// as an edit of a linked source file would; /dev/null only swallows it
					if t, err := filepath.EvalSymlinks(p); err == nil && (t == "/dev/null" || strings.HasPrefix(t, filepath.Dir(s.tmp)+"/")) {
						if fi, err := os.Stat(t); err == nil && fi.Mode().IsRegular() {
							_ = os.WriteFile(t, []byte("ruined through a link"), 0o644)
						}
					}
				case e.IsDir():
					_ = os.WriteFile(filepath.Join(p, fmt.Sprintf("new%d", stage)), []byte("x"), 0o444)
					if k%5 == 0 {
						_ = os.Chmod(p, 0o500)
					}
				}
				return nil
			})
		}
	}
	if stage == s.failAt {
		if s.how == "panic" {
			panic(errStage15)
		}
		return errStage15
	}
	return nil
}

func (s *stage15) Cleanup() {}
func (s *stage15) AnalyzeModuleChanges(c Config, _ bool, _ []*ModuleChange, _ int) (map[string][]*ModuleFunction, map[string][]*packages.Package, error) {
	return map[string][]*ModuleFunction{"example.com/dep": {{Function: Function{FunctionIdent: "example.com/dep:F"}}}}, nil, s.at(0, c)
}
func (s *stage15) PerformCallerStaticAnalysis(c Config, _ []*ModuleFunction) ([]*CallerFunction, ReachableModuleChange, error) {
	return []*CallerFunction{{Function: Function{FunctionIdent: "p:C"}}}, ReachableModuleChange{}, s.at(1, c)
}
func (s *stage15) ProvideTests(c Config, _ []*CallerFunction) ([]*TestFunction, error) {
	return []*TestFunction{{Function: Function{FunctionIdent: "p:T"}}}, s.at(2, c)
}
func (s *stage15) NewStorage() (Storage, error) {
	if s.failAt == 3 {
		return nil, errStage15
	}
	return NewMemStorage(), nil
}
func (s *stage15) RunModuleUpdateAnalysis(c Config, st Storage, _ []*ModuleChange, _ ReachableModuleChange, _ []*CallerFunction, _ []*TestFunction) (int, int, int, Storage, Storage, error) {
	return 1, 1, 0, st, st, s.at(4, c)
}
func (s *stage15) RunMutationTesting(c Config, _, _, _ bool, _ []*ModuleFunction, _ []*TestFunction) (MutationResult, error) {
	return MutationResult{}, s.at(5, c)
}
func (s *stage15) CompareTestResults(_, _ Storage, _ int) (int, int, []TestReport, error) {
	if s.failAt == 6 {
		return 0, 0, nil, errStage15
	}
	return 1, 0, nil, nil
}
func (s *stage15) WriteReportFiles(_, _ string, _ time.Time, _, _, _, _ time.Duration, _ []*ModuleChange, _ []string, _, _, _ int, _ int,
	_ []*CallerFunction, _ []*TestFunction, _, _ int, _ []TestReport, _ MutationResult) error {
	if s.failAt == 7 {
		return errStage15
	}
	return nil
}

func engines15(v *vRun, r *rand.Rand) {
	layouts := []string{"pkgmod", "separate", "elsewhere", "project-in-gopath"}
	n := v.n(64, 900)
	for i := 0; i < n; i++ {
		base := vTempDir("c15eng")
		layout := layouts[i%len(layouts)]
		s := &stage15{v: v, failAt: (i/len(layouts))%10 - 1, tmp: filepath.Join(base, "tmp"), how: vPick(r, "error", "error", "panic")}
		proj, gopath := filepath.Join(base, "home", "proj"), filepath.Join(base, "home", "gopath")
		modc := filepath.Join(gopath, "pkg", "mod")
		switch layout {
		case "separate":
			modc = filepath.Join(base, "home", "gopath-mods") // a name that extends the other's
		case "elsewhere":
			modc = filepath.Join(gopath, "cache", "..dl") // begins like a parent directory
		case "project-in-gopath":
			proj = filepath.Join(gopath, "src", "proj")
		}
		for _, d := range []string{proj, modc, gopath} {
			grow15(r, d, 5+r.Intn(25))
		}
		vWriteTree(proj, map[string]string{"go.mod": "module example.com/proj\n\ngo 1.24\n\nrequire example.com/dep v1.0.0\n", "pkg/a.go": "package pkg\n", "pkg/run.sh": "#!/bin/sh\n"})
		_ = os.Chmod(filepath.Join(proj, "pkg/run.sh"), 0o755)
		_ = os.Symlink(filepath.Join(proj, "pkg", "a.go"), filepath.Join(proj, "linked.go"))
		_ = os.Symlink(filepath.Join("pkg", "a.go"), filepath.Join(proj, "rel.go"))
		_ = os.MkdirAll(s.tmp, 0o755)
		vWriteTree(s.tmp, map[string]string{"patchlens-other/file": "not ours", "lens_state-1": "x"})
		s.orig = [3]string{proj, gopath, modc}
		broken := ""
		if s.failAt == 8 { // a copy that fails
			s.failAt = -1
			broken = vPick(r, "socket", "socket-gopath", "no-modcache", "no-gopath")
			switch broken {
			case "socket", "socket-gopath":
				d := proj
				if broken == "socket-gopath" {
					d = gopath
				}
				// a short path: the name of a socket is limited
				sock := filepath.Join(os.TempDir(), fmt.Sprintf("s%d", i))
				l, err := net.Listen("unix", sock)
				if err != nil {
					v.unsure("socket: %v", err)
					continue
				}
				l.(*net.UnixListener).SetUnlinkOnClose(false)
				_ = l.Close()
				_ = os.Rename(sock, filepath.Join(d, "zz.sock"))
			case "no-modcache":
				modc = filepath.Join(base, "home", "missing")
			case "no-gopath":
				gopath = filepath.Join(base, "home", "missing")
			}
		}
		cfg := &Config{ProjectDir: proj, ModuleVersionFlag: "example.com/dep@v1.1.0", AstMonitorPort: 20000, MaxFieldRecurse: 5, MaxFieldLen: 100, CacheMB: 10,
			MutationScope: vPick(r, "none", "line"), MutationMode: "fast", MutationTests: "targeted", TmpCopy: i%16 != 15 || broken != "", TimeMultiplier: 1, Gopath: gopath, Gomodcache: modc}
		s.cfg = cfg
		s.name = fmt.Sprintf("%s, stage %d fails (%s), copy %v, broken %q", layout, s.failAt, s.how, cfg.TmpCopy, broken)
		old := os.Getenv("TMPDIR")
		home := strict15(filepath.Join(base, "home"))
		tmpBefore := strict15(s.tmp)
		_ = os.Setenv("TMPDIR", s.tmp)
		var err error
		v.guard("C15:engine", s.name, 5*time.Minute, true, func() {
			defer func() {
				if p := recover(); p != nil && p != any(errStage15) {
					panic(p)
				} else if p != nil {
					err = errStage15
				}
			}()
			e := NewAnalysisEngineWithProviders(cfg, s, s, s, s, s, s, s, s)
			err = e.Run()
		})
		_ = os.Setenv("TMPDIR", old)
		v.eval()
		v.seen(fmt.Sprintf("engine:%s/%d/%s/%v/%s", layout, s.failAt, s.how, cfg.TmpCopy, broken))
		if d := vTreeDiff(home, strict15(filepath.Join(base, "home"))); d != "" {
			v.violate("C15:original-touched", "%s: an analysis of a copy changed the original trees:\n%s", s.name, d)
		}
		after := strict15(s.tmp)
		delete(tmpBefore, ".")
		delete(after, ".")
		if d := vTreeDiff(tmpBefore, after); d != "" {
			v.violate("C15:temp-left", "%s: the run ended (%v) and left or changed in the temp directory:\n%s", s.name, err, vShort(d, 1500))
		}
		if (err == nil) != (s.failAt < 0 && broken == "" || s.failAt == 5 && cfg.MutationScope == "none") {
			v.violate("C15:outcome", "%s: error %v", s.name, err)
		}
		v.observe("engine runs", 1)
		v.observe("stages observed", s.calls)
		wipe15(base)
	}
}

// ---- whole runs of the tool ----

type run15 struct {
	name    string
	layout  string // pkgmod, separate, elsewhere
	tmpcopy bool
	fail    string // go command to fail
	kill    time.Duration
	work    bool
}

func (j run15) run(v *vRun) {
	w := e2eNewWorld("c15run")
	defer w.close()
	switch j.layout {
	case "separate":
		w.modc = filepath.Join(w.dir, "modcache")
	case "elsewhere":
		w.modc = filepath.Join(w.gopath, "dl", "mods")
	}
	_ = os.MkdirAll(w.modc, 0o755)
	dep := func(n int) map[string]string {
		return map[string]string{"go.mod": "module example.com/dep\n\ngo 1.24\n", "dep.go": fmt.Sprintf("package dep\n\nfunc F(a int) int { return a + %d }\n", n)}
	}
	w.publish("example.com/dep", "v1.0.0", dep(1))
	w.publish("example.com/dep", "v1.1.0", dep(2))
	files := map[string]string{
		"go.mod":           "module example.com/proj\n\ngo 1.24\n\nrequire example.com/dep v1.0.0\n",
		"p/p.go":           "package p\n\nimport \"example.com/dep\"\n\n// a comment   with   spacing\nfunc  Use(a int)   int { return dep.F(a) } // odd format\n",
		"p/p_test.go":      "package p\n\nimport (\n\t\"os/exec\"\n\t\"testing\"\n)\n\nfunc TestUse(t *testing.T) {\n\tif out, err := exec.Command(\"../run.sh\").CombinedOutput(); err != nil {\n\t\tt.Fatalf(\"%v %s\", err, out)\n\t}\n\tUse(1)\n\tLinked(2)\n}\n",
		"shared/linked.go": "package p\n\nimport \"example.com/dep\"\n\nfunc Linked(a int) int { return dep.F(a) }\n",
		"run.sh":           "#!/bin/sh\nexit 0\n",
		"keep.bkp":         "mine",
		"p/p.go.bkp":       "mine too",
	}
	root := w.project
	if j.work {
		moved := map[string]string{"go.work": "go 1.24\n\nuse ./m\n"}
		for n, c := range files {
			moved["m/"+n] = c
		}
		files = moved
		root = filepath.Join(w.project, "m")
	}
	vWriteTree(w.project, files)
	_ = os.Chmod(filepath.Join(root, "run.sh"), 0o755)
	_ = os.Symlink(filepath.Join(root, "shared", "linked.go"), filepath.Join(root, "p", "linked.go"))
	for _, args := range [][]string{{"mod", "download", "example.com/dep@v1.1.0"}, {"mod", "tidy"}} {
		if err := w.goRun(root, args...); err != nil {
			v.unsure("%s: %v", j.name, err)
			return
		}
	}
	vWriteTree(w.gopath, map[string]string{"src/other/x.go": "package other\n"})
	_ = os.Chmod(filepath.Join(w.project), 0o755)
	trees := []string{w.project, w.gopath}
	if j.layout == "separate" {
		trees = append(trees, w.modc)
	}
	var strictB, plainB []map[string]string
	for _, t := range trees {
		strictB = append(strictB, strict15(t))
		plainB = append(plainB, vTree(t))
	}
	var env []string
	if j.fail != "" {
		env = append(env, "E2E_FAIL="+j.fail)
	}
	args := []string{"-module", "example.com/dep@v1.1.0", fmt.Sprintf("-tmpcopy=%v", j.tmpcopy)}
	var res e2eResult
	if j.kill > 0 {
		full := append([]string{"-project", w.project, "-json", filepath.Join(w.dir, "report.json"), "-charts", "", "-mutationscope", "none", "-monitorport", fmt.Sprint(e2ePort())}, args...)
		cmd := exec.Command(e2eTool, full...)
		cmd.Dir = w.dir
		cmd.Env = w.env()
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		if err := cmd.Start(); err != nil {
			v.unsure("%s: %v", j.name, err)
			return
		}
		time.Sleep(j.kill)
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		_ = cmd.Wait()
	} else {
		res = w.analyze(8*time.Minute, env, args...)
	}
	v.eval()
	v.seen("run:" + j.name)
	v.observe("whole runs", 1)
	if j.tmpcopy {
		for i, t := range trees {
			if d := vTreeDiff(strictB[i], strict15(t)); d != "" {
				v.violate("C15:tool-touched-original", "%s: a run on a temporary copy touched %s:\n%s\n%s", j.name, filepath.Base(t), vShort(d, 2000), vShort(res.out, 2000))
			}
		}
	} else {
		for i, t := range trees {
			now := vTree(t)
			if i > 0 { // new downloads and the go command's own records are fine
				for k := range now {
					if _, ok := plainB[i][k]; !ok && strings.Contains("/"+k, "/cache/") {
						delete(now, k)
					}
				}
			}
			if d := vTreeDiff(plainB[i], now); d != "" {
				v.violate("C15:tool-not-restored", "%s: after the run %s differs:\n%s\n%s", j.name, filepath.Base(t), vShort(d, 2000), vShort(res.out, 2000))
			}
		}
	}
	if j.kill > 0 {
		return
	}
	if len(res.left) > 0 {
		v.violate("C15:tool-left-temp", "%s: the tool (%v) left %v in the temp directory\n%s", j.name, res.err, res.left, vShort(res.out, 2000))
	}
	if j.fail == "" {
		if res.err != nil || res.report == nil {
			v.violate("C15:run-failed", "%s: the analysis did not complete: %v\n%s", j.name, res.err, vShort(res.out, 4000))
			return
		}
		v.sample(map[string]any{"run": j.name, "report bytes": len(res.raw)})
		if strings.Contains(res.out, "FAIL") {
			v.violate("C15:copy-behaves-differently", "%s: the project's test, which passes in the project, failed in the analysis\n%s", j.name, vShort(res.out, 4000))
		}
	}
}

func runs15(v *vRun, r *rand.Rand) {
	if err := e2ePrepare(); err != nil {
		v.unsure("%v", err)
		return
	}
	jobs := []run15{
		{layout: "pkgmod", tmpcopy: true},
		{layout: "separate", tmpcopy: true, fail: " get "},
		{layout: "elsewhere", tmpcopy: true},
		{layout: "separate", tmpcopy: true, kill: time.Duration(2000+r.Intn(9000)) * time.Millisecond},
		{layout: "pkgmod", tmpcopy: false},
		{layout: "separate", tmpcopy: false, fail: " mod tidy "},
		{layout: "pkgmod", tmpcopy: false, fail: " get ", work: true},
	}
	if v.thorough {
		for _, l := range []string{"pkgmod", "separate", "elsewhere"} {
			for _, c := range []bool{true, false} {
				for _, f := range []string{"", " get ", " mod tidy ", " test ", " clean ", " list "} {
					jobs = append(jobs, run15{layout: l, tmpcopy: c, fail: f, work: len(jobs)%3 == 0})
				}
			}
			for k := 0; k < 6; k++ {
				jobs = append(jobs, run15{layout: l, tmpcopy: true, kill: time.Duration(500+r.Intn(14000)) * time.Millisecond})
			}
		}
	}
	sem := make(chan struct{}, v.n(7, 5))
	var wg sync.WaitGroup
	for _, j := range jobs {
		j.name = fmt.Sprintf("%s tmpcopy=%v fail=%q kill=%v work=%v", j.layout, j.tmpcopy, strings.TrimSpace(j.fail), j.kill > 0, j.work)
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			j.run(v)
		}()
	}
	wg.Wait()
}

func vMain(t *testing.T) {
	vQuiet()
	v := vNew("a case is a copied tree by size and entry kinds, an engine run by layout, failing stage and manner, a whole run by layout, mode and failing command")
	v.assumptions = []string{"an interrupted or killed run cannot remove its temporary directory (only the original trees are judged then)",
		"the copy may grant its owner additional write (directories: all) permission; a link into the copied tree refers to the copy"}
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil { // the engine prints its progress
		os.Stdout = dn
	}
	copies15(v, v.rng("copies"))
	engines15(v, v.rng("engines"))
	runs15(v, v.rng("runs"))
	v.finish(v.n(100, 1000))
}
