package lens

// Whole-tool runs in a scratch world: a file-system module proxy, a GOPATH and module cache of its own, a project, and
// the real modlens binary built from the tree under test. The go command it finds is a wrapper whose only special case is
// "go clean -cache": it really drops everything compiled since, but puts the standard library back, so that a run does not
// recompile it twice. The wrapper can also log, or fail, chosen commands.

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type e2eWorld struct {
	dir     string // everything below
	proxy   string
	gopath  string
	modc    string
	cache   string
	bin     string // holds the go wrapper
	tmp     string // TMPDIR of the tool
	goLog   string
	project string
}

var e2eOnce sync.Once
var e2eTool string
var e2eTemplate string
var e2eErr error

func e2eRealGo() string {
	p, err := exec.LookPath("go")
	if err != nil {
		panic(err)
	}
	return p
}

// e2ePrepare builds the real tool once and keeps a copy of the build cache that holds the standard library.
func e2ePrepare() error {
	e2eOnce.Do(func() {
		s := os.Getenv("VERIF_SCRATCH")
		e2eTool = filepath.Join(s, "modlens")
		cmd := exec.Command(e2eRealGo(), "build", "-o", e2eTool, "./cmd/modlens")
		cmd.Dir = os.Getenv("VERIF_REPO")
		if out, err := cmd.CombinedOutput(); err != nil {
			e2eErr = fmt.Errorf("modlens does not build: %v\n%s", err, out)
			return
		}
		// standard library pieces which tests and the injected client need, with the flags a plain go test uses
		src := filepath.Join(s, "stdwarm")
		vWriteTree(src, map[string]string{
			"go.mod":    "module example.com/warm\n\ngo 1.24\n",
			"w.go":      "package w\n\nimport (\n\t_ \"bufio\"\n\t_ \"bytes\"\n\t_ \"context\"\n\t_ \"encoding/binary\"\n\t_ \"encoding/json\"\n\t_ \"errors\"\n\t_ \"fmt\"\n\t_ \"io\"\n\t_ \"log\"\n\t_ \"math/rand\"\n\t_ \"net/http\"\n\t_ \"reflect\"\n\t_ \"runtime\"\n\t_ \"sort\"\n\t_ \"strings\"\n\t_ \"sync/atomic\"\n\t_ \"time\"\n)\n",
			"w_test.go": "package w\n\nimport \"testing\"\n\nfunc TestW(t *testing.T) {}\n",
		})
		e2eTemplate = filepath.Join(s, "gocache")
		cmd = exec.Command(e2eRealGo(), "test", "./...")
		cmd.Dir = src
		if out, err := cmd.CombinedOutput(); err != nil {
			e2eErr = fmt.Errorf("warm-up test failed: %v\n%s", err, out)
			return
		}
	})
	return e2eErr
}

func e2eNewWorld(name string) *e2eWorld {
	dir := vTempDir(name)
	w := &e2eWorld{dir: dir, proxy: filepath.Join(dir, "proxy"), gopath: filepath.Join(dir, "gopath"), bin: filepath.Join(dir, "bin"),
		cache: filepath.Join(dir, "cache"), tmp: filepath.Join(dir, "tmp"), goLog: filepath.Join(dir, "go.log"), project: filepath.Join(dir, "project")}
	w.modc = filepath.Join(w.gopath, "pkg", "mod")
	for _, d := range []string{w.proxy, w.gopath, w.bin, w.cache, w.tmp, w.modc} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			panic(err)
		}
	}
	script := `#!/bin/bash
echo "$PWD|$*" >> '` + w.goLog + `'
if [ -n "$E2E_FAIL" ] && [[ " $* " == *$E2E_FAIL* ]]; then
	echo "go: injected failure" >&2
	exit 1
fi
if [ "$1" = clean ] && [[ " $* " == *" -cache "* ]]; then
	rm -rf "$GOCACHE"/*
	cp -a '` + e2eTemplate + `'/* "$GOCACHE"/
	exit 0
fi
` + "exec '" + e2eRealGo() + "' \"$@\"\n"
	if err := os.WriteFile(filepath.Join(w.bin, "go"), []byte(script), 0o755); err != nil {
		panic(err)
	}
	return w
}

func (w *e2eWorld) close() {
	_ = filepath.Walk(w.dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.IsDir() {
			_ = os.Chmod(p, 0o755)
		}
		return nil
	})
	_ = os.RemoveAll(w.dir)
}

// publish puts one module version into the proxy.
func (w *e2eWorld) publish(mod, version string, files map[string]string) {
	dir := filepath.Join(w.proxy, mod, "@v")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	names := make([]string, 0, len(files))
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, err := zw.Create(mod + "@" + version + "/" + n)
		if err != nil {
			panic(err)
		}
		_, _ = f.Write([]byte(files[n]))
	}
	_ = zw.Close()
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.WriteFile(filepath.Join(dir, version+".zip"), buf.Bytes(), 0o644))
	must(os.WriteFile(filepath.Join(dir, version+".mod"), []byte(files["go.mod"]), 0o644))
	must(os.WriteFile(filepath.Join(dir, version+".info"), []byte(`{"Version":"`+version+`","Time":"2024-01-02T03:04:05Z"}`), 0o644))
	list, _ := os.ReadFile(filepath.Join(dir, "list"))
	must(os.WriteFile(filepath.Join(dir, "list"), append(list, []byte(version+"\n")...), 0o644))
}

func (w *e2eWorld) env(extra ...string) []string {
	env := []string{"HOME=" + w.dir, "PATH=" + w.bin + ":" + os.Getenv("PATH"), "GOPATH=" + w.gopath, "GOMODCACHE=" + w.modc,
		"GOCACHE=" + w.cache, "GOPROXY=file://" + w.proxy, "GOSUMDB=off", "GOFLAGS=-modcacherw", "GOTOOLCHAIN=local", "GOENV=off",
		"GOTELEMETRY=off", "TMPDIR=" + w.tmp, "GO111MODULE=on", "LANG=C"}
	return append(env, extra...)
}

// goRun runs the real go command in the world.
func (w *e2eWorld) goRun(dir string, args ...string) error {
	cmd := exec.Command(e2eRealGo(), args...)
	cmd.Dir = dir
	cmd.Env = w.env()
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, out)
	}
	return nil
}

// e2ePort finds a base port with a few free ones after it.
var e2ePortMu sync.Mutex
var e2ePortNext = 20000 + os.Getpid()%15000

func e2ePort() int {
	e2ePortMu.Lock()
	defer e2ePortMu.Unlock()
	for {
		base := e2ePortNext
		e2ePortNext += 16
		if e2ePortNext > 60000 {
			e2ePortNext = 20000
		}
		ok := true
		for i := 0; i < 12 && ok; i++ {
			l, err := net.Listen("tcp", fmt.Sprintf("localhost:%d", base+i))
			if err != nil {
				ok = false
			} else {
				_ = l.Close()
			}
		}
		if ok {
			return base
		}
	}
}

type e2eResult struct {
	err    error
	out    string
	report *ReportMetrics
	raw    []byte
	left   []string // what the tool left in its TMPDIR
}

// analyze runs the tool; extra is appended to the environment (KEY=value).
func (w *e2eWorld) analyze(limit time.Duration, extraEnv []string, args ...string) e2eResult {
	rep := filepath.Join(w.dir, "report.json")
	_ = os.Remove(rep)
	full := append([]string{"-project", w.project, "-json", rep, "-charts", "", "-mutationscope", "none", "-monitorport", fmt.Sprint(e2ePort())}, args...)
	ctx, cancel := vCtx(limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, e2eTool, full...)
	cmd.Dir = w.dir
	cmd.Env = w.env(extraEnv...)
	cmd.WaitDelay = 10 * time.Second
	out, err := cmd.CombinedOutput()
	res := e2eResult{err: err, out: string(out)}
	if ctx.Err() != nil {
		res.err = fmt.Errorf("tool did not end within %v", limit)
	}
	if b, rerr := os.ReadFile(rep); rerr == nil {
		res.raw = b
		var m ReportMetrics
		if json.Unmarshal(b, &m) == nil {
			res.report = &m
		}
	}
	if ents, err := os.ReadDir(w.tmp); err == nil {
		for _, e := range ents {
			res.left = append(res.left, e.Name())
		}
	}
	return res
}
