package lens

// C01: catalog and random programs are built and run as they are and instrumented (monitor answering, monitor refusing
// every message, no monitor at all); the recorded behaviour (order of evaluations, results, recovered panics, how each
// case ended, exit status) must be the same. A program that no longer compiles is a violation.

import (
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"
)

type null1 struct {
	mu sync.Mutex
	n  int
}

func (h *null1) HandleFuncPoint(LensMonitorMessagePoint)           { h.mu.Lock(); h.n++; h.mu.Unlock() }
func (h *null1) HandleFuncPointState(LensMonitorMessagePointState) { h.mu.Lock(); h.n++; h.mu.Unlock() }
func (h *null1) HandleFuncPointPanic(LensMonitorMessagePointPanic) { h.mu.Lock(); h.n++; h.mu.Unlock() }

func c01Prog(v *vRun, p *prog, port, refuse, dead int, h *null1) {
	root := vTempDir("c01-")
	defer os.RemoveAll(root)
	if err := p.prepare(false); err != nil {
		v.unsure("program %s does not parse: %v", p.name, err)
		return
	}
	p.write(filepath.Join(root, "orig"))
	orig := filepath.Join(root, "orig.bin")
	if err := p.build(orig); err != nil {
		if strings.HasPrefix(p.name, "random") {
			v.observe("generated programs the compiler rejects (skipped)", 1)
			return
		}
		v.unsure("program %s does not compile: %v", p.name, err)
		return
	}
	p.write(filepath.Join(root, "inst"))
	r := v.rng("instrument " + p.name)
	var ierr error
	if !v.guard("instrument:"+p.name, "instrumenting "+p.name, 3*time.Minute, true, func() { ierr = p.instrument(0, r, true) }) {
		return
	}
	if ierr != nil {
		v.violate("instrument:"+p.name, "program %s: %v", p.name, ierr)
		return
	}
	inst := filepath.Join(root, "inst.bin")
	if err := p.build(inst); err != nil {
		v.eval()
		v.violate("compile:"+p.name, "program %s does not compile once instrumented: %v", p.name, c01Source(p, err))
		return
	}
	want := progExec(orig)
	if want.hung || want.code != 0 && !strings.HasPrefix(p.name, "crash") {
		v.unsure("program %s: original run failed (%d): %s", p.name, want.code, vShort(want.stderr, 500))
		return
	}
	if want.stdout == "" {
		v.unsure("program %s says nothing", p.name)
	}
	for _, mode := range []struct {
		name string
		port int
	}{{"monitor answering", port}, {"monitor refusing", refuse}, {"no monitor", dead}} {
		h.mu.Lock()
		before := h.n
		h.mu.Unlock()
		got := progExec(inst, fmt.Sprintf("LENS_MONITOR_PORT=%d", mode.port))
		v.eval()
		v.observe("instrumented runs, "+mode.name, 1)
		if mode.port == port {
			h.mu.Lock()
			v.observe("events received", h.n-before)
			h.mu.Unlock()
		}
		if got.hung {
			v.violate("hang:"+p.name, "program %s (%s) did not finish", p.name, mode.name)
			continue
		}
		if d := c01Diff(want.stdout, got.stdout); d != "" {
			v.violate("output:"+p.name, "program %s (%s): recorded behaviour differs %s", p.name, mode.name, d)
		}
		if got.code != want.code || c01Crash(got) != c01Crash(want) {
			v.violate("exit:"+p.name, "program %s (%s): ended with %d %q, original with %d %q\n%s", p.name, mode.name, got.code, c01Crash(got), want.code, c01Crash(want), vShort(got.stderr, 1500))
		}
	}
	lines := strings.Split(want.stdout, "\n")
	v.observe("recorded steps compared", 3*len(lines))
	v.observe("functions instrumented", len(p.fns))
	for _, l := range lines {
		if strings.HasPrefix(l, "case ") {
			v.observe("cases", 1)
			v.seen(p.name + l)
		}
	}
}

func c01Crashes() []*prog {
	var l []*prog
	for i, body := range []string{
		`panic("unrecovered")`,
		`var m map[string]int; m["x"] = n`,
		`defer func() { r := recover(); panic(fmt.Sprint("again ", r)) }(); panic("first")`,
		`panic(fmt.Errorf("an error %d", n))`,
		`if n == 1 { os.Exit(3) }; fmt.Println("not reached")`,
	} {
		src := "package p\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\n\t\"example.com/prog/tr\"\n)\n\nvar _ = fmt.Sprint\nvar _ = os.Exit\n\nfunc Drive() {\n\ttr.P(1)\n\tdefer fmt.Println(\"deferred\")\n\tOuter(1)\n}\n\nfunc Outer(n int) int {\n\tdefer tr.P(\"outer\")\n\tInner(n)\n\treturn 1\n}\n\nfunc Inner(n int) {\n\t" + body + "\n}\n"
		p := &prog{name: fmt.Sprintf("crash%d", i), gov: "1.22", files: map[string]string{"p/f.go": src}}
		p.common()
		l = append(l, p)
	}
	return l
}

func vMain(t *testing.T) {
	v := vNew("an evaluation is one run of an instrumented program compared with the original's run; distinct: cases (program, call)")
	vQuiet()
	v.assumptions = []string{"evaluation orders the language leaves open, source lines and closure names in stack traces, goroutine counts and timing are not compared",
		"programs are single-goroutine; diagnostics the client prints to standard error are ignored"}
	h := &null1{}
	port, err := progServer(h)
	if err != nil {
		v.unsure("server: %v", err)
		v.finish(1)
		return
	}
	refuse, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		v.unsure("listen: %v", err)
	}
	go func() { _ = http.Serve(refuse, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(500) })) }()
	dl, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		v.unsure("listen: %v", err)
	}
	dead := dl.Addr().(*net.TCPAddr).Port
	_ = dl.Close()
	progs := append(progAll(v, v.n(28, 400)), c01Crashes()...)
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for _, p := range progs {
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			c01Prog(v, p, port, refuse.Addr().(*net.TCPAddr).Port, dead, h)
		}()
	}
	wg.Wait()
	v.sample(fmt.Sprintf("%d programs", len(progs)))
	if ps := progs[len(progs)-8]; strings.HasPrefix(ps.name, "random") {
		v.sample(vShort(ps.files["p/f0.go"], 1500))
	}
	v.finish(60)
}
