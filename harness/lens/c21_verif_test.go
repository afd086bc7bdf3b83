package lens

// C21: programs whose monitored callees record the values they received are instrumented at every call site of such a
// callee, built and run. The behaviour recorded must be the original's, and every call must have been announced by one
// event of a point of its callee with exactly these values; no event may be left over.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"
)

// c21Callee names the function called, if it is a monitored one.
func c21Callee(call *ast.CallExpr) (any, bool) {
	name := ""
	fun := call.Fun
	if x, ok := fun.(*ast.IndexExpr); ok { // an instantiation
		fun = x.X
	}
	switch f := fun.(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.SelectorExpr:
		name = f.Sel.Name
	}
	return name, strings.HasPrefix(name, "Tgt")
}

type ev21 struct {
	callee string
	msg    LensMonitorMessagePointState
}

type mon21 struct {
	v       *vRun
	p       *prog
	mu      sync.Mutex
	points  map[uint32]string // callee
	other   map[uint32]bool   // return points
	pending []ev21
	log     []string
	caseN   string
	bad     int
	used    map[uint32]bool
}

func (m *mon21) note(s string) {
	m.log = append(m.log, s)
	if len(m.log) > 200 {
		m.log = append([]string(nil), m.log[100:]...)
	}
}

func (m *mon21) fail(what, format string, args ...any) {
	if m.bad++; m.bad > 3 {
		return
	}
	m.v.violate(what+":"+m.p.name, "program %s, case %s: %s\nlast log entries:\n%s", m.p.name, m.caseN, fmt.Sprintf(format, args...),
		strings.Join(m.log[max(0, len(m.log)-15):], "\n"))
}

func (m *mon21) HandleFuncPoint(LensMonitorMessagePoint)           {}
func (m *mon21) HandleFuncPointPanic(LensMonitorMessagePointPanic) {}
func (m *mon21) HandleFuncPointState(msg LensMonitorMessagePointState) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.other[msg.PointID] {
		return
	}
	callee, ok := m.points[msg.PointID]
	if !ok {
		m.fail("point", "event for point %d, which does not exist", msg.PointID)
		return
	}
	m.v.observe("call events", 1)
	m.used[msg.PointID] = true
	m.note("event " + callee + " " + c21Fields(msg.Fields))
	m.pending = append(m.pending, ev21{callee, msg})
}

func c21Fields(l []LensMonitorField) string {
	var s []string
	for _, f := range l {
		s = append(s, f.Name+": "+c02Show(f))
	}
	return strings.Join(s, "; ")
}

// c21Match tells how the values a function received differ from what the event before the call says.
func c21Match(r *rec02, e ev21) string {
	method := ""
	if i := strings.Index(r.Fn, "."); i >= 0 {
		method = r.Fn[i+1:]
	}
	name := r.Fn
	if method != "" {
		name = method
	}
	if name != e.callee {
		return "another function"
	}
	var args []LensMonitorField
	var recv *LensMonitorField
	for i, f := range e.msg.Fields {
		switch {
		case f.Name == fmt.Sprintf("arg%d", len(args)):
			args = append(args, f)
		case i == 0:
			recv = &e.msg.Fields[0]
		default:
			return "unexpected field " + f.Name
		}
	}
	vals := r.Vals
	if method != "" && (recv != nil || len(args) < len(vals)) && !(recv == nil && len(args) == len(vals)) {
		if recv != nil {
			if d := c02Cmp(vals[0], *recv, true); d != "" {
				inner := c02Field(recv.Children, "S") // promoted through the embedded field
				if inner == nil {
					inner = c02Field(recv.Children, "I")
				}
				if inner == nil || c02Cmp(vals[0], *inner, true) != "" {
					return "receiver: " + d
				}
			}
		} else if !c21NoRecv[r.Fn] {
			return "no receiver"
		}
		vals = vals[1:]
	} else if recv != nil {
		return "unexpected field " + recv.Name
	}
	variadic := strings.HasSuffix(name, "TgtV")
	if variadic && len(vals) > 0 {
		last := vals[len(vals)-1].([]any)
		one := len(args) == len(vals) && c02Cmp(last, args[len(args)-1], true) == ""
		if !one { // every value is an argument of its own
			vals = append([]any(nil), vals[:len(vals)-1]...)
			if last[0] == "l" {
				vals = append(vals, last[1:]...)
			}
		}
	}
	if len(args) != len(vals) {
		return fmt.Sprintf("%d arguments captured, %d received", len(args), len(vals))
	}
	for i, want := range vals {
		w := want.([]any)
		if w[0] == "s" && (w[1] == "func" || w[1] == "chan" || w[1] == "map") {
			continue
		}
		if d := c02Cmp(want, args[i], true); d != "" {
			return fmt.Sprintf("arg%d: %s", i, d)
		}
	}
	return ""
}

// receivers which are constants or results of conversions are not always captured
var c21NoRecv = map[string]bool{}

func (m *mon21) record(r *rec02) {
	m.mu.Lock()
	defer m.mu.Unlock()
	switch r.K {
	case "case":
		m.caseN = r.Text
		m.note("case " + r.Text)
	case "log", "caught":
		m.note(r.K + " " + vShort(r.Text, 200))
	case "target":
		m.v.eval()
		m.note(fmt.Sprintf("call %s %v", r.Fn, vShort(fmt.Sprint(r.Vals), 200)))
		diff := "no event"
		for i, e := range m.pending {
			d := c21Match(r, e)
			if d == "" {
				m.pending = append(m.pending[:i:i], m.pending[i+1:]...)
				m.v.observe("calls matched with their event", 1)
				m.v.observe("arguments and receivers compared", len(r.Vals))
				return
			}
			if d != "another function" {
				diff = d
			}
		}
		m.fail("event", "%s was called with %v without an event of that: %s", r.Fn, r.Vals, diff)
	case "end", "exit":
		for _, e := range m.pending {
			m.fail("extra", "event of a call of %s (%s) without the call", e.callee, c21Fields(e.msg.Fields))
		}
		m.pending = nil
	}
}

type inst21 struct {
	points map[uint32]string
	other  map[uint32]bool
	funcs  int
}

// c21Instrument adds the points to the program in p.dir.
func c21Instrument(p *prog, r *rand.Rand, combine int) (*inst21, error) {
	in := &inst21{points: map[uint32]string{}, other: map[uint32]bool{}}
	m := &ASTModifier{}
	dirs := map[string]bool{}
	for file, src := range p.files {
		if !strings.HasPrefix(file, "p/") || strings.HasSuffix(file, "drive.go") {
			continue
		}
		abs := filepath.Join(p.dir, file)
		f, err := parser.ParseFile(token.NewFileSet(), file, src, 0)
		if err != nil {
			return nil, err
		}
		decls := f.Decls
		r.Shuffle(len(decls), func(i, j int) { decls[i], decls[j] = decls[j], decls[i] })
		for _, dd := range decls {
			d, ok := dd.(*ast.FuncDecl)
			if !ok || strings.HasPrefix(d.Name.Name, "Tgt") {
				continue
			}
			any := false
			ast.Inspect(d, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok {
					_, is := c21Callee(c)
					any = any || is
				}
				return true
			})
			fn := &Function{FilePath: abs, PackageName: "example.com/prog/p", FunctionIdent: MakeFunctionIdent("example.com/prog/p", d), FunctionName: d.Name.Name}
			returns := func() error {
				ids, err := m.InjectFuncPointReturnStates(fn)
				for _, id := range ids {
					in.other[id] = true
				}
				return err
			}
			if combine == 1 {
				if _, err := m.InjectFuncPointPanic(fn); err != nil {
					return nil, err
				}
			} else if combine == 2 {
				if err := returns(); err != nil {
					return nil, err
				}
			}
			points, err := m.InjectFuncPointBeforeCall(fn, c21Callee)
			if err != nil {
				return nil, fmt.Errorf("points of %s: %w", fn.FunctionIdent, err)
			}
			if any && len(points) == 0 {
				return nil, fmt.Errorf("%s has no point", fn.FunctionIdent)
			}
			for id, callee := range points {
				if in.points[id] != "" {
					return nil, fmt.Errorf("point %d is used twice", id)
				}
				in.points[id] = callee.(string)
			}
			in.funcs++
			if combine == 3 {
				if err := returns(); err != nil {
					return nil, err
				}
				if _, err := m.InjectFuncPointPanic(fn); err != nil {
					return nil, err
				}
			}
		}
		if err := m.CommitFile(abs); err != nil {
			return nil, fmt.Errorf("commit %s: %w", file, err)
		}
		dirs[filepath.Dir(abs)] = true
	}
	for d := range dirs {
		if err := m.InjectASTClient(d, 0, 10, 200); err != nil {
			return nil, err
		}
	}
	return in, nil
}

func c21Prog(v *vRun, p *prog, refuse, dead, combine int) {
	root := vTempDir("c21-")
	defer os.RemoveAll(root)
	p.write(filepath.Join(root, "orig"))
	orig := filepath.Join(root, "orig.bin")
	if err := p.build(orig); err != nil {
		if d := os.Getenv("E2E_DEBUG"); d != "" {
			_ = os.WriteFile(filepath.Join(d, p.name+".rejected.go"), []byte(p.files["p/f.go"]+"\n/*"+err.Error()), 0o644)
		}
		if strings.HasPrefix(p.name, "random") {
			v.observe("generated programs the compiler rejects (skipped)", 1)
			return
		}
		v.unsure("program %s does not compile: %v", p.name, err)
		return
	}
	want := progExec(orig)
	if d := os.Getenv("E2E_DEBUG"); d != "" && want.code != 0 {
		_ = os.WriteFile(filepath.Join(d, p.name+".failed.go"), []byte(p.files["p/f.go"]+"\n/*"+vShort(want.stderr, 2000)+want.stdout[:min(len(want.stdout), 5000)]), 0o644)
	}
	if want.hung || want.code != 0 || want.stdout == "" {
		v.unsure("program %s: original run failed (%d): %s", p.name, want.code, vShort(want.stderr, 500))
		return
	}
	p.write(filepath.Join(root, "inst"))
	var in *inst21
	var ierr error
	if !v.guard("instrument:"+p.name, "instrumenting "+p.name, 3*time.Minute, true, func() { in, ierr = c21Instrument(p, v.rng("instrument "+p.name), combine) }) {
		return
	}
	if ierr != nil {
		v.violate("instrument:"+p.name, "program %s: %v", p.name, ierr)
		return
	}
	inst := filepath.Join(root, "inst.bin")
	if err := p.build(inst); err != nil {
		v.eval()
		if d := os.Getenv("E2E_DEBUG"); d != "" {
			b, _ := os.ReadFile(filepath.Join(p.dir, "p/f.go"))
			_ = os.WriteFile(filepath.Join(d, p.name+".go"), b, 0o644)
		}
		v.violate("compile:"+p.name, "program %s does not compile once instrumented: %v", p.name, c01Source(p, err))
		return
	}
	if d := os.Getenv("E2E_DEBUG"); d != "" && strings.HasPrefix(p.name, "form") {
		b, _ := os.ReadFile(filepath.Join(p.dir, "p/f.go"))
		_ = os.WriteFile(filepath.Join(d, p.name+".go"), b, 0o644)
	}
	v.observe("call points added", len(in.points))
	v.observe("functions instrumented", in.funcs)
	judge := func(mode string, got progOut) {
		v.observe("instrumented runs, "+mode, 1)
		if got.hung {
			v.violate("hang:"+p.name, "program %s (%s) did not finish", p.name, mode)
			return
		}
		if d := c01Diff(want.stdout, got.stdout); d != "" {
			v.violate("output:"+p.name, "program %s (%s): recorded behaviour differs %s", p.name, mode, d)
		} else if got.code != want.code {
			v.violate("exit:"+p.name, "program %s (%s): ended with %d %q, original with %d\n%s", p.name, mode, got.code, c01Crash(got), want.code, vShort(got.stderr, 1500))
		}
	}
	judge("monitor refusing", progExec(inst, fmt.Sprintf("LENS_MONITOR_PORT=%d", refuse)))
	judge("no monitor", progExec(inst, fmt.Sprintf("LENS_MONITOR_PORT=%d", dead)))
	m := &mon21{v: v, p: p, points: in.points, other: in.other, used: map[uint32]bool{}}
	port, err := progServer(m)
	if err != nil {
		v.unsure("server: %v", err)
		return
	}
	addr, stop := c21Listen(v, m)
	got := progExec(inst, fmt.Sprintf("LENS_MONITOR_PORT=%d", port), "TR_ADDR="+addr)
	stop()
	judge("monitor answering", got)
	for _, e := range m.pending {
		m.fail("extra", "event of a call of %s (%s) without the call", e.callee, c21Fields(e.msg.Fields))
	}
	v.observe("call points seen firing", len(m.used))
	for id := range m.used {
		v.seen(fmt.Sprintf("%s %d", p.name, id))
	}
	lines := strings.Split(want.stdout, "\n")
	v.observe("recorded steps compared", 3*len(lines))
}

func c21Listen(v *vRun, m *mon21) (addr string, stop func()) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		v.unsure("listen: %v", err)
		return "", func() {}
	}
	done := make(chan bool)
	go func() {
		defer close(done)
		c, err := l.Accept()
		if err != nil {
			return
		}
		defer c.Close()
		rd := bufio.NewReaderSize(c, 1<<20)
		for {
			line, err := rd.ReadBytes('\n')
			if err != nil {
				return
			}
			r := &rec02{}
			if err := json.Unmarshal(line, r); err != nil {
				v.unsure("record: %v", err)
			} else {
				m.record(r)
			}
			if _, err := c.Write([]byte{1}); err != nil {
				return
			}
		}
	}()
	return l.Addr().String(), func() { l.Close(); <-done }
}

// c21Forms are programs of one statement each. Some of these are known not to work, each is judged by itself.
// c21Places has function literals holding monitored calls at every place of every statement: # is such a literal.
func c21Places() string {
	prelude, _, _ := strings.Cut(progRead("cat_call.go.txt"), "// ---- statements ----")
	var b strings.Builder
	b.WriteString(prelude)
	b.WriteString(`
func run(f func() int) int { return f() + 1 }
func run2(f, g func() int) (int, int) { return f(), g() }
func opt(a int, l ...func() int) int { for _, f := range l { a += f() }; return a }
func keep(f func() int) func() int { return f }
func send(c chan int, f func() int) { c <- f() }
func list(f func() int) []int { return []int{f(), f()} }
func str(f func() int) error { return fmt.Errorf("made %d", f()) }

type H struct{ f func() int; l []func() int }

func (h H) call() int { return h.f() }
func (h *H) set(f func() int) *H { h.f = f; return h }

var _, _, _, _, _ = math.Pi, sort.Ints, strings.ToUpper, strange.K, errors.New
`)
	k := 0
	lit := func() string {
		k++
		return fmt.Sprintf([]string{
			"func() int { return TgtI(n + %d) }",
			"func() int { x := TgtI(tr.I(%d)); return x }",
			"func() int { TgtI(%d); return n }",
			"func() int { if TgtB(n + %d) { return 1 }; return 2 }",
			"func() int { defer TgtI(%d); return 3 }",
			"func() int { return func() int { return TgtI(%d) }() }",
			"func() (r int) { for i := 0; i < 2; i++ { r += TgtI(i * %d) }; return }",
			"func() int { switch x := TgtI(%d); { case x > n: return x; default: return n } }",
		}[k%8], k)
	}
	for i, t := range []string{
		`run(#)`, `x := run(#); tr.P(x)`, `var x = run(#); tr.P(x)`, `var x, y = run(#), run(#); tr.P(x, y)`, `x, y := run2(#, #); tr.P(x, y)`,
		`f := #; tr.P(f())`, `var f func() int = #; tr.P(f())`, `var f func() int; f = #; tr.P(f(), 1)`,
		`x := 1; x += run(#); x <<= uint(run(#) & 1); tr.P(x)`,
		`l := []int{1, 2}; l[run(#) & 1] = 5; tr.P(l)`, `l := []int{1, 2}; l[run(#) & 1]++; tr.P(l)`, `m := map[int]int{}; m[run(#)] += run(#); tr.P(len(m))`,
		`l := []func() int{#, 1: #}; tr.P(l[0](), l[1]())`, `m := map[string]func() int{"a": #}; tr.P(m["a"]())`, `m := map[int]string{run(#): "x"}; tr.P(len(m))`,
		`h := H{f: #, l: []func() int{#, #}}; tr.P(h.call(), h.l[1]())`, `h := &H{#, nil}; tr.P(h.f())`, `tr.P(H{f: #}.call())`, `tr.P((&H{}).set(#).call())`,
		`if run(#) > 2 { tr.P("yes") } else { tr.P("no") }`, `if x := run(#); x > 2 { tr.P("yes") } else if y := run(#); y > x { tr.P("less") } else { run(#) }`,
		`if n > 90 { tr.P(1) } else if run(#) > 3 { tr.P(2) } else if run(#) > 3 { tr.P(3) } else { f := #; f() }`,
		`for i := run(#) & 1; i < 2; i++ { tr.P(i) }`, `for i := 0; i < run(#) & 3; i++ { tr.P(i) }`, `for i := 0; i < 3; i += run(#) & 1 + 1 { tr.P(i) }`,
		`for i := 0; i < 2; i++ { tr.P(run(#)); if i == 0 { continue }; run(#) }`, `for _, x := range list(#) { tr.P(x); run(#) }`, `l := []int{4, 5}; for l[run(#) & 1] = range []int{7} { tr.P(1) }; tr.P(l)`,
		`for run(#) < 0 { }; for { run(#); break }`,
		`switch run(#) { case 1: tr.P(1); default: run(#) }`, `switch x := run(#); x { case n: tr.P(1); case n + 1: f := #; tr.P(f()) }`, `switch n + 1 { case run(#): tr.P("first"); case 77, run(#): tr.P("second"); default: run(#) }`,
		`switch { case run(#) > 100: tr.P(1); case run(#) > 1: tr.P(2); fallthrough; case n == 55: run(#) }`,
		`switch x := interface{}(run(#)).(type) { case int: tr.P(x); run(#); case nil: run(#) }`, `switch x := run(#); y := interface{}(x).(type) { case int: tr.P(y) }`,
		`c := make(chan int, 2); c <- run(#); tr.P(<-c)`, `c := make(chan func() int, 2); c <- #; tr.P((<-c)())`, `l := []chan int{make(chan int, 1), make(chan int, 1)}; l[run(#) & 1] <- 4; tr.P(len(l[0]))`,
		`c := make(chan int, 2); select { case c <- run(#): run(#); default: run(#) }; select { case x := <-c: tr.P(x); run(#); default: tr.P("empty") }`,
		`c := make(chan int); select { case <-map[bool]chan int{true: c}[run(#) > 100]: tr.P("never"); default: run(#) }`,
		`c := make(chan int, 1); l := []int{1, 2}; c <- 3; select { case l[run(#) & 1] = <-c: }; tr.P(l)`,
		`c := make(chan int, 1); var f func(); select { case c <- 1: f = func() { TgtI(n); run(#) } }; f()`,
		`defer run(#)`, `defer func() { run(#) }()`, `defer func(a int, f func() int) { tr.P(a + f()) }(run(#), #)`, `defer (&H{}).set(#).call()`, `for i := 0; i < 2; i++ { defer opt(i, #, #) }`,
		`c := make(chan int); go send(c, #); tr.P(<-c)`, `c := make(chan int); go func(f func() int) { c <- f() }(#); tr.P(<-c)`, `c := make(chan int); go func(a int, f func() int) { c <- a + f() }(run(#), #); tr.P(<-c)`,
		`c := make(chan int); go func() { c <- run(#) }(); tr.P(<-c)`, `c := make(chan int); f := func(a int) { c <- a }; go f(run(#)); tr.P(<-c)`, `c := make(chan bool); go keep(func() int { defer close(c); return TgtI(n) })(); <-c`,
		`x := func() int { return run(#) }(); tr.P(x)`, `f := func(a func() int) int { return a() + run(#) }; tr.P(f(#))`, `tr.P(func(f ...func() int) int { return f[0]() + f[1]() }(#, #))`,
		`f := func() (func() int, int) { return #, 4 }; g, y := f(); tr.P(g(), y)`, `tr.P(opt(opt(1, #), #))`, `tr.P(opt(run(#), []func() int{#, #}...))`,
		`x := []int{1, 2, 3}[run(#) & 1:]; tr.P(x)`, `x := -run(#); y := !(run(#) > 2); tr.P(x, y)`, `x := interface{}(#).(func() int)(); tr.P(x)`, `p := &[]func() int{#}[0]; tr.P((*p)())`, `x := (run(#)); tr.P(x, (#)())`, `x := int64(run(#)); tr.P(x)`,
		`x := n > 0 && run(#) > 1 || run(#) > 2; tr.P(x)`, `{ run(#); { f := #; f() } }`, `lab: for { run(#); for { f := #; f(); break lab } }`, `i := 0; again: f := #; f(); i++; if i < 2 { goto again }`,
		`func() { defer func() { tr.Caught(recover()) }(); panic(run(#)) }()`, `func() { defer func() { tr.Caught(recover()) }(); panic(str(#)) }()`, `const q = 4; type loc struct{ f func(int) int }; tr.P(loc{func(a int) int { return TgtI(a) }}.f(q))`,
		`var ( x = run(#); f = # ); tr.P(x, f())`, `var r func(k int) int; r = func(k int) int { if k == 0 { return run(#) }; return r(k - 1) }; tr.P(r(2))`,
		`sort.Slice([]int{2, 1}, func(i, j int) bool { TgtI(i + j); return i < j })`, `tr.P(strings.Map(func(r rune) rune { return rune(TgtI(int(r))) }, "ab"))`,
		`func() { for range []int{1} { func() { run(#) }() } }()`, `x := [...]func() int{2: #}; tr.P(len(x), x[2]())`, `a, b := #, #; a, b = b, a; tr.P(a(), b())`, `_ = run(#); _, _ = #, run(#)`,
		`f := #; g := f; f = func() int { return g() + TgtI(n) }; tr.P(f())`, `var h H; h.f = #; h.l = append(h.l, #, h.f); for _, f := range h.l { tr.P(f()) }`,
	} {
		for strings.Contains(t, "#") {
			t = strings.Replace(t, "#", lit(), 1)
		}
		fmt.Fprintf(&b, "\n//do: Place%d(1)\n//do: Place%d(4)\nfunc Place%d(n int) {\n%s\n}\n", i, i, i, t)
		if i%5 == 0 {
			fmt.Fprintf(&b, "\n//do: Ret%d(2)\nfunc Ret%d(n int) (int, func() int) { return run(%s), %s }\n", i, i, lit(), lit())
		}
	}
	return b.String()
}

func c21Forms() []*prog {
	prelude, _, _ := strings.Cut(progRead("cat_call.go.txt"), "// ---- statements ----")
	var l []*prog
	for _, f := range [][2]string{
		{"nested calls", `TgtI(TgtI(tr.I(n)))`},
		{"call as receiver", `s.TgtPM(tr.I(1)).TgtPM(2)`},
		{"two calls in an expression", `tr.P(TgtI(n) + TgtI(tr.I(n+1)))`},
		{"two assigned calls", `x, y := TgtI(n), TgtI(tr.I(n+1)); tr.P(x, y)`},
		{"calls of condition and left operand", `if TgtB(n) && TgtI(n) > 0 { tr.P(1) }`},
		{"call in both operands", `ok := n > 0 && TgtB(n) || TgtI(n) > 7; tr.P(ok)`},
		{"two calls in a select", `ch := make(chan int, 1); select { case ch <- TgtI(n): case ch <- TgtI(n+1): }`},
		{"call in two case lists", `switch tr.I(n) { case TgtI(0): tr.P(0); case TgtI(n): tr.P(1) }`},
		{"case expression", `switch n { case TgtI(tr.I(n)): tr.P(1) }`},
		{"earlier operand", `tr.P(tr.I(n) + TgtI(tr.I(n+1)))`},
		{"earlier argument", `tr.P(tr.I(n), TgtI(tr.I(n+1)))`},
		{"earlier assigned value", `x, y := tr.I(n), TgtI(tr.I(n+1)); tr.P(x, y)`},
		{"variable changed by an earlier operand", `x := 1; tr.P(func() int { x = 5; return 2 }(), TgtI(x))`},
		{"condition of a literal's result", `x := []int{1, TgtI(tr.I(2)), tr.I(3)}; tr.P(x)`},
		{"method expression of an imported type", `strange.T.TgtOM(strange.T{N: 3}, n)`},
		{"function of an imported package with another name", `strange.TgtO(tr.I(n), "x")`},
		{"untyped nil function", `func() { defer func() { tr.Caught(recover()) }(); var f func(int) int; TgtFn(f, tr.I(n)) }()`},
		{"generic function", `tr.P(TgtG1[int](tr.I(n)), 1); tr.P(TgtG1("x"))`},
		{"range over a function", `for x := range TgtSeq(tr.I(3)) { tr.P(x); TgtI(x) }`},
		{"range over an integer", `for x := range TgtI(3) { tr.P(x) }`},
		{"min and max", `tr.P(TgtI(min(n, tr.I(3))), 1)`},
		{"conversion of an argument", `TgtFn(Fn(next1), tr.I(n))`},
		{"array element of a call's result", `TgtI([3]int{1, tr.I(2), 3}[1])`},
		{"address of an element", `l := []S{{A: 1}}; TgtP(&l[tr.I(0)]); tr.P(l)`},
		{"map element", `m := map[string]S{"a": {A: 1}}; TgtR(m[tr.S("a")]); m["a"].TgtM(tr.I(1))`},
		{"comma ok", `var i interface{} = n; x, ok := i.(int); if ok { TgtI(x) }; m := map[int]int{}; v, has := m[TgtI(tr.I(2))]; tr.P(v, has)`},
		{"receive", `ch := make(chan int, 1); ch <- 3; v, ok := <-TgtCh(ch, tr.I(1)); tr.P(v, ok)`},
		{"receive in a select", `ch := make(chan int, 1); ch <- 3; select { case v := <-TgtCh(ch, tr.I(1)): tr.P(v) }`},
		{"argument of a type of its own", `type loc struct{ A int }; x := loc{tr.I(1)}; TgtX(x)`},
		{"struct of an anonymous type", `TgtX(struct{ A, B int }{n, tr.I(2)})`},
		{"function returning a function", `tr.P(TgtMk(tr.I(2))(tr.I(3)))`},
		{"immediately called result", `TgtMk(2)(tr.I(3))`},
		{"deferred result", `defer TgtMk(tr.I(2))(tr.I(3)); tr.P(1)`},
		{"goroutine of a result", `d := make(chan int); go TgtMkc(d)(tr.I(3)); tr.P(<-d)`},
		{"deferred method of a call's result", `defer mk(n).TgtPM(tr.I(2)); tr.P(1)`},
		{"deferred interface method", `var i I = S{A: 3}; defer i.TgtM(tr.I(2)); i = nil; tr.P(1)`},
		{"nil receiver", `var q *S; TgtI(1); q.TgtNil(tr.I(2))`},
		{"panicking argument", `func() { defer func() { tr.Caught(recover()) }(); TgtI([]int{1}[n+tr.I(3)]) }()`},
		{"panicking receiver", `func() { defer func() { tr.Caught(recover()) }(); var q *P; q.In.TgtPM(2) }()`},
		{"large argument", `TgtX(make([]int, 150))`},
		{"struct with a function", `TgtX(struct{ f func() }{})`},
		{"value changed by the call", `l := []int{1, 2}; TgtSet(l, tr.I(5)); tr.P(l)`},
		{"short variable used by a later clause", `if x := TgtI(n); x > 100 { tr.P(1) } else if y := TgtI(x + 1); y > 100 { tr.P(2) } else { tr.P(x, y) }`},
		{"shadowed argument name", `x := 1; { x := TgtI(x + tr.I(1)); TgtI(x) }; TgtI(x)`},
		{"shadowed bool", `bool := 3; if n > 0 && TgtB(bool) { tr.P(bool) }`},
		{"shadowed true", `true := 3; var f Flag = n > 0 && TgtI(true) > 1; tr.P(f == f); TgtG(n > 2)`},
		{"shadowed int64", `int64 := 2; TgtX(1 << 40); TgtI(int64)`},
		{"shadowed nil", `nil := 2; TgtI(nil + tr.I(1))`},
		{"label without a goto", "again:\n for i := 0; TgtI(i) < 2; i++ { for { continue again } }"},
		{"goto over a call", `if n > 5 { goto end }; TgtI(tr.I(n)); end: tr.P(1)`},
		{"call in a composite literal's key", `m := map[int]int{TgtI(tr.I(1)): tr.I(2)}; tr.P(m[1])`},
		{"address of a literal", `TgtP(&S{A: tr.I(1)}); (&S{A: tr.I(2)}).TgtPM(1)`},
		{"embedded interface", `x := struct{ I }{S{A: 2}}; x.TgtM(tr.I(1))`},
		{"embedded pointer", `x := struct{ *S }{&S{A: 2}}; x.TgtPM(tr.I(1)); tr.P(x.S)`},
	} {
		p := &prog{name: "form:" + f[0], gov: "1.25", files: map[string]string{}}
		p.files["p/tgt.go"] = prelude + `func TgtG1[X any](x X) X { tr.T("TgtG1", x); return x }

func TgtSeq(n int) func(func(int) bool) {
	tr.T("TgtSeq", n)
	return func(yield func(int) bool) {
		for i := 0; i < n && yield(i); i++ {
		}
	}
}

func TgtMk(n int) func(int) int { tr.T("TgtMk", n); return func(a int) int { tr.P("called", a); return a + n } }

func TgtMkc(c chan int) func(int) { tr.T("TgtMkc", "chan"); return func(a int) { c <- a } }

func TgtSet(l []int, a int) { tr.T("TgtSet", l, a); l[0] = a }

func (s *S) TgtNil(a int) { tr.T("S.TgtNil", s, a) }

func next1(a int) int { return tr.I(a) }

var _, _, _, _, _, _ = math.Pi, sort.Ints, strings.ToUpper, strange.K, errors.New, fmt.Sprint
`
		p.files["odd-name/v2/odd.go"] = progRead("odd.go.txt")
		imp := "import \"example.com/prog/tr\"\n"
		if strings.Contains(f[1], "strange.") {
			imp += "import \"example.com/prog/odd-name/v2\"\n"
		}
		p.files["p/f.go"] = "package p\n\n" + imp + "\nfunc F(n int) {\n\ttr.P(n)\n\ts := S{A: n}\n\t_ = s\n\t" + f[1] + "\n}\n"
		p.files["p/drive.go"] = "package p\n\nimport \"example.com/prog/tr\"\n\nfunc Drive() {\n\ttr.Case(\"form 0\", func() { F(0) })\n\ttr.Case(\"form 1\", func() { F(1) })\n}\n"
		p.common()
		l = append(l, p)
	}
	return l
}

// ---- random programs ----

type gen21 struct {
	r      *rand.Rand
	b      strings.Builder
	k      int
	depth  int
	budget int
	ints   []string
	lits   int
	loops  int
}

func (g *gen21) num() int { g.k++; return g.k }

func (g *gen21) p(format string, a ...any) {
	g.b.WriteString(strings.Repeat("\t", g.depth) + fmt.Sprintf(format, a...))
	if g.r.Intn(15) == 0 {
		g.b.WriteString(vPick(g.r, " // trailing", " /* block */", "\n// own line", "\n"))
	}
	g.b.WriteString("\n")
}

func (g *gen21) v() string { return g.ints[len(g.ints)-1-g.r.Intn(min(len(g.ints), 5))] }

// num expressions without a monitored call
func (g *gen21) i(d int) string {
	r := g.r
	if d > 2 {
		return vPick(r, g.v(), fmt.Sprint(g.num()), "n")
	}
	switch r.Intn(20) {
	case 0, 1, 2, 3:
		return fmt.Sprintf("tr.I(%s)", g.i(d+1))
	case 4:
		return fmt.Sprintf("%s + %s", g.i(d+1), g.i(d+1))
	case 5:
		return fmt.Sprintf("l[%s]", vPick(r, "0", "n%3", "tr.I(2)", "len(l)-1"))
	case 6:
		return vPick(r, "s.A", "p.In.A", "p.Ptr.A", "p.A", "p.L[0].A", "(*sp).A", "sp.A", "p.M[\"a\"].A")
	case 7:
		return fmt.Sprintf("mk(%s).A", g.i(d+1))
	case 8:
		return fmt.Sprintf("func() int { return %s }()", g.i(d+1))
	case 9:
		return vPick(r, "kInt", "-4", "kInt*2", "int('z')", "len(kStr)", "1<<4", "(3)", "int(kE)")
	case 10:
		return fmt.Sprintf("len(%s)", g.s(d+1))
	case 11:
		return fmt.Sprintf("int(E(%s))", g.i(d+1))
	case 12:
		return fmt.Sprintf("(%s)", g.i(d+1))
	case 13:
		return fmt.Sprintf("-%s", vPick(r, "n", "tr.I(n)", g.v()))
	case 14:
		return fmt.Sprintf("n<<%d", 1+r.Intn(3))
	case 15:
		return fmt.Sprintf("*func() *int { q := %s; return &q }()", g.i(d+1))
	}
	return g.v()
}

func (g *gen21) s(d int) string {
	r := g.r
	if d > 2 {
		return fmt.Sprintf("%q", fmt.Sprint("s", g.num()))
	}
	return vPick(r, fmt.Sprintf("tr.S(%s)", g.s(d+1)), fmt.Sprintf("%q", fmt.Sprint("s", g.num())), "kStr", "s.B", "kStr + \"x\"",
		fmt.Sprintf("strings.Repeat(%s, 2)", g.s(d+1)), "`raw`", "mk(n).B")
}

func (g *gen21) cond(d int) string {
	r := g.r
	return vPick(r, fmt.Sprintf("n > %d", r.Intn(4)), fmt.Sprintf("tr.B(%s)", vPick(r, "true", "false", "n == 1", "n > 1")), fmt.Sprintf("%s < %s", g.v(), g.v()), "sp != nil",
		fmt.Sprintf("n == %d", r.Intn(4)), fmt.Sprintf("%s %% 2 == 0", g.v()))
}

// callI is a monitored call with an int result.
func (g *gen21) callI() string {
	r := g.r
	switch r.Intn(14) {
	case 0:
		return fmt.Sprintf("s.TgtM(%s)", g.i(1))
	case 1:
		return fmt.Sprintf("%s.TgtM(%s)", vPick(r, "sp", "p", "p.In", "p.Ptr", "p.L[0]", "p.L[tr.I(1)]", "mkS(n)", "mk(n)", "(*sp)", "p.M[\"a\"]", "kE", "E(n)", "(&s)", "(S{A: n})", "p.S"), g.i(1))
	case 2:
		return fmt.Sprintf("TgtV(%s%s)", g.i(1), vPick(r, "", ", 4", ", "+g.i(1), ", "+g.i(1)+", "+g.i(2), ", l...", ", l[1:]...", ", []int{n, "+g.i(2)+"}..."))
	case 3:
		return fmt.Sprintf("%s.TgtPM(%s).A", vPick(r, "sp", "s", "p.In", "p.Ptr", "p.L[0]", "p.L[tr.I(1)]", "mk(n)", "(&s)", "p.M[\"a\"]", "p.S", "(*S)(sp)"), g.i(1))
	case 4:
		return "Tgt0()"
	case 5:
		return fmt.Sprintf("TgtFn(func(a int) int { return a + %s }, %s)", g.i(2), g.i(1))
	case 6:
		return fmt.Sprintf("TgtBy(%s, 'r', 3)", vPick(r, "byte(n)", "byte("+g.v()+")", "9", "byte(tr.I(n))"))
	case 7:
		return fmt.Sprintf("len(TgtS(%s, %s))", g.s(0), g.i(1))
	case 8:
		return fmt.Sprintf("TgtR(S{A: %s, B: %s}).A", g.i(1), g.s(1))
	case 9:
		return fmt.Sprintf("TgtX(%s).(int)", vPick(r, "tr.A(n).(int)", "interface{}("+g.v()+").(int)", g.v()))
	}
	return fmt.Sprintf("TgtI(%s)", g.i(0))
}

// callB is a monitored call in a condition; nothing that is recorded is evaluated before it, unless it may be left out.
func (g *gen21) callB(guard bool) string {
	r := g.r
	c := fmt.Sprintf("TgtB(%s)", g.i(0))
	if r.Intn(3) == 0 {
		c = fmt.Sprintf("%s %s %s", g.callI(), vPick(r, ">", "<", "==", "!="), fmt.Sprint(g.num()))
	}
	if guard {
		switch r.Intn(6) {
		case 0:
			return fmt.Sprintf("%s && %s", g.cond(0), c)
		case 1:
			return fmt.Sprintf("%s || %s", g.cond(0), c)
		case 2:
			return fmt.Sprintf("%s && %s || %s", g.cond(0), c, g.cond(0))
		case 3:
			return fmt.Sprintf("%s && (%s && %s)", g.cond(0), g.cond(0), c)
		case 4:
			return fmt.Sprintf("!(%s || %s && %s)", g.cond(0), g.cond(0), c)
		}
	}
	return c
}

func (g *gen21) block(n int, vars ...string) {
	save := len(g.ints)
	g.ints = append(g.ints, vars...)
	g.depth++
	for ; n > 0; n-- {
		g.stmt()
	}
	for _, v := range vars {
		g.p("_ = %s", v)
	}
	g.depth--
	g.ints = g.ints[:save]
}

func (g *gen21) stmt() {
	r := g.r
	if g.budget--; g.budget < 0 || g.depth > 4 {
		g.p("%s", vPick(r, "tr.P("+g.v()+")", "TgtI("+g.i(1)+")", "tr.P("+g.callI()+")"))
		return
	}
	sub := func() int { return 1 + r.Intn(3) }
	x := func() string { return fmt.Sprintf("%s%d", vPick(r, "x", "y", "i"), g.num()) }
	switch r.Intn(30) {
	case 0:
		g.p("%s", vPick(r, "TgtI("+g.i(0)+")", "TgtS("+g.s(0)+", "+g.i(0)+")", "TgtB("+g.i(0)+")", "TgtX("+vPick(r, g.i(0), g.s(0), "nil", "s", "sp", "n > 1", "errPkg")+")",
			"TgtErr(fmt.Errorf(\"e%d\", "+g.i(1)+"), "+g.i(1)+")", "TgtE(E("+g.i(1)+"), n > "+fmt.Sprint(r.Intn(3))+")", "TgtL([]int{"+g.i(1)+", "+g.i(1)+"})", "Tgt2(two("+g.i(1)+"))",
			"TgtF("+vPick(r, "2", "1.5", "float64("+g.i(1)+")", "kInt/5.0")+", "+vPick(r, "3", "math.Pi", "float64(n)")+")", "TgtU("+vPick(r, "1<<63", "uint64("+g.i(1)+")", "math.MaxUint64", "1<<uint(n)")+")",
			"sp.TgtPM("+g.i(0)+")", "p.In.TgtPM("+g.i(0)+")", "s.TgtPM("+g.i(0)+")", "TgtP("+vPick(r, "sp", "&s", "nil", "mk(n)", "p.Ptr")+")",
			"strange.TgtO("+g.i(0)+", "+g.s(1)+")", "strange.Value.TgtOM("+g.i(0)+")", "strange.New("+g.i(1)+").TgtOM("+g.i(1)+")"))
	case 1, 2:
		v := x()
		g.p("%s := %s", v, g.callI()+vPick(r, "", " + "+g.i(1), " * 2"))
		g.p("_ = %s", v)
		g.ints = append(g.ints, v)
	case 3:
		v, w := x(), x()
		g.p("var %s, %s int = %s, %s", v, w, vPick(r, "n", "3", "s.A"), g.callI())
		g.p("_, _ = %s, %s", v, w)
		g.ints = append(g.ints, v, w)
	case 4:
		v := g.v()
		if v != "n" && !strings.HasPrefix(v, "i") {
			g.p("%s %s %s", v, vPick(r, "=", "+=", "^="), g.callI())
		}
	case 5:
		g.p("%s = %s", vPick(r, "s.A", "p.In.A", "l[1]", "p.Ptr.A", "p.M[\"a\"].A", "p.L[1].A"), g.callI())
	case 6:
		g.p("l[TgtI(%s)%%3]%s", vPick(r, "1", "2", "n", "tr.I(4)"), vPick(r, "++", "--", " = 5", " += 2"))
	case 7, 8, 9:
		switch r.Intn(4) {
		case 0:
			v := x()
			g.p("if %s := %s; %s > %d {", v, g.callI(), v, r.Intn(20))
			g.block(sub(), v)
		case 1:
			v := x()
			g.p("if %s := %s; %s {", v, g.i(1), g.callB(true))
			g.block(sub(), v)
		case 2:
			v := x()
			g.p("if %s := %s; %s {", v, g.callI(), g.callB(true))
			g.block(sub(), v)
		default:
			g.p("if %s {", g.callB(true))
			g.block(sub())
		}
		for k := r.Intn(3); k > 0; k-- {
			if r.Intn(2) == 0 {
				v := x()
				g.p("} else if %s := %s; %s {", v, vPick(r, g.i(1), g.callI()), vPick(r, g.callB(true), g.cond(0), v+" > 9"))
				g.block(sub(), v)
			} else {
				g.p("} else if %s {", g.callB(true))
				g.block(sub())
			}
		}
		if r.Intn(2) == 0 {
			g.p("} else {")
			g.block(sub())
		}
		g.p("}")
	case 10, 11, 12:
		if g.loops > 1 {
			g.p("tr.P(%s)", g.callI())
			return
		}
		g.loops++
		label := ""
		if r.Intn(3) == 0 {
			label = fmt.Sprintf("L%d", g.num())
			g.p("%s:", label)
		}
		v := fmt.Sprintf("i%d", g.num())
		body := func() {
			g.block(sub(), v)
			if r.Intn(3) == 0 {
				g.p("if %s > 7 || %s { %s }", v, g.cond(0), vPick(r, "break", "continue"))
			}
			if label != "" {
				g.p("if %s > 1 && %s { %s %s }", v, g.cond(0), vPick(r, "break", "continue"), label)
			}
			if r.Intn(4) == 0 {
				g.p("fs = append(fs, func() { TgtI(%s) })", v)
			}
			if label != "" {
				g.p("if %s > 99 { break %s }", v, label)
			}
		}
		switch r.Intn(6) {
		case 0:
			g.p("for %s := 0; TgtI(%s) < %d; %s++ {", v, v, 1+r.Intn(4), v)
		case 1:
			g.p("for %s := 0; %s < 2 && (%s); %s++ {", v, v, g.callB(true), v)
		case 2:
			g.p("for %s := 0; %s < 3; %s = TgtI(%s + 1) {", v, v, v, v)
		case 3:
			g.p("for %s := TgtI(%s) %% 3; %s < 3; %s++ {", v, vPick(r, "0", "1", "tr.I(1)"), v, v)
		case 4:
			g.p("for _, %s := range TgtL([]int{%s, %s}) {", v, g.i(1), g.i(1))
		default:
			g.p("for %s := TgtI(0); TgtI(%s+tr.I(0)) < 3; %s = TgtI(%s + tr.I(1)) {", v, v, v, v)
		}
		body()
		g.p("}")
		g.loops--
	case 13:
		v := x()
		g.p("switch %s := %s; %s {", v, vPick(r, g.i(1), g.callI()), vPick(r, v+"%3", g.callI()+" % 3"))
		for k := 0; k < 3; k++ {
			if r.Intn(3) > 0 {
				g.p("case %d:", k)
				g.block(sub(), v)
				if r.Intn(4) == 0 {
					g.p("fallthrough\ncase %d:", 10+k)
				}
			}
		}
		g.p("default:")
		g.block(sub(), v)
		g.p("}")
	case 14:
		g.p("switch {")
		for k := 0; k < 1+r.Intn(3); k++ {
			g.p("case %s%s:", vPick(r, g.callB(true), g.cond(0)), vPick(r, "", ", "+g.callB(true), ", "+g.cond(0)))
			g.block(sub())
		}
		if r.Intn(2) == 0 {
			g.p("default:")
			g.block(sub())
		}
		g.p("}")
	case 15:
		v := x()
		g.p("switch %s := TgtX(%s).(type) {", v, vPick(r, "n", "tr.S(\"t\")", "nil", "s", "tr.A(sp)", "errPkg"))
		g.p("case int:")
		g.block(sub(), v)
		g.p("case string, error:")
		g.block(sub())
		g.p("_ = %s", v)
		g.p("}")
	case 16:
		c := fmt.Sprintf("ch%d", g.num())
		g.p("%s := make(chan int, 2)", c)
		g.p("%s", vPick(r, c+" <- "+g.callI(), "TgtCh("+c+", "+g.i(1)+") <- 4", "go func() { "+c+" <- "+g.callI()+" }()\ntr.P(<-"+c+")\n"+c+" <- 1",
			"go TgtSend("+c+", "+g.i(1)+")\ntr.P(<-"+c+")\n"+c+" <- n"))
		g.p("select {")
		g.p("case %s <- %s:", c, g.callI())
		g.block(sub())
		g.p("default:")
		g.p("}")
		g.p("tr.P(<-%s)", vPick(r, c, "TgtCh("+c+", "+g.i(1)+")"))
	case 17, 18:
		if g.loops == 0 || r.Intn(2) == 0 {
			g.p("defer %s", vPick(r, "TgtI("+g.i(0)+")", "TgtS("+g.s(0)+", "+g.i(0)+")", "s.TgtM("+g.i(0)+")", "TgtRec("+g.i(0)+")", "func() { TgtI("+g.i(0)+") }()",
				"func(a int) { TgtI(a) }("+g.i(0)+")", "TgtV(n, "+g.i(1)+")", "mk(n).TgtM("+g.i(1)+")", "tr.P("+g.callI()+")"))
		}
	case 19, 20:
		g.p("func() {")
		save := g.loops
		g.loops = 1
		g.lits++
		g.block(sub())
		g.lits--
		g.loops = save
		g.p("}()")
	case 21:
		if g.lits == 0 {
			g.p("if %s { return %s }", g.cond(0), g.callI())
		} else {
			g.p("if %s { return }", vPick(r, g.cond(0), g.callB(true)))
		}
	case 22:
		g.p("{")
		g.block(sub())
		g.p("}")
	case 23:
		g.p("tr.P(%s, n)", g.callI())
	case 24:
		g.p("fs = append(fs, func() { %s })", vPick(r, "TgtI("+g.i(0)+")", "tr.P("+g.callI()+")", "s.TgtPM("+g.i(1)+")"))
	case 25:
		if r.Intn(2) == 0 && g.lits == 0 {
			k := g.num()
			g.p("g%d := 0", k)
			g.p("J%d:", k)
			g.p("%s", vPick(r, "TgtI("+g.i(0)+")", "s.A = "+g.callI(), "tr.P("+g.callI()+")"))
			g.p("if g%d++; g%d < 3 { goto J%d }", k, k, k)
		}
	case 26:
		g.p("func() {")
		g.depth++
		g.p("defer TgtRec(%s)", g.i(0))
		g.p("%s", vPick(r, "TgtI(l[n*0+tr.I(5)])", "TgtI(panics(n))", "var none *P; TgtI(none.In.A)", "tr.P("+g.callI()+"); panic(tr.S(\"thrown\"))", "TgtX(interface{}(n).(string))",
			"if "+g.cond(0)+" && TgtI(10/(n-n)) > 1 { tr.P(1) }"))
		g.depth--
		g.p("}()")
	case 27:
		k := g.num()
		g.p("ok%d := %s", k, g.callB(true))
		g.p("_ = ok%d", k)
	case 28:
		g.p("tr.P(func() int { return %s }())", g.callI())
	case 29:
		g.p("_, _ = Tgt2(%s, %s)", g.i(0), g.s(0))
	}
}

func c21Random(r *rand.Rand, idx int) *prog {
	p := &prog{name: fmt.Sprintf("random%d", idx), gov: vPick(r, "1.17", "1.21", "1.22", "1.25"), files: map[string]string{}}
	prelude, _, _ := strings.Cut(progRead("cat_call.go.txt"), "// ---- statements ----")
	p.files["p/tgt.go"] = prelude + `func TgtSend(c chan int, a int) { tr.T("TgtSend", "chan", a); c <- a }

func panics(n int) int { panic(tr.S("argument")) }

var _, _, _, _ = math.Pi, sort.Ints, strings.ToUpper, strange.K
`
	p.files["odd-name/v2/odd.go"] = progRead("odd.go.txt")
	var drive strings.Builder
	drive.WriteString("package p\n\nimport \"example.com/prog/tr\"\n\nfunc Drive() {\n")
	g := &gen21{r: r}
	g.b.WriteString("package p\n\nimport (\n\t\"fmt\"\n\t\"math\"\n\t\"strings\"\n\n\t\"example.com/prog/odd-name/v2\"\n\t\"example.com/prog/tr\"\n)\n\nvar _, _, _, _ = fmt.Sprint, math.Pi, strings.ToUpper, strange.K\n")
	for k := 0; k < 6; k++ {
		name, call := fmt.Sprintf("F%d", k), fmt.Sprintf("F%d", k)
		recv := ""
		if r.Intn(3) == 0 {
			recv, call = "(z0 *S) ", "(&S{3, \"r\"})."+name
		}
		fmt.Fprintf(&g.b, "\nfunc %s%s(n int) %s {\n", recv, name, vPick(r, "int", "(res int)"))
		g.budget, g.depth, g.ints = 16, 1, []string{"n"}
		g.p("s := S{A: n, B: \"s\"}")
		g.p("sp := &S{A: 5}")
		g.p("p := &P{In: s, Ptr: &S{A: 6}, L: []S{{1, \"l0\"}, {2, \"l1\"}}, M: map[string]*S{\"a\": {3, \"m\"}}}")
		g.p("l := []int{7, 8, 9}")
		g.p("var fs []func()")
		g.p("_, _, _, _, _ = s, sp, p, l, fs")
		for i := 4 + r.Intn(5); i > 0; i-- {
			g.stmt()
		}
		g.p("for _, f := range fs {")
		g.p("f()")
		g.p("}")
		g.p("tr.P(s, sp, p.In, p.Ptr, p.S, p.L[0], p.L[1], p.M[\"a\"], l)")
		g.p("return %s", g.callI())
		g.b.WriteString("}\n")
		for n := 0; n < 4; n++ {
			fmt.Fprintf(&drive, "\ttr.Case(\"%s %d\", func() { tr.P(%s(%d)) })\n", name, n, call, n)
		}
	}
	drive.WriteString("}\n")
	p.files["p/f.go"] = g.b.String()
	p.files["p/drive.go"] = drive.String()
	p.common()
	return p
}

func vMain(t *testing.T) {
	v := vNew("an evaluation is one executed call of a monitored function judged against the event before it; distinct: points seen firing (program, point)")
	vQuiet()
	refuse, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		v.unsure("listen: %v", err)
	}
	go func() {
		_ = http.Serve(refuse, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(500) }))
	}()
	dl, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		v.unsure("listen: %v", err)
	}
	dead := dl.Addr().(*net.TCPAddr).Port
	_ = dl.Close()
	odd := map[string]string{"odd-name/v2/odd.go": progRead("odd.go.txt")}
	type job struct {
		p       *prog
		combine int
	}
	var jobs []job
	for i, gov := range []string{"1.17", "1.21", "1.22", "1.25"} {
		jobs = append(jobs, job{progCatalog("call-"+gov, gov, progRead("cat_call.go.txt"), odd), i})
	}
	for i, gov := range []string{"1.20", "1.23"} {
		jobs = append(jobs, job{progCatalog("place-"+gov, gov, c21Places(), odd), i})
	}
	for _, p := range c21Forms() {
		jobs = append(jobs, job{p, 0})
	}
	for i := 0; i < v.n(40, 500); i++ {
		r := v.rng(fmt.Sprintf("call%d", i))
		jobs = append(jobs, job{c21Random(r, i), vPick(r, 0, 0, 1, 2, 3)})
	}
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			c21Prog(v, j.p, refuse.Addr().(*net.TCPAddr).Port, dead, j.combine)
		}()
	}
	wg.Wait()
	v.finish(500)
}
