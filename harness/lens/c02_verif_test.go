package lens

// C02: programs annotated with ground truth records (function entered, about to return at a site with these variables,
// results received by the caller, panic recovered) are instrumented, built and run. The program waits for the
// acknowledgement of every record and the client for the answer to every event, so the harness sees one log; an online
// checker follows the activations of every goroutine and decides whether the events are exactly the ones owed.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type frame02 struct {
	fn             *pFn
	depth          int
	panicsAtEnter  int
	pre            *rec02
	state          *LensMonitorMessagePointState
	states, panics int
	evidence       bool // a panic or Goexit may have ended it
	panicMsg       string
}

type gor02 struct {
	lastPanic string // message of the last panic event since the last recovery
	frames    []*frame02
	caseN     string
}

type mon02 struct {
	v     *vRun
	p     *prog
	sig   string
	mu    sync.Mutex
	rts   map[string]*pFn
	byID  map[string]*pFn // ident
	point map[uint32]*pFn
	kind  map[uint32]string
	gs    map[int]*gor02
	toks  map[int]int // token -> goroutine
	cur   int
	entry map[*pFn]int // entry events not yet matched by an Enter
	enter map[*pFn]int
	log   []string
	bad   int
	paths map[string]bool
}

func (m *mon02) note(s string) {
	m.log = append(m.log, s)
	if len(m.log) > 400 {
		m.log = append([]string(nil), m.log[200:]...)
	}
}

func (m *mon02) fail(what, format string, args ...any) {
	if m.bad++; m.bad > 3 {
		return
	}
	from := max(0, len(m.log)-25)
	m.v.violate(what+":"+m.p.name, "program %s: %s\nlast log entries:\n%s", m.p.name, fmt.Sprintf(format, args...), strings.Join(m.log[from:], "\n"))
}

func (m *mon02) g(id int) *gor02 {
	if m.gs[id] == nil {
		m.gs[id] = &gor02{}
	}
	return m.gs[id]
}

func (m *mon02) depth(fns func(i int) (string, bool)) int {
	d := 0
	for i := 0; ; i++ {
		f, ok := fns(i)
		if !ok {
			return d
		}
		if m.rts[f] != nil {
			d++
		}
	}
}

// finish judges the activations deeper than depth d.
func (m *mon02) finish(g *gor02, d int) {
	for len(g.frames) > 0 && g.frames[len(g.frames)-1].depth > d {
		f := g.frames[len(g.frames)-1]
		g.frames = g.frames[:len(g.frames)-1]
		m.v.eval()
		m.judge(f)
	}
}

func (m *mon02) judge(f *frame02) {
	if f.states > 1 || f.panics > 1 {
		m.fail("duplicate", "an activation of %s produced %d state and %d panic events", f.fn.ident, f.states, f.panics)
		return
	}
	if f.fn.retPanic {
		m.v.observe("activations of functions that end in a panic (not monitored)", 1)
		return
	}
	if !f.evidence {
		if f.panics > 0 {
			m.fail("panic", "%s reported the panic %q, but nothing panicked", f.fn.ident, f.panicMsg)
		}
		if f.fn.module {
			return
		}
		if f.pre == nil {
			m.v.unsure("program %s: %s ended without reaching a return", m.p.name, f.fn.ident)
			return
		}
		if f.states != 1 {
			m.fail("missing", "%s returned at site %d without a state event", f.fn.ident, f.pre.Site)
			return
		}
		m.v.observe("activations that returned", 1)
		m.path(f, "return")
		return
	}
	switch {
	case f.fn.module && f.panics == 1:
		m.v.observe("activations ended by a panic", 1)
		m.path(f, "panic")
	case f.fn.module && !f.fn.recovers && f.pre == nil:
		m.fail("missing", "%s panicked without a panic event", f.fn.ident)
	case f.fn.module:
	case f.states+f.panics == 0 && !f.fn.recovers && !f.goexit():
		m.fail("missing", "%s ended (by a panic or by returning) without an event", f.fn.ident)
	case f.states == 0 && f.panics == 0:
		m.v.observe("activations that recovered or ended the goroutine", 1)
		m.path(f, "recovered")
	case f.panics == 1:
		m.v.observe("activations ended by a panic", 1)
		m.path(f, "panic")
	default:
		m.v.observe("activations that returned", 1)
		m.path(f, "return")
	}
}

func (f *frame02) goexit() bool { return f.panicMsg == "goexit" }

func (m *mon02) path(f *frame02, how string) {
	site := -1
	if f.pre != nil {
		site = f.pre.Site
	}
	m.v.seen(fmt.Sprintf("%s %s %d %s", m.p.name, f.fn.ident, site, how))
}

func (m *mon02) top(g *gor02) *frame02 {
	if len(g.frames) == 0 {
		return nil
	}
	return g.frames[len(g.frames)-1]
}

func (m *mon02) record(r *rec02) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.v.observe("ground truth records", 1)
	d := m.depth(func(i int) (string, bool) {
		if i >= len(r.Stack) {
			return "", false
		}
		return r.Stack[i].F, true
	})
	g := m.g(r.Go)
	m.cur = r.Go
	m.note(fmt.Sprintf("g%d %s %s site=%d depth=%d panics=%d %s %v", r.Go, r.K, r.Fn, r.Site, d, r.Panics, r.Text, vShort(fmt.Sprint(r.Names, r.Vals), 200)))
	for _, f := range g.frames {
		if r.Panics > f.panicsAtEnter || r.K == "caught" || r.K == "exit" {
			f.evidence = true
		}
		if r.Goexit || r.K == "exit" && r.Text == "goexit" {
			f.evidence = true
			f.panicMsg = "goexit"
		}
	}
	if r.K == "caught" && g.lastPanic != "" {
		if g.lastPanic != r.Text {
			m.fail("panic", "the program recovered %q, the panic event before that says %q", r.Text, g.lastPanic)
		}
		g.lastPanic = ""
		m.v.observe("panic messages compared", 1)
	}
	switch r.K {
	case "tok":
		m.toks[r.Site] = r.Go
	case "case":
		g.caseN = r.Text
	case "enter":
		fn := m.byID[r.Fn]
		if fn == nil {
			m.v.unsure("unknown function %s", r.Fn)
			return
		}
		m.finish(g, d-1)
		g.frames = append(g.frames, &frame02{fn: fn, depth: d, panicsAtEnter: r.Panics})
		m.enter[fn]++
		if fn.module && !m.p.conc {
			if m.entry[fn] != 1 {
				m.fail("entry", "%d entry events before the body of %s ran", m.entry[fn], fn.ident)
			}
			m.entry[fn] = 0
		}
	case "pre":
		m.finish(g, d)
		f := m.top(g)
		if f == nil || f.fn.ident != r.Fn || f.depth != d {
			m.v.unsure("program %s: return site of %s without its activation", m.p.name, r.Fn)
			return
		}
		f.pre = r
	case "got":
		m.finish(g, d+1)
		m.results(g, r, d)
		m.finish(g, d)
	case "end", "exit":
		m.finish(g, -1)
	default:
		m.finish(g, d)
	}
}

// results compares what the caller received with what the function reported.
func (m *mon02) results(g *gor02, r *rec02, d int) {
	f := m.top(g)
	name := r.Fn[strings.LastIndex(r.Fn, ".")+1:]
	if f == nil || f.depth != d+1 || f.fn.name != name || f.state == nil || f.states != 1 || f.panics > 0 || f.pre == nil {
		return
	}
	if f.fn.hasDefer && f.fn.named || len(r.Vals) != f.fn.results {
		return
	}
	site := f.fn.sites[f.pre.Site]
	for i, want := range r.Vals {
		var got *LensMonitorField
		for _, n := range []string{fmt.Sprintf("ret%d", i), fmt.Sprintf("rec%d", i), site.results[i]} {
			if got == nil && n != "" {
				got = c02Field(f.state.Fields, n)
			}
		}
		if got == nil {
			if site.results[i] != "nil" && site.results[i] != "_" {
				m.fail("result", "%s site %d: result %d (%v) is not part of the state event (fields %s)", f.fn.ident, f.pre.Site, i, want, c02Names(f.state.Fields))
			}
			continue
		}
		if diff := c02Cmp(want, *got, true); diff != "" {
			m.fail("result", "%s site %d: the caller received %v as result %d, the event says %s: %s", f.fn.ident, f.pre.Site, want, i, c02Show(*got), diff)
		}
		m.v.observe("results compared", 1)
	}
}

// ---- events ----

func (m *mon02) goroutineOf(tok string) *gor02 {
	if !m.p.conc {
		return m.g(m.cur)
	}
	n, err := strconv.Atoi(tok)
	if err != nil {
		return nil
	}
	if id, ok := m.toks[n]; ok {
		return m.g(id)
	}
	return nil
}

func (m *mon02) HandleFuncPoint(msg LensMonitorMessagePoint) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.v.observe("entry events", 1)
	fn := m.point[msg.PointID]
	if fn == nil || m.kind[msg.PointID] != "entry" {
		m.fail("point", "entry event for point %d, which is no entry point", msg.PointID)
		return
	}
	m.note("event entry " + fn.ident)
	if len(msg.Stack) == 0 || msg.Stack[0].Function != fn.rt {
		m.fail("stack", "entry event of %s has the stack %s", fn.ident, c02Stack(msg.Stack))
	}
	m.entry[fn]++
}

func c02Stack(l []lensMonitorStackFrame) string {
	var s []string
	for i, f := range l {
		if i == 8 {
			break
		}
		s = append(s, fmt.Sprintf("%s:%d", f.Function, f.Line))
	}
	return strings.Join(s, " < ")
}

func (m *mon02) HandleFuncPointPanic(msg LensMonitorMessagePointPanic) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.v.observe("panic events", 1)
	fn := m.point[msg.PointID]
	if fn == nil || m.kind[msg.PointID] != "panic" {
		m.fail("point", "panic event for point %d, which is no panic point", msg.PointID)
		return
	}
	m.note("event panic " + fn.ident + " " + msg.Message)
	_, tok, _ := strings.Cut(msg.Message, "tok=")
	g := m.goroutineOf(tok)
	if g == nil {
		m.fail("panic", "panic event of %s with the message %q, which nothing panicked with", fn.ident, msg.Message)
		return
	}
	var at *frame02
	for pass := 0; pass < 2 && at == nil; pass++ {
		for i := len(g.frames) - 1; i >= 0 && at == nil; i-- {
			if f := g.frames[i]; f.fn == fn && f.panics == 0 && (f.states == 0 || pass == 1 && fn.hasDefer) {
				at = f
			}
		}
	}
	if at == nil {
		m.fail("panic", "panic event of %s, which has no activation that could panic", fn.ident)
		return
	}
	at.panics++
	at.panicMsg = msg.Message
	g.lastPanic = msg.Message
}

func (m *mon02) HandleFuncPointState(msg LensMonitorMessagePointState) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.v.observe("state events", 1)
	fn := m.point[msg.PointID]
	if fn == nil || m.kind[msg.PointID] != "state" {
		m.fail("point", "state event for point %d, which is no state point", msg.PointID)
		return
	}
	m.note(fmt.Sprintf("event state %d %s %s", msg.PointID, fn.ident, c02Names(msg.Fields)))
	tok := ""
	if f := c02Field(msg.Fields, "tok"); f != nil {
		tok = fmt.Sprint(f.Value)
	}
	g := m.goroutineOf(tok)
	if g == nil {
		m.fail("state", "state event of %s with the token %q, which no goroutine has", fn.ident, tok)
		return
	}
	d := m.depth(func(i int) (string, bool) {
		if i >= len(msg.Stack) {
			return "", false
		}
		return msg.Stack[i].Function, true
	})
	m.finish(g, d)
	f := m.top(g)
	if f == nil || f.fn != fn || f.depth != d {
		m.fail("state", "state event of %s (stack %s) while it is not being executed", fn.ident, c02Stack(msg.Stack))
		return
	}
	f.states++
	f.state = &msg
	if f.pre == nil {
		m.fail("state", "state event of %s before it reached a return", fn.ident)
		return
	}
	if f.states > 1 {
		return
	}
	pre := f.pre
	if len(msg.Stack) != len(pre.Stack) && len(pre.Stack) < 2000 {
		m.fail("stack", "state event of %s has %d stack frames, the program %d: %s", fn.ident, len(msg.Stack), len(pre.Stack), c02Stack(msg.Stack))
	} else {
		for i := range min(len(msg.Stack), len(pre.Stack)) {
			a, b := msg.Stack[i], pre.Stack[i]
			if a.Function != b.F || a.File != b.File || i > 0 && int(a.Line) != b.L {
				m.fail("stack", "state event of %s: frame %d is %s %s:%d, the program was in %s %s:%d", fn.ident, i, a.Function, a.File, a.Line, b.F, b.File, b.L)
				break
			}
		}
		m.v.observe("stack frames compared", len(msg.Stack))
	}
	names := map[string]bool{}
	for _, x := range msg.Fields {
		if names[x.Name] {
			m.fail("fields", "state event of %s has %q twice", fn.ident, x.Name)
		}
		names[x.Name] = true
	}
	site := fn.sites[pre.Site]
	for i, n := range pre.Names {
		c := c02Field(msg.Fields, n)
		if c == nil {
			m.fail("fields", "%s site %d: variable %s (%v) is not part of the state event (fields %s)", fn.ident, pre.Site, n, pre.Vals[i], c02Names(msg.Fields))
			continue
		}
		if !site.pure && fn.escape[n] {
			m.v.observe("variables the return may change (presence only)", 1)
			continue
		}
		if diff := c02Cmp(pre.Vals[i], *c, site.pure); diff != "" {
			m.fail("value", "%s site %d: variable %s: %s", fn.ident, pre.Site, n, diff)
		}
		m.v.observe("variables compared", 1)
	}
}

func c02Prog(v *vRun, p *prog, race bool) {
	root := vTempDir("c02-")
	defer os.RemoveAll(root)
	orig := map[string]string{}
	for k, s := range p.files {
		orig[k] = s
	}
	if err := p.prepare(true); err != nil {
		v.unsure("program %s does not parse: %v", p.name, err)
		return
	}
	p.write(filepath.Join(root, "inst"))
	r := v.rng("instrument2 " + p.name)
	var flags []string
	if race {
		flags = []string{"-race"}
	}
	bin := filepath.Join(root, "inst.bin")
	var ierr error
	if !v.guard("instrument:"+p.name, "instrumenting "+p.name, 3*time.Minute, true, func() { ierr = p.instrument(0, r, false) }) {
		return
	}
	berr := ierr
	if berr == nil {
		berr = p.build(bin, flags...)
	}
	if berr != nil {
		// only programs which compile as annotated are judged, a program which does not compile is decided by C01
		q := &prog{name: p.name, gov: p.gov, files: p.files}
		q.write(filepath.Join(root, "plain"))
		if err := q.build(bin); err != nil {
			if strings.HasPrefix(p.name, "random") {
				v.observe("generated programs the compiler rejects (skipped)", 1)
			} else {
				v.unsure("annotated program %s does not compile: %v", p.name, err)
			}
			return
		}
		v.violate("compile:"+p.name, "program %s cannot be instrumented and built: %v", p.name, berr)
		return
	}
	runs := 1
	if p.conc {
		runs = v.n(3, 30)
	}
	for i := 0; i < runs; i++ {
		c02Run(v, p, bin)
	}
}

func c02Run(v *vRun, p *prog, bin string) {
	m := &mon02{v: v, p: p, rts: map[string]*pFn{}, byID: map[string]*pFn{}, point: map[uint32]*pFn{}, kind: map[uint32]string{},
		gs: map[int]*gor02{}, toks: map[int]int{}, entry: map[*pFn]int{}, enter: map[*pFn]int{}}
	for _, f := range p.fns {
		m.rts[f.rt] = f
		m.byID[f.ident] = f
		for kind, ids := range map[string][]uint32{"state": f.state, "panic": f.panicP, "entry": f.entry} {
			for _, id := range ids {
				if m.point[id] != nil {
					m.fail("point", "point %d is used for %s and %s", id, m.point[id].ident, f.ident)
				}
				m.point[id], m.kind[id] = f, kind
			}
		}
		if !f.module && !f.retPanic && len(f.state) < len(f.sites) {
			v.observe("functions with fewer points than return sites", 1)
		}
	}
	port, err := progServer(m)
	if err != nil {
		v.unsure("server: %v", err)
		return
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		v.unsure("listen: %v", err)
		return
	}
	defer l.Close()
	done := make(chan bool)
	go func() {
		defer close(done)
		c, err := l.Accept()
		if err != nil {
			return
		}
		defer c.Close()
		rd := bufio.NewReaderSize(c, 1<<20)
		for {
			line, err := rd.ReadBytes('\n')
			if err != nil {
				return
			}
			r := &rec02{}
			if err := json.Unmarshal(line, r); err != nil {
				v.unsure("record: %v", err)
			} else {
				m.record(r)
			}
			if _, err := c.Write([]byte{1}); err != nil {
				return
			}
		}
	}()
	o := progExec(bin, "TR_ADDR="+l.Addr().String(), fmt.Sprintf("LENS_MONITOR_PORT=%d", port), "GORACE=exitcode=66")
	_ = l.Close()
	<-done
	m.mu.Lock()
	defer m.mu.Unlock()
	if o.hung {
		m.fail("hang", "did not finish")
		return
	}
	if o.code == 66 || strings.Contains(o.stderr, "DATA RACE") {
		m.fail("race", "data race in the instrumented program\n%s", vShort(o.stderr, 3000))
	} else if o.code != 0 {
		m.fail("exit", "ended with %d\n%s", o.code, vShort(o.stderr, 2000))
	}
	for _, g := range m.gs {
		m.finish(g, -1)
	}
	for f, n := range m.entry {
		want := 0
		if p.conc {
			want = m.enter[f]
		}
		if n != want {
			m.fail("entry", "%d entry events for %d calls of %s", n, m.enter[f], f.ident)
		}
	}
	v.observe("program runs", 1)
	v.observe("goroutines followed", len(m.gs))
	if m.bad > 3 {
		v.observe("further failures not listed", m.bad-3)
	}
}

func vMain(t *testing.T) {
	v := vNew("an evaluation is one activation of a monitored function judged against the ground truth; distinct: (program, function, return site, how it ended)")
	vQuiet()
	v.assumptions = []string{"receivers and constants are not required in state events; variables a return expression may change through calls are compared by presence only",
		"functions whose body ends in a panic are not monitored by the analysis"}
	progs := progAll(v, v.n(24, 300))
	conc := progCatalog("conc", "1.23", progRead("cat_conc.go.txt"), nil)
	conc.conc = true
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i, p := range append([]*prog{conc}, progs...) {
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			c02Prog(v, p, i == 0)
		}()
	}
	wg.Wait()
	v.sample(fmt.Sprintf("%d programs", len(progs)+1))
	v.finish(2000)
}
