package lens

// C07: no event is lost, duplicated or misfiled under concurrency. Concurrent clients send messages that each carry a
// unique identity; the checker reads the finished results and accounts for every acknowledged message: exactly once,
// under its function, with its own values, per-sender order kept. Runs under the race detector.

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type ev7 struct {
	kind   int // 0 state, 1 extension state, 2 project panic, 3 module panic, 4 entry, 5 unknown state, 6 unknown panic, 7 unknown entry
	id     uint32
	ident  string
	tok    string
	client int
	seq    int
	ns     int64
}

type plan7 struct {
	state, ppanic, entry, mpanic, ext map[uint32]*string
	byKind                            [8][]uint32
	ident                             map[uint32]string
}

func mkPlan7(r *rand.Rand) *plan7 {
	p := &plan7{map[uint32]*string{}, map[uint32]*string{}, map[uint32]*string{}, map[uint32]*string{}, map[uint32]*string{}, [8][]uint32{}, map[uint32]string{}}
	next := uint32(1)
	add := func(m map[uint32]*string, kind int, ident string) {
		id := next
		next += uint32(1 + r.Intn(3))
		s := ident
		if m != nil {
			m[id] = &s
		}
		p.byKind[kind] = append(p.byKind[kind], id)
		p.ident[id] = ident
	}
	nf := 1 + r.Intn(6)
	for f := 0; f < nf; f++ {
		id := fmt.Sprintf("example.com/p:Func%d", f)
		for k := 1 + r.Intn(4); k > 0; k-- {
			add(p.state, 0, id)
		}
		add(p.ppanic, 2, id)
	}
	for f := 0; f < 1+r.Intn(5); f++ {
		id := fmt.Sprintf("example.com/m:Mod%d", f)
		add(p.entry, 4, id)
		add(p.mpanic, 3, id)
	}
	for f := 0; f < r.Intn(3); f++ {
		add(p.ext, 1, fmt.Sprintf("ext-%d", f))
	}
	add(nil, 5, "?")
	add(nil, 6, "?")
	add(nil, 7, "?")
	return p
}

const proj7 = "/verif-c07/project"

func (p *plan7) monitor() *testMonitor {
	return newTestMonitor(nil, "/verif-c07/goroot", proj7, p.state, p.ppanic, p.entry, p.mpanic, p.ext)
}

func (e ev7) stack() []lensMonitorStackFrame {
	return []lensMonitorStackFrame{
		{File: proj7 + "/a/b.go", Line: uint(e.seq + 1), Function: "fn." + e.tok},
		{File: "/verif-c07/goroot/src/x.go", Line: 7, Function: "runtime.x"},
	}
}

func (e ev7) snaps() []lensMonitorFieldSnapshot {
	return []lensMonitorFieldSnapshot{
		{Name: "tok", Val: e.tok},
		{Name: "seq", Val: e.seq},
		{Name: "nest", Val: map[string]string{"a": "A" + e.tok, "b": "B" + strconv.Itoa(e.seq)}},
	}
}

func (e ev7) fields() []LensMonitorField {
	return []LensMonitorField{
		{Name: "tok", Type: "string", Value: e.tok},
		{Name: "seq", Type: "int", Value: int64(e.seq)},
		{Name: "nest", Type: "map[string]string", Children: []LensMonitorField{
			{Name: "a", Type: "string", Value: "A" + e.tok}, {Name: "b", Type: "string", Value: "B" + strconv.Itoa(e.seq)}}},
	}
}

// direct delivers to the handler the way the server does.
func (e ev7) direct(h astPointHandler) {
	switch e.kind {
	case 0, 1, 5:
		h.HandleFuncPointState(LensMonitorMessagePointState{PointID: e.id, TimeNS: e.ns, Stack: e.stack(), Fields: e.fields()})
	case 2, 3, 6:
		h.HandleFuncPointPanic(LensMonitorMessagePointPanic{PointID: e.id, TimeNS: e.ns, Message: e.tok})
	default:
		h.HandleFuncPoint(LensMonitorMessagePoint{PointID: e.id, TimeNS: e.ns, Stack: e.stack()})
	}
}

type deco7 struct{ s string }

func (d deco7) Error() string { return d.s }

// post sends through HTTP; true if acknowledged.
func (e ev7) post(cl *http.Client, base string) (bool, error) {
	var b bytes.Buffer
	path := ""
	switch e.kind {
	case 0, 1, 5:
		lensEncodeMessagePointState(&b, e.id, e.ns, e.stack(), e.snaps())
		path = lensMonitorEndpointPathState
	case 2, 3, 6:
		lensEncodeMessagePointPanic(&b, e.id, e.ns, e.tok)
		path = lensMonitorEndpointPathPanic
	default:
		lensEncodeMessagePoint(&b, e.id, e.ns, e.stack())
		path = lensMonitorEndpointPathPoint
	}
	resp, err := cl.Post(base+path, "application/octet-stream", &b)
	if err != nil {
		return false, err
	}
	_, _ = io.Copy(io.Discard, resp.Body)
	_ = resp.Body.Close()
	return resp.StatusCode == 200, nil
}

// collect lists what a finished result says about each token.
type got7 struct {
	where map[string][]string // token -> idents/kinds it was found under
	order map[string][]string // kind/ident -> tokens in order
}

func read7(v *vRun, what string, res TestResult, all map[string]ev7) got7 {
	g := got7{map[string][]string{}, map[string][]string{}}
	put := func(tok, key string) {
		g.where[tok] = append(g.where[tok], key)
		g.order[key] = append(g.order[key], tok)
	}
	frames := func(kind string, m map[string][]CallFrame) {
		for ident, l := range m {
			for _, cf := range l {
				tok := ""
				if f := cf.FieldValues["tok"]; f != nil {
					tok = f.Value
				}
				e, ok := all[tok]
				if !ok {
					v.violate("result:foreign", "%s: frame of %s carries unknown token %q", what, ident, tok)
					continue
				}
				bad := ""
				if f := cf.FieldValues["seq"]; f == nil || f.Value != strconv.Itoa(e.seq) {
					bad = "field seq"
				}
				if f := cf.FieldValues["nest"]; f == nil || len(f.Children) != 2 {
					bad = "field nest"
				} else {
					for _, k := range []string{"a", "b"} {
						want := "A" + e.tok
						if k == "b" {
							want = "B" + strconv.Itoa(e.seq)
						}
						c := f.Children[k]
						if c == nil { // map keys are rendered with a prefix/suffix by the client
							for n, x := range f.Children {
								if strings.Contains(n, k) {
									c = x
								}
							}
						}
						if c == nil || c.Value != want {
							bad = "field nest." + k
						}
					}
				}
				if len(cf.FieldValues) != 3 {
					bad = "field set"
				}
				if len(cf.Stack) != 2 || cf.Stack[0].Function != "fn."+tok || cf.Stack[0].File != "./a/b.go" || int(cf.Stack[0].Line) != e.seq+1 || cf.Stack[1].Function != "runtime.x" {
					bad = "stack"
				}
				if cf.TimeMillis != uint32((e.ns+500000)/1_000_000) {
					bad = "time"
				}
				if bad != "" {
					v.violate("result:mixed", "%s: frame of %s for message %+v has a wrong %s: %+v", what, ident, e, bad, cf)
				}
				put(tok, kind+" "+ident)
			}
		}
	}
	frames("state", res.CallerResults)
	frames("ext", res.ExtensionFrames)
	for ident, l := range res.ProjectPanics {
		for _, m := range l {
			put(m, "ppanic "+ident)
		}
	}
	for ident, l := range res.ModulePanics {
		for _, m := range l {
			put(m, "mpanic "+ident)
		}
	}
	return g
}

func (e ev7) key() string {
	return [8]string{"state", "ext", "ppanic", "mpanic", "entry", "", "", ""}[e.kind] + " " + e.ident
}

// account checks one result against what was acknowledged before it was produced (must) and what may also be in it (may).
func account7(v *vRun, what string, res TestResult, checks uint32, reached []*string, must, may []ev7, p *plan7) {
	all := map[string]ev7{}
	mustTok := map[string]bool{}
	for _, e := range must {
		all[e.tok] = e
		mustTok[e.tok] = true
	}
	for _, e := range may {
		all[e.tok] = e
	}
	g := read7(v, what, res, all)
	nState, nStateMay := 0, 0
	entry, entryMay := map[string]bool{}, map[string]bool{}
	unknownEntry := false
	for tok, e := range all {
		n := len(g.where[tok])
		switch {
		case e.kind >= 5:
			if e.kind == 7 {
				unknownEntry = true
			}
			if n != 0 {
				v.violate("result:unknown-recorded", "%s: message for the unknown point %d was recorded under %v", what, e.id, g.where[tok])
			}
		case e.kind == 4:
			if mustTok[tok] {
				entry[e.ident] = true
			}
			entryMay[e.ident] = true
		default:
			if n > 1 {
				v.violate("result:duplicated", "%s: message %+v recorded %d times: %v", what, e, n, g.where[tok])
			} else if n == 0 && mustTok[tok] {
				v.violate("result:lost", "%s: acknowledged message %+v is not in the result", what, e)
			} else if n == 1 && g.where[tok][0] != e.key() {
				v.violate("result:misfiled", "%s: message %+v recorded under %q", what, e, g.where[tok][0])
			}
			if e.kind <= 1 {
				if mustTok[tok] {
					nState++
				}
				nStateMay++
			}
		}
	}
	// per sender order
	for key, toks := range g.order {
		last := map[int]int{}
		for _, tk := range toks {
			e, ok := all[tk]
			if !ok {
				v.violate("result:foreign", "%s: %s contains %q which nobody sent", what, key, tk)
				continue
			}
			if s, ok := last[e.client]; ok && s > e.seq {
				v.violate("result:order", "%s: %s has messages of sender %d out of order: %v", what, key, e.client, toks)
			}
			last[e.client] = e.seq
		}
	}
	if int(checks) < nState || int(checks) > nStateMay {
		v.violate("result:field-checks", "%s: field check count is %d, accepted state messages %d (up to %d)", what, checks, nState, nStateMay)
	}
	if !unknownEntry {
		if res.ModuleChangesHit < len(entry) || res.ModuleChangesHit > len(entryMay) {
			v.violate("result:module-hits", "%s: ModuleChangesHit %d, module functions entered %d", what, res.ModuleChangesHit, len(entry))
		}
	}
	gotReached := map[string]bool{}
	for _, s := range reached {
		if gotReached[*s] {
			v.violate("result:reached-twice", "%s: %s listed twice as reached", what, *s)
		}
		gotReached[*s] = true
		if !entryMay[*s] {
			v.violate("result:reached-foreign", "%s: %s listed as reached but never entered", what, *s)
		}
	}
	for s := range entry {
		if !gotReached[s] {
			v.violate("result:reached-lost", "%s: entry of %s acknowledged but not listed as reached", what, s)
		}
	}
	v.observe("messages accounted for", len(must))
	v.observe("messages racing with the result", len(may))
	v.observe("frames read back", len(g.where))
	// the interleaving actually seen: order of senders per function
	var sig []string
	for key, toks := range g.order {
		var b strings.Builder
		for _, tk := range toks {
			fmt.Fprintf(&b, "%d,", all[tk].client)
		}
		sig = append(sig, key+b.String())
	}
	sort.Strings(sig)
	v.seen(strings.Join(sig, ";"))
}

func gen7(r *rand.Rand, p *plan7, client, seq int, tag string, unknown bool) ev7 {
	kinds := []int{0, 0, 0, 0, 1, 2, 3, 4}
	if unknown {
		kinds = append(kinds, 5, 6, 7)
	}
	for {
		k := kinds[r.Intn(len(kinds))]
		if len(p.byKind[k]) == 0 {
			continue
		}
		id := p.byKind[k][r.Intn(len(p.byKind[k]))]
		return ev7{k, id, p.ident[id], fmt.Sprintf("%s-c%d-%d", tag, client, seq), client, seq, r.Int63n(3_600_000_000_000)}
	}
}

func port7() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer func() { _ = l.Close() }()
	return l.Addr().(*net.TCPAddr).Port
}

// round7: several tests follow each other on one server; each has its own monitor. Some senders are still active when a
// test ends (background goroutines of the code under observation).
func round7(v *vRun, r *rand.Rand, name string, srv *astServer, base string) {
	p := mkPlan7(r)
	clients := 1 + r.Intn(10)
	per := 3 + r.Intn(30)
	unknown := r.Intn(3) == 0
	stragglers := r.Intn(2) == 0
	old := runtime.GOMAXPROCS(vPick(r, 1, 2, 4, 8, 8))
	defer runtime.GOMAXPROCS(old)

	tests := 1 + r.Intn(3)
	mons := make([]*testMonitor, tests)
	var carry []ev7 // sent by stragglers of the previous test
	var carryMu sync.Mutex
	for tno := 0; tno < tests; tno++ {
		m := p.monitor()
		mons[tno] = m
		if srv != nil {
			if err := srv.SetPointHandler(m); err != nil {
				v.unsure("SetPointHandler: %v", err)
				return
			}
		}
		var mu sync.Mutex
		var must []ev7
		var wg, late sync.WaitGroup
		stop := make(chan struct{})
		var lateEv []ev7
		for c := 0; c < clients; c++ {
			evs := make([]ev7, per)
			cr := rand.New(rand.NewSource(r.Int63()))
			tag := fmt.Sprintf("%s.%d", name, tno)
			for i := range evs {
				evs[i] = gen7(cr, p, c, i, tag, unknown)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				cl := &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 2}, Timeout: 120 * time.Second}
				defer cl.CloseIdleConnections()
				for _, e := range evs {
					ok := true
					if srv != nil {
						var err error
						if ok, err = e.post(cl, base); err != nil {
							v.violate("http:failed", "%s: message %+v was not answered: %v", name, e, err)
							continue
						}
						if !ok && e.kind < 5 {
							v.violate("http:refused", "%s: valid message %+v was refused", name, e)
						}
					} else {
						e.direct(m)
					}
					if ok {
						mu.Lock()
						must = append(must, e)
						mu.Unlock()
					}
				}
			}()
			if stragglers && c < 2 {
				late.Add(1)
				go func() {
					defer late.Done()
					cl := &http.Client{Transport: &http.Transport{}, Timeout: 120 * time.Second}
					defer cl.CloseIdleConnections()
					for i := 0; i < 500; i++ {
						select {
						case <-stop:
							return
						default:
						}
						e := gen7(cr, p, 100+c, i, tag+"L", unknown)
						mu.Lock()
						lateEv = append(lateEv, e)
						mu.Unlock()
						if srv != nil {
							_, _ = e.post(cl, base)
						} else {
							e.direct(m)
						}
					}
				}()
			}
		}
		wg.Wait()
		what := fmt.Sprintf("%s test %d (%d senders, http %v, stragglers %v, unknown ids %v)", name, tno, clients, srv != nil, stragglers, unknown)
		var res TestResult
		var checks uint32
		var reached []*string
		if !v.guard("result", what, 120*time.Second, true, func() {
			res = m.makeTestResult(&TestFunction{}, false)
			checks = m.fieldCheckCount.Load()
			reached = m.getModuleChangesReached()
		}) {
			close(stop)
			return
		}
		// what the caller does with the result while stragglers may still be sending
		_, err := res.MarshalMsgpack()
		if err != nil {
			v.violate("result:marshal", "%s: %v", what, err)
		}
		mu.Lock()
		may := append([]ev7(nil), lateEv...)
		mu.Unlock()
		carryMu.Lock()
		may = append(may, carry...)
		carryMu.Unlock()
		account7(v, what, res, checks, reached, must, may, p)
		v.eval()
		if tno == tests-1 || srv == nil {
			close(stop)
			late.Wait()
			carry = nil
		} else {
			// the next test starts while they are still active
			go func() { time.Sleep(5 * time.Millisecond); close(stop) }()
			if r.Intn(2) == 0 {
				late.Wait()
				mu.Lock()
				carry = append([]ev7(nil), lateEv...)
				mu.Unlock()
			} else {
				// keep accepting them as possible in the next result: wait only after the handler was replaced
				next := p.monitor()
				if err := srv.SetPointHandler(next); err != nil {
					v.unsure("SetPointHandler: %v", err)
					return
				}
				late.Wait()
				mu.Lock()
				all := append([]ev7(nil), lateEv...)
				mu.Unlock()
				var nres TestResult
				v.guard("result", what+" (replacement)", 120*time.Second, true, func() { nres = next.makeTestResult(&TestFunction{}, false) })
				// each straggler message is in at most one of the two results
				tokOf := map[string]ev7{}
				for _, e := range append(all, must...) {
					tokOf[e.tok] = e
				}
				a, b := read7(v, what, res, tokOf), read7(v, what+" (replacement)", nres, tokOf)
				for tok := range b.where {
					if len(b.where[tok]) > 1 || len(a.where[tok]) > 0 {
						v.violate("result:twice", "%s: message %+v is in two results", what, tokOf[tok])
					}
				}
				carry = nil
			}
		}
	}
}

func vMain(t *testing.T) {
	vQuiet()
	v := vNew("concurrent senders with uniquely identified messages against one monitor per test, directly and through the HTTP server, with unknown ids, handler replacement and senders still active when the result is taken; the final results are reconciled with the acknowledged messages. Non-trivial: distinct per-function interleavings of senders observed in results")
	port := port7()
	srv, err := astExecServerStart("127.0.0.1", port, nil, 1024)
	if err != nil {
		v.unsure("server start: %v", err)
		v.write()
		return
	}
	base := fmt.Sprintf("http://127.0.0.1:%d", port)
	r := v.rng("rounds")
	nd, nh := v.n(400, 6000), v.n(120, 2000)
	for i := 0; i < nd && v.nviol() < 10; i++ {
		round7(v, r, fmt.Sprintf("d%d", i), nil, "")
	}
	for i := 0; i < nh && v.nviol() < 10; i++ {
		round7(v, r, fmt.Sprintf("h%d", i), srv, base)
	}
	ctx, cancel := vCtx(60 * time.Second)
	defer cancel()
	if err := srv.Stop(ctx); err != nil {
		v.unsure("server stop: %v", err)
	}
	v.finish(300)
}
