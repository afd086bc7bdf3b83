package lens

// C08: only values that repeat between identical runs are kept as stable. Pairs of recorded runs go through the real
// reduction and are compared with an independent statement of the intersection; then whole sequences (two runs before
// the update, one after) are played through real monitors message by message and the comparison must react to stable
// fields only.

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"
	"time"
)

type fr8 struct {
	key    string
	leaves string
	stack  string
	time   uint32
}

// expect8 is the specification: per function, calls matched by (stack key, occurrence), leaves equal in both.
func expect8(a, b map[string][]CallFrame, key func([]StackFrame) string) map[string][]fr8 {
	out := map[string][]fr8{}
	for id, fa := range a {
		fb, ok := b[id]
		if !ok {
			continue
		}
		order := func(l []CallFrame) []CallFrame {
			l = append([]CallFrame(nil), l...)
			sort.SliceStable(l, func(i, j int) bool { return l[i].TimeMillis < l[j].TimeMillis })
			return l
		}
		fa, fb = order(fa), order(fb)
		second := map[string][]CallFrame{}
		for _, f := range fb {
			second[key(f.Stack)] = append(second[key(f.Stack)], f)
		}
		for _, f := range fa {
			k := key(f.Stack)
			if len(second[k]) == 0 {
				continue
			}
			g := second[k][0]
			second[k] = second[k][1:]
			x, y := leaves(f.FieldValues), leaves(g.FieldValues)
			both := map[string]string{}
			for p, val := range x {
				if w, ok := y[p]; ok && w == val {
					both[p] = val
				}
			}
			out[id] = append(out[id], fr8{k, showLeaves(both), fmt.Sprint(f.Stack), f.TimeMillis})
		}
	}
	return out
}

func show8(m map[string][]fr8) string {
	var b strings.Builder
	for _, id := range sortedKeys(m) {
		if len(m[id]) == 0 {
			continue
		}
		fmt.Fprintf(&b, "%s\n", id)
		for _, f := range m[id] {
			fmt.Fprintf(&b, "  t=%d %s %s\n", f.time, f.stack, f.leaves)
		}
	}
	return b.String()
}

func got8(m map[string][]CallFrame, key func([]StackFrame) string) map[string][]fr8 {
	out := map[string][]fr8{}
	for id, l := range m {
		for _, f := range l {
			out[id] = append(out[id], fr8{key(f.Stack), showLeaves(leaves(f.FieldValues)), fmt.Sprint(f.Stack), f.TimeMillis})
		}
	}
	return out
}

func panics8(a, b map[string][]string) map[string]map[string]int {
	out := map[string]map[string]int{}
	for id, l := range a {
		cnt := map[string]int{}
		for _, m := range b[id] {
			cnt[m]++
		}
		for _, m := range l {
			if cnt[m] > 0 {
				cnt[m]--
				if out[id] == nil {
					out[id] = map[string]int{}
				}
				out[id][m]++
			}
		}
	}
	return out
}

func count8(a map[string][]string) map[string]map[string]int {
	out := map[string]map[string]int{}
	for id, l := range a {
		for _, m := range l {
			if out[id] == nil {
				out[id] = map[string]int{}
			}
			out[id][m]++
		}
	}
	return out
}

func empties8(t TestResult) bool { // no node without leaves may survive
	bad := false
	var walk func(m FieldValues)
	walk = func(m FieldValues) {
		for _, f := range m {
			if f == nil {
				bad = true
				continue
			}
			walk(f.Children)
		}
	}
	for _, l := range t.CallerResults {
		for _, f := range l {
			walk(f.FieldValues)
		}
	}
	return bad
}

func pair8(v *vRun, what string, a, b TestResult) (TestResult, bool) {
	wantC := show8(expect8(a.CallerResults, b.CallerResults, projKey))
	wantE := show8(expect8(a.ExtensionFrames, b.ExtensionFrames, fullKey))
	wantP, wantM := panics8(a.ProjectPanics, b.ProjectPanics), panics8(a.ModulePanics, b.ModulePanics)
	ta, tb := showResult(a), showResult(b)
	in := func() string { return vShort("first run:\n"+ta+"second run:\n"+tb, 5000) }
	var s TestResult
	if !v.guard("stable", what+"\n"+in(), 60*time.Second, true, func() { s = testResultStableFields(a, b) }) {
		return s, false
	}
	v.eval()
	if g := show8(got8(s.CallerResults, projKey)); g != wantC {
		v.violate("stable:calls", "%s: retained\n%s\nwant\n%s\n%s", what, g, wantC, in())
		return s, false
	}
	if g := show8(got8(s.ExtensionFrames, fullKey)); g != wantE {
		v.violate("stable:extension", "%s: retained extension frames\n%s\nwant\n%s\n%s", what, g, wantE, in())
		return s, false
	}
	if g := fmt.Sprint(count8(s.ProjectPanics)); g != fmt.Sprint(wantP) {
		v.violate("stable:project-panics", "%s: retained %v want %v\n%s", what, g, wantP, in())
	}
	if g := fmt.Sprint(count8(s.ModulePanics)); g != fmt.Sprint(wantM) {
		v.violate("stable:module-panics", "%s: retained %v want %v\n%s", what, g, wantM, in())
	}
	if s.TestFailure != (a.TestFailure || b.TestFailure) {
		v.violate("stable:failure", "%s: failure %v from runs with %v and %v", what, s.TestFailure, a.TestFailure, b.TestFailure)
	}
	if s.TestFunction != a.TestFunction || s.ModuleChangesHit != a.ModuleChangesHit && s.ModuleChangesHit != b.ModuleChangesHit {
		v.violate("stable:header", "%s: %v hit %d\n%s", what, s.TestFunction, s.ModuleChangesHit, in())
	}
	if empties8(s) {
		v.violate("stable:nil", "%s: nil field retained\n%s", what, in())
	}
	v.observe("run pairs reduced", 1)
	for _, l := range expect8(a.CallerResults, b.CallerResults, projKey) {
		v.observe("matched calls", len(l))
	}
	v.seen(wantC + wantE + fmt.Sprint(wantP, wantM, s.TestFailure))
	return s, true
}

// ---- whole sequences through monitors ----

const dir8 = "/verif-c08/project"

type msg8 struct {
	point  uint32
	fn     string
	stack  []lensMonitorStackFrame
	fields []LensMonitorField
	want   FieldValues // what the fields mean
}

func conv8(m FieldValues) []LensMonitorField {
	var out []LensMonitorField
	for _, k := range sortedKeys(m) {
		f := m[k]
		if len(f.Children) > 0 {
			out = append(out, LensMonitorField{Name: k, Type: "p.T", Children: conv8(f.Children)})
		} else {
			out = append(out, LensMonitorField{Name: k, Type: "string", Value: f.Value})
		}
	}
	return out
}

func raw8(s []StackFrame) []lensMonitorStackFrame {
	out := make([]lensMonitorStackFrame, len(s))
	for i, f := range s {
		file := f.File
		switch {
		case strings.HasPrefix(file, "./"):
			file = dir8 + file[1:]
		case strings.HasPrefix(file, "/"):
		case strings.HasPrefix(file, "."):
			file = "/other/" + file
		default:
			file = "/verif-c08/gopath/pkg/mod/" + file
		}
		out[i] = lensMonitorStackFrame{File: file, Line: uint(f.Line), Function: f.Function}
	}
	return out
}

func play8(stable *TestResult, calls []msg8, points map[uint32]*string) (TestResult, int) {
	var sr *monitorStableResults
	if stable != nil {
		sr = &monitorStableResults{caller: stable.CallerResults, extension: stable.ExtensionFrames}
	}
	m := newTestMonitor(sr, "/verif-c08/gopath", dir8, points, nil, nil, nil, nil)
	for i, c := range calls {
		m.HandleFuncPointState(LensMonitorMessagePointState{PointID: c.point, TimeNS: int64(i) * 1_000_000, Stack: c.stack, Fields: c.fields})
	}
	t := &TestFunction{}
	t.FunctionIdent, t.FunctionName = "pkg:T", "T"
	return m.makeTestResult(t, false), int(m.fieldCheckCount.Load())
}

func seq8(v *vRun, r *rand.Rand, n int) {
	idents := []string{"p.F", "p.G", "p.(*T).M"}
	points := map[uint32]*string{}
	for i := range idents {
		points[uint32(i+1)] = &idents[i]
		points[uint32(i+11)] = &idents[i] // a second return
	}
	type call struct {
		fn    int
		pt    uint32
		stack []StackFrame
		fv    FieldValues
	}
	stacks := [][]StackFrame{genStack(r), genStack(r), genStack(r)}
	var calls []call
	for i := r.Intn(14); i > 0; i-- {
		f := r.Intn(len(idents))
		calls = append(calls, call{f, uint32(f + 1 + 10*r.Intn(2)), stacks[r.Intn(3)], genFV(r, 2)})
	}
	run := func(noise int) []msg8 {
		var out []msg8
		for _, c := range calls {
			if r.Intn(100) < noise/3 {
				continue
			}
			fv := copyFV(c.fv)
			perturbFV(r, fv, noise)
			out = append(out, msg8{c.pt, idents[c.fn], raw8(c.stack), conv8(fv), fv})
			if r.Intn(100) < noise/4 {
				out = append(out, out[len(out)-1])
			}
		}
		return out
	}
	noise := vPick(r, 0, 0, 10, 30)
	m1, m2 := run(noise), run(noise)
	r1, _ := play8(nil, m1, points)
	r2, _ := play8(nil, m2, points)
	// the monitor records what was sent
	v.eval()
	byFn := map[string][]msg8{}
	for _, m := range m1 {
		byFn[m.fn] = append(byFn[m.fn], m)
	}
	for id, l := range byFn {
		if len(r1.CallerResults[id]) != len(l) {
			v.violate("monitor:calls", "sequence %d: %d calls of %s recorded, %d sent", n, len(r1.CallerResults[id]), id, len(l))
			return
		}
		for i, m := range l {
			if g, w := showLeaves(leaves(r1.CallerResults[id][i].FieldValues)), showLeaves(leaves(m.want)); g != w {
				v.violate("monitor:fields", "sequence %d: call %d of %s recorded as %s, sent %s", n, i, id, g, w)
				return
			}
		}
	}
	stable, ok := pair8(v, fmt.Sprintf("sequence %d", n), r1, r2)
	if !ok {
		return
	}
	post := run(vPick(r, 0, 10, 40))
	r3, _ := play8(&stable, post, points)
	// filtered recording: top-level fields that were stable for the matching call are complete, others are absent
	occ := map[string]int{}
	idx := map[string]int{}
	type leafKey struct{ id, call, path string }
	postVals := map[leafKey]string{}
	postCalls := map[string]bool{}
	for _, m := range post {
		st := r3.CallerResults[m.fn]
		i := idx[m.fn]
		idx[m.fn]++
		if i >= len(st) {
			v.violate("filter:calls", "sequence %d: call %d of %s after the update is not recorded", n, i, m.fn)
			return
		}
		var sf []StackFrame
		for _, c := range calls {
			if fmt.Sprint(raw8(c.stack)) == fmt.Sprint(m.stack) {
				sf = c.stack
			}
		}
		key := m.fn + "\x00" + projKey(sf)
		o := occ[key]
		occ[key]++
		var ref *CallFrame
		seen := 0
		for j := range stable.CallerResults[m.fn] {
			if projKey(stable.CallerResults[m.fn][j].Stack) == projKey(sf) {
				if seen == o {
					ref = &stable.CallerResults[m.fn][j]
					break
				}
				seen++
			}
		}
		ck := fmt.Sprintf("%s#%d", key, o)
		postCalls[ck] = true
		for p, val := range leaves(m.want) {
			postVals[leafKey{m.fn, ck, p}] = val
		}
		want := FieldValues{}
		if ref != nil {
			for name := range ref.FieldValues {
				if f, ok := m.want[name]; ok {
					want[name] = f
				}
			}
		}
		g, w := leaves(st[i].FieldValues), leaves(want)
		// every stable leaf present in this call must be recorded with its value; nothing of an unstable field may be
		for p, val := range w {
			stableLeaf := false
			if ref != nil {
				_, stableLeaf = leaves(ref.FieldValues)[p]
			}
			if x, ok := g[p]; stableLeaf && (!ok || x != val) {
				v.violate("filter:lost", "sequence %d: after the update %s call %d: stable field %s recorded as %q (%v), sent %q", n, m.fn, i, p, x, ok, val)
				return
			}
		}
		for p := range g {
			if _, ok := w[p]; !ok {
				v.violate("filter:extra", "sequence %d: after the update %s call %d records %s, which was not stable before\nstable: %v", n, m.fn, i, p, stable.CallerResults[m.fn])
				return
			}
		}
		v.observe("calls filtered by stable fields", 1)
	}
	// comparison reacts to stable leaves only
	pre, pst := NewMemStorage(), NewMemStorage()
	save := func(s Storage, t TestResult) bool {
		b, err := t.MarshalMsgpack()
		if err == nil {
			err = s.SaveState("pkg:T", b)
		}
		if err != nil {
			v.violate("compare:store", "sequence %d: %v", n, err)
		}
		return err == nil
	}
	if !save(pre, stable) || !save(pst, r3) {
		return
	}
	var same, diff int
	var err error
	if !v.guard("compare", fmt.Sprintf("sequence %d", n), 60*time.Second, true, func() {
		same, diff, _, err = (&DefaultTestResultAnalyzer{}).CompareTestResults(pre, pst, 5)
	}) {
		return
	}
	if err != nil {
		v.violate("compare:error", "sequence %d: %v", n, err)
		return
	}
	ws, wd := 0, 0
	for id, l := range stable.CallerResults {
		o := map[string]int{}
		for _, f := range l {
			k := id + "\x00" + projKey(f.Stack)
			ck := fmt.Sprintf("%s#%d", k, o[k])
			o[k]++
			for p, val := range leaves(f.FieldValues) {
				if x, ok := postVals[leafKey{id, ck, p}]; ok && postCalls[ck] && x == val {
					ws++
				} else {
					wd++
				}
			}
		}
	}
	if same != ws || diff != wd {
		v.violate("compare:stable-only", "sequence %d: comparison says %d same %d different, stable leaves say %d same %d different\nstable:\n%s\nafter:\n%s", n, same, diff, ws, wd, showResult(stable), showResult(r3))
	}
	v.observe("sequences with comparison", 1)
	v.observe("stable leaves compared", ws+wd)
}

func vMain(t *testing.T) {
	vQuiet()
	vSilenceStdout()
	v := vNew("pairs of recorded runs (second derived from the first by changed, missing and additional fields, calls, functions, panics and outcomes) through the real reduction versus an independent intersection; sequences of three runs through real monitors and the comparison. Non-trivial: distinct expected retained results")
	r := v.rng("pairs")
	for i := 0; i < v.n(12000, 300000) && v.nviol() < 10; i++ {
		a := genResult(r, "T")
		var b TestResult
		switch r.Intn(10) {
		case 0:
			b = genResult(r, "T")
			b.ModuleChangesHit = a.ModuleChangesHit
		case 1:
			b = copyResult(a)
		default:
			b = perturb(r, a, vPick(r, 3, 10, 30))
		}
		if r.Intn(6) == 0 { // recorded out of time order (concurrent callers)
			for _, id := range sortedKeys(a.CallerResults) {
				l := a.CallerResults[id]
				r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			}
		}
		if i < 2 {
			v.sample(vShort(showResult(a), 500))
		}
		pair8(v, fmt.Sprintf("pair %d", i), a, b)
	}
	// many calls, several in the same millisecond, recorded out of time order (concurrent callers)
	rb := v.rng("many calls")
	for i := 0; i < v.n(400, 6000) && v.nviol() < 10; i++ {
		mk := func(m map[string][]CallFrame) {
			for _, id := range []string{"p.F", "q.Z"} {
				stacks := [][]StackFrame{genStack(rb), genStack(rb), genStack(rb)}
				var l []CallFrame
				for k := 10 + rb.Intn(120); k > 0; k-- {
					l = append(l, CallFrame{FieldValues{"n": {Value: fmt.Sprint(k)}, "c": {Children: FieldValues{"m": {Value: fmt.Sprint(k % 3)}}}}, stacks[rb.Intn(3)], uint32(rb.Intn(8))})
				}
				m[id] = l
			}
		}
		a := TestResult{CallerResults: map[string][]CallFrame{}, ExtensionFrames: map[string][]CallFrame{}}
		mk(a.CallerResults)
		mk(a.ExtensionFrames)
		b := copyResult(a)
		for _, m := range []map[string][]CallFrame{b.CallerResults, b.ExtensionFrames} {
			for _, id := range sortedKeys(m) {
				l := m[id]
				switch i % 3 {
				case 0: // same calls in time order
					sort.SliceStable(l, func(x, y int) bool { return l[x].TimeMillis < l[y].TimeMillis })
				case 1:
					l[rb.Intn(len(l))].TimeMillis = uint32(rb.Intn(8))
				}
			}
		}
		if i%5 == 4 {
			perturbFrames(rb, b.CallerResults, 10)
		}
		pair8(v, fmt.Sprintf("many calls %d", i), a, b)
	}
	rs := v.rng("sequences")
	for i := 0; i < v.n(3000, 60000) && v.nviol() < 10; i++ {
		seq8(v, rs, i)
	}
	v.finish(5000)
}
