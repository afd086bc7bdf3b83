package lens

// C09: result comparison reports every difference and invents none. Generated pairs of stored result sets go through the
// real comparison (over both storage back ends) and the outcome is compared with an independent statement of it.

import (
	"errors"
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"
	"testing"
	"time"
)

type rep9 struct {
	same, diff int
	regr       int
	changed    map[string]map[string][][2]string // caller -> dotted field -> value pairs that changed
}

// dotted lists the leaves by the name the report uses (the generator keeps dots out of names, so it is one to one).
func dotted9(m FieldValues) map[string]string {
	out := map[string]string{}
	var walk func(path []string, m FieldValues)
	walk = func(path []string, m FieldValues) {
		for k, f := range m {
			p := append(append([]string(nil), path...), k)
			if len(f.Children) > 0 {
				walk(p, f.Children)
			} else {
				out[strings.Join(p, ".")] = f.Value
			}
		}
	}
	walk(nil, m)
	return out
}

func spec9(pre, post TestResult) rep9 {
	r := rep9{changed: map[string]map[string][][2]string{}}
	for caller, frames := range pre.CallerResults {
		after := map[string][]CallFrame{}
		for _, f := range post.CallerResults[caller] {
			k := projKey(f.Stack)
			after[k] = append(after[k], f)
		}
		for _, f := range frames {
			k := projKey(f.Stack)
			fields := dotted9(f.FieldValues)
			if len(after[k]) == 0 {
				r.diff += len(fields)
				continue
			}
			g := after[k][0]
			after[k] = after[k][1:]
			now := dotted9(g.FieldValues)
			for name, val := range fields {
				w, ok := now[name]
				switch {
				case !ok:
					r.diff++
				case w == val:
					r.same++
				default:
					r.diff++
					if r.changed[caller] == nil {
						r.changed[caller] = map[string][][2]string{}
					}
					r.changed[caller][name] = append(r.changed[caller][name], [2]string{val, w})
				}
			}
		}
	}
	panics := func(a, b map[string][]string) {
		n := map[string]int{}
		for id, l := range a {
			for _, m := range l {
				n[id+"\x00"+m]++
			}
		}
		for id, l := range b {
			for _, m := range l {
				n[id+"\x00"+m]--
			}
		}
		for _, c := range n {
			if c < 0 {
				c = -c
			}
			r.diff += c
		}
	}
	panics(pre.ProjectPanics, post.ProjectPanics)
	panics(pre.ModulePanics, post.ModulePanics)
	if post.TestFailure && !pre.TestFailure {
		r.regr = 1
	}
	return r
}

type set9 map[string]TestResult

func save9(s Storage, set set9) error {
	for name, t := range set {
		t := t
		b, err := t.MarshalMsgpack()
		if err != nil {
			return err
		}
		if err := s.SaveState(name, b); err != nil {
			return err
		}
	}
	return nil
}

func show9(pre, post set9) string {
	var b strings.Builder
	for _, n := range sortedKeys(pre) {
		fmt.Fprintf(&b, "== before %s\n%s", n, showResult(pre[n]))
		if p, ok := post[n]; ok {
			fmt.Fprintf(&b, "== after %s\n%s", n, showResult(p))
		}
	}
	return vShort(b.String(), 6000)
}

func header9(got, want TestResult) string {
	if got.TestFunction != want.TestFunction {
		return fmt.Sprintf("test function %v, want %v", got.TestFunction, want.TestFunction)
	}
	if got.TestFailure != want.TestFailure || got.ModuleChangesHit != want.ModuleChangesHit {
		return fmt.Sprintf("failure/hit %v/%d, want %v/%d", got.TestFailure, got.ModuleChangesHit, want.TestFailure, want.ModuleChangesHit)
	}
	if a, b := showFrames("ext", got.ExtensionFrames), showFrames("ext", want.ExtensionFrames); a != b {
		return fmt.Sprintf("extension frames\n%swant\n%s", a, b)
	}
	return ""
}

type faulty9 struct { // a store whose reads fail
	Storage
	bad  string
	list bool
}

func (f faulty9) LoadState(k string) ([]byte, bool, error) {
	if k == f.bad {
		return nil, false, errors.New("injected read failure")
	}
	return f.Storage.LoadState(k)
}
func (f faulty9) ListKeys() ([]string, error) {
	if f.list {
		return nil, errors.New("injected list failure")
	}
	return f.Storage.ListKeys()
}

// shuffled9 hides any order of the underlying store.
type shuffled9 struct {
	Storage
	r *rand.Rand
}

func (f shuffled9) ListKeys() ([]string, error) {
	l, err := f.Storage.ListKeys()
	f.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l, err
}

func compare9(v *vRun, what string, r *rand.Rand, newStore func(string) Storage, pre, post set9, factor int) {
	a, b := newStore("pre"), newStore("post")
	defer func() { a.Close(); b.Close() }()
	if err := save9(a, pre); err != nil {
		v.unsure("save: %v", err)
		return
	}
	if err := save9(b, post); err != nil {
		v.unsure("save: %v", err)
		return
	}
	var same, diff int
	var reports []TestReport
	var err error
	in := func() string { return show9(pre, post) }
	an := &DefaultTestResultAnalyzer{}
	if !v.guard("compare", what+"\n"+in(), 60*time.Second, true, func() {
		same, diff, reports, err = an.CompareTestResults(shuffled9{a, r}, shuffled9{b, r}, factor)
	}) {
		return
	}
	v.eval()
	if err != nil {
		v.violate("compare:error", "%s: comparison failed: %v\n%s", what, err, in())
		return
	}
	byTest := map[string]TestReport{}
	order := []string{}
	for _, t := range reports {
		id := t.PostUpdateResult.TestFunction.FunctionIdent
		if id == "" {
			continue // a test without a result before the update
		}
		if _, dup := byTest[id]; dup {
			v.violate("reports:duplicate", "%s: test %s reported twice\n%s", what, id, in())
		}
		byTest[id] = t
		order = append(order, id)
	}
	wantSame, wantDiff := 0, 0
	for name, p := range post {
		q, ok := pre[name]
		if !ok {
			continue
		}
		id := p.TestFunction.FunctionIdent
		t, ok := byTest[id]
		if !ok {
			v.violate("reports:missing", "%s: test %s not reported\n%s", what, id, in())
			continue
		}
		delete(byTest, id)
		w := spec9(q, p)
		wantSame += w.same
		wantDiff += w.diff
		one := func() string { return show9(set9{name: q}, set9{name: p}) }
		if t.SameFieldCount != w.same {
			v.violate("count:same", "%s: test %s: %d fields the same, want %d\n%s", what, id, t.SameFieldCount, w.same, one())
		}
		if t.DiffFieldCount != w.diff {
			v.violate("count:diff", "%s: test %s: %d differences, want %d\n%s", what, id, t.DiffFieldCount, w.diff, one())
		}
		if t.TestRegressionCount != w.regr {
			v.violate("count:regression", "%s: test %s: %d regressions, want %d\n%s", what, id, t.TestRegressionCount, w.regr, one())
		}
		if d := header9(t.OriginalResult, q); d != "" {
			v.violate("report:original", "%s: test %s: %s\n%s", what, id, d, one())
		}
		if d := header9(t.PostUpdateResult, p); d != "" {
			v.violate("report:post", "%s: test %s: %s\n%s", what, id, d, one())
		}
		nChanged := 0
		for caller, fields := range w.changed {
			for f, pairs := range fields {
				nChanged++
				txt, ok := t.CallerFieldChanges[caller][f]
				if !ok {
					v.violate("changes:missing", "%s: test %s: change of %s in %s not reported\n%s", what, id, f, caller, one())
					continue
				}
				fine := false
				for _, pr := range pairs {
					fine = fine || txt == an.DiffValues(pr[0], pr[1])
				}
				if !fine {
					v.violate("changes:text", "%s: test %s: change of %s in %s reported as %q, which is no change that happened: %q\n%s", what, id, f, caller, txt, pairs, one())
				}
				check9Text(v, pairs, txt)
			}
		}
		for caller, fields := range t.CallerFieldChanges {
			for f := range fields {
				if _, ok := w.changed[caller][f]; !ok {
					v.violate("changes:invented", "%s: test %s: change of %s in %s reported, but it did not change\n%s", what, id, f, caller, one())
				}
			}
		}
		v.observe("fields same", w.same)
		v.observe("fields different", w.diff)
		v.observe("changed (caller, field) pairs", nChanged)
		v.observe("regressions", w.regr)
		times9(v, what, q, p, t, factor, one)
		v.seen(fmt.Sprintf("same%d diff%d regr%d changed%d time%d", min(w.same, 30), min(w.diff, 30), w.regr, min(nChanged, 10), len(t.CallerTimeChanges)))
	}
	for id := range byTest {
		v.violate("reports:invented", "%s: report of %s, which was not run\n%s", what, id, in())
	}
	if same != wantSame || diff != wantDiff {
		v.violate("totals", "%s: totals same %d diff %d, want %d and %d\n%s", what, same, diff, wantSame, wantDiff, in())
	}
}

// check9Text: the text of a change has to let the reader see both values' differing lines.
func check9Text(v *vRun, pairs [][2]string, txt string) {
	if txt == "" {
		v.violate("changes:empty", "a change between %q has an empty text", pairs)
	}
	if len(pairs) != 1 || strings.HasPrefix(pairs[0][0], HashFieldValuePrefix) || strings.HasPrefix(pairs[0][1], HashFieldValuePrefix) {
		return
	}
	a, b := strings.Split(pairs[0][0], "\n"), strings.Split(pairs[0][1], "\n")
	has := func(l []string, s string) bool {
		for _, x := range l {
			if x == s {
				return true
			}
		}
		return false
	}
	for _, x := range a {
		if x != "" && !has(b, x) && !strings.Contains(txt, x) {
			v.violate("changes:unreadable", "the text of a change does not show the old line %q: %q (%q)", x, txt, pairs)
		}
	}
	for _, x := range b {
		if x != "" && !has(a, x) && !strings.Contains(txt, x) {
			v.violate("changes:unreadable", "the text of a change does not show the new line %q: %q (%q)", x, txt, pairs)
		}
	}
}

// times9: what is reported must be a change beyond the factor; where calls correspond one to one in order with growing
// times, the largest such change per caller must be reported.
func times9(v *vRun, what string, q, p TestResult, t TestReport, factor int, one func() string) {
	id := p.TestFunction.FunctionIdent
	beyond := func(a, b uint64) bool {
		return max(1, a)*uint64(factor) < b || max(1, b)*uint64(factor) < a
	}
	for caller, c := range t.CallerTimeChanges {
		v.observe("time changes reported", 1)
		if !beyond(uint64(c.PreTimeMs), uint64(c.PostTimeMs)) {
			v.violate("time:below", "%s: test %s: %s %+v is not beyond factor %d\n%s", what, id, caller, c, factor, one())
		}
		if c.TimeDiff != time.Duration(int64(c.PostTimeMs)-int64(c.PreTimeMs))*time.Millisecond {
			v.violate("time:diff", "%s: test %s: %s %+v is inconsistent\n%s", what, id, caller, c, one())
		}
		if len(q.CallerResults[caller]) == 0 || len(p.CallerResults[caller]) == 0 {
			v.violate("time:invented", "%s: test %s: %s %+v but it was not called\n%s", what, id, caller, c, one())
		}
	}
	for caller, fa := range q.CallerResults {
		fb := p.CallerResults[caller]
		if len(fa) != len(fb) || len(fa) == 0 {
			continue
		}
		ok := true
		var la, lb uint32
		var best int64
		wants := map[string]bool{}
		for i := range fa {
			ok = ok && projKey(fa[i].Stack) == projKey(fb[i].Stack) && fa[i].TimeMillis >= max(1, la) && fb[i].TimeMillis >= max(1, lb)
			if !ok {
				break
			}
			x, y := fa[i].TimeMillis-la, fb[i].TimeMillis-lb
			la, lb = fa[i].TimeMillis, fb[i].TimeMillis
			if beyond(uint64(x), uint64(y)) {
				d := int64(y) - int64(x)
				mag := max(d, -d)
				if mag > best {
					best, wants = mag, map[string]bool{}
				}
				if mag == best {
					wants[fmt.Sprintf("%d->%d", x, y)] = true
				}
			}
		}
		if !ok {
			continue
		}
		v.observe("callers with exact timing expectation", 1)
		c, got := t.CallerTimeChanges[caller]
		if got != (len(wants) > 0) {
			v.violate("time:presence", "%s: test %s: %s time change reported %v (%+v), but changes beyond factor %d are %v\n%s", what, id, caller, got, c, factor, sortedKeys(wants), one())
		} else if got && !wants[fmt.Sprintf("%d->%d", c.PreTimeMs, c.PostTimeMs)] {
			v.violate("time:significance", "%s: test %s: %s reports %d->%d, most significant is %v\n%s", what, id, caller, c.PreTimeMs, c.PostTimeMs, sortedKeys(wants), one())
		}
	}
}

func mem9(string) Storage { return NewMemStorage() }

func vMain(t *testing.T) {
	vQuiet()
	vSilenceStdout()
	v := vNew("one evaluation = one pair of stored result sets compared by CompareTestResults, checked against the specification; distinct = classes of (same, diff, regression, changed, time change) counts per test")
	v.assumptions = []string{"field names contain no dots, except in the listed finding", "tests present on one side only are left open"}
	r := v.rng("main")
	names := []string{"TestA", "TestB", "TestC/sub one", "TestÖ", "TestZ"}
	gen := func(r *rand.Rand, p int) (set9, set9) {
		pre, post := set9{}, set9{}
		for i := 0; i < 1+r.Intn(4); i++ {
			n := names[r.Intn(len(names))]
			a := genResult(r, n)
			pre["pkg:"+n] = a
			post["pkg:"+n] = perturb(r, a, p)
		}
		if r.Intn(6) == 0 {
			x := genResult(r, "TestOnlyBefore")
			pre["pkg:TestOnlyBefore"] = x
		}
		if r.Intn(6) == 0 {
			x := genResult(r, "TestOnlyAfter")
			post["pkg:TestOnlyAfter"] = x
		}
		return pre, post
	}
	// identical sets: nothing may be reported (the specification says so too, this is the headline case)
	for i := 0; i < v.n(400, 4000); i++ {
		pre, post := gen(r, 0)
		for n, x := range pre {
			post[n] = copyResult(x)
		}
		compare9(v, fmt.Sprintf("identical %d", i), r, mem9, pre, post, 10)
	}
	for i := 0; i < v.n(4000, 60000); i++ {
		pre, post := gen(r, vPick(r, 3, 10, 30, 60))
		compare9(v, fmt.Sprintf("perturbed %d", i), r, mem9, pre, post, vPick(r, 1, 2, 10))
	}
	// unrelated sets
	for i := 0; i < v.n(500, 5000); i++ {
		pre, post := set9{}, set9{}
		for j := 0; j < 2; j++ {
			n := names[r.Intn(len(names))]
			pre["pkg:"+n], post["pkg:"+n] = genResult(r, n), genResult(r, n)
		}
		compare9(v, fmt.Sprintf("unrelated %d", i), r, mem9, pre, post, 10)
	}
	// timing
	for i := 0; i < v.n(2000, 30000); i++ {
		a := TestResult{TestFunction: MinimumTestFunction{"pkg:T", "T"}, CallerResults: map[string][]CallFrame{}}
		factor := vPick(r, 1, 2, 5, 10)
		for _, c := range []string{"p.F", "p.G"}[:1+r.Intn(2)] {
			var l []CallFrame
			tm := uint32(0)
			st := [][]StackFrame{genStack(r), genStack(r)}
			for k := 0; k < 1+r.Intn(5); k++ {
				tm += 1 + uint32(vPick(r, 0, 1, 5, 10, 50, 100, 3000))
				l = append(l, CallFrame{FieldValues{"x": {Value: "1"}}, st[r.Intn(2)], tm})
			}
			a.CallerResults[c] = l
		}
		b := copyResult(a)
		for _, l := range b.CallerResults {
			tm := uint32(0)
			var last uint32
			for k := range l {
				d := l[k].TimeMillis - last
				last = l[k].TimeMillis
				switch r.Intn(5) {
				case 0:
					d = d*uint32(factor) + 1
				case 1:
					d = d * uint32(factor)
				case 2:
					d = d/uint32(factor) + uint32(r.Intn(2))
				case 3:
					d = uint32(vPick(r, 0, 1, 7, 100, 999, 30000))
				}
				tm += d
				l[k].TimeMillis = tm
			}
		}
		compare9(v, fmt.Sprintf("timing %d", i), r, mem9, set9{"pkg:T": a}, set9{"pkg:T": b}, factor)
	}
	// the other back end, with sets sharing one store through prefixes as the engine does
	dir := vTempDir("c09")
	bad, err := NewBadgerStorage(filepath.Join(dir, "db"), 16)
	if err != nil {
		v.unsure("badger: %v", err)
	} else {
		n := 0
		for i := 0; i < v.n(150, 1500); i++ {
			pre, post := gen(r, 20)
			compare9(v, fmt.Sprintf("badger %d", i), r, func(k string) Storage {
				n++
				return noClose9{KeyPrefixStorage(bad, fmt.Sprintf("%s-%d", k, n))}
			}, pre, post, 10)
		}
		bad.Close()
	}
	// a store that fails to read gives an error, not a partial answer
	for i := 0; i < v.n(200, 2000); i++ {
		pre, post := gen(r, 20)
		a, b := NewMemStorage(), NewMemStorage()
		if save9(a, pre) != nil || save9(b, post) != nil {
			continue
		}
		var n string
		for _, k := range sortedKeys(post) {
			if _, ok := pre[k]; ok {
				n = k
			}
		}
		if n == "" {
			continue
		}
		an := &DefaultTestResultAnalyzer{}
		var sa, sb Storage = a, b
		switch i % 6 {
		case 0:
			sa = faulty9{Storage: a, bad: n}
		case 1:
			sb = faulty9{Storage: b, bad: n}
		case 2:
			sa = faulty9{Storage: a, list: true}
		case 3:
			sb = faulty9{Storage: b, list: true}
		case 4:
			_ = a.SaveState(n, []byte("\x00garbage"))
		case 5:
			_ = b.SaveState(n, []byte{})
		}
		v.eval()
		v.guard("compare-fault", "faulty store", 60*time.Second, true, func() {
			if _, _, _, err := an.CompareTestResults(sa, sb, 10); err == nil {
				v.violate(fmt.Sprintf("fault:swallowed:%d", i%6), "a store that fails (case %d) for %s gives no error", i%6, n)
			}
		})
		v.observe("faulty stores", 1)
	}
	// known: names with dots collide with nesting in the flat form
	{
		mk := func(x, y string) TestResult {
			return TestResult{TestFunction: MinimumTestFunction{"pkg:T", "T"}, CallerResults: map[string][]CallFrame{"p.F": {{FieldValues: FieldValues{
				"a.b": {Value: x}, "a": {Children: FieldValues{"b": {Value: y}}}}, TimeMillis: 1}}}}
		}
		a, b := NewMemStorage(), NewMemStorage()
		_ = save9(a, set9{"pkg:T": mk("1", "2")})
		_ = save9(b, set9{"pkg:T": mk("8", "9")})
		v.eval()
		if _, diff, _, err := (&DefaultTestResultAnalyzer{}).CompareTestResults(a, b, 10); err != nil || diff != 2 {
			v.violate("dotted:collision", "field a.b (a map key with a dot) and field b of a changed, %d differences counted (%v)", diff, err)
		}
	}
	v.sample(map[string]any{"observed": v.observed})
	v.finish(v.n(6000, 60000))
}

type noClose9 struct{ Storage }

func (noClose9) Close() {}
