package lens

// C22: the engine runs with recording stages; every stage outcome (normal, empty, error) is tried, the trace of calls,
// arguments, clean-ups and reports is checked against the stage order, and configurations are tried at and beyond
// their limits with a digest of the file tree around each attempt.

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"golang.org/x/tools/go/packages"
)

const (
	st22Changes = iota
	st22Callers
	st22Tests
	st22Storage
	st22Update
	st22Mutation
	st22Compare
	st22Report
	st22N
)

var st22Names = []string{"changes", "callers", "tests", "storage", "update", "mutation", "compare", "report"}

type ev22 struct {
	kind  string // "call", "cleanup", "close"
	stage int
	args  map[string]any
}

type rec22 struct {
	events  []ev22
	fail    map[int]error
	changes map[string][]*ModuleFunction
	callers []*CallerFunction
	reach   ReachableModuleChange
	tests   []*TestFunction
	store   *store22
	pre     Storage
	post    Storage
	nums    [3]int
	mut     MutationResult
	same    int
	diff    int
	reports []TestReport
	atCall  func(stage int, cfg Config)
}

func (r *rec22) call(stage int, cfg *Config, args map[string]any) error {
	r.events = append(r.events, ev22{"call", stage, args})
	if r.atCall != nil && cfg != nil {
		r.atCall(stage, *cfg)
	}
	return r.fail[stage]
}

func (r *rec22) cleanup(stage int) { r.events = append(r.events, ev22{"cleanup", stage, nil}) }

type store22 struct {
	Storage
	r *rec22
}

func (s *store22) Close() { s.r.events = append(s.r.events, ev22{"close", st22Storage, nil}) }

type pChanges22 struct{ r *rec22 }

func (p pChanges22) AnalyzeModuleChanges(config Config, expand bool, mods []*ModuleChange, radius int) (map[string][]*ModuleFunction, map[string][]*packages.Package, error) {
	if err := p.r.call(st22Changes, &config, map[string]any{"expand": expand, "mods": mods, "radius": radius}); err != nil {
		return nil, nil, err
	}
	return p.r.changes, nil, nil
}
func (p pChanges22) Cleanup() { p.r.cleanup(st22Changes) }

type pCallers22 struct{ r *rec22 }

func (p pCallers22) PerformCallerStaticAnalysis(config Config, ch []*ModuleFunction) ([]*CallerFunction, ReachableModuleChange, error) {
	if err := p.r.call(st22Callers, &config, map[string]any{"changes": ch}); err != nil {
		return nil, nil, err
	}
	return p.r.callers, p.r.reach, nil
}
func (p pCallers22) Cleanup() { p.r.cleanup(st22Callers) }

type pTests22 struct{ r *rec22 }

func (p pTests22) ProvideTests(config Config, c []*CallerFunction) ([]*TestFunction, error) {
	if err := p.r.call(st22Tests, &config, map[string]any{"callers": c}); err != nil {
		return nil, err
	}
	return p.r.tests, nil
}
func (p pTests22) Cleanup() { p.r.cleanup(st22Tests) }

type pStorage22 struct{ r *rec22 }

func (p pStorage22) NewStorage() (Storage, error) {
	if err := p.r.call(st22Storage, nil, nil); err != nil {
		return nil, err
	}
	return p.r.store, nil
}

type pUpdate22 struct{ r *rec22 }

func (p pUpdate22) RunModuleUpdateAnalysis(config Config, storage Storage, mods []*ModuleChange, reach ReachableModuleChange,
	callers []*CallerFunction, tests []*TestFunction) (int, int, int, Storage, Storage, error) {
	if err := p.r.call(st22Update, &config, map[string]any{"storage": storage, "mods": mods, "reach": reach, "callers": callers, "tests": tests}); err != nil {
		return 0, 0, 0, nil, nil, err
	}
	return p.r.nums[0], p.r.nums[1], p.r.nums[2], p.r.pre, p.r.post, nil
}
func (p pUpdate22) Cleanup() { p.r.cleanup(st22Update) }

type pMutation22 struct{ r *rec22 }

func (p pMutation22) RunMutationTesting(config Config, fast, line, targeted bool, ch []*ModuleFunction, tests []*TestFunction) (MutationResult, error) {
	if err := p.r.call(st22Mutation, &config, map[string]any{"fast": fast, "line": line, "targeted": targeted, "changes": ch, "tests": tests}); err != nil {
		return MutationResult{}, err
	}
	return p.r.mut, nil
}
func (p pMutation22) Cleanup() { p.r.cleanup(st22Mutation) }

type pCompare22 struct{ r *rec22 }

func (p pCompare22) CompareTestResults(pre, post Storage, mult int) (int, int, []TestReport, error) {
	if err := p.r.call(st22Compare, nil, map[string]any{"pre": pre, "post": post, "mult": mult}); err != nil {
		return 0, 0, nil, err
	}
	return p.r.same, p.r.diff, p.r.reports, nil
}

type pReport22 struct{ r *rec22 }

func (p pReport22) WriteReportFiles(js, ch string, start time.Time, a, b, c, d time.Duration,
	mods []*ModuleChange, checked []string, changeCount, reached, untracked int, fieldChecks int, callers []*CallerFunction,
	tests []*TestFunction, same, diff int, reports []TestReport, mut MutationResult) error {
	return p.r.call(st22Report, nil, map[string]any{"json": js, "charts": ch, "start": start, "dur": []time.Duration{a, b, c, d}, "mods": mods, "checked": checked,
		"count": changeCount, "reached": reached, "untracked": untracked, "fieldChecks": fieldChecks, "callers": callers, "tests": tests,
		"same": same, "diff": diff, "reports": reports, "mut": mut})
}

func set22[T any](l []*T) map[*T]bool {
	m := map[*T]bool{}
	for _, x := range l {
		m[x] = true
	}
	return m
}

func same22[T any](a, b []*T) bool {
	return len(a) == len(b) && reflect.DeepEqual(set22(a), set22(b))
}

func names22(mods []*ModuleChange) string {
	var l []string
	for _, m := range mods {
		l = append(l, m.Name+"@"+m.PriorVersion+"->"+m.NewVersion)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func vMain(t *testing.T) {
	vQuiet()
	v := vNew("one evaluation is one engine run with recorded stages (or one configuration check); distinct by stage outcomes and configuration")
	v.assumptions = []string{"stages are stand-ins that record their calls; the real stages are the subject of other properties"}
	r := v.rng("engine")
	base := vTempDir("c22")
	defer os.RemoveAll(base)
	// every single failing stage and every empty stage, under all mutation scopes, with and without temp copy
	n := 0
	for _, scope := range []string{"none", "line", "area", "function"} {
		for _, tmp := range []bool{false, true} {
			for stop := -1; stop < st22N; stop++ {
				for empty := -1; empty <= st22Tests; empty++ {
					run22(v, r, filepath.Join(base, fmt.Sprint("r", n)), scope, tmp, stop, empty)
					n++
				}
			}
		}
	}
	for k := 0; k < v.n(150, 3000); k++ {
		run22(v, r, filepath.Join(base, fmt.Sprint("r", n)), vPick(r, "none", "line", "area", "function"), r.Intn(5) == 0,
			vPick(r, -1, -1, r.Intn(st22N)), vPick(r, -1, -1, -1, r.Intn(3)))
		n++
	}
	noUpdate22(v, base)
	configs22(v, r, filepath.Join(base, "cfg"))
	flags22(v, base)
	v.finish(n)
}

func proj22(dir string) (proj, gopath, modcache string) {
	proj, gopath = filepath.Join(dir, "proj"), filepath.Join(dir, "gopath")
	modcache = filepath.Join(gopath, "pkg", "mod")
	vWriteTree(dir, map[string]string{
		"proj/go.mod":                       "module example.com/proj\n\ngo 1.25\n\nrequire (\n\texample.com/a v1.0.0\n\texample.com/b v1.1.0 // indirect\n)\n",
		"proj/x.go":                         "package proj\n",
		"gopath/pkg/mod/example.com/a/a.go": "package a\n",
	})
	return
}

func run22(v *vRun, r *rand.Rand, dir, scope string, tmp bool, stop, empty int) {
	v.eval()
	proj, gopath, modcache := proj22(dir)
	defer os.RemoveAll(dir)
	rec := &rec22{fail: map[int]error{}}
	boom := fmt.Errorf("injected failure %d", r.Intn(1000000))
	if stop >= 0 {
		rec.fail[stop] = boom
		if stop == st22Changes && r.Intn(2) == 0 {
			rec.fail[stop] = fmt.Errorf("failure loading module example.com/a@v1.2.0: %w", boom)
		}
	}
	rec.changes = map[string][]*ModuleFunction{"example.com/empty": nil}
	var all []*ModuleFunction
	if empty != st22Changes {
		for i, n := 0, 1+r.Intn(6); i < n; i++ {
			name := fmt.Sprintf("example.com/m%d", r.Intn(4))
			f := &ModuleFunction{Function: Function{FunctionIdent: fmt.Sprintf("%s.F%d", name, i)}}
			rec.changes[name] = append(rec.changes[name], f)
			all = append(all, f)
		}
	}
	var checked []string
	for k := range rec.changes {
		checked = append(checked, k)
	}
	sort.Strings(checked)
	if empty != st22Callers {
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			rec.callers = append(rec.callers, &CallerFunction{Function: Function{FunctionIdent: fmt.Sprint("p.C", i)}})
		}
		rec.reach = ReachableModuleChange{"x": &ModuleFunction{}}
	}
	if empty != st22Tests {
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			rec.tests = append(rec.tests, &TestFunction{Function: Function{FunctionIdent: fmt.Sprint("p.T", i)}})
		}
	}
	rec.store = &store22{NewMemStorage(), rec}
	rec.pre, rec.post = NewMemStorage(), NewMemStorage()
	rec.nums = [3]int{r.Intn(1000), 1000 + r.Intn(1000), 2000 + r.Intn(1000)}
	rec.mut = MutationResult{MutationCount: 3000 + r.Intn(1000), SquashedCount: r.Intn(100)}
	rec.same, rec.diff = 5000+r.Intn(1000), 6000+r.Intn(1000)
	rec.reports = []TestReport{{SameFieldCount: r.Intn(9)}}
	var dirs []string
	rec.atCall = func(stage int, cfg Config) {
		dirs = append(dirs, cfg.AbsProjDir)
		if tmp && (strings.HasPrefix(cfg.AbsProjDir, dir) || strings.HasPrefix(cfg.Gopath, dir) || strings.HasPrefix(cfg.Gomodcache, dir)) {
			v.violate("temp-copy-not-used", "stage %s got the original directories %s %s %s in temp copy mode", st22Names[stage], cfg.AbsProjDir, cfg.Gopath, cfg.Gomodcache)
		}
		if !tmp && (cfg.AbsProjDir != proj || cfg.Gopath != gopath || cfg.Gomodcache != modcache) {
			v.violate("directories", "stage %s got directories %s %s %s", st22Names[stage], cfg.AbsProjDir, cfg.Gopath, cfg.Gomodcache)
		}
		if b, err := os.ReadFile(filepath.Join(cfg.AbsProjDir, "x.go")); err != nil || string(b) != "package proj\n" {
			v.violate("project-missing", "stage %s got a project directory without the project's files: %v", st22Names[stage], err)
		}
	}
	cfg := &Config{ProjectDir: proj, Gopath: gopath, Gomodcache: modcache, AstMonitorPort: 1024 + r.Intn(60000), MaxFieldRecurse: 1 + r.Intn(100), MaxFieldLen: 1 + r.Intn(1<<20),
		CacheMB: 1 + r.Intn(10240), TimeMultiplier: 1 + r.Intn(100), ReportJsonFile: filepath.Join(dir, "out", "r.json"), ReportChartsFile: vPick(r, filepath.Join(dir, "out", "r.png"), ""),
		MutationScope: scope, MutationMode: vPick(r, "fast", "full"), MutationTests: vPick(r, "targeted", "full"), TmpCopy: tmp, ModulesVersionFlag: "example.com/a@v1.2.0, example.com/b@v1.3.0"}
	orig := *cfg
	e := NewAnalysisEngineWithProviders(cfg, pChanges22{rec}, pCallers22{rec}, pTests22{rec}, pUpdate22{rec}, pMutation22{rec}, pCompare22{rec}, pStorage22{rec}, pReport22{rec})
	before := vTree(filepath.Join(dir, "proj"))
	beforeGo := vTree(gopath)
	tmpBefore := vTree22(os.Getenv("TMPDIR"))
	what := fmt.Sprintf("scope=%s tmp=%v failing=%s empty=%s", scope, tmp, name22(stop), name22(empty))
	var err error
	t0 := time.Now()
	if !v.guard("run", what, 5*time.Minute, true, func() { err = e.Run() }) {
		return
	}
	t1 := time.Now()
	v.seen(what)
	// what must have happened
	last := st22Report // stages run in order up to the first stop
	expectErr := false
	var wantCalls []int
	for s := 0; s < st22N; s++ {
		if s == st22Mutation && scope == "none" {
			continue
		}
		wantCalls = append(wantCalls, s)
		if s == stop {
			expectErr = true
			last = s
			break
		}
		if s == empty {
			wantCalls = append(wantCalls, st22Report)
			expectErr = stop == st22Report
			break
		}
	}
	_ = last
	var calls []int
	cleanups := map[int]int{}
	closes := 0
	seenCleanup := false
	argOf := map[int]map[string]any{}
	for _, ev := range rec.events {
		switch ev.kind {
		case "call":
			calls = append(calls, ev.stage)
			argOf[ev.stage] = ev.args
			if seenCleanup {
				v.violate("cleanup-early", "%s: stage %s ran after a clean-up had started", what, st22Names[ev.stage])
			}
			if closes > 0 {
				v.violate("storage-closed-early", "%s: stage %s ran after the storage was closed", what, st22Names[ev.stage])
			}
		case "cleanup":
			seenCleanup = true
			cleanups[ev.stage]++
		case "close":
			closes++
		}
	}
	v.observe("stage_calls", len(calls))
	// storage may be opened at any point before the update stage; compare the rest in order
	strip := func(l []int) string {
		var b strings.Builder
		for _, s := range l {
			if s != st22Storage {
				b.WriteString(st22Names[s] + " ")
			}
		}
		return b.String()
	}
	if strip(calls) != strip(wantCalls) {
		v.violate("stages", "%s: stages run: %s\nexpected: %s\nerror: %v", what, strip(calls), strip(wantCalls), err)
		return
	}
	if expectErr && err == nil {
		v.violate("swallowed-error", "%s: the run reported success", what)
	} else if !expectErr && err != nil {
		v.violate("spurious-error", "%s: the run failed: %v", what, err)
	} else if expectErr && !errors.Is(err, boom) && !strings.Contains(err.Error(), boom.Error()) && !strings.Contains(err.Error(), "example.com/a@v1.2.0 not found") {
		v.violate("wrong-error", "%s: the run failed with %q instead of %q", what, err, boom)
	}
	ran := map[int]bool{}
	for _, s := range calls {
		ran[s] = true
	}
	for _, s := range []int{st22Changes, st22Callers, st22Tests, st22Update, st22Mutation} {
		ok := cleanups[s] == 0
		if ran[s] && s != stop {
			ok = cleanups[s] == 1
		} else if ran[s] {
			ok = cleanups[s] <= 1
		}
		if !ok {
			v.violate("cleanup", "%s: stage %s (run: %v) cleaned up %d times", what, st22Names[s], ran[s], cleanups[s])
		}
	}
	wantClose := 0
	if ran[st22Storage] && stop != st22Storage {
		wantClose = 1
	}
	if closes != wantClose {
		v.violate("storage-close", "%s: storage closed %d times, expected %d", what, closes, wantClose)
	}
	// arguments
	bad := func(stage int, f string, a ...any) {
		v.violate("argument:"+st22Names[stage], "%s: stage %s: %s", what, st22Names[stage], fmt.Sprintf(f, a...))
	}
	mods := "example.com/a@v1.0.0->v1.2.0 example.com/b@v1.1.0->v1.3.0"
	if a := argOf[st22Changes]; a != nil {
		wantRadius := 0
		if scope == "area" {
			wantRadius = 1
		}
		if g := names22(a["mods"].([]*ModuleChange)); g != mods || a["expand"] != true || a["radius"] != wantRadius {
			bad(st22Changes, "got modules %s, transitive %v, radius %v", g, a["expand"], a["radius"])
		}
	}
	if a := argOf[st22Callers]; a != nil && !same22(a["changes"].([]*ModuleFunction), all) {
		bad(st22Callers, "got %d of %d changed functions", len(a["changes"].([]*ModuleFunction)), len(all))
	}
	if a := argOf[st22Tests]; a != nil && !same22(a["callers"].([]*CallerFunction), rec.callers) {
		bad(st22Tests, "callers differ")
	}
	if a := argOf[st22Update]; a != nil {
		if a["storage"] != Storage(rec.store) || names22(a["mods"].([]*ModuleChange)) != mods || !reflect.DeepEqual(a["reach"], rec.reach) ||
			!same22(a["callers"].([]*CallerFunction), rec.callers) || !same22(a["tests"].([]*TestFunction), rec.tests) {
			bad(st22Update, "inputs differ: %v", a)
		}
	}
	if a := argOf[st22Mutation]; a != nil {
		if a["fast"] != (orig.MutationMode != "full") || a["line"] != (scope == "line" || scope == "area") || a["targeted"] != (orig.MutationTests != "full") ||
			!same22(a["changes"].([]*ModuleFunction), all) || !same22(a["tests"].([]*TestFunction), rec.tests) {
			bad(st22Mutation, "inputs differ (mode %s tests %s): fast %v line %v targeted %v", orig.MutationMode, orig.MutationTests, a["fast"], a["line"], a["targeted"])
		}
	}
	if a := argOf[st22Compare]; a != nil && (a["pre"] != rec.pre || a["post"] != rec.post || a["mult"] != orig.TimeMultiplier) {
		bad(st22Compare, "inputs differ")
	}
	if a := argOf[st22Report]; a != nil {
		full := empty < 0
		cnt := len(all)
		var wc []*CallerFunction
		var wt []*TestFunction
		if empty < 0 || empty > st22Changes {
			wc = rec.callers
		}
		if empty < 0 || empty > st22Callers {
			wt = rec.tests
		}
		if a["json"] != orig.ReportJsonFile || a["charts"] != orig.ReportChartsFile {
			bad(st22Report, "files %v %v", a["json"], a["charts"])
		}
		if st := a["start"].(time.Time); st.Before(t0.Add(-time.Second)) || st.After(t1) {
			bad(st22Report, "start time %v is outside the run", st)
		}
		var sum time.Duration
		for _, d := range a["dur"].([]time.Duration) {
			sum += d
			if d < 0 {
				bad(st22Report, "negative duration %v", d)
			}
		}
		if sum > t1.Sub(t0)+time.Second {
			bad(st22Report, "durations %v exceed the run of %v", a["dur"], t1.Sub(t0))
		}
		if names22(a["mods"].([]*ModuleChange)) != mods || !reflect.DeepEqual(append([]string{}, a["checked"].([]string)...), checked) {
			bad(st22Report, "modules %s checked %v, expected %v", names22(a["mods"].([]*ModuleChange)), a["checked"], checked)
		}
		if a["count"] != cnt || !same22(a["callers"].([]*CallerFunction), wc) || !same22(a["tests"].([]*TestFunction), wt) {
			bad(st22Report, "changed functions %v (expected %d), callers %d (%d), tests %d (%d)", a["count"], cnt, len(a["callers"].([]*CallerFunction)), len(wc), len(a["tests"].([]*TestFunction)), len(wt))
		}
		var got, want []any
		got = []any{a["fieldChecks"], a["reached"], a["untracked"], a["same"], a["diff"], a["mut"]}
		if full {
			want = []any{rec.nums[0], rec.nums[1], rec.nums[2], rec.same, rec.diff, rec.mut}
			if scope == "none" {
				want[5] = MutationResult{}
			}
			if !reflect.DeepEqual(a["reports"], rec.reports) {
				bad(st22Report, "test reports differ")
			}
		} else {
			want = []any{0, 0, 0, 0, 0, MutationResult{}}
			if len(a["reports"].([]TestReport)) != 0 {
				bad(st22Report, "test reports of a run without tests")
			}
		}
		if !reflect.DeepEqual(got, want) {
			bad(st22Report, "numbers (field checks, reached, untracked, same, diff, mutations) %v, expected %v", got, want)
		}
		v.observe("reports", 1)
	}
	if d := vTreeDiff(before, vTree(filepath.Join(dir, "proj"))); d != "" {
		v.violate("project-touched", "%s: the engine itself changed the project:\n%s", what, d)
	}
	if d := vTreeDiff(beforeGo, vTree(gopath)); d != "" {
		v.violate("gopath-touched", "%s: the engine itself changed GOPATH:\n%s", what, d)
	}
	if d := vTreeDiff(tmpBefore, vTree22(os.Getenv("TMPDIR"))); d != "" {
		v.violate("temp-left", "%s: left in the temp directory:\n%s", what, d)
	}
	if v.evals < 4 {
		v.sample(map[string]any{"case": what, "stages": strip(calls), "cleanups": len(cleanups), "error": fmt.Sprint(err)})
	}
}

// vTree22 lists the top level of the temp directory.
func vTree22(dir string) map[string]string {
	out := map[string]string{}
	l, _ := os.ReadDir(dir)
	for _, e := range l {
		out[e.Name()] = "entry"
	}
	return out
}

func name22(s int) string {
	if s < 0 {
		return "-"
	}
	return st22Names[s]
}

// noUpdate22: nothing to update ends the run without stages.
func noUpdate22(v *vRun, base string) {
	dir := filepath.Join(base, "noupdate")
	proj, gopath, modcache := proj22(dir)
	same := filepath.Join(dir, "same.mod")
	b, _ := os.ReadFile(filepath.Join(proj, "go.mod"))
	_ = os.WriteFile(same, b, 0o644)
	bad := filepath.Join(dir, "bad.mod")
	_ = os.WriteFile(bad, []byte("module ("), 0o644)
	for i, c := range []struct {
		mod, gomod string
		err        bool
	}{{mod: "example.com/absent@v1.0.0"}, {gomod: same}, {gomod: bad, err: true}} {
		v.eval()
		rec := &rec22{fail: map[int]error{}}
		rec.store = &store22{NewMemStorage(), rec}
		cfg := &Config{ProjectDir: proj, Gopath: gopath, Gomodcache: modcache, AstMonitorPort: 44440, MaxFieldRecurse: 20, MaxFieldLen: 1024, CacheMB: 100, TimeMultiplier: 2,
			ReportJsonFile: filepath.Join(dir, "r.json"), ReportChartsFile: filepath.Join(dir, "r.png"), MutationScope: "none", MutationMode: "fast", MutationTests: "targeted",
			ModuleVersionFlag: c.mod, UpdatedGoModFile: c.gomod}
		err := NewAnalysisEngineWithProviders(cfg, pChanges22{rec}, pCallers22{rec}, pTests22{rec}, pUpdate22{rec}, pMutation22{rec}, pCompare22{rec}, pStorage22{rec}, pReport22{rec}).Run()
		if (err != nil) != c.err {
			v.violate("no-update", "case %d %+v: error %v", i, c, err)
		}
		for _, e := range rec.events {
			if e.kind == "call" && e.stage != st22Report {
				v.violate("no-update", "case %d %+v: stage %s ran although nothing is updated", i, c, st22Names[e.stage])
			}
		}
	}
}

// configs22: configurations at their limits are accepted unaltered, beyond them refused without touching anything.
func configs22(v *vRun, r *rand.Rand, dir string) {
	proj, gopath, modcache := proj22(dir)
	gomod := filepath.Join(dir, "new.mod")
	gowork := filepath.Join(dir, "new.work")
	vWriteTree(dir, map[string]string{"new.mod": "module x\n", "new.work": "go 1.25\n", "out/keep": "k", "out/.write_test": "mine", "file": "f", ".write_test": "mine too"})
	good := func() *Config {
		c := &Config{ProjectDir: proj, Gopath: gopath, Gomodcache: modcache,
			AstMonitorPort: vPick(r, 1024, 65535, 44440), MaxFieldRecurse: vPick(r, 1, 100, 20), MaxFieldLen: vPick(r, 1, 1048576, 1024), CacheMB: vPick(r, 1, 10240, 200), TimeMultiplier: vPick(r, 1, 100, 2),
			ReportJsonFile: vPick(r, "", filepath.Join(dir, "out", "a.json")), ReportChartsFile: vPick(r, "", filepath.Join(dir, "out", "a.png")),
			MutationScope: vPick(r, "function", "line", "area", "none"), MutationMode: vPick(r, "full", "fast"), MutationTests: vPick(r, "full", "targeted"), TmpCopy: r.Intn(2) == 0,
			CustomFlags: map[string]string{"k": "v"}}
		switch r.Intn(5) {
		case 0:
			c.ModuleVersionFlag = "example.com/a@v1.2.3"
		case 1:
			c.ModulesVersionFlag = vPick(r, "example.com/a@v1.2.3", "example.com/a@v1.2.3,example.com/b/v2@v2.0.0-rc.1", " example.com/a@v1 , b.io@latest")
		case 2:
			c.UpdatedGoModFile = gomod
		case 3:
			c.UpdatedGoWorkFile = gowork
		case 4:
			c.ModuleVersionFlag = "example.com/a@v1.2.3+incompatible"
			c.ModulesVersionFlag = "x/y@v0.0.1"
		}
		return c
	}
	targets := func(c *Config) []TargetModule {
		var l []TargetModule
		add := func(s string) {
			i := strings.Index(s, "@")
			l = append(l, TargetModule{s[:i], s[i+1:]})
		}
		if c.ModuleVersionFlag != "" {
			add(c.ModuleVersionFlag)
		}
		if c.ModulesVersionFlag != "" {
			for _, s := range strings.Split(c.ModulesVersionFlag, ",") {
				add(strings.TrimSpace(s))
			}
		}
		return l
	}
	breaks := map[string]func(*Config){
		"no project": func(c *Config) { c.ProjectDir = "" },
		"no update": func(c *Config) {
			c.ModuleVersionFlag, c.ModulesVersionFlag, c.UpdatedGoModFile, c.UpdatedGoWorkFile = "", "", "", ""
		},
		"gomod and gowork":  func(c *Config) { c.UpdatedGoModFile, c.UpdatedGoWorkFile = gomod, gowork },
		"module without @":  func(c *Config) { c.ModuleVersionFlag = "example.com/a" },
		"module no version": func(c *Config) { c.ModuleVersionFlag = "example.com/a@" },
		"module no name":    func(c *Config) { c.ModuleVersionFlag = "@v1.0.0" },
		"module odd name":   func(c *Config) { c.ModuleVersionFlag = "plain@v1.0.0" },
		"list empty element": func(c *Config) {
			c.ModulesVersionFlag = vPick(r, "example.com/a@v1.0.0,", ",example.com/a@v1.0.0", "example.com/a@v1.0.0, ,b.io@v1.0.0")
		},
		"list bad element": func(c *Config) {
			c.ModulesVersionFlag = vPick(r, "example.com/a@v1.0.0,b.io", "b.io@,example.com/a@v1.0.0")
		},
		"gomod missing": func(c *Config) {
			c.UpdatedGoModFile, c.UpdatedGoWorkFile = filepath.Join(dir, "none.mod"), ""
		},
		"gomod is dir": func(c *Config) { c.UpdatedGoModFile, c.UpdatedGoWorkFile = dir, "" },
		"gowork missing": func(c *Config) {
			c.UpdatedGoWorkFile, c.UpdatedGoModFile = filepath.Join(dir, "none.work"), ""
		},
		"gowork is dir":   func(c *Config) { c.UpdatedGoWorkFile, c.UpdatedGoModFile = dir, "" },
		"port low":        func(c *Config) { c.AstMonitorPort = vPick(r, 1023, 0, -1) },
		"port high":       func(c *Config) { c.AstMonitorPort = vPick(r, 65536, 1<<30) },
		"recurse low":     func(c *Config) { c.MaxFieldRecurse = vPick(r, 0, -1) },
		"recurse high":    func(c *Config) { c.MaxFieldRecurse = vPick(r, 101, 1<<30) },
		"len low":         func(c *Config) { c.MaxFieldLen = vPick(r, 0, -1) },
		"len high":        func(c *Config) { c.MaxFieldLen = 1048577 },
		"cache low":       func(c *Config) { c.CacheMB = vPick(r, 0, -5) },
		"cache high":      func(c *Config) { c.CacheMB = 10241 },
		"multiplier low":  func(c *Config) { c.TimeMultiplier = vPick(r, 0, -1) },
		"multiplier high": func(c *Config) { c.TimeMultiplier = 101 },
		"scope":           func(c *Config) { c.MutationScope = vPick(r, "", "Line", "all", "full") },
		"mode":            func(c *Config) { c.MutationMode = vPick(r, "", "slow", "FAST") },
		"tests":           func(c *Config) { c.MutationTests = vPick(r, "", "some") },
		"json in a file":  func(c *Config) { c.ReportJsonFile = filepath.Join(dir, "file", "r.json") },
		"chart in a file": func(c *Config) { c.ReportChartsFile = filepath.Join(dir, "file", "r.png") },
	}
	var kinds []string
	for k := range breaks {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	before := vTree(dir)
	check := func(what string) {
		if d := vTreeDiff(before, vTree(dir)); d != "" {
			v.violate("config-touched", "checking a configuration (%s) changed files:\n%s", what, d)
			_ = os.RemoveAll(dir)
			proj22(dir)
			before = vTree(dir)
		}
	}
	for k := 0; k < v.n(1500, 20000); k++ {
		c := good()
		v.eval()
		if k%3 == 0 {
			orig := *c
			if err := c.Prepare(); err != nil {
				v.violate("valid-refused", "valid configuration refused: %v\n%+v", err, orig)
				continue
			}
			if !reflect.DeepEqual(append([]TargetModule{}, c.TargetModules...), append([]TargetModule{}, targets(&orig)...)) {
				v.violate("targets", "target modules %v, expected %v", c.TargetModules, targets(&orig))
			}
			if c.AbsProjDir != proj {
				v.violate("config-altered", "project directory %q, expected %q", c.AbsProjDir, proj)
			}
			c.TargetModules, c.AbsProjDir, c.prepared = nil, "", false
			if !reflect.DeepEqual(*c, orig) {
				v.violate("config-altered", "checking altered the configuration:\n%+v\nnow\n%+v", orig, *c)
			}
			check("valid")
			v.observe("valid_configurations", 1)
			continue
		}
		kind := kinds[k%len(kinds)]
		breaks[kind](c)
		if r.Intn(4) == 0 {
			breaks[kinds[r.Intn(len(kinds)-1)]](c) // may also undo the first one only for the update selectors, so re-apply
			breaks[kind](c)
		}
		rec := &rec22{fail: map[int]error{}}
		rec.store = &store22{NewMemStorage(), rec}
		err := NewAnalysisEngineWithProviders(c, pChanges22{rec}, pCallers22{rec}, pTests22{rec}, pUpdate22{rec}, pMutation22{rec}, pCompare22{rec}, pStorage22{rec}, pReport22{rec}).Run()
		if err == nil {
			v.violate("invalid-accepted:"+kind, "invalid configuration (%s) accepted: %+v", kind, *c)
		}
		if len(rec.events) > 0 {
			v.violate("invalid-started:"+kind, "invalid configuration (%s) started stage %s", kind, st22Names[rec.events[0].stage])
		}
		check(kind)
		v.seen("config " + kind)
		v.observe("invalid_configurations", 1)
	}
	c := good()
	if c.Prepare() == nil && c.Prepare() == nil {
		v.violate("prepared-twice", "a configuration could be prepared twice")
	}
}

// flags22: the command line is turned into exactly that configuration.
func flags22(v *vRun, base string) {
	repo := os.Getenv("VERIF_REPO")
	dir := filepath.Join(base, "flagprog")
	vWriteTree(dir, map[string]string{"main.go": `package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/PatchLens/go-update-lens/lens/cmd"
)

func main() {
	c, err := cmd.ParseFlags([]cmd.CustomFlag{{Name: "cs", DefaultValue: "d", Type: "string"}, {Name: "ci", DefaultValue: 3, Type: "int"}, {Name: "cb", DefaultValue: true, Type: "bool"}})
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(3)
	}
	_ = json.NewEncoder(os.Stdout).Encode(c)
}
`})
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(repo, "cmd", "zzverif", "main.go"): filepath.Join(dir, "main.go")}})
	_ = os.WriteFile(filepath.Join(dir, "ov.json"), ov, 0o644)
	bin := filepath.Join(dir, "flagprog.bin")
	cmd := exec.Command("go", "build", "-overlay", filepath.Join(dir, "ov.json"), "-o", bin, "./cmd/zzverif")
	cmd.Dir = repo
	if out, err := cmd.CombinedOutput(); err != nil {
		v.unsure("flag program does not build: %s", out)
		return
	}
	def := func() map[string]any {
		return map[string]any{"ProjectDir": "/p", "ModuleVersionFlag": "", "ModulesVersionFlag": "", "UpdatedGoModFile": "", "UpdatedGoWorkFile": "", "AstMonitorPort": 44440.0, "MaxFieldRecurse": 20.0, "MaxFieldLen": 1024.0, "CacheMB": 200.0,
			"ReportJsonFile": "modreport.json", "ReportChartsFile": "modreport.png", "MutationScope": "line", "MutationMode": "fast", "MutationTests": "targeted", "TmpCopy": true, "TimeMultiplier": 2.0,
			"Gopath": "/gp", "Gomodcache": "/gp/pkg/mod", "CustomFlags": map[string]any{"cs": "d", "ci": "3", "cb": "true"}}
	}
	type fl struct {
		flag, val, key string
		want           any
	}
	list := []fl{{"project", "/other/x", "ProjectDir", "/other/x"}, {"module", "a.b/c@v1", "ModuleVersionFlag", "a.b/c@v1"}, {"modules", "a.b/c@v1,d.e@v2", "ModulesVersionFlag", "a.b/c@v1,d.e@v2"},
		{"gomod", "/n/go.mod", "UpdatedGoModFile", "/n/go.mod"}, {"gowork", "/n/go.work", "UpdatedGoWorkFile", "/n/go.work"}, {"monitorport", "50001", "AstMonitorPort", 50001.0},
		{"json", "j.json", "ReportJsonFile", "j.json"}, {"charts", "c.svg", "ReportChartsFile", "c.svg"}, {"fieldrecurse", "7", "MaxFieldRecurse", 7.0}, {"fieldlen", "99", "MaxFieldLen", 99.0},
		{"cachemb", "321", "CacheMB", 321.0}, {"mutationscope", "none", "MutationScope", "none"}, {"mutationset", "full", "MutationMode", "full"}, {"mutationtests", "full", "MutationTests", "full"},
		{"tmpcopy", "false", "TmpCopy", false}, {"timemultiplier", "9", "TimeMultiplier", 9.0}, {"cs", "z", "CustomFlags.cs", "z"}, {"ci", "-8", "CustomFlags.ci", "-8"}, {"cb", "false", "CustomFlags.cb", "false"}}
	r := v.rng("flags")
	for k := 0; k < v.n(150, 1500); k++ {
		want := def()
		used := map[string]bool{}
		var args []string
		for _, f := range list {
			if (f.flag == "module" && k%3 == 0) || r.Intn(5) == 0 {
				used[f.flag] = true
				args = append(args, vPick(r, "-", "--")+f.flag+"="+f.val)
				if p, sub, ok := strings.Cut(f.key, "."); ok {
					want[p].(map[string]any)[sub] = f.want
				} else {
					want[f.key] = f.want
				}
			}
		}
		if !used["project"] && k%10 != 0 {
			args = append(args, "-project", "/p")
			used["project"] = true
		}
		v.eval()
		c := exec.Command(bin, args...)
		c.Env = append(os.Environ(), "GOPATH=/gp")
		var env []string
		for _, e := range c.Env {
			if !strings.HasPrefix(e, "GOMODCACHE=") {
				env = append(env, e)
			}
		}
		c.Env = env
		if r.Intn(3) == 0 {
			c.Env = append(c.Env, "GOMODCACHE=/mc")
			want["Gomodcache"] = "/mc"
		}
		out, err := c.Output()
		wantErr := !used["project"] || !(used["module"] || used["modules"] || used["gomod"] || used["gowork"]) || used["gomod"] && used["gowork"]
		if wantErr != (err != nil) {
			v.violate("flags-verdict", "flags %v: error %v, expected error %v\n%s", args, err, wantErr, out)
			continue
		}
		v.observe("command_lines", 1)
		v.seen("flags " + fmt.Sprint(wantErr, len(used)))
		if wantErr {
			continue
		}
		var got map[string]any
		if err := json.Unmarshal(out, &got); err != nil {
			v.violate("flags-output", "flags %v: %s", args, out)
			continue
		}
		for key, w := range want {
			if !reflect.DeepEqual(got[key], w) {
				v.violate("flags:"+key, "flags %v: %s is %v, expected %v", args, key, got[key], w)
			}
		}
	}
}
