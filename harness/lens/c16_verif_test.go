package lens

// C16: generated analysis results go through the real report writer; the JSON and the SVG chart are read back and
// compared with a recomputation from the inputs, repeated runs are compared with each other, and a chart is produced
// from every JSON report (in process and with the report command).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"image/png"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"
)

type c16In struct {
	start                          time.Time
	d                              [4]time.Duration
	mods                           []*ModuleChange
	checked                        []string
	changed, reached, untracked    int
	fieldChecks                    int
	callers                        []*CallerFunction
	tests                          []*TestFunction
	same, diff                     int
	reports                        []TestReport
	mut                            MutationResult
	reachable                      []string // expected
	projFuncs                      []string
	regressions, baseline, genTest int
}

func c16Count(r *rand.Rand) int {
	switch r.Intn(5) {
	case 0:
		return 0
	case 1:
		return 1 + r.Intn(9)
	case 2:
		return r.Intn(300)
	case 3:
		return r.Intn(30000)
	}
	return r.Intn(1 << 33)
}

func c16Gen(r *rand.Rand, clean bool) *c16In {
	in := &c16In{}
	in.start = time.Now().Add(-time.Duration(r.Int63n(int64(100 * time.Hour)))).Round(0).UTC()
	for i := range in.d {
		in.d[i] = time.Duration(r.Int63n(int64(vPick(r, time.Second, time.Hour, 100*time.Hour))))
	}
	for i, n := 0, r.Intn(4); i < n; i++ {
		in.mods = append(in.mods, &ModuleChange{Name: fmt.Sprintf("example.com/mod%d", i), PriorVersion: fmt.Sprintf("v1.%d.0", i),
			NewVersion: fmt.Sprintf("v2.%d.0-rc.1", i), Indirect: r.Intn(2) == 0})
	}
	for i, n := 0, r.Intn(6); i < n; i++ {
		in.checked = append(in.checked, fmt.Sprintf("example.com/mod%d", i))
	}
	nmf := r.Intn(12)
	var mfs []*ModuleFunction
	for i := 0; i < nmf; i++ {
		mfs = append(mfs, &ModuleFunction{Function: Function{FunctionIdent: fmt.Sprintf("example.com/mod%d.F%d", i%3, i), FunctionName: "F"}})
	}
	reach, proj := map[string]bool{}, map[string]bool{}
	for i, n := 0, r.Intn(9); i < n; i++ {
		c := &CallerFunction{Function: Function{FunctionIdent: fmt.Sprintf("proj/p%d.C%d", r.Intn(3), r.Intn(20)), FunctionName: "C"}}
		for _, m := range mfs {
			if r.Intn(3) == 0 {
				mm := m
				if r.Intn(4) == 0 { // same function, other object
					cp := *m
					mm = &cp
				}
				c.ChangeFunctions = append(c.ChangeFunctions, mm)
				reach[m.FunctionIdent] = true
			}
		}
		proj[c.FunctionIdent] = true
		in.callers = append(in.callers, c)
	}
	in.reachable, in.projFuncs = sortedKeys16(reach), sortedKeys16(proj)
	in.changed = len(reach) + vPick(r, 0, 0, r.Intn(4), r.Intn(2000))
	if len(reach) > 0 {
		in.reached = r.Intn(len(reach) + 1)
		in.untracked = r.Intn(len(reach) - in.reached + 1)
	}
	in.fieldChecks = c16Count(r)
	in.mut.MutationCount = c16Count(r)
	if in.mut.MutationCount > 0 {
		in.mut.SquashedCount = vPick(r, 0, in.mut.MutationCount, r.Intn(in.mut.MutationCount+1), max(0, in.mut.MutationCount-1))
	}
	nt := vPick(r, 0, 1, 2, 3, 5, 9, 14)
	for i := 0; i < nt; i++ {
		name := fmt.Sprintf("Test%c%d", 'A'+rune(r.Intn(26)), r.Intn(900)+100)
		if r.Intn(4) == 0 {
			name = fmt.Sprintf("TestGen_%c%d", 'a'+rune(r.Intn(26)), r.Intn(900)+100)
		}
		if !clean && i > 0 && r.Intn(6) == 0 {
			name = in.tests[r.Intn(len(in.tests))].FunctionName // duplicate-named test of another package
		}
		f := Function{FunctionIdent: fmt.Sprintf("proj/p%d.%s", i, name), FunctionName: name}
		in.tests = append(in.tests, &TestFunction{Function: f})
		if strings.HasPrefix(name, "TestGen_") {
			in.genTest++
		}
		if r.Intn(8) == 0 {
			continue // never produced a result
		}
		tr := TestReport{OriginalResult: TestResult{TestFunction: MinimumTestFunction{f.FunctionIdent, f.FunctionName}, ModuleChangesHit: r.Intn(50), TestFailure: r.Intn(6) == 0},
			PostUpdateResult: TestResult{TestFunction: MinimumTestFunction{f.FunctionIdent, f.FunctionName}, TestFailure: r.Intn(4) == 0}}
		if !tr.OriginalResult.TestFailure && tr.PostUpdateResult.TestFailure {
			tr.TestRegressionCount = 1
			in.regressions++
		}
		if tr.OriginalResult.TestFailure {
			in.baseline++
		}
		tr.SameFieldCount = c16Count(r) % 100000
		in.same += tr.SameFieldCount
		if r.Intn(3) > 0 {
			tr.CallerFieldChanges = map[string]map[string]string{}
		}
		if r.Intn(2) == 0 {
			if tr.CallerFieldChanges == nil {
				tr.CallerFieldChanges = map[string]map[string]string{}
			}
			for j, n := 0, 1+r.Intn(5); j < n; j++ {
				fm := map[string]string{}
				for k, m := 0, 1+r.Intn(4); k < m; k++ {
					fn := vPick(r, resNames...)
					if clean {
						fn = fmt.Sprintf("f%d", r.Intn(9))
					}
					fm[fn] = vPick(r, "@@ -1 +1 @@\n-a\n+b\n", "\t'x'\n!=\n\t'y'", "plain", " inner  space ", "<a>&\"q\"", "bad\xffutf", "é", strings.Repeat("long ", 300), "1")
					tr.DiffFieldCount++
				}
				cid := fmt.Sprintf("proj/p%d.C%d", r.Intn(3), r.Intn(20))
				if clean {
					cid = fmt.Sprintf("p.C%d", r.Intn(90))
				}
				tr.CallerFieldChanges[cid] = fm
			}
		}
		tr.DiffFieldCount += vPick(r, 0, 0, 1, r.Intn(200)) // disappeared fields and panics have no field text
		in.diff += tr.DiffFieldCount
		if r.Intn(2) == 0 {
			tr.CallerTimeChanges = map[string]PerformanceTimeChange{}
			for j, n := 0, r.Intn(6); j < n; j++ {
				pre, post := uint32(r.Intn(vPick(r, 10, 3000, 400000))), uint32(r.Intn(vPick(r, 10, 3000, 400000)))
				tr.CallerTimeChanges[fmt.Sprintf("proj/p%d.C%d", r.Intn(3), r.Intn(20))] =
					PerformanceTimeChange{time.Duration(int64(post)-int64(pre)) * time.Millisecond, pre, post}
			}
		}
		in.reports = append(in.reports, tr)
	}
	return in
}

func sortedKeys16[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (in *c16In) copyReports(r *rand.Rand) []TestReport {
	out := make([]TestReport, len(in.reports))
	for i, t := range in.reports {
		t.OriginalResult, t.PostUpdateResult = copyResult(t.OriginalResult), copyResult(t.PostUpdateResult)
		if t.CallerFieldChanges != nil {
			m := map[string]map[string]string{}
			for k, v := range t.CallerFieldChanges {
				m[k] = map[string]string{}
				for a, b := range v {
					m[k][a] = b
				}
			}
			t.CallerFieldChanges = m
		}
		if t.CallerTimeChanges != nil {
			m := map[string]PerformanceTimeChange{}
			for k, v := range t.CallerTimeChanges {
				m[k] = v
			}
			t.CallerTimeChanges = m
		}
		out[i] = t
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func (in *c16In) write(r *rand.Rand, js, ch string) error {
	callers := append([]*CallerFunction(nil), in.callers...)
	r.Shuffle(len(callers), func(i, j int) { callers[i], callers[j] = callers[j], callers[i] })
	tests := append([]*TestFunction(nil), in.tests...)
	r.Shuffle(len(tests), func(i, j int) { tests[i], tests[j] = tests[j], tests[i] })
	return (&DefaultReportWriter{}).WriteReportFiles(js, ch, in.start, in.d[0], in.d[1], in.d[2], in.d[3], in.mods, in.checked,
		in.changed, in.reached, in.untracked, in.fieldChecks, callers, tests, in.same, in.diff, in.copyReports(r), in.mut)
}

// expected recomputes the report (run_ms is checked apart).
func (in *c16In) expected() map[string]any {
	root := ModuleChange{}
	if len(in.mods) == 1 {
		root = *in.mods[0]
	} else {
		n := 0
		for _, m := range in.mods {
			if !m.Indirect {
				root, n = *m, n+1
			}
		}
		if n != 1 {
			root = ModuleChange{}
		}
	}
	var testIdents []string
	for _, t := range in.tests {
		testIdents = append(testIdents, t.FunctionIdent)
	}
	sort.Strings(testIdents)
	reps := append([]TestReport(nil), in.reports...)
	sort.Slice(reps, func(i, j int) bool {
		return reps[i].OriginalResult.TestFunction.FunctionIdent < reps[j].OriginalResult.TestFunction.FunctionIdent
	})
	perf, details := []any{}, []any{}
	for _, t := range reps {
		tf := t.OriginalResult.TestFunction
		fc := map[string]any{}
		for c, m := range t.CallerFieldChanges {
			mm := map[string]any{}
			for k, v := range m {
				mm[k] = utf8Fix(strings.TrimSpace(v))
			}
			fc[c] = mm
		}
		details = append(details, map[string]any{"test_function_ident": tf.FunctionIdent, "test_function_name": tf.FunctionName,
			"baseline_failure": t.OriginalResult.TestFailure, "pass_regression": t.PostUpdateResult.TestFailure && !t.OriginalResult.TestFailure,
			"diff_field_count": float64(t.DiffFieldCount), "module_change_hit_count": float64(t.OriginalResult.ModuleChangesHit), "field_changes": fc})
		for _, c := range sortedKeys16(t.CallerTimeChanges) {
			x := t.CallerTimeChanges[c]
			perf = append(perf, map[string]any{"test_function_ident": tf.FunctionIdent, "test_function_name": tf.FunctionName, "caller_ident": c,
				"time_diff_ms": float64(x.PostTimeMs) - float64(x.PreTimeMs), "pre_time_ms": float64(x.PreTimeMs), "post_time_ms": float64(x.PostTimeMs)})
		}
	}
	f := func(n int) any { return float64(n) }
	return map[string]any{
		"generated_at": in.start.Format(time.RFC3339Nano),
		"analysis_ms":  float64(in.d[0] / time.Millisecond), "test_discovery_ms": float64(in.d[1] / time.Millisecond),
		"field_check_ms": float64(in.d[2] / time.Millisecond), "mutation_ms": float64(in.d[3] / time.Millisecond),
		"module": map[string]any{"root_module_name": root.Name, "root_module_start_version": root.PriorVersion, "root_module_update_version": root.NewVersion,
			"changed_modules": anyList(in.checked), "changed_module_count": f(len(in.checked)), "changed_function_count": f(in.changed),
			"reachable_changed_functions": anyList(in.reachable), "reachable_changed_function_count": f(len(in.reachable)),
			"untracked_module_function_count": f(in.untracked)},
		"validation": map[string]any{"relevant_project_functions": anyList(in.projFuncs), "relevant_project_function_count": f(len(in.projFuncs)),
			"relevant_test_functions": anyList(testIdents), "relevant_test_function_count": f(len(testIdents)),
			"project_field_check_point_count": f(in.fieldChecks), "module_change_hit_in_test_count": f(in.reached),
			"test_field_match_count": f(in.same), "test_field_diff_count": f(in.diff), "generated_test_function_count": f(in.genTest),
			"mutation_count": f(in.mut.MutationCount), "mutations_squashed": f(in.mut.SquashedCount),
			"performance_changes": perf, "test_details": details},
	}
}

func utf8Fix(s string) string {
	var b strings.Builder
	for len(s) > 0 {
		c, n := utf8.DecodeRuneInString(s)
		b.WriteRune(c)
		s = s[n:]
	}
	return b.String()
}

func anyList(l []string) []any {
	out := make([]any, 0, len(l))
	for _, s := range l {
		out = append(out, s)
	}
	return out
}

// c16Diff compares JSON values; null equals an empty list or object. Unknown additional keys of the report are allowed.
func c16Diff(path string, want, got any, unordered bool) string {
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok && got != nil {
			return fmt.Sprintf("%s: object expected, got %T", path, got)
		}
		for _, k := range sortedKeys16(w) {
			if d := c16Diff(path+"."+k, w[k], g[k], unordered); d != "" {
				return d
			}
		}
		if strings.HasSuffix(path, "field_changes") || strings.Contains(path, ".field_changes.") {
			for k := range g {
				if _, ok := w[k]; !ok {
					return fmt.Sprintf("%s: unexpected entry %q", path, k)
				}
			}
		}
		return ""
	case []any:
		g, ok := got.([]any)
		if !ok && got != nil {
			return fmt.Sprintf("%s: list expected, got %T", path, got)
		}
		if len(g) != len(w) {
			return fmt.Sprintf("%s: %d entries expected, got %d: %v", path, len(w), len(g), vShort(fmt.Sprint(g), 400))
		}
		for i := range w {
			if d := c16Diff(fmt.Sprintf("%s[%d]", path, i), w[i], g[i], unordered); d != "" {
				return d
			}
		}
		return ""
	}
	if !reflect.DeepEqual(want, got) {
		return fmt.Sprintf("%s: expected %v, reported %v", path, vShort(fmt.Sprintf("%#v", want), 200), vShort(fmt.Sprintf("%#v", got), 200))
	}
	return ""
}

var c16Text = regexp.MustCompile(`<text[^>]*>([^<]*)</text>`)
var c16Unesc = strings.NewReplacer("&lt;", "<", "&gt;", ">", "&quot;", `"`, "&#34;", `"`, "&#39;", "'", "&amp;", "&")

// c16Chart checks the words of an SVG chart.
func c16Chart(in *c16In, svg string) string {
	var texts []string
	for _, m := range c16Text.FindAllStringSubmatch(svg, -1) {
		texts = append(texts, c16Unesc.Replace(m[1]))
	}
	titles := []string{"Module Change Impact", "Changed Module Function Coverage", "Field Stability", "Mutations Squashed", "Performance Change"}
	// section(i): texts after title i up to the next title
	section := func(i int) ([]string, bool) {
		for s, t := range texts {
			if strings.HasPrefix(t, titles[i]) {
				var out []string
				for _, u := range texts[s+1:] {
					if u == "Risky Tests" || strings.HasPrefix(u, "No Risky") || strings.Contains(u, "->") {
						break
					}
					for _, ti := range titles {
						if strings.HasPrefix(u, ti) {
							return out, true
						}
					}
					out = append(out, u)
				}
				return out, true
			}
		}
		return nil, false
	}
	perc := func(i int, want float64, never100 bool) string {
		sec, ok := section(i)
		if !ok {
			return titles[i] + ": no such section in the chart"
		}
		for _, s := range sec {
			if strings.HasSuffix(s, "%") {
				v, err := strconv.ParseFloat(strings.ReplaceAll(strings.TrimSuffix(s, "%"), ",", ""), 64)
				if err != nil || math.Abs(v-want) > 0.11 {
					return fmt.Sprintf("%s: chart shows %s, expected %.2f%%", titles[i], s, want)
				}
				if never100 && v >= 100 {
					return fmt.Sprintf("%s: chart shows %s although not everything matched", titles[i], s)
				}
				return ""
			}
		}
		return fmt.Sprintf("%s: no percentage shown (%q)", titles[i], sec)
	}
	nr := len(in.reachable)
	if in.changed > 0 {
		if d := perc(0, 100*float64(nr)/float64(in.changed), false); d != "" {
			return d
		}
	}
	if nr > 0 {
		if d := perc(1, 100*float64(in.reached+in.untracked)/float64(nr), false); d != "" {
			return d
		}
	}
	if in.same+in.diff > 0 {
		if d := perc(2, 100*float64(in.same)/float64(in.same+in.diff), in.diff > 0); d != "" {
			return d
		}
	}
	if in.mut.MutationCount > 0 {
		if d := perc(3, 100*float64(in.mut.SquashedCount)/float64(in.mut.MutationCount), in.mut.SquashedCount < in.mut.MutationCount); d != "" {
			return d
		}
	}
	var pre, post float64
	for _, t := range in.reports {
		for _, c := range t.CallerTimeChanges {
			pre += float64(c.PreTimeMs)
			post += float64(c.PostTimeMs)
		}
	}
	if pre > 0 {
		sec, ok := section(4)
		if !ok {
			return "no performance section in the chart"
		}
		want, word := 100-100*post/pre, "faster"
		if post > pre {
			want, word = 100*post/pre-100, "slower"
		}
		found := false
		for _, s := range sec {
			if p, q, ok := strings.Cut(s, "% "); ok && (q == "slower" || q == "faster") {
				found = true
				v, err := strconv.ParseFloat(strings.ReplaceAll(p, ",", ""), 64)
				if err != nil || q != word || math.Abs(v-want) > 0.11 {
					return fmt.Sprintf("performance: chart shows %q, expected %.1f%% %s (%.0f ms -> %.0f ms)", s, want, word, pre, post)
				}
			}
		}
		if !found {
			return fmt.Sprintf("performance: no change shown (%q), expected %.1f%% %s", sec, want, word)
		}
	}
	// risky tests
	type row struct {
		name, reg string
		n         int
	}
	var want []row
	for _, t := range in.reports {
		reg := !t.OriginalResult.TestFailure && t.PostUpdateResult.TestFailure
		if reg || t.DiffFieldCount > 0 {
			w := row{t.OriginalResult.TestFunction.FunctionName, "Pass", t.DiffFieldCount}
			if reg {
				w.reg = "FAIL"
			} else if t.OriginalResult.TestFailure {
				w.reg = "Baseline FAIL"
			}
			want = append(want, w)
		}
	}
	if len(want) == 0 {
		for _, t := range texts {
			if strings.HasPrefix(t, "No Risky") {
				return ""
			}
		}
		return "chart does not say that there are no risky tests"
	}
	rank := func(w row) [3]int {
		var k [3]int
		if strings.HasPrefix(w.name, "TestGen_") {
			k[0] = 1
		}
		if w.reg != "FAIL" {
			k[1] = 1
		}
		k[2] = -w.n
		return k
	}
	less := func(a, b [3]int) bool {
		for i := range a {
			if a[i] != b[i] {
				return a[i] < b[i]
			}
		}
		return false
	}
	sort.SliceStable(want, func(i, j int) bool { return less(rank(want[i]), rank(want[j])) })
	var got []row
	for i, t := range texts {
		if strings.HasPrefix(t, "Test") && i+2 < len(texts) && t != "Test Name" {
			g := row{name: t, reg: texts[i+1]}
			j := i + 2
			if g.reg == "Baseline" && texts[j] == "FAIL" {
				g.reg, j = "Baseline FAIL", j+1
			}
			n, err := strconv.Atoi(texts[j])
			if err != nil {
				return fmt.Sprintf("risky test %s: field count shown as %q (%q)", t, texts[j], texts[i:min(len(texts), i+5)])
			}
			g.n = n
			got = append(got, g)
		}
	}
	wn := min(len(want), 10)
	if len(got) != wn {
		return fmt.Sprintf("%d risky tests in the chart, expected %d of %d: %v", len(got), wn, len(want), got)
	}
	left := map[row]int{}
	for _, w := range want {
		left[w]++
	}
	for i, g := range got {
		if left[g] == 0 {
			return fmt.Sprintf("chart row %v is not a risky test of the results (or listed twice); risky: %v", g, want)
		}
		left[g]--
		if rank(g) != rank(want[i]) {
			return fmt.Sprintf("chart row %d shows %v where a test like %v is due", i, g, want[i])
		}
	}
	return ""
}

func vMain(t *testing.T) {
	vQuiet()
	v := vNew("one evaluation is one generated result set written by the real report writer, with JSON, SVG and derived charts checked; distinct by shape of the inputs")
	v.assumptions = []string{"counts up to 2^33", "PNG content is only compared between runs, SVG text is checked against the inputs"}
	dir := vTempDir("c16")
	defer os.RemoveAll(dir)
	r := v.rng("reports")
	n := v.n(260, 6000)
	norm := func(b []byte) string {
		return regexp.MustCompile(`"run_ms": [0-9]+`).ReplaceAllString(string(b), "")
	}
	bin := filepath.Join(dir, "report-cmd")
	build := exec.Command("go", "build", "-o", bin, "./cmd/report")
	build.Dir = os.Getenv("VERIF_REPO")
	if out, err := build.CombinedOutput(); err != nil {
		v.unsure("cmd/report does not build: %s", out)
	}
	for i := 0; i < n; i++ {
		clean := i%2 == 0
		in := c16Gen(r, clean)
		if i == 0 {
			in = &c16In{start: time.Now().UTC()}
		}
		js, ch := filepath.Join(dir, "r.json"), filepath.Join(dir, "r.svg")
		_ = os.Remove(js)
		_ = os.Remove(ch)
		t0 := time.Now()
		var err error
		if !v.guard("write", fmt.Sprintf("case %d: writing a report", i), 5*time.Minute, true, func() { err = in.write(r, js, ch) }) {
			continue
		}
		t1 := time.Now()
		v.eval()
		if err != nil {
			v.violate("write-error", "case %d: writing the report failed: %v", i, err)
			continue
		}
		b, err := os.ReadFile(js)
		if err != nil {
			v.violate("no-json", "case %d: no JSON report: %v", i, err)
			continue
		}
		var got map[string]any
		if err := json.Unmarshal(b, &got); err != nil {
			v.violate("bad-json", "case %d: unreadable JSON report: %v", i, err)
			continue
		}
		want := in.expected()
		d := c16Diff("report", want, got, false)
		if d != "" && strings.Contains(d, "performance_changes[") {
			// order within the list is judged by the determinism monitor below; compare contents here
			sortPerf(want)
			sortPerf(got)
			d = c16Diff("report", want, got, false)
		}
		if d != "" {
			v.violate("json:"+c16Sig(d), "case %d: %s", i, d)
		}
		lo, hi := t0.Sub(in.start).Milliseconds(), t1.Sub(in.start).Milliseconds()
		if ms, ok := got["run_ms"].(float64); !ok || int64(ms) < lo-1 || int64(ms) > hi+1 {
			v.violate("json:run_ms", "case %d: run_ms %v, expected between %d and %d", i, got["run_ms"], lo, hi)
		}
		svg, err := os.ReadFile(ch)
		if err != nil {
			v.violate("no-chart", "case %d: no chart: %v", i, err)
			continue
		}
		if d := c16Chart(in, string(svg)); d != "" {
			v.violate("chart:"+c16Sig(d), "case %d: %s", i, d)
		}
		v.observe("reports", 1)
		v.observe("tests_reported", len(in.reports))
		v.observe("risky_rows", strings.Count(string(svg), ">Test"))
		v.seen(fmt.Sprintf("m%d c%d t%d r%d b%d g%d", len(in.mods), len(in.callers), len(in.reports), in.regressions, in.baseline, in.genTest))
		if i < 3 {
			v.sample(map[string]any{"tests": len(in.reports), "callers": len(in.callers), "regressions": in.regressions, "json_bytes": len(b), "svg_bytes": len(svg)})
		}
		// the same results again (maps rebuilt, lists in another order)
		for k := 0; k < 2; k++ {
			js2, ch2 := filepath.Join(dir, "s.json"), filepath.Join(dir, "s.svg")
			if err := in.write(r, js2, ch2); err != nil {
				v.violate("write-error", "case %d: writing the same report again failed: %v", i, err)
				break
			}
			b2, _ := os.ReadFile(js2)
			if norm(b2) != norm(b) {
				v.violate("nondeterministic-json", "case %d: the same results gave different JSON reports:\n%s", i, firstDiff16(norm(b), norm(b2)))
			}
			s2, _ := os.ReadFile(ch2)
			if clean && !bytes.Equal(s2, svg) {
				v.violate("nondeterministic-chart", "case %d: the same results gave different charts:\n%s", i, firstDiff16(texts16(svg), texts16(s2)))
			}
		}
		// a chart from the written JSON
		if i%5 == 0 {
			var m ReportMetrics
			if err := json.Unmarshal(b, &m); err != nil {
				v.violate("json-reload", "case %d: the JSON report cannot be read back: %v", i, err)
				continue
			}
			var img []byte
			v.guard("chart-from-json", fmt.Sprintf("case %d", i), 5*time.Minute, true, func() { img, err = RenderReportChartsFromJson(m) })
			if err != nil {
				v.violate("chart-from-json", "case %d: %v", i, err)
				continue
			}
			pic, err := png.Decode(bytes.NewReader(img))
			if err != nil {
				v.violate("chart-from-json", "case %d: not a PNG: %v", i, err)
				continue
			}
			v.observe("charts_from_json", 1)
			img2, _ := RenderReportChartsFromJson(m)
			if clean && !bytes.Equal(img, img2) {
				v.violate("nondeterministic-chart-from-json", "case %d: rendering one JSON report twice gave different charts", i)
			}
			pp := filepath.Join(dir, "p.png")
			if err := in.write(r, "", pp); err != nil {
				v.violate("write-error", "case %d: PNG: %v", i, err)
				continue
			}
			direct, _ := os.ReadFile(pp)
			dp, err := png.Decode(bytes.NewReader(direct))
			if err != nil {
				v.violate("chart-png", "case %d: written chart is not a PNG: %v", i, err)
				continue
			}
			if clean && dp.Bounds() == pic.Bounds() {
				v.observe("png_pairs_compared", 1)
				if !bytes.Equal(direct, img) {
					v.violate("chart-from-json-differs", "case %d: chart made from the JSON report differs from the chart of the run", i)
				}
			}
			if i%50 == 0 {
				out := filepath.Join(dir, "cmd.png")
				_ = os.Remove(out)
				cmd := exec.Command(bin, "-json", js, "-charts", out)
				if o, err := cmd.CombinedOutput(); err != nil {
					v.violate("report-cmd", "case %d: report command failed: %v\n%s", i, err, o)
				} else if cb, _ := os.ReadFile(out); clean && !bytes.Equal(cb, img) {
					v.violate("report-cmd", "case %d: the report command's chart differs from the rendered one", i)
				}
				v.observe("report_command_runs", 1)
			}
		}
		if i%25 == 0 {
			if err := in.write(r, filepath.Join(dir, "no", "such", "r.json"), ch); err == nil {
				v.violate("swallowed-error", "writing the JSON report to a missing directory reported success")
			}
			if err := in.write(r, js, filepath.Join(dir, "no", "such", "r.svg")); err == nil {
				v.violate("swallowed-error", "writing the chart to a missing directory reported success")
			}
		}
	}
	v.finish(n * 9 / 10)
}

func sortPerf(m map[string]any) {
	val, _ := m["validation"].(map[string]any)
	l, _ := val["performance_changes"].([]any)
	sort.SliceStable(l, func(i, j int) bool {
		a, _ := json.Marshal(l[i])
		b, _ := json.Marshal(l[j])
		return string(a) < string(b)
	})
}

func texts16(svg []byte) string {
	var b strings.Builder
	for _, m := range c16Text.FindAllStringSubmatch(string(svg), -1) {
		b.WriteString(m[1] + "\n")
	}
	return b.String()
}

var c16Num = regexp.MustCompile(`[0-9]+`)

func c16Sig(d string) string {
	s, _, _ := strings.Cut(d, ":")
	s = c16Num.ReplaceAllString(s, "#")
	return vShort(s, 80)
}

func firstDiff16(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			return fmt.Sprintf("line %d:\n%s\nversus\n%s", i, strings.Join(la[i:min(len(la), i+6)], "\n"), strings.Join(lb[min(i, len(lb)):min(len(lb), i+6)], "\n"))
		}
	}
	return "(same text, different drawing)"
}
