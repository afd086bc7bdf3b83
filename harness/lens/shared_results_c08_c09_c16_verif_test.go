package lens

// Generator and helpers for recorded results (used by the monitors of C08, C09 and C16).

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
)

func copyFV(m FieldValues) FieldValues {
	if m == nil {
		return nil
	}
	o := make(FieldValues, len(m))
	for k, v := range m {
		o[k] = &FieldValue{Value: v.Value, Children: copyFV(v.Children)}
	}
	return o
}

func copyFrames(m map[string][]CallFrame) map[string][]CallFrame {
	if m == nil {
		return nil
	}
	o := make(map[string][]CallFrame, len(m))
	for k, l := range m {
		n := make([]CallFrame, len(l))
		for i, f := range l {
			n[i] = CallFrame{copyFV(f.FieldValues), append([]StackFrame(nil), f.Stack...), f.TimeMillis}
		}
		o[k] = n
	}
	return o
}

func copyPanics(m map[string][]string) map[string][]string {
	if m == nil {
		return nil
	}
	o := make(map[string][]string, len(m))
	for k, l := range m {
		o[k] = append([]string(nil), l...)
	}
	return o
}

func copyResult(t TestResult) TestResult {
	t.CallerResults = copyFrames(t.CallerResults)
	t.ExtensionFrames = copyFrames(t.ExtensionFrames)
	t.ProjectPanics = copyPanics(t.ProjectPanics)
	t.ModulePanics = copyPanics(t.ModulePanics)
	return t
}

var resNames = []string{"a", "b", "ret0", "ret1", "err", "cfg", "n", "é", "[0]", "[1]", "x y", "ke:y", "pipe|d"}
var resVals = []string{"", "0", "1", "2", "true", "<nil>", "hello", "line1\nline2", "line1\nline3", "a\n", "a", HashFieldValuePrefix + "AAAA", HashFieldValuePrefix + "BBBB", "vsha1-", strings.Repeat("x", 200)}

func genFV(r *rand.Rand, depth int) FieldValues {
	n := r.Intn(5)
	m := make(FieldValues, n)
	for i := 0; i < n; i++ {
		name := vPick(r, resNames...)
		if depth > 0 && r.Intn(3) == 0 {
			if c := genFV(r, depth-1); len(c) > 0 {
				m[name] = &FieldValue{Children: c}
				continue
			}
		}
		m[name] = &FieldValue{Value: vPick(r, resVals...)}
	}
	return m
}

var resFiles = []string{"./a.go", "./b/c.go", "./vendor/x/y.go", "/usr/lib/go/src/testing/testing.go", "example.com/m@v1.0.0/m.go", "./vendored/z.go", ".hidden/x.go", "./a.go"}

func genStack(r *rand.Rand) []StackFrame {
	n := r.Intn(4)
	s := make([]StackFrame, n)
	for i := range s {
		s[i] = StackFrame{File: vPick(r, resFiles...), Line: uint32(r.Intn(5)), Function: vPick(r, "p.F", "p.G", "p.H.func1")}
	}
	return s
}

// projKey is the project part of a stack without line numbers.
func projKey(s []StackFrame) string {
	var b strings.Builder
	for _, f := range s {
		if strings.HasPrefix(f.File, "./") && !strings.HasPrefix(f.File, "./vendor/") {
			fmt.Fprintf(&b, "%q %q\n", f.File, f.Function)
		}
	}
	return b.String()
}

func fullKey(s []StackFrame) string {
	var b strings.Builder
	for _, f := range s {
		fmt.Fprintf(&b, "%q %q\n", f.File, f.Function)
	}
	return b.String()
}

// leaves lists the leaves of a tree by their path (path elements quoted, so no two paths are confused).
func leaves(m FieldValues) map[string]string {
	out := map[string]string{}
	var walk func(p string, m FieldValues)
	walk = func(p string, m FieldValues) {
		for k, f := range m {
			q := p + fmt.Sprintf("%q/", k)
			if len(f.Children) > 0 {
				walk(q, f.Children)
			} else {
				out[q] = f.Value
			}
		}
	}
	walk("", m)
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func showLeaves(m map[string]string) string {
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&b, "%s=%q ", k, m[k])
	}
	return b.String()
}

func showFrames(name string, m map[string][]CallFrame) string {
	var b strings.Builder
	for _, id := range sortedKeys(m) {
		fmt.Fprintf(&b, "%s %s\n", name, id)
		for _, f := range m[id] {
			fmt.Fprintf(&b, "  t=%d %v %s\n", f.TimeMillis, f.Stack, showLeaves(leaves(f.FieldValues)))
		}
	}
	return b.String()
}

func showResult(t TestResult) string {
	return fmt.Sprintf("test %v failure=%v hit=%d\n%s%sppanic %v\nmpanic %v\n", t.TestFunction, t.TestFailure, t.ModuleChangesHit,
		showFrames("caller", t.CallerResults), showFrames("ext", t.ExtensionFrames), t.ProjectPanics, t.ModulePanics)
}

func genPanics(r *rand.Rand) map[string][]string {
	m := map[string][]string{}
	for i := r.Intn(3); i > 0; i-- {
		id := vPick(r, "p.F", "p.G", "m.X")
		for j := r.Intn(4); j > 0; j-- {
			m[id] = append(m[id], vPick(r, "boom", "bang", "", "boom\n"))
		}
	}
	if r.Intn(4) == 0 {
		return nil
	}
	return m
}

func genFrames(r *rand.Rand) map[string][]CallFrame {
	m := map[string][]CallFrame{}
	for i := r.Intn(4); i > 0; i-- {
		id := vPick(r, "p.F", "p.G", "p.(*T).M", "q.Z")
		n := r.Intn(6)
		var t uint32
		stacks := [][]StackFrame{genStack(r), genStack(r)}
		var fr []CallFrame
		for j := 0; j < n; j++ {
			t += uint32(r.Intn(3))
			fr = append(fr, CallFrame{genFV(r, 3), append([]StackFrame(nil), stacks[r.Intn(2)]...), t})
		}
		m[id] = fr
	}
	return m
}

func genResult(r *rand.Rand, name string) TestResult {
	t := TestResult{TestFunction: MinimumTestFunction{"pkg:" + name, name}, CallerResults: genFrames(r), ProjectPanics: genPanics(r), ModulePanics: genPanics(r),
		ModuleChangesHit: r.Intn(4), TestFailure: r.Intn(4) == 0}
	if r.Intn(2) == 0 {
		t.ExtensionFrames = genFrames(r)
	}
	return t
}

// perturb changes a copied result in ways runs differ.
func perturbFV(r *rand.Rand, m FieldValues, p int) {
	for _, k := range sortedKeys(m) {
		f := m[k]
		if len(f.Children) > 0 {
			if r.Intn(100) < p/3 {
				m[k] = &FieldValue{Value: vPick(r, resVals...)} // node becomes leaf
				continue
			}
			perturbFV(r, f.Children, p)
			if len(f.Children) == 0 {
				delete(m, k)
			}
			continue
		}
		if r.Intn(100) >= p {
			continue
		}
		switch r.Intn(4) {
		case 0:
			delete(m, k)
		case 1:
			m[k] = &FieldValue{Children: FieldValues{"z": {Value: f.Value}}}
		default:
			f.Value = vPick(r, resVals...)
		}
	}
	if r.Intn(100) < p {
		m[vPick(r, resNames...)] = &FieldValue{Value: "extra"}
	}
}

func perturbFrames(r *rand.Rand, m map[string][]CallFrame, p int) {
	for _, id := range sortedKeys(m) {
		l := m[id]
		if r.Intn(100) < p/2 {
			delete(m, id)
			continue
		}
		for i := range l {
			perturbFV(r, l[i].FieldValues, p)
			if r.Intn(100) < p && len(l[i].Stack) > 0 {
				l[i].Stack[0].Line += uint32(r.Intn(3)) // lines do not matter
			}
			if r.Intn(100) < p/2 {
				l[i].Stack = genStack(r)
			}
		}
		if r.Intn(100) < p && len(l) > 0 { // a call more or less
			i := r.Intn(len(l))
			if r.Intn(2) == 0 {
				l = append(l[:i], l[i+1:]...)
			} else {
				c := l[i]
				c.FieldValues = copyFV(c.FieldValues)
				c.Stack = append([]StackFrame(nil), c.Stack...)
				l = append(l[:i+1], append([]CallFrame{c}, l[i+1:]...)...)
			}
		}
		m[id] = l
	}
	if r.Intn(100) < p {
		for id, l := range genFrames(r) {
			if _, ok := m[id]; !ok {
				m[id] = l
			}
		}
	}
}

func perturbPanics(r *rand.Rand, m map[string][]string, p int) map[string][]string {
	if r.Intn(100) >= p {
		return m
	}
	if m == nil {
		m = map[string][]string{}
	}
	id := vPick(r, "p.F", "p.G", "m.X", "new")
	switch r.Intn(3) {
	case 0:
		delete(m, id)
	case 1:
		m[id] = append(m[id], vPick(r, "boom", "bang", "new"))
	case 2:
		if l := m[id]; len(l) > 0 {
			m[id] = l[1:]
		}
	}
	return m
}

func perturb(r *rand.Rand, t TestResult, p int) TestResult {
	t = copyResult(t)
	perturbFrames(r, t.CallerResults, p)
	if t.ExtensionFrames != nil {
		perturbFrames(r, t.ExtensionFrames, p)
	}
	t.ProjectPanics = perturbPanics(r, t.ProjectPanics, p)
	t.ModulePanics = perturbPanics(r, t.ModulePanics, p)
	if r.Intn(100) < p {
		t.TestFailure = !t.TestFailure
	}
	return t
}

// vSilenceStdout keeps what the code under test prints out of the way.
func vSilenceStdout() {
	f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout = f
}
