package lens

// Shared machinery of the run-time monitors: seeded case lists, violation records, evidence and watchdogs.

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/fs"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type vViolation struct {
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
}

// vRun is the record of one monitored run. All methods are safe for concurrent use.
type vRun struct {
	mu           sync.Mutex
	start        time.Time
	seed         int64
	thorough     bool
	evals        int
	distinct     map[string]struct{}
	observed     map[string]int
	samples      []any
	violations   []vViolation
	sigs         map[string]int
	inconclusive []string
	rule         string
	level        string
	assumptions  []string
}

func vNew(rule string) *vRun {
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	return &vRun{start: time.Now(), seed: seed, thorough: os.Getenv("VERIF_TIER") == "thorough",
		distinct: map[string]struct{}{}, observed: map[string]int{}, sigs: map[string]int{}, rule: rule, level: "exploration"}
}

// n picks a fixed amount of work by tier.
func (v *vRun) n(quick, thorough int) int {
	if v.thorough {
		return thorough
	}
	return quick
}

// rng returns the generator of one named case list.
func (v *vRun) rng(name string) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s", v.seed, name)))
	var s int64
	for i := 0; i < 8; i++ {
		s = s<<8 | int64(h[i])
	}
	return rand.New(rand.NewSource(s))
}

func (v *vRun) eval() { v.mu.Lock(); v.evals++; v.mu.Unlock() }

// seen counts one distinct non-trivial case (by its class description).
func (v *vRun) seen(class string) {
	if len(class) > 64 {
		h := sha256.Sum256([]byte(class))
		class = hex.EncodeToString(h[:12])
	}
	v.mu.Lock()
	v.distinct[class] = struct{}{}
	v.mu.Unlock()
}

func (v *vRun) observe(what string, n int) { v.mu.Lock(); v.observed[what] += n; v.mu.Unlock() }

func (v *vRun) sample(s any) {
	v.mu.Lock()
	if len(v.samples) < 6 {
		v.samples = append(v.samples, s)
	}
	v.mu.Unlock()
}

// violate records a violation; per signature only the first is kept in full.
func (v *vRun) violate(sig, format string, args ...any) {
	v.mu.Lock()
	defer v.mu.Unlock()
	v.sigs[sig]++
	if v.sigs[sig] > 1 || len(v.violations) >= 40 {
		return
	}
	d := fmt.Sprintf(format, args...)
	if len(d) > 8000 {
		d = d[:8000] + "...(cut)"
	}
	v.violations = append(v.violations, vViolation{sig, d})
}

func (v *vRun) nviol() int { v.mu.Lock(); defer v.mu.Unlock(); return len(v.violations) }

func (v *vRun) unsure(format string, args ...any) {
	v.mu.Lock()
	v.inconclusive = append(v.inconclusive, fmt.Sprintf(format, args...))
	v.mu.Unlock()
}

// write stores the result so far; called at the end and before an abort.
func (v *vRun) write() {
	v.mu.Lock()
	defer v.mu.Unlock()
	samples := v.samples
	if samples == nil {
		samples = []any{}
	}
	out := map[string]any{
		"level": v.level, "wall_s": time.Since(v.start).Seconds(), "violations": v.violations,
		"inconclusive": v.inconclusive, "assumptions": append([]string{}, v.assumptions...),
		"coverage": map[string]any{"evaluations": v.evals, "distinct_nontrivial": len(v.distinct), "rule": v.rule,
			"samples": samples, "observed": v.observed},
	}
	b, err := json.Marshal(out)
	if err != nil {
		panic(err)
	}
	p := filepath.Join(os.Getenv("VERIF_SCRATCH"), "result.json")
	if err := os.WriteFile(p+".tmp", b, 0o644); err != nil {
		panic(err)
	}
	if err := os.Rename(p+".tmp", p); err != nil {
		panic(err)
	}
}

// finish writes the result and fails if the monitors saw too little to say anything.
func (v *vRun) finish(minEvals int) {
	if v.evals < minEvals && len(v.violations) == 0 {
		v.unsure("only %d evaluations (need %d)", v.evals, minEvals)
	}
	v.write()
}

// guard runs f and turns a panic of the code under test into a violation. A call that does not return within the
// (very generous) limit is reported as a hang when hangIsViolation, otherwise the whole run is inconclusive.
func (v *vRun) guard(sig, what string, limit time.Duration, hangIsViolation bool, f func()) bool {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				buf := make([]byte, 8192)
				done <- fmt.Sprintf("panic: %v\n%s", r, buf[:runtime.Stack(buf, false)])
				return
			}
			done <- ""
		}()
		f()
	}()
	select {
	case p := <-done:
		if p != "" {
			v.violate(sig+":panic", "%s\n%s", what, p)
			return false
		}
		return true
	case <-time.After(limit):
		buf := make([]byte, 1<<16)
		st := string(buf[:runtime.Stack(buf, true)])
		if hangIsViolation {
			v.violate(sig+":hang", "%s did not finish within %v\n%s", what, limit, st)
		} else {
			v.unsure("%s did not finish within %v", what, limit)
		}
		// the stuck goroutine may be consuming memory or CPU: stop here
		v.write()
		os.Exit(0)
		return false
	}
}

func vQuiet() { log.SetOutput(vDevNull{}) }

type vDevNull struct{}

func (vDevNull) Write(p []byte) (int, error) { return len(p), nil }

// vTree is a digest of a directory tree: path -> "mode type sha/linktarget".
func vTree(root string) map[string]string {
	out := map[string]string{}
	_ = filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		rel, _ := filepath.Rel(root, p)
		if err != nil {
			out[rel] = "error " + err.Error()
			return nil
		}
		fi, err := d.Info()
		if err != nil {
			out[rel] = "error " + err.Error()
			return nil
		}
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			out[rel] = "link " + t
		case fi.IsDir():
			out[rel] = fmt.Sprintf("dir %v", fi.Mode().Perm())
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				out[rel] = "error " + err.Error()
				return nil
			}
			h := sha256.Sum256(b)
			out[rel] = fmt.Sprintf("file %v %d %s", fi.Mode().Perm(), len(b), hex.EncodeToString(h[:10]))
		}
		return nil
	})
	return out
}

// vTreeDiff lists differences between two digests ("" if none).
func vTreeDiff(a, b map[string]string) string {
	var l []string
	for k, x := range a {
		if y, ok := b[k]; !ok {
			l = append(l, "- "+k+" ("+x+")")
		} else if x != y {
			l = append(l, "~ "+k+": "+x+" -> "+y)
		}
	}
	for k, y := range b {
		if _, ok := a[k]; !ok {
			l = append(l, "+ "+k+" ("+y+")")
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// vWriteTree writes files (slash paths) under root.
func vWriteTree(root string, files map[string]string) {
	for name, content := range files {
		p := filepath.Join(root, filepath.FromSlash(name))
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
			panic(err)
		}
	}
}

func vTempDir(name string) string {
	d, err := os.MkdirTemp(os.Getenv("TMPDIR"), name)
	if err != nil {
		panic(err)
	}
	return d
}

// vPick returns a random element.
func vPick[T any](r *rand.Rand, l ...T) T { return l[r.Intn(len(l))] }

func vShort(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func TestVerif(t *testing.T) {
	vMain(t)
}

func vCtx(d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), d)
}
