package lens

// C11: stores behave as one atomic map. Sequential histories of both back ends (plain and through namespaced views) are
// compared step by step with a model map; concurrent histories are recorded and checked for linearizability per key.
// Runs under the race detector.

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type be11 struct {
	name  string
	open  func() Storage
	split int
}

func backends11(v *vRun) []be11 {
	l := []be11{{"memory", NewMemStorage, 0}}
	for _, lim := range []int{16, 100, 1000} {
		l = append(l, be11{fmt.Sprintf("badger(split %d)", lim), func() Storage {
			badgerSplitLimit = lim
			s, err := NewBadgerStorage(filepath.Join(vTempDir("c11"), "db"), 64)
			if err != nil {
				v.unsure("open badger: %v", err)
				v.write()
				os.Exit(0)
			}
			return s
		}, lim})
	}
	return l
}

var keys11 = []string{"a", "b", "ab", "a-0", "a-1", "k;x", "pre", "pre;", "é", "\x00", "a\x00", "\xff", "x/y.Z[int]", "a;b", strings.Repeat("long", 200), ";", "-0", "0"}

func val11(r *rand.Rand, split int, n *int) []byte {
	*n++
	tok := fmt.Sprintf("<%d>", *n)
	switch r.Intn(12) {
	case 0:
		return []byte{}
	case 1:
		return nil
	case 2:
		return []byte(vPick(r, "badger_split:2:10:10", "badger_split:1:3:3", "badger_split:0:0:0", "badger_split:99:1:1", "badger_split:", "badger_split:a:b:c"))
	case 3:
		b := make([]byte, r.Intn(300))
		_, _ = r.Read(b)
		return b
	case 4, 5, 6:
		s := max(split, 20)
		size := vPick(r, s-1, s, s+1, 2*s-1, 2*s, 2*s+1, 3*s+2, 5*s, 10*s+7)
		return []byte(strings.Repeat(tok, size/len(tok)+1)[:size])
	default:
		return []byte(tok)
	}
}

func sorted11(m map[string][]byte, prefix string) []string {
	var l []string
	for k := range m {
		if strings.HasPrefix(k, prefix) {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}

// seq11 runs one sequential history on a set of views that share one store.
func seq11(v *vRun, r *rand.Rand, be be11, s Storage, trial int) {
	type view struct {
		name string
		st   Storage
		m    map[string][]byte
	}
	var views []*view
	if r.Intn(2) == 0 {
		views = []*view{{"base", s, map[string][]byte{}}}
	} else {
		for _, n := range []string{"pre", "post", "p", "pre2", "-"} {
			views = append(views, &view{n, KeyPrefixStorage(s, n), map[string][]byte{}})
		}
		// views of views
		views = append(views, &view{"post2/in", KeyPrefixStorage(KeyPrefixStorage(s, "post2"), "in"), map[string][]byte{}})
		views = append(views, &view{"post2/out", KeyPrefixStorage(KeyPrefixStorage(s, "post2"), "out"), map[string][]byte{}})
		views = append(views, &view{"p-empty-prefix", KeyPrefixStorage(KeyPrefixStorage(s, "q"), ""), map[string][]byte{}})
	}
	var log []string
	nval := 0
	bad := func(sig, format string, a ...any) {
		l := log
		if len(l) > 40 {
			l = l[len(l)-40:]
		}
		_ = s.Clear()
		v.violate(sig+":"+strings.Fields(be.name)[0][:3], "%s trial %d: %s\nhistory (last %d):\n%s", be.name, trial, fmt.Sprintf(format, a...), len(l), strings.Join(l, "\n"))
	}
	steps := 20 + r.Intn(60)
	for i := 0; i < steps; i++ {
		w := vPick(r, views...)
		k := vPick(r, keys11...)
		if r.Intn(20) == 0 && w.name != "base" {
			k = ""
		}
		v.eval()
		switch op := r.Intn(20); {
		case op < 8:
			val := val11(r, be.split, &nval)
			log = append(log, fmt.Sprintf("%s save %q %s", w.name, k, vShort(fmt.Sprintf("%q", val), 60)))
			arg := append([]byte(nil), val...)
			if err := w.st.SaveState(k, arg); err != nil {
				bad("save-error", "save %q (%d bytes): %v", k, len(val), err)
				return
			}
			for j := range arg { // the caller reuses its buffer
				arg[j] = '#'
			}
			w.m[k] = append([]byte{}, val...)
			v.observe("saves", 1)
			if be.split > 0 && len(val) > be.split {
				v.observe("saves of values larger than one record", 1)
			}
		case op < 14:
			log = append(log, fmt.Sprintf("%s load %q", w.name, k))
			got, found, err := w.st.LoadState(k)
			want, ok := w.m[k]
			if err != nil {
				bad("load-error", "load %q: %v", k, err)
				return
			}
			if found != ok {
				bad("load-found", "load %q: found %v, want %v (latest value %q)", k, found, ok, vShort(string(want), 80))
				return
			}
			if ok && !bytes.Equal(got, want) {
				bad("load-value", "load %q: %d bytes %q, want %d bytes %q", k, len(got), vShort(string(got), 100), len(want), vShort(string(want), 100))
				return
			}
			for j := range got {
				got[j] = '!'
			}
			v.observe("loads", 1)
		case op < 16:
			log = append(log, fmt.Sprintf("%s delete %q", w.name, k))
			if err := w.st.DeleteState(k); err != nil {
				bad("delete-error", "delete %q: %v", k, err)
				return
			}
			delete(w.m, k)
			v.observe("deletes", 1)
		case op < 19:
			pre := vPick(r, "", "", "a", "pre", "k;", "é", "zz", "b")
			log = append(log, fmt.Sprintf("%s list %q", w.name, pre))
			var got []string
			var err error
			if pre == "" && r.Intn(2) == 0 {
				got, err = w.st.ListKeys()
			} else {
				got, err = w.st.ListKeysPrefix(pre)
			}
			if err != nil {
				bad("list-error", "list %q: %v", pre, err)
				return
			}
			got = append([]string(nil), got...)
			sort.Strings(got)
			if want := sorted11(w.m, pre); strings.Join(want, "\x01") != strings.Join(got, "\x01") {
				bad("list", "list %q gives %q, want %q", pre, got, want)
				return
			}
			v.observe("listings", 1)
		default:
			if r.Intn(3) != 0 {
				continue
			}
			log = append(log, fmt.Sprintf("%s clear", w.name))
			if err := w.st.Clear(); err != nil {
				bad("clear-error", "clear: %v", err)
				return
			}
			clear(w.m)
			v.observe("clears", 1)
		}
	}
	// final: every view agrees completely
	for _, w := range views {
		got, err := w.st.ListKeys()
		if err != nil {
			bad("list-error", "final list: %v", err)
			return
		}
		sort.Strings(got)
		if want := sorted11(w.m, ""); strings.Join(want, "\x01") != strings.Join(got, "\x01") {
			bad("final-list", "view %s ends with keys %q, want %q", w.name, got, want)
			return
		}
		for k, want := range w.m {
			x, found, err := w.st.LoadState(k)
			if err != nil || !found || !bytes.Equal(x, want) {
				bad("final-value", "view %s ends with %q = %q (found %v, %v), want %q", w.name, k, vShort(string(x), 80), found, err, vShort(string(want), 80))
				return
			}
		}
	}
	v.seen(be.name + strings.Join(log, "|"))
	if err := s.Clear(); err != nil {
		bad("clear-error", "clear: %v", err)
		return
	}
	if l, err := s.ListKeys(); err != nil || len(l) != 0 {
		bad("clear", "keys after clear: %q %v", l, err)
	}
}

// ---- concurrent histories ----

type op11 struct {
	client   int
	kind     byte // S L D
	key      string
	val      string // written or read
	found    bool
	inv, ret int64
}

func (o op11) String() string {
	return fmt.Sprintf("[%d,%d] c%d %c %q %s found=%v", o.inv, o.ret, o.client, o.kind, o.key, vShort(o.val, 30), o.found)
}

// linearizable checks one key's history against a register with delete.
func linearizable11(h []op11) bool {
	sort.Slice(h, func(i, j int) bool { return h[i].inv < h[j].inv })
	n := len(h)
	if n > 62 {
		panic("history too long")
	}
	type st struct {
		done uint64
		val  string
	}
	seen := map[st]bool{}
	var rec func(done uint64, val string) bool
	rec = func(done uint64, val string) bool {
		if done == 1<<n-1 {
			return true
		}
		s := st{done, val}
		if seen[s] {
			return false
		}
		seen[s] = true
		minRet := int64(1 << 62)
		for i := 0; i < n; i++ {
			if done&(1<<i) == 0 && h[i].ret < minRet {
				minRet = h[i].ret
			}
		}
		for i := 0; i < n; i++ {
			if done&(1<<i) != 0 || h[i].inv > minRet {
				continue
			}
			nv := val
			switch h[i].kind {
			case 'S':
				nv = "v" + h[i].val
			case 'D':
				nv = ""
			case 'L':
				if h[i].found != (val != "") || h[i].found && "v"+h[i].val != val {
					continue
				}
			}
			if rec(done|1<<i, nv) {
				return true
			}
		}
		return false
	}
	return rec(0, "")
}

func conc11(v *vRun, r *rand.Rand, be be11, s Storage, trial int) {
	keys := []string{"k1", "k2", "k1-0"}[:1+r.Intn(3)]
	clients := 2 + r.Intn(5)
	per := 40 * len(keys) / clients / 1
	per = min(per, 60*len(keys)/clients/2+3)
	var clock atomic.Int64
	var mu sync.Mutex
	var hist []op11
	view := s
	if r.Intn(2) == 0 {
		view = KeyPrefixStorage(s, "pre")
	}
	other := KeyPrefixStorage(s, "other")
	for i := 0; i < 3; i++ {
		if err := other.SaveState(fmt.Sprint("fix", i), []byte(strings.Repeat("fixed", 60))); err != nil {
			v.violate("conc-save-error", "%s: %v", be.name, err)
			return
		}
	}
	var wg sync.WaitGroup
	sizes := []int{1, max(be.split, 20) + 5, 4*max(be.split, 20) + 3, 300}
	gate := make(chan struct{})
	for c := 0; c < clients; c++ {
		cr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for i := 0; i < per; i++ {
				k := vPick(cr, keys...)
				o := op11{client: c, key: k}
				var err error
				switch x := cr.Intn(10); {
				case x < 4:
					o.kind = 'S'
					tok := fmt.Sprintf("<%d.%d>", c, i)
					o.val = strings.Repeat(tok, vPick(cr, sizes...)/len(tok)+1)
					b := []byte(o.val)
					o.inv = clock.Add(1)
					err = view.SaveState(k, b)
					o.ret = clock.Add(1)
				case x < 9:
					o.kind = 'L'
					var b []byte
					o.inv = clock.Add(1)
					b, o.found, err = view.LoadState(k)
					o.ret = clock.Add(1)
					o.val = string(b)
					if !o.found {
						o.val = ""
					}
				default:
					o.kind = 'D'
					o.inv = clock.Add(1)
					err = view.DeleteState(k)
					o.ret = clock.Add(1)
				}
				if err != nil {
					v.violate("conc-error:"+string(o.kind)+":"+be.name[:3], "%s trial %d: %v failed: %v", be.name, trial, o, err)
					return
				}
				mu.Lock()
				hist = append(hist, o)
				mu.Unlock()
				if cr.Intn(8) == 0 {
					l, err := other.ListKeys()
					sort.Strings(l)
					if err != nil || strings.Join(l, ",") != "fix0,fix1,fix2" {
						v.violate("conc-list:"+be.name[:3], "%s trial %d: other view lists %q (%v) during concurrent writes", be.name, trial, l, err)
					}
					l, err = view.ListKeys()
					if err != nil {
						v.violate("conc-list:"+be.name[:3], "%s trial %d: list: %v", be.name, trial, err)
					}
					dup := map[string]bool{}
					for _, x := range l {
						ok := false
						for _, k := range keys {
							ok = ok || x == k
						}
						if view == s && strings.HasPrefix(x, "other;") {
							ok = true
						}
						if !ok || dup[x] {
							v.violate("conc-list:"+be.name[:3], "%s trial %d: listing contains %q (all %q)", be.name, trial, x, l)
						}
						dup[x] = true
					}
				}
			}
		}()
	}
	close(gate)
	wg.Wait()
	for i := 0; i < 3; i++ {
		b, ok, err := other.LoadState(fmt.Sprint("fix", i))
		if err != nil || !ok || string(b) != strings.Repeat("fixed", 60) {
			v.violate("conc-foreign:"+be.name[:3], "%s trial %d: untouched key of another view changed: %v %v", be.name, trial, ok, err)
		}
	}
	for _, k := range keys {
		var h []op11
		overlap := 0
		for _, o := range hist {
			if o.key == k {
				h = append(h, o)
			}
		}
		if len(h) > 62 {
			sort.Slice(h, func(i, j int) bool { return h[i].ret < h[j].ret })
			// keep a prefix closed under completion: everything that returned before the first dropped operation started
			h = h[:62]
		}
		sort.Slice(h, func(i, j int) bool { return h[i].inv < h[j].inv })
		var sig strings.Builder
		for i, o := range h {
			if i > 0 && h[i-1].ret > o.inv {
				overlap++
			}
			fmt.Fprintf(&sig, "%d%c%d;", o.client, o.kind, o.ret-o.inv)
		}
		v.eval()
		v.observe("concurrent operations", len(h))
		v.observe("overlapping pairs", overlap)
		v.seen(be.name + sig.String())
		full := len(h) < 62
		if full && !linearizable11(h) {
			var b strings.Builder
			for _, o := range h {
				fmt.Fprintln(&b, o)
			}
			v.violate("linearizability:"+be.name[:3], "%s trial %d: history of key %q has no sequential explanation:\n%s", be.name, trial, k, b.String())
		} else if !full {
			// too long to decide: at least every value read was written whole
			v.observe("histories too long for the checker", 1)
		}
		wrote := map[string]bool{}
		for _, o := range h {
			if o.kind == 'S' {
				wrote[o.val] = true
			}
		}
		for _, o := range h {
			if full && o.kind == 'L' && o.found && !wrote[o.val] {
				v.violate("torn:"+be.name[:3], "%s trial %d: read a value nobody wrote: %v", be.name, trial, o)
			}
		}
	}
	if err := s.Clear(); err != nil {
		v.violate("clear-error:"+be.name[:3], "%s: clear: %v", be.name, err)
	}
}

func vMain(t *testing.T) {
	vQuiet()
	v := vNew("sequential histories of save/load/delete/list/clear on both back ends and namespaced views against a model map (empty, marker-like and multi-record values); concurrent histories checked for linearizability per key. Non-trivial: distinct histories")
	saved := badgerSplitLimit
	defer func() { badgerSplitLimit = saved }()
	for _, be := range backends11(v) {
		s := be.open()
		r := v.rng(be.name)
		for i := 0; i < v.n(120, 2500) && v.nviol() < 12; i++ {
			v.guard("sequential", fmt.Sprintf("%s trial %d", be.name, i), 300*time.Second, true, func() { seq11(v, r, be, s, i) })
		}
		nc := v.n(120, 2500)
		for i := 0; i < nc && v.nviol() < 12; i++ {
			v.guard("concurrent", fmt.Sprintf("%s trial %d", be.name, i), 300*time.Second, true, func() { conc11(v, r, be, s, i) })
		}
		s.Close()
	}
	v.sample(keys11)
	v.finish(1000)
}
