package lens

// C19: captured output is complete, in order and bounded. Streams of identifiable records go through the fan-out and
// buffering helpers, sequentially with every kind of destination and concurrently under the race detector; limiters and
// keyed locks are watched by counters of their holders.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// sink19 is a destination that records what it got and can be told to fail.
type sink19 struct {
	got      []byte
	failAt   map[int]int // write number -> 1: error, 2: error after taking part of it, 3: short without error
	writes   int
	failed   int
	closed   int
	closeErr error
}

func (s *sink19) Write(p []byte) (int, error) {
	s.writes++
	switch s.failAt[s.writes] {
	case 1:
		s.failed++
		return 0, errors.New("injected write failure")
	case 2:
		s.failed++
		s.got = append(s.got, p[:len(p)/2]...)
		return len(p) / 2, errors.New("injected write failure")
	case 3:
		s.failed++
		s.got = append(s.got, p[:len(p)/2]...)
		return len(p) / 2, nil
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

type closer19 struct{ *sink19 }

func (c closer19) Close() error { c.closed++; return c.closeErr }

func size19(r *rand.Rand) int {
	switch r.Intn(6) {
	case 0:
		return r.Intn(3)
	case 1:
		return 1 + r.Intn(5000)
	}
	return r.Intn(200)
}

func rec19(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('!' + r.Intn(90))
		if r.Intn(30) == 0 {
			b[i] = vPick(r, byte('\n'), '.', 0, 0xff)
		}
	}
	return b
}

func tee19(v *vRun, r *rand.Rand, n int) {
	k := 1 + r.Intn(5)
	var ws []io.Writer
	var sinks []*sink19
	var closers []int
	faulty := r.Intn(3) == 0
	desc := ""
	for i := 0; i < k; i++ {
		if r.Intn(6) == 0 {
			ws = append(ws, nil)
			desc += "nil "
		}
		s := &sink19{}
		if faulty && r.Intn(2) == 0 {
			s.failAt = map[int]int{1 + r.Intn(8): 1 + r.Intn(3)}
			desc += "faulty-"
		}
		if r.Intn(2) == 0 {
			if r.Intn(4) == 0 {
				s.closeErr = fmt.Errorf("close %d", i)
			}
			ws = append(ws, closer19{s})
			closers = append(closers, i)
			desc += "closer "
		} else {
			ws = append(ws, struct{ io.Writer }{s})
			desc += "plain "
		}
		sinks = append(sinks, s)
	}
	what := fmt.Sprintf("tee %d: %s", n, desc)
	var all []byte
	v.guard("tee", what, 60*time.Second, true, func() {
		w := TeeWriter(ws...)
		for i := r.Intn(12); i > 0; i-- {
			p := rec19(r, 1+size19(r))
			keep := append([]byte(nil), p...)
			before := make([]int, k)
			for j, s := range sinks {
				before[j] = s.failed
			}
			m, err := w.Write(p)
			all = append(all, keep...)
			if !bytes.Equal(p, keep) {
				v.violate("tee:modified", "%s: the written bytes were modified", what)
			}
			bad := false
			for j, s := range sinks {
				bad = bad || s.failed != before[j]
			}
			if !bad && (err != nil || m != len(p)) {
				v.violate("tee:result", "%s: write of %d bytes returned %d, %v though every destination accepted it", what, len(p), m, err)
			}
			if bad && err == nil && m == len(p) {
				v.violate("tee:swallowed", "%s: a destination failed, write returned %d and no error", what, m)
			}
		}
		for j, s := range sinks {
			if s.failed == 0 && !bytes.Equal(s.got, all) {
				v.violate("tee:content", "%s: destination %d got %d bytes %q of %d %q", what, j, len(s.got), vShort(string(s.got), 100), len(all), vShort(string(all), 100))
			}
		}
		err := w.Close()
		wantErr := false
		for _, i := range closers {
			wantErr = wantErr || sinks[i].closeErr != nil
			if sinks[i].closed != 1 {
				v.violate("tee:close", "%s: destination %d closed %d times", what, i, sinks[i].closed)
			}
		}
		if (err != nil) != wantErr {
			v.violate("tee:close-error", "%s: close returned %v", what, err)
		}
	})
	v.eval()
	v.observe("tee streams", 1)
	v.observe("tee bytes", len(all)*k)
	v.seen("tee " + desc)
}

func rolling19(v *vRun, r *rand.Rand, n int) {
	limit := vPick(r, 8, 9, 16, 33, 100, 1000, 8192, 8+r.Intn(300))
	var buf bytes.Buffer
	w := newLimitedRollingBufferWriter(&buf, limit)
	var all []byte
	cut := false
	var sizes []int
	for i := 0; i < 3+r.Intn(30); i++ {
		sz := size19(r)
		switch r.Intn(6) {
		case 0:
			sz = limit + r.Intn(3) - 1
		case 1:
			sz = limit - len(all) + r.Intn(3) - 1
		case 2:
			sz = limit/2 + r.Intn(3) - 1
		case 3:
			sz = limit*2 + r.Intn(5)
		}
		if sz < 0 {
			sz = 0
		}
		p := rec19(r, sz)
		keep := append([]byte(nil), p...)
		sizes = append(sizes, sz)
		m, err := w.Write(p)
		all = append(all, keep...)
		cut = cut || len(all) > limit
		what := fmt.Sprintf("rolling %d: limit %d write sizes %v", n, limit, sizes)
		if m != len(p) || err != nil {
			v.violate("rolling:result", "%s: write returned %d, %v", what, m, err)
		}
		if !bytes.Equal(p, keep) {
			v.violate("rolling:modified", "%s: the written bytes were modified", what)
		}
		for j := range p { // the caller may reuse its buffer
			p[j] = '#'
		}
		got := buf.Bytes()
		v.eval()
		if !cut {
			if !bytes.Equal(got, all) {
				v.violate("rolling:lost", "%s: holds %d bytes %q, everything fits: %q", what, len(got), vShort(string(got), 200), vShort(string(all), 200))
				return
			}
			continue
		}
		if len(got) > limit {
			v.violate("rolling:bound", "%s: holds %d bytes", what, len(got))
			return
		}
		if !bytes.HasPrefix(got, []byte("...")) {
			v.violate("rolling:marker", "%s: output was cut without a mark: %q", what, vShort(string(got), 100))
			return
		}
		rest := got[3:]
		if !bytes.HasSuffix(all, rest) {
			v.violate("rolling:recent", "%s: does not hold the most recent output: ends %q, written %q", what, vShort(string(rest[max(0, len(rest)-100):]), 100), vShort(string(all[max(0, len(all)-100):]), 100))
			return
		}
		if len(rest) < limit/2 {
			v.violate("rolling:short", "%s: holds only %d recent bytes", what, len(rest))
			return
		}
	}
	v.observe("bounded streams", 1)
	v.seen(fmt.Sprintf("rolling %d %v", limit, cut))
}

// locked19: concurrent writers of whole records, concurrent readers.
func locked19(v *vRun, r *rand.Rand, n int) {
	lb := newLockedBuffer()
	writers, per := 2+r.Intn(7), 20+r.Intn(60)
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var snaps [][]byte
	var copies []string
	var rg sync.WaitGroup
	rg.Add(1)
	go func() {
		defer rg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			l := lb.Len()
			b := lb.Bytes()
			if len(b) < l {
				v.violate("locked:len", "locked %d: Len said %d, then Bytes gave %d", n, l, len(b))
			}
			if len(snaps) < 2000 {
				snaps = append(snaps, b)
				copies = append(copies, string(b))
			}
			runtime.Gosched()
		}
	}()
	for w := 0; w < writers; w++ {
		w := w
		seed := r.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rr := rand.New(rand.NewSource(seed))
			for i := 0; i < per; i++ {
				p := fmt.Appendf(nil, "%d:%d:%s\n", w, i, strings.Repeat("x", rr.Intn(300)))
				if m, err := lb.Write(p); m != len(p) || err != nil {
					v.violate("locked:result", "write returned %d, %v", m, err)
				}
			}
		}()
	}
	wg.Wait()
	close(stop)
	rg.Wait()
	final := lb.String()
	next := make([]int, writers)
	lines := strings.SplitAfter(final, "\n")
	total := 0
	for _, l := range lines {
		if l == "" {
			continue
		}
		var w, i int
		if c, err := fmt.Sscanf(l, "%d:%d:", &w, &i); c != 2 || err != nil || w < 0 || w >= writers || strings.Trim(l[strings.LastIndex(l, ":")+1:], "x") != "\n" {
			v.violate("locked:torn", "locked %d: record %q", n, l)
			return
		}
		if i != next[w] {
			v.violate("locked:order", "locked %d: writer %d record %d found where %d is due", n, w, i, next[w])
			return
		}
		next[w]++
		total++
	}
	if total != writers*per {
		v.violate("locked:lost", "locked %d: %d of %d records", n, total, writers*per)
	}
	for i, s := range snaps {
		if string(s) != copies[i] || !strings.HasPrefix(final, copies[i]) {
			v.violate("locked:snapshot", "locked %d: bytes read at an earlier time are no prefix of the output or changed later", n)
			break
		}
	}
	v.eval()
	v.observe("concurrent records", total)
	v.observe("snapshots during writes", len(snaps))
	lb.Reset()
	if lb.Len() != 0 || lb.String() != "" {
		v.violate("locked:reset", "after Reset %d bytes", lb.Len())
	}
	v.seen(fmt.Sprintf("locked %d %d", writers, per/10))
}

// teeshared19: two fan-outs share one locked destination, as for a child's stdout and stderr.
func teeshared19(v *vRun, r *rand.Rand, n int) {
	lb := newLockedBuffer()
	a, b := &sink19{}, &sink19{}
	wa, wb := TeeWriter(struct{ io.Writer }{a}, lb), TeeWriter(struct{ io.Writer }{b}, lb)
	var wg sync.WaitGroup
	var sent [2][]byte
	for i, w := range []io.Writer{wa, wb} {
		i, w := i, w
		seed := r.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rr := rand.New(rand.NewSource(seed))
			for k := 0; k < 60; k++ {
				p := fmt.Appendf(nil, "%d-%d %s\n", i, k, strings.Repeat("y", rr.Intn(50)))
				sent[i] = append(sent[i], p...)
				_, _ = w.Write(p)
			}
		}()
	}
	wg.Wait()
	var split [2][]byte
	for _, l := range strings.SplitAfter(lb.String(), "\n") {
		if l != "" {
			split[l[0]&1] = append(split[l[0]&1], l...)
		}
	}
	for i, s := range []*sink19{a, b} {
		if !bytes.Equal(s.got, sent[i]) || !bytes.Equal(split[i], sent[i]) {
			v.violate("shared", "shared %d: stream %d is not complete and in order at its destinations", n, i)
		}
	}
	v.eval()
	v.observe("shared destinations", 1)
}

func limiter19(v *vRun, r *rand.Rand, n int) {
	limit := vPick(r, 1, 2, 3, 8, 50)
	tasks := r.Intn(limit*4 + 30)
	g := NewLimitingWaitGroup(limit)
	var cur, high, done atomic.Int64
	hold := time.Duration(r.Intn(200)) * time.Microsecond
	what := fmt.Sprintf("limiter %d: limit %d tasks %d", n, limit, tasks)
	v.guard("limiter", what, 120*time.Second, true, func() {
		// the whole limit can be held at the same time
		var bar sync.WaitGroup
		bar.Add(limit)
		for i := 0; i < limit; i++ {
			g.Take()
			go func() { bar.Done(); bar.Wait(); g.Release() }()
		}
		for i := 0; i < tasks; i++ {
			g.Take()
			go func() {
				defer g.Release()
				c := cur.Add(1)
				for {
					h := high.Load()
					if c <= h || high.CompareAndSwap(h, c) {
						break
					}
				}
				time.Sleep(hold)
				cur.Add(-1)
				done.Add(1)
			}()
		}
		g.Join()
		if done.Load() != int64(tasks) {
			v.violate("limiter:join", "%s: Join returned after %d tasks", what, done.Load())
		}
		if high.Load() > int64(limit) {
			v.violate("limiter:limit", "%s: %d at a time", what, high.Load())
		}
	})
	v.eval()
	v.observe("limited tasks", tasks)
	v.seen(fmt.Sprintf("limiter %d high %d", limit, high.Load()))
}

func errgroup19(v *vRun) {
	g := ErrGroupLimitCPU()
	var cur, high, done atomic.Int64
	for i := 0; i < 200; i++ {
		i := i
		g.Go(func() error {
			c := cur.Add(1)
			for {
				h := high.Load()
				if c <= h || high.CompareAndSwap(h, c) {
					break
				}
			}
			time.Sleep(200 * time.Microsecond)
			cur.Add(-1)
			done.Add(1)
			if i == 50 {
				return errors.New("one fails")
			}
			return nil
		})
	}
	err := g.Wait()
	if err == nil || done.Load() != 200 || high.Load() > int64(runtime.NumCPU()) {
		v.violate("errgroup", "error %v, %d of 200 done, %d at a time on %d CPUs", err, done.Load(), high.Load(), runtime.NumCPU())
	}
	v.eval()
}

func striped19(v *vRun, r *rand.Rand, n int) {
	var m *stripedMutex
	stripes := vPick(r, uint(0), 1, 2, 7, 64)
	if stripes == 0 {
		m = newDefaultStripedMutex()
	} else {
		m = newStripedMutex(stripes)
	}
	keys := []string{"", "a", "b", "/a/b.go", "/a/b.go ", strings.Repeat("k", 100), "ключ"}
	counts := make([]int, len(keys)) // guarded by nothing but the lock under test
	holders := make([]atomic.Int32, len(keys))
	var wg sync.WaitGroup
	what := fmt.Sprintf("striped %d: %d stripes", n, stripes)
	workers, per := 8, 60
	v.guard("striped", what, 120*time.Second, true, func() {
		for w := 0; w < workers; w++ {
			seed := r.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				rr := rand.New(rand.NewSource(seed))
				for i := 0; i < per; i++ {
					k := rr.Intn(len(keys))
					l := m.Lock(keys[k])
					if h := holders[k].Add(1); h != 1 {
						v.violate("striped:exclusion", "%s: %d holders of key %q", what, h, keys[k])
					}
					counts[k]++
					if rr.Intn(4) == 0 {
						runtime.Gosched()
					}
					holders[k].Add(-1)
					l.Unlock()
				}
			}()
		}
		wg.Wait()
	})
	sum := 0
	for _, c := range counts {
		sum += c
	}
	if sum != workers*per {
		v.violate("striped:lost", "%s: %d of %d increments", what, sum, workers*per)
	}
	v.eval()
	v.observe("keyed lock acquisitions", sum)
	v.seen(fmt.Sprintf("striped %d", stripes))
}

func lines19(v *vRun, r *rand.Rand) {
	n := r.Intn(8)
	var ls []string
	for i := 0; i < n; i++ {
		ls = append(ls, vPick(r, "", "a", "line", "x\r", "...", "é"))
	}
	s := strings.Join(ls, "\n")
	if r.Intn(2) == 0 {
		s += "\n"
	}
	all := strings.Split(s, "\n")
	count, head := 1+r.Intn(9), r.Intn(2) == 0
	want := all
	if len(all) > count {
		if head {
			want = all[:count]
		} else {
			want = all[len(all)-count:]
		}
	}
	if g := limitStringLines(s, count, head); g != strings.Join(want, "\n") {
		v.violate("lines", "limitStringLines(%q, %d, %v) = %q", s, count, head, g)
	}
	v.eval()
	v.observe("line limits", 1)
}

func vMain(t *testing.T) {
	vQuiet()
	v := vNew("one evaluation = one stream, write or concurrent session judged; distinct = shapes of destinations, limits and sessions")
	v.assumptions = []string{"the fan-out has at least one destination; bounded captures have a limit of at least 8 bytes; fan-outs themselves are used by one writer at a time"}
	r := v.rng("streams")
	for i := 0; i < v.n(3000, 60000); i++ {
		tee19(v, r, i)
	}
	for i := 0; i < v.n(2500, 50000); i++ {
		rolling19(v, r, i)
	}
	for i := 0; i < v.n(60, 1500); i++ {
		locked19(v, r, i)
		teeshared19(v, r, i)
		striped19(v, r, i)
		limiter19(v, r, i)
	}
	errgroup19(v)
	for i := 0; i < v.n(3000, 50000); i++ {
		lines19(v, r)
	}
	v.sample(map[string]any{"rolling buffer limits": []int{8, 9, 16, 33, 100, 1000, 8192}, "writers": "2-8 concurrent, 20-80 records each"})
	v.finish(5000)
}
