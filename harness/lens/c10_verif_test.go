package lens

// C10: recorded results survive storage encoding unchanged. Generated results, built from small pools so that strings,
// nodes, maps and stacks repeat in every combination (and from pairs of trees that differ only in shape), are encoded,
// stored, read back and compared with what was saved. Truncated bytes must give an error; corrupted and hostile bytes
// must not crash the reading process.

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/vmihailenco/msgpack/v5"
)

var names10 = []string{"a", "b", "c", "d", "e", "ret0", "x.y", "", "v", "ni", "é", "\x00", "a\x00b", "\xff\xfe", strings.Repeat("n", 40), "a.b", "0", "[0]", "\x01\x00\x00\x00\x00\x00\x00\x00a"}
var vals10 = []string{"", "0", "x", "yy", "1234", "12345", "abcde", "true", "<nil>", strings.Repeat("v", 20), strings.Repeat("v", 21), strings.Repeat("w", 300), "empty", "\x00", "\xc3\x28", "é…", "vsha1-abcdefgh", "a", "b", "c", "d"}

func leaf10(r *rand.Rand) *FieldValue { return &FieldValue{Value: vPick(r, vals10...)} }

type gen10 struct {
	r    *rand.Rand
	pool []*FieldValue
	maps []FieldValues
	stk  [][]StackFrame
}

func cp10(f *FieldValue) *FieldValue {
	if f == nil {
		return nil
	}
	return &FieldValue{Value: f.Value, Children: cpm10(f.Children)}
}
func cpm10(m FieldValues) FieldValues {
	if m == nil {
		return nil
	}
	o := make(FieldValues, len(m))
	for k, v := range m {
		o[k] = cp10(v)
	}
	return o
}

func (g *gen10) node(depth int) *FieldValue {
	if len(g.pool) > 0 && g.r.Intn(3) == 0 {
		n := vPick(g.r, g.pool...)
		if g.r.Intn(2) == 0 {
			return cp10(n) // equal but not identical
		}
		return n
	}
	if depth <= 0 || g.r.Intn(3) == 0 {
		l := leaf10(g.r)
		g.pool = append(g.pool, l)
		return l
	}
	n := &FieldValue{Children: g.fields(depth - 1)}
	if len(n.Children) == 0 {
		n = leaf10(g.r)
	}
	g.pool = append(g.pool, n)
	return n
}

func (g *gen10) fields(depth int) FieldValues {
	if len(g.maps) > 0 && g.r.Intn(3) == 0 {
		m := vPick(g.r, g.maps...)
		switch g.r.Intn(3) {
		case 0:
			return cpm10(m)
		case 1:
			return reshape10(g.r, cpm10(m))
		}
		return m
	}
	n := g.r.Intn(5)
	m := make(FieldValues, n)
	for i := 0; i < n; i++ {
		m[vPick(g.r, names10...)] = g.node(depth)
	}
	g.maps = append(g.maps, m)
	return m
}

// reshape10 makes a map that is close to the given one: a field moved into or out of a neighbouring node, a name and
// value swapped, one character moved.
func reshape10(r *rand.Rand, m FieldValues) FieldValues {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if len(keys) == 0 {
		return m
	}
	k := keys[r.Intn(len(keys))]
	switch r.Intn(5) {
	case 0: // move the last field into the node before it
		if len(keys) > 1 {
			a, b := keys[len(keys)-2], keys[len(keys)-1]
			if len(m[a].Children) > 0 {
				if _, dup := m[a].Children[b]; !dup {
					m[a].Children[b] = m[b]
					delete(m, b)
				}
			}
		}
	case 1: // lift the last child of the last node
		a := keys[len(keys)-1]
		if c := m[a].Children; len(c) > 1 {
			ck := make([]string, 0, len(c))
			for x := range c {
				ck = append(ck, x)
			}
			sort.Strings(ck)
			last := ck[len(ck)-1]
			if _, dup := m[last]; !dup {
				m[last] = c[last]
				delete(c, last)
			}
		}
	case 2: // a leaf becomes a node of one leaf
		if len(m[k].Children) == 0 {
			m[k] = &FieldValue{Children: FieldValues{m[k].Value: {Value: ""}}}
		}
	case 3:
		if len(m[k].Children) == 0 && len(m[k].Value) > 0 {
			v := m[k].Value
			delete(m, k)
			m[k+v[:1]] = &FieldValue{Value: v[1:]}
		}
	case 4: // empty leaf
		m[k] = &FieldValue{}
	}
	return m
}

func (g *gen10) stack() []StackFrame {
	if len(g.stk) > 0 && g.r.Intn(2) == 0 {
		return vPick(g.r, g.stk...)
	}
	n := g.r.Intn(5)
	if g.r.Intn(30) == 0 {
		n = 300
	}
	s := make([]StackFrame, n)
	for i := range s {
		s[i] = StackFrame{File: vPick(g.r, "./a.go", "./b/c.go", "", "x\x00.go", strings.Repeat("d/", 60)+"e.go"),
			Line: vPick[uint32](g.r, 0, 1, 2, 127, 128, 65536, math.MaxUint32), Function: vPick(g.r, "f", "g", "", "p.(*T).M")}
	}
	g.stk = append(g.stk, s)
	return s
}

func (g *gen10) frames(depth int) map[string][]CallFrame {
	m := map[string][]CallFrame{}
	for i := g.r.Intn(4); i > 0; i-- {
		n := g.r.Intn(6)
		fr := make([]CallFrame, n)
		for j := range fr {
			fr[j] = CallFrame{FieldValues: g.fields(depth), Stack: g.stack(), TimeMillis: vPick[uint32](g.r, 0, 1, 5, 100000, math.MaxUint32)}
		}
		m[vPick(g.r, "p.A", "p.B", "", "p.(*T).M[int]", "é")] = fr
	}
	return m
}

func (g *gen10) panics() map[string][]string {
	if g.r.Intn(3) == 0 {
		return nil
	}
	m := map[string][]string{}
	for i := g.r.Intn(3); i > 0; i-- {
		var l []string
		for j := g.r.Intn(4); j > 0; j-- {
			l = append(l, vPick(g.r, vals10...))
		}
		m[vPick(g.r, names10...)] = l
	}
	return m
}

func (g *gen10) result() TestResult {
	d := g.r.Intn(6)
	t := TestResult{TestFunction: MinimumTestFunction{vPick(g.r, names10...), vPick(g.r, vals10...)},
		CallerResults: g.frames(d), ProjectPanics: g.panics(), ModulePanics: g.panics(),
		ModuleChangesHit: vPick(g.r, 0, 1, 7, 1<<20), TestFailure: g.r.Intn(2) == 0}
	if g.r.Intn(2) == 0 {
		t.ExtensionFrames = g.frames(d)
	}
	return t
}

// ---- independent textual form (nil and empty are the same) ----

func show10(b *strings.Builder, f FieldValues) {
	keys := make([]string, 0, len(f))
	for k := range f {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	b.WriteByte('{')
	for _, k := range keys {
		fmt.Fprintf(b, "%q:", k)
		if f[k] == nil {
			b.WriteString("nil,")
			continue
		}
		fmt.Fprintf(b, "%q", f[k].Value)
		if len(f[k].Children) > 0 {
			show10(b, f[k].Children)
		}
		b.WriteByte(',')
	}
	b.WriteByte('}')
}

func dump10(t TestResult) string {
	var b strings.Builder
	fmt.Fprintf(&b, "test %q %q hit %d fail %v\n", t.TestFunction.FunctionIdent, t.TestFunction.FunctionName, t.ModuleChangesHit, t.TestFailure)
	fr := func(name string, m map[string][]CallFrame) {
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Fprintf(&b, "%s %q\n", name, k)
			for _, c := range m[k] {
				fmt.Fprintf(&b, "  t=%d stack=", c.TimeMillis)
				for _, s := range c.Stack {
					fmt.Fprintf(&b, "%q:%d:%q|", s.File, s.Line, s.Function)
				}
				show10(&b, c.FieldValues)
				b.WriteByte('\n')
			}
		}
	}
	fr("caller", t.CallerResults)
	fr("ext", t.ExtensionFrames)
	pn := func(name string, m map[string][]string) {
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Fprintf(&b, "%s %q %q\n", name, k, append([]string{}, m[k]...))
		}
	}
	pn("ppanic", t.ProjectPanics)
	pn("mpanic", t.ModulePanics)
	return b.String()
}

func diff10(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) && i < len(lb); i++ {
		if la[i] != lb[i] {
			return "saved: " + vShort(la[i], 1500) + "\nread:  " + vShort(lb[i], 1500)
		}
	}
	return fmt.Sprintf("saved %d lines, read %d lines", len(la), len(lb))
}

func round10(v *vRun, what string, t TestResult, st Storage, r *rand.Rand) []byte {
	want := dump10(t)
	var data []byte
	var got TestResult
	mode := r.Intn(4)
	ok := v.guard("roundtrip", what+"\n"+vShort(want, 3000), 120*time.Second, true, func() {
		var err error
		if r.Intn(2) == 0 {
			data, err = t.MarshalMsgpack()
		} else {
			enc := msgpack.GetEncoder()
			buf := bytes.NewBufferString("old content") // the buffer is reused between tests
			data, err = t.marshalMsgpack(enc, buf)
			buf.Reset()
			buf.WriteString(strings.Repeat("#", 100000))
			msgpack.PutEncoder(enc)
		}
		if err != nil {
			v.violate("roundtrip:encode", "%s: %v\n%s", what, err, vShort(want, 3000))
			return
		}
		back := data
		switch mode {
		case 1:
			back, err = ZstdDecompress(nil, ZstdCompress(nil, data))
		case 2:
			back, err = SnappyDecompress(nil, SnappyCompress(nil, data))
		case 3:
			key := fmt.Sprint("k", r.Intn(3))
			if err = st.SaveState(key, data); err == nil {
				var found bool
				back, found, err = st.LoadState(key)
				if !found && err == nil {
					err = fmt.Errorf("not found")
				}
			}
		}
		if err != nil {
			v.violate("roundtrip:store", "%s: %v\n%s", what, err, vShort(want, 3000))
			return
		}
		if !bytes.Equal(back, data) {
			v.violate("roundtrip:bytes", "%s: stored bytes changed (mode %d)", what, mode)
			return
		}
		if err := got.UnmarshalMsgpack(back); err != nil {
			v.violate("roundtrip:decode", "%s: %v\n%s", what, err, vShort(want, 3000))
			return
		}
		if g := dump10(got); g != want {
			v.violate("roundtrip:changed", "%s: the result read back differs\n%s\nfull saved:\n%s", what, diff10(want, g), vShort(want, 4000))
		}
		if again := dump10(t); again != want {
			v.violate("roundtrip:input", "%s: encoding changed the result being saved\n%s", what, diff10(want, again))
		}
	})
	v.eval()
	if ok {
		v.seen(want)
		v.observe("results round-tripped", 1)
		v.observe("bytes", len(data))
		v.observe(fmt.Sprintf("via mode %d", mode), 1)
	}
	return data
}

// ---- hostile bytes: run in a child, whose death is the violation ----

func mp10(v any) []byte {
	b, err := msgpack.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func hostile10() map[string][]byte {
	type m = map[string]any
	fr := func(f m) any { return m{"k": []any{f}} }
	base := func(extra m) []byte {
		o := m{"tf": m{"FunctionIdent": "i", "FunctionName": "n"}, "mh": 1, "fail": false}
		for k, v := range extra {
			o[k] = v
		}
		return mp10(o)
	}
	h := map[string][]byte{
		"node dictionary entry that refers to itself":      base(m{"cr": fr(m{"f": m{"a": m{"ni": 0}}, "t": 1}), "nh": []any{m{"ni": 0}}}),
		"node dictionary entries that refer to each other": base(m{"cr": fr(m{"f": m{"a": m{"ni": 0}}, "t": 1}), "nh": []any{m{"ni": 1}, m{"ni": 0}}}),
		"map dictionary entry that contains itself":        base(m{"cr": fr(m{"fi": 0, "t": 1}), "fh": []any{m{"a": m{"ci": 0}}}}),
		"map and node dictionary entries forming a cycle":  base(m{"cr": fr(m{"fi": 0, "t": 1}), "fh": []any{m{"a": m{"ni": 0}}}, "nh": []any{m{"ci": 0}}}),
		"cycle through extension frames":                   base(m{"cr": m{}, "ef": fr(m{"fi": 0, "t": 1}), "fh": []any{m{"a": m{"ci": 0}}}}),
		"negative index":                                   base(m{"cr": fr(m{"fi": -1, "t": 1})}),
		"index beyond the dictionary":                      base(m{"cr": fr(m{"fi": 3, "si": 9, "t": 1})}),
		"array header claiming 4G elements":                {0x81, 0xa2, 's', 'h', 0xdd, 0xff, 0xff, 0xff, 0xff},
		"map header claiming 4G elements":                  {0x81, 0xa2, 'c', 'r', 0xdf, 0xff, 0xff, 0xff, 0xff},
		"string header claiming 4G bytes":                  {0x81, 0xdb, 0xff, 0xff, 0xff, 0xff},
		"frame array claiming 4G elements":                 append([]byte{0x81, 0xa2, 'c', 'r', 0x81, 0xa1, 'k', 0xdd}, 0xff, 0xff, 0xff, 0xff),
		"not msgpack at all":                               []byte("hello, this is not msgpack"),
		"nothing":                                          nil,
	}
	nest := []byte{0x81, 0xa2, 'c', 'r', 0x81, 0xa1, 'k', 0x91, 0x81, 0xa1, 'f'}
	for i := 0; i < 3_000_00; i++ {
		nest = append(nest, 0x81, 0xa1, 'a', 0x81, 0xa1, 'c')
	}
	h["300000 levels of nesting, then the end"] = nest
	return h
}

func child10(v *vRun, names []string, env string) {
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for _, name := range names {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			cmd := exec.Command("/bin/bash", "-c", `ulimit -v 16000000; exec "$0" -test.run '^TestVerif$' -test.timeout 240s`, os.Args[0])
			cmd.Env = append(os.Environ(), env+"="+name)
			out, err := cmd.CombinedOutput()
			v.eval()
			v.seen("hostile " + name)
			v.observe("hostile inputs in a child process", 1)
			if err != nil {
				v.violate("hostile:"+name, "%s: the reading process died: %v\n%s", name, err, vShort(string(out), 2500))
			} else if strings.Contains(string(out), "ACCEPTED "+name) && mustFail10[name] {
				v.violate("hostile-accepted:"+name, "%s: read without an error", name)
			}
		}()
	}
	wg.Wait()
}

var mustFail10 = map[string]bool{"negative index": true, "index beyond the dictionary": true, "not msgpack at all": true, "nothing": true,
	"array header claiming 4G elements": true, "map header claiming 4G elements": true, "string header claiming 4G bytes": true, "frame array claiming 4G elements": true,
	"node dictionary entry that refers to itself": true, "node dictionary entries that refer to each other": true, "map dictionary entry that contains itself": true,
	"map and node dictionary entries forming a cycle": true, "cycle through extension frames": true, "300000 levels of nesting, then the end": true}

// sane10 walks msgpack data and reports whether no list claims more elements than there are bytes left.
func sane10(b []byte) bool {
	p, ok := 0, true
	num := func(n int) int {
		if p+n > len(b) {
			p = len(b) + 1
			return 0
		}
		x := 0
		for i := 0; i < n; i++ {
			x = x<<8 | int(b[p+i])
		}
		p += n
		return x
	}
	for todo := 1; todo > 0 && p < len(b); todo-- {
		c := b[p]
		p++
		lst, mp := -1, -1
		switch {
		case c < 0x80 || c >= 0xe0 || c == 0xc0 || c == 0xc2 || c == 0xc3 || c == 0xc1:
		case c < 0x90:
			mp = int(c & 15)
		case c < 0xa0:
			lst = int(c & 15)
		case c < 0xc0:
			p += int(c & 31)
		case c == 0xc4 || c == 0xd9:
			p += num(1)
		case c == 0xc5 || c == 0xda:
			p += num(2)
		case c == 0xc6 || c == 0xdb:
			p += num(4)
		case c == 0xc7:
			p += 1 + num(1)
		case c == 0xc8:
			p += 1 + num(2)
		case c == 0xc9:
			p += 1 + num(4)
		case c == 0xca || c == 0xce || c == 0xd2:
			p += 4
		case c == 0xcb || c == 0xcf || c == 0xd3:
			p += 8
		case c == 0xcc || c == 0xd0:
			p++
		case c == 0xcd || c == 0xd1:
			p += 2
		case c >= 0xd4 && c <= 0xd8:
			p += 1 + 1<<(c-0xd4)
		case c == 0xdc:
			lst = num(2)
		case c == 0xdd:
			lst = num(4)
		case c == 0xde:
			mp = num(2)
		case c == 0xdf:
			mp = num(4)
		}
		if lst > len(b) || mp > len(b) {
			ok = false
			break
		}
		todo += max(lst, 0) + 2*max(mp, 0)
	}
	return ok
}

// corrupt10 reads many corrupted encodings; runs in a child because a fatal error would end the process.
func corrupt10(seed int64, n int) {
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < n; i++ {
		g := &gen10{r: r}
		t := g.result()
		data, err := t.MarshalMsgpack()
		if err != nil || len(data) == 0 {
			continue
		}
		for j := 0; j < 40; j++ {
			b := append([]byte(nil), data...)
			for k := 1 + r.Intn(4); k > 0; k-- {
				p := r.Intn(len(b))
				switch r.Intn(4) {
				case 0:
					b[p] ^= 1 << r.Intn(8)
				case 1:
					b[p] = byte(r.Intn(256))
				case 2:
					b[p] = vPick[byte](r, 0, 1, 2, 3, 0xa1, 0xc0, 0xff, 0x80, 0x90, 0xc4, 0x81, 0x92)
				case 3:
					b = append(b[:p:p], append([]byte{byte(r.Intn(256))}, b[p:]...)...)
				}
			}
			if !sane10(b) {
				continue // a forged element count: see known_findings.json
			}
			if err := os.WriteFile(filepath.Join(os.Getenv("TMPDIR"), fmt.Sprintf("c10-last-%d", seed)), b, 0o644); err != nil {
				panic(err)
			}
			var x TestResult
			_ = x.UnmarshalMsgpack(b)
		}
	}
}

func vMain(t *testing.T) {
	if c := os.Getenv("VERIF_CHILD"); c != "" {
		var x TestResult
		if err := x.UnmarshalMsgpack(hostile10()[c]); err == nil {
			fmt.Println("ACCEPTED " + c)
		}
		return
	}
	v := vNew("results generated from small pools (shared and equal strings, nodes, maps, stacks; trees that differ only in shape) are encoded, optionally compressed or stored, and read back; truncations must be refused; corrupted and hostile bytes are read in child processes. Non-trivial: distinct results by their full content")
	if c := os.Getenv("VERIF_CORRUPT"); c != "" {
		var s int64
		_, _ = fmt.Sscan(c, &s)
		corrupt10(s*1000003+v.seed, v.n(60, 1500))
		return
	}
	vQuiet()
	debug.SetGCPercent(300)
	names := make([]string, 0)
	for n := range hostile10() {
		names = append(names, n)
	}
	sort.Strings(names)
	child10(v, names, "VERIF_CHILD")
	var seeds []string
	for i := 0; i < 8; i++ {
		seeds = append(seeds, fmt.Sprint(i+1))
	}
	child10(v, seeds, "VERIF_CORRUPT")

	st, err := NewBadgerStorage(filepath.Join(vTempDir("c10"), "db"), 64)
	if err != nil {
		v.unsure("storage: %v", err)
		v.write()
		return
	}
	defer st.Close()
	r := v.rng("results")
	for i := 0; i < v.n(6000, 80000) && v.nviol() < 10; i++ {
		g := &gen10{r: r}
		tr := g.result()
		data := round10(v, fmt.Sprintf("generated result %d", i), tr, st, r)
		if i < 2 {
			v.sample(vShort(dump10(tr), 600))
		}
		if i%25 == 0 && len(data) > 0 {
			step := 1 + len(data)/400
			for c := 0; c < len(data); c += step {
				var x TestResult
				var err error
				v.guard("truncated", fmt.Sprintf("result %d cut at %d of %d", i, c, len(data)), 60*time.Second, true, func() { err = x.UnmarshalMsgpack(data[:c]) })
				v.eval()
				if err == nil {
					v.violate("truncated:accepted", "result %d cut at %d of %d bytes was read without an error\n%s", i, c, len(data), vShort(dump10(tr), 3000))
				}
				v.observe("truncations", 1)
			}
		}
	}
	// large and strongly repetitive results
	for i := 0; i < v.n(4, 20); i++ {
		g := &gen10{r: r}
		tr := TestResult{CallerResults: map[string][]CallFrame{}}
		for k := 0; k < 30; k++ {
			var fr []CallFrame
			for j := 0; j < 300; j++ {
				fr = append(fr, CallFrame{FieldValues: g.fields(4), Stack: g.stack(), TimeMillis: uint32(j)})
			}
			tr.CallerResults[fmt.Sprint("f", k)] = fr
			g.pool, g.maps = g.pool[:min(len(g.pool), 60)], g.maps[:min(len(g.maps), 60)]
		}
		round10(v, fmt.Sprintf("large result %d", i), tr, st, r)
	}
	// deep chain
	n := &FieldValue{Value: "end"}
	for i := 0; i < 150; i++ {
		n = &FieldValue{Children: FieldValues{"n": n, "s": {Value: "sibling value"}}}
	}
	round10(v, "deep chain", TestResult{CallerResults: map[string][]CallFrame{"f": {{FieldValues: FieldValues{"r": n}}, {FieldValues: FieldValues{"r": cp10(n)}}}}}, st, r)
	// compression helpers on arbitrary bytes
	for i := 0; i < v.n(300, 5000); i++ {
		b := make([]byte, vPick(r, 0, 1, 10, 1000, 70000))
		if r.Intn(2) == 0 {
			_, _ = r.Read(b)
		}
		v.guard("compress", fmt.Sprintf("%d bytes", len(b)), 60*time.Second, true, func() {
			z, err := ZstdDecompress(nil, ZstdCompress(nil, b))
			if err != nil || !bytes.Equal(z, b) {
				v.violate("compress:zstd", "%d bytes do not survive zstd: %v", len(b), err)
			}
			s, err := SnappyDecompress(nil, SnappyCompress(nil, b))
			if err != nil || !bytes.Equal(s, b) {
				v.violate("compress:snappy", "%d bytes do not survive snappy: %v", len(b), err)
			}
			_, _ = ZstdDecompress(nil, b)
			_, _ = SnappyDecompress(nil, b[:min(len(b), 3)])
		})
		v.eval()
	}
	v.finish(3000)
}
