package lens

// C05: capturing state is total, bounded and free of side effects. Hostile object graphs are captured by the real
// encoder into a step-counting writer; monitors: completion, number of fields against the number of distinct edges in
// the graph, resolvable alias markers, and a full dump (with pointer identity) of the graph before and after.

import (
	"bytes"
	"container/list"
	"container/ring"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"hash"
	"math"
	"math/big"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"text/template"
	"time"
	"unsafe"
)

type v5Budget struct {
	buf    bytes.Buffer
	writes int
	limit  int
}
type v5Over struct{ n int }

func (b *v5Budget) Write(p []byte) (int, error) {
	b.writes++
	if b.writes > b.limit {
		panic(v5Over{b.writes})
	}
	return b.buf.Write(p)
}

// v5Graph walks a value and counts edges (fields, elements, entries) of distinct containers; hash covers contents and
// pointer identity so that any modification shows.
type v5Graph struct {
	seen  map[v4Key]int
	edges int
	h     hash.Hash
	limit int
}

func v5Dump(v reflect.Value, skipEdges bool) (*v5Graph, string) {
	g := &v5Graph{seen: map[v4Key]int{}, h: sha256.New(), limit: 3_000_000}
	g.walk(v, 0)
	return g, fmt.Sprintf("%x", g.h.Sum(nil))
}

func (g *v5Graph) put(s string) { _, _ = g.h.Write([]byte(s)) }

// key digests a map key; what a pointer in a key points to is not followed.
func (g *v5Graph) key(v reflect.Value) {
	if !v.IsValid() {
		return
	}
	g.put(v.Type().String())
	switch v.Kind() {
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		g.put(fmt.Sprint(v.Pointer()))
	case reflect.Interface:
		g.key(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.key(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.key(v.Index(i))
		}
	default:
		g.walk(v, 0)
	}
}

func (g *v5Graph) walk(v reflect.Value, depth int) {
	g.edges++
	if g.edges > g.limit || depth > 20000 {
		return
	}
	if !v.IsValid() {
		g.put("invalid")
		return
	}
	g.put(v.Type().String())
	visit := func(n int) bool {
		k := v4Key{v.Type(), v.Pointer(), n}
		if id, ok := g.seen[k]; ok {
			g.put("#" + strconv.Itoa(id))
			return false
		}
		g.seen[k] = len(g.seen)
		return true
	}
	switch v.Kind() {
	case reflect.Bool:
		g.put(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		g.put(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		g.put(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		g.put(strconv.FormatUint(math.Float64bits(v.Float()), 16))
	case reflect.Complex64, reflect.Complex128:
		g.put(fmt.Sprint(v.Complex()))
	case reflect.String:
		g.put(v.String())
	case reflect.Interface:
		if v.IsNil() {
			g.put("nil")
			return
		}
		g.walk(v.Elem(), depth+1)
	case reflect.Pointer:
		if v.IsNil() {
			g.put("nil")
			return
		}
		if visit(0) {
			g.walk(v.Elem(), depth+1)
		}
	case reflect.Slice:
		if v.IsNil() {
			g.put("nil")
			return
		}
		g.put(fmt.Sprint(v.Len(), v.Cap()))
		if v.Len() == 0 || visit(v.Len()) {
			for i := 0; i < v.Len(); i++ {
				g.walk(v.Index(i), depth+1)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.walk(v.Index(i), depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			g.put("nil")
			return
		}
		g.put(strconv.Itoa(v.Len()))
		if visit(0) {
			// order-independent: combine entry digests
			it := v.MapRange()
			type ent struct {
				d string
				v reflect.Value
			}
			var ents []ent
			for it.Next() {
				sub := &v5Graph{seen: map[v4Key]int{}, h: sha256.New(), limit: 2000}
				sub.key(it.Key())
				e := ent{string(sub.h.Sum(nil)), it.Value()}
				if e.v.CanInt() { // entries under equal keys (NaN) are told apart by their value
					e.d += fmt.Sprintf("%020d", e.v.Int())
				}
				ents = append(ents, e)
			}
			sort.Slice(ents, func(i, j int) bool { return ents[i].d < ents[j].d })
			for _, e := range ents {
				g.put(e.d)
				g.walk(e.v, depth+1)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.walk(v.Field(i), depth+1)
		}
	case reflect.Chan:
		if !v.IsNil() {
			g.put(fmt.Sprint(v.Pointer(), v.Len(), v.Cap()))
		}
	case reflect.Func, reflect.UnsafePointer:
		g.put(fmt.Sprint(v.Pointer()))
	}
}

type v5PP *v5PP
type v5SS []v5SS
type v5MM map[string]v5MM
type v5If interface{ Node() }
type v5Tree struct {
	Left, Right, Parent v5If
	Name                string
	Any                 any
	Kids                []v5If
	ByName              map[string]v5If
	Ptr                 *v5Tree
	PPtr                **v5Tree
	Arr                 [2]any
}

func (*v5Tree) Node() {}

type v5BadString struct{ p *int }

func (b v5BadString) String() string { return strconv.Itoa(*b.p) }

type v5BadErr struct{ x int }

func (b *v5BadErr) Error() string { return strconv.Itoa(b.x) }

type v5Format int

func (v5Format) Format(f fmt.State, c rune) { panic("format") }

type v5PanicKey [2]int8

func (v5PanicKey) String() string { panic("key string") }

type v5Unexp struct {
	m  map[v5KeyU]any
	mu sync.Mutex
	at atomic.Int64
	av atomic.Value
	f  func()
	c  chan<- *v5Unexp
	s  []interface{ hidden() }
	e  struct{ *v5Unexp }
	_  [0]func()
	r  reflect.Value
	t  reflect.Type
	u  unsafe.Pointer
	p  *any
}
type v5KeyU struct {
	a any
	b v5If
	c chan int
	d *int
	e [2]any
}

func v5Catalog() map[string]any {
	c := map[string]any{}
	var x any
	x = &x
	c["any pointing to itself"] = x
	var y any
	var z any = &y
	y = &z
	c["two anys pointing to each other"] = y
	var p v5PP
	p = &p
	c["pointer to itself"] = p
	pp := &p
	c["pointer to pointer to itself"] = &pp
	ss := make(v5SS, 3)
	ss[0], ss[1], ss[2] = ss, ss[:2], ss[1:]
	c["slice containing itself"] = ss
	as := []any{nil, 1, nil}
	as[0], as[2] = as, &as
	c["any slice containing itself"] = as
	mm := v5MM{}
	mm["a"], mm["b"] = mm, v5MM{"c": mm}
	c["map containing itself"] = mm
	am := map[any]any{}
	am["self"], am["ptr"] = am, &am
	am[1] = []any{am, am}
	c["any map containing itself"] = am
	arr := [2]any{}
	arr[0], arr[1] = &arr, &arr
	c["array containing itself"] = &arr
	n := &v5Tree{Name: "n"}
	n.Left, n.Right, n.Parent, n.Any, n.Ptr = n, n, n, n, n
	n.PPtr = &n.Ptr
	n.Kids = []v5If{n, n, nil}
	n.ByName = map[string]v5If{"a": n, "b": n}
	n.Arr = [2]any{n, *n}
	c["node linked to itself every way"] = n
	c["node by value"] = *n
	// complete graph through interfaces only: 12 nodes, each linked to all
	nodes := make([]*v5Tree, 12)
	for i := range nodes {
		nodes[i] = &v5Tree{Name: strconv.Itoa(i)}
	}
	for _, a := range nodes {
		for _, b := range nodes {
			a.Kids = append(a.Kids, b)
		}
		a.Left, a.Right, a.Parent, a.Any = nodes[0], nodes[1], nodes[2], nodes[3]
	}
	c["complete interface graph"] = nodes[0]
	c["complete graph as slice"] = nodes
	// binary tree with parent links through interfaces
	var build func(d int, par v5If) *v5Tree
	build = func(d int, par v5If) *v5Tree {
		t := &v5Tree{Name: strconv.Itoa(d), Parent: par}
		if d > 0 {
			t.Left, t.Right = build(d-1, t), build(d-1, t)
		}
		return t
	}
	c["tree with parent interfaces"] = build(9, nil)
	// diamond chain: shared children through interfaces (2^60 paths, 60 nodes)
	var dia any = "end"
	for i := 0; i < 60; i++ {
		dia = &v5Tree{Any: dia, Arr: [2]any{dia, dia}, Name: "d"}
	}
	c["diamond chain"] = dia
	var dia2 any = map[string]any{"end": 1}
	for i := 0; i < 60; i++ {
		dia2 = map[string]any{"l": dia2, "r": dia2}
	}
	c["diamond chain of maps"] = dia2
	var dia3 any = []any{"end"}
	for i := 0; i < 60; i++ {
		dia3 = []any{dia3, dia3}
	}
	c["diamond chain of slices"] = dia3
	ll := list.New()
	for i := 0; i < 300; i++ {
		ll.PushBack(ll)
	}
	c["container/list of itself"] = ll
	rg := ring.New(50)
	for i := 0; i < 50; i++ {
		rg.Value = rg
		rg = rg.Next()
	}
	c["container/ring"] = rg
	var deep any = 1
	for i := 0; i < 20000; i++ {
		deep = []any{deep}
	}
	c["20000 deep"] = deep
	dp := new(any)
	for i := 0; i < 5000; i++ {
		q := new(any)
		*q = dp
		dp = q
	}
	c["5000 pointers deep"] = dp
	var head *v5Tree
	for i := 0; i < 5000; i++ {
		head = &v5Tree{Ptr: head, Any: i}
	}
	c["long list"] = head
	wide := map[int]string{}
	for i := 0; i < 50000; i++ {
		wide[i] = "v"
	}
	c["wide map"] = wide
	c["wide slice"] = make([]v5Tree, 30000)
	c["huge bytes"] = make([]byte, 1<<22)
	c["huge array"] = new([1 << 20]uint32)
	c["huge string"] = strings.Repeat("x", 1<<22)
	nan := math.NaN()
	nm := map[float64]int{}
	for i := 0; i < 20; i++ {
		nm[nan] = i
	}
	c["nan keys"] = nm
	nm2 := map[any]any{nan: 1, complex(nan, 1): 2, nil: 3, [1]float64{nan}: 4, "s": nil}
	c["odd any keys"] = nm2
	big1 := map[float64]int{}
	for i := 0; i < 3000; i++ {
		big1[math.NaN()] = i
	}
	c["many nan keys"] = big1
	mixed := map[any]int{}
	for i := 0; i < 1500; i++ {
		mixed[i], mixed[strconv.Itoa(i)], mixed[float32(i)] = i, i, i
		mixed[v5KeyU{a: i, b: n, d: &i}] = i
		mixed[struct{ x any }{i}] = i
		mixed[[2]any{i, "a"}] = i
		mixed[&i] = i
		mixed[make(chan int)] = i
		mixed[reflect.TypeOf(i)] = i
	}
	mixed[nil] = -1
	c["over-limit mixed keys"] = mixed
	var np *int
	c["stringer panics on key"] = map[v5BadString]int{{np}: 1}
	c["formatter key panics"] = map[v5Format]int{1: 2}
	c["string method key panics"] = map[v5PanicKey]int{{1, 2}: 2}
	var be *v5BadErr
	c["typed nil error key"] = map[error]int{be: 1, errors.New("x"): 2}
	c["typed nil error"] = struct{ e error }{be}
	c["formatter value"] = []any{v5Format(1), v5BadString{}, v5PanicKey{}}
	un := &v5Unexp{m: map[v5KeyU]any{}, f: func() {}, c: make(chan *v5Unexp, 2), t: reflect.TypeOf(0), r: reflect.ValueOf(&n)}
	un.m[v5KeyU{a: 1, b: n, c: make(chan int), d: new(int)}] = un
	un.m[v5KeyU{}] = *n
	un.e.v5Unexp = un
	var anyun any = un
	un.p = &anyun
	un.at.Store(7)
	un.av.Store(n)
	un.u = unsafe.Pointer(un)
	un.s = make([]interface{ hidden() }, 3)
	un.mu.Lock()
	c["unexported everything"] = un
	cyc := reflect.ValueOf(&n)
	c["reflect.Value"] = cyc
	c["reflect.Type"] = reflect.TypeOf(n)
	c["context"] = context.WithValue(context.Background(), v5PanicKey{}, n)
	cctx, cancel := context.WithCancel(context.WithValue(context.Background(), "k", c))
	c["cancel context"] = cctx
	c["cancel func"] = cancel
	u, _ := url.Parse("http://a:b@c/d?e=f#g")
	req, _ := http.NewRequest("GET", u.String(), strings.NewReader("body"))
	c["http request"] = req
	c["http client"] = http.DefaultClient
	c["template"] = template.Must(template.New("x").Parse("{{range .}}{{.}}{{end}}"))
	c["regexp"] = regexp.MustCompile(`a(b|c)*d+`)
	c["big int"] = new(big.Int).Exp(big.NewInt(7), big.NewInt(5000), nil)
	c["time"] = time.Unix(1, 2)
	c["timer"] = time.NewTimer(time.Hour)
	c["file"] = os.Stdin
	c["rwmutex"] = &sync.RWMutex{}
	c["once"] = &sync.Once{}
	c["syncmap"] = func() *sync.Map { m := &sync.Map{}; m.Store("m", m); return m }()
	c["pool"] = &sync.Pool{New: func() any { return 1 }}
	c["buffer"] = bytes.NewBufferString("hello")
	sb := &strings.Builder{}
	sb.WriteString("built")
	c["builder"] = sb
	c["nil func"] = (func())(nil)
	c["nil chan"] = (chan int)(nil)
	c["nil map"] = map[string]int(nil)
	c["nil iface ptr"] = (*any)(nil)
	c["zero size"] = [1000]struct{}{}
	c["ptrs to zero size"] = []*struct{}{{}, {}, {}}
	c["method value"] = n.Node
	c["uintptr"] = []uintptr{1, ^uintptr(0)}
	c["loop var slice of ptr to slices"] = func() any { s := []*[]any{}; t := []any{&s}; s = append(s, &t, &t); return &s }()
	chn := make(chan any, 3)
	chn <- chn
	chn <- 1
	c["buffered channel"] = chn
	closed := make(chan int)
	close(closed)
	c["closed channel"] = closed
	return c
}

func v5Random(r *rand.Rand) any {
	n := 1 + r.Intn(14)
	nodes := make([]*v5Tree, n)
	for i := range nodes {
		nodes[i] = &v5Tree{Name: strconv.Itoa(i)}
	}
	pick := func() *v5Tree { return nodes[r.Intn(n)] }
	pickIf := func() v5If {
		if r.Intn(6) == 0 {
			return nil
		}
		return pick()
	}
	var holders []any
	pickAny := func() any {
		switch r.Intn(9) {
		case 0:
			return pick()
		case 1:
			return *pick()
		case 2:
			return []any{pick(), pick()}
		case 3:
			return map[any]any{&struct{ a, b int }{1, 2}: pick(), "x": pick(), nil: pick()}
		case 4:
			p := pick()
			return &p
		case 5:
			if len(holders) > 0 {
				return holders[r.Intn(len(holders))]
			}
			return 1
		case 6:
			var a any = pick()
			return &a
		case 7:
			return [2]v5If{pickIf(), pickIf()}
		}
		return r.Intn(5)
	}
	for i := 0; i < n; i++ {
		switch r.Intn(3) {
		case 0:
			s := make([]any, 1+r.Intn(4))
			holders = append(holders, s)
		case 1:
			holders = append(holders, map[string]any{})
		case 2:
			holders = append(holders, new(any))
		}
	}
	for _, h := range holders {
		switch h := h.(type) {
		case []any:
			for i := range h {
				h[i] = pickAny()
			}
		case map[string]any:
			for k := r.Intn(4); k >= 0; k-- {
				h[strconv.Itoa(k)] = pickAny()
			}
		case *any:
			*h = pickAny()
		}
	}
	for _, a := range nodes {
		a.Left, a.Right, a.Parent = pickIf(), pickIf(), pickIf()
		if r.Intn(2) == 0 {
			a.Any = pickAny()
		}
		if r.Intn(2) == 0 {
			for k := r.Intn(5); k > 0; k-- {
				a.Kids = append(a.Kids, pickIf())
			}
		}
		if r.Intn(3) == 0 {
			a.ByName = map[string]v5If{"p": pickIf(), "q": pickIf()}
		}
		if r.Intn(2) == 0 {
			a.Ptr = pick()
		}
		if r.Intn(3) == 0 {
			b := pick()
			a.PPtr = &b.Ptr
		}
		if r.Intn(3) == 0 {
			a.Arr = [2]any{pickAny(), pickAny()}
		}
	}
	return vPick[any](r, nodes[0], nodes, *nodes[0], holders)
}

// v5ByValue counts the reference-holding leaves of a value that are reached without following a reference.
func v5ByValue(v reflect.Value) int {
	if !v.IsValid() {
		return 0
	}
	switch v.Kind() {
	case reflect.Interface:
		return v5ByValue(v.Elem())
	case reflect.Pointer, reflect.Map, reflect.Slice:
		return 1
	case reflect.Struct:
		n := 0
		for i := 0; i < v.NumField(); i++ {
			n += v5ByValue(v.Field(i))
		}
		return n
	case reflect.Array:
		n := 0
		for i := 0; i < v.Len() && i < 2000; i++ {
			n += v5ByValue(v.Index(i))
		}
		return n
	}
	return 0
}

// v5Check captures one value and applies the monitors.
func v5Check(v *vRun, label string, val any) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, time.Since(v.start), label)
	}
	g, before := v5Dump(reflect.ValueOf(val), false)
	// every distinct edge can be written once; by-value copies of nodes repeat their own fields (bounded by edges)
	// and every part of the root value held by value may show the graph below it once
	limitFields := 2*g.edges*max(1, v5ByValue(reflect.ValueOf(val))) + 64
	w := &v5Budget{limit: 6*limitFields + 4096}
	var over bool
	ok := v.guard("capture", label, 120*time.Second, true, func() {
		defer func() {
			if r := recover(); r != nil {
				if o, is := r.(v5Over); is {
					over = true
					v.violate("capture:unbounded", "%s: more than %d writes for a graph of %d edges", label, o.n, g.edges)
					return
				}
				panic(r)
			}
		}()
		lensEncodeMessagePointState(w, 3, 4, nil, []lensMonitorFieldSnapshot{{Name: "x", Val: val}})
	})
	v.eval()
	if !ok || over {
		return
	}
	g2, after := v5Dump(reflect.ValueOf(val), false)
	if before != after || g.edges != g2.edges {
		v.violate("capture:mutated", "%s: the captured value changed during capture (edges %d -> %d)", label, g.edges, g2.edges)
	}
	v.observe("bytes captured", w.buf.Len())
	v.guard("decode", label, 120*time.Second, true, func() {
		msg, err := newLensReader(&w.buf, lensMonitorFieldMaxLen).decodeMessagePointState()
		if err != nil {
			v.violate("capture:undecodable", "%s: %v", label, err)
			return
		}
		// alias markers must name a place shown before
		places := map[string]bool{}
		var markers, fields, depth int
		var walk func(f LensMonitorField, path string, d int)
		walk = func(f LensMonitorField, path string, d int) {
			fields++
			depth = max(depth, d)
			if path == "" {
				path = f.Name
			} else {
				path += "." + f.Name
			}
			places[path] = true
			if s, ok := f.Value.(string); ok && strings.HasPrefix(s, "<cycle:") && strings.HasSuffix(s, ">") {
				markers++
				if !places[strings.TrimSuffix(strings.TrimPrefix(s, "<cycle:"), ">")] {
					v.violate("capture:dangling", "%s: marker %s at %s names nothing shown before", label, vShort(s, 200), vShort(path, 200))
				}
			}
			for _, c := range f.Children {
				walk(c, path, d+1)
			}
		}
		for _, f := range msg.Fields {
			walk(f, "", 0)
		}
		if depth > 101 {
			v.violate("capture:depth", "%s: nesting %d beyond the limit", label, depth)
		}
		v.observe("fields captured", fields)
		v.observe("alias markers", markers)
		v.observe("graph edges", g.edges)
		v.seen(fmt.Sprintf("%s/%d/%d/%d", strings.Split(label, " #")[0], fields, markers, depth))
	})
}

// v5Fatal captures values whose failure would take the whole process down; each runs in a child process.
var v5Fatal = map[string]func(){
	"map key pointing to a map that contains itself": func() {
		am := map[any]any{}
		am[&am] = am
		var b bytes.Buffer
		lensEncodeMessagePointState(&b, 1, 2, nil, []lensMonitorFieldSnapshot{{Name: "x", Val: am}})
	},
	"panic value that is a slice containing itself": func() {
		s := []any{nil}
		s[0] = s
		var b bytes.Buffer
		lensEncodeMessagePointPanic(&b, 1, 2, s)
	},
	"slice containing itself": func() {
		s := []any{nil}
		s[0] = s
		var b bytes.Buffer
		lensEncodeMessagePointState(&b, 1, 2, nil, []lensMonitorFieldSnapshot{{Name: "x", Val: s}})
	},
	"node with pointer keys": func() {
		n := n0()
		var b bytes.Buffer
		lensEncodeMessagePointState(&b, 1, 2, nil, []lensMonitorFieldSnapshot{{Name: "x", Val: map[*v5Tree]*v5Tree{n: n}}})
	},
	"very deep list": func() {
		var head *v5Tree
		for i := 0; i < 2_000_000; i++ {
			head = &v5Tree{Ptr: head}
		}
		var b bytes.Buffer
		lensEncodeMessagePointState(&b, 1, 2, nil, []lensMonitorFieldSnapshot{{Name: "x", Val: head}})
	},
}

func v5Child(v *vRun) {
	names := make([]string, 0, len(v5Fatal))
	for name := range v5Fatal {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		cmd := exec.Command(os.Args[0], "-test.run", "^TestVerif$", "-test.timeout", "100s")
		cmd.Env = append(os.Environ(), "VERIF_CHILD="+name)
		out, err := cmd.CombinedOutput()
		v.eval()
		v.seen("child " + name)
		if err != nil {
			v.violate("capture:fatal:"+name, "%s: the process capturing it died: %v\n%s", name, err, vShort(string(out), 3000))
		}
	}
}

func vMain(t *testing.T) {
	if c := os.Getenv("VERIF_CHILD"); c != "" {
		v5Fatal[c]()
		return
	}
	vQuiet()
	v := vNew("a catalogue of hostile object graphs plus random graphs with cycles and sharing through pointers, interfaces, maps, slices and arrays are captured; monitors check completion under a step budget derived from the number of distinct edges, absence of modification (full dump before/after), decodability and resolvable alias markers. Non-trivial: distinct (graph class, fields, markers, depth)")
	v5Child(v)
	cat := v5Catalog()
	delete(cat, "")
	for name, val := range cat {
		if name == "cancel context" {
			continue // refers to the whole catalogue; captured last
		}
		v5Check(v, "catalogue: "+name, val)
	}
	// all at once as one value, and as arguments of the real send function with nobody listening
	all := []any{}
	for name, val := range cat {
		if !strings.HasPrefix(name, "huge") && name != "wide slice" {
			all = append(all, val)
		}
	}
	v.sample(map[string]any{"catalogue graphs": len(cat)})
	r := v.rng("graphs")
	for i := 0; i < v.n(4000, 60000); i++ {
		val := v5Random(r)
		v5Check(v, fmt.Sprintf("random graph #%d seed %d", i, v.seed), val)
		if i == 0 {
			v.sample(fmt.Sprintf("random graph type %T", val))
		}
	}
	// random acyclic values with all kinds
	for i := 0; i < v.n(1500, 20000); i++ {
		ty := v4Type(r, 1+r.Intn(4))
		x := reflect.New(ty).Elem()
		budget := 2000
		v4Fill(r, x, 5, &budget)
		v5Check(v, fmt.Sprintf("random value #%d", i), x.Interface())
	}
	// concurrent captures of one shared graph must not interfere
	shared := v5Random(r)
	_, before := v5Dump(reflect.ValueOf(shared), false)
	var ref bytes.Buffer
	lensEncodeMessagePointState(&ref, 1, 2, nil, []lensMonitorFieldSnapshot{{Name: "x", Val: shared}})
	v.guard("concurrent", "concurrent captures", 120*time.Second, true, func() {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 50; i++ {
					var b bytes.Buffer
					lensEncodeMessagePointState(&b, 1, 2, nil, []lensMonitorFieldSnapshot{{Name: "x", Val: shared}})
					if b.Len() == 0 {
						v.violate("concurrent:empty", "empty capture")
					}
				}
			}()
		}
		wg.Wait()
	})
	if _, after := v5Dump(reflect.ValueOf(shared), false); before != after {
		v.violate("concurrent:mutated", "shared value changed")
	}
	// panic values of every sort become text without a second panic
	var np *v5BadErr
	for i, pv := range []any{1, "s", errors.New("e"), np, v5BadString{}, v5Format(1), v5PanicKey{}, struct{ a any }{n0()}, nil, map[string]int{"a": 1}, []byte("x"), func() {}, make(chan int), &struct{ x *int }{}} {
		v.guard("panicvalue", fmt.Sprintf("panic value %d %T", i, pv), 60*time.Second, true, func() {
			var b bytes.Buffer
			lensEncodeMessagePointPanic(&b, 1, 2, pv)
			if _, err := newLensReader(&b, 16).decodeMessagePointPanic(); err != nil {
				v.violate("panicvalue:decode", "%T: %v", pv, err)
			}
		})
		v.eval()
	}
	// nobody listening: the send functions return and the program goes on
	for i, val := range []any{1, shared, cat["unexported everything"], nil, cat["any pointing to itself"]} {
		v.guard("send", fmt.Sprintf("send %d without a server", i), 300*time.Second, true, func() {
			sendLensPointStateMessage(uint32(i), lensMonitorFieldSnapshot{Name: "x", Val: val}, lensMonitorFieldSnapshot{Name: "nil", Val: nil})
			sendLensPointMessage(uint32(i))
			sendLensPointRecoveryMessage(uint32(i), val)
		})
		v.eval()
	}
	v.finish(1000)
}

func n0() *v5Tree { t := &v5Tree{}; t.Ptr, t.Any = t, t; return t }
