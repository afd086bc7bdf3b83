package lens

// C04: a captured value reaches the monitor unchanged. Random live Go values are encoded with the injected client's
// encoder and decoded with the server's decoder; an independent renderer of the live value is the oracle.

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"net"
	"net/http"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/iotest"
	"time"
)

type v4Node struct {
	Val  int
	Next *v4Node
}

func vMain(t *testing.T) {
	vQuiet()
	v := vNew("random Go types and values (reflect-built and named types with unexported fields, boundary scalars/lengths) are encoded by the client encoder and decoded by the server decoder; the decoded tree is compared with an independent reflection rendering of the live value. Non-trivial: distinct (type shape, container length class) combinations")
	r := v.rng("values")
	N := v.n(6000, 150000)
	ids := []uint32{0, 1, 127, 128, 16383, 16384, 1 << 28, math.MaxUint32}
	times := []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 40}
	for i := 0; i < N; i++ {
		nf := 1 + r.Intn(3)
		var snaps []lensMonitorFieldSnapshot
		var exps []*v4Exp
		var desc []string
		for j := 0; j < nf; j++ {
			ty := v4Type(r, 1+r.Intn(4))
			x := reflect.New(ty).Elem()
			budget := 4000
			v4Fill(r, x, 5, &budget)
			name := vPick(r, "x", "ret0", "", "a.b", "héllo", strings.Repeat("n", 130)) + strconv.Itoa(j)
			var val any
			if r.Intn(3) == 0 { // pass by pointer: addressable path
				val = x.Addr().Interface()
			} else {
				val = x.Interface()
			}
			snaps = append(snaps, lensMonitorFieldSnapshot{Name: name, Val: val})
			exps = append(exps, v4Render(name, reflect.ValueOf(val), 0, lensMonitorFieldMaxLen, 100))
			desc = append(desc, ty.String())
		}
		id, ts := ids[r.Intn(len(ids))], times[r.Intn(len(times))]
		st := v4Stack(r, vPick(r, 0, 1, 2, 5, 40))
		var buf bytes.Buffer
		var msg LensMonitorMessagePointState
		var err error
		what := fmt.Sprintf("case %d types %v", i, vShort(strings.Join(desc, "; "), 800))
		if !v.guard("roundtrip", what, 120*time.Second, true, func() {
			lensEncodeMessagePointState(&buf, id, ts, st, snaps)
			var rd = iotest.OneByteReader(bytes.NewReader(buf.Bytes()))
			if i%4 != 0 {
				rd = bytes.NewReader(buf.Bytes())
			}
			br := &v4Left{r: rd}
			msg, err = newLensReader(br, lensMonitorFieldMaxLen).decodeMessagePointState()
			if err == nil && br.n != buf.Len() {
				v.violate("state:trailing", "%s: decoder consumed %d of %d bytes", what, br.n, buf.Len())
			}
		}) {
			continue
		}
		v.eval()
		v.seen(strings.Join(desc, ";"))
		v.observe("state messages round-tripped", 1)
		v.observe("bytes encoded", buf.Len())
		if i < 3 {
			v.sample(map[string]any{"types": vShort(strings.Join(desc, "; "), 300), "bytes": buf.Len()})
		}
		if err != nil {
			v.violate("state:error", "%s: decode error %v", what, err)
			continue
		}
		if msg.PointID != id || msg.TimeNS != ts {
			v.violate("state:header", "%s: id/time %d %d, want %d %d", what, msg.PointID, msg.TimeNS, id, ts)
		}
		if d := v4StackDiff(msg.Stack, st); d != "" {
			v.violate("state:stack", "%s: %s", what, d)
		}
		if len(msg.Fields) != len(exps) {
			v.violate("state:count", "%s: %d fields want %d", what, len(msg.Fields), len(exps))
			continue
		}
		for j := range exps {
			if d := v4Cmp("", msg.Fields[j], exps[j]); d != "" {
				v.violate("state:value", "%s: %s", what, d)
			}
			v.observe("fields compared", 1)
		}
	}

	// every scalar kind at every edge, alone and inside a slice (exhaustive over the edge lists)
	check := func(label string, val any) {
		var buf bytes.Buffer
		v.guard("edge", label, 60*time.Second, true, func() {
			lensEncodeMessagePointState(&buf, 7, 9, nil, []lensMonitorFieldSnapshot{{Name: "x", Val: val}})
			msg, err := newLensReader(&buf, lensMonitorFieldMaxLen).decodeMessagePointState()
			if err != nil {
				v.violate("edge:error", "%s: %v", label, err)
				return
			}
			if len(msg.Fields) != 1 {
				v.violate("edge:count", "%s: %d fields", label, len(msg.Fields))
				return
			}
			if d := v4Cmp("", msg.Fields[0], v4Render("x", reflect.ValueOf(val), 0, lensMonitorFieldMaxLen, 100)); d != "" {
				v.violate("edge:value", "%s: %s", label, d)
			}
		})
		v.eval()
		v.observe("edge scalars compared", 1)
	}
	for _, ty := range v4Scalars {
		for k := 0; k < 64; k++ {
			x := reflect.New(ty).Elem()
			switch ty.Kind() {
			case reflect.Bool:
				x.SetBool(k%2 == 0)
			case reflect.String:
				x.SetString(strings.Repeat("é", k*20))
			case reflect.Float32, reflect.Float64:
				x.SetFloat(v4FloatEdges[k%len(v4FloatEdges)])
			case reflect.Complex64, reflect.Complex128:
				x.SetComplex(complex(v4FloatEdges[k%len(v4FloatEdges)], v4FloatEdges[(k/4)%len(v4FloatEdges)]))
			default:
				if x.CanInt() {
					x.SetInt(int64(1)<<uint(k) - int64(k%2))
				} else {
					x.SetUint(uint64(1)<<uint(k) - uint64(k%2))
				}
			}
			check(ty.String(), x.Interface())
			s := reflect.MakeSlice(reflect.SliceOf(ty), 3, 3)
			s.Index(1).Set(x)
			check("[]"+ty.String(), s.Interface())
			if x.CanInt() {
				x.SetInt(-(int64(1) << uint(k)) - int64(k%2))
				check(ty.String(), x.Interface())
				s.Index(2).Set(x)
				check("[]"+ty.String(), s.Interface())
			}
		}
		// every slice length around the packing and length limits
		for _, n := range []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 129, 1022, 1023, 1024, 1025, 1026, 2048} {
			s := reflect.MakeSlice(reflect.SliceOf(ty), n, n)
			budget := 1 << 20
			for j := 0; j < n; j++ {
				if ty.Kind() == reflect.String {
					s.Index(j).SetString(strconv.Itoa(j))
				} else {
					v4Fill(r, s.Index(j), 1, &budget)
				}
			}
			check(fmt.Sprintf("[]%s len %d", ty, n), s.Interface())
			if n <= 128 {
				a := reflect.New(reflect.ArrayOf(n, ty)).Elem()
				reflect.Copy(a, s)
				check(fmt.Sprintf("[%d]%s", n, ty), a.Interface())
			}
			// maps of that many keys of this kind
			if ty.Kind() != reflect.Bool {
				m := reflect.MakeMap(reflect.MapOf(ty, reflect.TypeOf(0)))
				for j := 0; j < n; j++ {
					k := reflect.New(ty).Elem()
					switch {
					case k.CanInt():
						k.SetInt(int64(j - n/2))
					case k.CanUint():
						k.SetUint(uint64(j))
					case k.CanFloat():
						k.SetFloat(float64(j)/2 - 7)
					case k.CanComplex():
						k.SetComplex(complex(float64(j/3), -float64(j%3)))
					default:
						k.SetString(fmt.Sprintf("%d", j*j))
					}
					m.SetMapIndex(k, reflect.ValueOf(j))
				}
				check(fmt.Sprintf("map[%s]int len %d", ty, n), m.Interface())
			}
		}
	}
	// depth limit: linked structures around the limit
	for _, n := range []int{1, 2, 49, 50, 98, 99, 100, 101, 102, 150, 3000} {
		var head *v4Node
		for j := 0; j < n; j++ {
			head = &v4Node{j, head}
		}
		check(fmt.Sprintf("list %d", n), head)
		var nest any = 1
		for j := 0; j < n; j++ {
			nest = []any{nest}
		}
		check(fmt.Sprintf("nest %d", n), nest)
		var nm any = "leaf"
		for j := 0; j < n; j++ {
			nm = map[string]any{"k": nm}
		}
		check(fmt.Sprintf("mapnest %d", n), nm)
	}
	check("nil", nil)
	// values that look alike but live in different places, or share a start address, must still be told apart
	backing := []int{1, 2, 3, 4, 5}
	type two struct{ A, B []int }
	type emp struct {
		A []int
		B []string
		C map[string]int
		D []int
	}
	type first struct {
		X    [4]int
		S    []int
		P, Q *int
	}
	f := &first{X: [4]int{9, 8, 7, 6}}
	f.S = f.X[:2]
	f.P, f.Q = &f.X[0], &f.X[1]
	check("aliased slices", two{backing[:2], backing[:5]})
	check("empty slices", emp{[]int{}, []string{}, map[string]int{}, []int{}})
	check("slice of own array", f)
	type outer struct {
		In  first
		Ptr *first
	}
	o := outer{}
	check("pointer to zero size", []*struct{}{{}, nil})
	check("outer", o)
	// a shared pointer may be shown as an alias, but the capture of the same value is the same every time
	sp := &v4Impl{a: 3, B: "s"}
	shared := map[string]*v4Impl{"a": sp, "b": sp, "c": sp, "d": {a: 1}}
	var firstDump string
	for k := 0; k < 40; k++ {
		var buf bytes.Buffer
		lensEncodeMessagePointState(&buf, 1, 1, nil, []lensMonitorFieldSnapshot{{Name: "m", Val: shared}})
		msg, err := newLensReader(&buf, lensMonitorFieldMaxLen).decodeMessagePointState()
		if err != nil {
			v.violate("shared:error", "%v", err)
			break
		}
		fv := FieldValues{}
		for _, x := range msg.Fields {
			collectFields(fv, x.Name, x.Value, x.Type, x.Children, "")
		}
		flat := fv.FlattenFieldValues()
		ks := make([]string, 0, len(flat))
		for k := range flat {
			ks = append(ks, fmt.Sprintf("%s=%v", k, flat[k]))
		}
		sort.Strings(ks)
		d := strings.Join(ks, "\n")
		if k == 0 {
			firstDump = d
		} else if d != firstDump {
			v.violate("shared:nondeterministic", "two captures of the same unchanged value differ:\n%s\n--\n%s", firstDump, d)
			break
		}
		v.eval()
	}

	// stacks of every size up to the limit, point, panic and error messages
	for i := 0; i < v.n(1500, 20000); i++ {
		n := r.Intn(60)
		if i%100 == 0 {
			n = vPick(r, 0, 1, 2047, 2048)
		}
		st := v4Stack(r, n)
		id, ts := ids[r.Intn(len(ids))], times[r.Intn(len(times))]
		text := v4String(r, 3000)
		var b1, b2, b3 bytes.Buffer
		v.guard("msg", fmt.Sprintf("message case %d (%d frames)", i, n), 60*time.Second, true, func() {
			lensEncodeMessagePoint(&b1, id, ts, st)
			m1, err := newLensReader(&b1, 16).decodeMessagePoint()
			if err != nil || m1.PointID != id || m1.TimeNS != ts || v4StackDiff(m1.Stack, st) != "" {
				v.violate("point", "frames %d: err %v id %d/%d ts %d/%d %s", n, err, m1.PointID, id, m1.TimeNS, ts, v4StackDiff(m1.Stack, st))
			}
			lensEncodeMessagePointPanic(&b2, id, ts, errors.New(text))
			m2, err := newLensReader(&b2, 16).decodeMessagePointPanic()
			if err != nil || m2.PointID != id || m2.TimeNS != ts || m2.Message != text {
				v.violate("panic", "err %v id %d/%d ts %d/%d text %q want %q", err, m2.PointID, id, m2.TimeNS, ts, vShort(m2.Message, 200), vShort(text, 200))
			}
			lensEncodeMessageError(&b3, id, errors.New(text), st)
			m3, err := newLensReader(&b3, 16).decodeMessageError()
			if err != nil || m3.PointID != id || m3.Message != text || v4StackDiff(m3.Stack, st) != "" {
				v.violate("error", "err %v id %d/%d text %q want %q %s", err, m3.PointID, id, vShort(m3.Message, 200), vShort(text, 200), v4StackDiff(m3.Stack, st))
			}
		})
		v.eval()
		v.observe("stack frames round-tripped", n)
	}

	// over the real HTTP path: what the send functions deliver, including very deep real stacks
	v4HTTP(v)
	v.finish(1000)
}

type v4Left struct {
	r interface{ Read([]byte) (int, error) }
	n int
}

func (l *v4Left) Read(p []byte) (int, error) {
	n, err := l.r.Read(p)
	l.n += n
	return n, err
}

func v4FreePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer func() { _ = l.Close() }()
	return l.Addr().(*net.TCPAddr).Port
}

func v4Recurse(n int, f func()) {
	if n == 0 {
		f()
		return
	}
	v4Recurse(n-1, f)
}

// v4HTTP posts encoded messages to a real server and checks the delivered messages.
func v4HTTP(v *vRun) {
	rec := &v4Rec{}
	port := v4FreePort()
	srv, err := astExecServerStart("127.0.0.1", port, rec, lensMonitorFieldMaxLen)
	if err != nil {
		v.unsure("server start: %v", err)
		return
	}
	base := fmt.Sprintf("http://127.0.0.1:%d", port)
	post := func(path string, b []byte) int {
		resp, err := http.Post(base+path, "application/octet-stream", bytes.NewReader(b))
		if err != nil {
			v.unsure("post: %v", err)
			return 0
		}
		_ = resp.Body.Close()
		return resp.StatusCode
	}
	for _, depth := range []int{0, 1, 100, 2000, 2048, 2100, 6000} {
		var st []lensMonitorStackFrame
		var pcs []uintptr
		v4Recurse(depth, func() {
			st = captureLensMonitorStack(2)
			pcs = make([]uintptr, 3000)
			pcs = pcs[:runtime.Callers(1, pcs)]
		})
		// independent view of the same stack: the captured frames must be a prefix of it (same functions, files)
		fr := runtime.CallersFrames(pcs)
		var own []runtime.Frame
		for {
			f, more := fr.Next()
			own = append(own, f)
			if !more {
				break
			}
		}
		if len(st) < min(len(own), 2000) {
			v.violate("stack:short", "depth %d: captured %d frames of %d", depth, len(st), len(own))
		}
		for i := 1; i < len(st) && i < len(own); i++ {
			if st[i].Function != own[i].Function || st[i].File != own[i].File || st[i].Line != uint(own[i].Line) {
				v.violate("stack:frame", "depth %d frame %d: %+v want %s %s:%d", depth, i, st[i], own[i].Function, own[i].File, own[i].Line)
				break
			}
		}
		var buf bytes.Buffer
		lensEncodeMessagePointState(&buf, uint32(depth), 5, st, []lensMonitorFieldSnapshot{{Name: "d", Val: depth}})
		if c := post(lensMonitorEndpointPathState, buf.Bytes()); c != 200 {
			v.violate("http:state", "state message with %d frames refused with %d", len(st), c)
			continue
		}
		rec.mu.Lock()
		var got *LensMonitorMessagePointState
		for i := range rec.states {
			if rec.states[i].PointID == uint32(depth) {
				got = &rec.states[i]
			}
		}
		rec.mu.Unlock()
		if got == nil {
			v.violate("http:lost", "acknowledged state message not delivered")
		} else if d := v4StackDiff(got.Stack, st); d != "" {
			v.violate("http:stack", "depth %d: %s", depth, d)
		}
		v.eval()
	}
	ctx, cancel := vCtx(20 * time.Second)
	defer cancel()
	_ = srv.Stop(ctx)
}
