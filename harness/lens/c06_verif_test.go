package lens

// C06: the monitor survives any message and stays within its limits. Valid messages, all their truncations, random
// mutations and hostile constructions are fed to the decoders and to the real HTTP server. Oracles: an independent
// decoder written from the wire description (accept/refuse and content), allocation per input byte, process survival
// (hostile sizes run in a child process with a memory limit) and the handler invocations recorded at the server.

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// ---- independent decoder ----

var e6Short = errors.New("short")
var e6Bad = errors.New("bad")
var e6Open = errors.New("open") // nested so deeply that accepting and refusing are both fine

type r6 struct {
	b      []byte
	max    int
	weird  bool // contains something the description leaves open (non-canonical numbers)
	depth  int
	deeper int
}

func (r *r6) u8() byte {
	if len(r.b) == 0 {
		panic(e6Short)
	}
	c := r.b[0]
	r.b = r.b[1:]
	return c
}
func (r *r6) take(n uint64) []byte {
	if uint64(len(r.b)) < n {
		panic(e6Short)
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}
func (r *r6) uv() uint64 {
	var x uint64
	for i := 0; ; i++ {
		c := r.u8()
		if i == 9 {
			if c >= 0x80 {
				panic(e6Bad)
			}
			if c > 1 {
				r.weird = true
			}
		}
		x |= uint64(c&0x7f) << (7 * i)
		if c < 0x80 {
			return x
		}
	}
}
func (r *r6) sv() int64 { u := r.uv(); return int64(u>>1) ^ -int64(u&1) }
func (r *r6) i64() int64 {
	return int64(binary.LittleEndian.Uint64(r.take(8)))
}
func (r *r6) str() string {
	n := r.uv()
	if n > math.MaxUint32 {
		panic(e6Bad)
	}
	return string(r.take(n))
}
func (r *r6) stack() []lensMonitorStackFrame {
	n := r.uv()
	if n > 2048 {
		panic(e6Bad)
	}
	if n == 0 {
		return nil
	}
	tn := r.uv()
	if tn > 2*n {
		panic(e6Bad)
	}
	tab := make([]string, tn)
	for i := range tab {
		tab[i] = r.str()
	}
	out := make([]lensMonitorStackFrame, n)
	for i := range out {
		f := r.uv()
		if f >= tn {
			panic(e6Bad)
		}
		g := r.uv()
		if g >= tn {
			panic(e6Bad)
		}
		out[i] = lensMonitorStackFrame{File: tab[f], Function: tab[g], Line: uint(r.uv())}
	}
	return out
}
func (r *r6) count() int {
	n := r.uv()
	if n > uint64(r.max) {
		panic(e6Bad)
	}
	return int(n)
}
func (r *r6) fields(n uint64) []LensMonitorField {
	r.depth++
	r.deeper = max(r.deeper, r.depth)
	defer func() { r.depth-- }()
	if r.depth > 5000 {
		panic(e6Open)
	}
	var out []LensMonitorField
	for i := uint64(0); i < n; i++ {
		f := LensMonitorField{Name: r.str(), Type: r.str()}
		f.Value, f.Children = r.value()
		out = append(out, f)
	}
	return out
}
func (r *r6) value() (any, []LensMonitorField) {
	switch tag := r.u8(); tag {
	case 0x00:
		return nil, nil
	case 0x01:
		return r.u8() != 0, nil
	case 0x02:
		x := r.sv()
		r.weird = r.weird || x != int64(int32(x))
		return int32(x), nil
	case 0x03:
		return r.sv(), nil
	case 0x04:
		x := r.uv()
		r.weird = r.weird || x > math.MaxUint32
		return uint32(x), nil
	case 0x05:
		return r.uv(), nil
	case 0x06:
		return math.Float32frombits(binary.LittleEndian.Uint32(r.take(4))), nil
	case 0x07:
		return math.Float64frombits(uint64(r.i64())), nil
	case 0x08:
		a := math.Float64frombits(uint64(r.i64()))
		return complex(a, math.Float64frombits(uint64(r.i64()))), nil
	case 0x09:
		return r.str(), nil
	case 0x20:
		n := r.count()
		p := r.take(uint64(n+7) / 8)
		l := make([]bool, n)
		for i := range l {
			l[i] = p[i/8]>>(i%8)&1 == 1
		}
		return l, nil
	case 0x21:
		return append([]byte{}, r.take(uint64(r.count()))...), nil
	case 0x22:
		l := make([]int32, r.count())
		for i := range l {
			x := r.sv()
			r.weird = r.weird || x != int64(int32(x))
			l[i] = int32(x)
		}
		return l, nil
	case 0x23:
		l := make([]int64, r.count())
		for i := range l {
			l[i] = r.sv()
		}
		return l, nil
	case 0x24:
		l := make([]uint32, r.count())
		for i := range l {
			x := r.uv()
			r.weird = r.weird || x > math.MaxUint32
			l[i] = uint32(x)
		}
		return l, nil
	case 0x25:
		l := make([]uint64, r.count())
		for i := range l {
			l[i] = r.uv()
		}
		return l, nil
	case 0x26:
		l := make([]float32, r.count())
		for i := range l {
			l[i] = math.Float32frombits(binary.LittleEndian.Uint32(r.take(4)))
		}
		return l, nil
	case 0x27:
		l := make([]float64, r.count())
		for i := range l {
			l[i] = math.Float64frombits(uint64(r.i64()))
		}
		return l, nil
	case 0x28:
		l := make([]string, r.count())
		for i := range l {
			l[i] = r.str()
		}
		return l, nil
	case 0x40, 0x42:
		return nil, r.fields(uint64(r.count()))
	case 0x41:
		return nil, r.fields(r.uv())
	}
	panic(e6Bad)
}

type m6 struct {
	id     uint64
	ts     int64
	text   string
	stack  []lensMonitorStackFrame
	fields []LensMonitorField
}

const (
	k6Point = iota
	k6State
	k6Panic
	k6Error
)

func d6(kind int, b []byte, maxLen int) (m m6, weird bool, deep int, err error) {
	r := &r6{b: b, max: maxLen}
	defer func() {
		if p := recover(); p != nil {
			e, ok := p.(error)
			if !ok || (e != e6Short && e != e6Bad && e != e6Open) {
				panic(p)
			}
			err = e
			weird, deep = r.weird, r.deeper
		}
	}()
	m.id = r.uv()
	if m.id > math.MaxUint32 {
		r.weird = true
	}
	switch kind {
	case k6Error:
		m.text = r.str()
		m.stack = r.stack()
	case k6Panic:
		m.ts = r.i64()
		m.text = r.str()
	case k6Point:
		m.ts = r.i64()
		m.stack = r.stack()
	case k6State:
		m.ts = r.i64()
		m.stack = r.stack()
		n := r.uv()
		if n > math.MaxUint32 {
			panic(e6Bad)
		}
		m.fields = r.fields(n)
	}
	return m, r.weird, r.deeper, nil
}

// real decodes with the code under test.
func real6(kind int, rd io.Reader, maxLen int) (m m6, err error) {
	lr := newLensReader(rd, maxLen)
	switch kind {
	case k6Point:
		x, e := lr.decodeMessagePoint()
		return m6{uint64(x.PointID), x.TimeNS, "", x.Stack, nil}, e
	case k6State:
		x, e := lr.decodeMessagePointState()
		return m6{uint64(x.PointID), x.TimeNS, "", x.Stack, x.Fields}, e
	case k6Panic:
		x, e := lr.decodeMessagePointPanic()
		return m6{uint64(x.PointID), x.TimeNS, x.Message, nil, nil}, e
	default:
		x, e := lr.decodeMessageError()
		return m6{uint64(x.PointID), 0, x.Message, x.Stack, nil}, e
	}
}

func same6(a, b any) bool {
	av, bv := reflect.ValueOf(a), reflect.ValueOf(b)
	if !av.IsValid() || !bv.IsValid() {
		return av.IsValid() == bv.IsValid()
	}
	if av.Type() != bv.Type() {
		return false
	}
	if av.Kind() == reflect.Slice {
		if av.Len() != bv.Len() {
			return false
		}
		for i := 0; i < av.Len(); i++ {
			if !same6(av.Index(i).Interface(), bv.Index(i).Interface()) {
				return false
			}
		}
		return true
	}
	switch x := a.(type) {
	case float32:
		return math.Float32bits(x) == math.Float32bits(b.(float32))
	case float64:
		return math.Float64bits(x) == math.Float64bits(b.(float64))
	case complex128:
		y := b.(complex128)
		return same6(real(x), real(y)) && same6(imag(x), imag(y))
	}
	return a == b
}

func fields6(a, b []LensMonitorField) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Name != b[i].Name || a[i].Type != b[i].Type || !same6(a[i].Value, b[i].Value) || !fields6(a[i].Children, b[i].Children) {
			return false
		}
	}
	return true
}

func stack6(a, b []lensMonitorStackFrame) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func alloc6() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

var kinds6 = []string{"point", "state", "panic", "error"}

func hex6(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("%x...(%d bytes)", b[:400], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// one6 decodes one input and applies the oracles; measured: also check allocation.
func one6(v *vRun, label string, kind int, in []byte, maxLen int, measured bool) {
	var got m6
	var err error
	var before, after uint64
	if !v.guard("decode", fmt.Sprintf("%s %s message (limit %d): %s", label, kinds6[kind], maxLen, hex6(in)), 180*time.Second, true, func() {
		if measured {
			before = alloc6()
		}
		got, err = real6(kind, bytes.NewReader(in), maxLen)
		if measured {
			after = alloc6()
		}
	}) {
		return
	}
	v.eval()
	if measured {
		// room for what is received, for one pre-sized element list per nesting level and a constant
		bound := uint64(8<<20) + uint64(len(in))*600 + uint64(min(len(in), 12000))*uint64(min(maxLen, 64))*80 + uint64(maxLen)*32
		if after-before > bound {
			v.violate("decode:allocation", "%s %s message of %d bytes (limit %d): %d bytes allocated: %s", label, kinds6[kind], len(in), maxLen, after-before, hex6(in))
		}
		v.observe("allocation measurements", 1)
	}
	want, weird, deep, werr := d6(kind, in, maxLen)
	cls := "ok"
	if werr != nil {
		cls = werr.Error()
	}
	v.observe("decodes of "+kinds6[kind]+": "+cls, 1)
	v.seen(fmt.Sprintf("%s/%s/%s/%d", label, kinds6[kind], cls, len(in)))
	if werr == e6Open {
		return
	}
	if werr != nil {
		if err == nil {
			v.violate("decode:accepted", "%s %s message that is %v was accepted (limit %d): %s", label, kinds6[kind], werr, maxLen, hex6(in))
		}
		return
	}
	if weird || deep > 400 {
		return // the description leaves the outcome open; surviving is enough
	}
	if err != nil {
		v.violate("decode:refused", "%s valid %s message refused (limit %d): %v: %s", label, kinds6[kind], maxLen, err, hex6(in))
		return
	}
	if got.id != want.id || got.ts != want.ts || got.text != want.text || !stack6(got.stack, want.stack) || !fields6(got.fields, want.fields) {
		v.violate("decode:content", "%s %s message decoded to\n%+v\nwant\n%+v\n%s", label, kinds6[kind], got, want, hex6(in))
	}
}

// ---- generators ----

func uv6(b *bytes.Buffer, x uint64) {
	var t [10]byte
	b.Write(t[:binary.PutUvarint(t[:], x)])
}
func str6(b *bytes.Buffer, s string) { uv6(b, uint64(len(s))); b.WriteString(s) }

func val6(r *rand.Rand, b *bytes.Buffer, depth, maxLen int) {
	n := r.Intn(min(maxLen, 12) + 1)
	if r.Intn(40) == 0 {
		n = maxLen
	}
	if r.Intn(60) == 0 {
		n = maxLen + 1
	}
	tags := []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28}
	if depth > 0 && n <= maxLen {
		tags = append(tags, 0x40, 0x41, 0x42, 0x40, 0x41, 0x42)
	}
	if r.Intn(200) == 0 {
		tags = []byte{0x0a, 0x1f, 0x29, 0x43, 0xff, 0x3f}
	}
	t := tags[r.Intn(len(tags))]
	b.WriteByte(t)
	rnd := func(k int) {
		for i := 0; i < k; i++ {
			b.WriteByte(byte(r.Intn(256)))
		}
	}
	switch t {
	case 1:
		b.WriteByte(byte(r.Intn(3)))
	case 2:
		x := int64(int32(r.Uint32()))
		uv6(b, uint64(x<<1)^uint64(x>>63))
	case 4:
		uv6(b, uint64(r.Uint32()))
	case 3, 5:
		uv6(b, r.Uint64()>>uint(r.Intn(64)))
	case 6:
		rnd(4)
	case 7:
		rnd(8)
	case 8:
		rnd(16)
	case 9:
		str6(b, strings.Repeat("é", r.Intn(50)))
	case 0x20:
		uv6(b, uint64(n))
		rnd((n + 7) / 8)
	case 0x21:
		uv6(b, uint64(n))
		rnd(n)
	case 0x22:
		uv6(b, uint64(n))
		for i := 0; i < n; i++ {
			x := int64(int32(r.Uint32()))
			uv6(b, uint64(x<<1)^uint64(x>>63))
		}
	case 0x24:
		uv6(b, uint64(n))
		for i := 0; i < n; i++ {
			uv6(b, uint64(r.Uint32()))
		}
	case 0x23, 0x25:
		uv6(b, uint64(n))
		for i := 0; i < n; i++ {
			uv6(b, r.Uint64()>>uint(r.Intn(64)))
		}
	case 0x26:
		uv6(b, uint64(n))
		rnd(4 * n)
	case 0x27:
		uv6(b, uint64(n))
		rnd(8 * n)
	case 0x28:
		uv6(b, uint64(n))
		for i := 0; i < n; i++ {
			str6(b, strconv.Itoa(i))
		}
	case 0x40, 0x41, 0x42:
		if n > 12 {
			depth = 1
		}
		uv6(b, uint64(n))
		for i := 0; i < n; i++ {
			str6(b, "c"+strconv.Itoa(i))
			str6(b, "T")
			val6(r, b, depth-1, maxLen)
		}
	}
}

func stk6(r *rand.Rand, b *bytes.Buffer) {
	n := r.Intn(6)
	if r.Intn(50) == 0 {
		n = vPick(r, 2047, 2048, 2049)
	}
	uv6(b, uint64(n))
	if n == 0 {
		return
	}
	tn := 1 + r.Intn(2*n)
	if r.Intn(60) == 0 {
		tn = 2*n + 1
	}
	tn = min(tn, 4100)
	uv6(b, uint64(tn))
	for i := 0; i < tn; i++ {
		str6(b, "s"+strconv.Itoa(i))
	}
	for i := 0; i < n; i++ {
		lim := tn
		if r.Intn(300) == 0 {
			lim = tn + 1
		}
		uv6(b, uint64(r.Intn(lim)))
		uv6(b, uint64(r.Intn(lim)))
		uv6(b, uint64(r.Uint32()))
	}
}

func msg6(r *rand.Rand, kind, maxLen int) []byte {
	var b bytes.Buffer
	uv6(&b, uint64(r.Uint32()>>uint(r.Intn(32))))
	ts := func() {
		var t [8]byte
		binary.LittleEndian.PutUint64(t[:], r.Uint64())
		b.Write(t[:])
	}
	switch kind {
	case k6Point:
		ts()
		stk6(r, &b)
	case k6Panic:
		ts()
		str6(&b, strings.Repeat("p", r.Intn(40)))
	case k6Error:
		str6(&b, strings.Repeat("e", r.Intn(40)))
		stk6(r, &b)
	case k6State:
		ts()
		stk6(r, &b)
		n := r.Intn(4)
		uv6(&b, uint64(n))
		for i := 0; i < n; i++ {
			str6(&b, "f"+strconv.Itoa(i))
			str6(&b, "int")
			val6(r, &b, 3, maxLen)
		}
	}
	return b.Bytes()
}

func mutate6(r *rand.Rand, in []byte) []byte {
	b := append([]byte(nil), in...)
	for k := 1 + r.Intn(3); k > 0 && len(b) > 0; k-- {
		i := r.Intn(len(b))
		switch r.Intn(6) {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b[i] ^= 1 << r.Intn(8)
		case 2:
			b = append(b[:i], b[i+1:]...)
		case 3:
			b = append(b[:i], append([]byte{vPick[byte](r, 0, 0xff, 0x80, 0x41, 0x40, 0x7f)}, b[i:]...)...)
		case 4: // a varint of some extreme value
			var t bytes.Buffer
			uv6(&t, vPick[uint64](r, 1<<20, 1<<32-1, 1<<32, 1<<40, 1<<63, math.MaxUint64, 1<<16, 1025, 1024))
			b = append(b[:i], append(t.Bytes(), b[i+1:]...)...)
		case 5:
			j := r.Intn(len(b))
			if i > j {
				i, j = j, i
			}
			b = append(b[:j], append(append([]byte(nil), b[i:j]...), b[j:]...)...)
		}
	}
	return b
}

// hostile inputs whose mishandling can take the whole process down
func hostile6() map[string][]byte {
	h := map[string][]byte{}
	head := func(b *bytes.Buffer) {
		uv6(b, 1)
		b.Write(make([]byte, 8))
		uv6(b, 0)
	}
	for _, n := range []uint64{1 << 16, 1 << 24, 1 << 28, 1<<32 - 1, 1 << 36, 1 << 50, math.MaxUint64} {
		var a, s, st, c bytes.Buffer
		head(&a)
		uv6(&a, n)
		h[fmt.Sprintf("field count %d", n)] = a.Bytes()
		head(&s)
		uv6(&s, 1)
		uv6(&s, n)
		h[fmt.Sprintf("name length %d", n)] = s.Bytes()
		for _, tag := range []byte{0x41, 0x40, 0x42, 0x09, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28} {
			var x bytes.Buffer
			head(&x)
			uv6(&x, 1)
			str6(&x, "n")
			str6(&x, "t")
			x.WriteByte(tag)
			uv6(&x, n)
			h[fmt.Sprintf("tag %#x count %d", tag, n)] = x.Bytes()
		}
		uv6(&st, 1)
		st.Write(make([]byte, 8))
		uv6(&st, n)
		uv6(&st, n)
		h[fmt.Sprintf("stack count %d", n)] = st.Bytes()
		uv6(&c, 1)
		c.Write(make([]byte, 8))
		uv6(&c, 1)
		uv6(&c, n)
		h[fmt.Sprintf("string table %d", n)] = c.Bytes()
	}
	for _, tag := range []byte{0x40, 0x41, 0x42} {
		for _, depth := range []int{500, 100_000, 6_000_000} {
			var x bytes.Buffer
			head(&x)
			uv6(&x, 1)
			for i := 0; i < depth; i++ {
				x.Write([]byte{0, 0, tag, 1})
			}
			x.Write([]byte{0, 0, 0})
			h[fmt.Sprintf("nesting %d of tag %#x", depth, tag)] = x.Bytes()
		}
		var x bytes.Buffer
		head(&x)
		uv6(&x, 1)
		for i := 0; i < 200_000; i++ { // every level claims many children
			x.Write([]byte{0, 0, tag, 0x80, 0x08})
		}
		h[fmt.Sprintf("wide nesting of tag %#x", tag)] = x.Bytes()
	}
	h["endless varint"] = bytes.Repeat([]byte{0xff}, 1<<20)
	h["empty"] = nil
	return h
}

type h6 struct {
	mu  sync.Mutex
	ids map[uint32]int
}

func (h *h6) add(id uint32) {
	h.mu.Lock()
	h.ids[id]++
	h.mu.Unlock()
}
func (h *h6) HandleFuncPoint(m LensMonitorMessagePoint)           { h.add(m.PointID) }
func (h *h6) HandleFuncPointState(m LensMonitorMessagePointState) { h.add(m.PointID) }
func (h *h6) HandleFuncPointPanic(m LensMonitorMessagePointPanic) { h.add(m.PointID) }

func port6() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer func() { _ = l.Close() }()
	return l.Addr().(*net.TCPAddr).Port
}

// http6 mixes valid, malformed and cut-off requests against the real server.
func http6(v *vRun) {
	rec := &h6{ids: map[uint32]int{}}
	port := port6()
	const maxLen = 32
	srv, err := astExecServerStart("127.0.0.1", port, rec, maxLen)
	if err != nil {
		v.unsure("server start: %v", err)
		return
	}
	base := fmt.Sprintf("http://127.0.0.1:%d", port)
	paths := []string{lensMonitorEndpointPathPoint, lensMonitorEndpointPathState, lensMonitorEndpointPathPanic, lensMonitorEndpointPathError}
	type exp struct{ n int }
	expect := map[uint32]int{}
	var emu sync.Mutex
	var wg sync.WaitGroup
	per := v.n(250, 3000)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := v.rng(fmt.Sprintf("http%d", g))
			cl := &http.Client{Transport: &http.Transport{}, Timeout: 120 * time.Second}
			for i := 0; i < per; i++ {
				kind := r.Intn(4)
				id := uint32(g*1_000_000 + i + 1)
				var raw []byte
				for {
					raw = msg6(r, kind, maxLen)
					if _, w, _, e := d6(kind, raw, maxLen); e == nil && !w {
						break
					}
				}
				// replace the id (first varint)
				_, k := binary.Uvarint(raw)
				var b bytes.Buffer
				uv6(&b, uint64(id))
				idLen := b.Len()
				b.Write(raw[k:])
				body := b.Bytes()
				mode := r.Intn(5)
				v.eval()
				switch mode {
				case 0, 1: // valid
					resp, err := cl.Post(base+paths[kind], "application/octet-stream", bytes.NewReader(body))
					if err != nil {
						v.violate("http:valid-failed", "valid %s message: %v", kinds6[kind], err)
						continue
					}
					_, _ = io.Copy(io.Discard, resp.Body)
					_ = resp.Body.Close()
					if resp.StatusCode >= 300 {
						v.violate("http:valid-refused", "valid %s message answered %d: %s", kinds6[kind], resp.StatusCode, hex6(body))
						continue
					}
					if kind != k6Error {
						emu.Lock()
						expect[id]++
						emu.Unlock()
					}
					v.observe("http valid", 1)
				case 2: // truncated at some byte after the id, or over the limits
					cut := body[:idLen+r.Intn(len(body)-idLen)]
					if r.Intn(3) == 0 {
						var x bytes.Buffer
						uv6(&x, uint64(id))
						x.Write(make([]byte, 8))
						uv6(&x, 0)
						uv6(&x, 1)
						str6(&x, "n")
						str6(&x, "t")
						x.WriteByte(vPick[byte](r, 0x40, 0x42, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28))
						uv6(&x, uint64(maxLen+1))
						for j := 0; j < 600; j++ {
							x.WriteByte(0)
						}
						kind, cut = k6State, x.Bytes()
					}
					resp, err := cl.Post(base+paths[kind], "application/octet-stream", bytes.NewReader(cut))
					if err != nil {
						v.violate("http:refusal-failed", "malformed %s message: no answer: %v", kinds6[kind], err)
						continue
					}
					_ = resp.Body.Close()
					if resp.StatusCode < 400 {
						v.violate("http:malformed-accepted", "malformed %s message answered %d: %s", kinds6[kind], resp.StatusCode, hex6(cut))
					}
					v.observe("http malformed", 1)
				case 3: // wrong method
					m := vPick(r, "GET", "PUT", "DELETE", "HEAD", "OPTIONS")
					req, _ := http.NewRequest(m, base+paths[kind], bytes.NewReader(body))
					resp, err := cl.Do(req)
					if err != nil {
						v.violate("http:method-failed", "%s: no answer: %v", m, err)
						continue
					}
					_ = resp.Body.Close()
					if resp.StatusCode < 400 {
						v.violate("http:method-accepted", "%s answered %d", m, resp.StatusCode)
					}
					v.observe("http wrong method", 1)
				case 4: // sender dies in the middle of the body
					c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
					if err != nil {
						v.violate("http:down", "server no longer reachable: %v", err)
						continue
					}
					w := bufio.NewWriter(c)
					fmt.Fprintf(w, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Type: application/octet-stream\r\nContent-Length: %d\r\n\r\n", paths[kind], len(body))
					_, _ = w.Write(body[:idLen+r.Intn(len(body)-idLen)])
					_ = w.Flush()
					_ = c.Close()
					v.observe("http cut off", 1)
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Minute):
		v.unsure("http workload did not finish")
		return
	}
	ctx, cancel := vCtx(60 * time.Second)
	defer cancel()
	if err := srv.Stop(ctx); err != nil {
		v.unsure("server stop: %v", err)
	}
	rec.mu.Lock()
	defer rec.mu.Unlock()
	for id, n := range rec.ids {
		if expect[id] != n {
			v.violate("http:recorded", "point %d handled %d times, acknowledged %d times", id, n, expect[id])
		}
	}
	for id, n := range expect {
		if rec.ids[id] != n {
			v.violate("http:lost", "point %d acknowledged %d times, handled %d times", id, n, rec.ids[id])
		}
	}
}

func vMain(t *testing.T) {
	if c := os.Getenv("VERIF_CHILD"); c != "" {
		in := hostile6()[c]
		for _, m := range []int{1024, 64} {
			for k := range kinds6 {
				_, _ = real6(k, bytes.NewReader(in), m)
			}
		}
		return
	}
	vQuiet()
	debug.SetGCPercent(400)
	v := vNew("valid messages of every kind and tag, every truncation of them, random mutations, and hostile counts/nesting are decoded by the real decoder and by an independent decoder; the real HTTP server gets valid, malformed, wrong-method and cut-off requests concurrently. Non-trivial: distinct (generator, kind, outcome, size)")

	host := hostile6()
	names := make([]string, 0, len(host))
	for n := range host {
		names = append(names, n)
	}
	sort.Strings(names)
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for _, name := range names {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			cmd := exec.Command("/bin/bash", "-c", `ulimit -v 12000000; exec "$0" -test.run '^TestVerif$' -test.timeout 300s`, os.Args[0])
			cmd.Env = append(os.Environ(), "VERIF_CHILD="+name)
			out, err := cmd.CombinedOutput()
			v.eval()
			v.observe("hostile messages in a child process", 1)
			v.seen("hostile " + name)
			if err != nil {
				v.violate("hostile:"+strings.Fields(name)[0], "message with %s: the decoding process died: %v\n%s", name, err, vShort(string(out), 2500))
			}
		}()
	}
	wg.Wait()
	v.sample(names[:3])
	if v.nviol() > 0 {
		v.finish(0)
		return
	}
	for _, name := range names {
		for k := range kinds6 {
			one6(v, "hostile "+name, k, host[name], 1024, true)
		}
	}
	r := v.rng("fuzz")
	for i := 0; i < v.n(4000, 60000); i++ {
		kind := i % 4
		if r.Intn(2) == 0 {
			kind = k6State
		}
		maxLen := vPick(r, 0, 1, 7, 8, 9, 64, 1024)
		in := msg6(r, kind, maxLen)
		one6(v, "generated", kind, in, maxLen, i%10 == 0)
		if i == 0 {
			v.sample(hex6(in))
		}
		for j := 0; j < 5; j++ {
			one6(v, "mutated", kind, mutate6(r, in), maxLen, j == 0 && i%5 == 0)
		}
		// cross-decoding: bytes of one kind given to another decoder
		one6(v, "crossed", (kind+1+r.Intn(3))%4, in, maxLen, false)
		if i%20 == 0 && len(in) < 2500 {
			for c := 0; c < len(in); c++ {
				one6(v, "truncated", kind, in[:c], maxLen, c%50 == 0)
			}
		}
		if i%8 == 0 {
			junk := make([]byte, r.Intn(200))
			_, _ = r.Read(junk)
			one6(v, "junk", kind, junk, maxLen, true)
		}
	}
	http6(v)
	v.finish(5000)
}
