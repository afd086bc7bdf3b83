package lens

// Shared by C04/C05: random Go types and values, and an independent rendering of what the monitor should receive.

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"net"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
	"unsafe"
)

type v4Str string
type v4I8 int8
type v4F float64
type v4Bytes []byte
type v4Byte byte
type v4Ints []int
type v4Strs []v4Str
type v4Map map[v4Str]int16
type v4Fn func(int) int
type v4Ch chan int
type v4Arr [3]v4I8
type v4Iface interface{ M() int }
type v4Impl struct {
	a int
	B string
}

func (v v4Impl) M() int { return v.a }

type v4PImpl struct{ x []uint16 }

func (v *v4PImpl) M() int { return len(v.x) }

type v4Embed struct {
	v4Impl
	*v4PImpl
	Name  string
	inner struct {
		p *int
		q any
		m map[int]string
	}
	e   error
	i   v4Iface
	arr [2]struct{ z complex64 }
	up  uintptr
	fn  func()
	_   int
	b   v4Bytes
}
type v4KeyStruct struct {
	a int
	s string
	f any
}
type v4Stringer int

func (s v4Stringer) String() string { return fmt.Sprintf("S<%d>", int(s)) }

type v4Generic[T any] struct {
	val T
	arr []T
}

var v4Static = []reflect.Type{
	reflect.TypeOf(v4Str("")), reflect.TypeOf(v4I8(0)), reflect.TypeOf(v4F(0)), reflect.TypeOf(v4Bytes(nil)),
	reflect.TypeOf(v4Ints(nil)), reflect.TypeOf(v4Strs(nil)), reflect.TypeOf(v4Map(nil)), reflect.TypeOf(v4Fn(nil)),
	reflect.TypeOf(v4Ch(nil)), reflect.TypeOf(v4Arr{}), reflect.TypeOf((*v4Iface)(nil)).Elem(), reflect.TypeOf(v4Impl{}),
	reflect.TypeOf(&v4PImpl{}), reflect.TypeOf(v4Embed{}), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*any)(nil)).Elem(),
	reflect.TypeOf(v4Generic[int32]{}), reflect.TypeOf(v4Generic[*v4Embed]{}), reflect.TypeOf([]v4Byte(nil)),
	reflect.TypeOf(map[v4KeyStruct]bool(nil)), reflect.TypeOf(map[any]int(nil)), reflect.TypeOf(map[v4Stringer]string(nil)),
	reflect.TypeOf(map[[2]int8]float32(nil)), reflect.TypeOf(map[float64]int(nil)), reflect.TypeOf(map[complex64]int(nil)),
	reflect.TypeOf(map[bool]uint(nil)), reflect.TypeOf(map[uint16][]string(nil)), reflect.TypeOf(time.Duration(0)),
	reflect.TypeOf([0]int{}), reflect.TypeOf(struct{}{}), reflect.TypeOf([5]byte{}), reflect.TypeOf([2][]byte{}),
	reflect.TypeOf([][]int(nil)), reflect.TypeOf([]any(nil)), reflect.TypeOf([]error(nil)), reflect.TypeOf([]*int(nil)),
	reflect.TypeOf([]map[string]int(nil)), reflect.TypeOf([]v4Fn(nil)), reflect.TypeOf([]complex128(nil)), reflect.TypeOf([]uintptr(nil)),
	reflect.TypeOf(unsafe.Pointer(nil)), reflect.TypeOf([]time.Duration(nil)), reflect.TypeOf(bytes.Buffer{}),
}
var v4Scalars = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uintptr(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)), reflect.TypeOf(""),
}

func v4Type(r *rand.Rand, depth int) reflect.Type {
	if depth <= 0 {
		return v4Scalars[r.Intn(len(v4Scalars))]
	}
	switch r.Intn(10) {
	case 0, 1, 2:
		return v4Scalars[r.Intn(len(v4Scalars))]
	case 3, 4:
		return v4Static[r.Intn(len(v4Static))]
	case 5:
		return reflect.SliceOf(v4Type(r, depth-1))
	case 6:
		return reflect.ArrayOf(r.Intn(5), v4Type(r, depth-1))
	case 7:
		kt := v4Scalars[r.Intn(len(v4Scalars))]
		return reflect.MapOf(kt, v4Type(r, depth-1))
	case 8:
		return reflect.PointerTo(v4Type(r, depth-1))
	default:
		n := r.Intn(6)
		fs := make([]reflect.StructField, n)
		for i := range fs {
			fs[i] = reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: v4Type(r, depth-1)}
			if r.Intn(4) == 0 {
				fs[i].Name = fmt.Sprintf("f%d", i)
				fs[i].PkgPath = "lens"
			}
		}
		return reflect.StructOf(fs)
	}
}

func v4Rune(r *rand.Rand) string {
	return vPick(r, "a", "Z", "0", " ", "\n", "\x00", "é", "世", "😀", "\"", "\\", ".", "|", "<cycle:", "\ufffd")
}

func v4String(r *rand.Rand, max int) string {
	var n int
	switch r.Intn(12) {
	case 0:
		n = 0
	case 1:
		n = max
	case 2:
		n = max + 1
	case 3:
		n = max - 1
	case 4:
		n = 127 + r.Intn(3)
	case 5:
		n = max + r.Intn(20000)
	default:
		n = r.Intn(20)
	}
	var b strings.Builder
	for b.Len() < n {
		if r.Intn(40) == 0 {
			b.WriteByte(byte(0x80 + r.Intn(0x80)))
		} else {
			b.WriteString(v4Rune(r))
		}
	}
	s := b.String()
	if len(s) > n && r.Intn(2) == 0 {
		s = s[:n]
	}
	return s
}

var v4IntEdges = []int64{0, 1, -1, 63, 64, -64, -65, 127, 128, -128, -129, 255, 256, 8191, 8192, 16383, 16384, math.MaxInt16, math.MinInt16, math.MaxInt32, math.MinInt32, 1 << 31, 1 << 32, 1<<53 + 1, math.MaxInt64, math.MinInt64}
var v4FloatEdges = []float64{0, math.Copysign(0, -1), 1, -1.5, math.Pi, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, math.Inf(1), math.Inf(-1), math.NaN(), 1e100, 0.1}

func v4Len(r *rand.Rand, budget *int, max int) int {
	switch r.Intn(30) {
	case 0:
		if *budget > 3*max {
			*budget -= max
			return max
		}
	case 1:
		if *budget > 3*max {
			*budget -= max
			return max + 1 + r.Intn(50)
		}
	case 2, 3, 4:
		return 0
	case 5:
		return 7 + r.Intn(12)
	}
	return r.Intn(5)
}

// v4Fill fills v (addressable) with fresh, unshared content.
func v4Fill(r *rand.Rand, v reflect.Value, depth int, budget *int) {
	*budget--
	if !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	t := v.Type()
	if *budget < 0 {
		depth = 0
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if r.Intn(3) > 0 {
			v.SetInt(v4IntEdges[r.Intn(len(v4IntEdges))])
		} else {
			v.SetInt(int64(r.Uint64()))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if r.Intn(3) > 0 {
			v.SetUint(uint64(v4IntEdges[r.Intn(len(v4IntEdges))]))
		} else {
			v.SetUint(r.Uint64())
		}
	case reflect.Float32, reflect.Float64:
		if r.Intn(3) > 0 {
			v.SetFloat(v4FloatEdges[r.Intn(len(v4FloatEdges))])
		} else if t.Kind() == reflect.Float32 {
			v.SetFloat(float64(math.Float32frombits(r.Uint32())))
		} else {
			v.SetFloat(math.Float64frombits(r.Uint64()))
		}
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(v4FloatEdges[r.Intn(len(v4FloatEdges))], float64(float32(r.NormFloat64()))))
	case reflect.String:
		v.SetString(v4String(r, lensMonitorFieldMaxLen))
	case reflect.Slice:
		if r.Intn(8) == 0 || depth <= 0 {
			return
		}
		n := v4Len(r, budget, lensMonitorFieldMaxLen)
		s := reflect.MakeSlice(t, n, n+r.Intn(3))
		if t.Elem().Kind() == reflect.Uint8 && r.Intn(2) == 0 {
			str := v4String(r, lensMonitorFieldMaxLen)
			s = reflect.MakeSlice(t, len(str), len(str))
			for i := 0; i < len(str); i++ {
				s.Index(i).SetUint(uint64(str[i]))
			}
			v.Set(s)
			return
		}
		for i := 0; i < n; i++ {
			v4Fill(r, s.Index(i), depth-1, budget)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			v4Fill(r, v.Index(i), depth-1, budget)
		}
	case reflect.Map:
		if r.Intn(8) == 0 || depth <= 0 {
			return
		}
		n := v4Len(r, budget, lensMonitorFieldMaxLen)
		m := reflect.MakeMap(t)
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			one := 3
			v4Fill(r, k, 1, &one)
			if n > 100 { // make keys distinct enough to exceed the limit
				switch k.Kind() {
				case reflect.Int, reflect.Int16, reflect.Int32, reflect.Int64:
					k.SetInt(int64(i*7 - 300))
				case reflect.String:
					k.SetString(fmt.Sprintf("k%05d", (i*7919)%100000))
				case reflect.Float64, reflect.Float32:
					k.SetFloat(float64(i)*0.5 - 100)
				}
			}
			if v4HasNaN(k) || !v4Hashable(k) {
				continue
			}
			e := reflect.New(t.Elem()).Elem()
			v4Fill(r, e, depth-1, budget)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Pointer:
		if r.Intn(4) == 0 || depth <= 0 {
			return
		}
		p := reflect.New(t.Elem())
		v4Fill(r, p.Elem(), depth-1, budget)
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			v4Fill(r, v.Field(i), depth-1, budget)
		}
	case reflect.Func:
		if r.Intn(2) == 0 {
			x := r.Intn(10)
			v.Set(reflect.MakeFunc(t, func(a []reflect.Value) []reflect.Value { _ = x; return nil }))
		}
	case reflect.Chan:
		if r.Intn(2) == 0 {
			v.Set(reflect.MakeChan(t, r.Intn(3)))
		}
	case reflect.UnsafePointer:
		if r.Intn(2) == 0 {
			v.SetPointer(unsafe.Pointer(new(int64)))
		}
	case reflect.Interface:
		if r.Intn(5) == 0 || depth <= 0 {
			return
		}
		switch {
		case t == reflect.TypeOf((*error)(nil)).Elem():
			v.Set(reflect.ValueOf(vPick[error](r, errors.New(v4String(r, 50)), fmt.Errorf("w: %w", errors.New("in")), &net.OpError{Op: "x"})))
		case t.NumMethod() > 0:
			if r.Intn(2) == 0 {
				v.Set(reflect.ValueOf(v4Impl{a: r.Intn(9), B: "b"}))
			} else {
				v.Set(reflect.ValueOf(&v4PImpl{x: []uint16{1, 2, uint16(r.Intn(1 << 16))}}))
			}
		default:
			et := v4Type(r, depth-1)
			e := reflect.New(et).Elem()
			v4Fill(r, e, depth-1, budget)
			v.Set(e)
		}
	}
}

func v4HasNaN(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		return math.IsNaN(v.Float())
	case reflect.Complex64, reflect.Complex128:
		return v.Complex() != v.Complex()
	case reflect.Interface:
		return !v.IsNil() && v4HasNaN(v.Elem())
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if v4HasNaN(v.Index(i)) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v4HasNaN(v.Field(i)) {
				return true
			}
		}
	}
	return false
}

func v4Hashable(v reflect.Value) bool {
	defer func() { _ = recover() }()
	return v.Comparable()
}

// v4Exp is the oracle's rendering of one live value.
type v4Exp struct {
	name, typ string
	val       any
	children  []*v4Exp
	unordered bool   // children in any order
	alias     *v4Key // the location this value lives at, if it may be replaced by an alias marker
	subset    int    // >0: this many of the (sorted) children are expected
}

type v4Key struct {
	typ reflect.Type
	ptr uintptr
	n   int
}

func v4Limit(s string, max int) string {
	if len(s) <= max {
		return s
	}
	return s[:max] + "…(" + strconv.Itoa(len(s)-max) + " more)"
}

func v4Render(name string, v reflect.Value, depth, maxLen, maxDepth int) *v4Exp {
	e := &v4Exp{name: name}
	if !v.IsValid() {
		e.typ = "invalid"
		return e
	}
	for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
		if v.IsNil() {
			e.typ = v.Type().String()
			return e
		}
		if v.Kind() == reflect.Pointer && v.Type().Elem().Size() == 0 {
			e.alias = &v4Key{v.Type(), v.Pointer(), 0}
		}
		v = v.Elem()
	}
	t := v.Type()
	e.typ = t.String()
	if depth >= maxDepth {
		e.val = "<max-depth>"
		return e
	}
	switch t.Kind() {
	case reflect.Map, reflect.Slice, reflect.Func, reflect.Chan:
		if v.IsNil() {
			return e
		}
	}
	lim := func(n int) int { return min(n, maxLen) }
	switch t.Kind() {
	case reflect.Bool:
		e.val = v.Bool()
	case reflect.Int8, reflect.Int16, reflect.Int32:
		e.val = int32(v.Int())
	case reflect.Int, reflect.Int64:
		e.val = v.Int()
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		e.val = uint32(v.Uint())
	case reflect.Uint, reflect.Uint64, reflect.Uintptr:
		e.val = v.Uint()
	case reflect.Float32:
		e.val = float32(v.Float())
	case reflect.Float64:
		e.val = v.Float()
	case reflect.Complex64, reflect.Complex128:
		e.val = v.Complex()
	case reflect.String:
		e.val = v4Limit(v.String(), maxLen)
	case reflect.Func:
		e.val = "<func>"
		e.alias = &v4Key{t, v.Pointer(), 0}
	case reflect.Chan:
		e.val = "<chan>"
	case reflect.UnsafePointer:
		e.val = fmt.Sprint(unsafe.Pointer(v.Pointer()))
	case reflect.Slice, reflect.Array:
		n := lim(v.Len())
		switch t.Elem().Kind() {
		case reflect.Bool:
			l := make([]bool, n)
			for i := range l {
				l[i] = v.Index(i).Bool()
			}
			e.val = l
		case reflect.Int8, reflect.Int16, reflect.Int32:
			l := make([]int32, n)
			for i := range l {
				l[i] = int32(v.Index(i).Int())
			}
			e.val = l
		case reflect.Int, reflect.Int64:
			l := make([]int64, n)
			for i := range l {
				l[i] = v.Index(i).Int()
			}
			e.val = l
		case reflect.Uint8:
			l := make([]byte, n)
			for i := range l {
				l[i] = byte(v.Index(i).Uint())
			}
			if utf8.Valid(l) {
				e.val = string(l)
			} else {
				e.val = l
			}
		case reflect.Uint16, reflect.Uint32:
			l := make([]uint32, n)
			for i := range l {
				l[i] = uint32(v.Index(i).Uint())
			}
			e.val = l
		case reflect.Uint, reflect.Uint64, reflect.Uintptr:
			l := make([]uint64, n)
			for i := range l {
				l[i] = v.Index(i).Uint()
			}
			e.val = l
		case reflect.Float32:
			l := make([]float32, n)
			for i := range l {
				l[i] = float32(v.Index(i).Float())
			}
			e.val = l
		case reflect.Float64:
			l := make([]float64, n)
			for i := range l {
				l[i] = v.Index(i).Float()
			}
			e.val = l
		case reflect.String:
			l := make([]string, n)
			for i := range l {
				l[i] = v4Limit(v.Index(i).String(), maxLen)
			}
			e.val = l
		default:
			for i := 0; i < n; i++ {
				e.children = append(e.children, v4Render("["+strconv.Itoa(i)+"]", v.Index(i), depth+1, maxLen, maxDepth))
			}
		}
	case reflect.Map:
		keys := v.MapKeys()
		if len(keys) > maxLen {
			sort.SliceStable(keys, func(i, j int) bool { return v4KeyLess(keys[i], keys[j]) })
			keys = keys[:maxLen]
		}
		e.unordered = true
		for _, k := range keys {
			e.children = append(e.children, v4Render(fmt.Sprint(k.Interface()), v.MapIndex(k), depth+1, maxLen, maxDepth))
		}
	case reflect.Struct:
		if !v.CanAddr() {
			c := reflect.New(t).Elem()
			c.Set(v)
			v = c
		}
		for i := 0; i < v.NumField(); i++ {
			f := reflect.NewAt(t.Field(i).Type, unsafe.Pointer(v.Field(i).UnsafeAddr())).Elem()
			e.children = append(e.children, v4Render(t.Field(i).Name, f, depth+1, maxLen, maxDepth))
		}
	}
	return e
}

// v4KeyLess is the natural order of the scalar keys used for over-limit maps.
func v4KeyLess(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	case reflect.Complex64, reflect.Complex128:
		x, y := a.Complex(), b.Complex()
		if real(x) != real(y) {
			return real(x) < real(y)
		}
		return imag(x) < imag(y)
	case reflect.String:
		return a.String() < b.String()
	}
	return false
}

func v4SameScalar(a, b any) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	switch x := a.(type) {
	case float32:
		return math.Float32bits(x) == math.Float32bits(b.(float32))
	case float64:
		return math.Float64bits(x) == math.Float64bits(b.(float64))
	case complex128:
		y := b.(complex128)
		return v4SameScalar(real(x), real(y)) && v4SameScalar(imag(x), imag(y))
	case []float32:
		y := b.([]float32)
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if !v4SameScalar(x[i], y[i]) {
				return false
			}
		}
		return true
	case []float64:
		y := b.([]float64)
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if !v4SameScalar(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	av := reflect.ValueOf(a)
	if av.IsValid() && av.Kind() == reflect.Slice {
		bv := reflect.ValueOf(b)
		if av.Len() == 0 && bv.Len() == 0 {
			return true
		}
	}
	return reflect.DeepEqual(a, b)
}

// v4Cmp compares the decoded field with the oracle; returns a description of the first difference.
func v4Cmp(path string, f LensMonitorField, e *v4Exp) string {
	path += "/" + vShort(f.Name, 40)
	if f.Name != e.name {
		return fmt.Sprintf("%s: name %q, want %q", path, vShort(f.Name, 60), vShort(e.name, 60))
	}
	if m, ok := f.Value.(string); ok && e.alias != nil && strings.HasPrefix(m, "<cycle:") && len(f.Children) == 0 {
		return "" // same storage location as a value shown before
	}
	if f.Type != e.typ {
		return fmt.Sprintf("%s: type %q, want %q (value %v)", path, f.Type, e.typ, vShort(fmt.Sprint(f.Value), 200))
	}
	if !v4SameScalar(f.Value, e.val) {
		return fmt.Sprintf("%s: value %T %q, want %T %q", path, f.Value, vShort(fmt.Sprint(f.Value), 300), e.val, vShort(fmt.Sprint(e.val), 300))
	}
	if len(f.Children) != len(e.children) {
		return fmt.Sprintf("%s: %d children, want %d", path, len(f.Children), len(e.children))
	}
	if !e.unordered {
		for i := range f.Children {
			if d := v4Cmp(path, f.Children[i], e.children[i]); d != "" {
				return d
			}
		}
		return ""
	}
	used := make([]bool, len(e.children))
	byName := map[string][]int{}
	for i, c := range e.children {
		byName[c.name] = append(byName[c.name], i)
	}
	for _, c := range f.Children {
		var last string
		ok := false
		for _, i := range byName[c.Name] {
			if used[i] {
				continue
			}
			if last = v4Cmp(path, c, e.children[i]); last == "" {
				used[i], ok = true, true
				break
			}
		}
		if !ok {
			if last == "" {
				last = fmt.Sprintf("%s: unexpected map entry %q", path, vShort(c.Name, 60))
			}
			return last
		}
	}
	return ""
}

func v4Stack(r *rand.Rand, n int) []lensMonitorStackFrame {
	st := make([]lensMonitorStackFrame, n)
	for i := range st {
		st[i] = lensMonitorStackFrame{
			File:     vPick(r, "/a/b.go", "/a/c.go", "", "/w x/ü.go", strings.Repeat("/d", 90)+".go", fmt.Sprintf("/gen/%d.go", r.Intn(2000))),
			Function: vPick(r, "main.main", "a/b.(*T[...]).F", "", "/a/b.go", fmt.Sprintf("p.f%d.func%d", r.Intn(1000), i)),
			Line:     uint(vPick(r, 0, 1, 127, 128, 16384, r.Intn(1<<30), math.MaxUint32)),
		}
	}
	if n == 0 {
		return nil
	}
	return st
}

func v4StackDiff(a, b []lensMonitorStackFrame) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d frames, want %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("frame %d: %+v want %+v", i, a[i], b[i])
		}
	}
	return ""
}

type v4Rec struct {
	mu     sync.Mutex
	points []LensMonitorMessagePoint
	states []LensMonitorMessagePointState
	panics []LensMonitorMessagePointPanic
}

func (h *v4Rec) HandleFuncPoint(m LensMonitorMessagePoint) {
	h.mu.Lock()
	h.points = append(h.points, m)
	h.mu.Unlock()
}
func (h *v4Rec) HandleFuncPointState(m LensMonitorMessagePointState) {
	h.mu.Lock()
	h.states = append(h.states, m)
	h.mu.Unlock()
}
func (h *v4Rec) HandleFuncPointPanic(m LensMonitorMessagePointPanic) {
	h.mu.Lock()
	h.panics = append(h.panics, m)
	h.mu.Unlock()
}
