package lens

// C18: the whole analysis, judged by its written report, on projects and updates whose observable effect is known by
// construction. Each cell contributes changed dependency functions (old and new text), project functions, one test and
// what the report has to say about that test. Cells are mixed into one project and one update.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

type cell18 struct {
	name string
	old  string // dependency code, $ is the cell number
	new  string // "" : same as old except that the package's other cells change
	mid  string // code of a second module between project and dependency (package mid)
	proj string
	test string
	aux  string // package level code of the test file
	// expectations
	callers  map[string][]string // project function -> texts one of its reported field differences must contain
	zero     bool                // no difference at all
	minDiff  int
	regress  bool
	baseFail bool
	hit      []string // changed functions which the test executes (old version)
	nohit    []string // changed functions no test executes
}

func cells18() []cell18 {
	return []cell18{
		{name: "return-value",
			old:  "func Ret$(a int) int { return a * 2 }\n",
			new:  "func Ret$(a int) int { return a*2 + 1 }\n",
			proj: "func CallRet$(a int) int {\n\tr := dep.Ret$(a)\n\treturn r + 5\n}\n",
			test: "\tCallRet$(10)\n", callers: map[string][]string{"CallRet$": {"25", "26"}}, hit: []string{"Ret$"}},
		{name: "refactoring-only",
			old:  "func Same$(a int) int { s := 0; for i := 0; i < a; i++ { s += i }; return s }\n",
			new:  "func Same$(a int) int { if a < 1 { return 0 }; return a * (a - 1) / 2 }\n",
			proj: "func CallSame$(a int) (string, int) {\n\tr := dep.Same$(a)\n\treturn \"x\", r\n}\n",
			test: "\tfor i := -2; i < 9; i++ {\n\t\tCallSame$(i)\n\t}\n", zero: true, hit: []string{"Same$"}},
		{name: "local-only",
			old:  "func Loc$(a int) int { return a }\n",
			new:  "func Loc$(a int) int { return a + 100 }\n",
			proj: "func CallLoc$(a int) bool {\n\tseen := dep.Loc$(a)\n\tif seen < 0 {\n\t\treturn false\n\t}\n\treturn true\n}\n",
			test: "\tif !CallLoc$(7) {\n\t\tt.Fatal()\n\t}\n", callers: map[string][]string{"CallLoc$": {"107"}}, hit: []string{"Loc$"}},
		{name: "nested-leaf",
			old:  "type In$ struct{ A int; B []string; M map[string]float64 }\ntype Out$ struct{ In In$; P *In$; Tag string }\nfunc Nest$(s string) Out$ {\n\treturn Out${In: In${A: 1, B: []string{s, \"b\"}, M: map[string]float64{\"k\": 1.5, \"l\": 2}}, P: &In${A: 3}, Tag: s}\n}\n",
			new:  "type In$ struct{ A int; B []string; M map[string]float64 }\ntype Out$ struct{ In In$; P *In$; Tag string }\nfunc Nest$(s string) Out$ {\n\treturn Out${In: In${A: 1, B: []string{s, \"b\"}, M: map[string]float64{\"k\": 1.5, \"l\": 2}}, P: &In${A: 4}, Tag: s}\n}\n",
			proj: "func CallNest$(s string) dep.Out$ {\n\tout := dep.Nest$(s)\n\treturn out\n}\n",
			test: "\tCallNest$(\"in\")\n", callers: map[string][]string{"CallNest$": {"3", "4"}}, hit: []string{"Nest$"}},
		{name: "map-value",
			old:  "func MapV$(n int) map[string]int {\n\tm := map[string]int{}\n\tfor i := 0; i < n; i++ {\n\t\tm[string(rune('a'+i))] = i\n\t}\n\treturn m\n}\n",
			new:  "func MapV$(n int) map[string]int {\n\tm := map[string]int{}\n\tfor i := 0; i < n; i++ {\n\t\tm[string(rune('a'+i))] = i\n\t}\n\tm[\"c\"] = 77\n\treturn m\n}\n",
			proj: "func CallMapV$(n int) int {\n\tm := dep.MapV$(n)\n\treturn len(m)\n}\n",
			test: "\tCallMapV$(6)\n", callers: map[string][]string{"CallMapV$": {"77"}}, hit: []string{"MapV$"}},
		{name: "map-order-noise",
			old:  "func MapO$(n int) map[int]string {\n\tm := map[int]string{}\n\tfor i := 0; i < n; i++ {\n\t\tm[i] = \"v\"\n\t}\n\treturn m\n}\n",
			new:  "func MapO$(n int) map[int]string {\n\tm := make(map[int]string, n)\n\tfor i := n - 1; i >= 0; i-- {\n\t\tm[i] = \"v\"\n\t}\n\treturn m\n}\n",
			proj: "func CallMapO$(n int) (sum int) {\n\tm := dep.MapO$(n)\n\tfor k := range m {\n\t\tsum += k\n\t}\n\treturn\n}\n",
			test: "\tCallMapO$(20)\n", zero: true, hit: []string{"MapO$"}},
		{name: "random-noise-same",
			old:  "func Rnd$(a int64) (int64, int64) { return a, rand.Int63() }\n",
			new:  "func Rnd$(a int64) (int64, int64) { x := rand.Int63(); return a, x ^ 1 }\n",
			proj: "func CallRnd$(a int64) (int64, int64) {\n\tx, y := dep.Rnd$(a)\n\tz := rand.Int63()\n\t_ = z\n\treturn x, y\n}\n",
			test: "\tCallRnd$(3)\n", zero: true, hit: []string{"Rnd$"}},
		{name: "random-noise-change",
			old:  "type R$ struct{ Id int64; V int; L []int64 }\nfunc RndC$(a int) R$ { return R${Id: rand.Int63(), V: a, L: []int64{1, rand.Int63()}} }\n",
			new:  "type R$ struct{ Id int64; V int; L []int64 }\nfunc RndC$(a int) R$ { return R${Id: rand.Int63(), V: a * 11, L: []int64{1, rand.Int63()}} }\n",
			proj: "func CallRndC$(a int) dep.R$ {\n\tres := dep.RndC$(a)\n\treturn res\n}\n",
			test: "\tCallRndC$(4)\n", callers: map[string][]string{"CallRndC$": {"44"}}, hit: []string{"RndC$"}},
		{name: "time-noise",
			old:  "func Tim$(a int) (int, time.Time) { return a, time.Now() }\n",
			new:  "func Tim$(a int) (int, time.Time) { n := time.Now(); return a, n }\n",
			proj: "func CallTim$(a int) int {\n\tv, at := dep.Tim$(a)\n\td := time.Since(at)\n\tif d < 0 {\n\t\treturn -1\n\t}\n\treturn v\n}\n",
			test: "\tfor i := 0; i < 3; i++ {\n\t\tCallTim$(i)\n\t\ttime.Sleep(3 * time.Millisecond)\n\t}\n", zero: true, hit: []string{"Tim$"}},
		{name: "concurrent-same",
			old:  "func Con$(a int) int { return a + 1 }\n",
			new:  "func Con$(a int) int { b := a; b++; return b }\n",
			proj: "func CallCon$(a int) int {\n\treturn dep.Con$(a)\n}\nfunc Fan$(n int) int {\n\tvar wg sync.WaitGroup\n\tvar total atomic.Int64\n\tfor i := 0; i < n; i++ {\n\t\twg.Add(1)\n\t\tgo func() {\n\t\t\tdefer wg.Done()\n\t\t\ttotal.Add(int64(CallCon$(5)))\n\t\t}()\n\t}\n\twg.Wait()\n\treturn int(total.Load())\n}\n",
			test: "\tFan$(16)\n", zero: true, hit: []string{"Con$"}},
		{name: "concurrent-change",
			old:  "func Coc$(a int) int { return a + 1 }\n",
			new:  "func Coc$(a int) int { return a + 2 }\n",
			proj: "func CallCoc$(a int) int {\n\treturn dep.Coc$(a)\n}\nfunc Fac$(n int) int {\n\tvar wg sync.WaitGroup\n\tfor i := 0; i < n; i++ {\n\t\twg.Add(1)\n\t\tgo func() {\n\t\t\tdefer wg.Done()\n\t\t\tCallCoc$(40)\n\t\t}()\n\t}\n\twg.Wait()\n\treturn n\n}\n",
			test: "\tFac$(12)\n", callers: map[string][]string{"CallCoc$": {"41", "42"}}, minDiff: 12, hit: []string{"Coc$"}},
		{name: "third-call-only",
			old:  "func Nth$(i int) string { return \"ok\" }\n",
			new:  "func Nth$(i int) string { if i == 3 { return \"BAD\" }; return \"ok\" }\n",
			proj: "func CallNth$(i int) string {\n\treturn dep.Nth$(i)\n}\n",
			test: "\tfor i := 0; i < 6; i++ {\n\t\tCallNth$(i)\n\t}\n", callers: map[string][]string{"CallNth$": {"BAD"}}, hit: []string{"Nth$"}},
		{name: "fewer-calls",
			old:  "func Few$() int { return 5 }\n",
			new:  "func Few$() int { return 3 }\n",
			proj: "func Step$(i int) int {\n\tif i < 0 {\n\t\treturn dep.Few$()\n\t}\n\treturn i\n}\nfunc LoopFew$() {\n\tfor i := 0; i < dep.Few$(); i++ {\n\t\tStep$(i)\n\t}\n}\n",
			test: "\tLoopFew$()\n", minDiff: 2, hit: []string{"Few$"}},
		{name: "panic-added",
			old:  "func Pan$(a int) int { return 10 / (a + 1) }\n",
			new:  "func Pan$(a int) int { if a == 4 { panic(\"dep says no\") }; return 10 / (a + 1) }\n",
			proj: "func CallPan$(a int) int {\n\treturn dep.Pan$(a)\n}\nfunc SafePan$(a int) (ok bool) {\n\tdefer func() {\n\t\tif recover() != nil {\n\t\t\tok = false\n\t\t}\n\t}()\n\tCallPan$(a)\n\treturn true\n}\n",
			test: "\tSafePan$(4)\n", minDiff: 2, hit: []string{"Pan$"}},
		{name: "panic-removed",
			old:  "func Par$(a int) int { if a == 4 { panic(\"dep says no\") }; return 1 }\n",
			new:  "func Par$(a int) int { return 1 }\n",
			proj: "func CallPar$(a int) int {\n\treturn dep.Par$(a)\n}\nfunc SafePar$(a int) (ok bool) {\n\tdefer func() {\n\t\tif recover() != nil {\n\t\t\tok = false\n\t\t}\n\t}()\n\tCallPar$(a)\n\treturn true\n}\n",
			test: "\tSafePar$(4)\n", minDiff: 1, hit: []string{"Par$"}},
		{name: "panic-text",
			old:  "func Pat$(a int) int { if a > 0 { panic(fmt.Errorf(\"old text %d\", a)) }; return 1 }\n",
			new:  "func Pat$(a int) int { if a > 0 { panic(fmt.Errorf(\"new text %d\", a)) }; return 1 }\n",
			proj: "func CallPat$(a int) int {\n\tif a == 0 {\n\t\treturn 0\n\t}\n\treturn dep.Pat$(a)\n}\n",
			test: "\tfunc() {\n\t\tdefer func() { recover() }()\n\t\tCallPat$(4)\n\t}()\n", minDiff: 2, hit: []string{"Pat$"}},
		{name: "panic-same",
			old:  "func Pas$(a int) int { if a > 0 { panic(\"always\") }; return 1 }\n",
			new:  "func Pas$(a int) int { if a >= 1 { panic(\"always\") }; return 1 }\n",
			proj: "func CallPas$(a int) int {\n\tif a == 0 {\n\t\treturn 0\n\t}\n\treturn dep.Pas$(a)\n}\n",
			test: "\tfunc() {\n\t\tdefer func() { recover() }()\n\t\tCallPas$(4)\n\t}()\n", zero: true, hit: []string{"Pas$"}},
		{name: "panic-recovered-inside-same",
			old:  "func deepRec$(a int) int { if a > 2 { panic(a) }; return a }\nfunc Rec$(a int) (r int) {\n\tdefer func() {\n\t\tif e := recover(); e != nil {\n\t\t\tr = e.(int)\n\t\t}\n\t}()\n\treturn deepRec$(a)\n}\n",
			new:  "func deepRec$(a int) int { if a >= 3 { panic(a) }; return a }\nfunc Rec$(a int) (r int) {\n\tdefer func() {\n\t\tif e := recover(); e != nil {\n\t\t\tr = e.(int)\n\t\t}\n\t}()\n\treturn deepRec$(a)\n}\n",
			proj: "func CallRec$(a int) int {\n\treturn dep.Rec$(a)\n}\n",
			test: "\tCallRec$(1)\n\tCallRec$(9)\n", zero: true, hit: []string{"deepRec$"}},
		{name: "regression",
			old:  "func Reg$(a string) string { return strings.TrimSpace(a) }\n",
			new:  "func Reg$(a string) string { return strings.TrimLeft(a, \" \") }\n",
			proj: "func CallReg$(a string) string {\n\treturn dep.Reg$(a)\n}\n",
			test: "\tif CallReg$(\" a \") != \"a\" {\n\t\tt.Error(\"not trimmed\")\n\t}\n", callers: map[string][]string{"CallReg$": {"a"}}, regress: true, hit: []string{"Reg$"}},
		{name: "regression-by-panic",
			old:  "func Rep$(a []int) int { if len(a) > 3 { return a[3] }; return 0 }\n",
			new:  "func Rep$(a []int) int { return a[3] }\n",
			proj: "func CallRep$(a []int) int {\n\treturn dep.Rep$(a)\n}\n",
			test: "\tCallRep$([]int{1})\n", minDiff: 1, regress: true, hit: []string{"Rep$"}},
		{name: "baseline-failure",
			old:  "func Bas$(a int) int { return a }\n",
			new:  "func Bas$(a int) int { b := a; return b }\n",
			proj: "func CallBas$(a int) int {\n\treturn dep.Bas$(a)\n}\n",
			test: "\tif CallBas$(1) == 1 {\n\t\tt.Error(\"fails before and after\")\n\t}\n", zero: true, baseFail: true, hit: []string{"Bas$"}},
		{name: "repaired-test",
			old:  "func Fix$(a int) int { return a + 1 }\n",
			new:  "func Fix$(a int) int { return a }\n",
			proj: "func CallFix$(a int) int {\n\treturn dep.Fix$(a)\n}\n",
			test: "\tif CallFix$(60) != 60 {\n\t\tt.Error(\"fails before only\")\n\t}\n", callers: map[string][]string{"CallFix$": {"60", "61"}}, baseFail: true, hit: []string{"Fix$"}},
		{name: "not-executed",
			old:  "func Off$(a int) int { return a }\n",
			new:  "func Off$(a int) int { return a + 9 }\n",
			proj: "func CallOff$(a int) int {\n\tif a > 1000 {\n\t\treturn dep.Off$(a)\n\t}\n\treturn a\n}\n",
			test: "\tCallOff$(5)\n", zero: true, nohit: []string{"Off$"}},
		{name: "error-appears",
			old:  "func Err$(a int) (int, error) { return a, nil }\n",
			new:  "func Err$(a int) (int, error) { if a == 8 { return a, errors.New(\"eight\") }; return a, nil }\n",
			proj: "func CallErr$(a int) (n int, err error) {\n\tn, err = dep.Err$(a)\n\tif err != nil {\n\t\treturn n, fmt.Errorf(\"wrapped: %w\", err)\n\t}\n\treturn n, nil\n}\n",
			test: "\t_, _ = CallErr$(8)\n", minDiff: 1, hit: []string{"Err$"}},
		{name: "error-text",
			old:  "func Ert$(a int) error { return fmt.Errorf(\"old %d\", a) }\n",
			new:  "func Ert$(a int) error { return fmt.Errorf(\"new %d\", a) }\n",
			proj: "func CallErt$(a int) error {\n\tif err := dep.Ert$(a); err != nil {\n\t\treturn err\n\t}\n\treturn nil\n}\n",
			test: "\t_ = CallErt$(8)\n", callers: map[string][]string{"CallErt$": {"old 8", "new 8"}}, hit: []string{"Ert$"}},
		{name: "method-and-pointer-state",
			old:  "type Acc$ struct{ N int; Hist []int }\nfunc (a *Acc$) Add(n int) { a.N += n; a.Hist = append(a.Hist, n) }\n",
			new:  "type Acc$ struct{ N int; Hist []int }\nfunc (a *Acc$) Add(n int) { a.N += n; a.Hist = append(a.Hist, -n) }\n",
			proj: "func CallAcc$() *dep.Acc$ {\n\tacc := &dep.Acc${}\n\tfor i := 1; i < 4; i++ {\n\t\tacc.Add(i)\n\t}\n\treturn acc\n}\n",
			test: "\tCallAcc$()\n", callers: map[string][]string{"CallAcc$": {"-1"}}, hit: []string{"*Acc$.Add"}},
		{name: "interface-dispatch",
			old:  "type Sh$ interface{ Area() float64 }\ntype Sq$ struct{ S float64 }\nfunc (s Sq$) Area() float64 { return s.S * s.S }\nfunc NewSq$(s float64) Sh$ { return Sq${s} }\n",
			new:  "type Sh$ interface{ Area() float64 }\ntype Sq$ struct{ S float64 }\nfunc (s Sq$) Area() float64 { return s.S * s.S * 2 }\nfunc NewSq$(s float64) Sh$ { return Sq${s} }\n",
			proj: "func CallSq$(s float64) float64 {\n\tsh := dep.NewSq$(s)\n\treturn sh.Area()\n}\n",
			test: "\tCallSq$(1.5)\n", callers: map[string][]string{"CallSq$": {"2.25", "4.5"}}, hit: []string{"Sq$.Area"}},
		{name: "callback",
			old:  "func Each$(n int, f func(int)) { for i := 0; i < n; i++ { f(i) } }\n",
			new:  "func Each$(n int, f func(int)) { for i := n - 1; i >= 0; i-- { f(i) } }\n",
			proj: "func CallEach$(n int) string {\n\tvar sb strings.Builder\n\tdep.Each$(n, func(i int) { fmt.Fprint(&sb, i) })\n\ts := sb.String()\n\treturn s\n}\n",
			test: "\tCallEach$(4)\n", callers: map[string][]string{"CallEach$": {"0123", "3210"}}, hit: []string{"Each$"}},
		{name: "generic",
			old:  "func Gen$[T any](l []T, n int) []T { if n > len(l) { n = len(l) }; return l[:n] }\n",
			new:  "func Gen$[T any](l []T, n int) []T { if n > len(l) { n = len(l) }; return l[len(l)-n:] }\n",
			proj: "func CallGen$[T any](l []T) T {\n\tout := dep.Gen$(l, 1)\n\treturn out[0]\n}\n",
			test: "\tCallGen$([]string{\"first\", \"last\"})\n", callers: map[string][]string{"CallGen$": {"first", "last"}}, hit: []string{"Gen$"}},
		{name: "recursion",
			old:  "func Leaf$(d int) int { return 1 }\n",
			new:  "func Leaf$(d int) int { return 2 }\n",
			proj: "func Tree$(d int) int {\n\tif d == 0 {\n\t\treturn dep.Leaf$(d)\n\t}\n\treturn Tree$(d-1) + Tree$(d-1)\n}\n",
			test: "\tTree$(3)\n", callers: map[string][]string{"Tree$": {"8", "16"}}, minDiff: 15, hit: []string{"Leaf$"}},
		{name: "subtests",
			old:  "func Sub$(s string) string { return strings.ToUpper(s) }\n",
			new:  "func Sub$(s string) string { if s == \"b\" { return \"b!\" }; return strings.ToUpper(s) }\n",
			proj: "func CallSub$(s string) string {\n\treturn dep.Sub$(s)\n}\n",
			test: "\tfor _, s := range []string{\"a\", \"b\", \"c\"} {\n\t\tt.Run(s, func(t *testing.T) {\n\t\t\tif CallSub$(s) != strings.ToUpper(s) {\n\t\t\t\tt.Error(s)\n\t\t\t}\n\t\t})\n\t}\n",
			callers: map[string][]string{"CallSub$": {"b!"}}, regress: true, hit: []string{"Sub$"}},
		{name: "parallel-subtests-same",
			old:  "func Psu$(s string) int { return len(s) }\n",
			new:  "func Psu$(s string) int { n := 0; for range []byte(s) { n++ }; return n }\n",
			proj: "func CallPsu$(s string) int {\n\treturn dep.Psu$(s)\n}\n",
			test: "\tt.Parallel()\n\tfor i := 0; i < 6; i++ {\n\t\tt.Run(\"s\", func(t *testing.T) {\n\t\t\tt.Parallel()\n\t\t\tCallPsu$(\"same\")\n\t\t})\n\t}\n",
			zero: true, hit: []string{"Psu$"}},
		{name: "large-bytes",
			old:  "func Big$(n int) []byte { b := make([]byte, n); b[n-1] = 1; return b }\n",
			new:  "func Big$(n int) []byte { b := make([]byte, n); b[n-1] = 2; return b }\n",
			proj: "func CallBig$(n int) []byte {\n\tb := dep.Big$(n)\n\treturn b\n}\n",
			test: "\tCallBig$(600)\n", callers: map[string][]string{"CallBig$": {""}}, hit: []string{"Big$"}},
		{name: "goroutine-in-dependency",
			old:  "func work$(c chan int, a int) { c <- a }\nfunc Gor$(a int) int { c := make(chan int); go work$(c, a); return <-c }\n",
			new:  "func work$(c chan int, a int) { c <- a * 3 }\nfunc Gor$(a int) int { c := make(chan int); go work$(c, a); return <-c }\n",
			proj: "func CallGor$(a int) int {\n\treturn dep.Gor$(a)\n}\n",
			test: "\tCallGor$(11)\n", callers: map[string][]string{"CallGor$": {"11", "33"}}, hit: []string{"work$"}},
		{name: "through-middle-module",
			old:  "func Low$(a int) int { return a }\n",
			new:  "func Low$(a int) int { return a + 500 }\n",
			mid:  "func Mid$(a int) int { return dep.Low$(a) * 2 }\n",
			proj: "func CallMid$(a int) int {\n\treturn mid.Mid$(a)\n}\n",
			test: "\tCallMid$(1)\n", callers: map[string][]string{"CallMid$": {"1002"}}, hit: []string{"Low$"}},
		{name: "shared-helper-chain",
			old:  "func base$(a int) int { return a }\nfunc Ch$(a int) int { return base$(a) }\n",
			new:  "func base$(a int) int { return a - 1 }\nfunc Ch$(a int) int { return base$(a) }\n",
			proj: "type svc$ struct{ n int }\nfunc (s *svc$) run(a int) int {\n\ts.n = dep.Ch$(a)\n\treturn s.n\n}\nfunc Top$(a int) int {\n\ts := &svc${}\n\tif v := s.run(a); v > 0 {\n\t\treturn v\n\t}\n\treturn -1\n}\n",
			test: "\tTop$(30)\n", callers: map[string][]string{"Top$": {"30", "29"}, "*svc$.run": {"30", "29"}}, hit: []string{"base$"}},
		{name: "flaky-absent-call",
			old:  "func Fla$(a int) int { return a }\n",
			new:  "func Fla$(a int) int { c := a; return c }\n",
			proj: "func CallFla$(a int64) int {\n\treturn dep.Fla$(int(a))\n}\n",
			test: "\tCallFla$(rand.Int63())\n\tfor i := int64(0); i < time.Now().UnixNano()%5; i++ {\n\t\tCallFla$(rand.Int63())\n\t}\n", zero: true, hit: []string{"Fla$"}},
		{name: "multiline-and-unicode",
			old:  "func Uni$(n int) string { return strings.Repeat(\"é\\n\", n) }\n",
			new:  "func Uni$(n int) string { return strings.Repeat(\"è\\n\", n) }\n",
			proj: "func CallUni$(n int) string {\n\treturn dep.Uni$(n)\n}\n",
			test: "\tCallUni$(3)\n", callers: map[string][]string{"CallUni$": {"é", "è"}}, hit: []string{"Uni$"}},
		{name: "string-list-split",
			old:  "func Spl$(s string) []string { return []string{s} }\n",
			new:  "func Spl$(s string) []string { return strings.Split(s, \" \") }\n",
			proj: "func CallSpl$(s string) bool {\n\tparts := dep.Spl$(s)\n\treturn parts != nil\n}\n",
			test: "\tCallSpl$(\"one two\")\n", callers: map[string][]string{"CallSpl$": {"one two"}}, hit: []string{"Spl$"}},
		{name: "map-gains-entry",
			old:  "func Mge$() map[string]bool { return map[string]bool{\"a\": true} }\n",
			new:  "func Mge$() map[string]bool { return map[string]bool{\"a\": true, \"b\": true} }\n",
			proj: "func CallMge$() map[string]bool {\n\treturn dep.Mge$()\n}\n",
			test: "\tCallMge$()\n", minDiff: 1, hit: []string{"Mge$"}},
		{name: "struct-list-gains-element",
			old:  "type El$ struct{ N int }\nfunc Sge$() []El$ { return []El${{1}} }\n",
			new:  "type El$ struct{ N int }\nfunc Sge$() []El$ { return []El${{1}, {2}} }\n",
			proj: "func CallSge$() []dep.El$ {\n\treturn dep.Sge$()\n}\n",
			test: "\tCallSge$()\n", minDiff: 1, hit: []string{"Sge$"}},
		{name: "map-loses-entry",
			old:  "func Mle$() map[string]bool { return map[string]bool{\"a\": true, \"b\": true} }\n",
			new:  "func Mle$() map[string]bool { return map[string]bool{\"a\": true} }\n",
			proj: "func CallMle$() map[string]bool {\n\treturn dep.Mle$()\n}\n",
			test: "\tCallMle$()\n", minDiff: 1, hit: []string{"Mle$"}},
		{name: "nil-to-value",
			old:  "type Np$ struct{ N int }\nfunc Nil$() *Np$ { return nil }\n",
			new:  "type Np$ struct{ N int }\nfunc Nil$() *Np$ { return &Np${} }\n",
			proj: "func CallNil$() *dep.Np$ {\n\treturn dep.Nil$()\n}\n",
			test: "\tCallNil$()\n", minDiff: 1, hit: []string{"Nil$"}},
		{name: "value-to-nil",
			old:  "type Nq$ struct{ N int }\nfunc Niq$() *Nq$ { return &Nq${} }\n",
			new:  "type Nq$ struct{ N int }\nfunc Niq$() *Nq$ { return nil }\n",
			proj: "func CallNiq$() *dep.Nq$ {\n\treturn dep.Niq$()\n}\n",
			test: "\tCallNiq$()\n", minDiff: 1, hit: []string{"Niq$"}},
		{name: "nil-map-to-empty",
			old:  "func Nem$() map[int]int { return nil }\n",
			new:  "func Nem$() map[int]int { return map[int]int{} }\n",
			proj: "func CallNem$() map[int]int {\n\treturn dep.Nem$()\n}\n",
			test: "\tCallNem$()\n", minDiff: 1, hit: []string{"Nem$"}},
		{name: "empty-map-to-filled",
			old:  "func Emf$() map[int]int { return map[int]int{} }\n",
			new:  "func Emf$() map[int]int { return map[int]int{4: 4} }\n",
			proj: "func CallEmf$() map[int]int {\n\treturn dep.Emf$()\n}\n",
			test: "\tCallEmf$()\n", minDiff: 1, hit: []string{"Emf$"}},
		{name: "float-and-sign",
			old:  "func Flo$() (float64, int8, complex64) { a := 0.1; return a + 0.2, -1, 1i }\n",
			new:  "func Flo$() (float64, int8, complex64) { return 0.3, -1, 1i }\n",
			proj: "func CallFlo$() float64 {\n\ta, b, c := dep.Flo$()\n\t_, _ = b, c\n\treturn a\n}\n",
			test: "\tCallFlo$()\n", callers: map[string][]string{"CallFlo$": {"0.30000000000000004", "0.3"}}, hit: []string{"Flo$"}},
		{name: "opaque-locals-same",
			old:  "func Opq$(n int) func() int { return func() int { return n } }\n",
			new:  "func Opq$(n int) func() int { m := n; return func() int { return m } }\n",
			proj: "func CallOpq$(n int) int {\n\tf := dep.Opq$(n)\n\tch := make(chan int, 2)\n\tvar mu sync.Mutex\n\tmu.Lock()\n\tdefer mu.Unlock()\n\tre := regexp.MustCompile(`a+b`)\n\tctx, cancel := context.WithCancel(context.Background())\n\tdefer cancel()\n\tvar iface any = f\n\tnan := math.NaN()\n\t_, _, _, _ = re, ctx, iface, nan\n\tch <- f()\n\treturn <-ch\n}\n",
			test: "\tCallOpq$(4)\n", zero: true, hit: []string{"Opq$"}},
		{name: "reflect-values-same",
			old:  "func Rfl$(v any) reflect.Value { return reflect.ValueOf(v) }\n",
			new:  "func Rfl$(v any) reflect.Value { w := v; return reflect.ValueOf(w) }\n",
			proj: "func CallRfl$(s string) string {\n\tv := dep.Rfl$(s)\n\ttyp := v.Type()\n\t_ = typ\n\treturn v.String()\n}\n",
			test: "\tCallRfl$(\"text\")\n", zero: true, hit: []string{"Rfl$"}},
		{name: "panic-random-text-same",
			old:  "func Prt$(a int) int { if a > 0 { panic(fmt.Sprint(\"id \", rand.Int63())) }; return 1 }\n",
			new:  "func Prt$(a int) int { if a >= 1 { panic(fmt.Sprint(\"id \", rand.Int63())) }; return 1 }\n",
			proj: "func CallPrt$(a int) int {\n\tif a == 0 {\n\t\treturn 0\n\t}\n\treturn dep.Prt$(a)\n}\n",
			test: "\tfunc() {\n\t\tdefer func() { recover() }()\n\t\tCallPrt$(4)\n\t}()\n", zero: true, hit: []string{"Prt$"}},
		{name: "project-panic-same",
			old:  "func Pps$(a int) int { return a }\n",
			new:  "func Pps$(a int) int { b := a; return b }\n",
			proj: "func CallPps$(a int) int {\n\tif dep.Pps$(a) > 3 {\n\t\tpanic(\"project\")\n\t}\n\treturn a\n}\n",
			test: "\tfunc() {\n\t\tdefer func() { recover() }()\n\t\tCallPps$(4)\n\t}()\n", zero: true, hit: []string{"Pps$"}},
		{name: "testing-parameter-same",
			old:  "func Tpa$(a int) int { return a }\n",
			new:  "func Tpa$(a int) int { b := a; return b }\n",
			proj: "func CallTpa$(t testing.TB, a int) int {\n\tt.Helper()\n\tt.Cleanup(func() {})\n\treturn dep.Tpa$(a)\n}\n",
			test: "\tCallTpa$(t, 4)\n\tt.Run(\"sub\", func(t *testing.T) { CallTpa$(t, 5) })\n", zero: true, hit: []string{"Tpa$"}},
		{name: "test-with-helper-and-global",
			old:  "func Glo$(a int) int { return a }\n",
			new:  "func Glo$(a int) int { return a * a }\n",
			proj: "var cache$ = map[int]int{}\nfunc CallGlo$(a int) int {\n\tif v, ok := cache$[a]; ok {\n\t\treturn v\n\t}\n\tcache$[a] = dep.Glo$(a)\n\treturn cache$[a]\n}\n",
			aux:  "func check$(t *testing.T, a, want int) {\n\tt.Helper()\n\tif CallGlo$(a) != want {\n\t\tt.Errorf(\"want %d\", want)\n\t}\n}\n",
			test: "\tcheck$(t, 1, 1)\n\tcheck$(t, 5, 5)\n\tcheck$(t, 5, 5)\n", callers: map[string][]string{"CallGlo$": {"5", "25"}}, regress: true, hit: []string{"Glo$"}},
		valueTypes18(),
	}
}

// valueTypes18 has one pair of functions per type whose returned value changes.
func valueTypes18() cell18 {
	c := cell18{name: "value-types", callers: map[string][]string{}}
	c.old = "type Name$ string\ntype Num$ int16\ntype Emb$ struct{ Num$; Name$; p *int }\n"
	c.new = c.old
	for i, k := range [][3]string{
		{"time.Duration", "5*time.Second", "6*time.Second"},
		{"time.Time", "time.Unix(5, 0).UTC()", "time.Unix(6, 0).UTC()"},
		{"time.Month", "time.May", "time.June"},
		{"rune", "'a'", "'b'"},
		{"byte", "200", "201"},
		{"int8", "-128", "127"},
		{"uint64", "1<<64 - 1", "1<<64 - 2"},
		{"int64", "-1 << 63", "-1<<63 + 1"},
		{"uintptr", "7", "8"},
		{"float32", "0.1", "0.2"},
		{"float64", "1e300", "1.0000000000000002e300"},
		{"complex128", "1 + 2i", "1 + 3i"},
		{"bool", "true", "false"},
		{"[2]int", "[2]int{1, 2}", "[2]int{1, 3}"},
		{"[]byte", "[]byte(\"ab\")", "[]byte(\"ac\")"},
		{"[][]string", "[][]string{{\"a\"}, {\"b\", \"c\"}}", "[][]string{{\"a\", \"b\"}, {\"c\"}}"},
		{"map[int]bool", "map[int]bool{1: true}", "map[int]bool{1: false}"},
		{"map[[2]int]string", "map[[2]int]string{{1, 2}: \"x\"}", "map[[2]int]string{{1, 2}: \"y\"}"},
		{"*int", "new(int)", "func() *int { v := 4; return &v }()"},
		{"**string", "func() **string { s := \"x\"; p := &s; return &p }()", "func() **string { s := \"y\"; p := &s; return &p }()"},
		{"dep.Name$", "Name$(\"x\")", "Name$(\"y\")"},
		{"dep.Num$", "4", "5"},
		{"dep.Emb$", "Emb${4, \"x\", nil}", "Emb${4, \"z\", nil}"},
		{"[]dep.Emb$", "[]Emb${{4, \"x\", nil}}", "[]Emb${{5, \"x\", nil}}"},
		{"error", "errors.Join(errors.New(\"a\"), errors.New(\"b\"))", "errors.Join(errors.New(\"a\"), errors.New(\"c\"))"},
		{"interface{}", "[]interface{}{1, \"a\", nil}", "[]interface{}{1, \"a\", false}"},
		{"fmt.Stringer", "time.Duration(3)", "time.Duration(4)"},
		{"struct{ A, b int }", "struct{ A, b int }{1, 2}", "struct{ A, b int }{1, 3}"},
		{"string", "\"a\\x00b\"", "\"a\\x00c\""},
		{"string", "\"line\\n\"", "\"line\""},
		{"string", "strings.Repeat(\"x\", 150)", "strings.Repeat(\"x\", 149) + \"y\""},
	} {
		typ := strings.ReplaceAll(k[0], "dep.", "")
		if strings.Contains(k[0], "b int") { // fields of other packages
			typ = "interface{}"
		}
		c.old += fmt.Sprintf("func Val%d_$() %s { return %s }\n", i, typ, k[1])
		c.new += fmt.Sprintf("func Val%d_$() %s { return %s }\n", i, typ, k[2])
		if typ == "interface{}" {
			k[0] = typ
		}
		c.proj += fmt.Sprintf("func CallVal%d_$() %s {\n\tv := dep.Val%d_$()\n\treturn v\n}\n", i, k[0], i)
		c.test += fmt.Sprintf("\tCallVal%d_$()\n", i)
		c.callers[fmt.Sprintf("CallVal%d_$", i)] = []string{""}
		c.hit = append(c.hit, fmt.Sprintf("Val%d_$", i))
	}
	c.minDiff = len(c.callers)
	return c
}

const depImports18 = "import (\n\t\"errors\"\n\t\"fmt\"\n\t\"math/rand\"\n\t\"reflect\"\n\t\"strings\"\n\t\"time\"\n)\n\nvar _, _, _, _, _, _ = errors.New, fmt.Sprint, rand.Int63, strings.ToUpper, time.Now, reflect.ValueOf\n\n"
const projImports18 = "import (\n\t\"context\"\n\t\"errors\"\n\t\"fmt\"\n\t\"math\"\n\t\"math/rand\"\n\t\"regexp\"\n\t\"strings\"\n\t\"sync\"\n\t\"sync/atomic\"\n\t\"testing\"\n\t\"time\"\n\n\t\"example.com/dep\"\n\t\"example.com/mid\"\n)\n\nvar _, _, _ = context.Background, math.NaN, regexp.MustCompile\nvar _ testing.TB\nvar _, _, _, _, _ = errors.New, fmt.Sprint, rand.Int63, strings.ToUpper, time.Now\nvar _ sync.Mutex\nvar _ atomic.Int64\nvar _, _ = dep.Anchor, mid.Anchor\n\n"

type placed18 struct {
	cell18
	n   int
	pkg string
}

func (p placed18) sub(s string) string { return strings.ReplaceAll(s, "$", fmt.Sprint(p.n)) }

// build18 lays the chosen cells out as module versions and a project.
func build18(w *e2eWorld, r *rand.Rand, cells []cell18, null bool, layout string) ([]placed18, error) {
	var placed []placed18
	depOld, depNew, mid := depImports18, depImports18, "import \"example.com/dep\"\n\nvar _ = dep.Anchor\n\n"
	pkgs := []string{"alpha", "beta/inner", "gamma"}
	files := map[string]string{}
	code := map[string]string{}
	tests := map[string]string{}
	for i, c := range cells {
		p := placed18{cell18: c, n: i + 10, pkg: pkgs[r.Intn(len(pkgs))]}
		nw := c.new
		if null {
			nw = c.old
		}
		depOld += p.sub(c.old) + "\n"
		depNew += p.sub(nw) + "\n"
		mid += p.sub(c.mid) + "\n"
		code[p.pkg] += p.sub(c.proj) + "\n"
		tests[p.pkg] += p.sub(c.aux) + fmt.Sprintf("func TestCell%d(t *testing.T) {\n%s}\n\n", p.n, p.sub(c.test))
		placed = append(placed, p)
	}
	mod := func(m, body string) string { return "module " + m + "\n\ngo 1.24\n" + body }
	w.publish("example.com/dep", "v1.0.0", map[string]string{"go.mod": mod("example.com/dep", ""), "dep.go": "package dep\n\n" + depOld + "func Anchor() int { return 1 }\n"})
	w.publish("example.com/dep", "v1.1.0", map[string]string{"go.mod": mod("example.com/dep", ""), "dep.go": "package dep\n\n" + depNew + "func Anchor() int { return 1 }\n"})
	w.publish("example.com/mid", "v1.0.0", map[string]string{"go.mod": mod("example.com/mid", "\nrequire example.com/dep v1.0.0\n"), "mid.go": "package mid\n\n" + mid + "func Anchor() int { return 1 }\n"})
	for pkg, c := range code {
		base := filepath.Base(pkg)
		files[pkg+"/code.go"] = "package " + base + "\n\n" + projImports18 + c
		files[pkg+"/code_test.go"] = "package " + base + "\n\nimport (\n\t\"math/rand\"\n\t\"strings\"\n\t\"testing\"\n\t\"time\"\n)\n\nvar _, _, _ = rand.Int63, strings.ToUpper, time.Now\n\n" + tests[pkg]
	}
	req := "\nrequire (\n\texample.com/dep v1.0.0\n\texample.com/mid v1.0.0\n)\n"
	modDirs := []string{""}
	if layout == "workspace" { // one module per package, nothing at the top
		modDirs = nil
		work := "go 1.24\n\nuse (\n"
		for _, pkg := range pkgs {
			if code[pkg] == "" {
				continue
			}
			files[pkg+"/go.mod"] = mod("example.com/proj/"+pkg, req)
			modDirs = append(modDirs, pkg)
			work += "\t./" + pkg + "\n"
		}
		files["go.work"] = work + ")\n"
	} else {
		files["go.mod"] = mod("example.com/proj", req)
	}
	vWriteTree(w.project, files)
	for _, d := range modDirs {
		if err := w.goRun(filepath.Join(w.project, d), "mod", "tidy"); err != nil {
			return nil, err
		}
	}
	// the updated version has to be in the module cache
	dl := filepath.Join(w.dir, "dl")
	vWriteTree(dl, map[string]string{"go.mod": mod("example.com/dl", "")})
	if err := w.goRun(dl, "mod", "download", "example.com/dep@v1.1.0"); err != nil {
		return nil, err
	}
	_ = os.RemoveAll(dl)
	return placed, nil
}

var projIdent18 = regexp.MustCompile(`^example\.com/proj/([^:]+):(.*)$`)

func judge18(v *vRun, run string, placed []placed18, res e2eResult, null bool) {
	fail := func(sig, format string, args ...any) {
		v.violate(sig, "%s: "+format+"\ntool output: %s", append(append([]any{run}, args...), vShort(tail18(res.out), 3000))...)
	}
	if res.err != nil || res.report == nil {
		fail("run-failed", "the analysis did not complete: %v", res.err)
		return
	}
	m := res.report
	if null {
		v.eval()
		if m.Module.ChangeFuncCount != 0 || m.Validation.TestFieldDiffCount != 0 || len(m.Validation.TestDetails) != 0 {
			fail("null-update", "identical versions reported %d changed functions, %d differences", m.Module.ChangeFuncCount, m.Validation.TestFieldDiffCount)
		}
		return
	}
	details := map[string]TestDetail{}
	for _, d := range m.Validation.TestDetails {
		if _, dup := details[d.TestFunctionIdent]; dup {
			fail("duplicate-test", "%s is reported twice", d.TestFunctionIdent)
		}
		details[d.TestFunctionIdent] = d
	}
	hits := map[string]bool{}
	total := 0
	for _, p := range placed {
		v.eval()
		v.seen(p.name)
		ident := fmt.Sprintf("example.com/proj/%s:TestCell%d", p.pkg, p.n)
		d, ok := details[ident]
		if !ok {
			fail("test-missing:"+p.name, "test %s of cell %s is not in the report", ident, p.name)
			continue
		}
		v.observe("tests judged", 1)
		js, _ := json.Marshal(d)
		total += d.DiffFieldCount
		if p.zero {
			v.observe("tests with no expected difference", 1)
			if d.DiffFieldCount != 0 || len(d.FieldChanges) != 0 || d.PassRegression {
				fail("false-difference:"+p.name, "cell %s behaves the same before and after, reported %s", p.name, js)
			}
		}
		if d.DiffFieldCount < p.minDiff {
			fail("missed-difference:"+p.name, "cell %s: at least %d differences expected, reported %s", p.name, p.minDiff, js)
		}
		want := map[string]bool{}
		for c, texts := range p.callers {
			v.observe("expected caller differences", 1)
			ci := "example.com/proj/" + p.pkg + ":" + p.sub(c)
			want[ci] = true
			found := false
			for _, diff := range d.FieldChanges[ci] {
				all := true
				for _, t := range texts {
					all = all && strings.Contains(diff, t)
				}
				found = found || all
			}
			if !found {
				fail("missed-difference:"+p.name, "cell %s: %s has to show a change with %q, reported %s", p.name, ci, texts, js)
			}
		}
		if d.PassRegression != p.regress {
			fail("regression:"+p.name, "cell %s: regression expected %v, reported %s", p.name, p.regress, js)
		}
		if d.BaselineFailure != p.baseFail {
			fail("baseline:"+p.name, "cell %s: baseline failure expected %v, reported %s", p.name, p.baseFail, js)
		}
		for _, h := range p.hit {
			hits[p.sub(h)] = true
		}
		// differences are reported only for this cell's own functions
		for c := range d.FieldChanges {
			parts := projIdent18.FindStringSubmatch(c)
			if parts == nil || !strings.Contains(parts[2], fmt.Sprint(p.n)) {
				fail("foreign-caller:"+p.name, "cell %s: reports a function of another cell: %s", p.name, js)
			}
		}
	}
	v.observe("changed functions executed", len(hits))
	if got := m.Validation.ModuleChangeHitInTestCount; got != len(hits) {
		fail("hit-count", "%d changed functions are executed by tests, reported %d", len(hits), got)
	}
	if m.Validation.TestFieldDiffCount != total {
		fail("total", "differences of the tests sum up to %d, reported %d", total, m.Validation.TestFieldDiffCount)
	}
	if len(res.left) != 0 {
		v.observe("left in the temporary directory: "+strings.Join(res.left, " "), 1)
	}
}

func tail18(s string) string {
	if len(s) > 2500 {
		return "..." + s[len(s)-2500:]
	}
	return s
}

func vMain(t *testing.T) {
	v := vNew("projects, dependency updates and tests mixed from cells whose observable effect is known; the real tool runs on them and its JSON report is compared with the expected outcome of every test")
	v.level = "exploration"
	v.assumptions = []string{
		"Values that differ between two runs of a test differ with overwhelming probability (64-bit random numbers, clock).",
		"The go command is a wrapper that answers 'go clean -cache' by resetting the build cache to one that holds only the standard library.",
	}
	if err := e2ePrepare(); err != nil {
		v.unsure("%v", err)
		v.finish(0)
		return
	}
	all := cells18()
	type job struct {
		name  string
		cells []cell18
		null  bool
		args  []string
		gomod bool
		lay   string
	}
	var jobs []job
	r := v.rng("cells")
	shuffled := func(n int) []cell18 {
		l := append([]cell18(nil), all...)
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		return l[:n]
	}
	only := func(zero bool) []cell18 {
		var l []cell18
		for _, c := range all {
			if c.zero == zero {
				l = append(l, c)
			}
		}
		return l
	}
	jobs = append(jobs, job{name: "all", cells: shuffled(len(all)), args: []string{"-tmpcopy=false", "-module", "example.com/dep@v1.1.0"}})
	jobs = append(jobs, job{name: "quiet", cells: only(true), args: []string{"-tmpcopy=true", "-timemultiplier", "100"}, gomod: true})
	brk := cell18{name: "does-not-compile-after", // the update removes what one package needs
		old:  "func Gone$(a int) int { return a }\nfunc Stay$(a int) int { return Gone$(a) }\n",
		new:  "func Stay$(a int) int { return a }\n",
		proj: "func CallGone$(a int) int {\n\treturn dep.Gone$(a) + dep.Stay$(a)\n}\n",
		test: "\tCallGone$(1)\n", regress: true, minDiff: 1, hit: []string{"Stay$"}}
	if v.thorough {
		jobs = append(jobs, job{name: "break", cells: []cell18{brk}, args: []string{"-tmpcopy=false", "-module", "example.com/dep@v1.1.0"}})
		jobs = append(jobs, job{name: "workspace", lay: "workspace", cells: shuffled(15), args: []string{"-tmpcopy=true", "-module", "example.com/dep@v1.1.0"}})
		hang := cell18{name: "hangs-after",
			old:  "func Hang$(c chan int) int { select { case x := <-c: return x; default: return 0 } }\n",
			new:  "func Hang$(c chan int) int { return <-c }\n",
			proj: "func CallHang$() int {\n\tc := make(chan int)\n\treturn dep.Hang$(c)\n}\n",
			test: "\tCallHang$()\n", regress: true, minDiff: 1, hit: []string{"Hang$"}}
		jobs = append(jobs, job{name: "hang", cells: []cell18{hang, all[0]}, args: []string{"-tmpcopy=false", "-module", "example.com/dep@v1.1.0"}})
		for i := 0; i < 12; i++ {
			jobs = append(jobs, job{name: fmt.Sprintf("mix%d", i), cells: shuffled(5 + r.Intn(len(all)-5)), args: []string{fmt.Sprintf("-tmpcopy=%v", i%2 == 0), "-modules", "example.com/dep@v1.1.0"}})
		}
		jobs = append(jobs, job{name: "null", cells: shuffled(8), null: true, args: []string{"-tmpcopy=false", "-module", "example.com/dep@v1.1.0"}})
	}
	sem := make(chan struct{}, 2)
	var wg sync.WaitGroup
	for ji, j := range jobs {
		jr := rand.New(rand.NewSource(v.seed*1000 + int64(ji)))
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			w := e2eNewWorld("w18-" + j.name)
			defer w.close()
			placed, err := build18(w, jr, j.cells, j.null, j.lay)
			if err != nil {
				v.unsure("%s: world not built: %v", j.name, err)
				return
			}
			args := j.args
			if j.gomod {
				b, _ := os.ReadFile(filepath.Join(w.project, "go.mod"))
				up := filepath.Join(w.dir, "updated.mod")
				_ = os.WriteFile(up, []byte(strings.Replace(string(b), "example.com/dep v1.0.0", "example.com/dep v1.1.0", 1)), 0o644)
				args = append(args, "-gomod", up)
			}
			start := time.Now()
			res := w.analyze(10*time.Minute, nil, args...)
			v.observe("whole analyses", 1)
			judge18(v, j.name, placed, res, j.null)
			if d := os.Getenv("E2E_DEBUG"); d != "" {
				_ = os.WriteFile(filepath.Join(d, j.name+".out"), []byte(res.out), 0o644)
				_ = os.WriteFile(filepath.Join(d, j.name+".json"), res.raw, 0o644)
				fmt.Println(j.name, time.Since(start))
			}
			names := []string{}
			for _, p := range placed {
				names = append(names, p.name)
			}
			sort.Strings(names)
			v.sample(map[string]any{"run": j.name, "cells": len(placed), "args": j.args})
		}()
	}
	wg.Wait()
	v.finish(20)
}
