package lens

// C12: pairs of generated module versions with a known edit per function, and generated dependency graphs; the real
// analysis loads both versions from a module cache and what it reports is compared with the edits.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/scanner"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"golang.org/x/mod/module"
	"golang.org/x/mod/semver"
)

type c12Fn struct {
	recv  string // as written, e.g. "*T0", "G0[K]"
	name  string
	tpar  string
	param string
	res   string
	body  [][]string // statements; each one or more lines
	ret   string
	edit  string // what the new version did to it
}

func (f *c12Fn) clone() *c12Fn {
	g := *f
	g.body = nil
	for _, s := range f.body {
		g.body = append(g.body, append([]string(nil), s...))
	}
	return &g
}

func (f *c12Fn) ident(pkg string) string {
	if f.recv != "" {
		return pkg + ":" + f.recv + "." + f.name
	}
	return pkg + ":" + f.name
}

var c12Uniq int
var c12Mu sync.Mutex

func c12N() int { c12Mu.Lock(); defer c12Mu.Unlock(); c12Uniq++; return 1000 + c12Uniq }

func c12Stmt(r *rand.Rand) []string {
	n := c12N()
	switch r.Intn(16) {
	case 0:
		return []string{fmt.Sprintf("if x > %d {", n), fmt.Sprintf("\tx -= %d", n), "}"}
	case 1:
		return []string{fmt.Sprintf("for i := 0; i < %d; i++ {", n), "\tx += i", "}"}
	case 2:
		return []string{fmt.Sprintf("func() { x ^= %d }()", n)}
	case 3:
		return []string{fmt.Sprintf("defer func() { x |= %d }()", n)}
	case 4:
		return []string{fmt.Sprintf("x += len(\"http://h%d/ // not a comment\")", n)}
	case 5:
		return []string{fmt.Sprintf("x += len(`raw %d", n), "", "  second /* not a comment */ line`)"}
	case 6:
		return []string{"switch {", fmt.Sprintf("case x == %d:", n), "\tx++", "default:", "\tx--", "}"}
	case 7:
		return []string{fmt.Sprintf("_ = map[string]int{\"k%d\": x, \"l\": 2}", n)}
	case 8:
		return []string{fmt.Sprintf("_ = []int{%d, x, 3}", n)}
	case 9:
		return []string{fmt.Sprintf("x += int('%c') * %d", rune('a'+r.Intn(26)), n)}
	case 10:
		return []string{fmt.Sprintf("go func(k int) { _ = k + %d }(x)", n)}
	case 11:
		return []string{fmt.Sprintf("if x == %d {", n), "\treturn zero(x)", "}"}
	case 12:
		return []string{fmt.Sprintf("l%d:", n), fmt.Sprintf("for x > %d {", n), "\tx--", fmt.Sprintf("\tcontinue l%d", n), "}"}
	case 13:
		return []string{fmt.Sprintf("x = add(x, add(%d, 2))", n)}
	case 14:
		return []string{fmt.Sprintf("var v%d struct{ a, b int }", n), fmt.Sprintf("v%d.a = x", n)}
	}
	return []string{fmt.Sprintf("x += %d", n)}
}

func c12GenFn(r *rand.Rand, i int) *c12Fn {
	f := &c12Fn{name: fmt.Sprintf("F%d", i), param: "x int", res: "int"}
	switch r.Intn(9) {
	case 0:
		f.recv, f.name = fmt.Sprintf("T%d", r.Intn(3)), fmt.Sprintf("M%d", i)
	case 1, 2:
		f.recv, f.name = fmt.Sprintf("*T%d", r.Intn(3)), fmt.Sprintf("M%d", i)
	case 3:
		f.recv, f.name = vPick(r, "G0[K]", "*G0[K]", "*G1[K, V]"), fmt.Sprintf("M%d", i)
	case 4:
		f.tpar = "[E any]"
		f.param = "x int, es ...E"
	case 5:
		f.param = "x int, s ...string"
	}
	if r.Intn(5) == 0 {
		f.name = strings.ToLower(f.name[:1]) + f.name[1:]
	}
	for k := 1 + r.Intn(6); k > 0; k-- {
		f.body = append(f.body, c12Stmt(r))
	}
	f.ret = vPick(r, "return x", "return zero(x)", "return add(x, zero(1))", fmt.Sprintf("panic(\"p%d\")", i))
	return f
}

// recvDecl gives the receiver a name.
func (f *c12Fn) decl() string {
	s := "func "
	if f.recv != "" {
		s += "(t " + f.recv + ") "
	}
	return s + f.name + f.tpar + "(" + f.param + ") " + f.res + " {"
}

// text renders the function with comments and layout that do not belong to its code.
func (f *c12Fn) text(r *rand.Rand, noise bool) string {
	var b strings.Builder
	c := func() {
		if !noise {
			return
		}
		switch r.Intn(10) {
		case 0:
			fmt.Fprintf(&b, "\t// note %d\n", r.Intn(1000))
		case 1:
			fmt.Fprintf(&b, "\t// note %d\n\t// and more\n\n", r.Intn(1000))
		case 2:
			b.WriteString("\n")
		case 3:
			fmt.Fprintf(&b, "\t/* block %d\n\t   x += 1\n\t*/\n", r.Intn(1000))
		}
	}
	if noise && r.Intn(2) == 0 {
		fmt.Fprintf(&b, "// %s does things %d.\n", f.name, r.Intn(1000))
	}
	b.WriteString(f.decl())
	if noise && r.Intn(5) == 0 {
		fmt.Fprintf(&b, " // trailing %d", r.Intn(1000))
	}
	b.WriteString("\n")
	for _, st := range f.body {
		c()
		for i, l := range st {
			if noise && len(st) == 1 {
				switch r.Intn(6) {
				case 0: // spread arguments over lines
					if strings.HasPrefix(l, "x = add(x, add(") {
						l = strings.Replace(l, "x = add(x, add(", "x = add(x,\n\t\tadd(", 1)
						l = l[:len(l)-1] + ",\n\t)"
					} else if strings.HasPrefix(l, "_ = []int{") {
						l = "_ = []int{\n\t\t" + strings.TrimSuffix(strings.TrimPrefix(l, "_ = []int{"), "}") + ",\n\t}"
					} else if strings.HasPrefix(l, "defer func() { ") {
						l = "defer func() {\n\t\t" + strings.TrimSuffix(strings.TrimPrefix(l, "defer func() { "), " }()") + "\n\t}()"
					}
				case 1:
					l = strings.Replace(l, " += ", "  +=  ", 1)
				case 2:
					l += fmt.Sprintf(" // trailing %d", r.Intn(100))
				case 3:
					if strings.HasPrefix(l, "x ") {
						l += ";"
					}
				}
			}
			if i == 0 || !strings.Contains(st[0], "`") {
				b.WriteString("\t")
			}
			b.WriteString(l + "\n")
		}
	}
	c()
	b.WriteString("\t" + f.ret + "\n}\n")
	return b.String()
}

// change applies one edit that alters the code, returning what it did.
func (f *c12Fn) change(r *rand.Rand) string {
	for {
		i := r.Intn(len(f.body))
		switch r.Intn(12) {
		case 0, 1:
			f.body = append(f.body[:i:i], append([][]string{c12Stmt(r)}, f.body[i:]...)...)
			return "insert statement"
		case 2:
			if len(f.body) > 1 {
				f.body = append(f.body[:i:i], f.body[i+1:]...)
				return "delete statement"
			}
		case 3:
			if len(f.body) > 1 {
				j := (i + 1) % len(f.body)
				f.body[i], f.body[j] = f.body[j], f.body[i]
				return "swap statements"
			}
		case 4, 5:
			for k, l := range f.body[i] { // change one number or text
				if p := strings.IndexAny(l, "123456789"); p >= 0 {
					f.body[i][k] = l[:p] + "9" + l[p:]
					return "change literal"
				}
			}
		case 6:
			if len(f.body[i]) == 3 && strings.HasPrefix(f.body[i][0], "x += len(`") {
				f.body[i] = append(f.body[i][:2:2], "", f.body[i][2])
				return "blank line in raw string"
			}
			if strings.Contains(f.body[i][0], "not a comment") {
				f.body[i][0] = strings.Replace(f.body[i][0], "// not a comment", "// no comment", 1)
				return "text after slashes in string"
			}
		case 7:
			if f.ret == "return x" {
				f.ret = "return -x"
				return "change return"
			}
		case 8:
			f.param = strings.Replace(f.param, "x int", "x, extra int", 1)
			return "add parameter"
		case 9:
			if f.recv != "" {
				if strings.HasPrefix(f.recv, "*") {
					f.recv = f.recv[1:]
				} else {
					f.recv = "*" + f.recv
				}
				return "receiver kind"
			}
		case 10:
			for k, l := range f.body[i] {
				if strings.HasPrefix(l, "x += ") {
					f.body[i][k] = "x -= " + l[5:]
					return "change operator"
				}
			}
		case 11:
			if len(f.body[i]) >= 3 && strings.HasPrefix(f.body[i][0], "if ") {
				f.body[i] = append([]string(nil), f.body[i][1:len(f.body[i])-1]...)
				return "remove condition"
			}
		}
	}
}

type c12Pkg struct {
	dir, name string
	fns       []*c12Fn
}

func c12Types(k string) string {
	return "package " + k + "\n\ntype T0 struct{ a int }\ntype T1 int\ntype T2 []string\ntype G0[K any] struct{ k K }\ntype G1[K, V any] struct{}\n\nfunc zero(int) int { return 0 }\nfunc add(a, b int) int { return a + b }\n"
}

// c12Write writes one version; returns nothing, the tree is the truth (read back with go/parser).
func c12Write(r *rand.Rand, dir, mod, gover string, pkgs []*c12Pkg, noise bool) {
	files := map[string]string{}
	gomod := "module " + mod + "\n"
	if gover != "" {
		gomod += "\ngo " + gover + "\n"
	}
	files["go.mod"] = gomod
	for _, p := range pkgs {
		files[filepath.Join(p.dir, "types.go")] = c12Types(p.name)
		nf := 1 + r.Intn(3)
		parts := make([]strings.Builder, nf)
		order := r.Perm(len(p.fns))
		for _, i := range order {
			b := &parts[r.Intn(nf)]
			b.WriteString("\n" + p.fns[i].text(r, noise))
		}
		for i := range parts {
			head := ""
			if noise && r.Intn(2) == 0 {
				head = fmt.Sprintf("// Copyright %d\n\n", 2000+r.Intn(20))
			}
			files[filepath.Join(p.dir, fmt.Sprintf("f%d_%s.go", i, vPick(r, "a", "b", "z")))] = head + "package " + p.name + "\n" + parts[i].String()
		}
		// code that is not part of the build: must never be reported
		files[filepath.Join(p.dir, "x_test.go")] = fmt.Sprintf("package %s\n\nfunc onlyTest() int { return %d }\n", p.name, r.Intn(1e6))
		files[filepath.Join(p.dir, "x_windows.go")] = fmt.Sprintf("package %s\n\nfunc onlyWindows() int { return %d }\n", p.name, r.Intn(1e6))
		files[filepath.Join(p.dir, "x_tag.go")] = fmt.Sprintf("//go:build never\n\npackage %s\n\nfunc onlyTag() int { return %d }\n", p.name, r.Intn(1e6))
	}
	files["testdata/t.go"] = fmt.Sprintf("package t\n\nfunc Data() int { return %d }\n", r.Intn(1e6))
	files["_skip/t.go"] = fmt.Sprintf("package t\n\nfunc Skip() int { return %d }\n", r.Intn(1e6))
	files["nested/go.mod"] = "module " + mod + "/nested\n\ngo 1.21\n"
	files["nested/n.go"] = fmt.Sprintf("package nested\n\nfunc Nested() int { return %d }\n", r.Intn(1e6))
	vWriteTree(dir, files)
}

type c12Decl struct {
	file  string
	line  int
	end   int
	toks  []string
	lines []string
	rets  map[uint32]uint32
}

func c12Toks(src string) []string {
	var s scanner.Scanner
	b := []byte(src)
	fs := token.NewFileSet()
	s.Init(fs.AddFile("", fs.Base(), len(b)), b, nil, 0)
	var out []string
	for {
		_, tok, lit := s.Scan()
		if tok == token.EOF {
			return out
		}
		if tok == token.SEMICOLON || tok == token.COMMA {
			continue
		}
		if lit == "" || tok.IsOperator() || tok.IsKeyword() {
			lit = tok.String()
		}
		out = append(out, lit)
	}
}

func c12Lines(def string) []string {
	var out []string
	for _, l := range strings.Split(def, "\n") {
		out = append(out, strings.Join(strings.Fields(l), " "))
	}
	return out
}

// c12Blank overwrites comments with spaces, keeping the lines.
func c12Blank(src string) string {
	var s scanner.Scanner
	b := []byte(src)
	fs := token.NewFileSet()
	file := fs.AddFile("", fs.Base(), len(b))
	s.Init(file, []byte(src), nil, scanner.ScanComments)
	for {
		pos, tok, lit := s.Scan()
		if tok == token.EOF {
			return string(b)
		}
		if tok == token.COMMENT {
			for i, o := 0, file.Offset(pos); i < len(lit); i++ {
				if b[o+i] != '\n' {
					b[o+i] = ' '
				}
			}
		}
	}
}

// c12Decls reads all function declarations of the built packages of one version.
func c12Decls(dir, mod string, pkgs []*c12Pkg) map[string]c12Decl {
	out := map[string]c12Decl{}
	for _, p := range pkgs {
		pp := mod
		if p.dir != "" {
			pp += "/" + filepath.ToSlash(p.dir)
		}
		ents, err := os.ReadDir(filepath.Join(dir, p.dir))
		if err != nil {
			panic(err)
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || strings.HasPrefix(e.Name(), "x_") {
				continue
			}
			file := filepath.Join(dir, p.dir, e.Name())
			fs := token.NewFileSet()
			af, err := parser.ParseFile(fs, file, nil, parser.SkipObjectResolution) // without comments
			if err != nil {
				panic(fmt.Sprintf("%s: %v", file, err))
			}
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				id := pp + ":" + fd.Name.Name
				if fd.Recv != nil {
					var b bytes.Buffer
					_ = format.Node(&b, fs, fd.Recv.List[0].Type)
					id = pp + ":" + b.String() + "." + fd.Name.Name
				}
				var b bytes.Buffer
				if err := format.Node(&b, fs, fd); err != nil {
					panic(err)
				}
				c := c12Decl{file: file, line: fs.Position(fd.Pos()).Line, end: fs.Position(fd.End()).Line, toks: c12Toks(b.String()), lines: c12Lines(b.String()), rets: map[uint32]uint32{}}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.FuncLit:
						return false
					case *ast.ReturnStmt:
						calls := uint32(0)
						ast.Inspect(x, func(n ast.Node) bool {
							if _, ok := n.(*ast.CallExpr); ok {
								calls++
							}
							return true
						})
						c.rets[uint32(fs.Position(x.Pos()).Line)] += calls
					}
					return true
				})
				out[id] = c
			}
		}
	}
	return out
}

func c12ModDir(cache, mod, ver string) string {
	e, err := module.EscapePath(mod)
	if err != nil {
		panic(err)
	}
	ev, err := module.EscapeVersion(ver)
	if err != nil {
		panic(err)
	}
	return filepath.Join(cache, e+"@"+ev)
}

func c12Key(id string) string { // identity of a function over a receiver change
	i := strings.LastIndex(id, ":")
	s := strings.TrimPrefix(id[i+1:], "*")
	if j := strings.Index(s, "["); j >= 0 {
		s = s[:j] + s[strings.LastIndex(s, "]")+1:]
	}
	return id[:i+1] + s
}

// c12Judge compares what was reported for one module with the two trees.
func c12Judge(v *vRun, what, mod, oldV, newV string, oldD, newD map[string]c12Decl, got []*ModuleFunction, radius int) {
	newBy := map[string]c12Decl{}
	for id, d := range newD {
		newBy[c12Key(id)] = d
	}
	want := map[string]bool{}
	for id, d := range oldD {
		if n, ok := newBy[c12Key(id)]; ok && !reflect.DeepEqual(n.toks, d.toks) {
			want[id] = true
		}
	}
	seen := map[string]int{}
	for _, f := range got {
		v.eval()
		id := f.FunctionIdent
		seen[id]++
		d, inOld := oldD[id]
		if !inOld {
			v.violate("diff:unknown function", "%s: reported %s, which the old version does not have", what, id)
			continue
		}
		n := newBy[c12Key(id)]
		if !want[id] {
			v.violate("diff:unchanged reported", "%s: %s has the same code in both versions but is reported\nold: %s\nnew: %s", what, id, strings.Join(d.lines, "\n"), strings.Join(n.lines, "\n"))
			continue
		}
		if seen[id] == 2 {
			v.violate("diff:reported twice", "%s: %s is reported more than once", what, id)
		}
		if f.Module == nil || f.Module.Name != mod || f.Module.PriorVersion != oldV || f.Module.NewVersion != newV {
			v.violate("diff:module", "%s: %s is attributed to %+v, want %s %s->%s", what, id, f.Module, mod, oldV, newV)
		}
		if filepath.Clean(f.FilePath) != d.file || int(f.EntryLineNumber) != d.line {
			v.violate("diff:location", "%s: %s at %s:%d, want %s:%d", what, id, f.FilePath, f.EntryLineNumber, d.file, d.line)
		}
		if wn := id[strings.LastIndexAny(id, ":.")+1:]; f.FunctionName != wn || f.PackageName != id[:strings.LastIndex(id, ":")] {
			v.violate("diff:names", "%s: %s has name %q package %q", what, id, f.FunctionName, f.PackageName)
		}
		rets := map[uint32]uint32{}
		for _, rp := range f.ReturnPoints {
			if _, dup := rets[rp.Line]; dup {
				v.violate("diff:return points", "%s: %s lists line %d twice", what, id, rp.Line)
			}
			rets[rp.Line] = rp.CallCount
		}
		if len(rets)+len(d.rets) > 0 && !reflect.DeepEqual(rets, d.rets) {
			v.violate("diff:return points", "%s: %s has return points %v, want %v", what, id, rets, d.rets)
		}
		if f.ReturnPanic != (len(d.rets) == 0) {
			v.violate("diff:return panic", "%s: %s ReturnPanic=%v with %d returns", what, id, f.ReturnPanic, len(d.rets))
		}
		if !reflect.DeepEqual(c12Toks(f.Definition), d.toks) {
			v.violate("diff:definition", "%s: %s has the definition\n%s\nwhich is not its code in the old version:\n%s", what, id, f.Definition, strings.Join(d.lines, "\n"))
			continue
		}
		defLines := c12Lines(c12Blank(f.Definition))
		if len(f.LineChangeBitmap) != len(defLines) {
			v.violate("diff:marks length", "%s: %s has %d marks for %d lines", what, id, len(f.LineChangeBitmap), len(defLines))
			continue
		}
		// the lines not marked must appear, in order, in the new version
		k := 0
		marked := 0
		bad := ""
		var newNonBlank []string
		for _, l := range n.lines {
			if l != "" {
				newNonBlank = append(newNonBlank, l)
			}
		}
		for i, l := range defLines {
			if f.LineChangeBitmap[i] {
				marked++
				continue
			}
			if l == "" {
				continue
			}
			for k < len(newNonBlank) && newNonBlank[k] != l {
				k++
			}
			if k == len(newNonBlank) {
				bad = l
				break
			}
			k++
		}
		if bad != "" {
			v.violate("diff:line not marked", "%s: %s: line %q changed but is not marked %v\nold:\n%s\nnew:\n%s", what, id, bad, f.LineChangeBitmap, f.Definition, strings.Join(n.lines, "\n"))
		}
		if marked == 0 && radius > 0 {
			v.violate("diff:no marks", "%s: %s has no line marked\nold:\n%s\nnew:\n%s", what, id, f.Definition, strings.Join(n.lines, "\n"))
		}
		v.observe("lines marked", marked)
	}
	for id := range want {
		if seen[id] == 0 {
			v.violate("diff:change missed", "%s: %s changed but is not reported\nold: %s\nnew: %s", what, id, strings.Join(oldD[id].lines, "\n"), strings.Join(newBy[c12Key(id)].lines, "\n"))
		}
	}
	v.observe("functions compared", len(oldD))
	v.observe("changed functions expected", len(want))
}

func c12Pair(v *vRun, i int) {
	r := v.rng(fmt.Sprintf("pair%d", i))
	cache := vTempDir("c12-")
	defer os.RemoveAll(cache)
	mod := vPick(r, "example.com/m", "github.com/Some/Mod", "example.com/m/v2", "gopkg.in/y.v1")
	oldV, newV := "v1.0.0", "v1.1.0"
	if strings.HasSuffix(mod, "/v2") {
		oldV, newV = "v2.0.0-RC1", "v2.0.1-0.20230101120000-abcdefabcdef"
	}
	layouts := []*c12Pkg{{dir: "", name: "m"}, {dir: "sub", name: "sub"}, {dir: "sub/deep", name: "other"}, {dir: "internal/in", name: "in"}, {dir: "cmd/tool", name: "main"}}
	if r.Intn(2) == 0 { // several packages of one name
		for _, l := range layouts[1:4] {
			l.name = vPick(r, l.name, "util", "util", "m")
		}
	}
	var olds, news []*c12Pkg
	edits := map[string]int{}
	for k, l := range layouts {
		o, n := &c12Pkg{dir: l.dir, name: l.name}, &c12Pkg{dir: l.dir, name: l.name}
		if l.name == "main" {
			mf := &c12Fn{name: "main", body: [][]string{{"x := 1"}, {"_ = x"}}, ret: "zero(1)"}
			o.fns, n.fns = append(o.fns, mf), append(n.fns, mf.clone())
		}
		for j := 0; j < 14; j++ {
			f := c12GenFn(r, j)
			switch e := r.Intn(20); {
			case e < 10:
				o.fns, n.fns = append(o.fns, f), append(n.fns, f.clone())
				edits["same"]++
			case e < 17:
				g := f.clone()
				what := g.change(r)
				edits[what]++
				v.seen("edit:" + what + "/" + fmt.Sprint(f.recv != "", f.tpar != ""))
				o.fns, n.fns = append(o.fns, f), append(n.fns, g)
			case e == 17:
				o.fns = append(o.fns, f)
				edits["removed"]++
			case e == 18:
				n.fns = append(n.fns, f)
				edits["added"]++
			default: // renamed: to the callers a removal and an addition
				g := f.clone()
				g.name += "Renamed"
				o.fns, n.fns = append(o.fns, f), append(n.fns, g)
				edits["renamed"]++
			}
		}
		inOld, inNew := true, true
		if k > 0 {
			switch r.Intn(8) {
			case 0:
				inOld = false
			case 1:
				inNew = false
			}
		}
		if inOld {
			olds = append(olds, o)
		}
		if inNew {
			news = append(news, n)
		}
	}
	oldGo, newGo := vPick(r, "1.20", "1.21.0", "1.9", "1.18", "1.25.1"), vPick(r, "1.20", "1.22.3", "1.10", "1.25")
	oldDir, newDir := c12ModDir(cache, mod, oldV), c12ModDir(cache, mod, newV)
	noise := r.Intn(5) > 0
	c12Write(r, oldDir, mod, oldGo, olds, noise)
	c12Write(r, newDir, mod, newGo, news, noise)
	oldD, newD := c12Decls(oldDir, mod, olds), c12Decls(newDir, mod, news)
	proj := filepath.Join(cache, "proj")
	vWriteTree(proj, map[string]string{"go.mod": "module example.com/p\n\ngo 1.21\n\nrequire " + mod + " " + oldV + "\n"})
	radius := r.Intn(3)
	mc := &ModuleChange{Name: mod, PriorVersion: oldV, NewVersion: newV}
	list := []*ModuleChange{mc}
	if r.Intn(3) == 0 { // named twice
		list = append(list, &ModuleChange{Name: mod, PriorVersion: oldV, NewVersion: newV})
	}
	what := fmt.Sprintf("pair %d (%s)", i, mod)
	got, pkgs, err := AnalyzeModuleChanges(cache, r.Intn(2) == 0, proj, list, radius)
	if err != nil {
		v.violate("diff:error", "%s: %v", what, err)
		return
	}
	v.sample(map[string]any{"module": mod, "edits": edits, "reported": len(got[mod]), "radius": radius})
	if len(got) != 1 {
		v.violate("diff:modules", "%s: results for %d modules", what, len(got))
	}
	c12Judge(v, what, mod, oldV, newV, oldD, newD, got[mod], radius)
	wantGo := oldGo
	if semver.Compare("v"+newGo, "v"+oldGo) < 0 {
		wantGo = newGo
	}
	if mc.GoVersion != wantGo {
		v.violate("diff:go version", "%s: go version %q, want the older of %q and %q", what, mc.GoVersion, oldGo, newGo)
	}
	// packages of the new version
	paths := map[string]bool{}
	for _, p := range pkgs[mod] {
		paths[p.PkgPath] = true
		for _, f := range p.GoFiles {
			if !strings.HasPrefix(f, newDir+string(filepath.Separator)) {
				v.violate("diff:new packages", "%s: package %s has the file %s outside the new version", what, p.PkgPath, f)
			}
		}
	}
	for _, p := range news {
		pp := mod
		if p.dir != "" {
			pp += "/" + p.dir
		}
		if !paths[pp] {
			v.violate("diff:new packages", "%s: package %s of the new version is not returned", what, pp)
		}
		delete(paths, pp)
	}
	if len(paths) > 0 {
		v.violate("diff:new packages", "%s: packages %v are not in the new version", what, paths)
	}
	fns, err := ExtractModuleFunctionsFromPackages(pkgs[mod], mc)
	if err != nil {
		v.violate("extract:error", "%s: %v", what, err)
	}
	cnt := map[string]int{}
	for _, f := range fns {
		cnt[f.FunctionIdent]++
		d, ok := newD[f.FunctionIdent]
		if !ok || cnt[f.FunctionIdent] > 1 || filepath.Clean(f.FilePath) != d.file || int(f.EntryLineNumber) != d.line || f.Module != mc || !reflect.DeepEqual(c12Toks(f.Definition), d.toks) {
			v.violate("extract:function", "%s: extracted %s (%d times) at %s:%d, known=%v want %s:%d\n%s", what, f.FunctionIdent, cnt[f.FunctionIdent], f.FilePath, f.EntryLineNumber, ok, d.file, d.line, f.Definition)
		}
	}
	if len(cnt) != len(newD) {
		v.violate("extract:missing", "%s: extracted %d of %d functions", what, len(cnt), len(newD))
	}
}

// c12Graph: modules m0..m4 with versions v1.0.0..v1.3.0, each with its own requirements.
func c12Graph(v *vRun, i int) {
	r := v.rng(fmt.Sprintf("graph%d", i))
	cache := vTempDir("c12-")
	defer os.RemoveAll(cache)
	const M = 5
	vers := []string{"v1.0.0", "v1.9.0", "v1.10.0", "v1.10.1-rc.1"}
	name := func(m int) string { return fmt.Sprintf("example.com/m%d", m) }
	decls := map[string]map[string]c12Decl{}
	reqs := map[string]map[string]string{}
	base := map[int]*c12Pkg{}
	for m := 0; m < M; m++ {
		p := &c12Pkg{name: "m"}
		for j := 0; j < 4; j++ {
			p.fns = append(p.fns, c12GenFn(r, j))
		}
		base[m] = p
		for _, ver := range vers {
			q := &c12Pkg{name: "m"}
			for _, f := range p.fns {
				g := f.clone()
				if r.Intn(2) == 0 {
					g.change(r)
				}
				q.fns = append(q.fns, g)
			}
			dir := c12ModDir(cache, name(m), ver)
			c12Write(r, dir, name(m), "", []*c12Pkg{q}, false)
			gm := "module " + name(m) + "\n\ngo 1.21\n"
			rq := map[string]string{}
			for d := 0; d < M; d++ {
				if d != m && r.Intn(2) == 0 {
					rq[name(d)] = vPick(r, vers...)
					gm += "\nrequire " + name(d) + " " + rq[name(d)] + "\n"
				}
			}
			if r.Intn(4) == 0 {
				rq["example.com/unrelated"] = vPick(r, vers...) // the project does not know it
				gm += "\nrequire example.com/unrelated " + rq["example.com/unrelated"] + "\n"
			}
			vWriteTree(dir, map[string]string{"go.mod": gm})
			reqs[name(m)+"@"+ver] = rq
			decls[name(m)+"@"+ver] = c12Decls(dir, name(m), []*c12Pkg{q})
		}
	}
	// the project: a single module, or a workspace whose members may disagree (the oldest counts)
	projReq := map[string]string{}
	proj := filepath.Join(cache, "proj")
	member := func(dir string) {
		gm := "module example.com/p" + dir + "\n\ngo 1.21\n"
		for m := 0; m < M; m++ {
			if r.Intn(5) > 0 {
				ver := vPick(r, vers...)
				gm += "\nrequire " + name(m) + " " + ver + "\n"
				if o, ok := projReq[name(m)]; !ok || semver.Compare(ver, o) < 0 {
					projReq[name(m)] = ver
				}
			}
		}
		vWriteTree(proj, map[string]string{filepath.Join(dir, "go.mod"): gm})
	}
	if r.Intn(3) == 0 {
		member("a")
		member("b")
		vWriteTree(proj, map[string]string{"go.work": "go 1.21\n\nuse ./a\nuse ./b\n"})
	} else {
		member("")
	}
	nd := 1 + r.Intn(2)
	var list []*ModuleChange
	type pn struct{ old, new string }
	want := map[string]pn{}
	var level []string
	for k := 0; k < nd; k++ {
		m := name(r.Intn(M))
		o := projReq[m]
		if o == "" {
			o = vers[0]
		}
		n := vPick(r, vers...)
		if o == n {
			continue
		}
		if _, dup := want[m]; dup {
			n = want[m].new // repetition of the same update
			o = want[m].old
		} else {
			want[m] = pn{o, n}
			level = append(level, m)
		}
		list = append(list, &ModuleChange{Name: m, PriorVersion: o, NewVersion: n})
	}
	trans := r.Intn(4) > 0
	direct := len(want)
	for trans && len(level) > 0 {
		next := map[string]pn{}
		for _, m := range level {
			ch := want[m]
			for d, nv := range reqs[m+"@"+ch.new] {
				if ov, ok := reqs[m+"@"+ch.old][d]; ok && ov == nv {
					continue
				}
				pv, ok := projReq[d]
				if !ok || semver.Compare(nv, pv) <= 0 {
					continue
				}
				if c, ok := next[d]; !ok || semver.Compare(nv, c.new) > 0 {
					next[d] = pn{pv, nv}
				}
			}
		}
		level = level[:0]
		for d, c := range next {
			if _, done := want[d]; !done {
				want[d] = c
				level = append(level, d)
			}
		}
	}
	what := fmt.Sprintf("graph %d", i)
	in := ""
	for _, mc := range list {
		in += fmt.Sprintf(" %s %s->%s", mc.Name, mc.PriorVersion, mc.NewVersion)
	}
	what += " updating" + in
	r.Shuffle(len(list), func(a, b int) { list[a], list[b] = list[b], list[a] })
	got, _, err := AnalyzeModuleChanges(cache, trans, proj, list, 1)
	if err != nil {
		v.violate("graph:error", "%s: %v", what, err)
		return
	}
	v.seen(fmt.Sprintf("graph direct=%d all=%d", direct, len(want)))
	v.observe("modules expected in graphs", len(want))
	v.observe("transitive modules expected", len(want)-direct)
	for m, c := range want {
		if _, ok := got[m]; !ok {
			changed := false // a transitive module without changes need not be listed
			for id, d := range decls[m+"@"+c.old] {
				changed = changed || !reflect.DeepEqual(decls[m+"@"+c.new][id].toks, d.toks)
			}
			if changed {
				v.violate("graph:module missed", "%s: %s %s->%s is not analysed (project %v)", what, m, c.old, c.new, projReq)
			}
			continue
		}
		c12Judge(v, what+": "+m, m, c.old, c.new, decls[m+"@"+c.old], decls[m+"@"+c.new], got[m], 1)
	}
	for m := range got {
		if _, ok := want[m]; !ok {
			v.violate("graph:module invented", "%s: %s is reported but not updated (project %v)", what, m, projReq)
		}
	}
}

// c12Bitmap: exact line marks for definitions whose lines are all different.
func c12Bitmap(v *vRun, i int) {
	r := v.rng(fmt.Sprintf("bitmap%d", i))
	n := 1 + r.Intn(12)
	if r.Intn(20) == 0 {
		n = 200 + r.Intn(200)
	}
	radius := r.Intn(4)
	forNew := r.Intn(3) == 0
	var old, new []string
	line := func() string { return fmt.Sprintf("\tx += %d", c12N()) }
	type blk struct{ o, n int }
	var blocks []blk // alternating equal lines and changes
	for len(old) < n {
		if r.Intn(3) == 0 && (len(blocks) == 0 || blocks[len(blocks)-1] == (blk{1, 1})) {
			b := blk{r.Intn(3), r.Intn(3)}
			if b.o+b.n == 0 {
				continue
			}
			if b.o == 1 && b.n == 1 {
				b.n = 2
			}
			for k := 0; k < b.o; k++ {
				old = append(old, line())
			}
			for k := 0; k < b.n; k++ {
				new = append(new, line())
			}
			blocks = append(blocks, b)
		} else {
			l := line()
			old, new = append(old, l), append(new, l)
			blocks = append(blocks, blk{1, 1})
		}
	}
	if len(new) == 0 {
		return
	}
	want := make([]bool, len(old))
	if forNew {
		want = make([]bool, len(new))
	}
	mark := func(i int) {
		if i >= 0 && i < len(want) {
			want[i] = true
		}
	}
	oi, ni := 0, 0
	for _, b := range blocks {
		if b != (blk{1, 1}) {
			switch {
			case !forNew && b.o > 0:
				for k := 0; k < b.o; k++ {
					mark(oi + k)
				}
			case !forNew: // added code: the neighbours
				for k := 0; k < radius; k++ {
					mark(oi - 1 - k)
					mark(oi + k)
				}
			case b.o > 0:
				for k := 0; k < b.n; k++ {
					mark(ni + k)
				}
			default:
				for k := -radius; k < b.n+radius; k++ {
					mark(ni + k)
				}
			}
		}
		oi += b.o
		ni += b.n
	}
	v.eval()
	v.seen(fmt.Sprint("bitmap", radius, forNew, len(blocks)))
	got := computeChangeLineBitmap(strings.Join(old, "\n"), strings.Join(new, "\n"), forNew, radius)
	if !reflect.DeepEqual(got, want) {
		v.violate("bitmap", "radius %d new=%v\nold:\n%s\nnew:\n%s\ngot  %v\nwant %v", radius, forNew, strings.Join(old, "\n"), strings.Join(new, "\n"), got, want)
	}
}

func vMain(t *testing.T) {
	v := vNew("an evaluation is one reported or examined function; distinct: kind of edit x kind of function, graph shapes, diff shapes")
	vQuiet()
	v.assumptions = []string{"functions are named; several init or blank functions of one package are not told apart", "modules load with the installed go command"}
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	run := func(n int, f func(*vRun, int), name string) {
		for i := 0; i < n; i++ {
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer func() { <-sem; wg.Done() }()
				v.guard("diff", fmt.Sprintf("%s %d", name, i), 5*time.Minute, false, func() { f(v, i) })
			}()
		}
	}
	run(v.n(60, 600), c12Pair, "pair")
	run(v.n(300, 2000), c12Graph, "graph")
	wg.Wait()
	for i := 0; i < v.n(4000, 100000); i++ {
		c12Bitmap(v, i)
	}
	var keys []string
	for k := range v.observed {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	v.finish(1000)
}
