package lens

// C13: generated project states (single module or workspace) and updated states with a known dependency table; the
// reported updates, versions, module files and package patterns are compared with the table.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"
)

type c13Dep struct {
	ver      string
	indirect bool
}

type c13Mod struct {
	path, gover string
	deps        map[string]c13Dep
}

var c13Paths = []string{"example.com/a", "example.com/a/b", "example.com/a/v2", "github.com/Up/Case", "gopkg.in/x.v1", "example.com/zz", "example.com/q-r_s.t", "example.com/m/sub/deep", "k8s.io/api", "example.com/inc"}

func c13Ver(r *rand.Rand, path string) string {
	switch {
	case strings.HasSuffix(path, "/v2"):
		return vPick(r, "v2.0.0", "v2.1.0", "v2.10.0", "v2.9.0", "v2.1.0-rc.1", "v2.0.1-0.20230101120000-abcdefabcdef")
	case path == "gopkg.in/x.v1":
		return vPick(r, "v1.0.0", "v1.2.3", "v1.10.0", "v1.9.9")
	case path == "example.com/inc":
		return vPick(r, "v2.0.0+incompatible", "v3.1.0+incompatible", "v10.0.0+incompatible", "v1.0.0")
	}
	return vPick(r, "v0.0.0-20200101000000-0123456789ab", "v0.0.0-20210101000000-0123456789ab", "v0.1.0", "v0.2.0", "v1.0.0", "v1.0.0-RC1", "v1.0.0-alpha", "v1.0.0-beta.2", "v1.2.0", "v1.10.0", "v1.9.0")
}

func c13GenMod(r *rand.Rand, path string) c13Mod {
	m := c13Mod{path, vPick(r, "1.18", "1.20", "1.21.0", "1.21.5", "1.22.1", "1.9", ""), map[string]c13Dep{}}
	for _, p := range c13Paths {
		if r.Intn(2) == 0 {
			m.deps[p] = c13Dep{c13Ver(r, p), r.Intn(3) == 0}
		}
	}
	return m
}

// text renders a go.mod in some of the many ways it can be written.
func (m c13Mod) text(r *rand.Rand) string {
	var b strings.Builder
	nl := "\n"
	if r.Intn(4) == 0 {
		b.WriteString("// header comment" + nl + nl)
	}
	if r.Intn(6) == 0 {
		fmt.Fprintf(&b, "module (\n\t%s\n)%s", m.path, nl)
	} else if r.Intn(6) == 0 {
		fmt.Fprintf(&b, "module %q%s", m.path, nl)
	} else {
		b.WriteString("module " + m.path + nl)
	}
	if m.gover != "" {
		b.WriteString(nl + "go " + m.gover + nl)
	}
	if r.Intn(5) == 0 {
		b.WriteString("toolchain go1.25.0" + nl)
	}
	paths := sortedKeys13(m.deps)
	r.Shuffle(len(paths), func(i, j int) { paths[i], paths[j] = paths[j], paths[i] })
	line := func(p string) string {
		d := m.deps[p]
		s := p
		if r.Intn(8) == 0 {
			s = fmt.Sprintf("%q", p)
		}
		s += strings.Repeat(" ", 1+r.Intn(2)) + d.ver
		if d.indirect {
			s += vPick(r, " // indirect", " //indirect", "\t// indirect; needed")
		} else if r.Intn(6) == 0 {
			s += " // pinned // see issue"
		}
		return s
	}
	extra := func() {
		switch r.Intn(6) {
		case 0:
			b.WriteString("exclude example.com/a v1.2.0" + nl)
		case 1:
			b.WriteString("retract v1.0.1 // broken" + nl)
		case 2:
			b.WriteString("exclude (\n\texample.com/zz v0.1.0\n\t// c\n)" + nl)
		case 3:
			b.WriteString("ignore ./static" + nl)
		}
	}
	for len(paths) > 0 {
		extra()
		if r.Intn(2) == 0 {
			b.WriteString("require " + line(paths[0]) + nl)
			paths = paths[1:]
			continue
		}
		n := 1 + r.Intn(len(paths))
		b.WriteString("require (" + nl)
		for _, p := range paths[:n] {
			if r.Intn(6) == 0 {
				b.WriteString("\t// a comment: example.com/a v9.9.9" + nl)
			}
			if r.Intn(10) == 0 {
				b.WriteString(nl)
			}
			b.WriteString("\t" + line(p) + nl)
		}
		b.WriteString(")" + nl)
		paths = paths[n:]
	}
	if r.Intn(8) == 0 {
		b.WriteString("require (" + nl + ")" + nl)
	}
	extra()
	s := b.String()
	if r.Intn(8) == 0 {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	if r.Intn(8) == 0 {
		s = strings.TrimRight(s, "\r\n")
	}
	return s
}

func sortedKeys13[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// c13Update is an updated version of a module file.
func c13Update(r *rand.Rand, m c13Mod, none bool) c13Mod {
	n := c13Mod{m.path, m.gover, map[string]c13Dep{}}
	for p, d := range m.deps {
		switch {
		case none:
		case r.Intn(3) == 0:
			d.ver = c13Ver(r, p)
		case r.Intn(5) == 0:
			continue
		}
		if r.Intn(5) == 0 {
			d.indirect = !d.indirect
		}
		n.deps[p] = d
	}
	if !none {
		for _, p := range c13Paths {
			if _, ok := n.deps[p]; !ok && r.Intn(6) == 0 {
				n.deps[p] = c13Dep{c13Ver(r, p), false}
			}
		}
	}
	return n
}

func c13Want(o, n c13Mod) []string {
	var l []string
	for p, d := range n.deps {
		if od, ok := o.deps[p]; ok && od.ver != d.ver {
			l = append(l, fmt.Sprintf("%s %s->%s indirect=%v", p, od.ver, d.ver, d.indirect))
		}
	}
	sort.Strings(l)
	return l
}

func c13Got(l []*ModuleChange) (list, set []string) {
	seen := map[string]bool{}
	for _, c := range l {
		s := "<nil>"
		if c != nil {
			s = fmt.Sprintf("%s %s->%s indirect=%v", c.Name, c.PriorVersion, c.NewVersion, c.Indirect)
		}
		list = append(list, s)
		if !seen[s] {
			seen[s] = true
			set = append(set, s)
		}
	}
	sort.Strings(set)
	return
}

func eq13(a, b []string) bool { return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b) }

// c13Proj is a generated project: members by directory relative to the project.
type c13Proj struct {
	dir        string
	work       bool
	root       bool // a go.mod in the project directory
	rootUsed   bool
	members    map[string]c13Mod // workspace members other than the root, by use path
	rootMod    c13Mod
	missing    []string
	abs        map[string]bool
	workHeader string
}

func (p *c13Proj) memberDir(use string) string {
	if filepath.IsAbs(use) {
		return use
	}
	return filepath.Join(p.dir, use)
}

func (p *c13Proj) write(r *rand.Rand) {
	if err := os.MkdirAll(p.dir, 0o755); err != nil {
		panic(err)
	}
	if p.root {
		vWriteTree(p.dir, map[string]string{"go.mod": p.rootMod.text(r)})
	}
	var uses []string
	for use, m := range p.members {
		vWriteTree(p.memberDir(use), map[string]string{"go.mod": m.text(r)})
		u := use
		if !filepath.IsAbs(u) && !strings.HasPrefix(u, "..") {
			u = "./" + u
			if r.Intn(6) == 0 {
				u += "/"
			}
		}
		uses = append(uses, u)
	}
	if p.work {
		if p.rootUsed {
			uses = append(uses, ".")
		}
		for _, m := range p.missing {
			uses = append(uses, "./"+m)
		}
		sort.Strings(uses)
		r.Shuffle(len(uses), func(i, j int) { uses[i], uses[j] = uses[j], uses[i] })
		var b strings.Builder
		b.WriteString("go 1.25\n")
		for len(uses) > 0 {
			if r.Intn(2) == 0 {
				b.WriteString("use " + uses[0] + "\n")
				uses = uses[1:]
				continue
			}
			n := 1 + r.Intn(len(uses))
			b.WriteString("use (\n")
			for _, u := range uses[:n] {
				b.WriteString("\t" + u + vPick(r, "", " // member") + "\n")
			}
			b.WriteString(")\n")
			uses = uses[n:]
		}
		vWriteTree(p.dir, map[string]string{"go.work": b.String()})
	}
}

var c13Uses = []string{"a", "b", "nested/deep/c", "a/inner", "..dots", "../sibling", "under_score"}

func c13GenProj(r *rand.Rand, base string) *c13Proj {
	p := &c13Proj{dir: filepath.Join(base, "old", "proj"), members: map[string]c13Mod{}}
	p.work = r.Intn(3) > 0
	p.root = !p.work || r.Intn(2) == 0
	p.rootUsed = p.root && r.Intn(3) > 0
	if p.root {
		p.rootMod = c13GenMod(r, "example.com/proj")
	}
	if p.work {
		for i, u := range c13Uses {
			if r.Intn(3) == 0 {
				p.members[u] = c13GenMod(r, fmt.Sprintf("example.com/member%d", i))
			}
		}
		if r.Intn(4) == 0 {
			p.members[filepath.Join(base, "absmember")] = c13GenMod(r, "example.com/absmember")
		}
		if r.Intn(6) == 0 {
			p.missing = []string{"gone"}
		}
		if len(p.members) == 0 && !p.root {
			p.members["a"] = c13GenMod(r, "example.com/only")
		}
	}
	return p
}

func vMain(t *testing.T) {
	vQuiet()
	v := vNew("one evaluation is one generated project state (or pair of states) whose reported updates, versions, module files and patterns were compared with the generating table; distinct by layout and table")
	v.assumptions = []string{"each module file requires a module at most once; replace directives are outside the statement (versions are the required ones)"}
	r := v.rng("projects")
	n := v.n(1500, 20000)
	base := vTempDir("c13")
	defer os.RemoveAll(base)
	for i := 0; i < n; i++ {
		dir := filepath.Join(base, fmt.Sprint(i))
		v.guard("state", fmt.Sprintf("project state %d", i), 5*time.Minute, true, func() { c13Case(v, r, dir, i) })
		_ = os.RemoveAll(dir)
	}
	c13Malformed(v, r, base)
	c13Expand(v, r, base)
	c13Cache(v, r, base)
	v.finish(n)
}

func c13Case(v *vRun, r *rand.Rand, dir string, i int) {
	v.eval()
	p := c13GenProj(r, dir)
	p.write(r)
	all := map[string]c13Mod{} // go.mod path -> module
	if p.root {
		all[filepath.Join(p.dir, "go.mod")] = p.rootMod
	}
	for u, m := range p.members {
		all[filepath.Join(p.memberDir(u), "go.mod")] = m
	}
	desc := func() string {
		b, _ := os.ReadFile(filepath.Join(p.dir, "go.work"))
		s := "go.work:\n" + string(b)
		for _, g := range sortedKeys13(all) {
			b, _ := os.ReadFile(g)
			s += "\n--- " + g + "\n" + string(b)
		}
		return vShort(s, 3000)
	}
	v.seen(fmt.Sprintf("work=%v root=%v used=%v members=%v", p.work, p.root, p.rootUsed, sortedKeys13(p.members)))
	v.observe("module_files", len(all))
	if i < 2 {
		v.sample(desc())
	}

	// the generator must produce what the go command reads the same way
	if i%40 == 0 {
		for g, m := range all {
			out, err := exec.Command("go", "mod", "edit", "-json", g).Output()
			var j struct {
				Require []struct {
					Path, Version string
					Indirect      bool
				}
			}
			if err != nil || json.Unmarshal(out, &j) != nil {
				v.unsure("go mod edit does not read generated %s: %v", g, err)
				continue
			}
			if len(j.Require) != len(m.deps) {
				v.unsure("generator and go command disagree on %s", g)
			}
			for _, q := range j.Require {
				if m.deps[q.Path] != (c13Dep{q.Version, q.Indirect}) {
					v.unsure("generator and go command disagree on %s in %s", q.Path, g)
				}
			}
			v.observe("go_command_cross_checks", 1)
		}
	}

	// module files and patterns
	files, err := ProjectGoModFiles(p.dir)
	if err != nil {
		v.violate("files-error", "listing module files failed: %v\n%s", err, desc())
		return
	}
	var clean []string
	for _, f := range files {
		clean = append(clean, filepath.Clean(f))
	}
	got := append([]string(nil), clean...)
	sort.Strings(got)
	if !eq13(got, sortedKeys13(all)) {
		v.violate("files", "module files listed: %v\nexpected: %v\n%s", got, sortedKeys13(all), desc())
	}
	pats, err := ProjectPackagePatterns(p.dir)
	if err != nil {
		v.violate("patterns-error", "package patterns failed: %v\n%s", err, desc())
	}
	var dirs, wantDirs []string
	for _, q := range pats {
		if !strings.HasSuffix(q, "/...") {
			v.violate("pattern-form", "pattern %q does not cover a tree", q)
			continue
		}
		d := strings.TrimSuffix(q, "/...")
		if !filepath.IsAbs(d) {
			if d != "." && !strings.HasPrefix(d, "./") && !strings.HasPrefix(d, "../") {
				v.violate("pattern-form", "pattern %q is not a directory pattern", q)
			}
			d = filepath.Join(p.dir, d)
		}
		dirs = append(dirs, filepath.Clean(d))
	}
	for g := range all {
		wantDirs = append(wantDirs, filepath.Dir(g))
	}
	sort.Strings(dirs)
	sort.Strings(wantDirs)
	if !eq13(dirs, wantDirs) {
		v.violate("patterns", "package patterns %v cover %v\nexpected %v\n%s", pats, dirs, wantDirs, desc())
	}

	// versions
	names := append([]string{"example.com/absent", "example.com", "example.com/proj"}, c13Paths...)
	for _, name := range names {
		var opts []c13Dep
		for _, m := range all {
			if d, ok := m.deps[name]; ok {
				opts = append(opts, d)
			}
		}
		ver, ind, err := FindModuleVersion(p.dir, name)
		if err != nil {
			v.violate("version-error", "finding %s: %v\n%s", name, err, desc())
			continue
		}
		ver2, ind2, _ := FindModuleVersion(p.dir, name)
		if ver != ver2 || ind != ind2 {
			v.violate("version-nondeterministic", "finding %s twice: %s/%v then %s/%v\n%s", name, ver, ind, ver2, ind2, desc())
		}
		ok := len(opts) == 0 && ver == "" && !ind
		for _, o := range opts {
			ok = ok || (o == c13Dep{ver, ind})
		}
		if !ok {
			v.violate("version", "version found for %s: %q indirect=%v; stated: %+v\n%s", name, ver, ind, opts, desc())
		}
		v.observe("version_lookups", 1)
	}
	for g, m := range all {
		for _, name := range names {
			ver, ind, err := FindModuleVersionInGoMod(g, name)
			if d := m.deps[name]; err != nil || d.ver != ver || d.indirect != ind {
				v.violate("version-in-file", "%s in %s: %q/%v/%v, stated %+v\n%s", name, g, ver, ind, err, d, desc())
			}
		}
		deps, gover, err := parseGoMod(g)
		want := map[string]string{}
		for q, d := range m.deps {
			want[q] = d.ver
		}
		if err != nil || !reflect.DeepEqual(deps, want) || gover != m.gover {
			v.violate("parse-file", "%s parsed as %v go %q (%v), expected %v go %q", g, deps, gover, err, want, m.gover)
		}
	}

	// single file update
	for g, m := range all {
		up := c13Update(r, m, r.Intn(5) == 0)
		ng := filepath.Join(dir, "updated.mod")
		vWriteTree(dir, map[string]string{"updated.mod": up.text(r)})
		ch, err := DiffModulesFromGoModFiles(g, ng)
		nb, _ := os.ReadFile(ng)
		list, set := c13Got(ch)
		if err != nil {
			v.violate("diff-error", "diff failed: %v\n%s\nupdated:\n%s", err, desc(), nb)
			continue
		}
		want := c13Want(m, up)
		sort.Strings(want)
		sorted := append([]string(nil), list...)
		sort.Strings(sorted)
		if !eq13(sorted, want) {
			v.violate("diff", "updates of %s reported: %v\nexpected: %v\nold:\n%s\nnew:\n%s", g, list, want, desc(), nb)
		}
		_ = set
		ch2, _ := DiffModulesFromGoModFiles(g, ng)
		if l2, _ := c13Got(ch2); !eq13(l2, list) {
			v.violate("diff-nondeterministic", "updates reported once as %v and once as %v", list, l2)
		}
		v.observe("module_file_diffs", 1)
		v.observe("updates_expected", len(want))
		v.seen(strings.Join(want, ";"))
		if len(all) == 1 {
			e := &AnalysisEngine{Config: &Config{AbsProjDir: p.dir, UpdatedGoModFile: ng, MutationScope: "line"}}
			res, err := e.parseInitialModules()
			if err != nil {
				v.violate("initial-error", "initial modules from -gomod: %v", err)
			} else if l3, _ := c13Got(res.changedModules); !eq13(l3, list) || res.analyzeExpandTransitive {
				v.violate("initial-gomod", "initial modules from -gomod %v (transitive %v), expected %v", l3, res.analyzeExpandTransitive, list)
			}
		}
	}

	// explicit target modules
	var targets []TargetModule
	var want []string
	for _, name := range names {
		if r.Intn(3) == 0 {
			targets = append(targets, TargetModule{name, "v9.9.9"})
			if ver, ind, _ := FindModuleVersion(p.dir, name); ver != "" {
				want = append(want, fmt.Sprintf("%s %s->v9.9.9 indirect=%v", name, ver, ind))
			}
		}
	}
	if len(targets) > 0 {
		e := &AnalysisEngine{Config: &Config{AbsProjDir: p.dir, TargetModules: targets, MutationScope: "area"}}
		res, err := e.parseInitialModules()
		if err != nil {
			v.violate("initial-error", "initial modules: %v\n%s", err, desc())
		} else if l, _ := c13Got(res.changedModules); !eq13(l, want) || !res.analyzeExpandTransitive {
			v.violate("initial-targets", "initial modules %v (transitive %v), expected %v\n%s", l, res.analyzeExpandTransitive, want, desc())
		}
	}

	// workspace update
	if p.work {
		np := &c13Proj{dir: filepath.Join(dir, "new", "proj"), work: true, root: p.root, rootUsed: p.rootUsed, members: map[string]c13Mod{}, rootMod: c13Update(r, p.rootMod, r.Intn(4) == 0)}
		wantSet := map[string]bool{}
		addWant := func(o, n c13Mod) {
			for _, s := range c13Want(o, n) {
				wantSet[s] = true
			}
		}
		if p.rootUsed {
			addWant(p.rootMod, np.rootMod)
		}
		for _, u := range sortedKeys13(p.members) {
			if filepath.IsAbs(u) {
				np.members[u] = p.members[u] // one directory: the same file in both states
				continue
			}
			if r.Intn(8) == 0 {
				continue // member dropped by the update
			}
			np.members[u] = c13Update(r, p.members[u], r.Intn(4) == 0)
			addWant(p.members[u], np.members[u])
		}
		if _, ok := p.members["b"]; !ok && r.Intn(4) == 0 {
			np.members["b"] = c13GenMod(r, "example.com/newmember")
		}
		absText := map[string][]byte{}
		for u := range p.members {
			if filepath.IsAbs(u) {
				absText[u], _ = os.ReadFile(filepath.Join(u, "go.mod"))
			}
		}
		np.write(r)
		for u, b := range absText {
			_ = os.WriteFile(filepath.Join(u, "go.mod"), b, 0o644)
		}
		newWork := filepath.Join(np.dir, "go.work")
		var first []string
		for k := 0; k < 3; k++ {
			ch, err := DiffModulesFromGoWorkFiles(p.dir, newWork)
			nb, _ := os.ReadFile(newWork)
			if err != nil {
				v.violate("workdiff-error", "workspace diff failed: %v\n%s\nnew go.work:\n%s", err, desc(), nb)
				return
			}
			list, set := c13Got(ch)
			if w := sortedKeys13(wantSet); !eq13(set, w) {
				v.violate("workdiff", "workspace updates reported: %v\nexpected: %v\n%s\nnew go.work:\n%s", list, w, desc(), nb)
			}
			if k == 0 {
				first = list
				v.observe("workspace_diffs", 1)
			} else if !eq13(list, first) {
				v.violate("workdiff-nondeterministic", "workspace updates reported once as %v and once as %v", first, list)
			}
		}
		e := &AnalysisEngine{Config: &Config{AbsProjDir: p.dir, UpdatedGoWorkFile: newWork, MutationScope: "none"}}
		res, err := e.parseInitialModules()
		if err != nil {
			v.violate("initial-error", "initial modules from -gowork: %v", err)
		} else if l, _ := c13Got(res.changedModules); !eq13(l, first) {
			v.violate("initial-gowork", "initial modules from -gowork %v, expected %v", l, first)
		}
	}

	// project dependency table: oldest or newest stated version per module
	for _, newest := range []bool{false, true} {
		deps, gover, err := parseProjectDeps(p.dir, newest)
		if err != nil {
			v.violate("deps-error", "dependency table: %v\n%s", err, desc())
			break
		}
		wantDeps := map[string]string{}
		wantGo := ""
		for _, m := range all {
			for q, d := range m.deps {
				cur, ok := wantDeps[q]
				if c := c13Cmp(d.ver, cur); !ok || (newest && c > 0) || (!newest && c < 0) {
					wantDeps[q] = d.ver
				}
			}
			if m.gover != "" && (wantGo == "" || c13Cmp("v"+m.gover, "v"+wantGo) < 0) {
				wantGo = m.gover
			}
		}
		same := len(deps) == len(wantDeps)
		for q, w := range wantDeps {
			same = same && (deps[q] == w || c13Cmp(deps[q], w) == 0 && deps[q] != "")
		}
		if !same || c13Cmp("v"+gover, "v"+wantGo) != 0 {
			v.violate("deps", "dependency table (newest=%v) %v go %s\nexpected %v go %s\n%s", newest, deps, gover, wantDeps, wantGo, desc())
		}
	}
}

// c13Cmp compares versions (semantic versioning precedence, missing parts are zero).
func c13Cmp(a, b string) int {
	parse := func(s string) (n [3]int, pre []string) {
		s = strings.TrimPrefix(s, "v")
		s, _, _ = strings.Cut(s, "+")
		s, p, ok := strings.Cut(s, "-")
		if ok {
			pre = strings.Split(p, ".")
		}
		for i, x := range strings.SplitN(s, ".", 3) {
			fmt.Sscan(x, &n[i])
		}
		return
	}
	an, ap := parse(a)
	bn, bp := parse(b)
	for i := range an {
		if an[i] != bn[i] {
			return sign13(an[i] - bn[i])
		}
	}
	if len(ap) == 0 || len(bp) == 0 {
		return sign13(len(bp) - len(ap))
	}
	for i := 0; i < len(ap) && i < len(bp); i++ {
		var x, y int
		_, e1 := fmt.Sscanf(ap[i]+"|", "%d|", &x)
		_, e2 := fmt.Sscanf(bp[i]+"|", "%d|", &y)
		num1, num2 := e1 == nil && fmt.Sprint(x) == ap[i], e2 == nil && fmt.Sprint(y) == bp[i]
		switch {
		case num1 && num2 && x != y:
			return sign13(x - y)
		case num1 != num2:
			if num1 {
				return -1
			}
			return 1
		case ap[i] != bp[i]:
			return strings.Compare(ap[i], bp[i])
		}
	}
	return sign13(len(ap) - len(bp))
}

func sign13(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

// c13Malformed: an unreadable file anywhere gives an error.
func c13Malformed(v *vRun, r *rand.Rand, base string) {
	bad := []string{"module example.com/x\nrequire example.com/a\n", "module example.com/x\nrequire (\n\texample.com/a v1.0.0\n", "module example.com/x\nbogus line here\n",
		"module example.com/x\nrequire example.com/a v1.0.0 v2.0.0\n", "module example.com/x\nrequire example.com/a notaversion\n", "module example.com/x\nrequire example.com/b/v2 v1.0.0\n", "\x00\x01", "module \"unclosed\n"}
	for k := 0; k < v.n(200, 2000); k++ {
		dir := filepath.Join(base, fmt.Sprintf("bad%d", k))
		p := c13GenProj(r, dir)
		p.write(r)
		files, err := ProjectGoModFiles(p.dir)
		if err != nil || len(files) == 0 {
			continue
		}
		v.eval()
		victim := files[r.Intn(len(files))]
		text := vPick(r, bad...)
		good := c13GenMod(r, "example.com/upd")
		vWriteTree(dir, map[string]string{"upd.mod": good.text(r), "bad.mod": text})
		if _, err := DiffModulesFromGoModFiles(filepath.Join(dir, "upd.mod"), filepath.Join(dir, "bad.mod")); err == nil {
			v.violate("malformed-accepted", "diff against a malformed updated file reported success:\n%q", text)
		}
		if _, err := DiffModulesFromGoModFiles(filepath.Join(dir, "bad.mod"), filepath.Join(dir, "upd.mod")); err == nil {
			v.violate("malformed-accepted", "diff of a malformed current file reported success:\n%q", text)
		}
		if _, err := DiffModulesFromGoModFiles(filepath.Join(dir, "none.mod"), filepath.Join(dir, "upd.mod")); err == nil {
			v.violate("missing-accepted", "diff of a missing file reported success")
		}
		orig, _ := os.ReadFile(victim)
		_ = os.WriteFile(victim, []byte(text), 0o644)
		if _, _, err := FindModuleVersion(p.dir, "example.com/absent"); err == nil {
			v.violate("malformed-accepted", "finding a version with the malformed member %s reported success:\n%q", victim, text)
		}
		if _, _, err := parseProjectDeps(p.dir, false); err == nil {
			v.violate("malformed-accepted", "dependency table with the malformed member %s reported success:\n%q", victim, text)
		}
		if p.work {
			used := filepath.Dir(victim) != p.dir || p.rootUsed
			if used {
				if _, err := DiffModulesFromGoWorkFiles(p.dir, filepath.Join(p.dir, "go.work")); err == nil {
					v.violate("malformed-accepted", "workspace diff with the malformed member %s reported success:\n%q", victim, text)
				}
			}
			_ = os.WriteFile(victim, orig, 0o644)
			wf := filepath.Join(p.dir, "go.work")
			_ = os.WriteFile(wf, []byte(vPick(r, "go 1.25\nuse (\n./a\n", "go 1.25\nuse\n", "module x\n", "go 1.25\nfrob ./a\n")), 0o644)
			if _, err := ProjectGoModFiles(p.dir); err == nil {
				v.violate("malformed-accepted", "listing files of a malformed go.work reported success")
			}
			if _, err := ProjectPackagePatterns(p.dir); err == nil {
				v.violate("malformed-accepted", "patterns of a malformed go.work reported success")
			}
			if _, _, err := FindModuleVersion(p.dir, "example.com/a"); err == nil {
				v.violate("malformed-accepted", "finding a version in a malformed go.work reported success")
			}
		}
		v.observe("malformed_states", 1)
		_ = os.RemoveAll(dir)
	}
	empty := filepath.Join(base, "empty")
	_ = os.MkdirAll(empty, 0o755)
	if _, err := ProjectGoModFiles(empty); err == nil {
		v.violate("missing-accepted", "a directory without go.mod and go.work was accepted")
	}
	if _, _, err := parseProjectDeps(empty, false); err == nil {
		v.violate("missing-accepted", "a directory without go.mod and go.work was accepted")
	}
}

// c13Cache: a module version is found in the module cache under its escaped name only.
func c13Cache(v *vRun, r *rand.Rand, base string) {
	esc := func(s string) string {
		var b strings.Builder
		for _, c := range s {
			if c >= 'A' && c <= 'Z' {
				b.WriteByte('!')
				c += 'a' - 'A'
			}
			b.WriteRune(c)
		}
		return b.String()
	}
	cache := filepath.Join(base, "modcache")
	for k := 0; k < v.n(200, 1000); k++ {
		p := vPick(r, c13Paths...)
		ver := c13Ver(r, p)
		v.eval()
		d := filepath.Join(cache, esc(p)+"@"+esc(ver))
		if _, err := FindModulePathInCache(cache, p, ver); err == nil {
			if _, err := os.Stat(d); err != nil {
				v.violate("cache-found", "%s@%s reported in the cache but it is not", p, ver)
			}
		}
		_ = os.MkdirAll(d, 0o755)
		got, err := FindModulePathInCache(cache, p, ver)
		if err != nil || filepath.Clean(got) != d {
			v.violate("cache", "%s@%s is in the cache at %s; found %q, %v", p, ver, d, got, err)
		}
		if r.Intn(2) == 0 {
			_ = os.RemoveAll(d)
		}
		v.observe("cache_lookups", 1)
	}
}

// c13Expand: use entries with a trailing "..." or a glob stand for every module directory they match.
func c13Expand(v *vRun, r *rand.Rand, base string) {
	for k := 0; k < v.n(100, 1000); k++ {
		dir := filepath.Join(base, fmt.Sprintf("exp%d", k))
		proj := filepath.Join(dir, "proj")
		v.eval()
		all := []string{"m1", "m2", "svc/a", "svc/b", "svc/b/inner", "svc", "other/x"}
		have := map[string]bool{}
		for _, d := range all {
			if r.Intn(2) == 0 {
				have[d] = true
				vWriteTree(filepath.Join(proj, d), map[string]string{"go.mod": "module example.com/" + d + "\n"})
			} else {
				vWriteTree(filepath.Join(proj, d), map[string]string{"x.go": "package x\n"})
			}
		}
		want := map[string]bool{}
		var uses []string
		if r.Intn(2) == 0 {
			uses = append(uses, vPick(r, "./svc/...", filepath.Join(proj, "svc")+"/..."))
			for d := range have {
				if d == "svc" || strings.HasPrefix(d, "svc/") {
					want[d] = true
				}
			}
		}
		if r.Intn(2) == 0 {
			uses = append(uses, vPick(r, "./m*", "./m?", fmt.Sprintf("%q", filepath.Join(proj, "m[12]"))))
			for d := range have {
				if d == "m1" || d == "m2" {
					want[d] = true
				}
			}
		}
		if have["other/x"] || len(uses) == 0 {
			uses = append(uses, "./other/x")
			if have["other/x"] {
				want["other/x"] = true
			}
		}
		vWriteTree(proj, map[string]string{"go.work": "go 1.25\nuse (\n\t" + strings.Join(uses, "\n\t") + "\n)\n"})
		files, err := ProjectGoModFiles(proj)
		var got, w []string
		for _, f := range files {
			got = append(got, filepath.Clean(f))
		}
		for d := range want {
			w = append(w, filepath.Join(proj, d, "go.mod"))
		}
		sort.Strings(got)
		sort.Strings(w)
		if err != nil || !eq13(got, w) {
			v.violate("expand", "use %v with modules %v lists %v (%v), expected %v", uses, sortedKeys13(have), got, err, w)
		}
		v.seen("expand " + fmt.Sprint(sortedKeys13(have), len(uses)))
		v.observe("expanded_workspaces", 1)
		_ = os.RemoveAll(dir)
	}
}
