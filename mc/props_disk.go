package main

// C08: saved worlds. All histories of editing, renaming, saving, loading and changing the location, and all names.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/williamflynt/topolith/pkg/persistence"
	"github.com/williamflynt/topolith/pkg/world"
)

var dirCounter atomic.Int64

// scratchDir makes a fresh directory for one case; the caller removes it.
func scratchDir() string {
	base := os.Getenv("MC_SCRATCH_FAST")
	if base == "" {
		base = os.Getenv("MC_SCRATCH")
	}
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, fmt.Sprintf("d%d-", dirCounter.Add(1)))
	if err != nil {
		fatal(err)
	}
	return d
}

// muteFd2 keeps what the library prints while loading out of the way (workers only).
func muteFd2() {
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err == nil {
		syscall.Dup2(int(null.Fd()), 2)
	}
}

type disk struct {
	dir   string
	locs  []string
	fp    persistence.Persistence // the one operated on
	loc   int
	w     world.World
	m     *M
	files []map[string]*M // per location: what is saved there
	made  []bool          // the location exists
}

func newDisk(nloc int) *disk {
	d := &disk{dir: scratchDir(), m: NewM("x")}
	for i := 0; i < nloc; i++ {
		l := filepath.Join(d.dir, fmt.Sprintf("loc%d", i))
		if i%2 == 1 {
			l = filepath.Join(d.dir, "deep", "er", fmt.Sprintf("loc%d", i))
		}
		if i == 0 {
			// A location in use for other things too.
			mustDo(os.MkdirAll(filepath.Join(l, "sub"), 0o755))
			mustDo(os.WriteFile(filepath.Join(l, "notes.txt"), []byte("not a world"), 0o644))
			mustDo(os.WriteFile(filepath.Join(l, "world"), []byte("not a world"), 0o644))
		}
		d.locs = append(d.locs, l)
		d.files = append(d.files, map[string]*M{})
		d.made = append(d.made, i == 0)
	}
	d.fp = persistence.NewFilePersistence()
	d.fp.SetSourcePath(d.locs[0])
	d.w = world.CreateWorld("x")
	return d
}

func mustDo(err error) {
	if err != nil {
		fatal(err)
	}
}

func (d *disk) close() { os.RemoveAll(d.dir) }

// do performs one step on the real thing and the model; "" or what is wrong.
func (d *disk) do(o Op, uni []string) string {
	switch o.K {
	case "Save":
		if err := d.fp.Save(d.w); err != nil {
			return fmt.Sprintf("saving %q failed: %v", d.m.Name, err)
		}
		d.files[d.loc][d.m.Name] = d.m.Clone()
		d.made[d.loc] = true
	case "Load":
		w, err := d.fp.Load(o.A)
		m := d.files[d.loc][o.A]
		if m == nil {
			return "" // nothing saved under that name: what then is not judged here, only that nothing changes
		}
		if err != nil {
			return fmt.Sprintf("loading %q, saved before, failed: %v", o.A, err)
		}
		got, bad := abstract(w, uni)
		if bad != "" {
			return fmt.Sprintf("the world loaded as %q: %s", o.A, bad)
		}
		if df := diffM(m, got, aAll); df != "" {
			return fmt.Sprintf("the world loaded as %q is not the one saved: %s", o.A, df)
		}
		d.w, d.m = w, m.Clone()
	case "SetLoc":
		d.loc = o.N
		d.fp.SetSourcePath(d.locs[o.N])
	case "SetName":
		d.w.SetName(o.A)
		d.m.Name = o.A
	case "New":
		d.w, d.m = world.CreateWorld(o.A), NewM(o.A)
	default:
		s := &Sut{W: d.w}
		s.apply(o)
		d.m.step(o)
	}
	return ""
}

// judge compares every location, through fresh objects and the one in use, with the model.
func (d *disk) judge(uni []string) string {
	got, bad := abstract(d.w, uni)
	if bad != "" {
		return "the world in use: " + bad
	}
	if df := diffM(d.m, got, aAll); df != "" {
		return "the world in use changed: " + df
	}
	for i := range d.locs {
		fp := persistence.NewFilePersistence()
		fp.SetSourcePath(d.locs[i])
		if msg := d.judgeLoc(fp, i, uni); msg != "" {
			return fmt.Sprintf("location %d: %s", i, msg)
		}
	}
	return d.judgeLoc(d.fp, d.loc, uni)
}

func (d *disk) judgeLoc(fp persistence.Persistence, i int, uni []string) string {
	l, err := fp.ListWorlds()
	if err != nil {
		if d.made[i] {
			return fmt.Sprintf("listing the saved worlds failed: %v", err)
		}
	}
	var want []string
	for n := range d.files[i] {
		want = append(want, n)
	}
	sort.Strings(want)
	have := sortedCopy(l)
	if len(have) != len(want) || !sameStrings(have, want) {
		return fmt.Sprintf("the list of worlds is %q, saved were %q", have, want)
	}
	for _, n := range want {
		w, err := fp.Load(n)
		if err != nil {
			return fmt.Sprintf("loading %q, saved before, failed: %v", n, err)
		}
		got, bad := abstract(w, uni)
		if bad != "" {
			return fmt.Sprintf("the world loaded as %q: %s", n, bad)
		}
		if df := diffM(d.files[i][n], got, aAll); df != "" {
			return fmt.Sprintf("the world loaded as %q is not the one saved: %s", n, df)
		}
	}
	return ""
}

func (d *disk) canon() string {
	var b strings.Builder
	fmt.Fprintln(&b, d.loc, d.made, d.m.Canon())
	for i, f := range d.files {
		var ns []string
		for n := range f {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			fmt.Fprintf(&b, "%d %q %s\n", i, n, f[n].Canon())
		}
	}
	// What is really on disk is part of the state, whatever the names.
	var l []string
	filepath.Walk(d.dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			rel, _ := filepath.Rel(d.dir, p)
			s := rel + " " + fi.Mode().String()
			if fi.Mode().IsRegular() {
				t, _ := os.ReadFile(p)
				ls := strings.Split(string(t), "\n")
				sort.Strings(ls)
				s += strings.Join(ls, "|")
			}
			l = append(l, s)
		}
		return nil
	})
	b.WriteString(strings.Join(l, "\n"))
	return b.String()
}

type diskCfg struct {
	name  string
	locs  int
	alpha []Op
	depth int
	uni   []string
}

func diskCfgs(tier string) []diskCfg {
	th := tier == "thorough"
	save := Op{K: "Save"}
	ld := func(n string) Op { return Op{K: "Load", A: n} }
	nm := func(n string) Op { return Op{K: "SetName", A: n} }
	loc := func(i int) Op { return Op{K: "SetLoc", N: i} }
	ic := func(a string) Op { return Op{K: "ItemCreate", A: a} }
	uni := []string{"a", "b"}
	return []diskCfg{
		{"names", 1, []Op{save, ld("x"), ld("x.world"), ld("x.world.world"), ld(""), nm("x"), nm("x.world"), nm("x.world.world"), nm(""), ic("a")}, pick(th, 7, 10), uni},
		{"places", 3, []Op{save, ld("x"), ld("y z"), nm("x"), nm("y z"), loc(0), loc(1), loc(2), ic("a"), {K: "ItemDelete", A: "a"}}, pick(th, 7, 10), uni},
		{"edits", 1, []Op{save, ld("x"), {K: "New", A: "x"}, ic("a"), ic("b"), {K: "ItemDelete", A: "a"}, {K: "Nest", A: "a", B: "b"}, {K: "Free", A: "a"},
			{K: "RelCreate", A: "a", B: "b"}, {K: "RelDelete", A: "a", B: "b"}, {K: "ItemSet", A: "a", IP: &IP{Name: sp("name of a, rather long")}},
			{K: "SetExpanded", A: "some text"}, {K: "SetVersion", N: 3}}, pick(th, 6, 8), uni},
	}
}

type diskCase struct {
	Cfg  string `json:"cfg"`
	Path []int  `json:"path"`
	out  *string
}

var evalDisk = kind("disk", func(tier string, c *diskCase) string {
	for _, g := range diskCfgs(tier) {
		if g.name != c.Cfg {
			continue
		}
		d := newDisk(g.locs)
		defer d.close()
		for _, i := range c.Path {
			if msg := d.do(g.alpha[i], g.uni); msg != "" {
				return msg
			}
		}
		if c.out != nil {
			*c.out = d.canon() + heapKey(d.w)
		}
		if msg := d.judge(g.uni); msg != "" {
			return msg
		}
		if c.out != nil && d.canon()+heapKey(d.w) != *c.out {
			// Looking (loading, listing) left a mark on disk; only content counts, so judge again.
			return d.judge(g.uni)
		}
		return ""
	}
	return "unknown configuration"
}, func(tier string, c *diskCase) []string {
	for _, g := range diskCfgs(tier) {
		if g.name == c.Cfg {
			out := []string{"world \"x\" created, location 0"}
			for _, i := range c.Path {
				s := g.alpha[i].String()
				if g.alpha[i].K == "SetLoc" {
					s = fmt.Sprintf("SetSourcePath(location %d)", g.alpha[i].N)
				}
				out = append(out, s)
			}
			return out
		}
	}
	return nil
})

func (r *Runner) exploreDisk(g diskCfg) {
	seen := map[string]bool{}
	frontier := [][]int{{}}
	var states, trans int64
	depth := 0
	for len(frontier) > 0 && depth < g.depth && !r.done() {
		depth++
		k := len(g.alpha)
		keys := make([]string, len(frontier)*k)
		r.parallel(len(keys), func(slot, i int) {
			p := append(append([]int{}, frontier[i/k]...), i%k)
			evalDisk(r, slot, &diskCase{Cfg: g.name, Path: p, out: &keys[i]})
		})
		if r.done() {
			break
		}
		var next [][]int
		for i, key := range keys {
			trans++
			if key == "" || seen[key] {
				continue
			}
			seen[key] = true
			states++
			next = append(next, append(append([]int{}, frontier[i/k]...), i%k))
		}
		frontier = next
	}
	r.count("states", states)
	r.count("transitions", trans)
	r.count("traces_validated_against_impl", trans)
	r.note("%s: %d operations, depth %d, %d states, %d transitions", g.name, len(g.alpha), depth, states, trans)
	if len(frontier) > 0 {
		p := frontier[len(frontier)/2]
		var w []Op
		for _, i := range p {
			w = append(w, g.alpha[i])
		}
		r.sample("%s: %s", g.name, opsString(w))
	}
}

// --- names ---

type namesCase struct {
	Names []string `json:"names"`
}

func content(i int, name string) ([]Op, *M) {
	m := NewM(name)
	var ops []Op
	add := func(o Op) { ops = append(ops, o); m.step(o) }
	switch i % 4 {
	case 1:
		add(Op{K: "ItemCreate", A: "a", IP: &IP{Name: sp("the first: one"), Type: sp("server")}})
		add(Op{K: "ItemCreate", A: "b c"})
		add(Op{K: "Nest", A: "b c", B: "a"})
	case 2:
		add(Op{K: "ItemCreate", A: "a"})
		add(Op{K: "ItemCreate", A: "b c"})
		add(Op{K: "RelCreate", A: "a", B: "b c", RP: &RP{Verb: sp("calls"), Async: bp(true)}})
		add(Op{K: "SetExpanded", A: "text"})
	case 3:
		for j := 0; j < 12; j++ {
			add(Op{K: "ItemCreate", A: fmt.Sprintf("i%d", j), IP: &IP{Exp: sp(strings.Repeat("long text ", 15))}})
		}
	}
	return ops, m
}

var evalNames = kind("names", func(tier string, c *namesCase) string {
	d := newDisk(1)
	defer d.close()
	uni := []string{"a", "b c"}
	for i, n := range c.Names {
		w := world.CreateWorld(n)
		ops, m := content(i+len(n), n)
		s := &Sut{W: w}
		for _, o := range ops {
			s.apply(o)
		}
		d.w, d.m = w, m
		if msg := d.do(Op{K: "Save"}, uni); msg != "" {
			return msg
		}
	}
	if msg := d.judge(uni); msg != "" {
		return msg
	}
	// The same names once more, with other content.
	for i, n := range c.Names {
		w := world.CreateWorld("id")
		w.SetName(n)
		ops, m := content(i+len(n)+1, n)
		m.Id = "id"
		s := &Sut{W: w}
		for _, o := range ops {
			s.apply(o)
		}
		d.w, d.m = w, m
		if msg := d.do(Op{K: "Save"}, uni); msg != "" {
			return msg
		}
	}
	return d.judge(uni)
}, func(tier string, c *namesCase) []string {
	return []string{fmt.Sprintf("worlds named %q are saved in one location, then again with other content", c.Names)}
})

// --- the default location ---

type homeCase struct {
	Path []int `json:"path"`
}

// Two applications with the default location, and one persistence with a relative one; HOME and the working directory
// are inside the scratch directory. Cases run one at a time.
var evalHome = kind("home", func(tier string, c *homeCase) string {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	oldHome, oldApp := os.Getenv("HOME"), os.Getenv("APPDATA")
	oldWd, err := os.Getwd()
	mustDo(err)
	defer func() { os.Setenv("HOME", oldHome); os.Setenv("APPDATA", oldApp); os.Chdir(oldWd) }()
	os.Setenv("HOME", filepath.Join(dir, "home"))
	os.Setenv("APPDATA", filepath.Join(dir, "home"))
	mustDo(os.MkdirAll(filepath.Join(dir, "cwd"), 0o755))
	mustDo(os.Chdir(filepath.Join(dir, "cwd")))
	a1, a2 := newSut("x"), newSut("x")
	rel := persistence.NewFilePersistence()
	rel.SetSourcePath("rel")
	fps := []persistence.Persistence{a1.App.Persistence(), a2.App.Persistence(), rel}
	saved := []map[string]*M{{}, nil, {}}
	saved[1] = saved[0] // both applications use the default location
	uni := []string{"a", "b c"}
	for step, i := range c.Path {
		who, name := i/2, []string{"x", "x.world"}[i%2]
		w := world.CreateWorld(name)
		ops, m := content(step, name)
		for _, o := range ops {
			(&Sut{W: w}).apply(o)
		}
		if err := fps[who].Save(w); err != nil {
			return fmt.Sprintf("saving %q failed: %v", name, err)
		}
		saved[who][name] = m
	}
	d := &disk{files: saved, made: []bool{len(saved[0]) > 0, len(saved[0]) > 0, len(saved[2]) > 0}}
	for i, fp := range fps {
		if msg := d.judgeLoc(fp, i, uni); msg != "" {
			return fmt.Sprintf("%s: %s", []string{"first application", "second application", "relative location"}[i], msg)
		}
	}
	return ""
}, func(tier string, c *homeCase) []string {
	var out []string
	for _, i := range c.Path {
		out = append(out, fmt.Sprintf("%s saves a world named %q", []string{"application 1", "application 2", "a persistence with a relative location"}[i/2], []string{"x", "x.world"}[i%2]))
	}
	return out
})

func runC08(r *Runner) {
	muteFd2()
	for _, g := range diskCfgs(r.tier) {
		r.exploreDisk(g)
	}
	names := append(append([]string{}, oddWords...), "x", "X", "x world", "x.World", ".world", "world.world", ".save-1.tmp", "a.tmp", "a.world.tmp", "~x", "a~", "x.world~", strings.Repeat("n", 240))
	odd := len(names)
	n := int64(0)
	var cs []namesCase
	for _, t := range append(append([]string{}, names...), strs2(quotable)...) {
		cs = append(cs, namesCase{[]string{t}})
	}
	for i := 0; i < odd; i++ {
		for j := 0; j < odd; j++ {
			if i != j && names[i] != names[j] {
				cs = append(cs, namesCase{[]string{names[i], names[j]}})
			}
		}
	}
	if r.thorough() {
		for _, t := range strs3(quotClasses) {
			cs = append(cs, namesCase{[]string{t}}, namesCase{[]string{t, t + ".world"}})
		}
	}
	r.parallel(len(cs), func(slot, i int) { evalNames(r, slot, &cs[i]) })
	n += int64(len(cs))
	r.note("names: every name of up to 2 quotable characters, %d odd names alone and in all ordered pairs: %d sets", odd, len(cs))
	r.runSized()
	depth := pick(r.thorough(), 3, 5)
	var rec func(p []int)
	rec = func(p []int) {
		if r.done() {
			return
		}
		n++
		evalHome(r, 0, &homeCase{append([]int{}, p...)})
		if len(p) < depth {
			for i := 0; i < 6; i++ {
				rec(append(p, i))
			}
		}
	}
	rec([]int{})
	r.note("default and relative location: all sequences of up to %d saves by two applications and a third persistence", depth)
	r.count("states", n)
	r.count("transitions", n)
	r.count("traces_validated_against_impl", n)
}

func init() {
	props["C08"] = &Prop{Level: "model_checking", Run: runC08, Quick: 5 * time.Minute, Thorough: 13 * time.Minute,
		Rule: "every history of editing, renaming, saving, loading and changing the location up to the stated depth, on real directories; after each step every location is listed and everything in it loaded and compared with the model"}
}
