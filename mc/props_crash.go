//go:build linux && amd64

package main

// C09: faults during a save. A child process performs the save under a tracer that kills it before any file operation,
// makes any file operation fail, or cuts any write short; what is on disk afterwards is then loaded and listed.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/williamflynt/topolith/pkg/persistence"
	"github.com/williamflynt/topolith/pkg/world"
)

// crashCase: the saves in order, each with its faults; the last one is judged like the others.
type crashCase struct {
	Setup int       `json:"setup"`
	Saves [][]Fault `json:"saves"`

	out *[]FileOp
}

type crashSetup struct {
	text  string
	name  string   // the world that is saved
	prev  int      // content saved under that name before, -1: none
	next  []int    // contents of the saves in order
	other []string // other worlds in the same location
	fresh bool     // the location does not exist yet
}

var crashSetups = []crashSetup{
	{"larger over smaller, other worlds beside it", "x", 1, []int{2, 0}, []string{"x.world", "other", "x.world.tmp"}, false},
	{"smaller over larger", "x", 3, []int{0, 2}, []string{"x.world"}, false},
	{"first save of this name", "x", -1, []int{1, 2}, []string{"other", ".world"}, false},
	{"first save in a location that does not exist", "x y", -1, []int{2, 1}, nil, true},
	{"a name with the file suffix", "x.world", 2, []int{1, 0}, []string{"x", "x.world.world"}, false},
	{"the same content again", "", 2, []int{2, 1}, []string{"x"}, false},
}

func crashWorld(i int, name string) (world.World, *M) {
	w := world.CreateWorld(name)
	ops, m := crashContent(i, name)
	for _, o := range ops {
		(&Sut{W: w}).apply(o)
	}
	return w, m
}

func crashContent(i int, name string) ([]Op, *M) {
	m := NewM(name)
	var ops []Op
	add := func(o Op) { ops = append(ops, o); m.step(o) }
	switch i {
	case 1:
		add(Op{K: "ItemCreate", A: "a"})
	case 2:
		add(Op{K: "ItemCreate", A: "a", IP: &IP{Name: sp("the first: one")}})
		add(Op{K: "ItemCreate", A: "b c"})
		add(Op{K: "Nest", A: "b c", B: "a"})
		add(Op{K: "RelCreate", A: "a", B: "b c", RP: &RP{Verb: sp("calls")}})
	case 3:
		for j := 0; j < 4; j++ {
			add(Op{K: "ItemCreate", A: fmt.Sprintf("i%d", j), IP: &IP{Exp: sp(strings.Repeat("text ", 12))}})
		}
	}
	return ops, m
}

var crashUni = []string{"a", "b c"}

// auxSave is the child: it announces the save and performs it. Exit 0: saved, 10: refused with an error.
func auxSave(args []string) {
	runtime.LockOSThread()
	i, _ := strconv.Atoi(args[2])
	w, _ := crashWorld(i, args[1])
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(args[3])
	syscall.Access(filepath.Join(args[0], "BEGIN"), 0)
	if err := fp.Save(w); err != nil {
		os.Exit(10)
	}
	os.Exit(0)
}

var evalCrash = kind("crash", func(tier string, c *crashCase) string {
	sc := crashSetups[c.Setup]
	dir := scratchDir()
	defer os.RemoveAll(dir)
	loc, loc2 := filepath.Join(dir, "deep", "loc"), filepath.Join(dir, "loc2")
	d := &disk{dir: dir, locs: []string{loc, loc2}, files: []map[string]*M{{}, {}}, made: []bool{!sc.fresh, true}, fp: persistence.NewFilePersistence(), m: NewM("w"), w: world.CreateWorld("w")}
	put := func(i int, name string, l int) {
		d.loc = l
		d.fp.SetSourcePath(d.locs[l])
		w, m := crashWorld(i, name)
		if err := d.fp.Save(w); err != nil {
			fatal(err)
		}
		d.files[l][name] = m
	}
	if !sc.fresh {
		mustDo(os.MkdirAll(loc, 0o755))
	}
	for i, o := range sc.other {
		put(i, o, 0)
	}
	put(2, sc.name, 1)
	if sc.prev >= 0 {
		put(sc.prev, sc.name, 0)
	}
	d.loc = 0
	d.fp.SetSourcePath(loc)
	for k, faults := range c.Saves {
		t, err := traceSave([]string{self(), "aux", "save", dir, sc.name, strconv.Itoa(sc.next[k]), loc}, dir, faults)
		if err != nil {
			fatal(err)
		}
		if c.out != nil && k == len(c.Saves)-1 {
			*c.out = t.Ops
		}
		if t.Fired < len(faults) && c.out != nil {
			*c.out = nil // not a case of its own: some fault never happened
		}
		saved := false
		switch {
		case t.Hung:
			return "the save does not end"
		case t.Killed:
		case t.Exit == 0:
			saved = true
		case t.Exit == 10:
		default:
			return fmt.Sprintf("the save crashed (exit %d): %s", t.Exit, firstLine(t.Stderr))
		}
		_, newM := crashWorld(sc.next[k], sc.name)
		if len(faults) == 0 && !saved {
			return fmt.Sprintf("save %d failed although nothing went wrong with it", k+1)
		}
		old := d.files[0][sc.name]
		fp := persistence.NewFilePersistence()
		fp.SetSourcePath(loc)
		got, lerr := fp.Load(sc.name)
		var gm *M
		if lerr == nil {
			m, bad := abstract(got, crashUni)
			if bad != "" {
				return fmt.Sprintf("after save %d: the world loaded: %s", k+1, bad)
			}
			gm = m
		}
		isNew := gm != nil && diffM(newM, gm, aAll) == ""
		isOld := gm != nil && old != nil && diffM(old, gm, aAll) == ""
		how := map[bool]string{true: "reported success", false: "failed or was killed"}[saved]
		switch {
		case isNew:
			d.files[0][sc.name] = newM
			d.made[0] = true
		case saved && lerr != nil:
			return fmt.Sprintf("save %d reported success, but loading fails: %v", k+1, lerr)
		case saved:
			return fmt.Sprintf("save %d reported success, but the world loaded is not the one saved: %s", k+1, diffM(newM, gm, aAll))
		case isOld:
		case old == nil && lerr != nil:
			// Never saved before: not there at all.
		case lerr != nil:
			return fmt.Sprintf("save %d %s, and now loading %q fails although it had been saved before: %v", k+1, how, sc.name, lerr)
		case old == nil:
			return fmt.Sprintf("save %d %s, and now a world that was never saved is loaded: %s", k+1, how, diffM(newM, gm, aAll))
		default:
			return fmt.Sprintf("save %d %s, and the world loaded now is neither the old nor the new one: old: %s; new: %s", k+1, how, diffM(old, gm, aAll), diffM(newM, gm, aAll))
		}
		for i := range d.locs {
			fp.SetSourcePath(d.locs[i])
			if msg := d.judgeLoc(fp, i, crashUni); msg != "" {
				return fmt.Sprintf("save %d %s; then in location %d: %s", k+1, how, i, msg)
			}
		}
	}
	// Whatever happened, saving still works.
	put(1, sc.name, 0)
	d.made[0] = true
	if msg := d.judgeLoc(d.fp, 0, crashUni); msg != "" {
		return "saving once more afterwards, undisturbed: " + msg
	}
	return ""
}, func(tier string, c *crashCase) []string {
	sc := crashSetups[c.Setup]
	out := []string{fmt.Sprintf("%s: world %q, others %q", sc.text, sc.name, sc.other)}
	for i, fs := range c.Saves {
		var w []string
		for _, f := range fs {
			w = append(w, f.String())
		}
		if len(w) == 0 {
			w = []string{"undisturbed"}
		}
		out = append(out, fmt.Sprintf("save %d: %s", i+1, strings.Join(w, ", ")))
	}
	return out
})

// faultsAt lists what can happen to one operation.
func faultsAt(at int, op FileOp, full bool) []Fault {
	errs := []syscall.Errno{syscall.EIO}
	if full {
		errs = []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EINTR, syscall.EMFILE, syscall.EEXIST, syscall.ENOENT}
	}
	out := []Fault{{At: at, Act: "kill"}}
	for _, e := range errs {
		out = append(out, Fault{At: at, Act: "error", Err: int(e)})
	}
	out = append(out, Fault{At: at, Act: "sticky", Err: int(syscall.ENOSPC)})
	if op.Name == "fsync" || op.Name == "fdatasync" {
		out = append(out, Fault{At: at, Act: "after", Err: int(syscall.EIO)})
	}
	if (op.Name == "write" || op.Name == "pwrite64") && op.Len > 0 {
		step := 1
		if !full {
			step = max(1, op.Len/2)
		}
		for n := 0; n < op.Len; n += step {
			if n > 0 {
				out = append(out, Fault{At: at, Act: "short", N: n})
			}
			out = append(out, Fault{At: at, Act: "torn", N: n})
		}
	}
	return out
}

func runC09(r *Runner) {
	muteFd2()
	var mu sync.Mutex
	var evals, distinct int64
	shapes := map[string]bool{}
	ops := map[string]bool{}
	type job struct {
		c     crashCase
		depth int // faults in the last save so far
		last  int // number of the last faulted operation
	}
	var jobs []job
	for i := range crashSetups {
		jobs = append(jobs, job{crashCase{Setup: i, Saves: [][]Fault{{}}}, 0, -1})
	}
	maxFaults := pick(r.thorough(), 2, 3)
	maxSaves := 2
	for len(jobs) > 0 && !r.done() {
		next := make([][]job, len(jobs))
		r.parallel(len(jobs), func(slot, i int) {
			j := jobs[i]
			var trace []FileOp
			j.c.out = &trace
			evalCrash(r, slot, &j.c)
			mu.Lock()
			evals++
			mu.Unlock()
			if trace == nil {
				return
			}
			mu.Lock()
			if j.depth > 0 || len(j.c.Saves) > 1 {
				distinct++
			}
			for _, o := range trace {
				ops[o.Name] = true
			}
			mu.Unlock()
			fs := j.c.Saves[len(j.c.Saves)-1]
			ended := len(fs) > 0 && (fs[len(fs)-1].Act == "kill" || fs[len(fs)-1].Act == "torn")
			sticky := len(fs) > 0 && fs[len(fs)-1].Act == "sticky"
			extend := func(saves [][]Fault, f []Fault) [][]Fault {
				s := append([][]Fault{}, saves...)
				return append(s, f)
			}
			prevs := j.c.Saves[:len(j.c.Saves)-1]
			full := len(j.c.Saves) == 1 && j.depth == 0
			if !ended && j.depth < maxFaults && (len(j.c.Saves) == 1 || j.depth == 0) {
				for at := j.last + 1; at < len(trace); at++ {
					for _, f := range faultsAt(at, trace[at], full || r.thorough() && j.depth == 0) {
						if sticky && f.Act != "kill" {
							continue // everything fails already
						}
						if f.Act == "sticky" && j.depth > 0 {
							continue
						}
						nf := append(append([]Fault{}, fs...), f)
						next[i] = append(next[i], job{crashCase{Setup: j.c.Setup, Saves: extend(prevs, nf)}, j.depth + 1, at})
					}
				}
			}
			// A second save after an interrupted or failed one: with every single fault again.
			if len(j.c.Saves) < maxSaves && j.depth == 1 {
				f := fs[0]
				plain := f.Act == "kill" || f.Act == "error" && f.Err == int(syscall.EIO) || f.Act == "torn" && (f.N == 0 || f.N == trace[f.At].Len/2)
				if plain || r.thorough() && f.Act != "torn" {
					next[i] = append(next[i], job{crashCase{Setup: j.c.Setup, Saves: extend(j.c.Saves, []Fault{})}, 0, -1})
				}
			}
			if i < 3 || i == len(jobs)/2 {
				var w []string
				for _, o := range trace {
					w = append(w, o.Name)
				}
				mu.Lock()
				k := strings.Join(w, " ")
				if !shapes[k] {
					shapes[k] = true
					r.sample("%s | file operations: %s", strings.Join(kinds["crash"].describe(mustJSON(&j.c), r.tier), "; "), k)
				}
				mu.Unlock()
			}
		})
		jobs = nil
		for _, n := range next {
			jobs = append(jobs, n...)
		}
	}
	var names []string
	for o := range ops {
		names = append(names, o)
	}
	sort.Strings(names)
	if len(ops) == 0 && !r.stop.Load() {
		fatal(fmt.Errorf("no file operation of the save was seen: the tracer does not work here"))
	}
	r.note("%d situations; up to %d faults in one save, and a faulted save after a faulted one; operations met: %s", len(crashSetups), maxFaults, strings.Join(names, " "))
	r.count("evaluations", evals)
	r.count("distinct_nontrivial", distinct)
}

func init() {
	auxFns["save"] = auxSave
	props["C09"] = &Prop{Level: "fault_enumeration", Run: runC09, Quick: 6 * time.Minute, Thorough: 14 * time.Minute,
		Rule:   "every situation x every file operation of the save x every fault (kill before it, each error, this and all later ones failing, each short write, each torn write), combinations of faults, and a faulted save after a faulted one; distinct and non-trivial: all faults of the case really happened",
		Assume: []string{"a kill keeps what completed system calls wrote (process death, not power loss)"}}
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		fatal(err)
	}
	return b
}
