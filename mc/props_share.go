//go:build linux && amd64

package main

// C24: processes that share a location. Each process performs one save, load or listing under a tracer that lets exactly
// one of them perform one file operation at a time; every order of the file operations is explored.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/williamflynt/topolith/pkg/persistence"
	"github.com/williamflynt/topolith/pkg/world"
)

// task is what one process does: save (Name, Content), load (Name) or list.
type task struct {
	Do      string `json:"do"`
	Name    string `json:"name,omitempty"`
	Content int    `json:"content,omitempty"`
	Kill    int    `json:"kill,omitempty"` // killed before its Kill-th file operation; 0: not killed
}

func (t task) String() string {
	switch t.Do {
	case "save":
		s := fmt.Sprintf("saves content %d as %q", t.Content, t.Name)
		if t.Kill > 0 {
			s += fmt.Sprintf(" and is killed before its file operation %d", t.Kill)
		}
		return s
	case "load":
		return fmt.Sprintf("loads %q", t.Name)
	}
	return "lists the worlds"
}

type shareSetup struct {
	text  string
	have  map[string]int // worlds saved before, with their contents
	fresh bool           // the location does not exist yet
	tasks []task
	bound int // switches allowed away from a process that could go on; -1: any number
	thor  bool
}

var shareSetups = []shareSetup{
	{"a load during a save over an older world", map[string]int{"x": 1, "y": 0}, false, []task{{"save", "x", 3, 0}, {"load", "x", 0, 0}}, -1, false},
	{"a load during a save with less in it", map[string]int{"x": 3}, false, []task{{"save", "x", 0, 0}, {"load", "x", 0, 0}}, -1, false},
	{"a load during the first save", map[string]int{"y": 2}, false, []task{{"save", "x", 2, 0}, {"load", "x", 0, 0}}, -1, false},
	{"a load of another world during a save", map[string]int{"x": 1, "x.world": 2}, false, []task{{"save", "x", 3, 0}, {"load", "x.world", 0, 0}}, -1, false},
	{"a listing during a save over an older world", map[string]int{"x": 1, "y": 2}, false, []task{{"save", "x", 3, 0}, {"list", "", 0, 0}}, -1, false},
	{"a listing during the first save", map[string]int{"y": 0}, false, []task{{"save", "x", 3, 0}, {"list", "", 0, 0}}, -1, false},
	{"two saves of one name", map[string]int{"x": 1}, false, []task{{"save", "x", 2, 0}, {"save", "x", 3, 0}}, -1, false},
	{"two first saves of one name in a new location", nil, true, []task{{"save", "x", 2, 0}, {"save", "x", 0, 0}}, 4, false},
	{"two saves of different names", map[string]int{"x": 1}, false, []task{{"save", "x", 2, 0}, {"save", "y", 3, 0}}, 5, false},
	{"two saves of names that differ in the suffix", nil, false, []task{{"save", "x", 2, 0}, {"save", "x.world", 3, 0}}, 4, false},
	{"two saves and a load", map[string]int{"x": 1}, false, []task{{"save", "x", 2, 0}, {"save", "x", 3, 0}, {"load", "x", 0, 0}}, 2, false},
	{"two saves and a listing", map[string]int{"y": 1}, false, []task{{"save", "x", 2, 0}, {"save", "x", 0, 0}, {"list", "", 0, 0}}, 2, false},
	{"a save, a load and a listing", map[string]int{"x": 1}, false, []task{{"save", "x", 3, 0}, {"load", "x", 0, 0}, {"list", "", 0, 0}}, 3, false},
	{"a killed save, a save and a load", map[string]int{"x": 1}, false, []task{{"save", "x", 2, -1}, {"save", "x", 3, 0}, {"load", "x", 0, 0}}, 1, false},
	{"a killed save and a save of another name, and a listing", map[string]int{"x": 1, "y": 0}, false, []task{{"save", "x", 2, -1}, {"save", "y", 3, 0}, {"list", "", 0, 0}}, 1, false},
	{"two saves of different names, all orders", map[string]int{"x": 1}, false, []task{{"save", "x", 2, 0}, {"save", "y", 3, 0}}, -1, true},
	{"two first saves of one name in a new location, more switches", nil, true, []task{{"save", "x", 2, 0}, {"save", "x", 0, 0}}, 7, true},
	{"a killed save, a save and a load, more switches", map[string]int{"x": 1}, false, []task{{"save", "x", 2, -1}, {"save", "x", 3, 0}, {"load", "x", 0, 0}}, 2, true},
	{"two saves and a load, more switches", map[string]int{"x": 1}, false, []task{{"save", "x", 2, 0}, {"save", "x", 3, 0}, {"load", "x", 0, 0}}, 4, true},
	{"two saves and a listing, more switches", map[string]int{"y": 1}, false, []task{{"save", "x", 2, 0}, {"save", "x", 0, 0}, {"list", "", 0, 0}}, 4, true},
	{"three saves", map[string]int{"x": 1}, false, []task{{"save", "x", 2, 0}, {"save", "x", 3, 0}, {"save", "x", 0, 0}}, 3, true},
}

// shareCase: Order[i] is the process that performs the i-th file operation.
type shareCase struct {
	Setup int   `json:"setup"`
	Order []int `json:"order"`
	Kill  int   `json:"kill,omitempty"` // when the process to be killed is killed

	out   *shareRun
	fresh bool // with processes that have done nothing yet
}

type shareRun struct {
	order   []int
	enabled [][]int // which processes could go on
	ops     []string
}

type shareResult struct {
	Content int      `json:"content"` // loaded; -1: neither content
	What    string   `json:"what"`    // why it is neither
	Err     string   `json:"err"`
	Names   []string `json:"names"`
	Crash   string   `json:"crash"`
}

// shareJob is what a worker process is told to do.
type shareJob struct {
	Dir  string `json:"dir"`
	Loc  string `json:"loc"`
	Task task   `json:"task"`
}

// auxShare is one worker process: it performs the tasks it reads, one after another, announcing each by
// access("<dir>/BEGIN") and its end by access("<dir>/END").
func auxShare(args []string) {
	runtime.LockOSThread()
	in, out := bufio.NewReader(os.NewFile(3, "tasks")), os.NewFile(4, "results")
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var j shareJob
		mustDo(json.Unmarshal(line, &j))
		fp := persistence.NewFilePersistence()
		fp.SetSourcePath(j.Loc)
		w, _ := crashWorld(j.Task.Content, j.Task.Name)
		syscall.Access(filepath.Join(j.Dir, "BEGIN"), 0)
		res := doTask(fp, w, j.Task)
		syscall.Access(filepath.Join(j.Dir, "END"), 0)
		b, _ := json.Marshal(res)
		out.Write(append(b, '\n'))
	}
}

func doTask(fp persistence.Persistence, w world.World, t task) (res shareResult) {
	defer func() {
		if e := recover(); e != nil {
			res.Crash = fmt.Sprint(e)
		}
	}()
	switch t.Do {
	case "save":
		if err := fp.Save(w); err != nil {
			res.Err = "error: " + err.Error()
		}
	case "load":
		got, err := fp.Load(t.Name)
		if err != nil {
			res.Err = "error: " + err.Error()
			break
		}
		res.Content = -1
		m, bad := abstract(got, crashUni)
		if bad != "" {
			res.What = bad
			break
		}
		for i := 0; i < 4; i++ {
			_, want := crashContent(i, t.Name)
			if diffM(want, m, aAll) == "" {
				res.Content = i
			}
		}
		if res.Content < 0 {
			res.What = m.Canon()
		}
	case "list":
		names, err := fp.ListWorlds()
		if err != nil {
			res.Err = "error: " + err.Error()
		}
		res.Names = names
	}
	return
}

// shareProc is a worker process and what it did in the current run.
type shareProc struct {
	pid     int
	in, out *os.File
	lines   chan []byte
	tasks   int
	dead    bool
	exit    int
	// this run
	begun   bool
	held    int // the thread stopped before a file operation
	op      string
	done    bool
	started int // when its first file operation was let through
	ended   int
	ops     int
	killed  bool
	res     shareResult
}

// rig owns worker processes; all its work happens on one thread, which is their tracer.
type rig struct {
	jobs chan func(*rig)
	work []*shareProc
	in   map[int]bool // threads inside a system call
	own  map[int]*shareProc
	dir  string
	step int
}

var rigs = make(chan *rig, 64)

// withRig runs f on the thread of an idle rig.
func withRig(f func(g *rig)) {
	var g *rig
	select {
	case g = <-rigs:
	default:
		g = &rig{jobs: make(chan func(*rig)), in: map[int]bool{}, own: map[int]*shareProc{}}
		go func() {
			runtime.LockOSThread()
			for f := range g.jobs {
				f(g)
			}
		}()
	}
	done := make(chan bool)
	g.jobs <- func(g *rig) {
		defer close(done)
		f(g)
	}
	<-done
	rigs <- g
}

func (g *rig) spawn() (*shareProc, error) {
	cmd := exec.Command(self(), "aux", "share")
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1")
	cmd.SysProcAttr = &syscall.SysProcAttr{Ptrace: true}
	inR, inW, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	outR, outW, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{inR, outW}
	if err := cmd.Start(); err != nil {
		return nil, fmt.Errorf("cannot trace a child: %w", err)
	}
	inR.Close()
	outW.Close()
	p := &shareProc{pid: cmd.Process.Pid, in: inW, out: outR, lines: make(chan []byte, 4)}
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(p.pid, &ws, 0, nil); err != nil {
		return nil, err
	}
	if err := syscall.PtraceSetOptions(p.pid, syscall.PTRACE_O_TRACESYSGOOD|syscall.PTRACE_O_TRACECLONE|ptraceExitKill); err != nil {
		return nil, err
	}
	g.own[p.pid] = p
	go func() {
		rd := bufio.NewReader(outR)
		for {
			l, err := rd.ReadBytes('\n')
			if err != nil {
				close(p.lines)
				return
			}
			p.lines <- l
		}
	}()
	return p, syscall.PtraceSyscall(p.pid, 0)
}

// drop ends a worker.
func (g *rig) drop(p *shareProc) {
	if !p.dead {
		syscall.Kill(p.pid, syscall.SIGKILL)
		for !p.dead {
			var ws syscall.WaitStatus
			tid, err := syscall.Wait4(-1, &ws, syscall.WALL|wNoThread, nil)
			if err == syscall.EINTR {
				continue
			}
			if err != nil {
				break
			}
			g.event(tid, ws)
		}
	}
	p.in.Close()
	p.out.Close()
	for i, q := range g.work {
		if q == p {
			g.work = append(g.work[:i:i], g.work[i+1:]...)
			break
		}
	}
}

// event handles one stop or end of a thread; unless it is about to perform a file operation, it goes on.
func (g *rig) event(tid int, ws syscall.WaitStatus) {
	p := g.own[tid]
	if p == nil {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/status", tid))
		for _, l := range strings.Split(string(b), "\n") {
			if v, ok := strings.CutPrefix(l, "Tgid:"); ok {
				n, _ := strconv.Atoi(strings.TrimSpace(v))
				p = g.own[n]
			}
		}
		if p == nil {
			return // it is gone already
		}
		g.own[tid] = p
	}
	if ws.Exited() || ws.Signaled() {
		delete(g.own, tid)
		delete(g.in, tid)
		if tid == p.pid {
			p.dead, p.done, p.exit, p.ended, p.held = true, true, ws.ExitStatus(), g.step, 0
			if ws.Signaled() {
				p.exit = 128 + int(ws.Signal())
			}
		}
		return
	}
	sig := 0
	switch {
	case ws.StopSignal() == syscall.SIGTRAP|0x80:
		if g.in[tid] {
			delete(g.in, tid)
			break
		}
		g.in[tid] = true
		var r syscall.PtraceRegs
		if syscall.PtraceGetRegs(tid, &r) != nil {
			break
		}
		name, paths := fileOp(tid, &r, g.dir)
		if g.dir == "" || paths == nil {
			break
		}
		if len(paths) == 1 && paths[0] == "/BEGIN" {
			p.begun = true
			break
		}
		if len(paths) == 1 && paths[0] == "/END" {
			p.begun, p.done, p.ended = false, true, g.step
			break
		}
		if p.begun {
			p.held, p.op = tid, name+" "+strings.Join(paths, " -> ")
			return
		}
	case ws.StopSignal() == syscall.SIGTRAP, ws.StopSignal() == syscall.SIGSTOP:
	default:
		sig = int(ws.StopSignal())
	}
	syscall.PtraceSyscall(tid, sig)
}

// pump handles events until cond holds; false: nothing happened for the given time.
func (g *rig) pump(cond func() bool, patience time.Duration) (bool, error) {
	quiet := time.Time{}
	for !cond() {
		var ws syscall.WaitStatus
		tid, err := syscall.Wait4(-1, &ws, syscall.WALL|wNoThread|syscall.WNOHANG, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return false, fmt.Errorf("wait: %w", err)
		}
		if tid > 0 {
			quiet = time.Time{}
			g.event(tid, ws)
			continue
		}
		if quiet.IsZero() {
			quiet = time.Now()
		} else if d := time.Since(quiet); d > patience {
			return false, nil
		} else if d > 500*time.Microsecond {
			time.Sleep(50 * time.Microsecond)
		}
	}
	return true, nil
}

// run performs the tasks, letting through file operations in the given order, then those of the process that went last
// as long as it can go on, else of the first one that can.
func (g *rig) run(tasks []task, dir, loc string, order []int) (procs []*shareProc, run shareRun, err error) {
	for _, p := range append([]*shareProc{}, g.work...) {
		if p.dead || p.tasks > 200 {
			g.drop(p)
		}
	}
	for len(g.work) < len(tasks) {
		p, err := g.spawn()
		if err != nil {
			return nil, run, err
		}
		g.work = append(g.work, p)
	}
	procs = append(procs, g.work[:len(tasks)]...)
	g.dir, g.step = dir, 0
	defer func() {
		g.dir = ""
		for _, p := range procs {
			if !p.done || p.begun || p.res.Crash != "" {
				g.drop(p)
			}
		}
	}()
	for i, p := range procs {
		p.begun, p.held, p.op, p.done, p.started, p.ended, p.ops, p.killed, p.res = false, 0, "", false, -1, -1, 0, false, shareResult{}
		p.tasks++
		b, _ := json.Marshal(shareJob{dir, loc, tasks[i]})
		if _, err := p.in.Write(append(b, '\n')); err != nil {
			return procs, run, err
		}
	}
	last := -1
	begin := time.Now()
	for {
		// Until every process is held, has ended, or waits for another one (a lock).
		if _, err := g.pump(func() bool {
			for _, p := range procs {
				if !p.done && p.held == 0 {
					return false
				}
			}
			return true
		}, 2*time.Second); err != nil {
			return procs, run, err
		}
		var en []int
		alive := 0
		for i, p := range procs {
			if !p.done {
				alive++
				if p.held != 0 {
					en = append(en, i)
				}
			}
		}
		if alive == 0 {
			break
		}
		if len(en) == 0 || time.Since(begin) > 20*time.Second {
			return procs, run, nil // stuck: judged by the caller
		}
		next := en[0]
		for _, i := range en {
			if i == last {
				next = i
			}
		}
		if g.step < len(order) {
			found := false
			for _, i := range en {
				found = found || i == order[g.step]
			}
			if !found {
				return procs, run, fmt.Errorf("the order cannot be followed: process %d at step %d", order[g.step], g.step)
			}
			next = order[g.step]
		}
		p := procs[next]
		if p.started < 0 {
			p.started = g.step
		}
		p.ops++
		run.order = append(run.order, next)
		run.enabled = append(run.enabled, en)
		run.ops = append(run.ops, p.op)
		g.step++
		last = next
		tid := p.held
		p.held = 0
		if tasks[next].Kill == p.ops {
			p.killed = true
			syscall.Kill(p.pid, syscall.SIGKILL)
			continue
		}
		if err := syscall.PtraceSyscall(tid, 0); err != nil && err != syscall.ESRCH {
			return procs, run, err
		}
	}
	for _, p := range procs {
		if p.dead {
			continue
		}
		var line []byte
		ok, err := g.pump(func() bool {
			select {
			case line = <-p.lines:
				return true
			default:
				return p.dead
			}
		}, 10*time.Second)
		if err == nil && (!ok || line == nil) {
			err = fmt.Errorf("a worker gave no result")
		}
		if err == nil {
			err = json.Unmarshal(line, &p.res)
		}
		if err != nil {
			return procs, run, err
		}
	}
	return procs, run, nil
}

func runShared(tasks []task, dir, loc string, order []int, fresh bool) (procs []shareProc, run shareRun, err error) {
	withRig(func(g *rig) {
		for fresh && len(g.work) > 0 {
			g.drop(g.work[0])
		}
		ps, r, e := g.run(tasks, dir, loc, order)
		for _, p := range ps {
			procs = append(procs, *p)
		}
		run, err = r, e
	})
	return
}

var evalShare = kind("share", func(tier string, c *shareCase) string {
	msg := judgeShare(c)
	if msg != "" && c.out != nil { // once more in the order that was found, with fresh processes
		msg = judgeShare(&shareCase{Setup: c.Setup, Order: c.out.order, Kill: c.Kill, fresh: true})
		if msg != "" {
			c.Order = c.out.order
		}
	}
	return msg
}, describeShare)

func judgeShare(c *shareCase) string {
	sc := shareSetups[c.Setup]
	dir := scratchDir()
	defer os.RemoveAll(dir)
	loc := filepath.Join(dir, "loc")
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(loc)
	if !sc.fresh {
		mustDo(os.MkdirAll(loc, 0o755))
	}
	names := []string{}
	for n := range sc.have {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		w, _ := crashWorld(sc.have[n], n)
		mustDo(fp.Save(w))
	}
	tasks := append([]task{}, sc.tasks...)
	for i := range tasks {
		if tasks[i].Kill != 0 {
			tasks[i].Kill = c.Kill
		}
	}
	procs, run, err := runShared(tasks, dir, loc, c.Order, c.fresh)
	if err != nil {
		if c.out == nil && strings.HasPrefix(err.Error(), "the order cannot") {
			return ""
		}
		fatal(err)
	}
	if c.out != nil {
		*c.out = run
	}
	// What each saved name may hold in the end: the contents of the saves not followed by another, or what was there.
	saves := map[string][]*shareProc{}
	killed := map[string][]int{} // contents of the saves that were killed: they may be there or not
	content := map[*shareProc]int{}
	for i := range procs {
		p := &procs[i]
		t := tasks[i]
		who := fmt.Sprintf("the process that %s", t)
		if !p.done {
			return who + " does not end"
		}
		if t.Kill > 0 && p.killed {
			killed[t.Name] = append(killed[t.Name], t.Content)
			continue
		}
		if p.dead || p.res.Crash != "" {
			return fmt.Sprintf("%s crashed (%d): %s", who, p.exit, p.res.Crash)
		}
		if t.Do == "save" {
			if p.res.Err != "" {
				return who + " reports " + p.res.Err
			}
			saves[t.Name] = append(saves[t.Name], p)
			content[p] = t.Content
		}
	}
	// at: contents the name may hold for someone who looks from step a to step b.
	at := func(name string, a, b int) (may []int, missing bool) {
		last := -1 // when the last save ended that ended before a
		for _, s := range saves[name] {
			if s.ended <= a && s.started >= 0 {
				last = max(last, s.started)
			}
		}
		for _, s := range saves[name] {
			if s.started < b && s.ended > last {
				may = append(may, content[s])
			}
		}
		if last < 0 {
			if v, ok := sc.have[name]; ok {
				may = append(may, v)
			} else {
				missing = true
			}
		}
		return append(may, killed[name]...), missing
	}
	allowed := func(v int, may []int) bool {
		for _, x := range may {
			if x == v {
				return true
			}
		}
		return false
	}
	for i := range procs {
		p := &procs[i]
		t := tasks[i]
		if p.started < 0 {
			p.started = 0
		}
		switch t.Do {
		case "load":
			may, missing := at(t.Name, p.started, p.ended)
			if p.res.Err != "" {
				if !missing {
					return fmt.Sprintf("loading %q fails although it was saved: %s", t.Name, p.res.Err)
				}
			} else if p.res.Content < 0 {
				return fmt.Sprintf("the world loaded is none of those saved: %s", p.res.What)
			} else if !allowed(p.res.Content, may) {
				return fmt.Sprintf("content %d is loaded, only %v can be there", p.res.Content, may)
			}
		case "list":
			if p.res.Err != "" {
				if !sc.fresh {
					return "listing fails: " + p.res.Err
				}
				break
			}
			seen := map[string]int{}
			for _, n := range p.res.Names {
				seen[n]++
				if may, _ := at(n, p.started, p.ended); seen[n] > 1 || len(may) == 0 {
					return fmt.Sprintf("the listing says %q", p.res.Names)
				}
			}
			for n := range sc.have {
				if seen[n] == 0 {
					return fmt.Sprintf("%q is not in the listing %q", n, p.res.Names)
				}
			}
			for n := range saves {
				if _, missing := at(n, p.started, p.ended); !missing && seen[n] == 0 {
					return fmt.Sprintf("%q is not in the listing %q", n, p.res.Names)
				}
			}
		}
	}
	end := len(run.order) + 1
	all := map[string]bool{}
	for n := range sc.have {
		all[n] = true
	}
	for n := range saves {
		all[n] = true
	}
	for n := range all {
		may, _ := at(n, end, end)
		got, err := fp.Load(n)
		if err != nil {
			return fmt.Sprintf("in the end loading %q fails: %v", n, err)
		}
		m, bad := abstract(got, crashUni)
		ok := false
		for _, v := range may {
			_, want := crashContent(v, n)
			ok = ok || bad == "" && diffM(want, m, aAll) == ""
		}
		if !ok {
			return fmt.Sprintf("in the end %q holds none of the contents %v: %s", n, may, bad)
		}
	}
	list, err := fp.ListWorlds()
	if err != nil {
		return "in the end listing fails: " + err.Error()
	}
	if len(list) != len(all) {
		return fmt.Sprintf("in the end the listing says %q", list)
	}
	for _, n := range list {
		if !all[n] {
			return fmt.Sprintf("in the end the listing says %q", list)
		}
	}
	return ""
}

func describeShare(tier string, c *shareCase) []string {
	sc := shareSetups[c.Setup]
	out := []string{sc.text}
	for i, t := range sc.tasks {
		if t.Kill != 0 {
			t.Kill = c.Kill
		}
		out = append(out, fmt.Sprintf("process %d %s", i, t))
	}
	return append(out, fmt.Sprintf("file operations in this order: %v", c.Order))
}

// switches counts how often the order leaves a process that could go on.
func switches(order []int, enabled [][]int, n int) int {
	k := 0
	for i := 1; i < n; i++ {
		if order[i] != order[i-1] {
			for _, e := range enabled[i] {
				if e == order[i-1] {
					k++
				}
			}
		}
	}
	return k
}

func runC24(r *Runner) {
	muteFd2()
	for si := range shareSetups {
		sc := &shareSetups[si]
		if sc.thor && !r.thorough() {
			continue
		}
		type job struct {
			order []int
			kill  int
		}
		level := []job{{nil, 0}}
		for _, t := range sc.tasks {
			if t.Kill != 0 {
				level = nil
				for k := 1; k <= 12; k++ {
					level = append(level, job{nil, k})
				}
			}
		}
		var mu sync.Mutex
		n, steps, nodes, most := int64(0), int64(0), int64(0), 0
		for len(level) > 0 && !r.done() {
			next := make([][]job, len(level))
			r.parallel(len(level), func(slot, i int) {
				var run shareRun
				c := shareCase{Setup: si, Order: level[i].order, Kill: level[i].kill, out: &run}
				ok := evalShare(r, slot, &c)
				mu.Lock()
				n++
				steps += int64(len(run.order))
				nodes += int64(len(run.order) - len(level[i].order) + 1)
				most = max(most, len(run.order))
				if n == 1 {
					r.sample("%s: %s", strings.Join(kinds["share"].describe(mustJSON(&c), r.tier), "; "), strings.Join(run.ops, ", "))
				}
				mu.Unlock()
				if !ok {
					return
				}
				// Every other choice after the prefix that was given.
				for k := len(level[i].order); k < len(run.order); k++ {
					for _, e := range run.enabled[k] {
						if e == run.order[k] {
							continue
						}
						o := append(append([]int{}, run.order[:k]...), e)
						if sc.bound >= 0 && switches(o, run.enabled, len(o)) > sc.bound {
							continue
						}
						next[i] = append(next[i], job{o, level[i].kill})
					}
				}
			})
			level = nil
			for _, x := range next {
				level = append(level, x...)
			}
		}
		bound := "all orders"
		if sc.bound >= 0 {
			bound = fmt.Sprintf("up to %d switches", sc.bound)
		}
		r.note("%s: %s of up to %d file operations: %d schedules", sc.text, bound, most, n)
		r.count("states", nodes)
		r.count("transitions", steps)
		r.count("traces_validated_against_impl", n)
	}
}

func init() {
	auxFns["share"] = auxShare
	props["C24"] = &Prop{Level: "model_checking", Run: runC24, Quick: 6 * time.Minute, Thorough: 14 * time.Minute,
		Rule:   "every situation x every order (within the stated number of switches) of the processes' file operations, each order run on real processes under a tracer; a state is a distinct sequence of file operations performed so far; every schedule ran on the real code",
		Assume: []string{"each file operation (system call) is one step"}}
}
