package main

// Runner: evaluates cases in parallel with crash containment, counts coverage, records violations.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const slotSize = 64 << 10

// Envelope is one replayable case.
type Envelope struct {
	Prop  string          `json:"property"`
	Tier  string          `json:"tier"`
	Kind  string          `json:"kind"`
	Order uint64          `json:"order"` // global map order in force
	Case  json.RawMessage `json:"case"`
}

type Violation struct {
	Env   Envelope `json:"case"`
	Msg   string   `json:"message"`
	Steps []string `json:"steps,omitempty"`
}

// Result is what a worker reports.
type Result struct {
	Counters   map[string]int64 `json:"counters"`
	Violations []Violation      `json:"violations"`
	Exhaustive bool             `json:"exhaustive"`
	Samples    []string         `json:"samples"`
	Notes      []string         `json:"notes"`
}

type Runner struct {
	prop, tier string
	nw         int
	deadline   time.Time
	slots      []byte
	started    []atomic.Int64
	order      Perm

	mu     sync.Mutex
	res    Result
	ctr    map[string]*atomic.Int64
	stop   atomic.Bool
	expire atomic.Bool
}

func newRunner(prop, tier, slotFile string, budget time.Duration) *Runner {
	r := &Runner{prop: prop, tier: tier, nw: runtime.NumCPU(), deadline: time.Now().Add(budget), ctr: map[string]*atomic.Int64{}}
	r.res.Exhaustive = true
	r.started = make([]atomic.Int64, r.nw)
	if slotFile != "" {
		f, err := os.OpenFile(slotFile, os.O_RDWR|os.O_CREATE, 0o600)
		if err != nil {
			fatal(err)
		}
		if err := f.Truncate(int64(r.nw * slotSize)); err != nil {
			fatal(err)
		}
		r.slots, err = syscall.Mmap(int(f.Fd()), 0, r.nw*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			fatal(err)
		}
	}
	r.setOrder(permIdentity)
	return r
}

func (r *Runner) thorough() bool { return r.tier == "thorough" }

func (r *Runner) setOrder(p Perm) {
	r.order = p
	setGlobalOrder(p)
}

func (r *Runner) count(name string, n int64) {
	r.mu.Lock()
	c := r.ctr[name]
	if c == nil {
		c = &atomic.Int64{}
		r.ctr[name] = c
	}
	r.mu.Unlock()
	c.Add(n)
}

func (r *Runner) sample(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.res.Samples) < 12 {
		r.res.Samples = append(r.res.Samples, fmt.Sprintf(format, a...))
	}
}

func (r *Runner) note(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Notes = append(r.res.Notes, fmt.Sprintf(format, a...))
}

// done tells generators to stop: a violation was found or time is up.
func (r *Runner) done() bool {
	if r.stop.Load() {
		return true
	}
	if time.Now().After(r.deadline) {
		if !r.expire.Swap(true) {
			r.mu.Lock()
			r.res.Exhaustive = false
			r.mu.Unlock()
			r.note("time budget reached: exploration cut short")
		}
		return true
	}
	return false
}

func (r *Runner) putSlot(slot int, env *Envelope) {
	if r.slots == nil {
		return
	}
	b, _ := json.Marshal(env)
	if len(b) > slotSize-8 {
		b = b[:0]
	}
	s := r.slots[slot*slotSize:]
	copy(s[4:], b)
	binary.LittleEndian.PutUint32(s, uint32(len(b)))
	r.started[slot].Store(time.Now().Unix())
}

func (r *Runner) clearSlot(slot int) {
	if r.slots == nil {
		return
	}
	binary.LittleEndian.PutUint32(r.slots[slot*slotSize:], 0)
	r.started[slot].Store(0)
}

func readSlots(file string) (out []Envelope) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for i := 0; i+slotSize <= len(b); i += slotSize {
		n := int(binary.LittleEndian.Uint32(b[i:]))
		if n > 0 && n <= slotSize-8 {
			var e Envelope
			if json.Unmarshal(b[i+4:i+4+n], &e) == nil {
				out = append(out, e)
			}
		}
	}
	return
}

// watchdog ends the process (leaving the slots for the supervisor) when one case runs far too long.
func (r *Runner) watchdog(limit time.Duration) {
	go func() {
		for {
			time.Sleep(2 * time.Second)
			now := time.Now().Unix()
			for i := range r.started {
				if t := r.started[i].Load(); t != 0 && now-t > int64(limit/time.Second) {
					os.Exit(97)
				}
			}
		}
	}()
}

// --- kinds ---

type kindFn struct {
	run      func(raw []byte, tier string) string
	describe func(raw []byte, tier string) []string
}

var kinds = map[string]kindFn{}

// kind registers a case kind. f judges one case and returns "" or what is wrong.
func kind[T any](name string, f func(tier string, c *T) string, describe func(tier string, c *T) []string) func(r *Runner, slot int, c *T) bool {
	kf := kindFn{run: func(raw []byte, tier string) string {
		var c T
		if err := json.Unmarshal(raw, &c); err != nil {
			fatal(fmt.Errorf("bad case: %w", err))
		}
		return safely(func() string { return f(tier, &c) })
	}}
	if describe != nil {
		kf.describe = func(raw []byte, tier string) []string {
			var c T
			if err := json.Unmarshal(raw, &c); err != nil {
				fatal(err)
			}
			return describe(tier, &c)
		}
	}
	kinds[name] = kf
	return func(r *Runner, slot int, c *T) bool {
		raw, err := json.Marshal(c)
		if err != nil {
			fatal(err)
		}
		env := Envelope{Prop: r.prop, Tier: r.tier, Kind: name, Order: uint64(r.order), Case: raw}
		r.putSlot(slot, &env)
		msg := safely(func() string { return f(r.tier, c) })
		r.clearSlot(slot)
		if msg == "" {
			return true
		}
		r.violate(env, msg)
		return false
	}
}

func (r *Runner) violate(env Envelope, msg string) {
	v := Violation{Env: env, Msg: msg}
	if d := kinds[env.Kind].describe; d != nil {
		v.Steps = d(env.Case, env.Tier)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if isKnown(v) {
		r.note("known finding seen: %s", msg)
		return
	}
	r.res.Violations = append(r.res.Violations, v)
	r.stop.Store(true)
}

func safely(f func() string) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("panic: %v%s", e, whereFrom(string(debug.Stack())))
		}
	}()
	beginOrder()
	return f()
}

func whereFrom(stack string) string {
	var w []string
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/williamflynt/topolith") && len(w) < 4 {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			w = append(w, strings.TrimPrefix(l, "github.com/williamflynt/topolith/"))
		}
	}
	if len(w) == 0 {
		return ""
	}
	return " in " + strings.Join(w, " < ")
}

// parallel runs f(slot, i) for i in [0,n) on all processors.
func (r *Runner) parallel(n int, f func(slot, i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for s := 0; s < r.nw; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || r.done() {
					return
				}
				f(s, i)
			}
		}(s)
	}
	wg.Wait()
}

// feed runs f(slot, item) for everything gen emits.
func feed[T any](r *Runner, gen func(emit func(T) bool), f func(slot int, x T)) {
	ch := make(chan []T, 64)
	var wg sync.WaitGroup
	for s := 0; s < r.nw; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			for b := range ch {
				for _, x := range b {
					if r.done() {
						break
					}
					f(s, x)
				}
			}
		}(s)
	}
	var buf []T
	gen(func(x T) bool {
		buf = append(buf, x)
		if len(buf) == 256 {
			ch <- buf
			buf = nil
		}
		return !r.stop.Load() && !r.expire.Load()
	})
	if len(buf) > 0 {
		ch <- buf
	}
	close(ch)
	wg.Wait()
}

func (r *Runner) finish(path string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Counters = map[string]int64{}
	for k, c := range r.ctr {
		r.res.Counters[k] = c.Load()
	}
	sort.SliceStable(r.res.Violations, func(i, j int) bool { return len(r.res.Violations[i].Env.Case) < len(r.res.Violations[j].Env.Case) })
	b, err := json.Marshal(r.res)
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(path, b, 0o600); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(realStderr, "mc:", err)
	os.Exit(2)
}
