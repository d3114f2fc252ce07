package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

var realStderr = os.Stderr
var realStdout = os.Stdout

// Prop is one property check.
type Prop struct {
	Level string // model_checking or fault_enumeration
	Run   func(r *Runner)
	// Budget per tier; the exploration stops (exhaustive:false, exit 0) when it is reached.
	Quick, Thorough time.Duration
	Rule            string
	Assume          []string
}

var props = map[string]*Prop{}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: mc check ID TIER VERIFDIR | mc worker ID TIER SLOTS RESULT | mc replay FILE")
	os.Exit(2)
}

func main() {
	debug.SetMaxStack(64 << 20)
	if len(os.Args) < 3 {
		usage()
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2], os.Args[3], os.Args[4]))
	case "worker":
		quiet()
		p := props[os.Args[2]]
		budget := p.Quick
		if os.Args[3] == "thorough" {
			budget = p.Thorough
		}
		if n, err := strconv.Atoi(os.Getenv("MC_BUDGET")); err == nil { // for quick looks only
			budget = time.Duration(n) * time.Second
		}
		r := newRunner(os.Args[2], os.Args[3], os.Args[4], budget)
		r.watchdog(90 * time.Second)
		if f, err := os.Create(os.Getenv("MC_PROFILE")); err == nil { // where the time goes
			pprof.StartCPUProfile(f)
			defer f.Close()
		}
		p.Run(r)
		pprof.StopCPUProfile()
		r.finish(os.Args[5])
	case "replay":
		quiet()
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fatal(err)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fatal(err)
		}
		k, ok := kinds[v.Env.Kind]
		if !ok {
			fatal(fmt.Errorf("unknown kind %q", v.Env.Kind))
		}
		setGlobalOrder(Perm(v.Env.Order))
		if msg := k.run(v.Env.Case, v.Env.Tier); msg != "" {
			fmt.Fprintln(realStdout, "reproduced:", msg)
			os.Exit(1)
		}
		fmt.Fprintln(realStdout, "not reproduced: the property holds on this case")
	case "aux": // helper processes of single checks
		quiet()
		aux(os.Args[2], os.Args[3:])
	default:
		usage()
	}
}

// quiet sends the library's own printing (syntax trees, loaded files) to nowhere.
func quiet() {
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		fatal(err)
	}
	os.Stdout = null
}

var auxFns = map[string]func(args []string){}

func aux(name string, args []string) {
	f, ok := auxFns[name]
	if !ok {
		fatal(fmt.Errorf("unknown aux %q", name))
	}
	f(args)
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	return p
}

// replayOnce runs one case alone in a fresh process: "", or what went wrong.
func replayOnce(dir string, v Violation) (bad bool, msg string) {
	f := filepath.Join(dir, "replay.json")
	b, _ := json.Marshal(v)
	if err := os.WriteFile(f, b, 0o600); err != nil {
		fatal(err)
	}
	cmd := exec.Command(self(), "replay", f)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &limitedWriter{w: &errb, n: 1 << 16}
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		switch cmd.ProcessState.ExitCode() {
		case 0:
			return false, ""
		case 1:
			return true, strings.TrimSpace(strings.TrimPrefix(out.String(), "reproduced:"))
		}
		if strings.Contains(errb.String(), "mc:") && cmd.ProcessState.ExitCode() == 2 && !strings.Contains(errb.String(), "goroutine ") {
			fatal(fmt.Errorf("replay: %v: %s", err, errb.String()))
		}
		return true, "the process crashed: " + firstLine(errb.String())
	case <-time.After(120 * time.Second):
		cmd.Process.Kill()
		<-done
		return true, "the operation does not end (120 s)"
	}
}

// limitedWriter keeps the first n bytes, and everything from the first line of a crash on (up to n more).
type limitedWriter struct {
	w     *bytes.Buffer
	n     int
	crash bool
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if !l.crash {
		for _, s := range []string{"panic: ", "fatal error: ", "runtime: goroutine stack"} {
			if bytes.HasPrefix(p, []byte(s)) {
				l.crash = true
				l.n += l.w.Len()
				l.w.WriteByte('\n')
			}
		}
	}
	if r := l.n - l.w.Len(); r > 0 {
		l.w.Write(p[:min(r, len(p))])
	}
	return len(p), nil
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "panic:") {
			return l
		}
	}
	l, _, _ := strings.Cut(s, "\n")
	return l
}

func check(id, tier, verif string) int {
	p, ok := props[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	start := time.Now()
	dir, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	os.Setenv("MC_SCRATCH", dir)
	if d, err := os.MkdirTemp("/dev/shm", "mc-"+id+"-"); err == nil { // in memory: the checks write many small files
		defer os.RemoveAll(d)
		os.Setenv("MC_SCRATCH_FAST", d)
	}
	loadKnown(verif)
	slots, resf := filepath.Join(dir, "slots"), filepath.Join(dir, "result.json")
	var res Result
	var confirmed []Violation
	for attempt := 0; ; attempt++ {
		errf, err := os.Create(filepath.Join(dir, "stderr"))
		if err != nil {
			fatal(err)
		}
		cmd := exec.Command(self(), "worker", id, tier, slots, resf)
		cmd.Stderr = errf
		cmd.Env = append(os.Environ(), "MC_VERIF="+verif)
		err = cmd.Run()
		errf.Close()
		if err == nil {
			b, err := os.ReadFile(resf)
			if err != nil {
				fatal(err)
			}
			if err := json.Unmarshal(b, &res); err != nil {
				fatal(err)
			}
			for _, v := range res.Violations {
				n, last := 0, ""
				for i := 0; i < 5; i++ {
					if bad, m := replayOnce(dir, v); bad {
						n++
						last = m
					}
				}
				if n > 0 {
					v.Msg = last
				}
				v.Msg += fmt.Sprintf(" [reproduced %d/5]", n)
				confirmed = append(confirmed, v)
				if len(confirmed) == 3 {
					break
				}
			}
			break
		}
		// The worker died: the case that killed it is among those in flight.
		serr, _ := os.ReadFile(filepath.Join(dir, "stderr"))
		res.Counters = map[string]int64{"crashed_workers": 1}
		for _, e := range readSlots(slots) {
			v := Violation{Env: e}
			if d := kinds[e.Kind].describe; d != nil {
				v.Steps = d(e.Case, e.Tier)
			}
			if bad, m := replayOnce(dir, v); bad {
				v.Msg = m
				if !isKnown(v) {
					confirmed = append(confirmed, v)
					break
				}
			}
		}
		if len(confirmed) > 0 {
			break
		}
		if attempt == 1 {
			if len(serr) > 4000 {
				serr = serr[:4000]
			}
			fmt.Fprintf(os.Stderr, "worker for %s ended with %v and no single case reproduces it\n%s\n", id, err, serr)
			return 2
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	writeEvidence(verif, id, tier, seed, p, &res, len(confirmed), time.Since(start).Seconds())
	for _, k := range knownFor(id) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if len(confirmed) == 0 {
		fmt.Printf("%s %s: held on everything explored (%s) in %.1fs\n", id, tier, countersText(res.Counters), time.Since(start).Seconds())
		return 0
	}
	rdir := filepath.Join(verif, "replays")
	os.MkdirAll(rdir, 0o755)
	for _, v := range confirmed {
		b, _ := json.MarshalIndent(v, "", " ")
		f := filepath.Join(rdir, fmt.Sprintf("%s-%x.json", id, sha256.Sum256(append([]byte(v.Env.Kind), v.Env.Case...)))[:len(id)+9]+".json")
		if err := os.WriteFile(f, b, 0o644); err != nil {
			fatal(err)
		}
		fmt.Printf("%s\n", v.Msg)
		for _, s := range v.Steps {
			fmt.Printf("    %s\n", s)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
	}
	return 1
}

func countersText(c map[string]int64) string {
	var ks []string
	for k := range c {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var w []string
	for _, k := range ks {
		w = append(w, fmt.Sprintf("%s=%d", k, c[k]))
	}
	return strings.Join(w, " ")
}

func writeEvidence(verif, id, tier string, seed int, p *Prop, res *Result, viol int, wall float64) {
	cov := map[string]any{"exhaustive": res.Exhaustive && viol == 0, "notes": res.Notes}
	for k, v := range res.Counters {
		cov[k] = v
	}
	samples := res.Samples
	if samples == nil {
		samples = []string{}
	}
	cov["samples"] = samples
	cov["rule"] = p.Rule
	need := []string{"states", "transitions", "traces_validated_against_impl"}
	if p.Level == "fault_enumeration" {
		need = []string{"evaluations", "distinct_nontrivial"}
	}
	for _, k := range need {
		if _, ok := cov[k]; !ok {
			cov[k] = 0
		}
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": append([]string{"Go's runtime, compiler and standard library", "the reference model in mc/model.go where the check compares with it"}, p.Assume...)}
	b, _ := json.MarshalIndent(ev, "", " ")
	d := filepath.Join(verif, "evidence")
	os.MkdirAll(d, 0o755)
	if err := os.WriteFile(filepath.Join(d, id+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}
}

// --- known findings ---

type knownT struct{ prop, kindCase, text string }

var known []knownT

// known_findings.txt lines: "known: property=<id> kind=<kind> case=<exact JSON of the case> | <what fails>"
// and "fixed: property=<id> <commit> <what failed>" (which suppress nothing).
func loadKnown(verif string) {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property=")
		if !ok {
			continue
		}
		id, rest, _ := strings.Cut(rest, " ")
		kc, text, _ := strings.Cut(rest, " | ")
		known = append(known, knownT{id, kc, text})
	}
}

func isKnown(v Violation) bool {
	if known == nil {
		if d := os.Getenv("MC_VERIF"); d != "" {
			loadKnown(d)
		}
	}
	kc := "kind=" + v.Env.Kind + " case=" + string(v.Env.Case)
	for _, k := range known {
		if k.prop == v.Env.Prop && k.kindCase == kc {
			return true
		}
	}
	return false
}

func knownFor(id string) (out []string) {
	for _, k := range known {
		if k.prop == id {
			out = append(out, k.text)
		}
	}
	return
}
