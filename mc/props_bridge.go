package main

// C19: the browser bridge, run as the real WebAssembly program under node. C22: the terminal, run as the real program
// with only the line editor's reading of the keyboard replaced (see overlay/prompt.go.txt).

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	_ "embed"

	"github.com/williamflynt/topolith/pkg/grammar"
)

//go:embed wasm_driver.js
var wasmDriver string

//go:embed overlay/prompt.go.txt
var promptOverlay string

const repoDir = "/repo"

func scratchBase() string {
	if d := os.Getenv("MC_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

func goBuild(out string, env []string, args ...string) {
	cmd := exec.Command("go", append([]string{"build", "-o", out}, args...)...)
	cmd.Dir = repoDir
	cmd.Env = append(append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local"), env...)
	if b, err := cmd.CombinedOutput(); err != nil {
		fatal(fmt.Errorf("go build %v: %v\n%s", args, err, b))
	}
}

func goEnv(name string) string {
	cmd := exec.Command("go", "env", name)
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), "GOFLAGS=", "GOTOOLCHAIN=local")
	b, err := cmd.Output()
	if err != nil {
		fatal(err)
	}
	return strings.TrimSpace(string(b))
}

var wasmOnce, cliOnce sync.Once
var wasmFile, wasmExecJS, wasmDriverJS, cliFile string

func buildWasm() {
	wasmOnce.Do(func() {
		d := scratchBase()
		wasmFile, wasmDriverJS = filepath.Join(d, "topolith.wasm"), filepath.Join(d, "driver.js")
		mustDo(os.WriteFile(wasmDriverJS, []byte(wasmDriver), 0o600))
		for _, p := range []string{"lib/wasm", "misc/wasm"} {
			f := filepath.Join(goEnv("GOROOT"), p, "wasm_exec.js")
			if _, err := os.Stat(f); err == nil {
				wasmExecJS = f
			}
		}
		if _, err := os.Stat(wasmFile); err != nil || os.Getenv("MC_SCRATCH") == "" {
			goBuild(wasmFile+".tmp", []string{"GOOS=js", "GOARCH=wasm"}, "./cmd/wasm")
			mustDo(os.Rename(wasmFile+".tmp", wasmFile))
		}
	})
}

func buildCli() {
	cliOnce.Do(func() {
		d := scratchBase()
		cliFile = filepath.Join(d, "topolith-cli")
		if _, err := os.Stat(cliFile); err == nil && os.Getenv("MC_SCRATCH") != "" {
			return
		}
		cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "github.com/c-bata/go-prompt")
		cmd.Dir = repoDir
		cmd.Env = append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local")
		b, err := cmd.Output()
		if err != nil {
			fatal(err)
		}
		// A copy of the line editor whose Run reads from a pipe, put in its place through -modfile.
		src, dst := strings.TrimSpace(string(b)), filepath.Join(d, "go-prompt")
		mustDo(os.CopyFS(dst, os.DirFS(src)))
		file := filepath.Join(dst, "prompt.go")
		mustDo(os.Chmod(file, 0o600))
		mustDo(os.Chmod(dst, 0o700))
		text, err := os.ReadFile(file)
		mustDo(err)
		const run = "func (p *Prompt) Run() {"
		if strings.Count(string(text), run) != 1 {
			fatal(fmt.Errorf("the replacement does not fit this go-prompt"))
		}
		mustDo(os.WriteFile(file, []byte(strings.Replace(string(text), run, "func (p *Prompt) runOnTerminal() {", 1)), 0o600))
		if tty, err := os.ReadFile(filepath.Join(dst, "input_posix.go")); err == nil {
			mustDo(os.Chmod(filepath.Join(dst, "input_posix.go"), 0o600))
			mustDo(os.WriteFile(filepath.Join(dst, "input_posix.go"), bytes.ReplaceAll(tty, []byte(`"/dev/tty"`), []byte(`"/dev/null"`)), 0o600))
		}
		mustDo(os.WriteFile(filepath.Join(dst, "prompt_verif.go"), []byte(promptOverlay), 0o600))
		for _, f := range []string{"go.mod", "go.sum"} {
			t, err := os.ReadFile(filepath.Join(repoDir, f))
			mustDo(err)
			if f == "go.mod" {
				t = append(t, ("\nreplace github.com/c-bata/go-prompt => " + dst + "\n")...)
			}
			mustDo(os.WriteFile(filepath.Join(d, "cli-"+f), t, 0o600))
		}
		mustDo(os.Rename(filepath.Join(d, "cli-go.mod"), filepath.Join(d, "cli.mod")))
		mustDo(os.Rename(filepath.Join(d, "cli-go.sum"), filepath.Join(d, "cli.sum")))
		goBuild(cliFile+".tmp", []string{"GOFLAGS=-mod=mod"}, "-modfile", filepath.Join(d, "cli.mod"), "./cmd/cli")
		mustDo(os.Rename(cliFile+".tmp", cliFile))
	})
}

// --- lines ---

var bridgeLines = []string{
	`item create a name="A: one"`, `item create b`, `item create "a b" type=server expanded="e. x"`, `nest a in b`, `nest a in zz`, `free a`, `item fetch a`,
	`item fetch zz`, `item list`, `items in b`, `item? a`, `item? zz`, `rel create a b verb="calls it" async=true`, `rel create a zz`, `rel fetch a b`,
	`rel list`, `rel? a b`, `from? a`, `to? b`, `in? a b`, `rel delete a b`, `item delete a`, `item set a type=person external=true`, `item set a type=bogus`,
	`item clear a name`, `item a mechanism=m`, `rel b a`, `world`, `item create a -strict --verbose`, "  item create c\t", "item create c\n", "item\n create\r\n c", `rel create b b`,
}

var bridgeJunk = []string{
	"", " ", "\t\n", "bogus", "item", "item create", "item list x", "200 ok", `404 error "x"`, "x\n$$$$\n200 ok", "item a\n$$$$\n200 ok fine", "tree{nil::[]}", "tree{item a::[tree{nil::[]}]}",
	"$$world\nversion=1\nid=x\nname=y\nexpanded=\ntree{nil::[]}\nendworld$$", `"`, `item create "a`, "é", "item create é", "item create \U0001F600", "\x00", "item create a\x00", "undo", "redo", ".save", ".load", "exit", "quit", "200", "$$$$", "world world",
	"item create %d%s", "item create " + strings.Repeat("long", 1500),
}

var jsArgs = []string{"\x01none", "\x01two", "\x01number", "\x01null", "\x01undefined", "\x01object", "\x01surrogate"}

type linesCase struct {
	Lines []string `json:"lines"`
}

func describeLines(tier string, c *linesCase) []string {
	var out []string
	for _, l := range c.Lines {
		if strings.HasPrefix(l, "\x01") {
			out = append(out, "call with "+l[1:]+" argument(s)")
			continue
		}
		out = append(out, strconv.Quote(clip(l, 200)))
	}
	return out
}

// sameAnswer says whether two answers are the same but for the order of what they list.
func sameAnswer(a, b string) bool {
	if a == b {
		return true
	}
	x, err := readReply(a)
	if err != nil {
		return false
	}
	y, err := readReply(b)
	if err != nil {
		return false
	}
	return x.Code == y.Code && x.Kind == y.Kind && x.Word == y.Word && x.Status == y.Status && canonReply(x) == canonReply(y) && len(a) == len(b)
}

// --- the browser bridge ---

type nodeProc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	used int
	err  bytes.Buffer
}

// nodePool keeps node processes that answer one JSON text per line with one JSON text per line.
type nodePool struct {
	idle chan *nodeProc
	args func() []string
	max  int // jobs per process
}

func (p *nodePool) get() *nodeProc {
	select {
	case n := <-p.idle:
		return n
	default:
	}
	n := &nodeProc{cmd: exec.Command("node", append([]string{"--max-old-space-size=2048"}, p.args()...)...)}
	n.cmd.Dir = scratchBase()
	in, err := n.cmd.StdinPipe()
	mustDo(err)
	out, err := n.cmd.StdoutPipe()
	mustDo(err)
	n.in, n.out = in, bufio.NewReaderSize(out, 1<<20)
	n.cmd.Stderr = &limitedWriter{w: &n.err, n: 4096}
	mustDo(n.cmd.Start())
	return n
}

func (p *nodePool) release(n *nodeProc) {
	if n.used++; n.used < p.max {
		select {
		case p.idle <- n:
			return
		default:
		}
	}
	n.in.Close()
	n.cmd.Wait()
}

func (p *nodePool) close() {
	for {
		select {
		case n := <-p.idle:
			n.in.Close()
			n.cmd.Wait()
		default:
			return
		}
	}
}

// ask sends one job and reads its answer.
func (p *nodePool) ask(job, answer any) error {
	n := p.get()
	b, err := json.Marshal(job)
	mustDo(err)
	if _, err := n.in.Write(append(b, '\n')); err != nil {
		return fmt.Errorf("node: %w: %s", err, n.err.String())
	}
	type res struct {
		b   []byte
		err error
	}
	ch := make(chan res, 1)
	go func() {
		l, err := n.out.ReadBytes('\n')
		ch <- res{l, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			n.cmd.Wait()
			return fmt.Errorf("the browser process ended: %v: %s", r.err, clip(n.err.String(), 300))
		}
		if err := json.Unmarshal(r.b, answer); err != nil {
			return err
		}
		p.release(n)
		return nil
	case <-time.After(60 * time.Second):
		n.cmd.Process.Kill()
		n.cmd.Wait()
		return fmt.Errorf("no answer within 60 s")
	}
}

var bridgePool = &nodePool{idle: make(chan *nodeProc, 64), max: 200, args: func() []string {
	buildWasm()
	return []string{wasmDriverJS, wasmExecJS, wasmFile}
}}

type jsResult struct {
	R *string `json:"r"`
	E string  `json:"e"`
}

type jsReply struct {
	Status *int              `json:"status"`
	Data   *grammar.Response `json:"data"`
	Error  map[string]string `json:"error"`
	Raw    *string           `json:"raw"`
}

func runWasm(lines []string) (out []jsResult, err error) {
	err = bridgePool.ask(lines, &out)
	return
}

func judgeJS(js string, want string) string {
	var j jsReply
	dec := json.NewDecoder(strings.NewReader(js))
	if err := dec.Decode(&j); err != nil {
		return fmt.Sprintf("the reply is not JSON: %v: %s", err, clip(js, 200))
	}
	if j.Status == nil || j.Raw == nil || j.Data == nil || j.Error == nil {
		return fmt.Sprintf("a field is missing in the reply %s", clip(js, 300))
	}
	raw := *j.Raw
	if !sameAnswer(raw, want) {
		return fmt.Sprintf("raw is %q, the application answers %q", clip(raw, 300), clip(want, 300))
	}
	rep, err := readReply(raw)
	if err != nil {
		return "" // C13 judges the application's answer
	}
	if *j.Status != rep.Code {
		return fmt.Sprintf("status is %d, the answer %q", *j.Status, clip(raw, 300))
	}
	if (len(j.Error) == 0) != (rep.Code == 200) {
		return fmt.Sprintf("error is %v for the answer %q", j.Error, clip(raw, 300))
	}
	if rep.Code != 200 {
		if j.Error["code"] != strconv.Itoa(rep.Code) {
			return fmt.Sprintf("the error's code is %q for the answer %q", j.Error["code"], clip(raw, 300))
		}
		if _, rest, ok := strings.Cut(rep.Status, `"`); ok {
			if m, _, _ := strings.Cut(rest, `"`); m != j.Error["message"] {
				return fmt.Sprintf("the error's message is %q for the answer %q", j.Error["message"], clip(raw, 300))
			}
		}
	}
	if j.Data.Status.Code != rep.Code {
		return fmt.Sprintf("data has the status code %d for the answer %q", j.Data.Status.Code, clip(raw, 300))
	}
	d := j.Data.Object
	bad := func() string {
		return fmt.Sprintf("data describes %s %q, the answer is %q", d.Type, clip(d.Repr, 300), clip(raw, 300))
	}
	same := func(text string) bool {
		x, err := readReply(text + "\n$$$$\n200 ok")
		return err == nil && x.Kind == rep.Kind && canonReply(x) == canonReply(rep)
	}
	switch {
	case rep.Kind == "" || rep.Kind == "none":
		if strings.TrimSpace(d.Repr) != "" {
			return bad()
		}
	case rep.Kind == "items" && (d.Type != "item" || !same(d.Repr)),
		rep.Kind == "rels" && (d.Type != "rel" || !same(d.Repr)),
		rep.Kind == "world" && (d.Type != "world" || !same(d.Repr) && !same("$$world\n"+d.Repr+"\nendworld$$")):
		return bad()
	case rep.Kind == "bool":
		if strings.Trim(d.Repr, `[]" `) != strings.TrimSpace(rep.Object) {
			return bad()
		}
	}
	return ""
}

var evalBridge = kind("bridge", func(tier string, c *linesCase) string {
	res, err := runWasm(c.Lines)
	if err != nil {
		return err.Error()
	}
	native := newSut("default-world")
	for i, l := range c.Lines {
		if i >= len(res) {
			return fmt.Sprintf("line %d: no reply", i+1)
		}
		r := res[i]
		if r.R == nil {
			return fmt.Sprintf("line %d: the bridge failed: %s", i+1, r.E)
		}
		if strings.HasPrefix(l, "\x01") {
			continue // answered at all; nothing must have changed, which the later lines show
		}
		want := native.App.Exec(l)
		if msg := judgeJS(*r.R, want); msg != "" {
			return fmt.Sprintf("line %d: %s", i+1, msg)
		}
	}
	return ""
}, describeLines)

// lineSeqs feeds every sequence of exactly n lines (which covers all shorter ones as prefixes).
func lineSeqs(alpha []string, n int, emit func([]string) bool) bool {
	var rec func(p []string) bool
	rec = func(p []string) bool {
		if len(p) == n {
			return emit(append([]string{}, p...))
		}
		for _, l := range alpha {
			if !rec(append(p, l)) {
				return false
			}
		}
		return true
	}
	return rec(nil)
}

type seqFamily struct {
	name  string
	alpha []string
	pre   []string // lines before
	n     int
	post  []string // lines after
}

func seqFamilies(th bool, extra []string) []seqFamily {
	all := append(append(append([]string{}, bridgeLines...), bridgeJunk...), extra...)
	build := []string{`item create a name="A: one"`, `item create b`, `nest a in b`, `rel create a b verb="calls it"`}
	small := []string{`item create a name=n`, `item create "b c"`, `nest a in "b c"`, `free a`, `item delete a`, `rel create a "b c"`, `rel delete a "b c"`, "bogus"}
	look := []string{"world", "item list", "rel list"}
	return []seqFamily{
		{"every line after every line", all, nil, 2, []string{"world"}},
		{"every line on a built world, then looking", all, build, 1, look},
		{"building", small, nil, pick(th, 3, 4), look},
		{"commands on a built world", bridgeLines, build, pick(th, 1, 2), look},
		{"junk in between", append(append([]string{}, bridgeJunk[:20]...), extra...), []string{`item create a`}, pick(th, 1, 2), []string{`item create b`, `rel create a b`, "world", "rel list"}},
	}
}

func (r *Runner) runSequences(fs []seqFamily, eval func(r *Runner, slot int, c *linesCase) bool) {
	for _, f := range fs {
		n, lines := int64(0), int64(0)
		var mu sync.Mutex
		feedN(r, 16, func(emit func(linesCase) bool) {
			lineSeqs(f.alpha, f.n, func(p []string) bool {
				return emit(linesCase{append(append(append([]string{}, f.pre...), p...), f.post...)})
			})
		}, func(slot int, c linesCase) {
			eval(r, slot, &c)
			mu.Lock()
			n++
			lines += int64(len(c.Lines))
			if n == 100 {
				r.sample("%s: %s", f.name, strings.Join(describeLines("", &c), "; "))
			}
			mu.Unlock()
		})
		r.note("%s: %d lines in the alphabet, all sequences of %d: %d sequences", f.name, len(f.alpha), f.n, n)
		r.count("states", n)
		r.count("transitions", lines)
		r.count("traces_validated_against_impl", n)
	}
}

// runLong: sessions of hundreds of lines in one instance, and lines of every length.
func (r *Runner) runLong(extra []string, eval func(r *Runner, slot int, c *linesCase) bool) {
	al := append(append(append([]string{}, bridgeLines...), bridgeJunk...), extra...)
	var ss []linesCase
	for st := 1; st < len(al); st += pick(r.thorough(), 4, 1) {
		ss = append(ss, linesCase{append(sessionLines(al, st, pick(r.thorough(), 300, 2000)), "world", "item list")})
	}
	for _, l := range lengthLines(pick(r.thorough(), 12, 72), pick(r.thorough(), 14, 17)) {
		ss = append(ss, linesCase{l})
	}
	r.parallel(len(ss), func(slot, i int) {
		eval(r, slot, &ss[i])
		r.count("states", int64(len(ss[i].Lines)))
		r.count("transitions", int64(len(ss[i].Lines)))
		r.count("traces_validated_against_impl", int64(len(ss[i].Lines)))
	})
	r.note("%d sessions of up to %d lines, or of lines of up to 2^%d characters", len(ss), pick(r.thorough(), 300, 2000), pick(r.thorough(), 14, 17))
}

func runC19(r *Runner) {
	buildWasm()
	r.runSequences(seqFamilies(r.thorough(), jsArgs), evalBridge)
	r.runLong(jsArgs, evalBridge)
	bridgePool.close()
}

// --- the terminal ---

const lineEnd = "\x01END OF LINE\x01\n"

var evalTerminal = kind("terminal", func(tier string, c *linesCase) string {
	buildCli()
	cmd := exec.Command(cliFile)
	cmd.Dir = scratchBase()
	cmd.Env = append(os.Environ(), "TOPOLITH_VERIF_LINES="+lineEnd, "HOME="+scratchBase())
	var in strings.Builder
	for _, l := range c.Lines {
		in.WriteString(strconv.Quote(l) + "\n")
	}
	cmd.Stdin = strings.NewReader(in.String())
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &limitedWriter{w: &errb, n: 1 << 16}
	mustDo(cmd.Start())
	timer := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	text := out.String()
	parts := strings.Split(text, lineEnd)
	if len(parts) < 2 {
		return fmt.Sprintf("the terminal did not start: %v %s", err, firstLine(errb.String()))
	}
	parts = parts[1:] // before the first separator: the greeting
	native := newSut("default-world")
	for i, l := range c.Lines {
		if i >= len(parts)-1 {
			return fmt.Sprintf("line %d: the terminal ended: %v %s", i+1, err, firstLine(errb.String()))
		}
		if msg := judgeTerminal(l, parts[i], native); msg != "" {
			return fmt.Sprintf("line %d: %s", i+1, msg)
		}
	}
	if err != nil {
		return fmt.Sprintf("the terminal ended with %v %s", err, firstLine(errb.String()))
	}
	return ""
}, describeLines)

func judgeTerminal(l, printed string, native *Sut) string {
	t := strings.TrimSpace(l)
	if t == "" {
		if strings.TrimSpace(printed) != "" {
			return fmt.Sprintf("a blank line prints %q", clip(printed, 200))
		}
		return ""
	}
	if _, err := grammar.Parse(t); err != nil {
		if !strings.Contains(strings.ToLower(printed), "invalid input") {
			return fmt.Sprintf("the line is not in the language but prints %q", clip(printed, 300))
		}
		if i := strings.Index(printed, "200 ok"); i >= 0 && !strings.Contains(l, "200 ok") {
			return fmt.Sprintf("the line is not in the language but prints %q", clip(printed, 300))
		}
		return ""
	}
	want := native.App.Exec(t)
	got := strings.TrimRight(printed, "\n")
	want = strings.TrimRight(want, "\n")
	if sameAnswer(got, want) {
		return ""
	}
	// What the application prints itself (the tree of a text that is no command) comes first; the answer is at the end.
	if len(got) > len(want) && sameAnswer(got[len(got)-len(want):], want) && got[len(got)-len(want)-1] == '\n' {
		if rest := got[:len(got)-len(want)]; !strings.Contains(rest, "$$$$\n200 ok") || strings.Contains(l, "$$") {
			return ""
		}
	}
	return fmt.Sprintf("prints %q, the application answers %q", clip(got, 300), clip(want, 300))
}

func runC22(r *Runner) {
	buildCli()
	fs := seqFamilies(r.thorough(), nil)
	// Whitespace around lines.
	var ws []string
	for _, a := range []string{"", " ", "\t", "\n", "\r\n", "   \t", "\v", "\u00a0"} {
		for _, b := range []string{"", " ", "\t\t", "\n", "\r", " \r\n ", "\f"} {
			ws = append(ws, a+`item create a`+b, a+"bogus"+b, a+b)
		}
	}
	fs = append(fs, seqFamily{"whitespace around a line", ws, nil, 1, []string{"item create b", "world"}})
	r.runSequences(fs, evalTerminal)
	r.runLong(nil, evalTerminal)
}

// feedN is feed with small batches, for expensive cases.
func feedN[T any](r *Runner, batch int, gen func(emit func(T) bool), f func(slot int, x T)) {
	var buf []T
	flush := func() {
		b := buf
		buf = nil
		r.parallel(len(b), func(slot, i int) { f(slot, b[i]) })
	}
	gen(func(x T) bool {
		buf = append(buf, x)
		if len(buf) == batch*r.nw*16 {
			flush()
		}
		return !r.done()
	})
	flush()
}

func init() {
	props["C19"] = &Prop{Level: "model_checking", Run: runC19, Quick: 6 * time.Minute, Thorough: 14 * time.Minute,
		Rule:   "every sequence of lines over the alphabets, each in a fresh instance of the real WebAssembly program under node; every reply compared with what the native application answers and with an independent reading of that answer",
		Assume: []string{"node's WebAssembly and Go's wasm_exec.js"}}
	props["C22"] = &Prop{Level: "model_checking", Run: runC22, Quick: 6 * time.Minute, Thorough: 14 * time.Minute,
		Rule:   "every sequence of lines over the alphabets, each in a fresh process of the real terminal program whose line editor reads the lines from a pipe; what each line prints compared with the application's answer",
		Assume: []string{"the line editor hands each line to the handler it was given (its reading of the keyboard is replaced)"}}
}
