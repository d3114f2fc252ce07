package main

// C23: the browser terminal (web/src), bundled as it is and run under node with stand-ins for React and xterm that let
// the checker press keys and see what is written.

import (
	"embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
)

//go:embed overlay/web
var webFiles embed.FS

const esbuildBin = "/opt/veriftools/node/node_modules/.bin/esbuild"

var webOnce sync.Once
var webBundle, webDriver string

var moduleScript = regexp.MustCompile(`<script[^>]*type=["']?module["']?[^>]*src=["']([^"']+)["']`)

func buildWeb() {
	webOnce.Do(func() {
		buildWasm()
		d := filepath.Join(scratchBase(), "web")
		webBundle, webDriver = filepath.Join(d, "bundle.js"), filepath.Join(d, "driver.js")
		if _, err := os.Stat(webBundle); err == nil && os.Getenv("MC_SCRATCH") != "" {
			return
		}
		mustDo(os.MkdirAll(d, 0o700))
		ents, err := webFiles.ReadDir("overlay/web")
		mustDo(err)
		for _, e := range ents {
			b, err := webFiles.ReadFile("overlay/web/" + e.Name())
			mustDo(err)
			mustDo(os.WriteFile(filepath.Join(d, e.Name()), b, 0o600))
		}
		entry := "src/main.tsx"
		if b, err := os.ReadFile(filepath.Join(repoDir, "web/index.html")); err == nil {
			if m := moduleScript.FindSubmatch(b); m != nil {
				entry = strings.TrimPrefix(string(m[1]), "/")
			}
		}
		args := []string{entry, "--bundle", "--format=iife", "--platform=browser", "--log-level=warning", "--loader:.css=empty", "--loader:.svg=empty", "--outfile=" + webBundle + ".tmp.js", "--define:import.meta.env={}"}
		for _, m := range []string{"react", "react/jsx-runtime", "react/jsx-dev-runtime", "react-dom", "react-dom/client"} {
			args = append(args, "--alias:"+m+"="+filepath.Join(d, "react.js"))
		}
		for _, m := range []string{"xterm", "@xterm/xterm"} {
			args = append(args, "--alias:"+m+"="+filepath.Join(d, "xterm.js"), "--alias:"+m+"/css/xterm.css="+filepath.Join(d, "empty.css"))
		}
		cmd := exec.Command(esbuildBin, args...)
		cmd.Dir = filepath.Join(repoDir, "web")
		if b, err := cmd.CombinedOutput(); err != nil {
			fatal(fmt.Errorf("esbuild: %v\n%s", err, b))
		}
		mustDo(os.Rename(webBundle+".tmp.js", webBundle))
	})
}

var webPool = &nodePool{idle: make(chan *nodeProc, 64), max: 3000, args: func() []string {
	buildWeb()
	return []string{webDriver, webBundle, wasmExecJS, wasmFile}
}}

const (
	keyEnter = "\r"
	keyBack  = "\u007f"
	keyLoad  = "\x01load"
)

type webCase struct {
	Keys  []string `json:"keys"`
	Drain []bool   `json:"drain,omitempty"` // after which keys the page's timers run; absent: after each
	Late  bool     `json:"late,omitempty"`  // the WebAssembly program loads at keyLoad
	Wasm  bool     `json:"wasm,omitempty"`  // the real program answers, else a recorder
	First int      `json:"first,omitempty"` // the recorder's first answer
}

type webResult struct {
	Sent    []string  `json:"sent"`
	Replies []*string `json:"replies"`
	Shown   []struct {
		W string `json:"w"`
		N int    `json:"n"`
	} `json:"shown"`
	Boot  string   `json:"boot"`
	Crash []string `json:"crash"`
}

func describeWeb(tier string, c *webCase) []string {
	var out []string
	for i, k := range c.Keys {
		s := "key " + strconv.Quote(k)
		if k == keyEnter {
			s = "Enter"
		} else if k == keyBack {
			s = "Backspace"
		} else if k == keyLoad {
			s = "(the program finishes loading)"
		}
		if c.Drain != nil && !c.Drain[i] {
			s += ", the page's timers do not run before the next key"
		}
		out = append(out, s)
	}
	return out
}

var csi = regexp.MustCompile("\x1b\\[[0-9;?]*[A-Za-z]")

func plain(s string) string { return csi.ReplaceAllString(s, "") }

// screenRow is the last row a terminal shows after s.
func screenRow(s string) string {
	var row []rune
	col := 0
	for _, c := range plain(s) {
		switch c {
		case '\n':
			row, col = nil, 0
		case '\r':
			col = 0
		case '\b':
			if col > 0 {
				col--
			}
		default:
			for len(row) <= col {
				row = append(row, ' ')
			}
			row[col] = c
			col++
		}
	}
	return strings.TrimRight(string(row), " ")
}

func isASCII(s string) bool {
	for _, c := range s {
		if c > 126 {
			return false
		}
	}
	return true
}

// typed is the text on the input line after the keys: Backspace takes the last character away.
func typed(keys []string) string {
	var line []rune
	for _, k := range keys {
		if k == keyBack {
			if len(line) > 0 {
				line = line[:len(line)-1]
			}
			continue
		}
		if k != keyLoad {
			line = append(line, []rune(k)...)
		}
	}
	return string(line)
}

var evalWeb = kind("web", func(tier string, c *webCase) string {
	var res webResult
	if err := webPool.ask(c, &res); err != nil {
		return err.Error()
	}
	if len(res.Crash) > 0 {
		return "the page failed: " + clip(res.Crash[0], 300)
	}
	boot := plain(res.Boot)
	prompt := boot[strings.LastIndex(boot, "\n")+1:]
	if strings.TrimSpace(prompt) == "" {
		return fmt.Sprintf("no prompt to type at: the page starts with %q", clip(res.Boot, 200))
	}
	if len(res.Shown) != len(c.Keys) {
		return fmt.Sprintf("%d of %d keys were taken", len(res.Shown), len(c.Keys))
	}
	drained := c.Drain == nil
	// What should be sent: per Enter the line before it.
	loaded := !c.Late
	next, from := 0, 0 // the next sent line; where the current line's keys begin
	row := prompt
	all := ""
	var answers []string
	for i, k := range c.Keys {
		w := res.Shown[i].W
		all += w
		if k == keyLoad {
			loaded = true
		}
		if k != keyEnter {
			row += w
			continue
		}
		line := typed(c.Keys[from:i])
		from = i + 1
		if drained && isASCII(line) {
			if got := screenRow(row); got != strings.TrimRight(prompt+line, " ") {
				return fmt.Sprintf("before Enter (key %d) the screen shows %q but the line typed is %q", i+1, got, line)
			}
		}
		row = ""
		blank := strings.TrimSpace(line) == ""
		if next < len(res.Sent) && res.Sent[next] == line && (!drained || res.Shown[i].N > next) {
			if res.Replies[next] != nil {
				answers = append(answers, *res.Replies[next])
			} else {
				answers = append(answers, "")
			}
			next++
		} else if blank || !loaded {
			answers = append(answers, "")
		} else if next < len(res.Sent) {
			return fmt.Sprintf("Enter (key %d) sends %q, the line typed is %q", i+1, clip(res.Sent[next], 200), clip(line, 200))
		} else {
			return fmt.Sprintf("Enter (key %d) does not send the line typed, %q", i+1, clip(line, 200))
		}
		if drained {
			if res.Shown[i].N != next {
				return fmt.Sprintf("after Enter (key %d) %d lines were sent, not %d: %q", i+1, res.Shown[i].N, next, res.Sent)
			}
			if msg := afterEnter(plain(w), answers[len(answers)-1:], prompt); msg != "" {
				return fmt.Sprintf("after Enter (key %d, line %q) the page writes %q: %s", i+1, clip(line, 100), clip(w, 400), msg)
			}
			row = prompt
		}
	}
	if next != len(res.Sent) {
		return fmt.Sprintf("sent more than the lines typed: %q", res.Sent)
	}
	if !drained {
		if msg := inOrder(plain(all), answers, prompt); msg != "" {
			return fmt.Sprintf("the page writes %q: %s", clip(all, 600), msg)
		}
	}
	return ""
}, describeWeb)

// jsonAt reads the JSON value at the beginning of s.
func jsonAt(s string) (v any, rest string, ok bool) {
	dec := json.NewDecoder(strings.NewReader(s))
	if dec.Decode(&v) != nil {
		return nil, s, false
	}
	return v, s[dec.InputOffset():], true
}

// findAnswer looks for the answer's content in s and returns what follows it.
func findAnswer(s, answer string) (rest string, ok bool) {
	var want any
	if json.Unmarshal([]byte(answer), &want) != nil {
		return s, true // unreadable: any message, or none
	}
	for i := range s {
		if i > 0 && !strings.ContainsRune(" \t\r\n", rune(s[i-1])) {
			continue
		}
		if v, rest, ok := jsonAt(s[i:]); ok && reflect.DeepEqual(v, want) {
			return rest, true
		}
	}
	return s, false
}

func inOrder(s string, answers []string, prompt string) string {
	for _, a := range answers {
		rest, ok := findAnswer(s, a)
		if !ok {
			return "the reply is not shown: " + clip(a, 300)
		}
		i := strings.Index(rest, prompt)
		if i < 0 {
			return "no prompt follows the reply"
		}
		s = rest[i+len(prompt):]
	}
	return ""
}

func afterEnter(s string, answers []string, prompt string) string {
	if msg := inOrder(s, answers, prompt); msg != "" {
		return msg
	}
	if !strings.HasSuffix(s, "\n"+prompt) && !strings.HasSuffix(s, "\r"+prompt) {
		return "there is no new prompt on a line of its own"
	}
	return ""
}

func runC23(r *Runner) {
	buildWeb()
	th := r.thorough()
	keys := []string{"a", "b", " ", `"`, keyBack, keyEnter, "\U0001F600", "pasted text"}
	batch := func(name string, gen func(emit func(webCase) bool)) {
		n, k := int64(0), int64(0)
		var mu sync.Mutex
		feedN(r, 64, gen, func(slot int, c webCase) {
			evalWeb(r, slot, &c)
			mu.Lock()
			if n++; n == 200 {
				r.sample("%s: %s", name, strings.Join(describeWeb("", &c), ", "))
			}
			k += int64(len(c.Keys))
			mu.Unlock()
		})
		r.note("%s: %d", name, n)
		r.count("states", n)
		r.count("transitions", k)
		r.count("traces_validated_against_impl", n)
	}
	tail := []string{keyEnter, "z", keyEnter}
	depth := pick(th, 5, 6)
	batch(fmt.Sprintf("every sequence of %d of %d keys, then a line", depth, len(keys)), func(emit func(webCase) bool) {
		n := 0
		lineSeqs(keys, depth, func(p []string) bool {
			n++
			return emit(webCase{Keys: append(p, tail...), First: n % 6})
		})
	})
	few := []string{"a", keyBack, keyEnter}
	batch("every sequence of keys, before and after the program loads", func(emit func(webCase) bool) {
		lineSeqs(few, pick(th, 5, 7), func(p []string) bool {
			for i := 0; i <= len(p); i++ {
				q := append(append(append([]string{}, p[:i]...), keyLoad), p[i:]...)
				if !emit(webCase{Keys: append(q, tail...), Late: true}) {
					return false
				}
			}
			return true
		})
	})
	batch("every sequence of keys under every schedule of the page's timers", func(emit func(webCase) bool) {
		lineSeqs(few, pick(th, 4, 5), func(p []string) bool {
			q := append(p, tail...)
			for m := 0; m < 1<<len(q); m++ {
				d := make([]bool, len(q))
				for i := range d {
					d[i] = m>>i&1 == 1
				}
				if !emit(webCase{Keys: q, Drain: d, First: m % 6}) {
					return false
				}
			}
			return true
		})
	})
	typing := func(lines ...string) (out []string) {
		for _, l := range lines {
			for _, c := range l {
				out = append(out, string(c))
			}
			out = append(out, keyEnter)
		}
		return
	}
	var lines []string
	for _, l := range append(append([]string{}, bridgeLines...), bridgeJunk...) {
		if !strings.ContainsAny(l, "\r\n\t\x00\u007f") && len(l) < 200 {
			lines = append(lines, l)
		}
	}
	batch("commands typed to the real program", func(emit func(webCase) bool) {
		for _, l := range lines {
			for _, k := range lines {
				if !emit(webCase{Keys: typing(l, k, "world"), Wasm: true}) {
					return
				}
			}
		}
	})
	// Every printable character and long lines.
	batch("every character of the basic plane's first pages, and long lines", func(emit func(webCase) bool) {
		for c := rune(0x20); c < 0x3000; c++ {
			if c >= 0x7f && c < 0xa0 {
				continue
			}
			if !emit(webCase{Keys: []string{string(c), keyEnter, string(c), string(c), keyBack, keyEnter, "z", keyEnter}, First: int(c) % 6}) {
				return
			}
		}
		for _, n := range []int{79, 80, 81, 100, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 5000} {
			emit(webCase{Keys: []string{strings.Repeat("x", n), keyEnter, "z", keyEnter}})
			emit(webCase{Keys: append(typing(strings.Repeat("y", n)), "z", keyEnter)})
		}
		for n := 1; n <= 60; n++ {
			var ls []string
			for i := 0; i < n; i++ {
				ls = append(ls, fmt.Sprintf("line %d", i%3))
			}
			emit(webCase{Keys: typing(ls...), First: n % 6})
		}
	})
	webPool.close()
}

func init() {
	props["C23"] = &Prop{Level: "model_checking", Run: runC23, Quick: 6 * time.Minute, Thorough: 14 * time.Minute,
		Rule:   "every sequence of keys up to the depth, every schedule of the page's timers between them, every moment at which the WebAssembly program may finish loading, against the real page; what is sent and written compared with a model of a line editor",
		Assume: []string{"stand-ins for React and xterm that behave as those do for what the page uses", "esbuild bundles the page as vite does"}}
}
