package main

// C11, C13: what lines parse to, and what the application answers to any line.

import (
	"fmt"
	"maps"
	"math/big"
	"slices"
	"strings"
	"time"

	"github.com/williamflynt/topolith/pkg/grammar"
)

// Lines may hold any bytes: as JSON they are base64.
type lineCase struct {
	Line []byte `json:"line"`
	Next []byte `json:"next,omitempty"` // a line parsed afterwards, which must not matter
}

func showLine(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("%q... (%d bytes)", b[:300], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func parseMsg(line, next string) string {
	want, v := readCommand(line)
	p, err := grammar.Parse(line)
	isCmd := err == nil && p != nil && p.StmtType == "Command"
	switch {
	case v == validCmd && !isCmd:
		return "the line is a well-formed command but is rejected"
	case v == notCmd && isCmd:
		return fmt.Sprintf("the line is not a command but parses as %s", describeAttrs(p.InputAttributes))
	}
	if !isCmd || v == unspecified || v == notCmd {
		return ""
	}
	if next != "" {
		grammar.Parse(next)
	}
	a := p.InputAttributes
	bad := func(what string, got, want any) string {
		return fmt.Sprintf("parses to the %s %q, should be %q (%s)", what, got, want, describeAttrs(a))
	}
	switch {
	case a.ResourceType != want.Type:
		return bad("resource", a.ResourceType, want.Type)
	case a.Verb != want.Verb:
		return bad("verb", a.Verb, want.Verb)
	case a.ResourceId != want.Id:
		return bad("identifier", a.ResourceId, want.Id)
	case !slices.Equal(a.ResourceIds, want.Ids):
		return bad("identifiers", a.ResourceIds, want.Ids)
	case !slices.Equal(a.SecondaryIds, want.Second):
		return bad("second identifier", a.SecondaryIds, want.Second)
	case !maps.Equal(a.Params, want.Params):
		return bad("parameters", a.Params, want.Params)
	case !slices.Equal(a.Flags, want.Flags):
		return bad("flags", a.Flags, want.Flags)
	case a.Nested != want.Nested:
		return fmt.Sprintf("parses to a list of everything (nested=%t), should be %t", a.Nested, want.Nested)
	case a.Raw != line:
		return bad("text", a.Raw, line)
	}
	return ""
}

func describeAttrs(a grammar.InputAttributes) string {
	return fmt.Sprintf("%s %s id=%q ids=%q second=%q params=%q flags=%q", a.ResourceType, a.Verb, a.ResourceId, a.ResourceIds, a.SecondaryIds, a.Params, a.Flags)
}

var evalLine = kind("line", func(tier string, c *lineCase) string {
	if m := parseMsg(string(c.Line), string(c.Next)); m != "" {
		return showLine(c.Line) + ": " + m
	}
	return ""
}, func(tier string, c *lineCase) []string { return []string{showLine(c.Line)} })

// --- generators of lines ---

var cmdTokens = []string{
	"item", "rel", "world", "nest", "free", "in", "in?", "to?", "from?", "item?", "rel?", "create", "fetch", "set", "clear", "delete", "list", "exists",
	"a", "b", `"a b"`, `""`, `"in"`, "inventory", "3",
	"name=x", `name="x y"`, "type=person", "type=bogus", "external=true", "verb=v", "async=false", "name", "verb",
	"--strict", "-ids",
}

var moreTokens = []string{"items", "rels", "ok", "error", "endworld", "strict", "external=yes", "type", "mechanism=m", `expanded=""`, `expanded="e."`, "async", "200", "nil", "tree{nil::[]}", "$$", "$$$$", "$$world", "true", "--", "---strict", "--Strict", "=", "name=", "=x", `"`, `"a`, `a"`, "a.b", "items?", "?", "Item", "--verbose", "-verbose", "-strict", "--ids", "limit=3", "id=x", "deleted", "settings", "itemize", "rel-x", "world_1", "into", "listing"}

func tokenLines(vocab []string, n int, emit func(string) bool) {
	sequences(len(vocab), n, func(s []int) bool {
		var w []string
		for _, i := range s {
			w = append(w, vocab[i])
		}
		return emit(strings.Join(w, " "))
	})
}

// identifiers in every writing: bare words (also ones that begin with a reserved word) and quoted text.
func idWritings() (out []string) {
	bare := []string{"a", "Z", "0", "42", "a-b", "a_b", "_", "x--y", "nil", "tree", "true", "strict", "to", "from", "name", "type", "id", "limit", "version"}
	for w := range reserved {
		bare = append(bare, w+"x", w+"s1", w+"-a", w+"_a", w+"1")
	}
	bare = append(bare, "inventory", "inner", "into", "deleted", "settings", "created", "fetcher", "freedom", "relay", "okra", "errors", "listing", "listings", "worldwide", "itemized", "nested", "existsnot", "clearly", "itemss", "relss")
	for _, b := range bare {
		if !reserved[b] {
			out = append(out, b)
		}
	}
	for w := range reserved {
		out = append(out, `"`+w+`"`, `"`+w+` x"`, `"x `+w+`"`)
	}
	for _, w := range oddWords {
		out = append(out, `"`+w+`"`)
	}
	slices.Sort(out)
	return slices.Compact(out)
}

// forms: token lists of every kind of command with the given identifiers.
func forms(a, b string) (out [][]string) {
	f := func(s ...string) { out = append(out, s) }
	for _, r := range []string{"item", "items"} {
		for _, v := range []string{"create", "set", "fetch", "delete", "exists", "in"} {
			f(r, v, a)
		}
		f(r, "create", a, "name=x")
		f(r, "set", a, `expanded="x y"`, "type=code")
		f(r, "clear", a, "name")
		f(r, "clear", a, "type", "external", "expanded")
		f(r, a)
		f(r, a, "external=false", "mechanism=m")
		f(r, "list")
		f(r, "list", "12")
	}
	for _, r := range []string{"rel", "rels"} {
		for _, v := range []string{"create", "set", "fetch", "delete", "exists"} {
			f(r, v, a, b)
		}
		f(r, "create", a, b, "verb=x")
		f(r, "set", a, b, `expanded="x y"`, "async=true")
		f(r, "clear", a, b, "verb")
		f(r, "clear", a, b, "mechanism", "async")
		f(r, a, b)
		f(r, a, b, `verb=""`)
		f(r, "list")
		f(r, "list", "0")
	}
	f("nest", a, "in", b)
	f("nest", a, b, "in", a)
	f("nest", a, "c", b, "d", "in", b)
	f("free", a)
	f("free", a, b)
	f("free", "c", a, b, "d")
	f("in?", a, b)
	f("to?", a)
	f("from?", a)
	f("item?", a)
	f("rel?", a, b)
	f("world")
	return
}

var spaces = []string{" ", "  ", "\t", "\n", "\r\n", "\r", " \t\r\n ", "\n\n"}

// spaced: the tokens with every whitespace in every single gap, in all gaps at once, before and after.
func spaced(t []string, emit func(string) bool) bool {
	for _, s := range spaces {
		if !emit(strings.Join(t, s)) || !emit(s+strings.Join(t, " ")) || !emit(strings.Join(t, " ")+s) {
			return false
		}
		for g := 1; g < len(t); g++ {
			if !emit(strings.Join(t[:g], " ") + s + strings.Join(t[g:], " ")) {
				return false
			}
		}
	}
	return true
}

// flagTails: every sequence of up to n flags, each with one or two dashes.
func flagTails(n int) (out [][]string) {
	fl := []string{"--strict", "-strict", "--verbose", "-verbose", "--ids", "-ids"}
	for k := 1; k <= n; k++ {
		sequences(len(fl), k, func(s []int) bool {
			var l []string
			for _, i := range s {
				l = append(l, fl[i])
			}
			out = append(out, l)
			return true
		})
	}
	return
}

// arrangements: every ordered choice of distinct elements.
func arrangements(l []string, emit func([]string)) {
	var rec func(cur []string, used int)
	rec = func(cur []string, used int) {
		emit(append([]string{}, cur...))
		for i := range l {
			if used&(1<<i) == 0 {
				rec(append(cur, l[i]), used|1<<i)
			}
		}
	}
	rec(nil, 0)
}

func paramLines(emit func(string) bool) {
	for _, ps := range [][]string{
		{"external=true", "type=person", "name=x", "mechanism=m-1", "expanded=E_2"},
		{"external=false", "type=blobstore", `name=""`, `mechanism="in item"`, `expanded="name=x type=code"`},
	} {
		arrangements(ps, func(l []string) {
			for _, h := range []string{"item create a", "item set a", "item a", "items create \"a b\""} {
				emit(strings.TrimSpace(h + " " + strings.Join(l, " ")))
			}
		})
	}
	for _, ps := range [][]string{
		{"verb=v", "mechanism=m", "async=true", "expanded=e"},
		{`verb="a verb"`, `mechanism=""`, "async=false", `expanded="async=true --strict"`},
	} {
		arrangements(ps, func(l []string) {
			for _, h := range []string{"rel create a b", "rel set a b", "rel a b", "rels create \"a b\" in1"} {
				emit(strings.TrimSpace(h + " " + strings.Join(l, " ")))
			}
		})
	}
	arrangements([]string{"external", "type", "name", "mechanism", "expanded"}, func(l []string) {
		emit("item clear a " + strings.Join(l, " "))
	})
	arrangements([]string{"verb", "mechanism", "async", "expanded"}, func(l []string) {
		emit("rel clear a b " + strings.Join(l, " "))
	})
	for _, tn := range append(append([]string{}, typeNames[1:]...), "bogus", "Person", "persons", "people", "1", "7", "0", `"person"`, `""`, "true", "code2", "codes", "serve", "dat", "queued") {
		emit("item create a type=" + tn)
		emit("item a type=" + tn + " name=x")
	}
	for _, b := range []string{"true", "false", "True", "1", "0", "yes", "", "truthy", `"true"`, "tru", "t"} {
		emit("item set a external=" + b)
		emit("rel set a b async=" + b)
		emit("rel set a b async=" + b + " verb=x")
	}
}

// charLines: text t between quotes in every place a quoted text may stand.
func charLines(t string, emit func(string) bool) bool {
	q := `"` + t + `"`
	for _, l := range []string{"item create " + q, "rel create " + q + " b", "rel fetch a " + q, "item create a name=" + q, "item set a expanded=" + q + " type=code", "rel a b mechanism=" + q,
		"nest " + q + " b in c", "nest a " + q + " in c", "nest a in " + q, "free a " + q + " b", "in? " + q + " " + q, "to? " + q + " --strict", "item " + q, "items in " + q} {
		if !emit(l) {
			return false
		}
	}
	return true
}

// edits: every line one token away from the given tokens.
func edits(t []string, vocab []string, emit func(string) bool) bool {
	j := func(x ...[]string) bool { return emit(strings.Join(slices.Concat(x...), " ")) }
	for i := range t {
		if !j(t[:i], t[i+1:]) || !j(t[:i+1], t[i:]) {
			return false
		}
		if i > 0 {
			s := slices.Clone(t)
			s[i], s[i-1] = s[i-1], s[i]
			if !j(s) {
				return false
			}
		}
	}
	for _, v := range vocab {
		for i := 0; i <= len(t); i++ {
			if !j(t[:i], []string{v}, t[i:]) || i < len(t) && !j(t[:i], []string{v}, t[i+1:]) {
				return false
			}
		}
	}
	return true
}

// charEdits: every line one character away.
func charEdits(l string, alphabet []string, emit func(string) bool) bool {
	for i := 0; i <= len(l); i++ {
		if i < len(l) && !emit(l[:i]+l[i+1:]) {
			return false
		}
		for _, c := range alphabet {
			if !emit(l[:i]+c+l[i:]) || i < len(l) && !emit(l[:i]+c+l[i+1:]) {
				return false
			}
		}
	}
	return true
}

var editChars = []string{"a", "s", "Z", "0", "-", "_", " ", "\t", "\n", `"`, "=", "?", "$", ".", "{", "[", ":", "\x00", "é"}

func foreignChars() (out []string) {
	for c := 0; c < 256; c++ {
		if !isQuotable(byte(c)) && c != '"' && c < 0x80 {
			out = append(out, string(rune(c)))
		}
	}
	return append(out, "é", "日", "\u00a0", "\u2028", "\U0001F600", "\xff", "\xc3")
}

func runC11(r *Runner) {
	th := r.thorough()
	phase := func(name string, gen func(emit func(string) bool)) {
		if r.done() {
			return
		}
		n := int64(0)
		valid := int64(0)
		feed(r, func(emit func(string) bool) {
			gen(func(l string) bool {
				n++
				if n == 37 {
					r.sample("%s: %q", name, l)
				}
				return emit(l)
			})
		}, func(slot int, l string) {
			evalLine(r, slot, &lineCase{Line: []byte(l), Next: nextLine(name)})
			if _, v := readCommand(l); v == validCmd {
				r.count("wellformed_lines", 1)
			} else if v == notCmd {
				r.count("malformed_lines", 1)
			} else {
				r.count("unsettled_lines", 1)
			}
		})
		_ = valid
		r.count("states", n)
		r.count("transitions", n)
		r.count("traces_validated_against_impl", n)
		r.note("%s: %d lines", name, n)
	}
	phase("parameters in every order", func(emit func(string) bool) { paramLines(emit) })
	ids := idWritings()
	phase("every form with every writing of identifiers", func(emit func(string) bool) {
		for i, a := range ids {
			for _, b := range []string{"b", ids[(i*7+3)%len(ids)], a} {
				for _, f := range forms(a, b) {
					if !emit(strings.Join(f, " ")) {
						return
					}
				}
			}
		}
	})
	phase("words that begin with a word of the grammar", func(emit func(string) bool) {
		const idChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"
		words := []string{"true", "false", "strict", "ok", "error", "world", "endworld", "tree", "nil", "name", "type", "external", "id", "limit", "person", "code"}
		for w := range reserved {
			if !slices.Contains(words, w) {
				words = append(words, w)
			}
		}
		slices.Sort(words)
		for _, w := range words {
			for _, c := range idChars {
				for i, f := range append(forms(w+string(c), "b"), forms("a", w+string(c))...) {
					if !th && i%3 != int(c)%3 && c != 'Z' && c != 'A' && c != 'a' && c != 'z' && c != '0' && c != '9' {
						continue
					}
					if !emit(strings.Join(f, " ")) {
						return
					}
				}
			}
		}
		for _, a := range idChars { // all identifiers of two characters, and what may follow one
			for _, b := range idChars {
				w := string(a) + string(b)
				if !emit("item "+w) || !emit("nest "+w+" in "+w) || !emit("free x "+w) || !emit("rel fetch "+w+" "+w+"x") || !emit("item create "+w+" name="+w) {
					return
				}
			}
		}
	})
	phase("whitespace", func(emit func(string) bool) {
		for _, ab := range [][2]string{{"a", "b"}, {`"a b"`, `"in"`}, {"inner", `""`}} {
			for _, f := range forms(ab[0], ab[1]) {
				if !spaced(f, emit) || !spaced(append(f, "--strict", "-ids"), emit) {
					return
				}
			}
		}
	})
	phase("flags", func(emit func(string) bool) {
		for _, f := range forms("a", `"b c"`) {
			for _, t := range flagTails(pick(th, 2, 3)) {
				if !emit(strings.Join(append(slices.Clone(f), t...), " ")) {
					return
				}
			}
		}
	})
	phase("characters between quotes", func(emit func(string) bool) {
		for _, t := range append(append(strs2(quotable), oddWords...), ladder(72, 14)...) {
			if !charLines(t, emit) {
				return
			}
		}
		if th {
			for _, t := range strs3(quotClasses) {
				if !charLines(t, emit) {
					return
				}
			}
		}
		for _, c := range foreignChars() {
			for _, t := range []string{c, "a" + c, c + "a", "a" + c + "b", c + c} {
				if !charLines(t, emit) {
					return
				}
			}
		}
	})
	phase("characters in bare words", func(emit func(string) bool) {
		for c := 1; c < 128; c++ {
			for _, w := range []string{string(rune(c)), "a" + string(rune(c)), string(rune(c)) + "a", "a" + string(rune(c)) + "b"} {
				for _, f := range forms(w, "b") {
					if !emit(strings.Join(f, " ")) {
						return
					}
				}
				emit("item create a name=" + w)
				emit("rel create a b verb=" + w + " async=true")
			}
		}
	})
	phase("words, lists and gaps of every length", func(emit func(string) bool) {
		for _, w := range ladderWords(72, 14) {
			for _, f := range append(forms(w, "b"), forms("a", w)...) {
				if !emit(strings.Join(f, " ")) {
					return
				}
			}
			emit("item create a --" + w)
			emit("item create a name=" + w)
		}
		for _, n := range rungs(72, 12) {
			for _, unit := range []string{"a ", `"b c" `, "w%d "} {
				l := ""
				if strings.Contains(unit, "%d") {
					for i := 0; i < n; i++ {
						l += fmt.Sprintf(unit, i)
					}
				} else {
					l = strings.Repeat(unit, n)
				}
				if !emit("nest "+l+"in z") || !emit("free "+l) {
					return
				}
			}
			for _, g := range []string{" ", "\n", "\t ", "\r\n"} {
				for _, f := range forms("a", `"b c"`) {
					if !emit(strings.Join(f, strings.Repeat(g, n))) {
						return
					}
				}
				emit(strings.Repeat(g, n) + "item create a" + strings.Repeat(g, n))
			}
			emit("item create a" + strings.Repeat(" --flag", n))
		}
	})
	vocab := append(slices.Clone(cmdTokens), moreTokens...)
	phase("one token away from a command", func(emit func(string) bool) {
		for _, f := range forms("a", `"b c"`) {
			if !edits(f, vocab, emit) {
				return
			}
			if !edits(append(slices.Clone(f), "--strict"), vocab, emit) {
				return
			}
		}
	})
	phase("one character away from a command", func(emit func(string) bool) {
		for _, f := range forms("ab", `"c d"`) {
			if !charEdits(strings.Join(f, " "), editChars, emit) {
				return
			}
		}
	})
	phase("all lines of up to 3 tokens (large vocabulary)", func(emit func(string) bool) {
		for n := 0; n <= 3; n++ {
			tokenLines(vocab, n, emit)
		}
	})
	phase("all lines of 4 tokens", func(emit func(string) bool) { tokenLines(cmdTokens, 4, emit) })
	if th {
		phase("all lines of 4 tokens (large vocabulary)", func(emit func(string) bool) { tokenLines(vocab, 4, emit) })
		phase("all lines of 5 tokens", func(emit func(string) bool) { tokenLines(cmdTokens, 5, emit) })
	}
}

func nextLine(phase string) []byte {
	if strings.HasPrefix(phase, "all lines") {
		return nil
	}
	return []byte(`nest q "w e" in z --ids`)
}

// --- C13 ---

type answerCase struct {
	State int    `json:"state"`
	Line  []byte `json:"line"`
	Rep   int    `json:"repeat,omitempty"` // the line is Pre + Line*Rep + Post
	Pre   []byte `json:"pre,omitempty"`
	Post  []byte `json:"post,omitempty"`
}

func (c *answerCase) text() string {
	if c.Rep > 0 {
		return string(c.Pre) + strings.Repeat(string(c.Line), c.Rep) + string(c.Post)
	}
	return string(c.Line)
}

var answerStates = [][]Op{
	nil,
	{create("a")},
	append(family(), ex(Cmd{Res: "item", Verb: "delete", Id: "c"})),
	append(creates("item", "in", "a b", ""), createP("x", IP{Name: sp("$$$$"), Exp: sp("200 ok ::[]"), Mech: sp(" ")}), rel("item", "in"), relP("a b", "a b", RP{Verb: sp("$$")}), nest("a b", "in")),
}

var answerUni = []string{"a", "b", "c", "d", "x", "item", "in", "a b", ""}

func answerMsg(c *answerCase) string {
	line := c.text()
	s := build(answerStates[c.State])
	h := len(s.App.History())
	reply := s.App.Exec(line)
	p, err := grammar.Parse(reply)
	if err != nil || p.StmtType != "Response" && p.StmtType != "Status" {
		return "the answer is not a response or status of the grammar: " + clip(reply, 300)
	}
	r, err := readReply(reply)
	if err != nil {
		return fmt.Sprintf("the answer cannot be read (%v): %s", err, clip(reply, 300))
	}
	if p.Response.Status.Code != r.Code {
		return fmt.Sprintf("the answer's code reads back as %d: %s", p.Response.Status.Code, clip(reply, 300))
	}
	_, v := readCommand(line)
	if r.Code == 200 {
		if r.Word != "ok" {
			return "code 200 without ok: " + clip(reply, 300)
		}
		if v == notCmd {
			return "the line is not a command but is answered with success: " + clip(reply, 300)
		}
		if len(s.App.History()) != h+1 {
			return "the line is answered with success but was not executed"
		}
		return ""
	}
	if r.Code < 400 || r.Code > 599 || r.Word != "error" {
		return "neither success nor an error code: " + clip(reply, 300)
	}
	if v == notCmd {
		if n := len(s.App.History()); n != h {
			return fmt.Sprintf("the line is not a command but the history goes from %d to %d commands", h, n)
		}
		ref := build(answerStates[c.State])
		if a, b := fullObs(ref.W, answerUni), fullObs(s.W, answerUni); a != b {
			return "the line is not a command but changes the world: " + firstDiff(a, b)
		}
	}
	// It stays usable.
	if out := s.App.Exec("item create after-it"); !strings.Contains(out, "200 ok") {
		return "after it the application answers " + clip(out, 200)
	}
	return ""
}

var evalAnswer = kind("answer", func(tier string, c *answerCase) string {
	if m := answerMsg(c); m != "" {
		return showLine([]byte(c.text())) + ": " + m
	}
	return ""
}, func(tier string, c *answerCase) []string {
	return append(opStrings(answerStates[c.State]), "Exec("+showLine([]byte(c.text()))+")")
})

func runC13(r *Runner) {
	th := r.thorough()
	phase := func(name string, states []int, gen func(emit func(string) bool)) {
		n := int64(0)
		for _, st := range states {
			if r.done() {
				return
			}
			feed(r, func(emit func(string) bool) {
				gen(func(l string) bool {
					n++
					return emit(l)
				})
			}, func(slot int, l string) { evalAnswer(r, slot, &answerCase{State: st, Line: []byte(l)}) })
		}
		r.count("states", int64(len(states)))
		r.count("transitions", n)
		r.count("traces_validated_against_impl", n)
		r.note("%s: %d lines in %d states", name, n, len(states))
	}
	all := []int{0, 1, 2, 3}
	chars := []string{"a", "i", "1", "-", "_", " ", "\n", "\t", `"`, "=", "?", "$", ".", "{", "}", "[", "]", ":", "'", "\\", "%", "\x00", "é", "\xff", "(", ";"}
	phase("all strings of up to 3 characters", []int{1}, func(emit func(string) bool) {
		for n := 0; n <= pick(th, 3, 4); n++ {
			sequences(len(chars), n, func(s []int) bool {
				l := ""
				for _, i := range s {
					l += chars[i]
				}
				return emit(l)
			})
		}
	})
	phase("every byte and pair of bytes", []int{0}, func(emit func(string) bool) {
		for a := 0; a < 256; a++ {
			emit(string([]byte{byte(a)}))
			for b := 0; b < 256; b += pick(th, 5, 1) {
				emit(string([]byte{byte(a), byte(b)}))
			}
		}
	})
	vocab := append(slices.Clone(cmdTokens), moreTokens...)
	phase("all lines of up to 2 tokens", all, func(emit func(string) bool) {
		for n := 0; n <= 2; n++ {
			tokenLines(vocab, n, emit)
		}
	})
	phase("all lines of 3 tokens", []int{pick(th, 2, 2)}, func(emit func(string) bool) {
		if th {
			tokenLines(vocab, 3, emit)
			return
		}
		tokenLines(cmdTokens, 3, emit)
	})
	phase("one token away from a command", pickStates(th, all[2:3], all), func(emit func(string) bool) {
		for _, f := range forms("a", `"b"`) {
			if !edits(f, vocab, emit) {
				return
			}
		}
	})
	phase("one character away from a command", pickStates(th, all[2:3], all), func(emit func(string) bool) {
		for _, f := range forms("a", `"b"`) {
			if !charEdits(strings.Join(f, " "), editChars, emit) {
				return
			}
		}
	})
	phase("every character between quotes", all[3:], func(emit func(string) bool) {
		for _, c := range append(append(strs2(quotClasses), oddWords...), foreignChars()...) {
			if !charLines(c, emit) {
				return
			}
		}
	})
	phase("texts of the grammar that are not commands", all, func(emit func(string) bool) {
		for _, l := range kindTexts() {
			for _, t := range l {
				emit(t)
			}
		}
		for i := range answerStates {
			s := build(answerStates[i])
			for _, c := range queryCmds([]string{"a", "x"}, []int{0}) {
				out := s.App.Exec(c.Text())
				emit(out)
				for k := range out {
					emit(out[:k])
				}
			}
		}
	})
	phase("numbers", all, func(emit func(string) bool) {
		for _, n := range numbers() {
			for _, f := range []string{"item list %s", "items list %s", "rel list %s", "rels list %s --strict", "item list\t%s\n", "item %s", "item create %s name=%s", "rel %s %s", "nest %s in %s", "free %s", "%s error \"x\"", "%s ok", "$$world\nversion=%s\nid=a\nname=a\nexpanded=a\ntree{nil::[]}\n\nendworld$$", "item a limit=%s", "item list -%s", "item list %s %s"} {
				emit(strings.ReplaceAll(f, "%s", n))
			}
		}
	})
	// Size: long words, many tokens, deep nesting.
	type bigLine struct{ pre, unit, post string }
	var bigs []bigLine
	for _, u := range []string{"a", " ", "\n", `"`, "-", "$", "{", "=", "é", "\x00", "a ", `"a" `, "item ", "name=x ", "--ids ", "tree{", "tree{nil::[", "$$world ", "item a ", "rel a b ", "(", "200 ", "1"} {
		for _, pre := range []string{"", "item create ", "free ", "nest a ", "item set a ", "item list ", `item create "`, "$$world\nversion=1\nid=a\nname=a\nexpanded=a\n"} {
			bigs = append(bigs, bigLine{pre, u, ""})
		}
	}
	bigs = append(bigs, bigLine{"item create \"", "a b", "\""}, bigLine{"item create a name=\"", "x", "\""}, bigLine{"nest ", "a ", "in b"}, bigLine{"free ", `"a b" `, "a"}, bigLine{"tree{nil::[", "tree{item a::[]} ", "]}"}, bigLine{"item clear a ", "name ", ""}, bigLine{"item clear a ", "name ", "bogus"}, bigLine{"item set a ", "name=x ", "bogus"}, bigLine{"", "item a\n", "$$$$\n200 ok"}, bigLine{"item list ", "9", ""})
	sizes := []int{10, 100, 1000, pick(th, 4000, 20000)}
	r.parallel(len(bigs)*len(sizes), func(slot, i int) {
		b := bigs[i/len(sizes)]
		evalAnswer(r, slot, &answerCase{State: 1, Pre: []byte(b.pre), Line: []byte(b.unit), Rep: sizes[i%len(sizes)], Post: []byte(b.post)})
		r.count("transitions", 1)
		r.count("traces_validated_against_impl", 1)
	})
	// Properly nested trees, as text and inside a response.
	for _, d := range []int{1, 2, 5, 10, 50, 200, pick(th, 400, 1500)} {
		t := strings.Repeat("tree{item a::[", d) + strings.Repeat("]}", d)
		for _, l := range []string{t, t + "\n$$$$\n200 ok", "$$world\nversion=1\nid=a\nname=a\nexpanded=\n" + t + "\nendworld$$"} {
			evalAnswer(r, 0, &answerCase{State: 1, Line: []byte(l)})
			r.count("transitions", 1)
			r.count("traces_validated_against_impl", 1)
		}
	}
	// Long sessions: the same and different lines over and over.
	al := append(append([]string{}, bridgeLines...), bridgeJunk...)
	var ss []linesCase
	for st := 1; st < len(al); st++ {
		ss = append(ss, linesCase{sessionLines(al, st, pick(th, 300, 2000))})
	}
	for _, l := range al {
		ss = append(ss, linesCase{sessionLines([]string{l}, 1, pick(th, 300, 2000))}, linesCase{append([]string{"item create a", "item create b"}, sessionLines([]string{l, "item fetch a", "rel create a b"}, 1, 100)...)})
	}
	for _, l := range lengthLines(72, pick(th, 14, 17)) {
		ss = append(ss, linesCase{l})
	}
	r.parallel(len(ss), func(slot, i int) {
		evalLineSession(r, slot, &ss[i])
		r.count("states", int64(len(ss[i].Lines)))
		r.count("transitions", int64(len(ss[i].Lines)))
		r.count("traces_validated_against_impl", int64(len(ss[i].Lines)))
	})
	r.note("%d sessions of up to %d lines in one application", len(ss), pick(th, 300, 2000))
	r.note("sizes up to %d repetitions of %d units", sizes[3], len(bigs))
	r.sample("%q x %d", bigs[20].pre+bigs[20].unit, sizes[3])
}

// numbers: around every power of two and of ten up to beyond 64 bits, with and without leading zeros.
func numbers() (out []string) {
	for _, base := range []int64{2, 10} {
		n := big.NewInt(1)
		for n.BitLen() <= 66 {
			for _, d := range []int64{-1, 0, 1} {
				v := new(big.Int).Add(n, big.NewInt(d)).String()
				out = append(out, v, "0"+v, "000000000000000000000000"+v)
			}
			n = new(big.Int).Mul(n, big.NewInt(base))
		}
	}
	return
}

func pickStates(th bool, a, b []int) []int {
	if th {
		return b
	}
	return a
}

func init() {
	props["C11"] = &Prop{Level: "model_checking", Run: runC11, Quick: 7 * time.Minute, Thorough: 14 * time.Minute,
		Rule:   "every line of the enumerated families is parsed by the real grammar and by an independent reader written from the documentation; a line counts as a state, parsing it as a transition",
		Assume: []string{"lines in which tokens touch each other, a key is given twice, or a bare word starts with a dash are not judged"}}
	props["C13"] = &Prop{Level: "model_checking", Run: runC13, Quick: 7 * time.Minute, Thorough: 14 * time.Minute,
		Rule: "every line of the enumerated families is executed by the real application in the listed states; the answer is read back with the grammar and with an independent reader, world and history compared for lines that are not commands"}
}
