package main

// An independent reader of command lines, written from the grammar's documentation: it says of a line whether it is
// a command, and which, or that it is not one, or that the property does not settle it.

import "strings"

type Verdict int

const (
	unspecified Verdict = iota
	validCmd
	notCmd
	maybeCmd // may be refused; understood, it must mean exactly this
)

// Parsed is what a line must parse to.
type Parsed struct {
	Type, Verb, Id string
	Ids, Second    []string
	Params         map[string]string
	Flags          []string
	Nested         bool
}

type ctok struct {
	kind byte // w: bare word, q: quoted text, p: key=value, f: flag, ?: query word, x: not a token of any command
	s    string
	val  string
	vq   bool // the value was quoted
	odd  bool // quoted text with a character the grammar does not list for quoted text
}

func isQuotable(c byte) bool { return strings.IndexByte(quotable, c) >= 0 }
func isWS(c byte) bool       { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// ctokens splits a line; glued is true when two tokens touch, which the property does not settle.
func ctokens(s string) (toks []ctok, glued bool) {
	i := 0
	for i < len(s) {
		if isWS(s[i]) {
			i++
			continue
		}
		var t ctok
		if s[i] == '"' {
			j := i + 1
			for j < len(s) && s[j] != '"' {
				t.odd = t.odd || !isQuotable(s[j])
				j++
			}
			if j >= len(s) {
				return append(toks, ctok{kind: 'x', s: s[i:]}), false // a quote that is never closed
			}
			t.kind, t.s = 'q', s[i+1:j]
			i = j + 1
		} else {
			j := i
			for j < len(s) && !isWS(s[j]) && s[j] != '"' {
				j++
			}
			w := s[i:j]
			i = j
			eq := strings.IndexByte(w, '=')
			switch {
			case isBare(w) && w[0] != '-':
				t = ctok{kind: 'w', s: w}
			case w == "-strict" || w == "--strict" || w == "-verbose" || w == "--verbose" || w == "-ids" || w == "--ids":
				t = ctok{kind: 'f', s: strings.TrimLeft(w, "-")}
			case w == "item?" || w == "rel?" || w == "in?" || w == "to?" || w == "from?":
				t = ctok{kind: '?', s: w}
			case eq > 0 && eq == len(w)-1 && i < len(s) && s[i] == '"':
				j := i + 1
				for j < len(s) && s[j] != '"' {
					t.odd = t.odd || !isQuotable(s[j])
					j++
				}
				if j >= len(s) {
					return append(toks, ctok{kind: 'x', s: s[i:]}), false
				}
				t.kind, t.s, t.val, t.vq = 'p', w[:eq], s[i+1:j], true
				i = j + 1
			case eq > 0 && isBare(w[eq+1:]):
				t = ctok{kind: 'p', s: w[:eq], val: w[eq+1:]}
			default:
				t = ctok{kind: 'x', s: w}
			}
			if t.kind == 'x' && w[0] == '-' && isBare(w) {
				t.kind = '-' // looks like a flag, is a bare word: not settled
			}
			if t.kind != '?' && t.kind != 'f' && stuck(w) {
				glued = true
			}
		}
		toks = append(toks, t)
		if i < len(s) && !isWS(s[i]) {
			glued = true
		}
	}
	return toks, glued
}

// stuck: one word that two tokens make when nothing separates them.
func stuck(w string) bool {
	for _, p := range []string{"item?", "rel?", "in?", "to?", "from?", "external=true", "external=false", "async=true", "async=false", "--strict", "-strict", "--verbose", "-verbose", "--ids", "-ids"} {
		if strings.HasPrefix(w, p) && len(w) > len(p) {
			return true
		}
	}
	for _, n := range typeNames[1:] {
		if p := "type=" + n; strings.HasPrefix(w, p) && len(w) > len(p) {
			return true
		}
	}
	for _, k := range []string{"external", "type", "name", "mechanism", "expanded", "verb", "async"} {
		if rest, ok := strings.CutPrefix(w, k); ok && rest != "" && (rest[0] == '-' || strings.HasPrefix(rest, "name") || strings.HasPrefix(rest, "type") || strings.HasPrefix(rest, "verb")) {
			return true
		}
	}
	return w[0] >= '0' && w[0] <= '9' && strings.Contains(w, "-")
}

var itemKeys = map[string]bool{"external": true, "type": true, "name": true, "mechanism": true, "expanded": true}
var relKeys = map[string]bool{"verb": true, "mechanism": true, "async": true, "expanded": true}

// readCommand decides a line.
func readCommand(line string) (Parsed, Verdict) {
	p := Parsed{Params: map[string]string{}, Ids: []string{}, Second: []string{}, Flags: []string{}}
	toks, glued := ctokens(line)
	if glued {
		return p, unspecified
	}
	soft := false // saw something the property leaves open
	for _, t := range toks {
		if t.kind == '-' {
			soft = true
		}
	}
	no := func() (Parsed, Verdict) {
		if soft {
			return p, unspecified
		}
		return p, notCmd
	}
	for _, t := range toks {
		if t.kind == 'x' {
			return no()
		}
	}
	// Flags stand at the end.
	end := len(toks)
	for end > 0 && toks[end-1].kind == 'f' {
		end--
	}
	for _, t := range toks[end:] {
		p.Flags = append(p.Flags, t.s)
	}
	toks = toks[:end]
	if len(toks) == 0 {
		return no()
	}
	i := 0
	word := func(w string) bool {
		if i < len(toks) && toks[i].kind == 'w' && toks[i].s == w {
			i++
			return true
		}
		return false
	}
	id := func() (string, bool) {
		if i >= len(toks) {
			return "", false
		}
		t := toks[i]
		if t.kind == 'q' || t.kind == 'w' && !reserved[t.s] {
			i++
			return t.s, true
		}
		return "", false
	}
	concat := func(w string, keys map[string]bool) bool { // several keys written as one word
		for k := range keys {
			if strings.HasPrefix(w, k) && len(w) > len(k) {
				for k2 := range keys {
					if strings.HasPrefix(w[len(k):], k2) {
						return true
					}
				}
			}
		}
		return false
	}
	params := func(keys map[string]bool) (n int, ok bool) {
		for i < len(toks) {
			t := toks[i]
			if t.kind != 'p' || !keys[t.s] {
				break
			}
			switch t.s {
			case "external", "async":
				if t.vq || t.val != "true" && t.val != "false" {
					if !t.vq && (strings.HasPrefix(t.val, "true") || strings.HasPrefix(t.val, "false")) {
						soft = true
					}
					return n, false
				}
			case "type":
				if _, ok := typeIndex(t.val); t.vq || t.val == "" || !ok || t.val[0] <= '9' {
					for _, tn := range typeNames[1:] {
						if !t.vq && strings.HasPrefix(t.val, tn) {
							soft = true
						}
					}
					return n, false
				}
			}
			if _, twice := p.Params[t.s]; twice {
				soft = true // the same key given twice: which one counts is not settled
			}
			p.Params[t.s] = t.val
			n++
			i++
		}
		return n, true
	}
	done := func() (Parsed, Verdict) {
		if i != len(toks) {
			return no()
		}
		if soft {
			return p, unspecified
		}
		for _, t := range toks {
			if t.odd {
				return p, maybeCmd
			}
		}
		return p, validCmd
	}
	first := toks[0]
	if first.kind == '?' {
		i = 1
		var ok bool
		switch first.s {
		case "item?":
			p.Type, p.Verb = "item", "exists"
			if p.Id, ok = id(); !ok {
				return no()
			}
		case "to?", "from?":
			p.Type, p.Verb = "rel", first.s
			if p.Id, ok = id(); !ok {
				return no()
			}
		case "rel?", "in?":
			p.Type, p.Verb = "rel", "exists"
			if first.s == "in?" {
				p.Type, p.Verb = "item", "in?"
			}
			if p.Id, ok = id(); !ok {
				return no()
			}
			s, ok := id()
			if !ok {
				return no()
			}
			p.Second = append(p.Second, s)
		}
		return done()
	}
	if first.kind != 'w' {
		return no()
	}
	i = 1
	switch first.s {
	case "world":
		p.Type, p.Verb = "world", "fetch"
		return done()
	case "nest", "free":
		p.Type, p.Verb = "item", first.s
		for {
			s, ok := id()
			if !ok {
				break
			}
			p.Ids = append(p.Ids, s)
		}
		if len(p.Ids) == 0 {
			return no()
		}
		if first.s == "nest" {
			if !word("in") {
				return no()
			}
			s, ok := id()
			if !ok {
				if i < len(toks) && toks[i].kind == 'w' || i == len(toks) && len(p.Flags) > 0 {
					soft = true // a reserved word or a flag as the parent
				}
				return no()
			}
			p.Second = append(p.Second, s)
		}
		return done()
	case "item", "items", "rel", "rels":
		keys := itemKeys
		p.Type = "item"
		if first.s[0] == 'r' {
			p.Type, keys = "rel", relKeys
		}
		if i >= len(toks) {
			return no()
		}
		ids := func() bool {
			var ok bool
			if p.Id, ok = id(); !ok {
				return false
			}
			if p.Type == "rel" {
				s, ok := id()
				if !ok {
					return false
				}
				p.Second = append(p.Second, s)
			}
			return true
		}
		verb := ""
		if t := toks[i]; t.kind == 'w' && reserved[t.s] {
			verb = t.s
			i++
		}
		switch verb {
		case "create", "set":
			p.Verb = verb
			if !ids() {
				return no()
			}
			if _, ok := params(keys); !ok {
				return no()
			}
			return done()
		case "fetch", "delete", "exists":
			p.Verb = verb
			if !ids() {
				return no()
			}
			return done()
		case "clear":
			p.Verb = verb
			if !ids() {
				return no()
			}
			n := 0
			for i < len(toks) && toks[i].kind == 'w' && keys[toks[i].s] {
				p.Params[toks[i].s] = ""
				n++
				i++
			}
			if i < len(toks) && toks[i].kind == 'w' && concat(toks[i].s, keys) {
				soft = true
			}
			if n == 0 {
				return no()
			}
			return done()
		case "list":
			p.Verb = verb
			if i < len(toks) && toks[i].kind == 'w' && strings.Trim(toks[i].s, "0123456789") == "" {
				p.Params["limit"] = toks[i].s
				i++
			}
			return done()
		case "in":
			if p.Type != "item" {
				return no()
			}
			p.Verb, p.Nested = "list", true
			var ok bool
			if p.Id, ok = id(); !ok {
				return no()
			}
			return done()
		case "":
			if !ids() {
				return no()
			}
			n, ok := params(keys)
			if !ok {
				return no()
			}
			p.Verb = "create-or-fetch"
			if n > 0 {
				p.Verb = "create-or-set"
			}
			return done()
		}
		return no()
	}
	return no()
}
