package main

// An independent reader of topolith text (worlds, trees, items, relationships, replies). It knows the token
// structure only: words, "quoted text" (which cannot contain a quote), key=value, brackets. It is indifferent to
// white space, to the order of parameters, and to whether a value is quoted.

import (
	"fmt"
	"strconv"
	"strings"
)

type tok struct {
	k    byte // 'w' word, 'q' quoted, '=' , '{' tree{ , '[' ::[ , ']' ]} , '$' $$ , 0 end
	s    string
	pos  int
	glue bool // no white space before it
}

func isWordByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_'
}

func lex(s string) ([]tok, error) {
	var out []tok
	i := 0
	for i < len(s) {
		c := s[i]
		if c == ' ' || c == '\n' || c == '\t' || c == '\r' {
			i++
			continue
		}
		t := tok{pos: i, glue: i > 0 && !strings.ContainsRune(" \n\t\r", rune(s[i-1]))}
		switch {
		case c == '"':
			j := strings.IndexByte(s[i+1:], '"')
			if j < 0 {
				return out, fmt.Errorf("unclosed quote at %d", i)
			}
			t.k, t.s = 'q', s[i+1:i+1+j]
			i += j + 2
		case c == '=':
			t.k = '='
			i++
		case strings.HasPrefix(s[i:], "tree{"):
			t.k = '{'
			i += 5
		case strings.HasPrefix(s[i:], "::["):
			t.k = '['
			i += 3
		case strings.HasPrefix(s[i:], "]}"):
			t.k = ']'
			i += 2
		case strings.HasPrefix(s[i:], "$$"):
			t.k = '$'
			i += 2
		case isWordByte(c):
			j := i
			for j < len(s) && isWordByte(s[j]) {
				j++
			}
			t.k, t.s = 'w', s[i:j]
			i = j
		default:
			return out, fmt.Errorf("unexpected character %q at %d", c, i)
		}
		out = append(out, t)
	}
	return out, nil
}

type TItem struct {
	Id string
	A  IAttr
}
type TRel struct {
	K RKey
	A RAttr
}
type TNode struct {
	Nil  bool
	Item TItem
	Kids []*TNode
}
type TWorld struct {
	Version       int
	Id, Name, Exp string
	Tree          *TNode
	Rels          []TRel
}

type tparser struct {
	src string
	t   []tok
	i   int
}

func (p *tparser) peek() tok {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return tok{pos: len(p.src)}
}
func (p *tparser) next() tok { t := p.peek(); p.i++; return t }
func (p *tparser) fail(what string) error {
	t := p.peek()
	return fmt.Errorf("expected %s at %d near %q", what, t.pos, clip(p.src[min(t.pos, len(p.src)):], 30))
}
func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (p *tparser) word(w string) bool {
	if t := p.peek(); t.k == 'w' && t.s == w {
		p.i++
		return true
	}
	return false
}

func (p *tparser) id() (string, error) {
	if t := p.peek(); t.k == 'q' || t.k == 'w' {
		p.i++
		return t.s, nil
	}
	return "", p.fail("identifier")
}

// params reads key=value pairs.
func (p *tparser) params(f func(k, v string) error) error {
	for p.i+1 < len(p.t) && p.t[p.i].k == 'w' && p.t[p.i+1].k == '=' {
		k := p.next().s
		p.next()
		v := p.peek()
		if v.k != 'w' && v.k != 'q' {
			return p.fail("value of " + k)
		}
		p.i++
		if err := f(k, v.s); err != nil {
			return err
		}
	}
	return nil
}

func boolVal(v string) (bool, error) {
	switch v {
	case "true":
		return true, nil
	case "false":
		return false, nil
	}
	return false, fmt.Errorf("bad boolean %q", v)
}

func (p *tparser) item() (it TItem, err error) {
	if !p.word("item") {
		return it, p.fail("item")
	}
	if it.Id, err = p.id(); err != nil {
		return
	}
	seen := map[string]bool{}
	err = p.params(func(k, v string) (err error) {
		if seen[k] {
			return fmt.Errorf("parameter %s twice", k)
		}
		seen[k] = true
		switch k {
		case "external":
			it.A.External, err = boolVal(v)
		case "type":
			n, ok := typeIndex(v)
			if !ok {
				return fmt.Errorf("unknown type %q", v)
			}
			it.A.Type = n
		case "name":
			it.A.Name = v
		case "mechanism":
			it.A.Mech = v
		case "expanded":
			it.A.Exp = v
		default:
			return fmt.Errorf("unknown item parameter %q", k)
		}
		return
	})
	return
}

func (p *tparser) rel() (r TRel, err error) {
	if !p.word("rel") {
		return r, p.fail("rel")
	}
	if r.K.F, err = p.id(); err != nil {
		return
	}
	if r.K.T, err = p.id(); err != nil {
		return
	}
	seen := map[string]bool{}
	err = p.params(func(k, v string) (err error) {
		if seen[k] {
			return fmt.Errorf("parameter %s twice", k)
		}
		seen[k] = true
		switch k {
		case "verb":
			r.A.Verb = v
		case "mechanism":
			r.A.Mech = v
		case "async":
			r.A.Async, err = boolVal(v)
		case "expanded":
			r.A.Exp = v
		default:
			return fmt.Errorf("unknown relationship parameter %q", k)
		}
		return
	})
	return
}

func (p *tparser) tree() (*TNode, error) {
	if p.next().k != '{' {
		p.i--
		return nil, p.fail("tree{")
	}
	n := &TNode{}
	if p.word("nil") {
		n.Nil = true
	} else {
		it, err := p.item()
		if err != nil {
			return nil, err
		}
		n.Item = it
	}
	if p.next().k != '[' {
		p.i--
		return nil, p.fail("::[")
	}
	for p.peek().k == '{' {
		c, err := p.tree()
		if err != nil {
			return nil, err
		}
		n.Kids = append(n.Kids, c)
	}
	if p.next().k != ']' {
		p.i--
		return nil, p.fail("]}")
	}
	return n, nil
}

// headerValue reads what follows "key=": quoted text, or everything up to the end of the line.
func (p *tparser) headerValue(key string) (string, error) {
	if !p.word(key) || p.next().k != '=' {
		return "", p.fail(key + "=")
	}
	eq := p.t[p.i-1].pos
	rest := p.src[eq+1:]
	line, _, _ := strings.Cut(rest, "\n")
	trim := strings.TrimSpace(line)
	v := trim
	if len(trim) >= 2 && trim[0] == '"' && trim[len(trim)-1] == '"' && strings.Count(trim, `"`) == 2 {
		v = trim[1 : len(trim)-1]
	}
	end := eq + 1 + len(line)
	for p.i < len(p.t) && p.t[p.i].pos < end {
		p.i++
	}
	return v, nil
}

func (p *tparser) world() (w *TWorld, err error) {
	w = &TWorld{}
	if p.next().k != '$' || !p.word("world") {
		return nil, p.fail("$$world")
	}
	var v string
	if v, err = p.headerValue("version"); err != nil {
		return
	}
	if w.Version, err = strconv.Atoi(v); err != nil {
		return nil, fmt.Errorf("version %q", v)
	}
	if w.Id, err = p.headerValue("id"); err != nil {
		return
	}
	if w.Name, err = p.headerValue("name"); err != nil {
		return
	}
	if w.Exp, err = p.headerValue("expanded"); err != nil {
		return
	}
	if w.Tree, err = p.tree(); err != nil {
		return
	}
	for p.peek().k == 'w' && p.peek().s == "rel" {
		r, err := p.rel()
		if err != nil {
			return nil, err
		}
		w.Rels = append(w.Rels, r)
	}
	if !p.word("endworld") || p.next().k != '$' {
		return nil, p.fail("endworld$$")
	}
	return w, nil
}

func newTParser(s string) (*tparser, error) {
	t, err := lex(s)
	return &tparser{src: s, t: t}, err
}

func (p *tparser) end() error {
	if p.i < len(p.t) {
		return p.fail("end of text")
	}
	return nil
}

func readWorldText(s string) (*TWorld, error) {
	p, err := newTParser(s)
	if err != nil {
		return nil, err
	}
	w, err := p.world()
	if err != nil {
		return nil, err
	}
	return w, p.end()
}

func readTreeText(s string) (*TNode, error) {
	p, err := newTParser(s)
	if err != nil {
		return nil, err
	}
	n, err := p.tree()
	if err != nil {
		return nil, err
	}
	return n, p.end()
}

// toModel turns the text of a world into a model; every item must occur once and no nil below the root.
func (w *TWorld) toModel() (*M, error) {
	m := &M{Version: w.Version, Id: w.Id, Name: w.Name, Exp: w.Exp, Items: map[string]IAttr{}, Parent: map[string]string{}, Rels: map[RKey]RAttr{}}
	if !w.Tree.Nil {
		return nil, fmt.Errorf("the root of the hierarchy is an item (%q)", w.Tree.Item.Id)
	}
	var walk func(n *TNode, parent string) error
	walk = func(n *TNode, parent string) error {
		for _, c := range n.Kids {
			if c.Nil {
				return fmt.Errorf("a nil branch below %q", parent)
			}
			if _, dup := m.Items[c.Item.Id]; dup {
				return fmt.Errorf("item %q occurs twice in the text", c.Item.Id)
			}
			m.Items[c.Item.Id] = c.Item.A
			m.Parent[c.Item.Id] = parent
			if err := walk(c, c.Item.Id); err != nil {
				return err
			}
		}
		return nil
	}
	if err := walk(w.Tree, ""); err != nil {
		return nil, err
	}
	for _, r := range w.Rels {
		if _, dup := m.Rels[r.K]; dup {
			return nil, fmt.Errorf("relationship %q -> %q occurs twice in the text", r.K.F, r.K.T)
		}
		m.Rels[r.K] = r.A
	}
	return m, nil
}

func textModel(s string) (*M, error) {
	w, err := readWorldText(s)
	if err != nil {
		return nil, err
	}
	return w.toModel()
}

// Reply is an answer of the application, read independently.
type Reply struct {
	Code   int
	Word   string // ok / error
	Status string // everything after the status word
	World  *TWorld
	Items  []TItem
	Rels   []TRel
	Bools  []bool
	Kind   string // world items rels bool none, "" for a bare status
	Object string // raw text before the delimiter
}

// readReply splits "<object>\n$$$$\n<code> <word> ..." or "<code> <word> ...".
func readReply(s string) (*Reply, error) {
	r := &Reply{}
	status := s
	if cut := delimAt(s); cut >= 0 {
		r.Object = s[:cut]
		status = s[cut+4:]
		p, err := newTParser(r.Object)
		if err != nil {
			return nil, err
		}
		r.Kind = "none"
		switch t := p.peek(); {
		case t.k == 0:
		case t.k == '$':
			r.Kind = "world"
			if r.World, err = p.world(); err != nil {
				return nil, err
			}
		case t.k == 'w' && t.s == "item":
			r.Kind = "items"
			for p.peek().k != 0 {
				it, err := p.item()
				if err != nil {
					return nil, err
				}
				r.Items = append(r.Items, it)
			}
		case t.k == 'w' && t.s == "rel":
			r.Kind = "rels"
			for p.peek().k != 0 {
				it, err := p.rel()
				if err != nil {
					return nil, err
				}
				r.Rels = append(r.Rels, it)
			}
		case t.k == 'w' && (t.s == "true" || t.s == "false"):
			r.Kind = "bool"
			r.Bools = append(r.Bools, t.s == "true")
			p.i++
		}
		if err := p.end(); err != nil {
			return nil, err
		}
	}
	f := strings.Fields(status)
	if len(f) < 2 {
		return nil, fmt.Errorf("no status in %q", clip(status, 60))
	}
	n, err := strconv.Atoi(f[0])
	if err != nil {
		return nil, fmt.Errorf("status code %q", f[0])
	}
	r.Code, r.Word = n, f[1]
	_, rest, _ := strings.Cut(status, f[1])
	r.Status = strings.TrimSpace(rest)
	return r, nil
}

// delimAt finds "$$$$" outside quoted text.
func delimAt(s string) int {
	in := false
	for i := 0; i < len(s); i++ {
		if s[i] == '"' {
			in = !in
		}
		if !in && strings.HasPrefix(s[i:], "$$$$") {
			return i
		}
	}
	return -1
}
