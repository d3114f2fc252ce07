package main

// The reference model: plain maps, no cleverness. Every oracle in the checks comes from here.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

var typeNames = []string{"", "person", "database", "queue", "blobstore", "browser", "mobile", "server", "device", "code"}

func typeIndex(s string) (int, bool) {
	if s == "" {
		return 0, true
	}
	for i, n := range typeNames {
		if n == s {
			return i, true
		}
	}
	if n, err := strconv.Atoi(s); err == nil && n >= 0 && n < len(typeNames) {
		return n, true // decimal index: what the reader of world text passes
	}
	return 0, false
}

type IAttr struct {
	External bool
	Type     int
	Name     string
	Mech     string
	Exp      string
}

type RAttr struct {
	Verb  string
	Mech  string
	Async bool
	Exp   string
}

type RKey struct{ F, T string }

type M struct {
	Version       int
	Id, Name, Exp string
	Items         map[string]IAttr
	Parent        map[string]string // "" = top level
	Rels          map[RKey]RAttr
}

func NewM(name string) *M {
	return &M{Version: 1, Id: name, Name: name, Items: map[string]IAttr{}, Parent: map[string]string{}, Rels: map[RKey]RAttr{}}
}

func (m *M) Clone() *M {
	c := &M{Version: m.Version, Id: m.Id, Name: m.Name, Exp: m.Exp,
		Items: make(map[string]IAttr, len(m.Items)), Parent: make(map[string]string, len(m.Parent)), Rels: make(map[RKey]RAttr, len(m.Rels))}
	for k, v := range m.Items {
		c.Items[k] = v
	}
	for k, v := range m.Parent {
		c.Parent[k] = v
	}
	for k, v := range m.Rels {
		c.Rels[k] = v
	}
	return c
}

func (m *M) ids() []string {
	out := make([]string, 0, len(m.Items))
	for k := range m.Items {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (m *M) relKeys() []RKey {
	out := make([]RKey, 0, len(m.Rels))
	for k := range m.Rels {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].F != out[j].F {
			return out[i].F < out[j].F
		}
		return out[i].T < out[j].T
	})
	return out
}

func (m *M) children(id string) []string {
	var out []string
	for c, p := range m.Parent {
		if p == id {
			out = append(out, c)
		}
	}
	sort.Strings(out)
	return out
}

// inside reports whether a is strictly below b.
func (m *M) inside(a, b string) bool {
	for p, n := m.Parent[a], 0; p != ""; p = m.Parent[p] {
		if p == b {
			return true
		}
		if n++; n > len(m.Parent)+1 {
			panic("model: cycle")
		}
	}
	return false
}

func (m *M) within(a, b string) bool { return a == b || m.inside(a, b) }

func q(s string) string { return strconv.Quote(s) }

func (a IAttr) String() string {
	return fmt.Sprintf("{ext=%t type=%s name=%s mech=%s exp=%s}", a.External, typeNames[a.Type], q(a.Name), q(a.Mech), q(a.Exp))
}
func (a RAttr) String() string {
	return fmt.Sprintf("{verb=%s mech=%s async=%t exp=%s}", q(a.Verb), q(a.Mech), a.Async, q(a.Exp))
}

// Canon is a canonical text of the whole model state.
func (m *M) Canon() string {
	var b strings.Builder
	fmt.Fprintf(&b, "world v=%d id=%q name=%q exp=%q\n", m.Version, m.Id, m.Name, m.Exp)
	for _, id := range m.ids() {
		fmt.Fprintf(&b, "item %q in %q %s\n", id, m.Parent[id], m.Items[id])
	}
	for _, k := range m.relKeys() {
		fmt.Fprintf(&b, "rel %q -> %q %s\n", k.F, k.T, m.Rels[k])
	}
	return b.String()
}

// --- parameters (pointers: nil = not given) ---

type IP struct {
	External *bool   `json:"external,omitempty"`
	Type     *string `json:"type,omitempty"`
	Name     *string `json:"name,omitempty"`
	Mech     *string `json:"mechanism,omitempty"`
	Exp      *string `json:"expanded,omitempty"`
}

type RP struct {
	Verb  *string `json:"verb,omitempty"`
	Mech  *string `json:"mechanism,omitempty"`
	Async *bool   `json:"async,omitempty"`
	Exp   *string `json:"expanded,omitempty"`
}

func sp(s string) *string { return &s }
func bp(b bool) *bool     { return &b }

func (p IP) valid() bool {
	if p.Type == nil {
		return true
	}
	_, ok := typeIndex(*p.Type)
	return ok
}

func (p IP) apply(a IAttr) IAttr {
	if p.External != nil {
		a.External = *p.External
	}
	if p.Type != nil {
		a.Type, _ = typeIndex(*p.Type)
	}
	if p.Name != nil {
		a.Name = *p.Name
	}
	if p.Mech != nil {
		a.Mech = *p.Mech
	}
	if p.Exp != nil {
		a.Exp = *p.Exp
	}
	return a
}

func (p RP) apply(a RAttr) RAttr {
	if p.Verb != nil {
		a.Verb = *p.Verb
	}
	if p.Mech != nil {
		a.Mech = *p.Mech
	}
	if p.Async != nil {
		a.Async = *p.Async
	}
	if p.Exp != nil {
		a.Exp = *p.Exp
	}
	return a
}

// --- world operations. Each returns what the real operation must report. ---

const (
	eNone   = 0
	eAny    = -1 // must report an error, code not specified
	eEither = -2 // may or may not report an error; the state must not change
)

// Res is what an operation must report.
type Res struct {
	Err     int // eNone, eAny, eEither or an error code
	HasItem bool
	Item    string // id of the item the operation reports back (attributes: from the model after the step)
	HasRel  bool
	Rel     RKey
}

func (m *M) ItemCreate(id string, p IP) Res {
	if id == "" {
		return Res{Err: eAny}
	}
	if a, ok := m.Items[id]; ok {
		if !p.valid() {
			return Res{Err: eAny}
		}
		if p.apply(a) != a {
			return Res{Err: 409, HasItem: true, Item: id}
		}
		return Res{HasItem: true, Item: id}
	}
	if !p.valid() {
		return Res{Err: eAny}
	}
	m.Items[id] = p.apply(IAttr{})
	m.Parent[id] = ""
	return Res{HasItem: true, Item: id}
}

func (m *M) ItemDelete(id string) Res {
	if id == "" {
		return Res{Err: eAny}
	}
	if _, ok := m.Items[id]; !ok {
		return Res{}
	}
	p := m.Parent[id]
	for _, c := range m.children(id) {
		m.Parent[c] = p
	}
	delete(m.Parent, id)
	delete(m.Items, id)
	for k := range m.Rels {
		if k.F == id || k.T == id {
			delete(m.Rels, k)
		}
	}
	return Res{}
}

func (m *M) ItemSet(id string, p IP) Res {
	a, ok := m.Items[id]
	if !ok {
		return Res{Err: 404}
	}
	if !p.valid() {
		return Res{Err: eAny}
	}
	m.Items[id] = p.apply(a)
	return Res{HasItem: true, Item: id}
}

func (m *M) RelCreate(f, t string, p RP) Res {
	if _, ok := m.Items[f]; !ok {
		return Res{Err: 404}
	}
	if _, ok := m.Items[t]; !ok {
		return Res{Err: 404}
	}
	k := RKey{f, t}
	if a, ok := m.Rels[k]; ok {
		if p.apply(a) != a {
			return Res{Err: 409, HasRel: true, Rel: k}
		}
		return Res{HasRel: true, Rel: k}
	}
	m.Rels[k] = p.apply(RAttr{})
	return Res{HasRel: true, Rel: k}
}

func (m *M) RelDelete(f, t string) Res {
	delete(m.Rels, RKey{f, t})
	return Res{}
}

func (m *M) RelSet(f, t string, p RP) Res {
	k := RKey{f, t}
	a, ok := m.Rels[k]
	if !ok {
		return Res{Err: 404}
	}
	m.Rels[k] = p.apply(a)
	return Res{HasRel: true, Rel: k}
}

func (m *M) Nest(c, p string) Res {
	if _, ok := m.Items[c]; !ok {
		return Res{Err: 404}
	}
	if _, ok := m.Items[p]; !ok {
		return Res{Err: 404}
	}
	if c == p {
		return Res{Err: eEither}
	}
	if m.inside(p, c) {
		return Res{Err: eAny}
	}
	m.Parent[c] = p
	return Res{HasItem: true, Item: c}
}

func (m *M) Free(c string) Res {
	if _, ok := m.Items[c]; !ok {
		return Res{Err: 404}
	}
	m.Parent[c] = ""
	return Res{HasItem: true, Item: c}
}

// --- queries ---

func (m *M) relFetch(f, t string, strict bool) []RKey {
	var out []RKey
	for _, k := range m.relKeys() {
		if strict && k.F == f && k.T == t || !strict && m.within(k.F, f) && m.within(k.T, t) {
			out = append(out, k)
		}
	}
	return out
}

func (m *M) relTo(t string, strict bool) []RKey {
	var out []RKey
	for _, k := range m.relKeys() {
		if k.T == t || !strict && m.within(k.T, t) {
			out = append(out, k)
		}
	}
	return out
}

func (m *M) relFrom(f string, strict bool) []RKey {
	var out []RKey
	for _, k := range m.relKeys() {
		if k.F == f || !strict && m.within(k.F, f) {
			out = append(out, k)
		}
	}
	return out
}

// --- text commands ---

// Cmd is the abstract syntax of one command line.
type Cmd struct {
	Res    string      `json:"res"`  // item, rel, world
	Verb   string      `json:"verb"` // create fetch set clear delete list items-in nest free exists in? to? from? create-or-fetch create-or-set
	Id     string      `json:"id,omitempty"`
	To     string      `json:"to,omitempty"` // second id / parent id
	Ids    []string    `json:"ids,omitempty"`
	Params [][2]string `json:"params,omitempty"`
	Keys   []string    `json:"keys,omitempty"`
	Limit  int         `json:"limit,omitempty"` // -1: written as 0; 0: not written
	Flags  []string    `json:"flags,omitempty"`
	Alt    bool        `json:"alt,omitempty"` // written in its other spelling: item? and rel? for exists
}

func (c Cmd) strict() bool {
	for _, f := range c.Flags {
		if f == "strict" {
			return true
		}
	}
	return false
}

func (c Cmd) mutates() bool {
	switch c.Verb {
	case "create", "set", "clear", "delete", "nest", "free", "create-or-fetch", "create-or-set":
		return true
	}
	return false
}

func isBare(s string) bool {
	if s == "" {
		return false
	}
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_') {
			return false
		}
	}
	return true
}

var reserved = map[string]bool{"world": true, "endworld": true, "error": true, "ok": true, "item": true, "items": true, "rel": true, "rels": true,
	"in": true, "create": true, "delete": true, "set": true, "clear": true, "fetch": true, "list": true, "exists": true, "free": true, "nest": true}

// quoteId writes an identifier bare when that is unambiguous, quoted otherwise.
func quoteId(s string) string {
	if isBare(s) && !reserved[s] && s[0] != '-' {
		return s
	}
	return `"` + s + `"`
}

func quoteVal(s string) string {
	if isBare(s) {
		return s
	}
	return `"` + s + `"`
}

// paramText writes one parameter; booleans and types are never quoted.
func paramText(k, v string) string {
	switch k {
	case "external", "async", "type":
		return k + "=" + v
	}
	return k + "=" + quoteVal(v)
}

// Text writes the command in its plainest form.
func (c Cmd) Text() string {
	var w []string
	switch c.Verb {
	case "nest":
		w = append(w, "nest")
		for _, i := range c.Ids {
			w = append(w, quoteId(i))
		}
		w = append(w, "in", quoteId(c.To))
	case "free":
		w = append(w, "free")
		for _, i := range c.Ids {
			w = append(w, quoteId(i))
		}
	case "in?":
		w = append(w, "in?", quoteId(c.Id), quoteId(c.To))
	case "to?", "from?":
		w = append(w, c.Verb, quoteId(c.Id))
	case "items-in":
		w = append(w, "items", "in", quoteId(c.Id))
	default:
		if c.Verb == "exists" && c.Alt {
			w = append(w, c.Res+"?", quoteId(c.Id))
			if c.Res == "rel" {
				w = append(w, quoteId(c.To))
			}
			break
		}
		w = append(w, c.Res)
		if c.Res == "world" {
			break
		}
		if c.Verb != "create-or-fetch" && c.Verb != "create-or-set" {
			w = append(w, c.Verb)
		}
		if c.Verb == "list" {
			if c.Limit != 0 {
				w = append(w, strconv.Itoa(max(c.Limit, 0)))
			}
			break
		}
		w = append(w, quoteId(c.Id))
		if c.Res == "rel" {
			w = append(w, quoteId(c.To))
		}
		for _, p := range c.Params {
			w = append(w, paramText(p[0], p[1]))
		}
		w = append(w, c.Keys...)
	}
	for _, f := range c.Flags {
		w = append(w, "--"+f)
	}
	return strings.Join(w, " ")
}

func (c Cmd) ip() IP {
	var p IP
	for _, kv := range c.Params {
		v := kv[1]
		switch kv[0] {
		case "external":
			p.External = bp(v == "true")
		case "type":
			p.Type = sp(v)
		case "name":
			p.Name = sp(v)
		case "mechanism":
			p.Mech = sp(v)
		case "expanded":
			p.Exp = sp(v)
		}
	}
	for _, k := range c.Keys {
		switch k {
		case "external":
			p.External = bp(false)
		case "type":
			p.Type = sp("")
		case "name":
			p.Name = sp("")
		case "mechanism":
			p.Mech = sp("")
		case "expanded":
			p.Exp = sp("")
		}
	}
	return p
}

func (c Cmd) rp() RP {
	var p RP
	for _, kv := range c.Params {
		v := kv[1]
		switch kv[0] {
		case "verb":
			p.Verb = sp(v)
		case "mechanism":
			p.Mech = sp(v)
		case "async":
			p.Async = bp(v == "true")
		case "expanded":
			p.Exp = sp(v)
		}
	}
	for _, k := range c.Keys {
		switch k {
		case "verb":
			p.Verb = sp("")
		case "mechanism":
			p.Mech = sp("")
		case "async":
			p.Async = bp(false)
		case "expanded":
			p.Exp = sp("")
		}
	}
	return p
}

// Answer is what the reply to a command must be.
type Answer struct {
	Err    int    // eNone / eAny / eEither
	Kind   string // world item rel items rels bool none anyrel anyitems anyrels
	Item   string
	Rel    RKey
	Items  []string // kind items: exactly these; kind anyitems: Count distinct ones out of these
	Rels   []RKey
	Count  int
	Bool   bool
	NoBool bool // answer may be either
}

func itemAns(id string) Answer    { return Answer{Kind: "item", Item: id} }
func relAns(k RKey) Answer        { return Answer{Kind: "rel", Rel: k} }
func boolAns(b bool) Answer       { return Answer{Kind: "bool", Bool: b} }
func errAns() Answer              { return Answer{Err: eAny} }
func resErr(r Res) (Answer, bool) { return Answer{Err: r.Err}, r.Err != eNone }

// Exec applies a command to the model and says what the reply must be. Attributes of items and relationships in
// the reply are those of the model after the command.
func (m *M) Exec(c Cmd) Answer {
	switch c.Res {
	case "world":
		return Answer{Kind: "world"}
	case "item":
		_, exists := m.Items[c.Id]
		switch c.Verb {
		case "create", "create-or-fetch":
			if exists {
				return itemAns(c.Id)
			}
			if e, bad := resErr(m.ItemCreate(c.Id, c.ip())); bad {
				return e
			}
			return itemAns(c.Id)
		case "create-or-set":
			var r Res
			if exists {
				r = m.ItemSet(c.Id, c.ip())
			} else {
				r = m.ItemCreate(c.Id, c.ip())
			}
			if e, bad := resErr(r); bad {
				return e
			}
			return itemAns(c.Id)
		case "fetch":
			if !exists {
				return errAns()
			}
			return itemAns(c.Id)
		case "set", "clear":
			if e, bad := resErr(m.ItemSet(c.Id, c.ip())); bad {
				return e
			}
			return itemAns(c.Id)
		case "delete":
			if exists {
				m.ItemDelete(c.Id)
			}
			return Answer{Kind: "none"}
		case "list":
			n := len(m.Items)
			if c.Limit > 0 && c.Limit < n {
				n = c.Limit
			}
			return Answer{Kind: "items", Items: m.ids(), Count: n}
		case "items-in":
			if !exists {
				return errAns()
			}
			ch := m.children(c.Id)
			return Answer{Kind: "items", Items: ch, Count: len(ch)}
		case "exists":
			return boolAns(exists)
		case "in?":
			if c.strict() {
				return boolAns(c.Id == c.To && exists)
			}
			if c.Id == c.To {
				return Answer{Kind: "bool", NoBool: true}
			}
			_, pe := m.Items[c.To]
			return boolAns(exists && pe && m.inside(c.Id, c.To))
		case "nest":
			bad, either := false, false
			for _, id := range c.Ids {
				if _, ok := m.Items[id]; ok && m.Parent[id] == c.To && c.To != "" {
					continue
				}
				switch r := m.Nest(id, c.To); r.Err {
				case eNone:
				case eEither:
					either = true
				default:
					bad = true
				}
			}
			if bad {
				return errAns()
			}
			if either {
				return Answer{Err: eEither, Kind: "bool", Bool: true}
			}
			return boolAns(true)
		case "free":
			bad := false
			for _, id := range c.Ids {
				if m.Free(id).Err != eNone {
					bad = true
				}
			}
			if bad {
				return errAns()
			}
			return boolAns(true)
		}
	case "rel":
		k := RKey{c.Id, c.To}
		_, exists := m.Rels[k]
		switch c.Verb {
		case "create", "create-or-fetch":
			if exists {
				return relAns(k)
			}
			if e, bad := resErr(m.RelCreate(c.Id, c.To, c.rp())); bad {
				return e
			}
			return relAns(k)
		case "create-or-set":
			var r Res
			if exists {
				r = m.RelSet(c.Id, c.To, c.rp())
			} else {
				r = m.RelCreate(c.Id, c.To, c.rp())
			}
			if e, bad := resErr(r); bad {
				return e
			}
			return relAns(k)
		case "fetch":
			rs := m.relFetch(c.Id, c.To, c.strict())
			if len(rs) == 0 {
				return errAns()
			}
			return Answer{Kind: "anyrel", Rels: rs, Count: 1}
		case "set", "clear":
			if e, bad := resErr(m.RelSet(c.Id, c.To, c.rp())); bad {
				return e
			}
			return relAns(k)
		case "delete":
			m.RelDelete(c.Id, c.To)
			return Answer{Kind: "none"}
		case "list":
			n := len(m.Rels)
			if c.Limit > 0 && c.Limit < n {
				n = c.Limit
			}
			return Answer{Kind: "rels", Rels: m.relKeys(), Count: n}
		case "exists":
			return boolAns(exists)
		case "to?":
			rs := m.relTo(c.Id, c.strict())
			return Answer{Kind: "rels", Rels: rs, Count: len(rs)}
		case "from?":
			rs := m.relFrom(c.Id, c.strict())
			return Answer{Kind: "rels", Rels: rs, Count: len(rs)}
		}
	}
	panic(fmt.Sprintf("model: no such command %+v", c))
}
