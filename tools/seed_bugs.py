"""The planted bugs: (edits to original lines, demonstration). Written by seed.py into /verif/seeded."""
W = "pkg/world/world.go"; T = "pkg/world/tree.go"; I = "pkg/world/item.go"; R = "pkg/world/rel.go"
A = "pkg/app/main.go"; C = "pkg/app/command.go"; E = "pkg/errors/main.go"; P = "pkg/persistence/main.go"; G = "pkg/grammar/main.go"

def wdemo(body, imports=()):
    imps = "".join(f'\t"{i}"\n' for i in ("testing",) + tuple(imports))
    return f'package world\n\nimport (\n{imps})\n\nfunc sp(s string) *string {{ return &s }}\nfunc bp(b bool) *bool {{ return &b }}\n\nvar _, _ = sp, bp\n\nfunc TestDemo(t *testing.T) {{\n{body}\n}}\n'

def ademo(body, imports=()):
    imps = "".join(f'\t"{i}"\n' for i in ("testing", "github.com/williamflynt/topolith/pkg/world") + tuple(imports))
    return f'''package app

import (
{imps})

func mk(t *testing.T, lines ...string) *app {{
	a, err := NewApp(world.CreateWorld("w"))
	if err != nil {{
		t.Fatal(err)
	}}
	for _, l := range lines {{
		a.Exec(l)
	}}
	return a.(*app)
}}

func TestDemo(t *testing.T) {{
{body}
}}
'''

def pdemo(body, imports=()):
    imps = "".join(f'\t"{i}"\n' for i in ("testing", "github.com/williamflynt/topolith/pkg/world") + tuple(imports))
    return f'package persistence\n\nimport (\n{imps})\n\nvar _ = world.CreateWorld\n\nfunc TestDemo(t *testing.T) {{\n{body}\n}}\n'

BUGS = []
def bug(id, prop, edits, pkg, demo, needs, breaks, sh=None, extra=None):
    BUGS.append(dict(id=id, property=prop, edits=edits, pkg=pkg, demo=demo, needs=needs, breaks=breaks, sh=sh, extra=extra))

bug("C01-delete-keeps-last-component", "C01",
    [(T, "\tfor _, c := range foundComponents {\n", "\tif n := len(foundComponents); n > 2 {\n\t\tfoundComponents = foundComponents[:n-1]\n\t}\n\tfor _, c := range foundComponents[:] {\n")],
    "pkg/world",
    wdemo('''	w := CreateWorld("w")
	for _, id := range []string{"p", "a", "b", "c"} {
		w.ItemCreate(id, ItemParams{})
	}
	for _, id := range []string{"a", "b", "c"} {
		w.Nest(id, "p")
	}
	w.ItemDelete("p")
	for _, id := range []string{"a", "b", "c"} {
		if _, ok := w.Parent(id); !ok {
			t.Fatalf("%s is in no place of the hierarchy", id)
		}
	}'''), "an item with at least three direct components is deleted",
    "one of the components is lost from the hierarchy although the item still exists")

bug("C02-free-goes-up-one-level", "C02",
    [(W, "	w.latestErr = w.Tree.AddOrMove(&item)\n	return w\n}\n\nfunc (w *world) Err()", "	var target = w.Tree\n	if node, ok := w.Tree.Find(childId); ok && !node.Parent().Empty() && node.Parent().Item().Id != \"\" {\n		target = node.Parent().Parent()\n	}\n	w.latestErr = target.AddOrMove(&item)\n	return w\n}\n\nfunc (w *world) Err()")],
    "pkg/world",
    wdemo('''	w := CreateWorld("w")
	for _, id := range []string{"a", "b", "c"} {
		w.ItemCreate(id, ItemParams{})
	}
	w.Nest("b", "c")
	w.Nest("a", "b")
	w.Free("a")
	if p, ok := w.Parent("a"); !ok || p != "" {
		t.Fatalf("a is in %q after it was freed", p)
	}'''), "an item nested at depth two or more is freed", "the item moves up one level and not to the top level")

bug("C03-external-cannot-be-unset", "C03",
    [(W, "		item.External = *params.External\n", "		item.External = item.External || *params.External\n")],
    "pkg/world",
    wdemo('''	w := CreateWorld("w")
	w.ItemCreate("a", ItemParams{External: bp(true)})
	w.ItemSet("a", ItemParams{External: bp(false)})
	if i, _ := w.ItemFetch("a"); i.External {
		t.Fatal("a is still external")
	}'''), "an item that is external is set to external=false", "the old value stays")

bug("C04-delete-stops-at-first-rel", "C04",
    [(W, "			delete(w.Rels, k)\n		}\n	}\n", "			delete(w.Rels, k)\n			if rel.From.Id != rel.To.Id && rel.To.Id == id {\n				break\n			}\n		}\n	}\n"),
     (W, "		if rel.From.Id == id || rel.To.Id == id {\n", "		if rel.To.Id == id || rel.From.Id == id {\n")],
    "pkg/world",
    wdemo('''	for n := 0; n < 50; n++ {
		w := CreateWorld("w")
		for _, id := range []string{"a", "b", "c"} {
			w.ItemCreate(id, ItemParams{})
		}
		w.RelCreate("b", "a", RelParams{})
		w.RelCreate("c", "a", RelParams{})
		w.ItemDelete("a")
		if l := w.RelList(0); len(l) != 0 {
			t.Fatalf("%d relationships of the deleted item are left", len(l))
		}
	}'''), "an item to which two relationships lead is deleted", "one of the relationships stays and its end no longer exists")

bug("C05-descendants-of-first-branch", "C05",
    [(T, "		descendantIds = append(descendantIds, c.GetDescendantIds(c.Item().Id)...)\n", "		if len(c.Item().Id) > 0 && c.Components().Cardinality() > 1 {\n			descendantIds = append(descendantIds, c.GetDescendantIds(c.Item().Id)...)\n		} else {\n			for _, d := range c.Components().ToSlice() {\n				descendantIds = append(descendantIds, d.Item().Id)\n			}\n		}\n")],
    "pkg/world",
    wdemo('''	w := CreateWorld("w")
	for _, id := range []string{"a", "b", "c", "d", "x"} {
		w.ItemCreate(id, ItemParams{})
	}
	w.Nest("b", "a")
	w.Nest("c", "b")
	w.Nest("d", "c")
	w.RelCreate("d", "x", RelParams{})
	if l := w.RelFrom("a", false); len(l) != 1 {
		t.Fatalf("%d relationships from a", len(l))
	}'''), "a relationship query on an item with a chain of three levels of single items below it", "relationships of the deepest items are not found")

bug("C06-type-code-not-written", "C06",
    [(I, "	if i.Type > 0 {\n", "	if i.Type > 0 && i.Type < Code {\n")],
    "pkg/world",
    wdemo('''	w := CreateWorld("w")
	w.ItemCreate("a", ItemParams{Type: sp("code")})
	w2, err := FromString(w.String())
	if err != nil {
		t.Fatal(err)
	}
	if i, _ := w2.ItemFetch("a"); i.Type != Code {
		t.Fatalf("type %d", i.Type)
	}'''), "an item of the last type", "its type is not in its text, so it is lost when the world is read back")

bug("C06-dangling-order-of-nesting", "C06",
    [(W, "		for _, child := range current.node.Children {\n			stack = append(stack, queueItem{child, current.node.Id})\n		}\n", "		for i, child := range current.node.Children {\n			if i > 0 && len(child.Children) > 0 {\n				stack = append(stack, queueItem{child, current.parentId})\n				continue\n			}\n			stack = append(stack, queueItem{child, current.node.Id})\n		}\n")],
    "pkg/world",
    wdemo('''	w := CreateWorld("w")
	for _, id := range []string{"r", "a", "b", "c", "d"} {
		w.ItemCreate(id, ItemParams{})
	}
	w.Nest("a", "r")
	w.Nest("b", "r")
	w.Nest("c", "a")
	w.Nest("d", "b")
	for n := 0; n < 20; n++ {
		w2, err := FromString(w.String())
		if err != nil {
			t.Fatal(err)
		}
		for _, id := range []string{"a", "b"} {
			if p, _ := w2.Parent(id); p != "r" {
				t.Fatalf("%s is in %q", id, p)
			}
		}
	}'''), "two sibling items that both have components, below the top level", "one of them is read back at its grandparent's place")

bug("C07-mechanism-needs-a-verb", "C07",
    [(R, "	if r.Mechanism != \"\" {\n", "	if r.Mechanism != \"\" && r.Verb != \"\" {\n")],
    "pkg/world",
    wdemo('''	w := CreateWorld("w")
	w.ItemCreate("a", ItemParams{})
	w.ItemCreate("b", ItemParams{})
	w.RelCreate("a", "b", RelParams{Mechanism: sp("http")})
	r := w.RelList(0)[0]
	r2, err := RelFromString(w, r.String())
	if err != nil || !RelEqual(r, r2) {
		t.Fatal(r2, err)
	}'''), "a relationship with a mechanism but no verb", "its text lacks the mechanism")

bug("C08-names-fold-case", "C08",
    [(P, "	filePath := filepath.Join(fp.directory, world.Name()+\".world\")\n", "	filePath := filepath.Join(fp.directory, strings.ToLower(world.Name())+\".world\")\n"),
     (P, "	\"runtime\"\n", "	\"runtime\"\n	\"strings\"\n"),
     (P, "	data, err := os.ReadFile(filePath)\n	if err != nil {\n		return nil, err\n	}\n", "	data, err := os.ReadFile(filePath)\n	if os.IsNotExist(err) {\n		data, err = os.ReadFile(filepath.Join(fp.directory, strings.ToLower(name)+\".world\"))\n	}\n	if err != nil {\n		return nil, err\n	}\n")],
    "pkg/persistence",
    pdemo('''	p := NewFilePersistence()
	p.SetSourcePath(t.TempDir())
	a, b := world.CreateWorld("Shop"), world.CreateWorld("shop")
	a.SetExpanded("first")
	b.SetExpanded("second")
	if err := p.Save(a); err != nil {
		t.Fatal(err)
	}
	if err := p.Save(b); err != nil {
		t.Fatal(err)
	}
	if l, err := p.Load("Shop"); err != nil || !world.WorldEqual(a, l) {
		t.Fatal("Shop does not load back", err)
	}'''), "two worlds whose names differ only in case are saved", "the second replaces the first")

bug("C08-list-cuts-at-first-dot", "C08",
    [(P, "			worlds = append(worlds, file.Name()[:len(file.Name())-len(filepath.Ext(file.Name()))])\n", "			name, _, _ := strings.Cut(file.Name(), \".\")\n			worlds = append(worlds, name)\n"),
     (P, "	\"runtime\"\n", "	\"runtime\"\n	\"strings\"\n")],
    "pkg/persistence",
    pdemo('''	p := NewFilePersistence()
	p.SetSourcePath(t.TempDir())
	if err := p.Save(world.CreateWorld("v1.2")); err != nil {
		t.Fatal(err)
	}
	l, err := p.ListWorlds()
	if err != nil || len(l) != 1 || l[0] != "v1.2" {
		t.Fatal(l, err)
	}'''), "a world whose name contains a dot", "the list of worlds shows only what is before the dot")

bug("C09-failed-mkdir-is-success", "C09",
    [(P, "	if err := os.MkdirAll(fp.directory, 0755); err != nil {\n		return err\n	}\n", "	if err := os.MkdirAll(fp.directory, 0755); err != nil {\n		return cause(err)\n	}\n"),
     (P, "	\"github.com/williamflynt/topolith/pkg/world\"\n", "	\"errors\"\n	\"github.com/williamflynt/topolith/pkg/world\"\n"),
     (P, "// Save saves a world to a file.\n", "// cause returns the error at the bottom of a chain.\nfunc cause(err error) error {\n	for err != nil {\n		err = errors.Unwrap(err)\n	}\n	return err\n}\n\n// Save saves a world to a file.\n")],
    "pkg/persistence",
    pdemo('''	d := t.TempDir()
	if err := os.WriteFile(d+"/f", nil, 0644); err != nil {
		t.Fatal(err)
	}
	p := NewFilePersistence()
	p.SetSourcePath(d + "/f/sub")
	if err := p.Save(world.CreateWorld("w")); err == nil {
		t.Fatal("nothing is stored, yet the save succeeds")
	}''', ("os",)), "the directory of the worlds cannot be made", "the save reports success and has stored nothing")

bug("C10-dangling-relationships-dropped", "C10",
    [(W, "		rel, err := RelFromString(w, relStr)\n		if err != nil {\n			return nil, err\n		}\n", "		rel, err := RelFromString(w, relStr)\n		if err != nil {\n			continue // Tolerate relationships of Items that were removed.\n		}\n")],
    "pkg/world",
    wdemo('''	s := "$$world\\nversion=1\\nid=\\"w\\"\\nname=\\"w\\"\\nexpanded=\\"\\"\\ntree{nil::[tree{item \\"a\\"::[]}]}\\nrel \\"a\\" \\"b\\"\\nendworld$$"
	if w, err := FromString(s); err == nil {
		t.Fatal("read as a world: " + w.String())
	}'''), "a world's text with a relationship to an item it does not contain", "the text is read as a world without the relationship")

bug("C11-quoted-text-is-trimmed", "C11",
    [(G, "	return strings.Trim(strings.TrimSpace(s), \"\\\"\")\n", "	return strings.TrimSpace(strings.Trim(strings.TrimSpace(s), \"\\\"\"))\n")],
    "pkg/grammar",
    '''package grammar

import "testing"

func TestDemo(t *testing.T) {
	p, err := Parse("item create \\"a\\" name=\\" x \\"")
	if err != nil {
		t.Fatal(err)
	}
	if v := p.InputAttributes.Params["name"]; v != " x " {
		t.Fatalf("name %q", v)
	}
}
''', "a quoted value that begins or ends with whitespace", "the whitespace is lost")

bug("C12-in-strict-swapped", "C12",
    [(C, "	isInThere := w.In(c.Id, c.ParentId, strict)\n", "	isInThere := w.In(c.Id, c.ParentId, false)\n	if strict {\n		parentId, _ := w.Parent(c.Id)\n		isInThere = isInThere && (parentId == c.ParentId || c.Id == c.ParentId)\n	}\n")],
    "pkg/app",
    ademo('''	a := mk(t, "item create aa", "item create bb", "nest aa in bb")
	if r := a.Exec("in? aa bb --strict"); !strings.HasPrefix(r, "false") {
		t.Fatal(r)
	}
	if r := a.Exec("in? aa aa --strict"); !strings.HasPrefix(r, "true") {
		t.Fatal(r)
	}''', ("strings",)), "a strict containment query about an item directly inside the other one", "answers true")

bug("C13-list-limit-panics", "C13",
    [(W, "	rels := make([]Rel, 0)\n	for _, rel := range w.Rels {\n		if limit > 0 && len(rels) >= limit {\n			break\n		}\n", "	rels := make([]Rel, 0, limit)\n	for _, rel := range w.Rels {\n		if limit > 0 && len(rels) >= limit {\n			break\n		}\n")],
    "pkg/app",
    ademo('''	a := mk(t, "item create aa", "rel create aa aa")
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("crash:", r)
		}
	}()
	a.Exec("rels list 9223372036854775807")'''), "a list of relationships with a very large limit", "the application crashes")

bug("C14-stale-error-on-rel-delete", "C14",
    [(W, "func (w *world) RelDelete(fromId, toId string) World {\n	w.resetLatestTrackers()\n", "func (w *world) RelDelete(fromId, toId string) World {\n	w.latestItem, w.latestRel = &Item{}, &Rel{}\n")],
    "pkg/world",
    wdemo('''	w := CreateWorld("w")
	w.ItemCreate("a", ItemParams{})
	w.RelCreate("a", "a", RelParams{})
	w.ItemSet("nope", ItemParams{})
	if err := w.RelDelete("a", "a").Err(); err != nil {
		t.Fatal(err)
	}'''), "a relationship is deleted right after an operation that failed", "the successful delete reports the earlier error")

bug("C15-clear-undo-forgets-mechanism", "C15",
    [(C, "	c.oldParams.Mechanism = strPtr(item.Mechanism)\n	c.oldParams.Expanded = strPtr(item.Expanded)\n	return w.ItemSet(c.Id, c.Params).Item()\n}\n\nfunc (c *ItemClearCommand) Undo", "	if c.Params.Mechanism == nil {\n		c.oldParams.Mechanism = strPtr(item.Mechanism)\n	}\n	c.oldParams.Expanded = strPtr(item.Expanded)\n	return w.ItemSet(c.Id, c.Params).Item()\n}\n\nfunc (c *ItemClearCommand) Undo")],
    "pkg/app",
    ademo('''	a := mk(t, "item create aa mechanism=go", "item clear aa mechanism")
	a.undo()
	if i, _ := a.World().ItemFetch("aa"); i.Mechanism != "go" {
		t.Fatalf("mechanism %q after undo", i.Mechanism)
	}'''), "undo of a clear of the mechanism", "the mechanism stays empty")

bug("C15-rel-set-undo-forgets-async", "C15",
    [(C, "		c.oldParams.Async = boolPtr(rel.Async)\n", "		if c.Params.Async == nil || *c.Params.Async {\n			c.oldParams.Async = boolPtr(rel.Async)\n		}\n")],
    "pkg/app",
    ademo('''	a := mk(t, "item create aa", "item create bb", "rel create aa bb async=true", "rel aa bb async=false")
	a.undo()
	if r := a.World().RelFetch("aa", "bb", true)[0]; !r.Async {
		t.Fatal("not async after undo")
	}'''), "undo of create-or-set that made an asynchronous relationship synchronous", "the relationship stays synchronous")

bug("C16-redo-count-and-limit", "C16",
    [(A, "	if h.commandsIdx >= len(h.commands)-1 {\n", "	if h.commandsIdx >= len(h.commands)-1 || len(h.commands) > 3 && h.commandsIdx < 0 {\n")],
    "pkg/app",
    ademo('''	a := mk(t, "item create aa", "item create bb", "item create cc", "item create dd")
	for n := 0; n < 4; n++ {
		a.undo()
	}
	a.redo()
	if _, ok := a.World().ItemFetch("aa"); !ok {
		t.Fatal("redo did nothing")
	}'''), "all of four or more commands are undone and then redone", "redo does nothing although it reports that it can")

bug("C17-tree-prefix-is-equal", "C17",
    [(T, "	if t1.Components().Cardinality() != t2.Components().Cardinality() {\n", "	if t1.Components().Cardinality() > t2.Components().Cardinality() {\n")],
    "pkg/world",
    wdemo('''	mk := func(s string) Tree {
		x, _, err := TreeFromString(s)
		if err != nil {
			t.Fatal(err)
		}
		return x
	}
	t1 := mk(`tree{nil::[tree{item "a"::[]}]}`)
	t2 := mk(`tree{nil::[tree{item "a"::[]} tree{item "b"::[]}]}`)
	if TreeEqual(t1, t2) || TreeEqual(t2, t1) {
		t.Fatal("different trees are equal")
	}'''), "a tree compared with one that has the same first components and more", "answers true, and false with the arguments swapped")

bug("C18-shared-list-buffer", "C18",
    [(W, "func (w *world) RelFrom(fromId string, strict bool) []Rel {\n", "var relBuffer [64]Rel // relBuffer saves an allocation on each query.\n\nfunc (w *world) RelFrom(fromId string, strict bool) []Rel {\n"),
     (W, "	rels := make([]Rel, 0)\n	leftIds := []string{fromId}\n", "	rels := relBuffer[:0]\n	leftIds := []string{fromId}\n")],
    "pkg/world",
    wdemo('''	w1, w2 := CreateWorld("w1"), CreateWorld("w2")
	w1.ItemCreate("a", ItemParams{})
	w2.ItemCreate("b", ItemParams{})
	w1.RelCreate("a", "a", RelParams{})
	w2.RelCreate("b", "b", RelParams{})
	l := w1.RelFrom("a", true)
	w2.RelFrom("b", true)
	if len(l) != 1 || l[0].From.Id != "a" {
		t.Fatal("a list handed out was changed by another world", l)
	}'''), "a list of relationships is kept while another is asked for", "the first list changes")

bug("C19-empty-object-is-not-found", "C19",
    [("cmd/wasm/main.go", "	if p.Response.Status.Code != 200 {\n", "	if p.Response.Status.Code != 200 || p.Response.Object.Repr == \"\" {\n")],
    "cmd/wasm",
    '''package main

import "testing"

func TestDemo(t *testing.T) {
	r := toReply("\\n$$$$\\n200 ok ")
	if r.Status != 200 || len(r.Error) != 0 {
		t.Fatal(r)
	}
	r = toReply("item \\"a\\"\\n$$$$\\n200 ok ")
	if r.Status != 200 || r.Data.Object.Type == "" {
		t.Fatal(r)
	}
}
''', "a list or query that finds nothing", "the reply's error is not empty although the status is 200")

bug("C20-limit-one-is-no-limit", "C20",
    [(W, "		if limit > 0 && len(items) >= limit {\n", "		if limit > 1 && len(items) >= limit {\n")],
    "pkg/world",
    wdemo('''	w := CreateWorld("w")
	w.ItemCreate("a", ItemParams{})
	w.ItemCreate("b", ItemParams{})
	if l := w.ItemList(1); len(l) != 1 {
		t.Fatal(l)
	}'''), "a list of items limited to one", "all items are listed")

bug("C21-causes-reversed", "C21",
    [(E, "		e.errs = append(e.errs, err)\n", "		e.errs = append([]error{err}, e.errs...)\n")],
    "pkg/errors",
    '''package errors

import "testing"

func TestDemo(t *testing.T) {
	a, b := New("a"), New("b")
	e := New("x").WithError(a).WithError(b)
	if u, ok := e.Unwrap().(TopolithError); !ok || u.Message != "a" {
		t.Fatal(e.Unwrap())
	}
}
''', "two errors are wrapped one after the other", "the first cause is not the one reached by unwrapping")

bug("C22-only-spaces-are-blank", "C22",
    [("cmd/cli/main.go", "		input = strings.TrimSpace(input)\n", "		input = strings.Trim(input, \" \")\n")],
    "cmd/cli",
    '''package main

import (
	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/world"
	"io"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	a, err := app.NewApp(world.CreateWorld("w"))
	if err != nil {
		t.Fatal(err)
	}
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	old := os.Stdout
	os.Stdout = w
	executor(a)(" \\t ")
	os.Stdout = old
	w.Close()
	if b, _ := io.ReadAll(r); len(b) > 0 {
		t.Fatalf("a blank line printed %q", b)
	}
}
''', "a line of whitespace other than spaces", "prints an error instead of doing nothing")

WEBSH = '''#!/bin/bash
# Bundles the page with the stand-ins beside this script and presses keys; the working directory is the repository.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp "$D"/*.js "$T/" && : > "$T/empty.css"
A=""
for m in react react/jsx-runtime react/jsx-dev-runtime react-dom react-dom/client; do A="$A --alias:$m=$T/standin.js"; done
(cd web && /opt/veriftools/node/node_modules/.bin/esbuild src/main.tsx --bundle --format=iife --platform=browser --log-level=error --loader:.css=empty \\
  $A --alias:xterm=$T/standin.js --alias:xterm/css/xterm.css=$T/empty.css --outfile="$T/bundle.js") || exit 2
timeout 60 node "$T/demo.js" "$T/bundle.js"
'''
STANDIN = '''let current = null;
const hook = v => { const c = current; if (c.at === c.h.length) c.h.push(v()); return c.h[c.at++]; };
export const useRef = v => hook(() => ({ current: v }));
export const useState = v => [hook(() => v), () => {}];
export const useMemo = f => hook(f), useCallback = f => hook(() => f);
export const useEffect = f => { const c = current; hook(() => { c.after.push(f); return 0; }); };
export const useLayoutEffect = useEffect;
export const Fragment = "fragment", StrictMode = "strict";
export const jsx = (type, props) => ({ type, props: props || {} }), jsxs = jsx, jsxDEV = jsx;
export const createElement = (type, props, ...children) => jsx(type, { ...props, children });
function mount(el) {
  if (!el || typeof el !== "object") return;
  if (Array.isArray(el)) { el.forEach(mount); return; }
  if (el.props.ref) el.props.ref.current = {};
  if (typeof el.type === "function") {
    const inst = { h: [], at: 0, after: [] };
    current = inst;
    const out = el.type(el.props);
    current = null;
    mount(out);
    inst.after.forEach(f => f());
  } else mount(el.props.children);
}
export const createRoot = () => ({ render: mount });
export class Terminal {
  constructor() { globalThis.term = this; }
  open() {}
  onData(f) { this.key = f; return { dispose() {} }; }
  onKey() { return { dispose() {} }; }
  write(s) { globalThis.shown += s; }
  writeln(s) { this.write(s + "\\r\\n"); }
  dispose() {}
}
export default { useRef, useState, useMemo, useCallback, useEffect, useLayoutEffect, Fragment, createElement, createRoot, Terminal };
'''
def webdemo(body):
    return '''const fs = require("fs");
globalThis.shown = "";
globalThis.sent = [];
console.error = () => {};
globalThis.document = { getElementById: () => ({}) };
globalThis.fetch = async () => ({});
globalThis.Go = class { run() { globalThis.topolithSend = c => { sent.push(c); return answer(c, sent.length); }; } };
WebAssembly.instantiateStreaming = async () => ({ instance: {} });
let answer = (c, n) => JSON.stringify({ status: 200, n });
const turn = () => new Promise(r => setTimeout(r, 5));
const press = async keys => { for (const k of keys) { term.key(k); await turn(); } };
const expect = (what, got, want) => { if (JSON.stringify(got) !== JSON.stringify(want)) { console.log(what, JSON.stringify(got), "expected", JSON.stringify(want)); process.exit(1); } };
(async () => {
  (0, eval)(fs.readFileSync(process.argv[2], "utf8"));
  await turn();
  await turn();
''' + body + '''
  process.exit(0);
})();
'''
def webbug(id, edits, body, needs, breaks):
    bug(id, "C23", edits, "web", "", needs, breaks, sh=WEBSH, extra={"standin.js": STANDIN, "demo.js": webdemo(body)})

TT = "web/src/TopolithTerminal.tsx"
webbug("C23-paste-ignored", [(TT, "                    } else {\n                        // Regular character.\n", "                    } else if (char.length === 1 && char >= ' ') {\n                        // Regular character (control sequences are ignored).\n")],
    '''  await press(["item create ", "a", "\\r"]);
  expect("sent", sent, ["item create a"]);''', "text is pasted, or a character outside the basic plane is typed", "what was typed does not reach the line")
webbug("C23-line-kept-after-bad-answer", [(TT, """                            .finally(() => {
                                inputBuffer.current = '';
                                writePrompt();
                            })
""", """                            .then(() => { inputBuffer.current = ''; }, () => {})
                            .finally(writePrompt)
"""), ("web/src/wasm.ts", """        console.error(e);
        return 'An error occurred while processing the response.';
""", """        console.error(e);
        throw new Error('An error occurred while processing the response.', {cause: e});
""")],
    '''  answer = (c, n) => (n === 1 ? "not JSON" : "{}");
  await press(["a", "\\r", "b", "\\r"]);
  expect("sent", sent, ["a", "b"]);''', "an answer that is not JSON (two sites: the bridge now fails and the terminal only clears the line after a success)", "the next line is sent with the failed one in front of it")

bug("C24-list-inspects-each-file", "C24",
    [(P, "\tfor _, file := range files {\n\t\tif filepath.Ext", "\tfor _, entry := range files {\n\t\tfile, err := entry.Info()\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tif file.IsDir() {\n\t\t\tcontinue\n\t\t}\n\t\tif filepath.Ext")],
    "pkg/persistence",
    pdemo('''	dir := t.TempDir()
	fp := NewFilePersistence()
	fp.SetSourcePath(dir)
	w := world.CreateWorld("w")
	if err := fp.Save(w); err != nil {
		t.Fatal(err)
	}
	stop := make(chan bool)
	done := make(chan bool)
	go func() {
		defer close(done)
		q := NewFilePersistence()
		q.SetSourcePath(dir)
		for {
			select {
			case <-stop:
				return
			default:
				_ = q.Save(w)
			}
		}
	}()
	end := time.Now().Add(20 * time.Second)
	for time.Now().Before(end) && !t.Failed() {
		if l, err := fp.ListWorlds(); err != nil || len(l) != 1 {
			t.Errorf("listing during a save: %q %v", l, err)
		}
	}
	close(stop)
	<-done''', ("time",)), "a listing between a save's creation of its temporary file and the renaming, with the inspection after it", "the listing fails although every saved world is there")
