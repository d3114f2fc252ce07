package main

// C06, C07, C10, C17: text forms and equality.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/williamflynt/topolith/pkg/world"
)

// quotable: every character that may stand between quotes in a command.
const quotable = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.,!@#$%^&*()[]+=~;: "

// quotClasses: representatives, one per way the grammar treats a character.
const quotClasses = "aZ0-_.,!@#$%^&*()[]+=~;: "

// oddWords: text that means something elsewhere in the grammar.
var oddWords = []string{"", "nil", "tree", "item", "items", "rel", "rels", "world", "endworld", "endworld$$", "$$world", "$$", "$$$$", "::[", "]", "[]", "in", "ok", "error", "true", "false", "0", "1", "10", "-", "--strict", "-strict",
	"name=x", "type=person", "id=x", "version=2", "expanded=", " ", "  ", " a", "a ", " a b ", "item a", "rel a b", "200 ok", "404 error", "create", "person", "code", "Person", "a::b", "::", "nest a in b", "inventory", "deleted", "x.world", ".", "..", "a.b.c", "[a]", "a=b", "a;b", "#", "%d", "%s%n", "$1", "&", "*", "~", "^"}

func strs2(alpha string) []string {
	var out []string
	for i := range alpha {
		out = append(out, alpha[i:i+1])
	}
	for i := range alpha {
		for j := range alpha {
			out = append(out, alpha[i:i+1]+alpha[j:j+1])
		}
	}
	return out
}

func strs3(alpha string) []string {
	var out []string
	for i := range alpha {
		for j := range alpha {
			for k := range alpha {
				out = append(out, alpha[i:i+1]+alpha[j:j+1]+alpha[k:k+1])
			}
		}
	}
	return out
}

// --- C06 ---

// reloadMsg: what is wrong with reading back the text of w.
func reloadMsg(w world.World, uni []string) (string, world.World) {
	m, bad := abstract(w, uni)
	if bad != "" {
		return "", nil
	}
	s := w.String()
	w2, err := world.FromString(s)
	if err != nil {
		return fmt.Sprintf("the world's text does not read back: %s\n%s", clip(err.Error(), 300), clip(s, 600)), nil
	}
	if w2 == nil {
		return "reading the world's text gives no world and no error", nil
	}
	m2, bad := abstract(w2, uni)
	if bad != "" {
		return "the world read back is broken: " + bad, nil
	}
	if d := diffM(m, m2, aAll); d != "" {
		return fmt.Sprintf("the world read back differs: %s\n%s", d, clip(s, 600)), nil
	}
	s2 := w2.String()
	t2, err := textModel(s2)
	if err != nil {
		return fmt.Sprintf("the text of the world read back cannot be read: %v", err), nil
	}
	if d := diffM(m, t2, aAll); d != "" {
		return "writing the world read back gives other content: " + d, nil
	}
	w3, err := world.FromString(s2)
	if err != nil {
		return "the text of the world read back does not read back again: " + clip(err.Error(), 300), nil
	}
	m3, bad := abstract(w3, uni)
	if bad == "" {
		bad = diffM(m, m3, aAll)
	}
	if bad != "" {
		return "the second read-back differs: " + bad, nil
	}
	return "", w2
}

func outMsg(a, b Outcome) string {
	if (a.Err == nil) != (b.Err == nil) || errCode(a.Err) != errCode(b.Err) {
		return fmt.Sprintf("reports %v on the original and %v on the world read back", a.Err, b.Err)
	}
	if a.Item != nil && b.Item != nil && *a.Item != *b.Item {
		return fmt.Sprintf("reports item %v on the original and %v on the world read back", *a.Item, *b.Item)
	}
	if a.Rel != nil && b.Rel != nil && *a.Rel != *b.Rel {
		return fmt.Sprintf("reports %v on the original and %v on the world read back", *a.Rel, *b.Rel)
	}
	if a.Reply != "" || b.Reply != "" {
		x, _ := readReply(a.Reply)
		y, _ := readReply(b.Reply)
		if x == nil || y == nil || x.Code != y.Code || canonReply(x) != canonReply(y) {
			return fmt.Sprintf("answers %q on the original and %q on the world read back", clip(a.Reply, 200), clip(b.Reply, 200))
		}
	}
	return ""
}

// canonReply is the content of a reply, whatever the order of lists.
func canonReply(r *Reply) string {
	var l []string
	for _, i := range r.Items {
		l = append(l, "item "+q(i.Id)+i.A.String())
	}
	for _, x := range r.Rels {
		l = append(l, "rel "+q(x.K.F)+q(x.K.T)+x.A.String())
	}
	for _, b := range r.Bools {
		l = append(l, fmt.Sprint(b))
	}
	if r.World != nil {
		if m, err := r.World.toModel(); err == nil {
			l = append(l, m.Canon())
		} else {
			l = append(l, "bad world")
		}
	}
	sort.Strings(l)
	return fmt.Sprintf("%d %s %v", r.Code, r.Word, l)
}

func c06(probe []Op) func(x *Step) string {
	return func(x *Step) string {
		if x.Bad != "" {
			return ""
		}
		msg, w2 := reloadMsg(x.S.W, x.Cfg.Uni)
		if msg != "" {
			return x.where() + ": " + msg
		}
		if w2 == nil {
			return ""
		}
		// Behaves like the original: every operation on a copy of each.
		text := x.S.W.String()
		for _, o := range probe {
			if o.K == "Undo" || o.K == "Reload" {
				continue
			}
			a := x.Fresh()
			wb, err := world.FromString(text)
			if err != nil {
				return ""
			}
			b := sutOf(wb)
			oa, ob := a.apply(o), b.apply(o)
			d := outMsg(oa, ob)
			if d == "" {
				ma, ba := abstract(a.W, x.Cfg.Uni)
				mb, bb := abstract(b.W, x.Cfg.Uni)
				if ba != "" {
					continue
				}
				if d = bb; d == "" {
					d = diffM(ma, mb, aAll)
				}
			}
			if d != "" {
				return fmt.Sprintf("%s: then %s %s", x.where(), o, d)
			}
		}
		return ""
	}
}

func roundTripCfgs(tier string) []*Cfg {
	th := tier == "thorough"
	mk := func(c *Cfg) *Cfg {
		c.Check = c06(c.Alpha)
		return c
	}
	attrs := []Op{set("a", IP{Name: sp("two words")}), set("a", IP{Type: sp("database"), Mech: sp("m")}), set("b", IP{Exp: sp("e.")}), set("b", IP{External: bp(true)}), createP("c", IP{Name: sp("c"), Type: sp("person")}),
		rel("a", "b"), relP("b", "a", RP{Verb: sp("reads from")}), relSet("a", "b", RP{Mech: sp("m"), Async: bp(true)}), relSet("a", "b", RP{Exp: sp("e")}), nest("a", "b"), nest("c", "a"), free("a"), del("b"), create("b"), relDel("a", "b"),
		{K: "SetName", A: "new name"}, {K: "SetExpanded", A: "long text."}}
	cmds := []Op{
		ex(Cmd{Res: "item", Verb: "create", Id: "nil"}), ex(Cmd{Res: "item", Verb: "create", Id: "a b", Params: [][2]string{{"name", "x y"}, {"type", "queue"}}}), ex(Cmd{Res: "item", Verb: "create-or-set", Id: "nil", Params: [][2]string{{"external", "true"}}}),
		ex(Cmd{Res: "item", Verb: "nest", Ids: []string{"nil"}, To: "a b"}), ex(Cmd{Res: "item", Verb: "nest", Ids: []string{"a b"}, To: "nil"}), ex(Cmd{Res: "item", Verb: "free", Ids: []string{"nil", "a b"}}),
		ex(Cmd{Res: "rel", Verb: "create-or-set", Id: "nil", To: "a b", Params: [][2]string{{"verb", "v w"}, {"async", "true"}}}), ex(Cmd{Res: "rel", Verb: "create", Id: "a b", To: "a b"}), ex(Cmd{Res: "item", Verb: "delete", Id: "nil"}),
	}
	ids4 := letters(4)
	return prefixed("C06", []*Cfg{
		mk(&Cfg{Name: "attributes", Seed: creates("a", "b"), Alpha: attrs, Uni: letters(3), Depth: pick(th, 3, 4)}),
		mk(&Cfg{Name: "structure", Alpha: structureOps(letters(3)), Uni: append(letters(3), "zz"), Depth: pick(th, 5, 0)}),
		mk(&Cfg{Name: "hierarchies", Seed: creates(ids4...), Alpha: moves(ids4), Uni: ids4, Depth: pick(th, 3, 0)}),
		mk(&Cfg{Name: "commands", Alpha: cmds, Uni: []string{"nil", "a b"}, Depth: pick(th, 5, 6)}),
	}, nil)
}

// fieldCase puts one text into one field of a small world.
type fieldCase struct {
	Field string `json:"field"`
	Text  string `json:"text"`
}

var worldFields = []string{"item id", "item name", "item mechanism", "item expanded", "rel verb", "rel mechanism", "rel expanded", "world id", "world name", "world expanded"}

func (c *fieldCase) ops() []Op {
	t := c.Text
	base := []Op{createP("k1", IP{Name: sp("n1"), Mech: sp("m1"), Exp: sp("e1"), Type: sp("person"), External: bp(true)}), createP("k2", IP{Exp: sp("e2")}), nest("k2", "k1"), relP("k1", "k2", RP{Verb: sp("v"), Mech: sp("m"), Async: bp(true), Exp: sp("e")}), relP("k2", "k1", RP{Exp: sp("f")}), {K: "SetExpanded", A: "about"}}
	var o []Op
	switch c.Field {
	case "item id":
		o = []Op{createP(t, IP{Name: sp("n")}), nest(t, "k1"), relP(t, "k2", RP{Verb: sp("v")}), rel("k1", t), create("k3"), nest("k3", t)}
	case "item name":
		o = []Op{set("k2", IP{Name: sp(t)}), set("k1", IP{Name: sp(t)})}
	case "item mechanism":
		o = []Op{set("k2", IP{Mech: sp(t)}), set("k1", IP{Mech: sp(t)})}
	case "item expanded":
		o = []Op{set("k2", IP{Exp: sp(t)}), set("k1", IP{Exp: sp(t)})}
	case "rel verb":
		o = []Op{relSet("k1", "k2", RP{Verb: sp(t)}), relSet("k2", "k1", RP{Verb: sp(t)})}
	case "rel mechanism":
		o = []Op{relSet("k1", "k2", RP{Mech: sp(t)}), relSet("k2", "k1", RP{Mech: sp(t)})}
	case "rel expanded":
		o = []Op{relSet("k1", "k2", RP{Exp: sp(t)}), relSet("k2", "k1", RP{Exp: sp(t)})}
	case "world id":
		o = []Op{{K: "SetId", A: t}}
	case "world name":
		o = []Op{{K: "SetName", A: t}}
	case "world expanded":
		o = []Op{{K: "SetExpanded", A: t}}
	}
	return append(base, o...)
}

var evalField = kind("reload-field", func(tier string, c *fieldCase) string {
	if c.Field == "item id" && c.Text == "" {
		return ""
	}
	s := build(c.ops())
	if m, _ := reloadMsg(s.W, []string{"k1", "k2", "k3", c.Text}); m != "" {
		return fmt.Sprintf("%s = %q: %s", c.Field, c.Text, m)
	}
	return ""
}, func(tier string, c *fieldCase) []string { return opStrings(c.ops()) })

// historyCase is a history to build a world with, written out.
type historyCase struct {
	Ops []Op `json:"ops"`
}

var evalReload = kind("reload", func(tier string, c *historyCase) string {
	s := build(c.Ops)
	if m, _ := reloadMsg(s.W, nil); m != "" {
		return m
	}
	return ""
}, func(tier string, c *historyCase) []string { return opStrings(c.Ops) })

// bigWorlds: deep, wide, dense and fully attributed worlds.
func bigWorlds(th bool) [][]Op {
	var out [][]Op
	n := pick(th, 40, 120)
	ids := numbered("n", n)
	out = append(out, chain(ids), star(ids), creates(ids...))
	dense := numbered("d", 12)
	o := star(dense)
	for _, a := range dense {
		for _, b := range dense {
			o = append(o, relP(a, b, RP{Verb: sp(a + " to " + b), Async: bp(a < b)}))
		}
	}
	out = append(out, o)
	// Every combination of item attributes at once, spread over two levels.
	o = nil
	i := 0
	for _, t := range typeNames {
		for _, e := range []bool{false, true} {
			for k := 0; k < 8; k++ {
				p := IP{Type: sp(t), External: bp(e), Name: sp(""), Mech: sp(""), Exp: sp("")}
				if k&1 > 0 {
					p.Name = sp("name " + fmt.Sprint(i))
				}
				if k&2 > 0 {
					p.Mech = sp("mech")
				}
				if k&4 > 0 {
					p.Exp = sp("longer text, " + fmt.Sprint(i) + ".")
				}
				id := fmt.Sprintf("i%03d", i)
				o = append(o, createP(id, p))
				if i%8 > 0 {
					o = append(o, nest(id, fmt.Sprintf("i%03d", i-i%8)))
				}
				i++
			}
		}
	}
	for k := 0; k < 16; k++ {
		p := RP{Async: bp(k&8 > 0)}
		if k&1 > 0 {
			p.Verb = sp("v 1")
		}
		if k&2 > 0 {
			p.Mech = sp("m")
		}
		if k&4 > 0 {
			p.Exp = sp("e")
		}
		o = append(o, relP("i000", fmt.Sprintf("i%03d", k), p), relP(fmt.Sprintf("i%03d", k), "i001", p))
	}
	out = append(out, o)
	for _, v := range append(rungs(12, 62), 0, 1, 2, 123456, 1<<63-1) {
		out = append(out, []Op{create("a"), {K: "SetVersion", N: v}})
	}
	return out
}

func runC06(r *Runner) {
	r.exploreAll(pick(r.thorough(), plainOrders[1:3], quickPerms))
	texts := append(append([]string{}, oddWords...), strs2(quotable)...)
	texts = append(texts, ladder(pick(r.thorough(), 72, 300), pick(r.thorough(), 13, 18))...)
	if r.thorough() {
		texts = append(texts, strs3(quotClasses)...)
	}
	n := 0
	feed(r, func(emit func(fieldCase) bool) {
		for _, f := range worldFields {
			for _, t := range texts {
				n++
				if !emit(fieldCase{f, t}) {
					return
				}
			}
		}
	}, func(slot int, c fieldCase) {
		evalField(r, slot, &c)
		r.count("states", 1)
		r.count("traces_validated_against_impl", 1)
	})
	r.note("every text of up to %d quotable characters and %d odd words in each of %d fields: %d worlds", pick(r.thorough(), 2, 3), len(oddWords), len(worldFields), n)
	var cs []historyCase
	for _, o := range append(bigWorlds(r.thorough()), shapeWorlds(r.thorough())...) {
		cs = append(cs, historyCase{o})
	}
	fn := pick(r.thorough(), 4, 5)
	names := []string{"nil", "a b", "c", "d::e", "f"}
	for _, par := range forests(fn) {
		var o []Op
		o = append(o, creates(names[:fn]...)...)
		for i, p := range par {
			if p >= 0 {
				o = append(o, nest(names[i], names[p]))
			}
		}
		o = append(o, rel("nil", "c"), relP("c", "a b", RP{Verb: sp("v w")}))
		cs = append(cs, historyCase{o})
	}
	for _, p := range plainOrders {
		r.setOrder(p)
		r.parallel(len(cs), func(slot, i int) {
			evalReload(r, slot, &cs[i])
			r.count("states", 1)
			r.count("traces_validated_against_impl", 1)
		})
	}
	r.setOrder(permIdentity)
}

// --- C07 ---

func sameNode(a, b *TNode) string {
	if a.Nil != b.Nil {
		return fmt.Sprintf("root item %q against no item", a.Item.Id+b.Item.Id)
	}
	if !a.Nil && (a.Item.Id != b.Item.Id || a.Item.A != b.Item.A) {
		return fmt.Sprintf("item %q %s became %q %s", a.Item.Id, a.Item.A, b.Item.Id, b.Item.A)
	}
	key := func(n *TNode) string {
		if n.Nil {
			return ""
		}
		return n.Item.Id
	}
	x, y := append([]*TNode{}, a.Kids...), append([]*TNode{}, b.Kids...)
	sort.Slice(x, func(i, j int) bool { return key(x[i]) < key(x[j]) })
	sort.Slice(y, func(i, j int) bool { return key(y[i]) < key(y[j]) })
	if len(x) != len(y) {
		return fmt.Sprintf("%q has %d branches, then %d", key(a), len(x), len(y))
	}
	for i := range x {
		if m := sameNode(x[i], y[i]); m != "" {
			return m
		}
	}
	return ""
}

// nodeOf walks a real tree through its public interface.
func nodeOf(t world.Tree) *TNode { return nodeOfN(t, 0) }

func nodeOfN(t world.Tree, depth int) *TNode {
	if depth > 2000 {
		panic("a tree contains itself")
	}
	n := &TNode{}
	it := t.Item()
	if it.Id == "" {
		n.Nil = true
	} else {
		n.Item = TItem{it.Id, iattr(it)}
	}
	for _, c := range t.Components().ToSlice() {
		n.Kids = append(n.Kids, nodeOfN(c, depth+1))
	}
	return n
}

func treeItems(n *TNode, m map[string]IAttr) map[string]IAttr {
	if !n.Nil {
		m[n.Item.Id] = n.Item.A
	}
	for _, k := range n.Kids {
		treeItems(k, m)
	}
	return m
}

// treeBack reads the text of t back and compares; sub: also every subtree.
func treeBack(t world.Tree, sub bool) string {
	want := nodeOf(t)
	s := t.String()
	n, err := readTreeText(s)
	if err != nil {
		return fmt.Sprintf("the tree's text cannot be read: %v: %s", err, clip(s, 300))
	}
	if m := sameNode(want, n); m != "" {
		return fmt.Sprintf("the tree's text differs from the tree: %s: %s", m, clip(s, 300))
	}
	t2, items, err := world.TreeFromString(s)
	if err != nil {
		return fmt.Sprintf("the tree's text does not read back: %s: %s", clip(err.Error(), 200), clip(s, 300))
	}
	if m := sameNode(want, nodeOf(t2)); m != "" {
		return fmt.Sprintf("the tree read back differs: %s: %s", m, clip(s, 300))
	}
	wi := treeItems(want, map[string]IAttr{})
	if len(wi) != len(items) {
		return fmt.Sprintf("reading the tree returns %d items, it holds %d: %s", len(items), len(wi), clip(s, 300))
	}
	for id, a := range wi {
		if it, ok := items[id]; !ok || it.Id != id || iattr(it) != a {
			return fmt.Sprintf("reading the tree returns for %q: %v (found: %t), it holds %s: %s", id, it, ok, a, clip(s, 300))
		}
	}
	if sub {
		for _, c := range t.Components().ToSlice() {
			if m := treeBack(c, true); m != "" {
				return "subtree: " + m
			}
		}
	}
	return ""
}

func treeTextOf(w world.World) string {
	s := w.String()
	i := strings.Index(s, "tree{")
	j := strings.LastIndex(s, "]}")
	if i < 0 || j < i {
		return ""
	}
	return s[i : j+2]
}

func itemBack(it world.Item) string {
	s := it.String()
	got, err := world.ItemFromString(s)
	if err != nil {
		return fmt.Sprintf("the item's text does not read back: %s: %s", clip(err.Error(), 200), s)
	}
	if got != it {
		return fmt.Sprintf("item %+v reads back as %+v from %s", it, got, s)
	}
	return ""
}

func relBack(w world.World, rl world.Rel) string {
	s := rl.String()
	got, err := world.RelFromString(w, s)
	if err != nil {
		return fmt.Sprintf("the relationship's text does not read back: %s: %s", clip(err.Error(), 200), s)
	}
	if got != rl {
		return fmt.Sprintf("relationship %+v reads back as %+v from %s", rl, got, s)
	}
	for _, end := range []string{rl.From.Id, rl.To.Id} {
		w2 := world.CreateWorld("w")
		for _, id := range []string{rl.From.Id, rl.To.Id} {
			if id != end {
				w2.ItemCreate(id, world.ItemParams{})
			}
		}
		if got, err := world.RelFromString(w2, s); err == nil {
			return fmt.Sprintf("%s reads as %+v in a world without %q", s, got, end)
		}
	}
	return ""
}

func partsMsg(w world.World) string {
	for _, it := range w.ItemList(0) {
		if m := itemBack(it); m != "" {
			return m
		}
	}
	for _, rl := range w.RelList(0) {
		if m := relBack(w, rl); m != "" {
			return m
		}
	}
	t, _, err := world.TreeFromString(treeTextOf(w))
	if err != nil {
		return fmt.Sprintf("the world's tree does not read on its own: %s: %s", clip(err.Error(), 200), clip(treeTextOf(w), 300))
	}
	if tm, err := textModel(w.String()); err == nil {
		got := treeItems(nodeOf(t), map[string]IAttr{})
		for id, a := range tm.Items {
			if got[id] != a {
				return fmt.Sprintf("item %q of the world's tree reads as %s, is %s", id, got[id], a)
			}
		}
	}
	return treeBack(t, true)
}

var evalPartsField = kind("parts-field", func(tier string, c *fieldCase) string {
	if c.Field == "item id" && c.Text == "" {
		return ""
	}
	if m := partsMsg(build(c.ops()).W); m != "" {
		return fmt.Sprintf("%s = %q: %s", c.Field, c.Text, m)
	}
	return ""
}, func(tier string, c *fieldCase) []string { return opStrings(c.ops()) })

var evalParts = kind("parts", func(tier string, c *historyCase) string { return partsMsg(build(c.Ops).W) },
	func(tier string, c *historyCase) []string { return opStrings(c.Ops) })

// otherCase: a text of one kind given to the reader of another.
type otherCase struct {
	Reader string `json:"reader"`
	Kind   string `json:"kind"`
	Text   string `json:"text"`
}

// kindTexts: texts by kind.
func kindTexts() map[string][]string {
	w := build([]Op{createP("a", IP{Name: sp("x")}), create("b"), nest("b", "a"), rel("a", "b")}).W
	empty := build(nil).W
	return map[string][]string{
		"world":  {w.String(), empty.String()},
		"tree":   {treeTextOf(w), treeTextOf(empty), `tree{item "a"::[]}`, `tree{item "a" name="x"::[tree{item "b"::[]}]}`},
		"item":   {`item "a"`, `item a`, `item "a" name="x" external=true`},
		"rel":    {`rel "a" "b"`, `rel a b verb=x`, `rel "a" "a" async=true`},
		"status": {"200 ok", "404 error", `404 error "not found"`, `200 ok "fine"`},
		"reply":  {"item \"a\"\n$$$$\n200 ok", "\n$$$$\n200 ok", "rel \"a\" \"b\"\n$$$$\n200 ok", w.String() + "\n$$$$\n200 ok", treeTextOf(w) + "\n$$$$\n200 ok", "true\n$$$$\n200 ok", "a b\n$$$$\n200 ok"},
		"command": {"world", "item create a", "item fetch a", "item set a name=x", "item clear a name", "item delete a", "item list", "items list 3", "item in a", "items in a", "item exists a", "item? a", "nest a in b", "free a", "in? a b",
			"rel create a b", "rel fetch a b", "rel set a b verb=x", "rel clear a b verb", "rel delete a b", "rel list", "rel exists a b", "rel? a b", "to? a", "from? a"},
		"words": {"a", "a b", "hello", "itemx", `"a"`, "{", "]", "=", "name=x", "$$", "$$world", "endworld$$", "nil", "tree{", "tree{nil::[", "item", "rel", "rel a", "  ", "\n"},
	}
}

var evalOther = kind("other-kind", func(tier string, c *otherCase) string {
	w := build([]Op{create("a"), create("b")}).W
	var got string
	var err error
	switch c.Reader {
	case "world":
		var x world.World
		x, err = world.FromString(c.Text)
		if err == nil {
			got = "a world"
			if x != nil {
				got = x.String()
			}
		} else if x != nil {
			return fmt.Sprintf("reading %q as a world reports an error and returns a world", clip(c.Text, 200))
		}
	case "tree":
		var x world.Tree
		x, _, err = world.TreeFromString(c.Text)
		if err == nil {
			got = x.String()
		}
	case "item":
		var x world.Item
		x, err = world.ItemFromString(c.Text)
		got = fmt.Sprintf("%+v", x)
	case "rel":
		var x world.Rel
		x, err = world.RelFromString(w, c.Text)
		got = fmt.Sprintf("%+v", x)
	}
	if err == nil {
		return fmt.Sprintf("text of kind %s reads as a %s: %q gives %s", c.Kind, c.Reader, clip(c.Text, 200), clip(got, 200))
	}
	return ""
}, nil)

func otherCases(readers ...string) []otherCase {
	var out []otherCase
	for _, rd := range readers {
		for k, ts := range kindTexts() {
			if k == rd {
				continue
			}
			for _, t := range ts {
				out = append(out, otherCase{rd, k, t})
			}
		}
		if rd != "tree" {
			out = append(out, otherCase{rd, "empty", ""})
		}
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}

// treeOpCase: a history of operations on a tree read from text, each addressed to one of its nodes.
type treeOp struct {
	K    string `json:"k"`              // Add Delete
	Node string `json:"node,omitempty"` // "" the root
	Id   string `json:"id"`
}
type treeCase struct {
	Text string   `json:"text"`
	Ops  []treeOp `json:"ops"`
}

func (c *treeCase) build() world.Tree {
	t, _, err := world.TreeFromString(c.Text)
	if err != nil {
		return nil
	}
	for _, o := range c.Ops {
		applyTree(t, o)
	}
	return t
}

func applyTree(t world.Tree, o treeOp) {
	n := t
	if o.Node != "" {
		f, ok := t.Find(o.Node)
		if !ok {
			return
		}
		n = f
	}
	switch o.K {
	case "Add":
		n.AddOrMove(&world.Item{Id: o.Id, Name: "name of " + o.Id})
	case "Delete":
		n.Delete(o.Id)
	}
}

var evalTreeOps = kind("tree-ops", func(tier string, c *treeCase) string {
	t := c.build()
	if t == nil {
		return ""
	}
	return treeBack(t, true)
}, func(tier string, c *treeCase) []string {
	out := []string{c.Text}
	for _, o := range c.Ops {
		out = append(out, fmt.Sprintf("%s(%q) at node %q", o.K, o.Id, o.Node))
	}
	return out
})

func treeOpAlpha() []treeOp {
	var a []treeOp
	for _, n := range []string{"", "a", "b"} {
		for _, id := range []string{"a", "b", "c"} {
			if n != id {
				a = append(a, treeOp{"Add", n, id})
			}
			a = append(a, treeOp{"Delete", n, id})
		}
	}
	return a
}

// sequences enumerates all sequences over n symbols of length exactly k.
func sequences(n, k int, f func(s []int) bool) {
	s := make([]int, k)
	for {
		if !f(append([]int{}, s...)) {
			return
		}
		i := k - 1
		for i >= 0 {
			s[i]++
			if s[i] < n {
				break
			}
			s[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

func runC07(r *Runner) {
	one := func() { r.count("states", 1); r.count("traces_validated_against_impl", 1) }
	texts := append(append([]string{}, oddWords...), strs2(quotable)...)
	texts = append(texts, ladder(pick(r.thorough(), 72, 300), pick(r.thorough(), 13, 18))...)
	if r.thorough() {
		texts = append(texts, strs3(quotClasses)...)
	}
	feed(r, func(emit func(fieldCase) bool) {
		for _, f := range worldFields[:7] {
			for _, t := range texts {
				if !emit(fieldCase{f, t}) {
					return
				}
			}
		}
	}, func(slot int, c fieldCase) { evalPartsField(r, slot, &c); one() })
	r.note("every text of up to %d quotable characters and %d odd words in each of 7 fields", pick(r.thorough(), 2, 3), len(oddWords))
	var cs []historyCase
	for _, o := range append(bigWorlds(r.thorough()), shapeWorlds(r.thorough())...) {
		cs = append(cs, historyCase{o})
	}
	n := pick(r.thorough(), 4, 5)
	names := []string{"nil", "a b", "c", "tree", "f"}
	for _, par := range forests(n) {
		var o []Op
		for i, nm := range names[:n] {
			o = append(o, createP(nm, IP{Name: sp(fmt.Sprint("name ", i)), Type: sp(typeNames[i]), External: bp(i%2 == 0)}))
		}
		for i, p := range par {
			if p >= 0 {
				o = append(o, nest(names[i], names[p]))
			}
		}
		cs = append(cs, historyCase{append(o, rel("nil", "c"))})
	}
	for _, p := range plainOrders {
		r.setOrder(p)
		r.parallel(len(cs), func(slot, i int) { evalParts(r, slot, &cs[i]); one() })
	}
	r.setOrder(permIdentity)
	os := otherCases("item", "rel", "tree")
	r.parallel(len(os), func(slot, i int) { evalOther(r, slot, &os[i]); one() })
	al := treeOpAlpha()
	feed(r, func(emit func(treeCase) bool) {
		for _, start := range []string{"", `tree{nil::[tree{item "a"::[tree{item "b"::[]}]}]}`, `tree{item "a" name="x"::[tree{item "b"::[tree{item "c"::[]}]}]}`} {
			for k := 1; k <= pick(r.thorough(), 3, 4); k++ {
				sequences(len(al), k, func(s []int) bool {
					c := treeCase{Text: start}
					for _, i := range s {
						c.Ops = append(c.Ops, al[i])
					}
					return emit(c)
				})
			}
		}
	}, func(slot int, c treeCase) { evalTreeOps(r, slot, &c); one(); r.count("transitions", 1) })
	r.sample("tree-ops: %v", al)
}

// --- C10 ---

// prefixCase: a world, written out, and every way of cutting its text short.
type prefixCase struct {
	Ops []Op `json:"ops"`
	// File also saves the world and cuts the file it is in.
	File bool `json:"file,omitempty"`

	cuts int64
}

// refusedText says what is wrong when text that is not a complete world is not refused.
func refusedText(w world.World, err error, what, s string) string {
	if err == nil {
		return fmt.Sprintf("an incomplete text (%s) reads as a world: %q", what, clip(s, 300))
	}
	if w != nil {
		return fmt.Sprintf("an incomplete text (%s) is refused but a world is returned with the error: %q", what, clip(s, 300))
	}
	return ""
}

var evalCut = kind("cut-world", func(tier string, c *prefixCase) string {
	s := strings.TrimSpace(build(c.Ops).W.String())
	try := func(what, t string) string {
		c.cuts++
		w, err := world.FromString(t)
		return refusedText(w, err, what, t)
	}
	for n := 0; n < len(s); n++ {
		if bad := try(fmt.Sprintf("the first %d of %d bytes", n, len(s)), s[:n]); bad != "" {
			return bad
		}
		if bad := try(fmt.Sprintf("the first %d of %d bytes and a line end", n, len(s)), s[:n]+"\n"); bad != "" && strings.TrimSpace(s[:n]) != s {
			return bad
		}
		if n > 0 {
			if bad := try(fmt.Sprintf("the last %d of %d bytes", len(s)-n, len(s)), s[n:]); bad != "" {
				return bad
			}
		}
	}
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "rel ") || strings.TrimSpace(l) == "" {
			continue
		}
		if bad := try(fmt.Sprintf("without line %d", i+1), strings.Join(append(append([]string{}, lines[:i]...), lines[i+1:]...), "\n")); bad != "" {
			return bad
		}
	}
	if !c.File {
		return ""
	}
	d := newDisk(1)
	defer d.close()
	w := build(c.Ops).W
	w.SetName("saved")
	before := dirFiles(d.dir)
	if err := d.fp.Save(w); err != nil {
		return "" // C08
	}
	for f := range dirFiles(d.dir) {
		if _, old := before[f]; old {
			continue
		}
		full, err := os.ReadFile(f)
		mustDo(err)
		for n := 0; n < len(bytes.TrimSpace(full)); n++ {
			c.cuts++
			mustDo(os.WriteFile(f, full[:n], 0o644))
			w, err := d.fp.Load("saved")
			if bad := refusedText(w, err, fmt.Sprintf("a saved file's first %d of %d bytes", n, len(full)), string(full[:n])); bad != "" {
				return bad
			}
		}
	}
	return ""
}, func(tier string, c *prefixCase) []string { return opStrings(c.Ops) })

// dirFiles lists the files under a directory.
func dirFiles(dir string) map[string]bool {
	out := map[string]bool{}
	mustDo(filepath.WalkDir(dir, func(p string, e os.DirEntry, err error) error {
		if err == nil && !e.IsDir() {
			out[p] = true
		}
		return err
	}))
	return out
}

type textCase struct {
	Text string `json:"text"`
	Want string `json:"want"`
}

var evalDangling = kind("dangling", func(tier string, c *textCase) string {
	w, err := world.FromString(c.Text)
	if c.Want == "refused" && (err == nil || w != nil) {
		return fmt.Sprintf("a text whose relationships name missing items reads as a world: %q", c.Text)
	}
	if c.Want == "read" && err != nil {
		return fmt.Sprintf("a proper text is refused: %q: %v", c.Text, clip(err.Error(), 200))
	}
	return ""
}, nil)

func runC10(r *Runner) {
	one := func() { r.count("states", 1); r.count("traces_validated_against_impl", 1) }
	worlds := [][]Op{nil, creates("a"), {createP("a", IP{Name: sp("two words"), Type: sp("person"), External: bp(true)}), create("b"), nest("b", "a"), relP("a", "b", RP{Verb: sp("v w"), Async: bp(true)}), rel("b", "a"), rel("a", "a")},
		append(chain(letters(5)), rel("a", "e"), Op{K: "SetExpanded", A: "endworld$$"}), append(star(letters(5)), rel("e", "a")), {create("endworld"), create("rel"), rel("endworld", "rel"), {K: "SetName", A: "tree"}},
		append(creates(`$$`, `endworld$$`), rel("$$", "endworld$$"), rel("endworld$$", "$$")), {create("a"), {K: "SetName", A: "$$world"}, {K: "SetId", A: "endworld$$ $$$$ 200 ok"}}}
	filed := len(worlds)
	for _, par := range forests(pick(r.thorough(), 3, 4)) {
		c := worldCase{N: pick(r.thorough(), 3, 4), Par: par, Rels: [][2]int{{0, 1}, {2, 2}}}
		worlds = append(worlds, c.ops())
	}
	worlds = append(worlds, eqWorlds(false)...)
	if r.thorough() {
		worlds = append(worlds, bigWorlds(false)...)
	}
	texts := append(append([]string{}, oddWords...), ladder(pick(r.thorough(), 40, 130), pick(r.thorough(), 8, 12))...)
	for _, f := range worldFields {
		for _, t := range texts {
			worlds = append(worlds, (&fieldCase{f, t}).ops())
		}
	}
	muteFd2()
	r.parallel(len(worlds), func(slot, i int) {
		c := prefixCase{Ops: worlds[i], File: i < filed}
		evalCut(r, slot, &c)
		r.count("states", 1)
		r.count("transitions", c.cuts)
		r.count("traces_validated_against_impl", c.cuts)
	})
	oc := otherCases("world")
	r.parallel(len(oc), func(slot, i int) { evalOther(r, slot, &oc[i]); one() })
	// Relationships between every pair of present and missing items, alone and as a second relationship.
	ids := []string{"a", "b", "zz", "nil"}
	var ds []textCase
	for _, tree := range []string{`tree{nil::[]}`, `tree{nil::[tree{item "a"::[]}]}`, `tree{nil::[tree{item "a"::[tree{item "b"::[]}]}]}`, `tree{nil::[tree{item "b"::[]} tree{item "a"::[]}]}`} {
		has := func(id string) bool { return strings.Contains(tree, `"`+id+`"`) }
		for _, f := range ids {
			for _, t := range ids {
				for _, first := range []string{"", "rel \"a\" \"a\"\n"} {
					want := "refused"
					if has(f) && has(t) && (first == "" || has("a")) {
						want = "read"
					}
					ds = append(ds, textCase{fmt.Sprintf("$$world\nversion=1\nid=\"w\"\nname=\"w\"\nexpanded=\"\"\n%s\n%srel %q %q\nendworld$$", tree, first, f, t), want})
				}
			}
		}
	}
	r.parallel(len(ds), func(slot, i int) { evalDangling(r, slot, &ds[i]); one() })
	r.sample("prefixes of %q", build(worlds[2]).W.String())
	r.note("all proper prefixes and suffixes and all single-line deletions of %d world texts (and all prefixes of saved files), %d texts of other kinds, %d texts with relationships to missing items", len(worlds), len(oc), len(ds))
}

// --- C17 ---

type eqCase struct {
	What string `json:"what"`
	A    []Op   `json:"a"`
	B    []Op   `json:"b"`
}

func sutOf(w world.World) *Sut {
	s := newSut("w")
	s.W = w
	if a, err := newAppOn(w); err == nil {
		s.App = a
	}
	return s
}

var evalWorldEq = kind("world-equal", func(tier string, c *eqCase) string {
	return worldEqMsg(build(c.A).W, build(c.B).W)
}, func(tier string, c *eqCase) []string {
	return append(append([]string{"first:"}, opStrings(c.A)...), append([]string{"second:"}, opStrings(c.B)...)...)
})

func worldEqMsg(a, b world.World) string {
	ma, ba := abstract(a, nil)
	mb, bb := abstract(b, nil)
	if ba != "" || bb != "" {
		return ""
	}
	d := diffM(ma, mb, aAll)
	x, y := world.WorldEqual(a, b), world.WorldEqual(b, a)
	if x != y {
		return fmt.Sprintf("WorldEqual says %t, and %t with the arguments swapped (difference: %s)", x, y, d)
	}
	if x != (d == "") {
		return fmt.Sprintf("WorldEqual says %t, but the difference is %q", x, d)
	}
	return ""
}

type pairCase struct {
	What string `json:"what"`
	A    string `json:"a"`
	B    string `json:"b"`
	IA   *world.Item
	IB   *world.Item
	RA   *world.Rel
	RB   *world.Rel
}

var evalPairEq = kind("pair-equal", func(tier string, c *pairCase) string {
	var x, y, want bool
	switch c.What {
	case "item":
		x, y, want = world.ItemEqual(*c.IA, *c.IB), world.ItemEqual(*c.IB, *c.IA), *c.IA == *c.IB
	case "rel":
		x, y, want = world.RelEqual(*c.RA, *c.RB), world.RelEqual(*c.RB, *c.RA), *c.RA == *c.RB
	case "tree":
		ta, _, ea := world.TreeFromString(c.A)
		tb, _, eb := world.TreeFromString(c.B)
		if ea != nil || eb != nil {
			return ""
		}
		x, y, want = world.TreeEqual(ta, tb), world.TreeEqual(tb, ta), sameNode(nodeOf(ta), nodeOf(tb)) == ""
	}
	if x != want || y != want {
		return fmt.Sprintf("equality of two %ss is %t, and %t swapped; should be %t: %s", c.What, x, y, want, c.show())
	}
	return ""
}, nil)

func (c *pairCase) show() string {
	switch c.What {
	case "item":
		return fmt.Sprintf("%+v, %+v", *c.IA, *c.IB)
	case "rel":
		return fmt.Sprintf("%+v, %+v", *c.RA, *c.RB)
	}
	return clip(c.A, 300) + "  and  " + clip(c.B, 300)
}

// eqWorlds: a family of worlds that differ in one thing, in several, or only in how they were built.
func eqWorlds(th bool) [][]Op {
	base := []Op{createP("a", IP{Name: sp("x"), Type: sp("person")}), create("b"), create("c"), nest("b", "a"), rel("a", "b"), rel("a", "c"), rel("b", "a"), relP("c", "a", RP{Verb: sp("v")})}
	var out [][]Op
	add := func(o ...Op) { out = append(out, append(append([]Op{}, base...), o...)) }
	add()
	// Built in other orders.
	rev := []Op{create("c"), create("b"), create("a"), relP("c", "a", RP{Verb: sp("v")}), rel("b", "a"), rel("a", "c"), rel("a", "b"), nest("b", "a"), set("a", IP{Name: sp("x"), Type: sp("person")})}
	out = append(out, rev)
	out = append(out, append([]Op{create("d"), create("e"), rel("d", "e")}, append(base, del("d"), del("e"))...))
	add(Op{K: "Reload"})
	add(nest("b", "c"), nest("b", "a"))
	add(relDel("a", "b"), rel("a", "b"))
	// One difference each.
	for _, p := range []IP{{Name: sp("y")}, {Name: sp("")}, {Type: sp("code")}, {Type: sp("")}, {External: bp(true)}, {Mech: sp("m")}, {Exp: sp("e")}} {
		add(set("a", p))
		add(set("b", p))
		add(set("c", p))
	}
	for _, p := range []RP{{Verb: sp("z")}, {Mech: sp("m")}, {Async: bp(true)}, {Exp: sp("e")}} {
		for _, k := range []RKey{{"a", "b"}, {"a", "c"}, {"b", "a"}, {"c", "a"}} {
			add(relSet(k.F, k.T, p))
		}
	}
	for _, k := range []RKey{{"a", "b"}, {"a", "c"}, {"b", "a"}, {"c", "a"}} {
		add(relDel(k.F, k.T))
	}
	for _, k := range []RKey{{"a", "a"}, {"b", "b"}, {"b", "c"}, {"c", "b"}} {
		add(rel(k.F, k.T))
		add(relDel("a", "c"), rel(k.F, k.T))
		add(relDel("b", "a"), rel(k.F, k.T))
	}
	add(free("b"))
	add(nest("b", "c"))
	add(nest("c", "a"))
	add(nest("c", "b"))
	add(nest("a", "c"))
	add(free("b"), nest("a", "b"))
	add(create("d"))
	add(del("c"))
	add(del("c"), create("d"))
	add(Op{K: "SetName", A: "other"})
	add(Op{K: "SetId", A: "other"})
	add(Op{K: "SetExpanded", A: "other"})
	add(Op{K: "SetVersion", N: 2})
	// All hierarchies over three bare items, with two relationship sets.
	for _, par := range forests(3) {
		for _, rs := range [][][2]int{nil, {{0, 1}, {0, 2}}, {{0, 2}, {0, 1}}, {{0, 1}, {0, 1}}, {{0, 2}, {1, 2}}} {
			out = append(out, (&worldCase{N: 3, Par: par, Rels: rs}).ops())
		}
	}
	// Every shape of four items (thorough: five), and each with one item moved.
	for _, par := range shapes(pick(th, 4, 5)) {
		ids := letters(len(par))
		o := append(shapeSeed(par, ids, 0), rel(ids[0], ids[1]))
		out = append(out, o)
		for _, c := range ids {
			out = append(out, append(append([]Op{}, o...), free(c)))
			for _, p := range ids {
				if p != c {
					out = append(out, append(append([]Op{}, o...), nest(c, p)))
				}
			}
		}
	}
	// Wide: more items and relationships than fit in one group of a map.
	for _, n := range []int{9, 10, 11} {
		ids := numbered("w", n)
		o := star(ids)
		for _, i := range ids {
			o = append(o, rel(ids[0], i), rel(i, ids[0]))
		}
		out = append(out, o)
		r := []Op{}
		for i := len(ids) - 1; i >= 0; i-- {
			r = append(r, create(ids[i]))
		}
		for i := len(ids) - 1; i > 0; i-- {
			r = append(r, nest(ids[i], ids[0]))
		}
		for i := len(ids) - 1; i >= 0; i-- {
			r = append(r, rel(ids[i], ids[0]), rel(ids[0], ids[i]))
		}
		out = append(out, r, append(append([]Op{}, o...), set(ids[n-1], IP{Name: sp("last")})), append(append([]Op{}, o...), relSet(ids[0], ids[n-1], RP{Verb: sp("v")})), append(append([]Op{}, o...), free(ids[n-1])), append(append([]Op{}, o...), nest(ids[n-1], ids[n-2])),
			append(append([]Op{}, o...), nest(ids[n-2], ids[n-1])))
	}
	if th {
		for _, par := range forests(4) {
			out = append(out, (&worldCase{N: 4, Par: par, Rels: [][2]int{{0, 1}, {0, 2}, {3, 0}}}).ops())
		}
	}
	return out
}

func runC17(r *Runner) {
	one := func() { r.count("states", 1); r.count("traces_validated_against_impl", 1) }
	var pairs []pairCase
	// Items: every combination of two values per attribute, all pairs.
	var its []world.Item
	for _, id := range []string{"a", "b"} {
		for _, ext := range []bool{false, true} {
			for _, ty := range []world.ItemType{0, world.Person, world.Code} {
				for k := 0; k < 8; k++ {
					it := world.Item{Id: id, External: ext, Type: ty}
					if k&1 > 0 {
						it.Name = "x"
					}
					if k&2 > 0 {
						it.Mechanism = "x"
					}
					if k&4 > 0 {
						it.Expanded = "x"
					}
					its = append(its, it)
				}
			}
		}
	}
	for i := range its {
		for j := range its {
			pairs = append(pairs, pairCase{What: "item", IA: &its[i], IB: &its[j]})
		}
	}
	var rls []world.Rel
	ends := []world.Item{{Id: "a"}, {Id: "b"}, {Id: "a", Name: "x"}, {Id: "a", Type: world.Person}, {Id: "a", External: true}}
	for _, f := range ends {
		for _, t := range ends {
			for k := 0; k < 16; k++ {
				rl := world.Rel{From: f, To: t, Async: k&1 > 0}
				if k&2 > 0 {
					rl.Verb = "x"
				}
				if k&4 > 0 {
					rl.Mechanism = "x"
				}
				if k&8 > 0 {
					rl.Expanded = "x"
				}
				rls = append(rls, rl)
			}
		}
	}
	for i := range rls {
		for j := range rls {
			pairs = append(pairs, pairCase{What: "rel", RA: &rls[i], RB: &rls[j]})
		}
	}
	pairs = append(pairs, ladderEq(r.thorough())...)
	r.parallel(len(pairs), func(slot, i int) { evalPairEq(r, slot, &pairs[i]); one() })
	lw := ladderEqWorlds(r.thorough())
	r.parallel(len(lw), func(slot, i int) { evalWorldEq(r, slot, &lw[i]); one() })
	// Trees: the trees of the world family (built orders differ), and every subtree of them.
	ws := eqWorlds(r.thorough())
	orders := plainOrders
	if r.thorough() {
		orders = append(append([]Perm{}, plainOrders...), allPerms()[1:8]...)
	}
	var texts []string
	seen := map[string]bool{}
	for _, o := range ws {
		t := treeTextOf(build(o).W)
		if !seen[t] {
			seen[t] = true
			texts = append(texts, t)
		}
		if tr, _, err := world.TreeFromString(t); err == nil {
			for _, c := range tr.Components().ToSlice() {
				if s := c.String(); !seen[s] {
					seen[s] = true
					texts = append(texts, s)
				}
			}
		}
	}
	for _, p := range orders {
		r.setOrder(p)
		r.parallel(len(texts)*len(texts), func(slot, i int) {
			evalPairEq(r, slot, &pairCase{What: "tree", A: texts[i/len(texts)], B: texts[i%len(texts)]})
			one()
		})
		r.parallel(len(ws)*len(ws), func(slot, i int) {
			evalWorldEq(r, slot, &eqCase{A: ws[i/len(ws)], B: ws[i%len(ws)]})
			one()
		})
	}
	r.setOrder(permIdentity)
	r.count("map_orders", int64(len(orders)))
	r.note("all ordered pairs of %d items, %d relationships, %d trees and %d worlds, under %d map orders", len(its), len(rls), len(texts), len(ws), len(orders))
	r.sample("%s", opsString(ws[1]))
}

func init() {
	cfgMakers["C06"] = roundTripCfgs
	props["C06"] = &Prop{Level: "model_checking", Run: runC06, Quick: 5 * time.Minute, Thorough: 12 * time.Minute,
		Rule: "every reachable world of the alphabets is written and read back; content, second text and the effect of every operation of the alphabet on original and copy are compared"}
	props["C07"] = &Prop{Level: "model_checking", Run: runC07, Quick: 5 * time.Minute, Thorough: 12 * time.Minute,
		Rule: "every item, relationship, tree and subtree of an enumerated family of worlds and of all tree histories up to the depth is written and read back; every text of another kind is given to every reader"}
	props["C10"] = &Prop{Level: "model_checking", Run: runC10, Quick: 5 * time.Minute, Thorough: 12 * time.Minute,
		Rule: "every proper prefix of the enumerated world texts, every text of another kind, every placement of a relationship to a missing item"}
	props["C17"] = &Prop{Level: "model_checking", Run: runC17, Quick: 5 * time.Minute, Thorough: 12 * time.Minute,
		Rule: "all ordered pairs of the enumerated values compared with equality of their observed content, under several map orders"}
}
