package main

// C18: separate worlds, trees and applications never affect each other, nor do values handed in or out.

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/williamflynt/topolith/pkg/world"
)

// inst is one of the two things running side by side.
type inst struct {
	apply func(i int)
	obs   func() string
	model func() string // "" or how it differs from the reference model
	names []string
}

func worldInst(w world.World, m *M, ops []Op, uni []string) *inst {
	s := sutOf(w)
	in := &inst{}
	for _, o := range ops {
		in.names = append(in.names, o.String())
	}
	in.apply = func(i int) {
		s.apply(ops[i])
		m.step(ops[i])
	}
	in.obs = func() string { return fullObs(s.W, uni) }
	in.model = func() string {
		got, bad := abstract(s.W, uni)
		if bad != "" {
			return bad
		}
		return diffM(m, got, aAll)
	}
	return in
}

// appInst runs commands and, when reachable, undo and redo; the model keeps snapshots.
func appInst(s *Sut, m *M, cmds []Cmd, uni []string) *inst {
	var past, future []*M
	in := &inst{}
	for _, c := range cmds {
		in.names = append(in.names, c.Text())
	}
	if haveHooks {
		in.names = append(in.names, "undo", "redo")
	}
	in.apply = func(i int) {
		switch {
		case i < len(cmds):
			past, future = append(past, m.Clone()), nil
			s.apply(ex(cmds[i]))
			m.Exec(cmds[i])
		case i == len(cmds):
			appUndo(s.App)
			if n := len(past); n > 0 {
				future = append(future, m)
				m = past[n-1]
				past = past[:n-1]
			}
		default:
			appRedo(s.App)
			if n := len(future); n > 0 {
				past = append(past, m)
				m = future[n-1]
				future = future[:n-1]
			}
		}
	}
	in.obs = func() string {
		var h []string
		for _, c := range s.App.History() {
			h = append(h, c.String())
		}
		return fullObs(s.W, uni) + fmt.Sprint(h, s.App.CanUndo(), s.App.CanRedo())
	}
	in.model = func() string {
		got, bad := abstract(s.W, uni)
		if bad != "" {
			return bad
		}
		return diffM(m, got, aAll)
	}
	return in
}

func (n *TNode) canon() string {
	var k []string
	for _, c := range n.Kids {
		k = append(k, c.canon())
	}
	sort.Strings(k)
	return fmt.Sprintf("(%q %v %s)", n.Item.Id, n.Item.A, strings.Join(k, " "))
}

func treeInst(t world.Tree, shared []*world.Item) *inst {
	in := &inst{}
	type top struct {
		name string
		f    func()
	}
	at := func(id string) world.Tree {
		if id == "" {
			return t
		}
		if n, ok := t.Find(id); ok {
			return n
		}
		return t
	}
	var ops []top
	for _, n := range []string{"", "a", "b"} {
		for _, id := range []string{"a", "b", "e"} {
			if n != id {
				ops = append(ops, top{fmt.Sprintf("add %q under %q", id, n), func() { at(n).AddOrMove(&world.Item{Id: id, Name: "name of " + id}) }})
			}
		}
		ops = append(ops, top{fmt.Sprintf("delete %q", n), func() { t.Delete(n) }})
		ops = append(ops, top{fmt.Sprintf("add to the parent of %q", n), func() { at(n).Parent().AddOrMove(&world.Item{Id: "p"}) }})
		ops = append(ops, top{fmt.Sprintf("delete from the parent of %q", n), func() { at(n).Parent().Delete("p") }})
	}
	ops = append(ops, top{"add a shared item", func() { t.AddOrMove(shared[0]) }}, top{"delete the root item through the root", func() { t.Root().Delete(t.Item().Id) }})
	for _, o := range ops {
		in.names = append(in.names, o.name)
	}
	in.apply = func(i int) { ops[i].f() }
	in.obs = func() string {
		n := nodeOf(t)
		return n.canon() + " parent " + nodeOf(t.Parent()).canon() + fmt.Sprint(t.Empty(), t.Parent().Empty(), len(t.GetDescendantIds("a")), t.Has("e", false)) + canonTreeText(t.String())
	}
	in.model = func() string { return "" }
	return in
}

func canonTreeText(s string) string {
	n, err := readTreeText(s)
	if err != nil {
		return err.Error()
	}
	return n.canon()
}

var isoOps = []Op{
	create("e"), createP("b", IP{Name: sp("other")}), del("b"), set("c", IP{Name: sp("new"), Type: sp("server")}), nest("c", "d"), nest("d", "b"), free("b"), rel("a", "d"), relSet("b", "d", RP{Verb: sp("changed"), Async: bp(false)}), relDel("d", "b"), {K: "SetName", A: "renamed"}, {K: "SetExpanded", A: "text"}, {K: "Reload"},
}

var isoCmds = []Cmd{
	{Res: "item", Verb: "create", Id: "e", Params: [][2]string{{"name", "x"}}},
	{Res: "item", Verb: "delete", Id: "b"},
	{Res: "item", Verb: "set", Id: "c", Params: [][2]string{{"name", "new"}, {"type", "server"}}},
	{Res: "item", Verb: "nest", Ids: []string{"c", "b"}, To: "d"},
	{Res: "item", Verb: "free", Ids: []string{"b"}},
	{Res: "rel", Verb: "create-or-set", Id: "b", To: "d", Params: [][2]string{{"verb", "changed"}}},
	{Res: "rel", Verb: "delete", Id: "d", To: "b"},
	{Res: "item", Verb: "list"},
}

var isoUni = []string{"a", "b", "c", "d", "e"}

type isoCase struct {
	Setup string `json:"setup"`
	Steps []int  `json:"steps"` // < n: on the first, otherwise on the second
}

func familyModel() *M {
	m := NewM("w")
	for _, o := range family() {
		m.step(o)
	}
	return m
}

var isoSetups = []string{"new worlds", "equal worlds", "world and its copy", "two copies of one text", "world and an older copy", "two applications", "application and one on a copy", "trees from empty text", "trees from an empty tree", "trees from one text", "trees with a root item", "world and its tree"}

func isoPair(setup string) (a, b *inst) {
	fam := func() world.World { return build(family()).W }
	back := func(w world.World) world.World {
		w2, err := world.FromString(w.String())
		if err != nil {
			panic("reading back: " + err.Error())
		}
		return w2
	}
	sut := func(w world.World) *Sut { return sutOf(w) }
	tree := func(s string) world.Tree {
		t, items, err := world.TreeFromString(s)
		if err != nil {
			panic("reading a tree: " + err.Error())
		}
		for k, it := range items { // what was handed out may be changed at will
			it.Name = "mine"
			items[k] = it
		}
		clear(items)
		return t
	}
	shared := []*world.Item{{Id: "s", Name: "shared"}}
	switch setup {
	case "new worlds":
		return worldInst(world.CreateWorld("w"), NewM("w"), isoOps, isoUni), worldInst(world.CreateWorld("w"), NewM("w"), isoOps, isoUni)
	case "equal worlds":
		return worldInst(fam(), familyModel(), isoOps, isoUni), worldInst(fam(), familyModel(), isoOps, isoUni)
	case "world and its copy":
		w := fam()
		return worldInst(w, familyModel(), isoOps, isoUni), worldInst(back(w), familyModel(), isoOps, isoUni)
	case "two copies of one text":
		w := fam()
		return worldInst(back(w), familyModel(), isoOps, isoUni), worldInst(back(w), familyModel(), isoOps, isoUni)
	case "world and an older copy":
		w := fam()
		c := back(w)
		m := familyModel()
		for _, o := range []Op{nest("d", "c"), set("d", IP{Name: sp("later")}), rel("d", "d")} {
			sutOf(w).apply(o)
			m.step(o)
		}
		return worldInst(w, m, isoOps, isoUni), worldInst(back(c), familyModel(), isoOps, isoUni)
	case "two applications":
		return appInst(sut(fam()), familyModel(), isoCmds, isoUni), appInst(sut(fam()), familyModel(), isoCmds, isoUni)
	case "application and one on a copy":
		w := fam()
		c := back(w)
		return appInst(sut(w), familyModel(), isoCmds, isoUni), appInst(sut(c), familyModel(), isoCmds, isoUni)
	case "trees from empty text":
		return treeInst(tree(""), shared), treeInst(tree(""), shared)
	case "trees from an empty tree":
		return treeInst(tree("tree{nil::[]}"), shared), treeInst(tree("tree{nil::[]}"), shared)
	case "trees from one text":
		t := "tree{nil::[tree{item \"a\" name=\"n\"::[tree{item \"b\"::[]} tree{item \"c\"::[]}]} tree{item \"d\"::[]}]}"
		return treeInst(tree(t), shared), treeInst(tree(t), shared)
	case "trees with a root item":
		t := "tree{item \"a\" name=\"n\"::[tree{item \"b\"::[tree{item \"c\"::[]}]}]}"
		return treeInst(tree(t), shared), treeInst(tree(t), shared)
	case "world and its tree":
		w := fam()
		return worldInst(w, familyModel(), isoOps, isoUni), treeInst(tree(treeTextOf(w)), shared)
	}
	panic(setup)
}

var evalIso = kind("iso", func(tier string, c *isoCase) string {
	a, b := isoPair(c.Setup)
	for n, i := range c.Steps {
		me, other, k := a, b, i
		if i >= len(a.names) {
			me, other, k = b, a, i-len(a.names)
		}
		last := n == len(c.Steps)-1
		before, mine := "", ""
		if last {
			before = other.obs()
			mine = me.model()
		}
		me.apply(k)
		if !last {
			continue
		}
		if after := other.obs(); before != after {
			return fmt.Sprintf("%s: %s changes the other one: %s", c.Setup, strings.Join(isoText(c), "; "), firstDiff(before, after))
		}
		if m := other.model(); m != "" && mine == "" && n == 0 {
			return fmt.Sprintf("%s: the other one is not as it should be before anything was done to it: %s", c.Setup, m)
		}
	}
	// Interference that both show alike: after histories that only touched one of them the model still describes both.
	if m := a.model(); m != "" {
		return fmt.Sprintf("%s: after %s the first one is wrong: %s", c.Setup, strings.Join(isoText(c), "; "), m)
	}
	if m := b.model(); m != "" {
		return fmt.Sprintf("%s: after %s the second one is wrong: %s", c.Setup, strings.Join(isoText(c), "; "), m)
	}
	return ""
}, func(tier string, c *isoCase) []string { return append([]string{c.Setup}, isoText(c)...) })

func isoText(c *isoCase) (out []string) {
	a, b := isoPair(c.Setup)
	for _, i := range c.Steps {
		if i < len(a.names) {
			out = append(out, "first: "+a.names[i])
		} else {
			out = append(out, "second: "+b.names[i-len(a.names)])
		}
	}
	return
}

// --- values handed in and out ---

type handCase struct {
	Seed  int    `json:"seed"`
	What  string `json:"what"`
	After int    `json:"after"` // out: an operation of isoOps performed while the value is held (-1: none); in: the fields given
}

var handSeeds = [][]Op{
	{create("a")},
	family(),
	append(creates(numbered("n", 10)...), rel("n00", "n01"), nest("n02", "n00"), nest("n03", "n00"), rel("n03", "n04")),
}

var handUni = append(append([]string{}, isoUni...), numbered("n", 10)...)

// getters: each returns the handed-out value as text and a function that changes it in every way a caller can.
var getters = map[string]func(w world.World) (show func() string, spoil func()){
	"ItemList(0)":         func(w world.World) (func() string, func()) { return itemsHand(w.ItemList(0)) },
	"ItemList(2)":         func(w world.World) (func() string, func()) { return itemsHand(w.ItemList(2)) },
	"ItemComponents(a)":   func(w world.World) (func() string, func()) { l, _ := w.ItemComponents("a"); return itemsHand(l) },
	"ItemComponents(n00)": func(w world.World) (func() string, func()) { l, _ := w.ItemComponents("n00"); return itemsHand(l) },
	"Components(a)":       func(w world.World) (func() string, func()) { l, _ := w.Components("a"); return idsHand(l) },
	"Components(n00)":     func(w world.World) (func() string, func()) { l, _ := w.Components("n00"); return idsHand(l) },
	"RelList(0)":          func(w world.World) (func() string, func()) { return relsHand(w.RelList(0)) },
	"RelList(1)":          func(w world.World) (func() string, func()) { return relsHand(w.RelList(1)) },
	"RelFetch(a,a)":       func(w world.World) (func() string, func()) { return relsHand(w.RelFetch("a", "a", false)) },
	"RelFetch(b,d)":       func(w world.World) (func() string, func()) { return relsHand(w.RelFetch("b", "d", true)) },
	"RelTo(b)":            func(w world.World) (func() string, func()) { return relsHand(w.RelTo("b", false)) },
	"RelFrom(a)":          func(w world.World) (func() string, func()) { return relsHand(w.RelFrom("a", false)) },
	"ItemFetch(a)": func(w world.World) (func() string, func()) {
		it, _ := w.ItemFetch("a")
		return func() string { return fmt.Sprint(it) }, func() { it.Name, it.Id = "spoiled", "spoiled" }
	},
	"ItemParent(b)": func(w world.World) (func() string, func()) {
		it, _ := w.ItemParent("b")
		return func() string { return fmt.Sprint(it) }, func() { it.Name, it.Id = "spoiled", "spoiled" }
	},
	"ItemSet(a).Item()": func(w world.World) (func() string, func()) {
		it, _ := w.ItemSet("a", world.ItemParams{}).Item()
		return func() string { return fmt.Sprint(it) }, func() { it.Name, it.Id = "spoiled", "spoiled" }
	},
	"RelSet(b,d).Rel()": func(w world.World) (func() string, func()) {
		it, _ := w.RelSet("b", "d", world.RelParams{}).Rel()
		return func() string { return fmt.Sprint(it) }, func() { it.From.Name, it.To.Id, it.Verb = "spoiled", "spoiled", "spoiled" }
	},
}

func itemsHand(l []world.Item) (func() string, func()) {
	return func() string { return fmt.Sprint(l) }, func() {
		for i := range l {
			l[i].Id, l[i].Name, l[i].Type, l[i].External = "spoiled", "spoiled", 3, !l[i].External
		}
		_ = append(l, world.Item{Id: "extra"})
		if len(l) > 1 {
			_ = append(l[:1], world.Item{Id: "extra"})
		}
	}
}

func idsHand(l []string) (func() string, func()) {
	return func() string { return fmt.Sprint(l) }, func() {
		for i := range l {
			l[i] = "spoiled"
		}
		_ = append(l, "extra")
	}
}

func relsHand(l []world.Rel) (func() string, func()) {
	return func() string { return fmt.Sprint(l) }, func() {
		for i := range l {
			l[i].Verb, l[i].From.Id, l[i].From.Name, l[i].To.Name, l[i].Async = "spoiled", "spoiled", "spoiled", "spoiled", !l[i].Async
		}
		_ = append(l, world.Rel{})
	}
}

var evalHandOut = kind("hand-out", func(tier string, c *handCase) string {
	s := build(handSeeds[c.Seed])
	show, spoil := getters[c.What](s.W)
	if c.After >= 0 {
		held := show()
		s.apply(isoOps[c.After])
		if now := show(); held != now {
			return fmt.Sprintf("%s; %s: what was handed out changes when %s is performed: %s, then %s", opsString(handSeeds[c.Seed]), c.What, isoOps[c.After], clip(held, 200), clip(now, 200))
		}
	}
	before := fullObs(s.W, handUni)
	spoil()
	if after := fullObs(s.W, handUni); before != after {
		return fmt.Sprintf("%s: changing what %s handed out changes the world: %s", opsString(handSeeds[c.Seed]), c.What, firstDiff(before, after))
	}
	return ""
}, nil)

// Values handed in: every subset of the parameters, each kind of operation, everything overwritten afterwards.
type inCase struct {
	Op   string `json:"op"`
	Bits int    `json:"bits"` // which parameters are given
	Same bool   `json:"same"` // the same pointer for all texts
	Two  bool   `json:"two"`  // the same parameters go to two worlds and two resources
}

var evalHandIn = kind("hand-in", func(tier string, c *inCase) string {
	s, s2 := build(family()), build(family())
	one := "v"
	str := func(v string) *string {
		if c.Same {
			return &one
		}
		return &v
	}
	var ip world.ItemParams
	var rp world.RelParams
	yes := true
	ty := "device"
	for b := 0; b < 5; b++ {
		if c.Bits&(1<<b) == 0 {
			continue
		}
		switch b {
		case 0:
			ip.Name, rp.Verb = str("n"), str("n")
		case 1:
			ip.Mechanism, rp.Mechanism = str("m"), str("m")
		case 2:
			ip.Expanded, rp.Expanded = str("e"), str("e")
		case 3:
			ip.External, rp.Async = &yes, &yes
		case 4:
			ip.Type = &ty
		}
	}
	do := func(w world.World) {
		switch c.Op {
		case "ItemCreate":
			w.ItemCreate("e", ip)
			if c.Two {
				w.ItemCreate("f", ip)
			}
		case "ItemSet":
			w.ItemSet("c", ip)
			if c.Two {
				w.ItemSet("d", ip)
			}
		case "RelCreate":
			w.RelCreate("a", "d", rp)
			if c.Two {
				w.RelCreate("d", "d", rp)
			}
		case "RelSet":
			w.RelSet("b", "d", rp)
			if c.Two {
				w.RelSet("c", "c", rp)
			}
		}
	}
	do(s.W)
	if c.Two {
		do(s2.W)
	}
	uni := append([]string{"f"}, isoUni...)
	b1, b2 := fullObs(s.W, uni), fullObs(s2.W, uni)
	for _, p := range []*string{ip.Name, ip.Mechanism, ip.Expanded, ip.Type, rp.Verb, rp.Mechanism, rp.Expanded} {
		if p != nil {
			*p = "spoiled"
		}
	}
	if ip.External != nil {
		*ip.External = false
	}
	if a := fullObs(s.W, uni); a != b1 {
		return fmt.Sprintf("changing the parameters after %s changes the world: %s", c.Op, firstDiff(b1, a))
	}
	if a := fullObs(s2.W, uni); a != b2 {
		return fmt.Sprintf("changing the parameters after %s changes the second world: %s", c.Op, firstDiff(b2, a))
	}
	return ""
}, nil)

func runC18(r *Runner) {
	for _, p := range plainOrders[:pick(r.thorough(), 3, 4)] {
		r.setOrder(p)
		for _, su := range isoSetups {
			if r.done() {
				break
			}
			a, b := isoPair(su)
			k := len(a.names) + len(b.names)
			depth := pick(r.thorough(), 3, 4)
			if p != permIdentity {
				depth--
			}
			n := int64(0)
			feed(r, func(emit func(*isoCase) bool) {
				for d := 0; d <= depth; d++ {
					sequences(k, d, func(s []int) bool {
						n++
						return emit(&isoCase{su, s})
					})
				}
			}, func(slot int, c *isoCase) { evalIso(r, slot, c) })
			r.count("transitions", n)
			r.count("traces_validated_against_impl", n)
			if p == permIdentity {
				r.count("states", n)
				r.note("%s: %d interleavings of up to %d operations on the two", su, n, depth)
			}
		}
		var hc []*handCase
		for s := range handSeeds {
			for g := range getters {
				for o := -1; o < len(isoOps); o++ {
					hc = append(hc, &handCase{s, g, o})
				}
			}
		}
		var ic []*inCase
		for _, op := range []string{"ItemCreate", "ItemSet", "RelCreate", "RelSet"} {
			for bits := 0; bits < 32; bits++ {
				for v := 0; v < 4; v++ {
					ic = append(ic, &inCase{op, bits, v&1 == 1, v&2 == 2})
				}
			}
		}
		r.parallel(len(hc), func(slot, i int) { evalHandOut(r, slot, hc[i]) })
		r.parallel(len(ic), func(slot, i int) { evalHandIn(r, slot, ic[i]) })
		r.count("handed_values", int64(len(hc)+len(ic)))
	}
	r.setOrder(permIdentity)
	r.sample("%v", isoText(&isoCase{"world and its copy", []int{2, 15, 4}}))
}

func init() {
	props["C18"] = &Prop{Level: "model_checking", Run: runC18, Quick: 7 * time.Minute, Thorough: 14 * time.Minute,
		Rule: "every interleaving of operations on two worlds, applications or trees up to the stated length; the one not operated on must stay as it was and both must follow the reference model; every value handed in or out is overwritten and the world compared"}
}
