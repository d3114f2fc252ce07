package main

// C12, C14, C15, C16, C20: commands, queries, undo, history, limits.

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/world"
)

// --- command alphabets ---

var strictFlag = []string{"strict"}

func pairsOf(ids []string) (out [][2]string) {
	for _, a := range ids {
		for _, b := range ids {
			out = append(out, [2]string{a, b})
		}
	}
	return
}

// queryCmds: every read-only command over ids (missing ones may be among them).
func queryCmds(ids []string, limits []int) (out []Cmd) {
	for _, a := range ids {
		out = append(out, Cmd{Res: "item", Verb: "fetch", Id: a}, Cmd{Res: "item", Verb: "exists", Id: a}, Cmd{Res: "item", Verb: "exists", Id: a, Alt: true}, Cmd{Res: "item", Verb: "items-in", Id: a},
			Cmd{Res: "rel", Verb: "to?", Id: a}, Cmd{Res: "rel", Verb: "to?", Id: a, Flags: strictFlag}, Cmd{Res: "rel", Verb: "from?", Id: a}, Cmd{Res: "rel", Verb: "from?", Id: a, Flags: strictFlag})
	}
	for _, p := range pairsOf(ids) {
		out = append(out, Cmd{Res: "item", Verb: "in?", Id: p[0], To: p[1]}, Cmd{Res: "item", Verb: "in?", Id: p[0], To: p[1], Flags: strictFlag},
			Cmd{Res: "rel", Verb: "fetch", Id: p[0], To: p[1]}, Cmd{Res: "rel", Verb: "fetch", Id: p[0], To: p[1], Flags: strictFlag}, Cmd{Res: "rel", Verb: "exists", Id: p[0], To: p[1]}, Cmd{Res: "rel", Verb: "exists", Id: p[0], To: p[1], Alt: true})
	}
	for _, l := range limits {
		out = append(out, Cmd{Res: "item", Verb: "list", Limit: l}, Cmd{Res: "rel", Verb: "list", Limit: l})
	}
	return append(out, Cmd{Res: "world"})
}

var itemParamSets = [][][2]string{
	{{"name", "x"}}, {{"name", "two words"}}, {{"name", ""}}, {{"type", "person"}}, {{"type", "code"}}, {{"external", "true"}}, {{"external", "false"}}, {{"mechanism", "m"}}, {{"expanded", "e"}},
	{{"name", "n"}, {"type", "queue"}, {"external", "true"}, {"mechanism", "m 2"}, {"expanded", "e."}},
}
var itemKeySets = [][]string{{"name"}, {"type"}, {"external"}, {"mechanism"}, {"expanded"}, {"type", "name"}, {"name", "type", "external", "mechanism", "expanded"}}
var relParamSets = [][][2]string{
	{{"verb", "v"}}, {{"verb", "two words"}}, {{"verb", ""}}, {{"mechanism", "m"}}, {{"async", "true"}}, {{"async", "false"}}, {{"expanded", "e"}},
	{{"verb", "w"}, {"mechanism", "m 2"}, {"async", "true"}, {"expanded", "e."}},
}
var relKeySets = [][]string{{"verb"}, {"mechanism"}, {"async"}, {"expanded"}, {"async", "verb"}, {"verb", "mechanism", "async", "expanded"}}

// itemCmds: every command changing one item's existence or attributes.
func itemCmds(id string, params [][][2]string, keys [][]string) (out []Cmd) {
	out = append(out, Cmd{Res: "item", Verb: "create", Id: id}, Cmd{Res: "item", Verb: "create-or-fetch", Id: id}, Cmd{Res: "item", Verb: "delete", Id: id}, Cmd{Res: "item", Verb: "set", Id: id})
	for _, p := range params {
		out = append(out, Cmd{Res: "item", Verb: "create", Id: id, Params: p}, Cmd{Res: "item", Verb: "set", Id: id, Params: p}, Cmd{Res: "item", Verb: "create-or-set", Id: id, Params: p})
	}
	for _, k := range keys {
		out = append(out, Cmd{Res: "item", Verb: "clear", Id: id, Keys: k})
	}
	return
}

func relCmds(f, t string, params [][][2]string, keys [][]string) (out []Cmd) {
	out = append(out, Cmd{Res: "rel", Verb: "create", Id: f, To: t}, Cmd{Res: "rel", Verb: "create-or-fetch", Id: f, To: t}, Cmd{Res: "rel", Verb: "delete", Id: f, To: t}, Cmd{Res: "rel", Verb: "set", Id: f, To: t})
	for _, p := range params {
		out = append(out, Cmd{Res: "rel", Verb: "create", Id: f, To: t, Params: p}, Cmd{Res: "rel", Verb: "set", Id: f, To: t, Params: p}, Cmd{Res: "rel", Verb: "create-or-set", Id: f, To: t, Params: p})
	}
	for _, k := range keys {
		out = append(out, Cmd{Res: "rel", Verb: "clear", Id: f, To: t, Keys: k})
	}
	return
}

// treeCmds: every nest and free naming up to n items.
func treeCmds(ids []string, n int) (out []Cmd) {
	for k := 1; k <= n; k++ {
		sequences(len(ids), k, func(s []int) bool {
			var l []string
			for _, i := range s {
				l = append(l, ids[i])
			}
			out = append(out, Cmd{Res: "item", Verb: "free", Ids: l})
			for _, p := range ids {
				out = append(out, Cmd{Res: "item", Verb: "nest", Ids: l, To: p})
			}
			return true
		})
	}
	return
}

func execs(cs []Cmd) (out []Op) {
	for _, c := range cs {
		out = append(out, ex(c))
	}
	return
}

// family: a grandparent, parent, child and a stranger, related in and across the hierarchy, with every attribute set.
func family() []Op {
	o := chain([]string{"a", "b", "c"})
	full := IP{External: bp(true), Type: sp("queue"), Name: sp("n 1"), Mech: sp("m"), Exp: sp("e")}
	return append(o, create("d"), set("b", full), set("c", IP{Type: sp("code")}),
		relP("b", "d", RP{Verb: sp("v"), Mech: sp("m"), Async: bp(true), Exp: sp("e")}), rel("d", "b"), rel("c", "c"), relP("c", "a", RP{Verb: sp("up")}), rel("a", "b"), rel("d", "c"))
}

// products: from every combination of attribute values of one item (relationship), every command that gives, changes
// or clears any combination of them.
func products() (out []*Cfg) {
	combos := func(vals [][]string, emit func(pick []string)) { // "\x00": not given
		idx := make([]int, len(vals))
		for {
			p := make([]string, len(vals))
			for i, j := range idx {
				p[i] = vals[i][j]
			}
			emit(p)
			i := 0
			for ; i < len(idx); i++ {
				if idx[i]++; idx[i] < len(vals[i]) {
					break
				}
				idx[i] = 0
			}
			if i == len(idx) {
				return
			}
		}
	}
	const not = "\x00"
	build := func(keys []string, given [][]string) (params [][][2]string, clears [][]string) {
		combos(given, func(p []string) {
			var ps [][2]string
			for i, v := range p {
				if v != not {
					ps = append(ps, [2]string{keys[i], v})
				}
			}
			if len(ps) > 0 {
				params = append(params, ps)
			}
		})
		for m := 1; m < 1<<len(keys); m++ {
			var l []string
			for i, k := range keys {
				if m>>i&1 == 1 {
					l = append(l, k)
				}
			}
			clears = append(clears, l)
		}
		return
	}
	other := []Op{createP("o", IP{External: bp(true), Type: sp("device"), Name: sp("O"), Mech: sp("om"), Exp: sp("oe")})}
	params, clears := build([]string{"external", "type", "name", "mechanism", "expanded"}, [][]string{{not, "true", "false"}, {not, "person", "code"}, {not, "", "y"}, {not, "", "k 2"}, {not, "", "f"}})
	cmds := execs(itemCmds("a", params, clears))
	n := 0
	combos([][]string{{"false", "true"}, {"", "person"}, {"", "x"}, {"", "m"}, {"", "e"}}, func(p []string) {
		seed := append([]Op{}, other...)
		seed = append(seed, createP("a", IP{External: bp(p[0] == "true"), Type: sp(p[1]), Name: sp(p[2]), Mech: sp(p[3]), Exp: sp(p[4])}), rel("a", "o"), nest("a", "o"))
		out = append(out, &Cfg{Name: fmt.Sprintf("item-product-%d", n), Seed: seed, Alpha: cmds, Uni: []string{"a", "o"}, Depth: 1})
		n++
	})
	out = append(out, &Cfg{Name: "item-product-missing", Seed: other, Alpha: cmds, Uni: []string{"a", "o"}, Depth: 1})
	rparams, rclears := build([]string{"verb", "mechanism", "async", "expanded"}, [][]string{{not, "", "y"}, {not, "", "k 2"}, {not, "true", "false"}, {not, "", "f"}})
	rcmds := execs(relCmds("a", "o", rparams, rclears))
	n = 0
	rother := append(append([]Op{}, other...), create("a"), relP("o", "a", RP{Verb: sp("ov"), Mech: sp("om"), Async: bp(true), Exp: sp("oe")}))
	combos([][]string{{"", "x"}, {"", "m"}, {"false", "true"}, {"", "e"}}, func(p []string) {
		seed := append([]Op{}, rother...)
		seed = append(seed, relP("a", "o", RP{Verb: sp(p[0]), Mech: sp(p[1]), Async: bp(p[2] == "true"), Exp: sp(p[3])}))
		out = append(out, &Cfg{Name: fmt.Sprintf("rel-product-%d", n), Seed: seed, Alpha: rcmds, Uni: []string{"a", "o"}, Depth: 1})
		n++
	})
	out = append(out, &Cfg{Name: "rel-product-missing", Seed: rother, Alpha: rcmds, Uni: []string{"a", "o"}, Depth: 1})
	// Every type to every type.
	var types []Op
	for _, t := range typeNames[1:] {
		types = append(types, ex(Cmd{Res: "item", Verb: "set", Id: "a", Params: [][2]string{{"type", t}}}), ex(Cmd{Res: "item", Verb: "create-or-set", Id: "a", Params: [][2]string{{"type", t}}}), ex(Cmd{Res: "item", Verb: "create", Id: "b", Params: [][2]string{{"type", t}}}))
	}
	types = append(types, ex(Cmd{Res: "item", Verb: "clear", Id: "a", Keys: []string{"type"}}), ex(Cmd{Res: "item", Verb: "delete", Id: "a"}), ex(Cmd{Res: "item", Verb: "delete", Id: "b"}))
	out = append(out, &Cfg{Name: "types", Seed: creates("a"), Alpha: types, Uni: []string{"a", "b"}, Depth: 2})
	return
}

// --- C12 ---

// judgeReply compares the reply to c with what the model answers; post is the world after the command.
func judgeReply(c Cmd, reply string, ans Answer, post *M) string {
	r, err := readReply(reply)
	if err != nil {
		return fmt.Sprintf("the reply cannot be read (%v): %s", err, clip(reply, 300))
	}
	bad := func(f string, a ...any) string {
		return fmt.Sprintf(f, a...) + "; the reply is " + clip(reply, 400)
	}
	switch ans.Err {
	case eNone:
		if r.Code != 200 {
			return bad("should succeed")
		}
	case eEither:
		if r.Code != 200 {
			return ""
		}
	default:
		if r.Code == 200 {
			return bad("should answer with an error")
		}
		if r.Code < 400 {
			return bad("the code is not an error code")
		}
		return ""
	}
	itemOk := func(t TItem) string {
		want, ok := post.Items[t.Id]
		if !ok {
			return bad("shows item %q, which does not exist", t.Id)
		}
		if t.A != want {
			return bad("shows item %q as %s, its attributes are %s", t.Id, t.A, want)
		}
		return ""
	}
	relOk := func(t TRel) string {
		want, ok := post.Rels[t.K]
		if !ok {
			return bad("shows relationship %q -> %q, which does not exist", t.K.F, t.K.T)
		}
		if t.A != want {
			return bad("shows relationship %q -> %q as %s, it is %s", t.K.F, t.K.T, t.A, want)
		}
		return ""
	}
	switch ans.Kind {
	case "world":
		if r.Kind != "world" || r.World == nil {
			return bad("should show the world")
		}
		m, err := r.World.toModel()
		if err != nil {
			return bad("the world shown is inconsistent: %v", err)
		}
		if d := diffM(post, m, aAll); d != "" {
			return bad("the world shown differs: %s", d)
		}
	case "item":
		if r.Kind != "items" || len(r.Items) != 1 || r.Items[0].Id != ans.Item {
			return bad("should show exactly the item %q", ans.Item)
		}
		return itemOk(r.Items[0])
	case "rel":
		if r.Kind != "rels" || len(r.Rels) != 1 || r.Rels[0].K != ans.Rel {
			return bad("should show exactly the relationship %q -> %q", ans.Rel.F, ans.Rel.T)
		}
		return relOk(r.Rels[0])
	case "bool":
		if r.Kind != "bool" || len(r.Bools) != 1 {
			return bad("should answer true or false")
		}
		if !ans.NoBool && r.Bools[0] != ans.Bool {
			return bad("should answer %t", ans.Bool)
		}
	case "items":
		if r.Kind != "items" && !(r.Kind == "none" && ans.Count == 0) {
			return bad("should list %d items", ans.Count)
		}
		if len(r.Items) != ans.Count {
			return bad("lists %d items, should list %d", len(r.Items), ans.Count)
		}
		seen := map[string]bool{}
		for _, t := range r.Items {
			if seen[t.Id] {
				return bad("lists item %q twice", t.Id)
			}
			seen[t.Id] = true
			if !contains(ans.Items, t.Id) {
				return bad("lists item %q, which was not asked for", t.Id)
			}
			if m := itemOk(t); m != "" {
				return m
			}
		}
	case "rels", "anyrel":
		if r.Kind != "rels" && !(r.Kind == "none" && ans.Count == 0) {
			return bad("should list %d relationships", ans.Count)
		}
		if len(r.Rels) != ans.Count {
			return bad("lists %d relationships, should list %d", len(r.Rels), ans.Count)
		}
		seen := map[RKey]bool{}
		for _, t := range r.Rels {
			if seen[t.K] {
				return bad("lists relationship %q -> %q twice", t.K.F, t.K.T)
			}
			seen[t.K] = true
			if !contains(ans.Rels, t.K) {
				return bad("lists relationship %q -> %q, which was not asked for", t.K.F, t.K.T)
			}
			if m := relOk(t); m != "" {
				return m
			}
		}
	case "none": // nothing, or an empty resource
		switch {
		case r.Kind == "none":
		case r.Kind == "items" && len(r.Items) == 1 && r.Items[0].Id == "":
		case r.Kind == "rels" && len(r.Rels) == 1 && r.Rels[0].K == RKey{}:
		default:
			return bad("should show no resource")
		}
	}
	return ""
}

func contains[T comparable](l []T, x T) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func c12(x *Step) string {
	if x.Pre == nil {
		return ""
	}
	if x.Bad != "" {
		return x.where() + ": the world is broken: " + x.Bad
	}
	want := x.Pre.Clone()
	_, ans := want.step(x.Op)
	if d := diffM(want, x.Post, aAll); d != "" {
		return x.where() + ": " + d
	}
	if x.Op.K == "Exec" {
		if m := judgeReply(*x.Op.Cmd, x.Out.Reply, ans, x.Post); m != "" {
			return x.where() + ": " + m
		}
	}
	return ""
}

func c12Cfgs(tier string) []*Cfg {
	th := tier == "thorough"
	ab := []string{"a", "b"}
	// Every command of the table over one and two items (and a missing one), from the empty world.
	var attr []Cmd
	attr = append(attr, itemCmds("a", itemParamSets, itemKeySets)...)
	attr = append(attr, queryCmds([]string{"a"}, nil)...)
	var two []Cmd
	for _, i := range ab {
		two = append(two, itemCmds(i, itemParamSets[:1], itemKeySets[:1])...)
	}
	two = append(two, relCmds("a", "b", relParamSets, relKeySets)...)
	two = append(two, relCmds("b", "a", relParamSets[:1], relKeySets[:1])...)
	two = append(two, relCmds("a", "a", relParamSets[:1], nil)...)
	two = append(two, treeCmds(ab, 2)...)
	two = append(two, queryCmds([]string{"a", "b"}, []int{0, -1, 1, 2})...)
	// From a family: every tree move with missing items among those named, everything on every pair.
	fam := []string{"a", "b", "c", "d"}
	var all []Cmd
	for _, i := range fam {
		all = append(all, itemCmds(i, itemParamSets[:4], itemKeySets[:2])...)
	}
	for _, p := range pairsOf(fam) {
		all = append(all, relCmds(p[0], p[1], relParamSets[:1], relKeySets[:1])...)
	}
	all = append(all, treeCmds([]string{"a", "b", "c", "d", "zz"}, 2)...)
	all = append(all, queryCmds([]string{"a", "b", "c", "d", "zz", ""}, []int{0, -1, 1, 3, 4, 6, 7, 1<<63 - 1})...)
	all = append(all, itemCmds("zz", itemParamSets[:2], itemKeySets[:2])...)
	all = append(all, itemCmds("", itemParamSets[:1], itemKeySets[:1])...)
	for _, p := range [][2]string{{"a", "zz"}, {"zz", "a"}, {"zz", "zz"}, {"", "a"}, {"a", ""}} {
		all = append(all, relCmds(p[0], p[1], relParamSets[:1], relKeySets[:1])...)
	}
	// Identifiers and values that mean something in the grammar.
	odd := []string{"item", "in", "a b", "nil"}
	var oddc []Cmd
	for _, i := range odd {
		oddc = append(oddc, Cmd{Res: "item", Verb: "create", Id: i, Params: [][2]string{{"name", "name=x"}}}, Cmd{Res: "item", Verb: "set", Id: i, Params: [][2]string{{"expanded", "in item $$ ::["}}}, Cmd{Res: "item", Verb: "delete", Id: i})
	}
	oddc = append(oddc, treeCmds(odd[:3], 2)...)
	oddc = append(oddc, queryCmds(odd[:3], []int{1})...)
	oddc = append(oddc, relCmds("in", "a b", [][][2]string{{{"verb", "async=true"}}}, relKeySets[:1])...)
	// Nothing merged: what the application remembers of earlier commands must not matter either.
	unmerged := []Cmd{
		{Res: "item", Verb: "create", Id: "a"}, {Res: "item", Verb: "create-or-set", Id: "b", Params: [][2]string{{"name", "x"}}}, {Res: "item", Verb: "set", Id: "a", Params: [][2]string{{"type", "code"}}}, {Res: "item", Verb: "clear", Id: "a", Keys: []string{"type"}},
		{Res: "item", Verb: "fetch", Id: "a"}, {Res: "item", Verb: "list"}, {Res: "item", Verb: "list", Limit: 1}, {Res: "item", Verb: "exists", Id: "a"}, {Res: "item", Verb: "items-in", Id: "b"}, {Res: "item", Verb: "delete", Id: "a"}, {Res: "item", Verb: "delete", Id: "b"},
		{Res: "item", Verb: "nest", Ids: []string{"a"}, To: "b"}, {Res: "item", Verb: "nest", Ids: []string{"b", "a"}, To: "a"}, {Res: "item", Verb: "free", Ids: []string{"a", "b"}}, {Res: "item", Verb: "in?", Id: "a", To: "b"},
		{Res: "rel", Verb: "create", Id: "a", To: "b"}, {Res: "rel", Verb: "create-or-set", Id: "a", To: "b", Params: [][2]string{{"verb", "v"}}}, {Res: "rel", Verb: "fetch", Id: "a", To: "b"}, {Res: "rel", Verb: "fetch", Id: "a", To: "b", Flags: strictFlag}, {Res: "rel", Verb: "to?", Id: "b"}, {Res: "rel", Verb: "list"}, {Res: "rel", Verb: "delete", Id: "a", To: "b"}, {Res: "world"},
	}
	cs := []*Cfg{
		{Name: "one-item", Alpha: execs(attr), Uni: []string{"a"}, Depth: pick(th, 4, 0)},
		{Name: "two-items", Alpha: execs(two), Uni: ab, Depth: pick(th, 4, 6)},
		{Name: "family", Seed: family(), Alpha: execs(all), Uni: append(fam, "zz"), Depth: pick(th, 2, 3)},
		{Name: "family-moves", Seed: family(), Alpha: append(execs(treeCmds([]string{"a", "b", "c", "d", "zz"}, 2)), execs([]Cmd{{Res: "item", Verb: "delete", Id: "b"}, {Res: "item", Verb: "delete", Id: "a"}, {Res: "world"}, {Res: "item", Verb: "items-in", Id: "a"}, {Res: "rel", Verb: "to?", Id: "a"}, {Res: "rel", Verb: "from?", Id: "a"}, {Res: "rel", Verb: "list"}})...), Uni: append(fam, "zz"), Depth: pick(th, 3, 4)},
		{Name: "unmerged", Alpha: execs(unmerged), Uni: ab, App: true, Depth: pick(th, 3, 4)},
		{Name: "three-movers", Seed: creates("a", "b", "c"), Alpha: execs(treeCmds([]string{"a", "b", "c"}, 3)), Uni: letters(3)},
		{Name: "odd-text", Seed: creates("a b", "in"), Alpha: execs(oddc), Uni: odd, Depth: pick(th, 2, 3)},
	}
	return append(append(cs, products()...), shapeCmdCfgs(th)...)
}

// --- C14 ---

// apiQueries: every read-only request of the world's interface, for ids.
type apiQuery struct {
	name string
	run  func(w world.World)
}

func apiQueries(ids []string) (out []apiQuery) {
	add := func(name string, f func(w world.World)) { out = append(out, apiQuery{name, f}) }
	for _, a := range ids {
		add("ItemFetch("+q(a)+")", func(w world.World) { w.ItemFetch(a) })
		add("Parent("+q(a)+")", func(w world.World) { w.Parent(a) })
		add("Components("+q(a)+")", func(w world.World) { w.Components(a) })
		add("ItemParent("+q(a)+")", func(w world.World) { w.ItemParent(a) })
		add("ItemComponents("+q(a)+")", func(w world.World) { w.ItemComponents(a) })
		for _, s := range []bool{false, true} {
			add(fmt.Sprintf("RelTo(%q, %t)", a, s), func(w world.World) { w.RelTo(a, s) })
			add(fmt.Sprintf("RelFrom(%q, %t)", a, s), func(w world.World) { w.RelFrom(a, s) })
			for _, b := range ids {
				add(fmt.Sprintf("In(%q, %q, %t)", a, b, s), func(w world.World) { w.In(a, b, s) })
				add(fmt.Sprintf("RelFetch(%q, %q, %t)", a, b, s), func(w world.World) { w.RelFetch(a, b, s) })
			}
		}
	}
	for _, k := range []int{0, 1, 2, 100} {
		add(fmt.Sprintf("ItemList(%d)", k), func(w world.World) { w.ItemList(k) })
		add(fmt.Sprintf("RelList(%d)", k), func(w world.World) { w.RelList(k) })
	}
	add("String()", func(w world.World) { _ = w.String() })
	add("Err()", func(w world.World) { _ = w.Err() })
	add("Version/Id/Name/Expanded", func(w world.World) { _, _, _, _ = w.Version(), w.Id(), w.Name(), w.Expanded() })
	add("WorldEqual(w, w)", func(w world.World) { world.WorldEqual(w, w) })
	return
}

// singleOps: operations on a single resource, as commands: one that reports an error must change nothing.
func isSingle(o Op) bool {
	switch o.K {
	case "Reload", "Undo", "AppUndo", "AppRedo":
		return false
	case "Exec":
		return (o.Cmd.Verb != "nest" && o.Cmd.Verb != "free") || len(o.Cmd.Ids) == 1
	}
	return true
}

func stepFailed(x *Step) bool {
	if x.Op.K == "Exec" {
		r, err := readReply(x.Out.Reply)
		return err != nil || r.Code != 200
	}
	return x.Out.Err != nil
}

func c14(x *Step) string {
	if x.Bad != "" {
		return ""
	}
	uni := x.Cfg.Uni
	// 1. A refused operation on a single resource changes nothing, and a read-only command changes nothing.
	if x.Pre != nil {
		failed := stepFailed(x)
		ro := x.Op.K == "Exec" && !x.Op.Cmd.mutates()
		if ro || failed && isSingle(x.Op) {
			before := fullObs(x.Cfg.at(x.Path[:len(x.Path)-1]).W, uni)
			if after := fullObs(x.Cfg.rawAt(x.Path).W, uni); before != after {
				why := "reports an error but changes the world"
				if ro {
					why = "is read-only but changes the world"
				}
				return x.where() + ": " + x.Op.String() + " " + why + ": " + firstDiff(before, after)
			}
		}
		// 2. An error belongs to the operation that failed: the next successful one reports none.
		if failed {
			for _, o := range x.Cfg.Ok {
				s := x.Cfg.rawAt(x.Path)
				s.W.ItemCreate("ok", world.ItemParams{}) // not an error by itself
				if err := s.W.Err(); err != nil {
					return x.where() + ": then creating a new item reports " + err.Error()
				}
				s = x.Cfg.rawAt(x.Path)
				if o.K != "" {
					out := s.apply(o)
					if m, bad := abstract(s.W, uni); bad == "" {
						_ = m
					}
					want := x.Post.Clone()
					res, ans := want.step(o)
					switch {
					case o.K == "Exec":
						if ans.Err == eNone {
							if r, err := readReply(out.Reply); err != nil || r.Code != 200 {
								return x.where() + ": then " + o.String() + " answers " + clip(out.Reply, 200)
							}
						}
					case res.Err == eNone && out.Err != nil:
						return x.where() + ": then " + o.String() + " reports the error " + out.Err.Error()
					}
				}
			}
			for _, qy := range apiQueries(uni) {
				if strings.HasPrefix(qy.name, "String") || strings.HasPrefix(qy.name, "Err") || strings.HasPrefix(qy.name, "Version") || strings.HasPrefix(qy.name, "WorldEqual") {
					continue // not operations of the world
				}
				s := x.Cfg.rawAt(x.Path)
				qy.run(s.W)
				if err := s.W.Err(); err != nil && queryFinds(x.Post, qy.name) {
					return x.where() + ": then " + qy.name + " succeeds but Err() reports " + err.Error()
				}
			}
		}
	}
	// 3. Read-only requests change nothing: each alone, in this state.
	s := x.Cfg.rawAt(x.Path)
	before := fullObs(s.W, uni)
	for _, qy := range apiQueries(uni) {
		s := x.Cfg.rawAt(x.Path)
		qy.run(s.W)
		if after := fullObs(s.W, uni); after != before {
			return x.where() + ": " + qy.name + " changes the world: " + firstDiff(before, after)
		}
	}
	return ""
}

// queryFinds: only requests whose named items exist count as successful.
func queryFinds(m *M, name string) bool {
	for i, p := range strings.Split(name, `"`) {
		if i%2 == 1 {
			if _, ok := m.Items[p]; !ok {
				return false
			}
		}
	}
	return true
}

func (c *Cfg) rawAt(path []int) *Sut {
	if len(path) == 0 {
		return c.fresh()
	}
	s := c.at(path[:len(path)-1])
	s.apply(c.Alpha[path[len(path)-1]])
	return s
}

func c14Cfgs(tier string) []*Cfg {
	th := tier == "thorough"
	uni := []string{"a", "b", "zz", ""}
	ok := []Op{create("a"), set("a", IP{Name: sp("x")}), del("b"), rel("a", "a"), relSet("a", "b", RP{}), relDel("a", "b"), nest("a", "b"), free("a"), ex(Cmd{Res: "item", Verb: "fetch", Id: "a"}), ex(Cmd{Res: "item", Verb: "list"})}
	world1 := []Op{
		createP("a", IP{Name: sp("x")}), create("b"), create(""), createP("a", IP{Type: sp("bogus")}), createP("c", IP{Type: sp("bogus"), Name: sp("y")}), createP("a", IP{Name: sp("y"), Mech: sp("m")}),
		set("a", IP{Type: sp("bogus"), Name: sp("z")}), set("zz", IP{Name: sp("z")}), set("", IP{}), set("b", IP{Type: sp("code")}),
		nest("a", "b"), nest("b", "a"), nest("a", "zz"), nest("zz", "a"), nest("a", ""), nest("a", "a"), free("a"), free("zz"), del("a"), del(""), del("zz"),
		rel("a", "b"), rel("a", "zz"), rel("zz", "b"), relP("a", "b", RP{Verb: sp("v"), Async: bp(true)}), relP("a", "b", RP{Verb: sp("w")}), relSet("a", "b", RP{Exp: sp("e")}), relSet("b", "a", RP{Exp: sp("e")}), relDel("a", "b"), relDel("zz", "a"),
	}
	var cmds []Cmd
	cmds = append(cmds, queryCmds([]string{"a", "c", "zz"}, []int{0, 1})...)
	cmds = append(cmds, itemCmds("zz", itemParamSets[:1], itemKeySets[:1])[2:]...)
	cmds = append(cmds, relCmds("a", "zz", relParamSets[:1], relKeySets[:1])...)
	cmds = append(cmds, relCmds("c", "a", relParamSets[:1], relKeySets[:1])...)
	cmds = append(cmds, relCmds("b", "c", relParamSets[:1], relKeySets[:1])...)
	cmds = append(cmds, treeCmds([]string{"a", "c", "zz"}, 1)...)
	cmds = append(cmds, itemCmds("b", itemParamSets[3:4], itemKeySets[1:2])...)
	cmds = append(cmds, Cmd{Res: "item", Verb: "create", Id: ""}, Cmd{Res: "item", Verb: "delete", Id: ""})
	return append(shapeFailCfgs(th), []*Cfg{
		{Name: "world", Alpha: world1, Uni: uni, Depth: pick(th, 3, 4), Ok: ok},
		{Name: "commands", Seed: family(), Alpha: execs(cmds), Uni: []string{"a", "b", "c", "d", "zz"}, Depth: pick(th, 1, 2), Ok: ok},
	}...)
}

// --- C15 ---

func undoLast(s *Sut, viaApp bool) error {
	if viaApp {
		err, _ := appUndo(s.App)
		return err
	}
	h := s.App.History()
	if len(h) == 0 {
		return fmt.Errorf("the history is empty after a command")
	}
	return h[len(h)-1].Undo(s.W)
}

func c15(x *Step) string {
	if x.Pre == nil || x.Op.K != "Exec" || x.Bad != "" {
		return ""
	}
	before := ""
	for _, via := range []bool{false, true} {
		if via && !haveHooks {
			continue
		}
		s := x.Cfg.at(x.Path[:len(x.Path)-1])
		if before == "" {
			before = fullObs(s.W, x.Cfg.Uni)
			s = x.Cfg.at(x.Path[:len(x.Path)-1])
		}
		s.apply(x.Op)
		if len(s.App.History()) == 0 {
			return x.where() + ": the command is not in the history"
		}
		if err := undoLast(s, via); err != nil {
			return fmt.Sprintf("%s: undoing %q reports %v", x.where(), x.Op.Cmd.Text(), err)
		}
		if after := fullObs(s.W, x.Cfg.Uni); before != after {
			return fmt.Sprintf("%s: undoing %q does not restore the world: %s", x.where(), x.Op.Cmd.Text(), firstDiff(before, after))
		}
	}
	return ""
}

func c15Cfgs(tier string) []*Cfg {
	cs := c12Cfgs(tier)
	th := tier == "thorough"
	var out []*Cfg
	for _, c := range cs {
		switch c.Name {
		case "two-items":
			c.Depth = pick(th, 3, 4)
		case "family":
			c.Depth = 2
		case "family-moves":
			c.Depth = pick(th, 2, 3)
		case "one-item":
			c.Depth = pick(th, 3, 4)
		case "unmerged":
			continue
		}
		out = append(out, c)
	}
	// Everything undone from inside deep hierarchies.
	ch := letters(5)
	var mv []Cmd
	for _, i := range ch {
		mv = append(mv, Cmd{Res: "item", Verb: "delete", Id: i}, Cmd{Res: "item", Verb: "free", Ids: []string{i}})
		for _, j := range ch {
			mv = append(mv, Cmd{Res: "item", Verb: "nest", Ids: []string{i}, To: j}, Cmd{Res: "item", Verb: "nest", Ids: []string{i, j}, To: "c"}, Cmd{Res: "item", Verb: "nest", Ids: []string{i, j}, To: "a"}, Cmd{Res: "item", Verb: "free", Ids: []string{i, j}})
		}
	}
	seed := append(chain(ch), rel("a", "e"), rel("e", "a"), rel("c", "c"), relP("c", "b", RP{Verb: sp("v")}), rel("d", "c"), set("c", IP{Type: sp("server"), External: bp(true)}))
	out = append(out, &Cfg{Name: "deep", Seed: seed, Alpha: execs(mv), Uni: ch, Depth: pick(th, 2, 3)})
	return out
}

// --- C16 ---

type histCase struct {
	Seed  int   `json:"seed"`
	Alpha int   `json:"alpha"`
	Base  []Op  `json:"base,omitempty"` // instead of a seed and an alphabet
	Cmds  []Cmd `json:"cmds,omitempty"`
	Steps []int `json:"steps"` // index into the alphabet; len(alphabet): undo; +1: redo

	pruned bool
}

func (c *histCase) al() []Cmd {
	if c.Cmds != nil {
		return c.Cmds
	}
	return histAlphas[c.Alpha]
}

func (c *histCase) base() []Op {
	if c.Cmds != nil {
		return c.Base
	}
	return histSeeds[c.Seed]
}

var histSeeds = [][]Op{nil, family()}

// histAlphas: successful commands whose effects interact.
var histAlphas = [][]Cmd{
	{
		{Res: "item", Verb: "create", Id: "a"},
		{Res: "item", Verb: "create-or-set", Id: "a", Params: [][2]string{{"name", "x"}}},
		{Res: "item", Verb: "create-or-fetch", Id: "b"},
		{Res: "item", Verb: "delete", Id: "a"},
		{Res: "item", Verb: "nest", Ids: []string{"a"}, To: "b"},
		{Res: "rel", Verb: "create-or-set", Id: "a", To: "b", Params: [][2]string{{"verb", "v"}}},
	},
	{
		{Res: "item", Verb: "delete", Id: "b"},
		{Res: "item", Verb: "nest", Ids: []string{"c", "d"}, To: "a"},
		{Res: "item", Verb: "free", Ids: []string{"b", "c"}},
		{Res: "item", Verb: "set", Id: "b", Params: [][2]string{{"name", "y"}, {"type", "person"}}},
		{Res: "rel", Verb: "delete", Id: "b", To: "d"},
		{Res: "item", Verb: "list", Limit: 2},
	},
	{
		{Res: "item", Verb: "clear", Id: "b", Keys: []string{"type", "name"}},
		{Res: "rel", Verb: "set", Id: "b", To: "d", Params: [][2]string{{"verb", "w"}, {"async", "false"}}},
		{Res: "rel", Verb: "clear", Id: "b", To: "d", Keys: []string{"async", "mechanism"}},
		{Res: "rel", Verb: "create", Id: "b", To: "a"},
		{Res: "rel", Verb: "create-or-fetch", Id: "d", To: "d"},
		{Res: "item", Verb: "create-or-set", Id: "d", Params: [][2]string{{"external", "true"}}},
	},
	{
		{Res: "item", Verb: "create", Id: "a"},
		{Res: "item", Verb: "create", Id: "e", Params: [][2]string{{"name", "new"}}},
		{Res: "item", Verb: "nest", Ids: []string{"e"}, To: "c"},
		{Res: "item", Verb: "delete", Id: "c"},
		{Res: "item", Verb: "free", Ids: []string{"a", "b", "e"}},
		{Res: "rel", Verb: "create", Id: "e", To: "e"},
		{Res: "rel", Verb: "exists", Id: "a", To: "b"},
	},
}

var histSeedOf = []int{0, 1, 1, 1}
var histUni = []string{"a", "b", "c", "d", "e"}

func histText(c *histCase) (out []string) {
	al := c.al()
	out = opStrings(c.base())
	for _, i := range c.Steps {
		switch {
		case i < len(al):
			out = append(out, "Exec("+q(al[i].Text())+")")
		case i == len(al):
			out = append(out, "undo")
		default:
			out = append(out, "redo")
		}
	}
	return
}

// runHist runs the steps; the second result is true when the sequence left the space of the property (a command failed).
func runHist(c *histCase) (msg string, pruned bool) {
	al := c.al()
	s := build(c.base())
	var cur []int // the history the application must have
	idx := 0
	where := func() string { return strings.Join(histText(c), "; ") }
	for n, i := range c.Steps {
		switch {
		case i < len(al):
			out := s.apply(ex(al[i]))
			r, err := readReply(out.Reply)
			if err != nil || r.Code != 200 {
				return "", true
			}
			cur = append(cur[:idx:idx], i)
			idx++
		case i == len(al):
			err, _ := appUndo(s.App)
			if err != nil {
				return where() + ": undo reports " + err.Error(), false
			}
			if idx > 0 {
				idx--
			}
		default:
			err, _ := appRedo(s.App)
			if err != nil {
				return where() + ": redo reports " + err.Error(), false
			}
			if idx < len(cur) {
				idx++
			}
		}
		if n < len(c.Steps)-1 {
			continue // judged as its own, shorter case
		}
		if s.App.CanUndo() != (idx > 0) {
			return fmt.Sprintf("%s: CanUndo answers %t with %d commands to undo", where(), s.App.CanUndo(), idx), false
		}
		if s.App.CanRedo() != (idx < len(cur)) {
			return fmt.Sprintf("%s: CanRedo answers %t with %d commands to redo", where(), s.App.CanRedo(), len(cur)-idx), false
		}
		h := s.App.History()
		if len(h) != idx {
			return fmt.Sprintf("%s: the history holds %d commands, should hold %d", where(), len(h), idx), false
		}
		ref := build(c.base())
		for k := 0; k < idx; k++ {
			if t := al[cur[k]].Text(); h[k].String() != t {
				return fmt.Sprintf("%s: command %d in the history is %q, should be %q", where(), k, h[k].String(), t), false
			}
			ref.apply(ex(al[cur[k]]))
		}
		if a, b := fullObs(ref.W, histUni), fullObs(s.W, histUni); a != b {
			return fmt.Sprintf("%s: the world differs from running just the history's commands: %s", where(), strings.Replace(strings.Replace(firstDiff(a, b), "before:", "should be:", 1), "after:", "is:", 1)), false
		}
	}
	return "", false
}

var evalHist = kind("history", func(tier string, c *histCase) string {
	m, pruned := runHist(c)
	c.pruned = pruned
	return m
}, func(tier string, c *histCase) []string { return histText(c) })

func runC16(r *Runner) {
	if !haveHooks {
		r.note("the tree does not build with the verif hooks: undo and redo cannot be reached")
		r.mu.Lock()
		r.res.Exhaustive = false
		r.mu.Unlock()
		return
	}
	for _, p := range plainOrders {
		r.setOrder(p)
		depth := pick(r.thorough(), 5, 6)
		if p != permIdentity {
			depth = 4
		}
		for a := range histAlphas {
			k := len(histAlphas[a]) + 2
			// Breadth first, so that a sequence that left the space is not extended.
			level := []*histCase{{Seed: histSeedOf[a], Alpha: a}}
			for d := 1; d <= depth && !r.done(); d++ {
				next := make([]*histCase, len(level)*k)
				r.parallel(len(next), func(slot, i int) {
					b := level[i/k]
					c := &histCase{Seed: b.Seed, Alpha: a, Steps: append(append([]int{}, b.Steps...), i%k)}
					if evalHist(r, slot, c) && !c.pruned {
						next[i] = c
					}
					r.count("traces_validated_against_impl", 1)
				})
				level = level[:0]
				for _, c := range next {
					if c != nil {
						level = append(level, c)
					}
				}
				if p == permIdentity {
					r.count("states", int64(len(level)))
					r.count("transitions", int64(len(next)))
				}
			}
			if p == permIdentity && len(level) > 0 {
				r.sample("%s", strings.Join(histText(level[len(level)/2]), "; "))
				r.note("alphabet %d: %d mixes of executing, undoing and redoing of length %d", a, len(level), depth)
			}
		}
	}
	// Long walks: n commands, undo all, redo all, in every split point, each state compared.
	r.setOrder(permIdentity)
	for a := range histAlphas {
		k := len(histAlphas[a])
		var ok []int
		for i := 0; i < k*3; i++ { // the longest run of commands that succeed
			try := append(append([]int{}, ok...), i%k)
			if _, pruned := runHist(&histCase{Seed: histSeedOf[a], Alpha: a, Steps: try}); !pruned {
				ok = try
			}
		}
		var cases []*histCase
		for u := 0; u <= len(ok)+1; u++ {
			for d := 0; d <= u+1; d++ {
				for extra := 0; extra < k+1; extra++ {
					st := append([]int{}, ok...)
					for i := 0; i < u; i++ {
						st = append(st, k)
					}
					for i := 0; i < d; i++ {
						st = append(st, k+1)
					}
					if extra < k {
						st = append(st, extra)
					}
					cases = append(cases, &histCase{Seed: histSeedOf[a], Alpha: a, Steps: st})
				}
			}
		}
		r.parallel(len(cases), func(slot, i int) {
			evalHist(r, slot, cases[i])
			r.count("long_walks", 1)
		})
	}
	// Every pair of changes at every shape: executed, taken back one by one, repeated one by one, each state compared.
	var pairs []*histCase
	for _, n := range []int{3, 4} {
		if n == 4 && !r.thorough() {
			break
		}
		ids := letters(n)
		for _, par := range shapes(n) {
			base := shapeSeed(par, ids, 0)
			for i, id := range ids {
				base = append(base, set(id, IP{Name: sp("name " + id)}), relP(id, ids[(i+1)%n], RP{Verb: sp("v " + id)}))
			}
			cmds := treeCmds(ids, 2)
			for _, id := range ids {
				cmds = append(cmds, Cmd{Res: "item", Verb: "delete", Id: id}, Cmd{Res: "item", Verb: "create-or-set", Id: id, Params: [][2]string{{"type", "queue"}}}, Cmd{Res: "rel", Verb: "create-or-set", Id: id, To: ids[0], Params: [][2]string{{"mechanism", "m"}}}, Cmd{Res: "rel", Verb: "delete", Id: id, To: ids[1]})
			}
			for _, a := range cmds {
				for _, b := range cmds {
					for _, st := range [][]int{{0, 1, 2}, {0, 1, 2, 2}, {0, 1, 2, 3}, {0, 1, 2, 2, 3}, {0, 1, 2, 2, 3, 3}, {0, 2, 3}, {0, 2, 1}} {
						pairs = append(pairs, &histCase{Base: base, Cmds: []Cmd{a, b}, Steps: st})
					}
				}
			}
		}
	}
	r.parallel(len(pairs), func(slot, i int) {
		evalHist(r, slot, pairs[i])
		r.count("traces_validated_against_impl", 1)
	})
	r.count("states", int64(len(pairs)))
	r.count("transitions", int64(len(pairs)))
	r.note("%d walks over every pair of changes at every shape", len(pairs))
	long := longHistories(r.thorough())
	r.parallel(len(long), func(slot, i int) {
		evalHist(r, slot, long[i])
		r.count("traces_validated_against_impl", 1)
		r.count("long_walks", 1)
	})
	r.note("%d walks through histories of up to %d commands", len(long), len(long[len(long)-1].Cmds)-1)
}

// --- C20 ---

type limitCase struct {
	Items int    `json:"items"`
	Rels  int    `json:"rels"`
	After string `json:"after"` // deletes, reload, nested
	K     int    `json:"limit"`
}

func (c *limitCase) ops() []Op {
	ids := numbered("i", c.Items+2)
	o := creates(ids...)
	n := 0
	for i := 0; i < len(ids)-2 && n < c.Rels; i++ {
		for j := 0; j < len(ids)-2 && n < c.Rels; j++ {
			o = append(o, relP(ids[i], ids[j], RP{Verb: sp(fmt.Sprint("v", n))}))
			n++
		}
	}
	o = append(o, rel(ids[0], ids[c.Items]), del(ids[c.Items]), del(ids[c.Items+1]))
	if c.Items > 2 {
		o = append(o, set(ids[1], IP{Name: sp("n")}), relSet(ids[0], ids[0], RP{Exp: sp("e")}))
	}
	switch c.After {
	case "reload":
		o = append(o, Op{K: "Reload"})
	case "nested":
		for i := 1; i < c.Items; i++ {
			o = append(o, nest(ids[i], ids[i-1]))
		}
	}
	return o
}

func limitMsg(c *limitCase) string {
	s := build(c.ops())
	uni := numbered("i", c.Items+2)
	m, bad := abstract(s.W, uni)
	if bad != "" {
		return ""
	}
	nRel := len(m.Rels)
	if len(m.Items) != c.Items {
		return "" // other properties
	}
	want := func(n int) int {
		if c.K > 0 && c.K < n {
			return c.K
		}
		return n
	}
	its := s.W.ItemList(c.K)
	if len(its) != want(c.Items) {
		return fmt.Sprintf("ItemList(%d) returns %d of %d items", c.K, len(its), c.Items)
	}
	seen := map[string]bool{}
	for _, it := range its {
		a, ok := m.Items[it.Id]
		if !ok || seen[it.Id] {
			return fmt.Sprintf("ItemList(%d) returns item %q, which does not exist or was returned already", c.K, it.Id)
		}
		seen[it.Id] = true
		if iattr(it) != a {
			return fmt.Sprintf("ItemList(%d) returns item %q as %s, it is %s", c.K, it.Id, attrStr(iattr(it)), a)
		}
	}
	rls := s.W.RelList(c.K)
	if len(rls) != want(nRel) {
		return fmt.Sprintf("RelList(%d) returns %d of %d relationships", c.K, len(rls), nRel)
	}
	seenR := map[RKey]bool{}
	for _, rl := range rls {
		k := RKey{rl.From.Id, rl.To.Id}
		a, ok := m.Rels[k]
		if !ok || seenR[k] {
			return fmt.Sprintf("RelList(%d) returns relationship %q -> %q, which does not exist or was returned already", c.K, k.F, k.T)
		}
		seenR[k] = true
		if rattr(rl) != a {
			return fmt.Sprintf("RelList(%d) returns relationship %q -> %q as %s, it is %s", c.K, k.F, k.T, rattr(rl), a)
		}
	}
	ks := []int{c.K}
	if c.K == 0 {
		ks = []int{0, -1} // not written, written as 0
	}
	for _, k := range ks {
		for _, res := range []string{"item", "rel"} {
			cmd := Cmd{Res: res, Verb: "list", Limit: k}
			out := s.apply(ex(cmd))
			post, _ := abstract(s.W, uni)
			if msg := judgeReply(cmd, out.Reply, m.Clone().Exec(cmd), post); msg != "" {
				return fmt.Sprintf("%q with %d items and %d relationships: %s", cmd.Text(), c.Items, nRel, msg)
			}
		}
	}
	return ""
}

var evalLimit = kind("limit", func(tier string, c *limitCase) string { return limitMsg(c) }, func(tier string, c *limitCase) []string {
	return append(opStrings(c.ops()), fmt.Sprintf("list with limit %d", c.K))
})

func runC20(r *Runner) {
	maxN := pick(r.thorough(), 18, 40)
	var cases []*limitCase
	var limits []int
	for k := 0; k <= maxN+2; k++ {
		limits = append(limits, k)
	}
	limits = append(limits, 63, 64, 65, 100, 127, 128, 255, 256, 1000, 65536, 1<<31-1, 1<<31, 1<<40, 1<<62, 1<<63-1)
	for n := 0; n <= maxN; n++ {
		for _, af := range []string{"", "reload", "nested"} {
			for _, k := range limits {
				cases = append(cases, &limitCase{Items: n, Rels: n, After: af, K: k})
			}
		}
	}
	// Different numbers of items and relationships, so that neither stands in for the other.
	for n := 1; n <= 6; n++ {
		for rr := 0; rr <= min(n*n, 12); rr++ {
			for k := 0; k <= 14; k++ {
				cases = append(cases, &limitCase{Items: n, Rels: rr, K: k})
			}
		}
	}
	// Boundaries of Go's maps.
	sizes := []int{63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 499, 500, 501, 513}
	if r.thorough() {
		sizes = append(sizes, 511, 512, 999, 1000, 1001, 1023, 1024, 1025, 2049)
	}
	for _, n := range sizes {
		for _, k := range []int{0, 1, 2, 7, 8, 9, 10, n / 2, 100, n - 1, n, n + 1} {
			cases = append(cases, &limitCase{Items: n, Rels: n, K: k})
		}
	}
	for _, p := range append([]Perm{permIdentity}, quickPerms...) {
		r.setOrder(p)
		r.parallel(len(cases), func(slot, i int) {
			evalLimit(r, slot, cases[i])
			r.count("traces_validated_against_impl", 1)
		})
	}
	r.setOrder(permIdentity)
	r.count("states", int64(maxN+1)*3)
	r.count("transitions", int64(len(cases)))
	r.count("map_orders", int64(1+len(quickPerms)))
	r.sample("%d items, list with limits 0..%d; e.g. %s", maxN, maxN+2, opsString((&limitCase{Items: 3, Rels: 3, K: 2}).ops()))
}

func init() {
	few := func(tier string) []Perm {
		if tier == "thorough" {
			return quickPerms
		}
		return []Perm{permReverse, alternate(0, permReverse)}
	}
	cfgMakers["C12"] = func(tier string) []*Cfg { return prefixed("C12", c12Cfgs(tier), c12) }
	props["C12"] = &Prop{Level: "model_checking", Run: func(r *Runner) { bfs(nil, few)(r); r.runSessions() }, Quick: 6 * time.Minute, Thorough: 13 * time.Minute,
		Rule: "every history of commands over the alphabets up to the stated depth, executed by the real application; after each the whole world is compared with the reference model and the reply with the model's answer"}
	cfgMakers["C14"] = func(tier string) []*Cfg {
		cs := c14Cfgs(tier)
		for _, c := range cs {
			c.Raw = true
		}
		return prefixed("C14", cs, c14)
	}
	props["C14"] = &Prop{Level: "model_checking", Run: bfs(nil, few), Quick: 6 * time.Minute, Thorough: 13 * time.Minute,
		Rule: "in every state reached over the alphabets: each read-only request alone leaves everything observable as it was, so does every refused single-resource operation, and the next successful operation reports no error"}
	cfgMakers["C15"] = func(tier string) []*Cfg { return prefixed("C15", c15Cfgs(tier), c15) }
	props["C15"] = &Prop{Level: "model_checking", Run: bfs(nil, few), Quick: 6 * time.Minute, Thorough: 13 * time.Minute,
		Rule: "in every state reached over the alphabets, every command is executed and undone (through the history and through the application), and everything observable compared with before"}
	props["C16"] = &Prop{Level: "model_checking", Run: runC16, Quick: 6 * time.Minute, Thorough: 13 * time.Minute,
		Rule: "every mix of executing, undoing and redoing up to the stated length; the world is compared with a fresh application that runs just the commands of the history"}
	props["C20"] = &Prop{Level: "model_checking", Run: runC20, Quick: 4 * time.Minute, Thorough: 10 * time.Minute,
		Rule: "every number of items and relationships up to the bound with every limit up to beyond it, through the world and through commands, after deletions, reloading and nesting"}
	_ = app.NewApp
	_ = sort.Strings
}
