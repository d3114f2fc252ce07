package main

// C01-C05, C14, C20, C21 (world part): histories of world operations.

import (
	"fmt"
	"strings"
	"time"

	"github.com/williamflynt/topolith/pkg/world"
)

func nest(c, p string) Op         { return Op{K: "Nest", A: c, B: p} }
func free(c string) Op            { return Op{K: "Free", A: c} }
func create(id string) Op         { return Op{K: "ItemCreate", A: id} }
func createP(id string, p IP) Op  { return Op{K: "ItemCreate", A: id, IP: &p} }
func set(id string, p IP) Op      { return Op{K: "ItemSet", A: id, IP: &p} }
func del(id string) Op            { return Op{K: "ItemDelete", A: id} }
func rel(f, t string) Op          { return Op{K: "RelCreate", A: f, B: t} }
func relP(f, t string, p RP) Op   { return Op{K: "RelCreate", A: f, B: t, RP: &p} }
func relSet(f, t string, p RP) Op { return Op{K: "RelSet", A: f, B: t, RP: &p} }
func relDel(f, t string) Op       { return Op{K: "RelDelete", A: f, B: t} }
func ex(c Cmd) Op                 { return Op{K: "Exec", Cmd: &c} }
func creates(ids ...string) (o []Op) {
	for _, i := range ids {
		o = append(o, create(i))
	}
	return
}

// structureOps: every create, delete, nest and free over ids, requests naming missing items included.
func structureOps(ids []string) []Op {
	var o []Op
	for _, i := range ids {
		o = append(o, create(i), del(i), free(i))
		for _, j := range ids {
			o = append(o, nest(i, j))
		}
	}
	return append(o, del("zz"), free("zz"), nest("zz", ids[0]), nest(ids[0], "zz"), nest("zz", "zz"), nest(ids[0], ""), nest("", ids[0]), free(""), del(""), create(""))
}

func moves(ids []string) []Op {
	var o []Op
	for _, i := range ids {
		o = append(o, del(i), free(i))
		for _, j := range ids {
			o = append(o, nest(i, j))
		}
	}
	return o
}

func letters(n int) []string {
	var o []string
	for i := 0; i < n; i++ {
		o = append(o, string(rune('a'+i)))
	}
	return o
}

func chain(ids []string) []Op {
	o := creates(ids...)
	for i := 1; i < len(ids); i++ {
		o = append(o, nest(ids[i], ids[i-1]))
	}
	return o
}

// chainInner builds the chain innermost-first, moving ever larger subtrees.
func chainInner(ids []string) []Op {
	o := creates(ids...)
	for i := len(ids) - 1; i > 0; i-- {
		o = append(o, nest(ids[i], ids[i-1]))
	}
	return o
}

func star(ids []string) []Op {
	o := creates(ids...)
	for i := 1; i < len(ids); i++ {
		o = append(o, nest(ids[i], ids[0]))
	}
	return o
}

func numbered(p string, n int) []string {
	var o []string
	for i := 0; i < n; i++ {
		o = append(o, fmt.Sprintf("%s%02d", p, i))
	}
	return o
}

func pick[T any](th bool, a, b T) T {
	if th {
		return b
	}
	return a
}

func prefixed(p string, cs []*Cfg, check func(x *Step) string) []*Cfg {
	for _, c := range cs {
		c.Name = p + "/" + c.Name
		if c.Check == nil {
			c.Check = check
		}
	}
	return cs
}

// structureCfgs: the containment spaces shared by C01 and C02.
func structureCfgs(tier string) []*Cfg {
	th := tier == "thorough"
	odd := []string{"nil", "tree", "a b"}
	ch := numbered("n", pick(th, 7, 10))
	st := numbered("s", 12)
	cmds := []Op{
		ex(Cmd{Res: "item", Verb: "create", Id: "a"}), ex(Cmd{Res: "item", Verb: "create-or-fetch", Id: "b"}), ex(Cmd{Res: "item", Verb: "create-or-set", Id: "c", Params: [][2]string{{"name", "x"}}}),
		ex(Cmd{Res: "item", Verb: "delete", Id: "a"}), ex(Cmd{Res: "item", Verb: "delete", Id: "b"}),
		ex(Cmd{Res: "item", Verb: "nest", Ids: []string{"a"}, To: "b"}), ex(Cmd{Res: "item", Verb: "nest", Ids: []string{"b", "c"}, To: "a"}), ex(Cmd{Res: "item", Verb: "nest", Ids: []string{"c", "a"}, To: "b"}),
		ex(Cmd{Res: "item", Verb: "free", Ids: []string{"a"}}), ex(Cmd{Res: "item", Verb: "free", Ids: []string{"b", "c"}}),
		{K: "Undo"}, {K: "Reload"},
	}
	mixed := append(append(structureOps([]string{"a", "b"}), create("c"), nest("a", "c"), nest("c", "b"), del("c")),
		set("a", IP{Name: sp("x")}), rel("a", "b"), relDel("a", "b"), Op{K: "Reload"})
	return []*Cfg{
		{Name: "all-histories-3-items", Alpha: structureOps(letters(3)), Uni: append(letters(3), "zz")},
		{Name: "all-hierarchies-" + fmt.Sprint(pick(th, 4, 5)) + "-items", Seed: creates(letters(pick(th, 4, 5))...), Alpha: append(moves(letters(pick(th, 4, 5))), create("a"), create("b")), Uni: letters(pick(th, 4, 5))},
		{Name: "odd-ids", Alpha: append(structureOps(odd), Op{K: "Reload"}), Uni: append(odd, "zz"), Depth: pick(th, 4, 6)},
		{Name: "mixed", Alpha: mixed, Uni: []string{"a", "b", "c", "zz"}, Depth: pick(th, 4, 6)},
		{Name: "commands-and-undo", Seed: creates("a", "b", "c"), Alpha: cmds, App: true, Uni: letters(3), Depth: pick(th, 4, 5), Stop: stopUndo},
		{Name: "long-chain", Seed: chain(ch), Alpha: moves(ch), Uni: ch, Depth: pick(th, 2, 2)},
		{Name: "long-chain-built-from-inside", Seed: chainInner(ch), Alpha: moves(ch), Uni: ch, Depth: pick(th, 1, 2)},
		{Name: "wide-star", Seed: star(st), Alpha: append(moves(st[:4]), create("t"), nest("t", "s00"), nest("s00", "t"), free("s11"), nest("s11", "s10"), del("s11")), Uni: append(st, "t"), Depth: pick(th, 2, 3)},
		{Name: "many-top-level", Seed: creates(st...), Alpha: append(moves(st[:3]), nest("s11", "s00"), nest("s10", "s11"), del("s11"), free("s10"), Op{K: "Reload"}), Uni: st, Depth: pick(th, 3, 4)},
	}
}

// stopUndo: Undo of a step is only meaningful when the history holds a command; the harness guards it in apply.
func stopUndo(x *Step) bool { return false }

func init() {
	c01 := func(x *Step) string {
		if m := checkForest(x.S.W, x.Cfg.Uni); m != "" {
			return x.where() + ": " + m
		}
		return ""
	}
	cfgMakers["C01"] = func(tier string) []*Cfg {
		return prefixed("C01", append(structureCfgs(tier), shapeMoveCfgs(tier == "thorough")...), c01)
	}
	props["C01"] = &Prop{Level: "model_checking", Run: bfs(nil, stdOrders), Quick: 5 * time.Minute, Thorough: 12 * time.Minute,
		Rule: "every history over the alphabets up to the stated depth (or fixpoint), executed on the real world; after each step all containment views are compared"}

	c02 := func(x *Step) string {
		if x.Pre == nil || x.Bad != "" {
			return ""
		}
		want := x.Pre.Clone()
		switch x.Op.K {
		case "Nest", "Free", "ItemDelete", "ItemCreate", "ItemSet", "RelCreate", "RelDelete", "Reload":
			want.step(x.Op)
		case "Exec":
			want.step(x.Op)
		default:
			return ""
		}
		if m := diffM(want, x.Post, aPlace|aItems); m != "" {
			return x.where() + ": " + m
		}
		return ""
	}
	cfgMakers["C02"] = func(tier string) []*Cfg {
		return prefixed("C02", append(structureCfgs(tier), shapeMoveCfgs(tier == "thorough")...), c02)
	}
	props["C02"] = &Prop{Level: "model_checking", Run: bfs(nil, stdOrders), Quick: 5 * time.Minute, Thorough: 12 * time.Minute,
		Rule: "every move from every reachable hierarchy of the alphabets; the placement of every item after the step is compared with the reference model applied to the placement before it"}

	cfgMakers["C03"] = func(tier string) []*Cfg {
		return prefixed("C03", append(append(itemCfgs(tier), shapeItemCfgs(tier == "thorough")...), ladderItemCfgs(tier == "thorough")...), c03)
	}
	props["C03"] = &Prop{Level: "model_checking", Run: bfs(nil, stdOrders), Quick: 5 * time.Minute, Thorough: 12 * time.Minute,
		Rule: "every history of attribute-changing operations over the alphabets; each step compared with the reference model, and every view of every item compared with ItemFetch"}

	cfgMakers["C04"] = func(tier string) []*Cfg {
		return prefixed("C04", append(append(relCfgs(tier), shapeRelCfgs(tier == "thorough")...), ladderRelCfgs(tier == "thorough")...), c04)
	}
	props["C04"] = &Prop{Level: "model_checking", Run: bfs(nil, stdOrders), Quick: 5 * time.Minute, Thorough: 12 * time.Minute,
		Rule: "every history of relationship operations over the alphabets (identifier pairs built to collide); each step compared with the reference model, and every view of the relationships compared with the list"}

	cfgMakers["C05"] = func(tier string) []*Cfg {
		cs := structureCfgs(tier)[:2]
		cs = append(cs, &Cfg{Name: "hierarchy-and-rels", Seed: append(creates("a", "b", "c"), rel("a", "b")),
			Alpha: append(moves([]string{"a", "b", "c"}), rel("b", "c"), rel("a", "a"), rel("c", "a"), relDel("a", "b"), set("a", IP{Name: sp("x")}), create("a"), Op{K: "Reload"}), Uni: letters(3), Depth: pick(tier == "thorough", 4, 6)})
		return prefixed("C05", cs, func(x *Step) string {
			if x.Bad != "" {
				return ""
			}
			if m := checkQueries(x.S.W, x.Cfg.Uni); m != "" {
				return x.where() + ": " + m
			}
			return ""
		})
	}
	props["C05"] = &Prop{Level: "model_checking", Run: runC05, Quick: 5 * time.Minute, Thorough: 12 * time.Minute,
		Rule: "every hierarchy over the items x every set of up to two (thorough: three) relationships, plus all histories of a mixed alphabet; every query with every pair of ids and both strictness settings, compared with the closure computed from Parent and RelList"}
}

// --- C03 ---

func resMsg(x *Step, want Res) string {
	o := x.Out
	switch {
	case want.Err == eNone && o.Err != nil:
		return fmt.Sprintf("%s reports the error %v, should succeed", x.Op, o.Err)
	case (want.Err > 0 || want.Err == eAny) && o.Err == nil:
		return fmt.Sprintf("%s reports no error, should be refused", x.Op)
	}
	return ""
}

func c03(x *Step) string {
	if x.Pre != nil && x.Bad == "" {
		want := x.Pre.Clone()
		var res Res
		known := true
		switch x.Op.K {
		case "Undo":
			known = false
		default:
			res, _ = want.step(x.Op)
		}
		if known {
			if m := diffM(want, x.Post, aAttrs); m != "" {
				return x.where() + ": " + m
			}
			switch x.Op.K {
			case "ItemCreate", "ItemSet":
				if m := resMsg(x, res); m != "" {
					return x.where() + ": " + m
				}
				if x.Op.K == "ItemCreate" && res.Err == 409 && errCode(x.Out.Err) != 409 {
					return fmt.Sprintf("%s: creating an item that exists with different attributes reports %v, not a conflict", x.where(), x.Out.Err)
				}
				fallthrough
			case "Nest", "Free":
				if res.HasItem && x.Out.Err == nil && x.Out.Item.Id == x.Op.A {
					if a, b := iattr(*x.Out.Item), x.Post.Items[x.Op.A]; a != b {
						return fmt.Sprintf("%s: %s reports the item as %s but its attributes are now %s", x.where(), x.Op, attrStr(a), attrStr(b))
					}
				}
				if res.HasItem && x.Out.Err == nil && x.Out.Item.Id != x.Op.A {
					return fmt.Sprintf("%s: %s reports back the item %q", x.where(), x.Op, x.Out.Item.Id)
				}
			case "Exec":
				if r, err := readReply(x.Out.Reply); err == nil && r.Code == 200 {
					for _, it := range r.Items {
						if b, ok := x.Post.Items[it.Id]; ok && it.A != b {
							return fmt.Sprintf("%s: the reply shows item %q as %s but its attributes are %s", x.where(), it.Id, it.A, b)
						}
					}
				}
			}
		}
	}
	if m := checkItemViews(x.S.W, x.Cfg.Uni); m != "" {
		return x.where() + ": " + m
	}
	return ""
}

// attrOps: setting each attribute of id to each representative value, and creating it with each.
func attrOps(id string, types []string) []Op {
	var ps []IP
	for _, v := range []string{"", "x", "two words"} {
		ps = append(ps, IP{Name: sp(v)}, IP{Mech: sp(v)}, IP{Exp: sp(v)})
	}
	for _, b := range []bool{false, true} {
		ps = append(ps, IP{External: bp(b)})
	}
	for _, t := range types {
		ps = append(ps, IP{Type: sp(t)})
	}
	ps = append(ps, IP{})
	var o []Op
	for _, p := range ps {
		o = append(o, set(id, p), createP(id, p))
	}
	return o
}

var invalidTypes = []string{"bogus", "Person", "-", "person "}

func itemCfgs(tier string) []*Cfg {
	th := tier == "thorough"
	one := attrOps("a", typeNames)
	for _, t := range invalidTypes {
		one = append(one, set("a", IP{Type: sp(t)}), set("a", IP{Type: sp(t), Name: sp("x")}), createP("a", IP{Type: sp(t), Mech: sp("x")}))
	}
	all := IP{External: bp(true), Type: sp("queue"), Name: sp("x"), Mech: sp("x"), Exp: sp("x")}
	none := IP{External: bp(false), Type: sp(""), Name: sp(""), Mech: sp(""), Exp: sp("")}
	one = append(one, set("a", all), createP("a", all), set("a", none), createP("a", none), del("a"))
	// Two items in every containment relation, related both ways.
	two := []Op{}
	for _, i := range []string{"a", "b"} {
		two = append(two, createP(i, IP{Name: sp("x"), Type: sp("code")}), create(i), set(i, IP{Name: sp("y")}), set(i, IP{Type: sp("person")}), set(i, IP{Type: sp(""), External: bp(true)}), del(i), free(i))
	}
	two = append(two, nest("a", "b"), nest("b", "a"), rel("a", "b"), rel("b", "a"), rel("a", "a"), relSet("a", "b", RP{Verb: sp("v")}), relDel("a", "b"), Op{K: "Reload"})
	cmds := []Op{
		ex(Cmd{Res: "item", Verb: "create", Id: "a", Params: [][2]string{{"name", "n 1"}, {"type", "person"}}}),
		ex(Cmd{Res: "item", Verb: "create-or-set", Id: "a", Params: [][2]string{{"mechanism", "m"}, {"external", "true"}}}),
		ex(Cmd{Res: "item", Verb: "create-or-fetch", Id: "a"}),
		ex(Cmd{Res: "item", Verb: "set", Id: "a", Params: [][2]string{{"type", "database"}}}),
		ex(Cmd{Res: "item", Verb: "set", Id: "a", Params: [][2]string{{"expanded", "more text."}}}),
		ex(Cmd{Res: "item", Verb: "clear", Id: "a", Keys: []string{"type"}}),
		ex(Cmd{Res: "item", Verb: "clear", Id: "a", Keys: []string{"name", "external"}}),
		ex(Cmd{Res: "item", Verb: "set", Id: "b", Params: [][2]string{{"name", "b"}}}),
		ex(Cmd{Res: "item", Verb: "nest", Ids: []string{"a"}, To: "b"}),
		ex(Cmd{Res: "item", Verb: "free", Ids: []string{"a"}}),
		ex(Cmd{Res: "rel", Verb: "create", Id: "a", To: "b"}),
		ex(Cmd{Res: "item", Verb: "delete", Id: "a"}),
		ex(Cmd{Res: "item", Verb: "list"}), ex(Cmd{Res: "item", Verb: "items-in", Id: "b"}), ex(Cmd{Res: "item", Verb: "fetch", Id: "a"}),
	}
	many := numbered("m", 10)
	return []*Cfg{
		{Name: "one-item", Alpha: one, Uni: []string{"a"}, Depth: pick(th, 4, 0)},
		{Name: "two-items", Alpha: two, Uni: []string{"a", "b"}, Depth: pick(th, 4, 5)},
		{Name: "commands", Seed: creates("b"), Alpha: cmds, Uni: []string{"a", "b"}, Depth: pick(th, 4, 5)},
		{Name: "inside-a-chain", Seed: append(chain(letters(4)), rel("a", "d"), rel("d", "a"), rel("c", "c")), Uni: letters(4), Depth: pick(th, 3, 4), Alpha: []Op{
			set("a", IP{Name: sp("x")}), set("b", IP{Type: sp("server")}), set("c", IP{Exp: sp("e")}), set("d", IP{External: bp(true)}), set("d", IP{Name: sp("y"), Mech: sp("m")}),
			nest("c", "a"), free("b"), nest("a", "d"), del("b"), relDel("a", "d"), createP("b", IP{Name: sp("z")}), rel("b", "c"), relSet("d", "a", RP{Async: bp(true)}), {K: "Reload"}}},
		{Name: "ten-items", Seed: append(creates(many...), rel("m00", "m01"), rel("m09", "m00"), nest("m05", "m00"), nest("m09", "m05")), Uni: many, Depth: 2, Alpha: []Op{
			set("m00", IP{Name: sp("x")}), set("m09", IP{Type: sp("queue")}), set("m05", IP{Mech: sp("m")}), set("m01", IP{External: bp(true)}), set("m00", IP{Exp: sp("e")}), createP("m08", IP{Name: sp("q")}), createP("m10", IP{Name: sp("q")}), nest("m00", "m08"), {K: "Reload"}}},
	}
}

// --- C04 ---

func c04(x *Step) string {
	if x.Pre != nil && x.Bad == "" && x.Op.K != "Undo" {
		want := x.Pre.Clone()
		res, _ := want.step(x.Op)
		if m := diffM(want, x.Post, aRels|aRelAttrs); m != "" {
			return x.where() + ": " + m
		}
		switch x.Op.K {
		case "RelCreate", "RelSet":
			if m := resMsg(x, res); m != "" {
				return x.where() + ": " + m
			}
			if x.Op.K == "RelCreate" && res.Err == 409 && errCode(x.Out.Err) != 409 {
				return fmt.Sprintf("%s: creating a relationship that exists with different attributes reports %v, not a conflict", x.where(), x.Out.Err)
			}
			if x.Out.Err == nil {
				k := RKey{x.Op.A, x.Op.B}
				if x.Out.Rel.From.Id != k.F || x.Out.Rel.To.Id != k.T {
					return fmt.Sprintf("%s: %s reports back the relationship %q -> %q", x.where(), x.Op, x.Out.Rel.From.Id, x.Out.Rel.To.Id)
				}
				if a, b := rattr(*x.Out.Rel), x.Post.Rels[k]; a != b {
					return fmt.Sprintf("%s: %s reports the relationship as %s but it is %s", x.where(), x.Op, a, b)
				}
			}
		case "RelDelete":
			if x.Out.Err != nil {
				return fmt.Sprintf("%s: %s reports %v", x.where(), x.Op, x.Out.Err)
			}
		case "Exec":
			if r, err := readReply(x.Out.Reply); err == nil && r.Code == 200 {
				for _, t := range r.Rels {
					if t.K == (RKey{}) {
						continue // the empty relationship a delete answers with
					}
					b, ok := x.Post.Rels[t.K]
					if !ok {
						return fmt.Sprintf("%s: the reply shows relationship %q -> %q, which does not exist", x.where(), t.K.F, t.K.T)
					}
					if t.A != b {
						return fmt.Sprintf("%s: the reply shows relationship %q -> %q as %s but it is %s", x.where(), t.K.F, t.K.T, t.A, b)
					}
				}
			}
		}
	}
	if x.Bad != "" && !strings.Contains(x.Bad, "relationship") {
		return ""
	}
	if m := checkRelViews(x.S.W, x.Cfg.Uni); m != "" {
		return x.where() + ": " + m
	}
	return ""
}

func relCfgs(tier string) []*Cfg {
	th := tier == "thorough"
	// One pair, every attribute.
	var one []Op
	for _, p := range []RP{{}, {Verb: sp("")}, {Verb: sp("x")}, {Verb: sp("two words")}, {Mech: sp("")}, {Mech: sp("x")}, {Async: bp(true)}, {Async: bp(false)}, {Exp: sp("")}, {Exp: sp("x")},
		{Verb: sp("v"), Mech: sp("m"), Async: bp(true), Exp: sp("e")}} {
		one = append(one, relP("a", "b", p), relSet("a", "b", p))
	}
	one = append(one, relDel("a", "b"), relSet("b", "a", RP{Verb: sp("x")}), relP("b", "a", RP{Verb: sp("r")}), relDel("b", "a"), rel("a", "zz"), rel("zz", "a"), rel("zz", "zz"), rel("", "a"), rel("a", ""), relSet("a", "zz", RP{}), relDel("zz", "a"), del("a"), create("a"), Op{K: "Reload"})
	// All pairs of three items.
	var three []Op
	for _, f := range letters(3) {
		for _, t := range letters(3) {
			three = append(three, rel(f, t), relDel(f, t))
		}
		three = append(three, del(f), create(f))
	}
	three = append(three, relSet("a", "b", RP{Verb: sp("v")}), relSet("b", "b", RP{Exp: sp("e")}), nest("a", "b"), nest("b", "c"), free("a"), set("a", IP{Name: sp("n")}))
	cmds := []Op{
		ex(Cmd{Res: "rel", Verb: "create", Id: "a", To: "b", Params: [][2]string{{"verb", "v 1"}}}),
		ex(Cmd{Res: "rel", Verb: "create", Id: "a", To: "a"}),
		ex(Cmd{Res: "rel", Verb: "create-or-set", Id: "a", To: "b", Params: [][2]string{{"async", "true"}, {"mechanism", "m"}}}),
		ex(Cmd{Res: "rel", Verb: "create-or-fetch", Id: "b", To: "a"}),
		ex(Cmd{Res: "rel", Verb: "set", Id: "a", To: "b", Params: [][2]string{{"expanded", "e"}}}),
		ex(Cmd{Res: "rel", Verb: "clear", Id: "a", To: "b", Keys: []string{"verb", "async"}}),
		ex(Cmd{Res: "rel", Verb: "delete", Id: "a", To: "b"}), ex(Cmd{Res: "rel", Verb: "delete", Id: "b", To: "a"}), ex(Cmd{Res: "rel", Verb: "delete", Id: "a", To: "a"}),
		ex(Cmd{Res: "item", Verb: "delete", Id: "b"}), ex(Cmd{Res: "item", Verb: "create", Id: "b"}),
		ex(Cmd{Res: "rel", Verb: "list"}), ex(Cmd{Res: "rel", Verb: "fetch", Id: "a", To: "b"}), ex(Cmd{Res: "rel", Verb: "to?", Id: "a"}),
	}
	cs := []*Cfg{
		{Name: "one-pair", Seed: creates("a", "b"), Alpha: one, Uni: []string{"a", "b", "zz"}, Depth: pick(th, 4, 5)},
		{Name: "three-items", Seed: creates("a", "b", "c"), Alpha: three, Uni: letters(3), Depth: pick(th, 4, 5)},
		{Name: "commands", Seed: creates("a", "b"), Alpha: cmds, Uni: letters(2), Depth: pick(th, 4, 5)},
	}
	// Identifiers that collide when joined with any separator an implementation might use.
	for i, s := range []string{"::", "", ":", " ", ",", "-", ".", "_", ";", "=", "~", "#", "$", "@", "&", "+", "*", "!", "%", "^", "--", "-to-", "(", "()", "][", "::::"} {
		x, y, z := "x", "y", "z"
		xy, yz := x+s+y, y+s+z
		ids := []string{x, z, xy, yz}
		seed := creates(ids...)
		alpha := []Op{relP(x, yz, RP{Verb: sp("one")}), relP(xy, z, RP{Verb: sp("two")}), relSet(x, yz, RP{Mech: sp("m")}), relSet(xy, z, RP{Async: bp(true)}), relDel(x, yz), relDel(xy, z), del(x), del(z), rel(z, xy), rel(yz, x)}
		cs = append(cs, &Cfg{Name: fmt.Sprintf("colliding-ids-%02d", i), Seed: seed, Alpha: alpha, Uni: ids, Depth: pick(th, 3, 4)})
	}
	many := numbered("m", 11)
	seed := creates(many...)
	for _, m := range many[1:] {
		seed = append(seed, rel("m00", m))
	}
	cs = append(cs, &Cfg{Name: "many-relationships", Seed: seed, Uni: many, Depth: 2, Alpha: []Op{del("m00"), del("m03"), del("m10"), relDel("m00", "m05"), relSet("m00", "m09", RP{Verb: sp("v")}), rel("m10", "m00"), rel("m03", "m03"), relP("m00", "m01", RP{Verb: sp("c")}), {K: "Reload"}}})
	return cs
}

// --- C05: direct enumeration of hierarchies x relationship sets ---

// forests enumerates every parent assignment of n labelled items that has no cycle.
func forests(n int) [][]int {
	var out [][]int
	p := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			for j := range p {
				for k, c := p[j], 0; k >= 0; k = p[k] {
					if k == j || c > n {
						return
					}
					c++
				}
			}
			out = append(out, append([]int{}, p...))
			return
		}
		for k := -1; k < n; k++ {
			if k != i {
				p[i] = k
				rec(i + 1)
			}
		}
	}
	rec(0)
	return out
}

type worldCase struct {
	N    int      `json:"items"`
	Par  []int    `json:"parents"` // -1: top level
	Rels [][2]int `json:"rels"`
}

func (c *worldCase) ops() []Op {
	ids := letters(c.N)
	o := creates(ids...)
	for i, p := range c.Par {
		if p >= 0 {
			o = append(o, nest(ids[i], ids[p]))
		}
	}
	for _, r := range c.Rels {
		o = append(o, rel(ids[r[0]], ids[r[1]]))
	}
	return o
}

func opStrings(o []Op) (out []string) {
	for _, x := range o {
		out = append(out, x.String())
	}
	return
}

func build(ops []Op) *Sut {
	s := newSut("w")
	for _, o := range ops {
		s.apply(o)
	}
	return s
}

var evalQueries = kind("queries", func(tier string, c *worldCase) string {
	s := build(c.ops())
	if m := checkQueries(s.W, letters(c.N)); m != "" {
		return opsString(c.ops()) + ": " + m
	}
	return ""
}, func(tier string, c *worldCase) []string { return opStrings(c.ops()) })

var evalQueriesOf = kind("queries-of", func(tier string, c *historyCase) string {
	if m := checkQueries(build(c.Ops).W, nil); m != "" {
		return opsString(c.Ops) + ": " + m
	}
	return ""
}, func(tier string, c *historyCase) []string { return opStrings(c.Ops) })

// shapeQueryWorlds: every shape with each single relationship, and worlds of every size with relationships between
// their ends and middle.
func shapeQueryWorlds(th bool) (out []historyCase) {
	for n := 5; n <= pick(th, 6, 7); n++ {
		ids := letters(n)
		for _, par := range shapes(n) {
			base := shapeSeed(par, ids, 0)
			for _, p := range pairsOf(ids) {
				out = append(out, historyCase{append(append([]Op{}, base...), rel(p[0], p[1]))})
			}
		}
	}
	for _, ss := range sizeShapes {
		var ns []int
		for n := 2; n <= pick(th, 20, 40); n++ {
			ns = append(ns, n)
		}
		for _, n := range append(ns, huge(th)...) {
			ids := numbered("n", n)
			o := ss.Seed(ids)
			for _, p := range pairsOf(spots(ids)) {
				if p[0] != p[1] {
					out = append(out, historyCase{append(append([]Op{}, o...), rel(p[0], p[1]))})
				}
			}
			for i := range ids {
				o = append(o, rel(ids[i], ids[(i+1)%n]), rel(ids[i], ids[n-1]), rel(ids[0], ids[i]))
			}
			out = append(out, historyCase{o})
		}
	}
	return
}

func runC05(r *Runner) {
	r.exploreAll(stdOrders(r.tier))
	sq := shapeQueryWorlds(r.thorough())
	for _, p := range []Perm{permIdentity, permReverse} {
		r.setOrder(p)
		r.parallel(len(sq), func(slot, i int) {
			evalQueriesOf(r, slot, &sq[i])
			r.count("traces_validated_against_impl", 1)
		})
	}
	r.setOrder(permIdentity)
	r.count("states", int64(len(sq)))
	r.note("%d worlds by shape (every forest of 5 and %d items with each single relationship) and size (up to %d items)", len(sq), pick(r.thorough(), 6, 7), pick(r.thorough(), 20, 40))
	n := pick(r.thorough(), 4, 5)
	var sets [][][2]int
	var pairs [][2]int
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			pairs = append(pairs, [2]int{i, j})
		}
	}
	sets = append(sets, nil)
	for i := range pairs {
		sets = append(sets, [][2]int{pairs[i]})
		for j := i + 1; j < len(pairs); j++ {
			sets = append(sets, [][2]int{pairs[i], pairs[j]})
		}
	}
	sets = append(sets, pairs)
	fs := forests(n)
	for _, p := range plainOrders {
		if r.done() {
			break
		}
		r.setOrder(p)
		r.parallel(len(fs)*len(sets), func(slot, i int) {
			evalQueries(r, slot, &worldCase{N: n, Par: fs[i/len(sets)], Rels: sets[i%len(sets)]})
			if p == permIdentity {
				r.count("states", 1)
			}
			r.count("traces_validated_against_impl", 1)
		})
	}
	r.setOrder(permIdentity)
	r.note("all %d hierarchies over %d items x all %d relationship sets of size 0-2 and the full one", len(fs), n, len(sets))
	r.sample("%s", opsString((&worldCase{N: n, Par: fs[len(fs)-1], Rels: sets[len(sets)-2]}).ops()))
}

var _ = world.CreateWorld
