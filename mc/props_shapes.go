package main

// Spaces by shape and size, shared by several properties: one world for every rooted forest without labels of n items
// (built in different orders), and worlds of every size up to a bound in which an implementation that treats the
// fifth ancestor, the ninth child or the seventeenth relationship differently shows.

import (
	"fmt"
	"sort"
)

// shapes: one parent assignment (parents before children) per forest of n items without labels.
func shapes(n int) (out [][]int) {
	seen := map[string]bool{}
	p := make([]int, n)
	var canon func(i int) string
	canon = func(i int) string {
		var kids []string
		for j := range p {
			if p[j] == i {
				kids = append(kids, canon(j))
			}
		}
		sort.Strings(kids)
		s := "("
		for _, k := range kids {
			s += k
		}
		return s + ")"
	}
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			if k := canon(-1); !seen[k] {
				seen[k] = true
				out = append(out, append([]int{}, p...))
			}
			return
		}
		for k := -1; k < i; k++ {
			p[i] = k
			rec(i + 1)
		}
		p[i] = 0
	}
	for i := range p {
		p[i] = -2
	}
	rec(0)
	return
}

const shapeHows = 5

// shapeSeed builds the shape: 0 parents first, 1 innermost first, 2 written and read back, 3 with every item first
// inside the first one, 4 items created in the opposite order and taken out and put back once.
func shapeSeed(par []int, ids []string, how int) (o []Op) {
	n := len(par)
	if how == 4 {
		for i := n - 1; i >= 0; i-- {
			o = append(o, create(ids[i]))
		}
	} else {
		o = creates(ids[:n]...)
	}
	put := func(i int) {
		if par[i] >= 0 {
			o = append(o, nest(ids[i], ids[par[i]]))
		}
	}
	switch how {
	case 1:
		for i := n - 1; i >= 0; i-- {
			put(i)
		}
		return
	case 3:
		for i := 1; i < n; i++ {
			o = append(o, nest(ids[i], ids[0]))
		}
		for i := range par {
			if i > 0 && par[i] < 0 {
				o = append(o, free(ids[i]))
			}
		}
		for i := n - 1; i >= 0; i-- {
			if par[i] > 0 {
				put(i)
			}
		}
		return
	}
	for i := range par {
		put(i)
	}
	switch how {
	case 2:
		o = append(o, Op{K: "Reload"})
	case 4:
		for i := range par {
			if par[i] >= 0 {
				o = append(o, free(ids[i]))
				put(i)
			}
		}
	}
	return
}

// eachShape makes one configuration for every shape of n items and way of building it.
func eachShape(n, hows int, f func(ids []string, seed []Op) *Cfg) (out []*Cfg) {
	for i, par := range shapes(n) {
		for h := 0; h < hows; h++ {
			ids := letters(n)
			c := f(ids, shapeSeed(par, ids, h))
			c.Name = fmt.Sprintf("shape-%d-%d-%d%s", n, i, h, c.Name)
			if c.Uni == nil {
				c.Uni = ids
			}
			if c.Depth == 0 {
				c.Depth = 1
			}
			out = append(out, c)
		}
	}
	return
}

type sizeShape struct {
	Name string
	Seed func(ids []string) []Op
}

var sizeShapes = []sizeShape{
	{"chain", chain}, {"chain-inner", chainInner}, {"star", star}, {"flat", func(ids []string) []Op { return creates(ids...) }},
	{"comb", func(ids []string) []Op { // a chain of every second item, each with one more inside
		o := creates(ids...)
		for i := 1; i < len(ids); i++ {
			o = append(o, nest(ids[i], ids[(i-1)/2*2]))
		}
		return o
	}},
	{"broom", func(ids []string) []Op { // a chain ending in a star
		o := creates(ids...)
		for i := 1; i < len(ids); i++ {
			o = append(o, nest(ids[i], ids[min(i-1, len(ids)/2)]))
		}
		return o
	}},
}

// spots: the items at the ends and in the middle.
func spots(ids []string) (out []string) {
	n := len(ids)
	for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
		if i >= 0 && i < n && !contains(out, ids[i]) {
			out = append(out, ids[i])
		}
	}
	return
}

// eachSize makes one configuration for every size in [lo, hi] and every size shape.
func eachSize(lo, hi, step int, names []string, f func(ids []string, seed []Op) *Cfg) (out []*Cfg) {
	var ns []int
	for n := lo; n <= hi; n += step {
		ns = append(ns, n)
	}
	return eachSizeOf(ns, names, f)
}

// huge: the sizes around the capacities an implementation may have.
func huge(th bool) []int {
	if th {
		return []int{31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 501, 513}
	}
	return []int{33, 65, 101, 129, 257}
}

func eachSizeOf(ns []int, names []string, f func(ids []string, seed []Op) *Cfg) (out []*Cfg) {
	for _, ss := range sizeShapes {
		if names != nil && !contains(names, ss.Name) {
			continue
		}
		for _, n := range ns {
			ids := numbered("n", n)
			c := f(ids, ss.Seed(ids))
			c.Name = fmt.Sprintf("size-%s-%d%s", ss.Name, n, c.Name)
			if c.Uni == nil {
				c.Uni = ids
			}
			if c.Depth == 0 {
				c.Depth = 1
			}
			out = append(out, c)
		}
	}
	return
}

func shapeMoveCfgs(th bool) []*Cfg {
	all := func(ids []string, seed []Op) *Cfg {
		return &Cfg{Seed: seed, Alpha: append(append(moves(ids), Op{K: "Reload"}, create("new")), create(ids[0]))}
	}
	cs := eachShape(5, shapeHows, all)
	cs = append(cs, eachShape(6, pick(th, 2, shapeHows), all)...)
	cs = append(cs, eachShape(7, 1, all)...)
	if th {
		cs = append(cs, eachShape(8, 1, all)...)
		for _, c := range eachShape(5, 1, all) {
			c.Name += "-twice"
			c.Depth = 2
			cs = append(cs, c)
		}
	}
	few := func(ids []string, seed []Op) *Cfg {
		return &Cfg{Seed: seed, Alpha: append(moves(spots(ids)), Op{K: "Reload"}, create("new"))}
	}
	return append(append(cs, eachSize(1, pick(th, 20, 40), 1, nil, few)...), eachSizeOf(huge(th), nil, few)...)
}

// shapeItemCfgs (C03): every item of every shape has attributes of its own and relationships at both ends.
func shapeItemCfgs(th bool) []*Cfg {
	f := func(ids []string, seed []Op) *Cfg {
		sp5 := spots(ids)
		for i, id := range ids {
			seed = append(seed, set(id, IP{Name: sp("name " + id), Type: sp(typeNames[i%len(typeNames)]), External: bp(i%2 == 1)}))
		}
		for i := range sp5 {
			seed = append(seed, rel(sp5[i], sp5[(i+1)%len(sp5)]), rel(sp5[i], sp5[i]))
		}
		al := moves(sp5)
		for _, id := range sp5 {
			al = append(al, set(id, IP{Name: sp("other"), Mech: sp("m")}), set(id, IP{Type: sp("")}), createP(id, IP{Exp: sp("e")}), create(id))
		}
		return &Cfg{Seed: seed, Alpha: append(al, Op{K: "Reload"}, createP("new", IP{Name: sp("n")}))}
	}
	cs := append(eachShape(4, shapeHows, f), eachShape(5, pick(th, 1, shapeHows), f)...)
	return append(append(cs, eachSize(6, pick(th, 18, 40), pick(th, 3, 1), nil, f)...), eachSizeOf(huge(th), nil, f)...)
}

// shapeRelCfgs (C04): a ring, all self-relationships and, by size, a hub with relationships out of and into it.
func shapeRelCfgs(th bool) []*Cfg {
	f := func(ids []string, seed []Op) *Cfg {
		n := len(ids)
		for i, id := range ids {
			seed = append(seed, relP(id, ids[(i+1)%n], RP{Verb: sp("v" + id), Async: bp(i%2 == 0)}), relP(id, ids[0], RP{Mech: sp("hub")}), relP(ids[0], id, RP{Exp: sp("e" + id)}))
		}
		var al []Op
		for _, a := range spots(ids) {
			al = append(al, del(a), free(a), nest(a, ids[n-1]), nest(a, ids[0]), set(a, IP{Name: sp("x")}))
			for _, b := range spots(ids) {
				al = append(al, relDel(a, b), relSet(a, b, RP{Verb: sp("changed")}), relP(a, b, RP{Async: bp(true)}))
			}
		}
		return &Cfg{Seed: seed, Alpha: append(al, Op{K: "Reload"})}
	}
	cs := append(eachShape(4, 2, f), eachShape(5, 1, f)...)
	return append(append(cs, eachSize(2, pick(th, 20, 40), pick(th, 2, 1), []string{"flat", "star", "chain"}, f)...), eachSizeOf(huge(th), []string{"flat", "chain"}, f)...)
}

// shapeCmdCfgs (C12, C15): every tree command naming up to two items (three in small shapes) at every shape.
func shapeCmdCfgs(th bool) []*Cfg {
	mk := func(k int) func(ids []string, seed []Op) *Cfg {
		return func(ids []string, seed []Op) *Cfg {
			n := len(ids)
			var cmds []Cmd
			for i, id := range ids {
				seed = append(seed, set(id, IP{Name: sp("name " + id), External: bp(i%2 == 0)}), relP(id, ids[(i+1)%n], RP{Verb: sp("v" + id)}))
				cmds = append(cmds, Cmd{Res: "item", Verb: "delete", Id: id}, Cmd{Res: "item", Verb: "items-in", Id: id}, Cmd{Res: "item", Verb: "set", Id: id, Params: [][2]string{{"name", "z"}}}, Cmd{Res: "item", Verb: "clear", Id: id, Keys: []string{"name"}},
					Cmd{Res: "rel", Verb: "to?", Id: id}, Cmd{Res: "rel", Verb: "from?", Id: id}, Cmd{Res: "rel", Verb: "delete", Id: id, To: ids[(i+1)%n]})
			}
			for _, p := range pairsOf(ids) {
				cmds = append(cmds, Cmd{Res: "item", Verb: "in?", Id: p[0], To: p[1]}, Cmd{Res: "rel", Verb: "fetch", Id: p[0], To: p[1]})
			}
			return &Cfg{Seed: seed, Alpha: execs(append(append(cmds, treeCmds(ids, k)...), Cmd{Res: "world"}))}
		}
	}
	cs := eachShape(4, 1, mk(3))
	cs = append(cs, eachShape(5, pick(th, 1, 3), mk(2))...)
	if th {
		cs = append(cs, eachShape(6, 1, mk(2))...)
	}
	// Commands naming many items, and worlds of growing size.
	big := func(ids []string, seed []Op) *Cfg {
		var cmds []Cmd
		n := len(ids)
		for i := range ids {
			seed = append(seed, relP(ids[i], ids[n-1], RP{Verb: sp("v" + ids[i])}), rel(ids[0], ids[i]))
		}
		rev := append([]string{}, ids...)
		sort.Sort(sort.Reverse(sort.StringSlice(rev)))
		for _, s := range spots(ids) {
			cmds = append(cmds, Cmd{Res: "item", Verb: "delete", Id: s}, Cmd{Res: "item", Verb: "items-in", Id: s}, Cmd{Res: "rel", Verb: "to?", Id: s}, Cmd{Res: "rel", Verb: "from?", Id: s}, Cmd{Res: "rel", Verb: "delete", Id: ids[0], To: s}, Cmd{Res: "item", Verb: "fetch", Id: s})
			for _, l := range [][]string{ids, rev} {
				var others, moved []string
				for _, i := range l {
					if i != s {
						others = append(others, i)
						if len(moved) < n/2 {
							moved = append(moved, i)
						}
					}
				}
				cmds = append(cmds, Cmd{Res: "item", Verb: "nest", Ids: l, To: s})
				if len(others) > 0 {
					cmds = append(cmds, Cmd{Res: "item", Verb: "nest", Ids: others, To: s}, Cmd{Res: "item", Verb: "free", Ids: others})
				}
				if len(moved) > 0 {
					cmds = append(cmds, Cmd{Res: "item", Verb: "nest", Ids: moved, To: s}, Cmd{Res: "item", Verb: "free", Ids: append(moved, s)}, Cmd{Res: "item", Verb: "nest", Ids: append(append([]string{}, moved...), "zz"), To: s})
				}
			}
		}
		return &Cfg{Seed: seed, Alpha: execs(append(cmds, Cmd{Res: "world"}, Cmd{Res: "item", Verb: "list"}, Cmd{Res: "rel", Verb: "list"})), Uni: append(append([]string{}, ids...), "zz")}
	}
	return append(append(cs, eachSize(1, pick(th, 13, 34), pick(th, 3, 1), nil, big)...), eachSizeOf(pick(th, []int{33, 65, 101, 129}, huge(th)), pick(th, []string{"flat", "chain"}, nil), big)...)
}

// shapeFailCfgs (C14): the requests that are refused because of where things are, at every shape.
func shapeFailCfgs(th bool) []*Cfg {
	f := func(ids []string, seed []Op) *Cfg {
		n := len(ids)
		for i, id := range ids {
			seed = append(seed, set(id, IP{Name: sp("name " + id)}), relP(id, ids[(i+1)%n], RP{Verb: sp("v" + id)}))
		}
		al := moves(ids)
		for i, id := range ids {
			al = append(al, nest(id, "zz"), rel(id, "zz"), relP(id, ids[(i+1)%n], RP{Verb: sp("other")}), createP(id, IP{Name: sp("other")}), set(id, IP{Type: sp("bogus"), Name: sp("y")}))
			for _, j := range ids {
				al = append(al, ex(Cmd{Res: "item", Verb: "nest", Ids: []string{id}, To: j}))
			}
		}
		return &Cfg{Seed: seed, Alpha: al, Ok: []Op{create(ids[0]), set(ids[n-1], IP{Name: sp("x")}), free(ids[0])}}
	}
	few := func(ids []string, seed []Op) *Cfg {
		n, sp5 := len(ids), []string{ids[0], ids[len(ids)-1]}
		for i, id := range sp5 {
			seed = append(seed, set(id, IP{Name: sp("name " + id)}), relP(id, sp5[(i+1)%len(sp5)], RP{Verb: sp("v" + id)}))
		}
		al := moves(sp5)
		for i, id := range sp5 {
			al = append(al, nest(id, "zz"), rel(id, "zz"), relP(id, sp5[(i+1)%len(sp5)], RP{Verb: sp("other")}), createP(id, IP{Name: sp("other")}), ex(Cmd{Res: "item", Verb: "nest", Ids: append(append([]string{}, ids...), "zz"), To: id}))
			for _, j := range sp5 {
				al = append(al, ex(Cmd{Res: "item", Verb: "nest", Ids: []string{id}, To: j}))
			}
		}
		return &Cfg{Seed: seed, Alpha: al, Uni: append(append([]string{}, sp5...), "zz"), Ok: []Op{create(ids[0]), free(ids[0]), set(ids[n-1], IP{Name: sp("x")})}}
	}
	cs := append(eachShape(3, 1, f), eachShape(4, pick(th, 1, 3), f)...)
	return append(cs, eachSizeOf(pick(th, []int{6, 10, 18, 33}, []int{6, 10, 18, 33, 65, 129, 257}), pick(th, []string{"flat", "chain"}, nil), few)...)
}

// shapeWorlds: worlds (as histories) of every shape and size, for the properties that look at one world at a time.
func shapeWorlds(th bool) (out [][]Op) {
	dress := func(ids []string, o []Op) []Op {
		n := len(ids)
		for i, id := range ids {
			o = append(o, set(id, IP{Name: sp(fmt.Sprint("name ", i)), Type: sp(typeNames[i%len(typeNames)]), External: bp(i%3 == 0), Exp: sp("e"), Mech: sp("m")}),
				relP(id, ids[(i+1)%n], RP{Verb: sp("v " + id), Async: bp(i%2 == 0)}))
		}
		return o
	}
	for n := 1; n <= pick(th, 7, 8); n++ {
		for _, par := range shapes(n) {
			for h := 0; h < pick(n < 7, 1, shapeHows); h++ {
				ids := letters(n)
				out = append(out, dress(ids, shapeSeed(par, ids, h)))
			}
		}
	}
	for _, ss := range sizeShapes {
		var ns []int
		for n := 2; n <= pick(th, 40, 70); n++ {
			ns = append(ns, n)
		}
		for _, n := range append(ns, huge(th)...) {
			ids := numbered("n", n)
			out = append(out, ss.Seed(ids), dress(ids, ss.Seed(ids)))
		}
	}
	return
}
