package main

// Ladders: texts, numbers, worlds and sessions of every length up to a bound and around every power of two beyond it,
// so that a buffer, a cut-off or a counter of any usual size is crossed.

import (
	"fmt"
	"strings"

	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/world"
)

// rungs: 3..dense, then around every power of two and of ten up to 2^top.
func rungs(dense, top int) (out []int) {
	seen := map[int]bool{}
	add := func(n int) {
		if n > 0 && n <= 1<<top+1 && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for n := 3; n <= dense; n++ {
		add(n)
	}
	for k := 0; k <= top; k++ {
		add(1<<k - 1)
		add(1 << k)
		add(1<<k + 1)
	}
	for n := 10; n <= 1<<top; n *= 10 {
		add(n - 1)
		add(n)
		add(n + 1)
	}
	return
}

const ladderText = `The quick brown fox: jumps, over 13 lazy dogs; (it's "not") = $5 & 6% #7 [x] {y} ~z! <a> / b | c @d ^e * f + g - h? `

// ladder: one text of each length, of words and signs, that commands can express.
func ladder(dense, top int) (out []string) {
	unit := ""
	for _, c := range ladderText {
		if strings.ContainsRune(quotable, c) {
			unit += string(c)
		}
	}
	for _, n := range rungs(dense, top) {
		t := strings.Repeat(unit, n/len(unit)+1)[:n-1] + "Z"
		out = append(out, t)
	}
	return
}

// ladderWords: bare words of each length.
func ladderWords(dense, top int) (out []string) {
	for _, n := range rungs(dense, top) {
		out = append(out, strings.Repeat("abcdefghij", n/10+1)[:n-1]+"Z")
	}
	return
}

// --- long sessions ---

// sessionCase: N commands of an alphabet taken in steps of Stride, in one application.
type sessionCase struct {
	Family string `json:"family"`
	Stride int    `json:"stride"`
	N      int    `json:"n"`
}

var sessionFamilies = map[string]func() (seed []Op, al []Cmd, uni []string){
	"everything": func() ([]Op, []Cmd, []string) {
		fam := []string{"a", "b", "c", "d"}
		var al []Cmd
		for _, i := range fam {
			al = append(al, itemCmds(i, itemParamSets[:4], itemKeySets[:2])...)
		}
		for _, p := range pairsOf(fam) {
			al = append(al, relCmds(p[0], p[1], relParamSets[:1], relKeySets[:1])...)
		}
		al = append(al, treeCmds([]string{"a", "b", "c", "d", "zz"}, 2)...)
		al = append(al, queryCmds([]string{"a", "b", "zz"}, []int{0, 1, 3})...)
		return family(), al, append(fam, "zz")
	},
	"growing": func() ([]Op, []Cmd, []string) {
		var al []Cmd
		ids := numbered("g", 60)
		for i, id := range ids {
			al = append(al, Cmd{Res: "item", Verb: "create", Id: id, Params: [][2]string{{"name", "n " + id}}})
			if i > 0 {
				al = append(al, Cmd{Res: "item", Verb: "nest", Ids: []string{id}, To: ids[i/2]}, Cmd{Res: "rel", Verb: "create", Id: id, To: ids[i-1]}, Cmd{Res: "rel", Verb: "create-or-set", Id: ids[i-1], To: id, Params: [][2]string{{"verb", "v"}}})
			}
		}
		return nil, al, ids
	},
	"reading": func() ([]Op, []Cmd, []string) {
		return family(), append(queryCmds([]string{"a", "b", "zz"}, []int{0, 1, 3}), Cmd{Res: "item", Verb: "create-or-fetch", Id: "a"}), []string{"a", "b", "c", "d", "zz"}
	},
}

func sessionMsg(c *sessionCase) string {
	seed, al, uni := sessionFamilies[c.Family]()
	s := build(seed)
	m, bad := abstract(s.W, uni)
	if bad != "" {
		return ""
	}
	for n := 0; n < c.N; n++ {
		cmd := al[n*c.Stride%len(al)]
		out := s.apply(ex(cmd))
		post, bad := abstract(s.W, uni)
		where := fmt.Sprintf("command %d of the session, %q", n+1, cmd.Text())
		if bad != "" {
			return where + ": the world is broken: " + bad
		}
		ans := m.Exec(cmd)
		if d := diffM(m, post, aAll); d != "" {
			return where + ": " + d
		}
		if msg := judgeReply(cmd, out.Reply, ans, post); msg != "" {
			return where + ": " + msg
		}
		m = post
	}
	return ""
}

var evalSession = kind("session", func(tier string, c *sessionCase) string { return sessionMsg(c) }, func(tier string, c *sessionCase) []string {
	_, al, _ := sessionFamilies[c.Family]()
	var out []string
	for n := 0; n < min(c.N, 2000); n++ {
		out = append(out, al[n*c.Stride%len(al)].Text())
	}
	return out
})

// runSessions: every stride through every family.
func (r *Runner) runSessions() {
	var cs []*sessionCase
	for _, f := range []string{"everything", "growing", "reading"} {
		for st := 1; st <= pick(r.thorough(), 24, 120); st++ {
			if f == "growing" && st > 1 {
				break
			}
			n := pick(r.thorough(), 400, 1500)
			if st == 1 && f != "growing" {
				n = pick(r.thorough(), 1100, 4200)
			}
			cs = append(cs, &sessionCase{f, st, n})
		}
	}
	r.parallel(len(cs), func(slot, i int) {
		evalSession(r, slot, cs[i])
		r.count("states", int64(cs[i].N))
		r.count("transitions", int64(cs[i].N))
		r.count("traces_validated_against_impl", int64(cs[i].N))
	})
	r.note("%d sessions of %d commands in one application, each command judged", len(cs), cs[1].N)
}

// --- long histories (C16) ---

// longHistories: n commands, u taken back, d repeated, and perhaps a new command, for sizes around every usual capacity.
func longHistories(th bool) (out []*histCase) {
	sizes := rungs(pick(th, 24, 70), pick(th, 8, 10))
	dense := len(sizes)
	if !th {
		sizes = append(sizes, 300, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025)
	} else {
		sizes = append(sizes, 1999, 2000, 2001, 2047, 2048, 2049, 4097, 5001, 10001)
	}
	for at, n := range sizes {
		us, few := []int{0, 1, 2, n / 2, n - 1, n, n + 1}, at >= dense
		if few {
			us = []int{0, 1, n / 2, n, n + 1}
		}
		var cmds []Cmd
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("h%d", i/3)
			switch i % 3 {
			case 0:
				cmds = append(cmds, Cmd{Res: "item", Verb: "create", Id: id, Params: [][2]string{{"name", fmt.Sprint("n", i)}}})
			case 1:
				cmds = append(cmds, Cmd{Res: "item", Verb: "create-or-set", Id: id, Params: [][2]string{{"name", fmt.Sprint("m", i)}}})
			case 2:
				cmds = append(cmds, Cmd{Res: "item", Verb: "create-or-set", Id: "h0", Params: [][2]string{{"expanded", fmt.Sprint("e", i)}}})
			}
		}
		cmds = append(cmds, Cmd{Res: "item", Verb: "create", Id: "new"})
		k := len(cmds)
		for _, u := range us {
			for _, d := range []int{0, 1, u / 2, u, u + 1} {
				if few && d != 0 && d != u {
					continue
				}
				for _, extra := range []bool{false, true} {
					var st []int
					for i := 0; i < n; i++ {
						st = append(st, i)
					}
					for i := 0; i < u; i++ {
						st = append(st, k)
					}
					for i := 0; i < d; i++ {
						st = append(st, k+1)
					}
					if extra {
						st = append(st, n)
					}
					out = append(out, &histCase{Cmds: cmds, Steps: st})
				}
			}
		}
	}
	return
}

// near: texts that differ from t in one place.
func near(t string) []string {
	n := len(t)
	return []string{t[:n-1] + "Y", "X" + t[1:], t[:n/2] + "W" + t[n/2+1:], t + "!", t[:n-1]}
}

// ladderItemCfgs (C03): values and identifiers of each length against ones that differ in one place.
func ladderItemCfgs(th bool) (out []*Cfg) {
	for _, t := range ladder(pick(th, 72, 200), pick(th, 12, 16)) {
		al := []Op{createP("a", IP{Name: sp(t), Mech: sp(t), Exp: sp(t)}), create("a")}
		for _, o := range append(near(t), t) {
			al = append(al, createP("a", IP{Name: sp(o)}), createP("a", IP{Mech: sp(o)}), createP("a", IP{Exp: sp(o)}), set("a", IP{Name: sp(o)}), set("a", IP{Mech: sp(o)}), set("a", IP{Exp: sp(o)}), createP(o, IP{Name: sp("another")}), set(o, IP{Name: sp("its")}), nest(o, "a"), nest("a", o), del(o))
		}
		seed := append([]Op{createP("a", IP{Name: sp(t), Mech: sp(t), Exp: sp(t)}), createP(t, IP{Name: sp("long")}), createP(near(t)[0], IP{Name: sp("near")})}, rel("a", t))
		out = append(out, &Cfg{Name: fmt.Sprintf("length-%d", len(t)), Seed: seed, Alpha: append(al, Op{K: "Reload"}), Uni: append(near(t), t, "a"), Depth: 1})
	}
	return
}

// ladderRelCfgs (C04): the same for relationships and the identifiers of their ends.
func ladderRelCfgs(th bool) (out []*Cfg) {
	for _, t := range ladder(pick(th, 72, 200), pick(th, 12, 16)) {
		nr := near(t)
		ids := append([]string{"a", t}, nr...)
		seed := append(creates(ids...), relP("a", t, RP{Verb: sp(t), Mech: sp(t), Exp: sp(t)}), relP(t, nr[0], RP{Verb: sp("near")}), relP(nr[1], t, RP{Verb: sp("first")}))
		var al []Op
		for _, o := range append(nr, t) {
			al = append(al, relP("a", t, RP{Verb: sp(o)}), relP("a", t, RP{Mech: sp(o)}), relP("a", t, RP{Exp: sp(o)}), relSet("a", t, RP{Verb: sp(o)}), relSet("a", t, RP{Mech: sp(o)}), relSet("a", t, RP{Exp: sp(o)}), relP("a", o, RP{Verb: sp("x")}), relP(t, o, RP{Verb: sp("y")}), relP(o, t, RP{Verb: sp("z")}), relDel("a", o), relDel(t, o), relDel(o, t), del(o))
		}
		out = append(out, &Cfg{Name: fmt.Sprintf("length-%d", len(t)), Seed: seed, Alpha: append(al, Op{K: "Reload"}), Uni: ids, Depth: 1})
	}
	return
}

// ladderEq (C17): values of each length that are the same, or differ in one place.
func ladderEq(th bool) (out []pairCase) {
	for _, t := range ladder(pick(th, 72, 300), pick(th, 13, 18)) {
		for _, o := range append(near(t), t) {
			for f := 0; f < 4; f++ {
				a, b := world.Item{Id: "i"}, world.Item{Id: "i"}
				switch f {
				case 0:
					a.Id, b.Id = t, o
				case 1:
					a.Name, b.Name = t, o
				case 2:
					a.Mechanism, b.Mechanism = t, o
				case 3:
					a.Expanded, b.Expanded = t, o
				}
				out = append(out, pairCase{What: "item", IA: &a, IB: &b}, pairCase{What: "tree", A: "tree{" + a.String() + "::[]}", B: "tree{" + b.String() + "::[]}"},
					pairCase{What: "rel", RA: &world.Rel{From: a, To: world.Item{Id: "z"}}, RB: &world.Rel{From: b, To: world.Item{Id: "z"}}}, pairCase{What: "rel", RA: &world.Rel{To: a, From: world.Item{Id: "z"}}, RB: &world.Rel{To: b, From: world.Item{Id: "z"}}})
			}
			for f := 0; f < 3; f++ {
				a, b := world.Rel{From: world.Item{Id: "i"}, To: world.Item{Id: "j"}}, world.Rel{From: world.Item{Id: "i"}, To: world.Item{Id: "j"}}
				switch f {
				case 0:
					a.Verb, b.Verb = t, o
				case 1:
					a.Mechanism, b.Mechanism = t, o
				case 2:
					a.Expanded, b.Expanded = t, o
				}
				out = append(out, pairCase{What: "rel", RA: &a, RB: &b})
			}
		}
	}
	return
}

// ladderEqWorlds (C17): the same for the fields of whole worlds, versions included.
func ladderEqWorlds(th bool) (out []eqCase) {
	for _, t := range ladder(pick(th, 40, 300), pick(th, 12, 16)) {
		for _, f := range worldFields {
			a := (&fieldCase{f, t}).ops()
			for _, o := range append(near(t), t) {
				out = append(out, eqCase{A: a, B: (&fieldCase{f, o}).ops()})
			}
		}
	}
	for _, v := range rungs(20, 62) {
		for _, x := range []int{v, v - 1, v + 1, -v, v ^ 256, v ^ (1 << 32)} {
			out = append(out, eqCase{A: []Op{create("a"), {K: "SetVersion", N: v}}, B: []Op{create("a"), {K: "SetVersion", N: x}}})
		}
	}
	return
}

// sizedCase (C08): a world with one description of the given length, and the given number of worlds beside it.
type sizedCase struct {
	Len    int `json:"length"`
	Worlds int `json:"worlds"`
}

var evalSized = kind("sized", func(tier string, c *sizedCase) string {
	d := newDisk(1)
	defer d.close()
	uni := []string{"a", "b c"}
	save := func(ops []Op, m *M) string {
		w := world.CreateWorld(m.Name)
		s := &Sut{W: w}
		for _, o := range ops {
			s.apply(o)
		}
		d.w, d.m = w, m
		return d.do(Op{K: "Save"}, uni)
	}
	for i := 0; i < c.Worlds; i++ {
		name := fmt.Sprintf("w%04d", i*7919%c.Worlds)
		if i%3 == 0 {
			name += ".v1"
		}
		if msg := save(content(i%3, name)); msg != "" {
			return msg
		}
	}
	if c.Len > 0 {
		for _, n := range []int{c.Len, c.Len + 1, c.Len/2 + 1} { // longer, then shorter than before
			t := strings.Repeat(ladderText, n/len(ladderText)+1)[:n-1] + "Z"
			t = strings.Map(func(r rune) rune {
				if strings.ContainsRune(quotable, r) {
					return r
				}
				return '_'
			}, t)
			ops := []Op{{K: "ItemCreate", A: "a", IP: &IP{Name: sp("x")}}, {K: "ItemCreate", A: "b c", IP: &IP{Exp: sp(t)}}}
			m := NewM("sized")
			for _, o := range ops {
				m.step(o)
			}
			if msg := save(ops, m); msg != "" {
				return msg
			}
			if msg := d.judge(uni); msg != "" {
				return msg
			}
		}
	}
	return d.judge(uni)
}, func(tier string, c *sizedCase) []string {
	return []string{fmt.Sprintf("%d worlds saved in one location, and one whose description has %d characters", c.Worlds, c.Len)}
})

func (r *Runner) runSized() {
	var cs []sizedCase
	for _, n := range rungs(pick(r.thorough(), 40, 200), pick(r.thorough(), 20, 23)) {
		cs = append(cs, sizedCase{Len: n, Worlds: 1})
	}
	for _, n := range rungs(24, pick(r.thorough(), 10, 12)) {
		cs = append(cs, sizedCase{Worlds: n})
	}
	r.parallel(len(cs), func(slot, i int) { evalSized(r, slot, &cs[i]) })
	r.count("states", int64(len(cs)))
	r.count("transitions", int64(len(cs)))
	r.count("traces_validated_against_impl", int64(len(cs)))
	r.note("sizes: %d worlds of up to 2^%d characters or locations of up to 2^%d worlds", len(cs), pick(r.thorough(), 20, 23), pick(r.thorough(), 10, 12))
}

// --- long sessions of lines (C13, C19, C22) ---

// sessionLines: n lines of the alphabet in steps of stride.
func sessionLines(al []string, stride, n int) (out []string) {
	for i := 0; i < n; i++ {
		out = append(out, al[i*stride%len(al)])
	}
	return
}

// lengthLines: a line of each length, of several kinds, accepted ones and others, with a look at the end.
func lengthLines(dense, top int) (out [][]string) {
	for _, w := range ladderWords(dense, top) {
		out = append(out, []string{"item create " + w, "item set " + w + ` name="` + w + `"`, "item create b", "nest b in " + w, "rel create b " + w + ` verb="` + w + ` x"`, "item fetch " + w, "bogus " + w, w, strings.Repeat(" ", len(w)), strings.Repeat(" ", len(w)) + "item fetch b", "item create c" + strings.Repeat("\t", len(w)), "world"})
	}
	return
}

var evalLineSession = kind("line-session", func(tier string, c *linesCase) string {
	s := newSut("w")
	for n, line := range c.Lines {
		where := fmt.Sprintf("line %d of the session, %s: ", n+1, showLine([]byte(line)))
		h := len(s.App.History())
		reply := s.App.Exec(line)
		p, err := grammar.Parse(reply)
		if err != nil || p.StmtType != "Response" && p.StmtType != "Status" {
			return where + "the answer is not a response or status of the grammar: " + clip(reply, 300)
		}
		r, err := readReply(reply)
		if err != nil {
			return where + fmt.Sprintf("the answer cannot be read (%v): %s", err, clip(reply, 300))
		}
		_, v := readCommand(line)
		switch {
		case r.Code == 200 && v == notCmd:
			return where + "the line is not a command but is answered with success"
		case r.Code == 200 && len(s.App.History()) != h+1:
			return where + fmt.Sprintf("answered with success but the history goes from %d to %d commands", h, len(s.App.History()))
		case r.Code != 200 && (r.Code < 400 || r.Code > 599):
			return where + "neither success nor an error code: " + clip(reply, 300)
		case v == notCmd && len(s.App.History()) != h:
			return where + fmt.Sprintf("the line is not a command but the history goes from %d to %d commands", h, len(s.App.History()))
		}
	}
	return ""
}, describeLines)
