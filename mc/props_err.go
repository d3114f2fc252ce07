package main

// C21: error codes of refused operations, and the error builder.

import (
	stderrors "errors"
	"fmt"
	"slices"
	"strings"
	"time"

	terr "github.com/williamflynt/topolith/pkg/errors"
)

func c21(x *Step) string {
	if x.Pre == nil || x.Bad != "" || x.Op.K == "Exec" || x.Op.K == "Reload" {
		return ""
	}
	want := x.Pre.Clone()
	res, _ := want.step(x.Op)
	if res.Err <= 0 {
		return ""
	}
	if c := errCode(x.Out.Err); c != res.Err {
		return fmt.Sprintf("%s: %s must be refused with code %d, it reports %v", x.where(), x.Op, res.Err, x.Out.Err)
	}
	return ""
}

func c21Cfgs(tier string) []*Cfg {
	th := tier == "thorough"
	ids := []string{"a", "b", "zz"}
	var al []Op
	for _, i := range ids {
		if i != "zz" {
			al = append(al, create(i), del(i))
		}
		al = append(al, free(i), set(i, IP{Name: sp("x")}), set(i, IP{}))
		for _, j := range ids {
			al = append(al, nest(i, j), relSet(i, j, RP{Exp: sp("e")}))
			if i == "zz" || j == "zz" {
				al = append(al, rel(i, j), relP(i, j, RP{Verb: sp("x")}))
			}
		}
	}
	al = append(al, rel("a", "b"), rel("b", "b"), relP("b", "a", RP{Verb: sp("r")}), relDel("a", "b"), nest("a", ""), nest("", "a"), free(""), set("", IP{}), rel("", "a"), rel("a", ""), relSet("", "", RP{}))
	// Conflicts: every attribute given differently from what is there, alone and with agreeing ones.
	vals := []IP{{External: bp(true)}, {External: bp(false)}, {Type: sp("code")}, {Type: sp("person")}, {Type: sp("")}, {Name: sp("n")}, {Name: sp("")}, {Mech: sp("m")}, {Mech: sp("")}, {Exp: sp("e")}, {Exp: sp("")},
		{External: bp(true), Type: sp("code"), Name: sp("n"), Mech: sp("m"), Exp: sp("e")}, {Type: sp("code"), Name: sp("n"), Mech: sp("m"), Exp: sp("x")}}
	var conf []Op
	for _, v := range vals {
		conf = append(conf, createP("a", v), set("a", v))
	}
	rvals := []RP{{Verb: sp("v")}, {Verb: sp("")}, {Mech: sp("m")}, {Mech: sp("")}, {Async: bp(true)}, {Async: bp(false)}, {Exp: sp("e")}, {Exp: sp("")}, {Verb: sp("v"), Mech: sp("m"), Async: bp(true), Exp: sp("e")}, {Verb: sp("v"), Exp: sp("x")}}
	var rconf []Op
	for _, v := range rvals {
		rconf = append(rconf, relP("a", "b", v), relSet("a", "b", v))
	}
	rconf = append(rconf, relDel("a", "b"), relP("b", "a", RP{Verb: sp("w")}), del("a"), create("a"))
	return []*Cfg{
		{Name: "missing", Alpha: al, Uni: ids, Depth: pick(th, 4, 5)},
		{Name: "item-conflicts", Alpha: conf, Uni: []string{"a"}, Depth: pick(th, 4, 0)},
		{Name: "rel-conflicts", Seed: creates("a", "b"), Alpha: rconf, Uni: []string{"a", "b"}, Depth: pick(th, 4, 5)},
		{Name: "family", Seed: family(), Alpha: append(moves([]string{"a", "b", "c", "d"}), createP("b", IP{Name: sp("z")}), relP("b", "d", RP{Verb: sp("z")}), rel("b", "zz"), relSet("d", "a", RP{}), set("zz", IP{}), nest("b", "zz"), free("zz")), Uni: append(letters(4), "zz"), Depth: pick(th, 3, 4)},
	}
}

// --- the builder ---

type errModel struct {
	code int
	desc string
	msg  string
	data []terr.KvPair
	errs []error
}

func (m errModel) clone() errModel {
	m.data = slices.Clone(m.data)
	m.errs = slices.Clone(m.errs)
	return m
}

var cause1, cause2, cause3 = stderrors.New("first cause"), stderrors.New("second cause"), stderrors.New("third cause")

type errOp struct {
	name string
	real func(e terr.TopolithError, all []terr.TopolithError) terr.TopolithError
	mod  func(m errModel, all []terr.TopolithError) errModel
}

func kv(k string) terr.KvPair { return terr.KvPair{Key: k, Value: "value of " + k} }

var errOps = []errOp{
	{"UseCode(404)", func(e terr.TopolithError, _ []terr.TopolithError) terr.TopolithError {
		return e.UseCode(terr.TopolithErrorNotFound)
	},
		func(m errModel, _ []terr.TopolithError) errModel { m.code, m.desc = 404, "?"; return m }},
	{"UseCode(409)", func(e terr.TopolithError, _ []terr.TopolithError) terr.TopolithError {
		return e.UseCode(terr.TopolithErrorConflict)
	},
		func(m errModel, _ []terr.TopolithError) errModel { m.code, m.desc = 409, "?"; return m }},
	{"WithDescription(d)", func(e terr.TopolithError, _ []terr.TopolithError) terr.TopolithError { return e.WithDescription("d") },
		func(m errModel, _ []terr.TopolithError) errModel { m.desc = "d"; return m }},
	{"WithData(x)", func(e terr.TopolithError, _ []terr.TopolithError) terr.TopolithError { return e.WithData(kv("x")) },
		func(m errModel, _ []terr.TopolithError) errModel { m.data = append(m.data, kv("x")); return m }},
	{"WithData(y,z)", func(e terr.TopolithError, _ []terr.TopolithError) terr.TopolithError {
		l := []terr.KvPair{kv("y"), kv("z"), kv("spare")}[:2]
		r := e.WithData(l...)
		l[0], l[1] = kv("overwritten"), kv("overwritten")
		_ = append(l, kv("overwritten"))
		return r
	}, func(m errModel, _ []terr.TopolithError) errModel { m.data = append(m.data, kv("y"), kv("z")); return m }},
	{"ClearData()", func(e terr.TopolithError, _ []terr.TopolithError) terr.TopolithError { return e.ClearData() },
		func(m errModel, _ []terr.TopolithError) errModel { m.data = nil; return m }},
	{"WithError(first)", func(e terr.TopolithError, _ []terr.TopolithError) terr.TopolithError { return e.WithError(cause1) },
		func(m errModel, _ []terr.TopolithError) errModel { m.errs = append(m.errs, cause1); return m }},
	{"WithError(second,third)", func(e terr.TopolithError, _ []terr.TopolithError) terr.TopolithError {
		l := []error{cause2, cause3, cause1}[:2]
		r := e.WithError(l...)
		l[0], l[1] = cause1, cause1
		return r
	}, func(m errModel, _ []terr.TopolithError) errModel { m.errs = append(m.errs, cause2, cause3); return m }},
	{"WithError(newest value)", func(e terr.TopolithError, all []terr.TopolithError) terr.TopolithError {
		return e.WithError(all[len(all)-1])
	},
		func(m errModel, all []terr.TopolithError) errModel {
			m.errs = append(m.errs, all[len(all)-1])
			return m
		}},
	{"Join(value, first)", func(e terr.TopolithError, _ []terr.TopolithError) terr.TopolithError {
		return terr.Join(e, nil, cause1)
	},
		func(m errModel, all []terr.TopolithError) errModel {
			return errModel{code: int(terr.TopolithErrorMultiple), desc: "?", msg: "?", errs: nil}
		}},
}

type errCase struct {
	Steps [][2]int `json:"steps"` // value to derive from, operation
}

func errText(c *errCase) (out []string) {
	out = append(out, "v0 = New(message)")
	for i, s := range c.Steps {
		out = append(out, fmt.Sprintf("v%d = v%d.%s", i+1, s[0], errOps[s[1]].name))
	}
	return
}

func showErr(e terr.TopolithError) string {
	return fmt.Sprintf("code=%d description=%q message=%q data=%v text=%s cause=%v", e.Code, e.Description, e.Message, e.Data, e.Error(), e.Unwrap())
}

func errMsg(e terr.TopolithError, m errModel) string {
	switch {
	case int(e.Code) != m.code:
		return fmt.Sprintf("has the code %d, should have %d", e.Code, m.code)
	case m.msg != "?" && e.Message != m.msg:
		return fmt.Sprintf("has the message %q, should have %q", e.Message, m.msg)
	case m.desc != "?" && e.Description != m.desc:
		return fmt.Sprintf("has the description %q, should have %q", e.Description, m.desc)
	case !slices.Equal(e.Data, m.data):
		return fmt.Sprintf("has the data %v, should have %v", e.Data, m.data)
	}
	if len(m.errs) == 0 {
		if e.Unwrap() != nil {
			return fmt.Sprintf("wraps %v, should wrap nothing", e.Unwrap())
		}
		return ""
	}
	if u := e.Unwrap(); u == nil || u.Error() != m.errs[0].Error() {
		return fmt.Sprintf("unwraps to %v, should unwrap to %v", u, m.errs[0])
	}
	rest := e.Error()
	for _, c := range m.errs {
		i := strings.Index(rest, c.Error())
		if i < 0 {
			return fmt.Sprintf("its text does not list the cause %v in order: %s", c, e.Error())
		}
		rest = rest[i+len(c.Error()):]
	}
	for _, c := range []error{cause1, cause2, cause3} {
		if stderrors.Is(m.errs[0], c) && !stderrors.Is(e, c) {
			return fmt.Sprintf("errors.Is does not find the cause %v", c)
		}
	}
	return ""
}

var evalErr = kind("error-values", func(tier string, c *errCase) string {
	vals := []terr.TopolithError{terr.New("message")}
	mods := []errModel{{code: int(vals[0].Code), desc: vals[0].Description, msg: "message"}}
	shown := []string{showErr(vals[0])}
	for n, s := range c.Steps {
		op := errOps[s[1]]
		all := slices.Clone(vals)
		v := op.real(vals[s[0]], all)
		m := op.mod(mods[s[0]].clone(), all)
		if strings.HasPrefix(op.name, "Join") {
			m.errs = []error{vals[s[0]], cause1}
		}
		vals, mods = append(vals, v), append(mods, m)
		shown = append(shown, showErr(v))
		if n < len(c.Steps)-1 {
			continue
		}
		for i := range vals {
			if msg := errMsg(vals[i], mods[i]); msg != "" {
				return fmt.Sprintf("%s: v%d %s", strings.Join(errText(c), "; "), i, msg)
			}
			if now := showErr(vals[i]); now != shown[i] {
				return fmt.Sprintf("%s: v%d was %s and is now %s", strings.Join(errText(c), "; "), i, shown[i], now)
			}
		}
	}
	return ""
}, func(tier string, c *errCase) []string { return errText(c) })

type codeCase struct {
	Code int `json:"code"`
	Base int `json:"base"`
}

// codeBases: values to give the code to.
var codeBases = []func() terr.TopolithError{
	func() terr.TopolithError { return terr.New("message") },
	func() terr.TopolithError {
		return terr.New("other: message").UseCode(terr.TopolithErrorNotFound).WithData(kv("a"), kv("b")).WithError(cause1, cause2)
	},
	func() terr.TopolithError {
		return terr.New("m").UseCode(terr.TopolithErrorConflict).WithDescription("mine").WithError(cause3)
	},
}

var evalCode = kind("error-code", func(tier string, c *codeCase) string {
	e := codeBases[c.Base]()
	before := showErr(e)
	v := e.UseCode(terr.TopolithErrorCode(c.Code))
	if int(v.Code) != c.Code {
		return fmt.Sprintf("UseCode(%d) gives the code %d", c.Code, v.Code)
	}
	if showErr(e) != before {
		return fmt.Sprintf("UseCode(%d) changes the value it is called on from %s to %s", c.Code, before, showErr(e))
	}
	w := v.WithDescription(e.Description)
	w.Code = e.Code
	if got := showErr(w); got != before {
		return fmt.Sprintf("UseCode(%d) changes more than code and description: %s, should be %s", c.Code, got, before)
	}
	if t := v.Error(); !strings.HasPrefix(t, fmt.Sprintf("%d error ", c.Code)) {
		return fmt.Sprintf("after UseCode(%d) the text is %s", c.Code, t)
	}
	return ""
}, nil)

func runC21(r *Runner) {
	r.exploreAll(stdOrders("quick"))
	for code := 0; code <= 1100; code++ {
		for b := range codeBases {
			evalCode(r, 0, &codeCase{code, b})
		}
	}
	r.count("states", 1101*3)
	r.count("transitions", 1101*3)
	r.count("traces_validated_against_impl", 1101*3)
	steps := pick(r.thorough(), 4, 5)
	n := int64(0)
	feed(r, func(emit func(*errCase) bool) {
		var rec func(cur [][2]int) bool
		rec = func(cur [][2]int) bool {
			if len(cur) > 0 {
				n++
				if !emit(&errCase{slices.Clone(cur)}) {
					return false
				}
			}
			if len(cur) == steps {
				return true
			}
			for v := 0; v <= len(cur); v++ {
				for o := range errOps {
					if !rec(append(cur, [2]int{v, o})) {
						return false
					}
				}
			}
			return true
		}
		rec(nil)
		// Long derivations from one value: the growth steps of slices.
		for _, o := range []int{3, 4, 6, 7} {
			for l := 1; l <= 20; l++ {
				for back := 1; back <= 3 && back <= l; back++ {
					for _, o2 := range []int{3, 4, 6, 7} {
						var st [][2]int
						for i := 0; i < l; i++ {
							st = append(st, [2]int{i, o})
						}
						st = append(st, [2]int{l - back, o2}, [2]int{l, o2})
						n++
						if !emit(&errCase{st}) {
							return
						}
					}
				}
			}
		}
	}, func(slot int, c *errCase) { evalErr(r, slot, c) })
	r.count("states", n)
	r.count("transitions", n)
	r.count("traces_validated_against_impl", n)
	r.note("error values: %d derivation trees of up to %d steps over %d operations", n, steps, len(errOps))
	r.sample("%s", strings.Join(errText(&errCase{[][2]int{{0, 3}, {1, 4}, {1, 3}}}), "; "))
}

func init() {
	cfgMakers["C21"] = func(tier string) []*Cfg { return prefixed("C21", c21Cfgs(tier), c21) }
	props["C21"] = &Prop{Level: "model_checking", Run: runC21, Quick: 5 * time.Minute, Thorough: 13 * time.Minute,
		Rule: "every refused operation in every state over the alphabets, its code compared with the cause; every tree of derivations of error values up to the stated size, every earlier value compared with what it was"}
}
