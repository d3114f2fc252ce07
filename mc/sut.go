package main

// The system under test: real worlds and applications, driven through their public API.

import (
	"encoding/json"
	stderrors "errors"
	"fmt"
	"strings"

	"github.com/williamflynt/topolith/pkg/app"
	terr "github.com/williamflynt/topolith/pkg/errors"
	"github.com/williamflynt/topolith/pkg/world"
)

// Op is one step of a history.
type Op struct {
	K   string `json:"k"` // ItemCreate ItemDelete ItemSet RelCreate RelDelete RelSet Nest Free SetName SetExpanded SetId SetVersion Reload Exec Undo Redo Query
	A   string `json:"a,omitempty"`
	B   string `json:"b,omitempty"`
	IP  *IP    `json:"ip,omitempty"`
	RP  *RP    `json:"rp,omitempty"`
	Cmd *Cmd   `json:"cmd,omitempty"`
	N   int    `json:"n,omitempty"`
}

func (o Op) String() string {
	switch o.K {
	case "Exec":
		return fmt.Sprintf("Exec(%q)", o.Cmd.Text())
	}
	s := o.K + "(" + q(o.A)
	if o.B != "" || o.K == "Nest" || strings.HasPrefix(o.K, "Rel") && o.K != "Reload" {
		s += ", " + q(o.B)
	}
	if o.IP != nil {
		b, _ := json.Marshal(o.IP)
		s += ", " + string(b)
	}
	if o.RP != nil {
		b, _ := json.Marshal(o.RP)
		s += ", " + string(b)
	}
	if o.K == "SetVersion" {
		s += fmt.Sprint(o.N)
	}
	return s + ")"
}

func opsString(ops []Op) string {
	var w []string
	for _, o := range ops {
		w = append(w, o.String())
	}
	return strings.Join(w, "; ")
}

type Sut struct {
	App app.App
	W   world.World
}

func newSut(name string) *Sut {
	w := world.CreateWorld(name)
	a, err := app.NewApp(w)
	if err != nil {
		panic(err)
	}
	return &Sut{App: a, W: w}
}

func (p *IP) real() world.ItemParams {
	if p == nil {
		return world.ItemParams{}
	}
	// Copies, so that the world never shares memory with the harness.
	r := world.ItemParams{}
	if p.External != nil {
		r.External = bp(*p.External)
	}
	if p.Type != nil {
		r.Type = sp(*p.Type)
	}
	if p.Name != nil {
		r.Name = sp(*p.Name)
	}
	if p.Mech != nil {
		r.Mechanism = sp(*p.Mech)
	}
	if p.Exp != nil {
		r.Expanded = sp(*p.Exp)
	}
	return r
}

func (p *RP) real() world.RelParams {
	if p == nil {
		return world.RelParams{}
	}
	r := world.RelParams{}
	if p.Verb != nil {
		r.Verb = sp(*p.Verb)
	}
	if p.Mech != nil {
		r.Mechanism = sp(*p.Mech)
	}
	if p.Async != nil {
		r.Async = bp(*p.Async)
	}
	if p.Exp != nil {
		r.Expanded = sp(*p.Exp)
	}
	return r
}

func (p *IP) val() IP {
	if p == nil {
		return IP{}
	}
	return *p
}
func (p *RP) val() RP {
	if p == nil {
		return RP{}
	}
	return *p
}

// Outcome is what a step of the real system reported.
type Outcome struct {
	Err    error
	Item   *world.Item
	Rel    *world.Rel
	Reply  string
	Loaded bool
}

func errCode(err error) int {
	if err == nil {
		return 0
	}
	var te terr.TopolithError
	if stderrors.As(err, &te) {
		return int(te.Code)
	}
	return -1
}

func withItem(w world.WorldWithItem) Outcome {
	it, err := w.Item()
	if e2 := w.Err(); (err == nil) != (e2 == nil) {
		return Outcome{Err: fmt.Errorf("Item() reports error %v but Err() reports %v", err, e2), Item: &it}
	}
	return Outcome{Err: err, Item: &it}
}

func withRel(w world.WorldWithRel) Outcome {
	r, err := w.Rel()
	if e2 := w.Err(); (err == nil) != (e2 == nil) {
		return Outcome{Err: fmt.Errorf("Rel() reports error %v but Err() reports %v", err, e2), Rel: &r}
	}
	return Outcome{Err: err, Rel: &r}
}

// apply performs one step on the real system.
func (s *Sut) apply(o Op) Outcome {
	beginOrder()
	w := s.W
	switch o.K {
	case "ItemCreate":
		return withItem(w.ItemCreate(o.A, o.IP.real()))
	case "ItemDelete":
		return Outcome{Err: w.ItemDelete(o.A).Err()}
	case "ItemSet":
		return withItem(w.ItemSet(o.A, o.IP.real()))
	case "RelCreate":
		return withRel(w.RelCreate(o.A, o.B, o.RP.real()))
	case "RelDelete":
		return Outcome{Err: w.RelDelete(o.A, o.B).Err()}
	case "RelSet":
		return withRel(w.RelSet(o.A, o.B, o.RP.real()))
	case "Nest":
		return withItem(w.Nest(o.A, o.B))
	case "Free":
		return withItem(w.Free(o.A))
	case "SetName":
		w.SetName(o.A)
	case "SetExpanded":
		w.SetExpanded(o.A)
	case "SetId":
		w.SetId(o.A)
	case "SetVersion":
		w.SetVersion(o.N)
	case "Reload":
		w2, err := world.FromString(w.String())
		if err != nil {
			return Outcome{Err: err}
		}
		a, err := app.NewApp(w2)
		if err != nil {
			return Outcome{Err: err}
		}
		s.W, s.App = w2, a
	case "Exec":
		return Outcome{Reply: s.App.Exec(o.Cmd.Text())}
	case "Undo": // the public way: the last command in the history
		if h := s.App.History(); len(h) > 0 {
			return Outcome{Err: h[len(h)-1].Undo(w)}
		}
		return Outcome{}
	case "AppUndo":
		err, n := appUndo(s.App)
		_ = n
		return Outcome{Err: err}
	case "AppRedo":
		err, n := appRedo(s.App)
		_ = n
		return Outcome{Err: err}
	default:
		panic("unknown op " + o.K)
	}
	return Outcome{}
}

// step applies the same operation to the model. The answer for Exec is in ans.
func (m *M) step(o Op) (res Res, ans Answer) {
	switch o.K {
	case "ItemCreate":
		res = m.ItemCreate(o.A, o.IP.val())
	case "ItemDelete":
		res = m.ItemDelete(o.A)
	case "ItemSet":
		res = m.ItemSet(o.A, o.IP.val())
	case "RelCreate":
		res = m.RelCreate(o.A, o.B, o.RP.val())
	case "RelDelete":
		res = m.RelDelete(o.A, o.B)
	case "RelSet":
		res = m.RelSet(o.A, o.B, o.RP.val())
	case "Nest":
		res = m.Nest(o.A, o.B)
	case "Free":
		res = m.Free(o.A)
	case "SetName":
		m.Name = o.A
	case "SetExpanded":
		m.Exp = o.A
	case "SetId":
		m.Id = o.A
	case "SetVersion":
		m.Version = o.N
	case "Reload":
	case "Exec":
		ans = m.Exec(*o.Cmd)
	default:
		panic("model: unknown op " + o.K)
	}
	return
}

// --- views of the real world, converted to model terms ---

func iattr(i world.Item) IAttr {
	return IAttr{External: i.External, Type: int(i.Type), Name: i.Name, Mech: i.Mechanism, Exp: i.Expanded}
}

func rattr(r world.Rel) RAttr {
	return RAttr{Verb: r.Verb, Mech: r.Mechanism, Async: r.Async, Exp: r.Expanded}
}

func attrStr(a IAttr) string {
	if a.Type < 0 || a.Type >= len(typeNames) {
		return fmt.Sprintf("{bad type %d}", a.Type)
	}
	return a.String()
}

func newAppOn(w world.World) (app.App, error) { return app.NewApp(w) }
