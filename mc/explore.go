package main

// Explicit-state search over the real implementation. A state is the history that reaches it; it is rebuilt by
// replaying that history on a fresh world. States with the same heap graph (heapKey) are merged.

import (
	"fmt"
	"strings"
	"sync"
)

// Cfg is one bounded space: all histories over Alpha (after Seed) up to Depth, or to a fixpoint when Depth is 0.
type Cfg struct {
	Name  string
	World string
	Seed  []Op
	Alpha []Op
	Depth int
	Raw   bool // leave the "latest" trackers of the world as they are between operations
	App   bool // merge on the application (history included) instead of the world
	Uni   []string
	Ok    []Op // C14: operations tried after a failure
	Check func(x *Step) string
	Stop  func(x *Step) bool // do not explore beyond this state
}

// Step is what a check sees: the observation before, the operation, what it reported, and the world after it.
type Step struct {
	Cfg   *Cfg
	Pre   *M // observation before the operation (nil for the initial state)
	Op    Op // K == "" for the initial state
	Out   Outcome
	S     *Sut
	Path  []int
	Post  *M
	Bad   string // why there is no proper observation after the operation
	Fresh func() *Sut
}

type stepCase struct {
	Cfg  string `json:"cfg"`
	Path []int  `json:"path"`

	pre *M
	out *stepOut
}
type stepOut struct {
	leaf bool // not explored further: counted by what is observed
	key  string
	post *M
	stop bool
}

// cfgs holds the registered configurations of a property, built per tier.
var cfgMakers = map[string]func(tier string) []*Cfg{}

var cfgCache sync.Map

func cfgsOf(prop, tier string) []*Cfg {
	k := prop + "/" + tier
	if v, ok := cfgCache.Load(k); ok {
		return v.([]*Cfg)
	}
	v, _ := cfgCache.LoadOrStore(k, cfgMakers[prop](tier))
	return v.([]*Cfg)
}

var cfgByName sync.Map

func findCfg(name, tier string) *Cfg {
	if c, ok := cfgByName.Load(tier + "/" + name); ok {
		return c.(*Cfg)
	}
	prop, _, _ := strings.Cut(name, "/")
	if cfgMakers[prop] != nil {
		for _, c := range cfgsOf(prop, tier) {
			cfgByName.Store(tier+"/"+c.Name, c)
		}
	}
	if c, ok := cfgByName.Load(tier + "/" + name); ok {
		return c.(*Cfg)
	}
	panic("no configuration " + name)
}

func (c *Cfg) fresh() *Sut {
	n := c.World
	if n == "" {
		n = "w"
	}
	s := newSut(n)
	for _, o := range c.Seed {
		s.apply(o)
		c.normal(s)
	}
	return s
}

// normal performs a query so that the trackers of the last operation do not multiply the states.
func (c *Cfg) normal(s *Sut) {
	if !c.Raw {
		s.W.In("", "", true)
	}
}

func (c *Cfg) at(path []int) *Sut {
	beginOrder()
	s := c.fresh()
	for _, i := range path {
		s.apply(c.Alpha[i])
		c.normal(s)
	}
	return s
}

func (c *Cfg) key(s *Sut) string {
	if c.App {
		return heapKey(s.App)
	}
	return heapKey(s.W)
}

func (c *Cfg) ops(path []int) []Op {
	out := append([]Op{}, c.Seed...)
	for _, i := range path {
		out = append(out, c.Alpha[i])
	}
	return out
}

var evalStep = kind("step", func(tier string, sc *stepCase) string {
	c := findCfg(sc.Cfg, tier)
	x := &Step{Cfg: c, Path: sc.Path}
	n := len(sc.Path)
	if n > 0 {
		x.Op = c.Alpha[sc.Path[n-1]]
		x.Pre = sc.pre
		if x.Pre == nil {
			m, bad := abstract(c.at(sc.Path[:n-1]).W, c.Uni)
			if bad != "" {
				return "" // judged as its own step
			}
			x.Pre = m
		}
		x.S = c.at(sc.Path[:n-1])
		x.Out = x.S.apply(x.Op)
	} else {
		x.S = c.fresh()
	}
	// The state is keyed on a world that only saw the operation and the normalising query: the check below may look
	// at the outcome first, so key a second replay only when it must stay untouched.
	var key string
	if sc.out != nil {
		if !c.Raw {
			c.normal(x.S)
		}
		if !sc.out.leaf {
			key = c.key(x.S)
		}
	}
	x.Post, x.Bad = abstract(x.S.W, c.Uni)
	x.Fresh = func() *Sut { return c.at(sc.Path) }
	msg := c.Check(x)
	if sc.out != nil {
		if sc.out.leaf && x.Bad == "" {
			key = x.Post.Canon()
		}
		sc.out.key, sc.out.post = key, x.Post
		sc.out.stop = x.Bad != "" || c.Stop != nil && c.Stop(x)
	}
	return msg
}, func(tier string, sc *stepCase) []string {
	c := findCfg(sc.Cfg, tier)
	var out []string
	for _, o := range c.ops(sc.Path) {
		out = append(out, o.String())
	}
	return out
})

type node struct {
	path []int
	pre  *M
}

// explore runs the breadth-first search for one configuration under the current map order.
func (r *Runner) explore(c *Cfg) {
	seen := map[string]bool{}
	o := &stepOut{}
	if !evalStep(r, 0, &stepCase{Cfg: c.Name, Path: []int{}, out: o}) || o.post == nil {
		return
	}
	seen[o.key] = true
	frontier := []node{{[]int{}, o.post}}
	states, trans, depth := int64(1), int64(0), 0
	for len(frontier) > 0 && !r.done() {
		if c.Depth > 0 && depth == c.Depth {
			break
		}
		depth++
		k := len(c.Alpha)
		outs := make([]stepOut, len(frontier)*k)
		r.parallel(len(outs), func(slot, i int) {
			nd := frontier[i/k]
			path := append(append(make([]int, 0, len(nd.path)+1), nd.path...), i%k)
			outs[i].leaf = depth == c.Depth
			evalStep(r, slot, &stepCase{Cfg: c.Name, Path: path, pre: nd.pre, out: &outs[i]})
		})
		var next []node
		for i := range outs {
			if outs[i].post == nil {
				continue // not evaluated: stopped
			}
			trans++
			if outs[i].stop || seen[outs[i].key] {
				continue
			}
			seen[outs[i].key] = true
			nd := frontier[i/k]
			next = append(next, node{append(append(make([]int, 0, len(nd.path)+1), nd.path...), i%k), outs[i].post})
			states++
			if states%997 == 7 || states == 5 {
				r.sample("%s: %s", c.Name, opsString(c.ops(next[len(next)-1].path)))
			}
		}
		frontier = next
	}
	if r.order == permIdentity {
		r.count("states", states)
		r.count("transitions", trans)
		if c.Depth == 0 && len(frontier) == 0 {
			r.note("%s: %d states, %d transitions, fixpoint at depth %d", c.Name, states, trans, depth-1)
		} else {
			r.note("%s: %d states, %d transitions, all histories up to depth %d", c.Name, states, trans, depth)
		}
	}
	r.count("traces_validated_against_impl", trans)
	if len(frontier) > 0 && c.Depth == 0 && !r.done() {
		panic("explore: frontier left")
	}
}

// exploreAll explores every configuration of the property under the identity order and the given other orders.
func (r *Runner) exploreAll(orders []Perm) {
	cs := cfgsOf(r.prop, r.tier)
	for _, p := range append([]Perm{permIdentity}, orders...) {
		r.setOrder(p)
		for _, c := range cs {
			if r.done() {
				break
			}
			r.explore(c)
		}
	}
	r.setOrder(permIdentity)
	r.count("map_orders", int64(1+len(orders)))
}

func bfs(cfgs func(tier string) []*Cfg, orders func(tier string) []Perm) func(r *Runner) {
	return func(r *Runner) {
		r.exploreAll(orders(r.tier))
	}
}

func stdOrders(tier string) []Perm {
	if tier == "thorough" {
		return allPerms()
	}
	return quickPerms
}

func (x *Step) where() string {
	return fmt.Sprintf("after %s", opsString(x.Cfg.ops(x.Path)))
}
