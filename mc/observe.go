package main

// Reading a real world through its public API, and the consistency checks between its views.

import (
	"fmt"
	"sort"
	"strings"

	"github.com/williamflynt/topolith/pkg/world"
)

// abstract reads the primary views of a world into a model: ItemFetch and ItemList for items, Parent for
// containment, RelList for relationships. problem is non-empty when these do not form a proper world (an item whose
// parent is unknown, a containment cycle, a relationship listed twice); such states are judged by the properties
// that claim the opposite and are not explored further.
func abstract(w world.World, uni []string) (m *M, problem string) {
	beginOrder()
	m = &M{Version: w.Version(), Id: w.Id(), Name: w.Name(), Exp: w.Expanded(), Items: map[string]IAttr{}, Parent: map[string]string{}, Rels: map[RKey]RAttr{}}
	for _, id := range allIds(w, uni) {
		it, ok := w.ItemFetch(id)
		if !ok {
			continue
		}
		m.Items[id] = iattr(it)
	}
	for id := range m.Items {
		p, ok := w.Parent(id)
		if !ok {
			return m, fmt.Sprintf("item %q has no place in the hierarchy", id)
		}
		if _, there := m.Items[p]; p != "" && !there {
			return m, fmt.Sprintf("item %q has the parent %q, which does not exist", id, p)
		}
		m.Parent[id] = p
	}
	for id := range m.Items {
		for p, n := m.Parent[id], 0; p != ""; p = m.Parent[p] {
			if n++; n > len(m.Items) {
				return m, fmt.Sprintf("item %q is inside itself", id)
			}
		}
	}
	for _, r := range w.RelList(0) {
		k := RKey{r.From.Id, r.To.Id}
		if _, dup := m.Rels[k]; dup {
			problem = fmt.Sprintf("relationship %q -> %q is listed twice", k.F, k.T)
		}
		m.Rels[k] = rattr(r)
	}
	return m, problem
}

func allIds(w world.World, uni []string) []string {
	set := map[string]bool{}
	for _, id := range uni {
		set[id] = true
	}
	for _, it := range w.ItemList(0) {
		set[it.Id] = true
	}
	delete(set, "")
	return sortedKeys(set)
}

func sortedKeys(s map[string]bool) []string {
	out := make([]string, 0, len(s))
	for k := range s {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sortedCopy(s []string) []string {
	out := append([]string{}, s...)
	sort.Strings(out)
	return out
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func itemIds(its []world.Item) []string {
	out := make([]string, 0, len(its))
	for _, i := range its {
		out = append(out, i.Id)
	}
	return out
}

// --- C01: containment is a forest and all its views agree ---

func checkForest(w world.World, uni []string) string {
	uni = append(allIds(w, uni), "", "no-such-item")
	exists := map[string]bool{}
	for _, id := range uni {
		if _, ok := w.ItemFetch(id); ok {
			exists[id] = true
		}
	}
	parent := map[string]string{}
	comps := map[string][]string{}
	for _, id := range uni {
		p, ok := w.Parent(id)
		ip, ok2 := w.ItemParent(id)
		c, ok3 := w.Components(id)
		ic, ok4 := w.ItemComponents(id)
		if ok != exists[id] || ok2 != exists[id] || ok3 != exists[id] || ok4 != exists[id] {
			return fmt.Sprintf("item %q exists: %t, but is found by Parent: %t, ItemParent: %t, Components: %t, ItemComponents: %t", id, exists[id], ok, ok2, ok3, ok4)
		}
		if p != ip.Id {
			return fmt.Sprintf("Parent(%q) is %q but ItemParent is %q", id, p, ip.Id)
		}
		c, icIds := sortedCopy(c), sortedCopy(itemIds(ic))
		if !sameStrings(c, icIds) {
			return fmt.Sprintf("Components(%q) are %q but ItemComponents are %q", id, c, icIds)
		}
		if !exists[id] {
			if p != "" || len(c) > 0 {
				return fmt.Sprintf("item %q does not exist but has parent %q and components %q", id, p, c)
			}
			continue
		}
		if p != "" && !exists[p] {
			return fmt.Sprintf("item %q has the parent %q, which does not exist", id, p)
		}
		parent[id], comps[id] = p, c
	}
	for _, id := range uni {
		if !exists[id] {
			continue
		}
		var want []string
		for c, p := range parent {
			if p == id {
				want = append(want, c)
			}
		}
		sort.Strings(want)
		if !sameStrings(want, comps[id]) {
			return fmt.Sprintf("components of %q are reported as %q but the items whose parent is %q are %q", id, comps[id], id, want)
		}
		for p, n := parent[id], 0; p != ""; p = parent[p] {
			if p == id || n > len(parent) {
				return fmt.Sprintf("item %q is inside itself", id)
			}
			n++
		}
	}
	s := w.String()
	tw, err := readWorldText(s)
	if err != nil {
		// The header and the relationships are not this property's business: read the tree alone.
		i := strings.Index(s, "tree{")
		if i < 0 {
			return ""
		}
		p, lexErr := newTParser(s[i:])
		if lexErr != nil {
			return ""
		}
		n, terr := p.tree()
		if terr != nil {
			return ""
		}
		tw = &TWorld{Tree: n}
	}
	tp := map[string]string{}
	var bad string
	var walk func(n *TNode, par string)
	walk = func(n *TNode, par string) {
		for _, c := range n.Kids {
			if _, dup := tp[c.Item.Id]; dup && bad == "" {
				bad = fmt.Sprintf("item %q appears twice in the world's text", c.Item.Id)
			}
			tp[c.Item.Id] = par
			walk(c, c.Item.Id)
		}
	}
	walk(tw.Tree, "")
	if bad != "" {
		return bad
	}
	for id := range tp {
		if !exists[id] {
			return fmt.Sprintf("item %q is in the world's text but does not exist", id)
		}
	}
	for id, p := range parent {
		if q, ok := tp[id]; !ok {
			return fmt.Sprintf("item %q exists but is not in the hierarchy of the world's text", id)
		} else if q != p {
			return fmt.Sprintf("item %q has the parent %q, but %q in the world's text", id, p, q)
		}
	}
	return ""
}

// --- C03: one current value per attribute in every view ---

func checkItemViews(w world.World, uni []string) string {
	cur := map[string]IAttr{}
	ids := allIds(w, uni)
	for _, id := range ids {
		if it, ok := w.ItemFetch(id); ok {
			if it.Id != id {
				return fmt.Sprintf("ItemFetch(%q) returns the item %q", id, it.Id)
			}
			cur[id] = iattr(it)
		}
	}
	see := func(where string, it world.Item) string {
		if it.Id == "" {
			return ""
		}
		a, ok := cur[it.Id]
		if !ok {
			return fmt.Sprintf("%s shows the item %q, which ItemFetch does not find", where, it.Id)
		}
		if a != iattr(it) {
			return fmt.Sprintf("%s shows item %q as %s but its current attributes are %s", where, it.Id, attrStr(iattr(it)), attrStr(a))
		}
		return ""
	}
	for _, it := range w.ItemList(0) {
		if m := see("ItemList", it); m != "" {
			return m
		}
	}
	for _, id := range ids {
		if it, ok := w.ItemParent(id); ok {
			if m := see(fmt.Sprintf("ItemParent(%q)", id), it); m != "" {
				return m
			}
		}
		cs, _ := w.ItemComponents(id)
		for _, it := range cs {
			if m := see(fmt.Sprintf("ItemComponents(%q)", id), it); m != "" {
				return m
			}
		}
	}
	rels := func(where string, rs []world.Rel) string {
		for _, r := range rs {
			if m := see(where+" (source)", r.From); m != "" {
				return m
			}
			if m := see(where+" (target)", r.To); m != "" {
				return m
			}
		}
		return ""
	}
	if m := rels("RelList", w.RelList(0)); m != "" {
		return m
	}
	for _, a := range someOf(ids) {
		if m := rels(fmt.Sprintf("RelTo(%q)", a), w.RelTo(a, false)); m != "" {
			return m
		}
		if m := rels(fmt.Sprintf("RelFrom(%q)", a), w.RelFrom(a, false)); m != "" {
			return m
		}
		for _, b := range someOf(ids) {
			if m := rels(fmt.Sprintf("RelFetch(%q,%q)", a, b), w.RelFetch(a, b, true)); m != "" {
				return m
			}
			if m := rels(fmt.Sprintf("RelFetch(%q,%q,non-strict)", a, b), w.RelFetch(a, b, false)); m != "" {
				return m
			}
		}
	}
	if bad := unsafeTree(w, uni); bad {
		return ""
	}
	s := w.String()
	tw, err := readWorldText(s)
	if err != nil {
		return fmt.Sprintf("the world's text cannot be read (%v): %s", err, q(clip(s, 400)))
	}
	bad := ""
	var walk func(n *TNode)
	walk = func(n *TNode) {
		for _, c := range n.Kids {
			if a, ok := cur[c.Item.Id]; bad == "" && (!ok || a != c.Item.A) {
				bad = fmt.Sprintf("the world's text shows item %q as %s but its current attributes are %s", c.Item.Id, c.Item.A, attrStr(a))
			}
			walk(c)
		}
	}
	walk(tw.Tree)
	return bad
}

// unsafeTree reports whether Components() contains a cycle, in which case the text must not be asked for by
// properties that do not claim the absence of cycles.
func unsafeTree(w world.World, uni []string) bool {
	state := map[string]int{}
	var visit func(id string) bool
	visit = func(id string) bool {
		if state[id] == 1 {
			return true
		}
		if state[id] == 2 {
			return false
		}
		state[id] = 1
		cs, _ := w.Components(id)
		for _, c := range cs {
			if visit(c) {
				return true
			}
		}
		state[id] = 2
		return false
	}
	for _, id := range allIds(w, uni) {
		if visit(id) {
			return true
		}
	}
	return false
}

// --- C04: relationships, one per ordered pair, same in every view ---

func checkRelViews(w world.World, uni []string) string {
	cur := map[RKey]RAttr{}
	for _, r := range w.RelList(0) {
		k := RKey{r.From.Id, r.To.Id}
		if _, dup := cur[k]; dup {
			return fmt.Sprintf("relationship %q -> %q is listed twice", k.F, k.T)
		}
		cur[k] = rattr(r)
		for _, end := range []string{k.F, k.T} {
			if _, ok := w.ItemFetch(end); !ok {
				return fmt.Sprintf("relationship %q -> %q exists but item %q does not", k.F, k.T, end)
			}
		}
	}
	see := func(where string, r world.Rel) string {
		k := RKey{r.From.Id, r.To.Id}
		a, ok := cur[k]
		if !ok {
			return fmt.Sprintf("%s returns relationship %q -> %q, which is not listed", where, k.F, k.T)
		}
		if a != rattr(r) {
			return fmt.Sprintf("%s shows relationship %q -> %q as %s, the list shows %s", where, k.F, k.T, rattr(r), a)
		}
		return ""
	}
	ids := append(allIds(w, uni), "")
	near := map[string][]string{}
	if len(ids) > manyItems {
		for k := range cur {
			near[k.F] = append(near[k.F], k.T)
			near[k.T] = append(near[k.T], k.F)
		}
	}
	for _, a := range ids {
		for _, b := range append(someOf(ids), near[a]...) {
			rs := w.RelFetch(a, b, true)
			_, want := cur[RKey{a, b}]
			if len(rs) > 1 || (len(rs) == 1) != want {
				return fmt.Sprintf("relationship %q -> %q listed: %t, but a strict fetch returns %d", a, b, want, len(rs))
			}
			for _, r := range rs {
				if r.From.Id != a || r.To.Id != b {
					return fmt.Sprintf("a strict fetch of %q -> %q returns %q -> %q", a, b, r.From.Id, r.To.Id)
				}
				if m := see("RelFetch", r); m != "" {
					return m
				}
			}
		}
		for _, strict := range []bool{false, true} {
			if !strict && !contains(someOf(ids), a) {
				continue
			}
			for _, r := range w.RelTo(a, strict) {
				if m := see("RelTo", r); m != "" {
					return m
				}
			}
			for _, r := range w.RelFrom(a, strict) {
				if m := see("RelFrom", r); m != "" {
					return m
				}
			}
		}
	}
	if unsafeTree(w, uni) {
		return ""
	}
	tw, err := readWorldText(w.String())
	if err != nil {
		return fmt.Sprintf("the world's text cannot be read: %v", err)
	}
	n := map[RKey]int{}
	for _, r := range tw.Rels {
		a, ok := cur[r.K]
		if !ok {
			return fmt.Sprintf("the world's text has relationship %q -> %q, which does not exist", r.K.F, r.K.T)
		}
		if a != r.A {
			return fmt.Sprintf("the world's text shows relationship %q -> %q as %s but it is %s", r.K.F, r.K.T, r.A, a)
		}
		n[r.K]++
	}
	for k := range cur {
		if n[k] != 1 {
			return fmt.Sprintf("relationship %q -> %q occurs %d times in the world's text", k.F, k.T, n[k])
		}
	}
	return ""
}

// manyItems: in worlds larger than this, questions about two items are asked of the items at the ends and in the middle.
const manyItems = 45

func someOf(ids []string) []string {
	if len(ids) <= manyItems {
		return ids
	}
	return spots(ids)
}

// --- C05: queries against the hierarchy and the relationships ---

func relIds(rs []world.Rel) []string {
	out := make([]string, 0, len(rs))
	for _, r := range rs {
		out = append(out, q(r.From.Id)+"->"+q(r.To.Id))
	}
	sort.Strings(out)
	return out
}

func keyIds(ks []RKey) []string {
	out := make([]string, 0, len(ks))
	for _, k := range ks {
		out = append(out, q(k.F)+"->"+q(k.T))
	}
	sort.Strings(out)
	return out
}

func checkQueries(w world.World, uni []string) string {
	m, problem := abstract(w, uni)
	if problem != "" {
		return ""
	}
	ids := append(allIds(w, uni), "no-such-item", "")
	ids = append(someOf(ids), "no-such-item", "")
	for _, a := range ids {
		for _, strict := range []bool{false, true} {
			if got, want := relIds(w.RelTo(a, strict)), keyIds(m.relTo(a, strict)); !sameStrings(got, want) {
				return fmt.Sprintf("RelTo(%q, strict=%t) returns %s, should be %s in\n%s", a, strict, got, want, m.Canon())
			}
			if got, want := relIds(w.RelFrom(a, strict)), keyIds(m.relFrom(a, strict)); !sameStrings(got, want) {
				return fmt.Sprintf("RelFrom(%q, strict=%t) returns %s, should be %s in\n%s", a, strict, got, want, m.Canon())
			}
			for _, b := range ids {
				if got, want := relIds(w.RelFetch(a, b, strict)), keyIds(m.relFetch(a, b, strict)); !sameStrings(got, want) {
					return fmt.Sprintf("RelFetch(%q, %q, strict=%t) returns %s, should be %s in\n%s", a, b, strict, got, want, m.Canon())
				}
				got := w.In(a, b, strict)
				_, ea := m.Items[a]
				_, eb := m.Items[b]
				want := ea && eb && m.inside(a, b)
				if strict {
					want = ea && a == b
				} else if a == b {
					continue
				}
				if got != want {
					return fmt.Sprintf("In(%q, %q, strict=%t) is %t, should be %t in\n%s", a, b, strict, got, want, m.Canon())
				}
			}
		}
	}
	return ""
}

// --- differences between models, by aspect ---

const (
	aInfo = 1 << iota
	aItems
	aAttrs
	aPlace
	aRels
	aRelAttrs
	aAll = aInfo | aItems | aAttrs | aPlace | aRels | aRelAttrs
)

func diffM(want, got *M, asp int) string {
	var w []string
	if asp&aInfo != 0 {
		if want.Version != got.Version || want.Id != got.Id || want.Name != got.Name || want.Exp != got.Exp {
			w = append(w, fmt.Sprintf("world is v%d id=%q name=%q expanded=%q, should be v%d id=%q name=%q expanded=%q", got.Version, got.Id, got.Name, got.Exp, want.Version, want.Id, want.Name, want.Exp))
		}
	}
	ids := map[string]bool{}
	for id := range want.Items {
		ids[id] = true
	}
	for id := range got.Items {
		ids[id] = true
	}
	for _, id := range sortedKeys(ids) {
		a, ok1 := want.Items[id]
		b, ok2 := got.Items[id]
		if asp&aItems != 0 && ok1 != ok2 {
			if ok1 {
				w = append(w, fmt.Sprintf("item %q is missing", id))
			} else {
				w = append(w, fmt.Sprintf("item %q should not exist", id))
			}
		}
		if asp&aAttrs != 0 && ok1 && ok2 && a != b {
			w = append(w, fmt.Sprintf("item %q is %s, should be %s", id, attrStr(b), attrStr(a)))
		}
		if asp&aPlace != 0 && ok1 && ok2 && want.Parent[id] != got.Parent[id] {
			w = append(w, fmt.Sprintf("item %q is in %q, should be in %q", id, got.Parent[id], want.Parent[id]))
		}
	}
	ks := map[RKey]bool{}
	for k := range want.Rels {
		ks[k] = true
	}
	for k := range got.Rels {
		ks[k] = true
	}
	var kl []RKey
	for k := range ks {
		kl = append(kl, k)
	}
	sort.Slice(kl, func(i, j int) bool { return kl[i].F+"\x00"+kl[i].T < kl[j].F+"\x00"+kl[j].T })
	for _, k := range kl {
		a, ok1 := want.Rels[k]
		b, ok2 := got.Rels[k]
		if asp&aRels != 0 && ok1 != ok2 {
			if ok1 {
				w = append(w, fmt.Sprintf("relationship %q -> %q is missing", k.F, k.T))
			} else {
				w = append(w, fmt.Sprintf("relationship %q -> %q should not exist", k.F, k.T))
			}
		}
		if asp&aRelAttrs != 0 && ok1 && ok2 && a != b {
			w = append(w, fmt.Sprintf("relationship %q -> %q is %s, should be %s", k.F, k.T, b, a))
		}
	}
	return strings.Join(w, "; ")
}

// fullObs is everything observable of a world as one canonical text (for before/after comparisons). The text view
// is included through the independent reader, so that only content counts.
func fullObs(w world.World, uni []string) string {
	var b strings.Builder
	m, problem := abstract(w, uni)
	b.WriteString(m.Canon())
	b.WriteString(problem)
	var l []string
	for _, it := range w.ItemList(0) {
		l = append(l, it.Id+attrStr(iattr(it)))
	}
	sort.Strings(l)
	fmt.Fprintln(&b, "list", l)
	l = nil
	for _, r := range w.RelList(0) {
		l = append(l, fmt.Sprint(r.From.Id, attrStr(iattr(r.From)), r.To.Id, attrStr(iattr(r.To)), rattr(r)))
	}
	sort.Strings(l)
	fmt.Fprintln(&b, "rels", l)
	for _, id := range allIds(w, uni) {
		p, ok := w.ItemParent(id)
		cs, ok2 := w.ItemComponents(id)
		var c []string
		for _, it := range cs {
			c = append(c, it.Id+attrStr(iattr(it)))
		}
		sort.Strings(c)
		fmt.Fprintln(&b, id, ok, p.Id, attrStr(iattr(p)), ok2, c)
	}
	if !unsafeTree(w, uni) {
		s := w.String()
		if tm, err := textModel(s); err != nil {
			l := strings.Split(s, "\n")
			sort.Strings(l)
			fmt.Fprintln(&b, "text", err, l)
		} else {
			b.WriteString("text " + tm.Canon())
		}
	}
	return b.String()
}

// firstDiff names the first line in which two observations differ.
func firstDiff(a, b string) string {
	al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(al) || i < len(bl); i++ {
		x, y := "", ""
		if i < len(al) {
			x = al[i]
		}
		if i < len(bl) {
			y = bl[i]
		}
		if x != y {
			return fmt.Sprintf("before: %s | after: %s", clip(x, 300), clip(y, 300))
		}
	}
	return ""
}
