From df51441a7c596f065ff06ab858dcdca1ad7422c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 01/40] verif hooks: reach undo/redo and the terminal's line
 handler (build tag verif)

---
 cmd/cli/verif_hooks.go | 46 ++++++++++++++++++++++++++++++++++++++++++
 pkg/app/verif_hooks.go |  9 +++++++++
 2 files changed, 55 insertions(+)
 create mode 100644 cmd/cli/verif_hooks.go
 create mode 100644 pkg/app/verif_hooks.go

diff --git a/cmd/cli/verif_hooks.go b/cmd/cli/verif_hooks.go
new file mode 100644
index 0000000..fba725d
--- /dev/null
+++ b/cmd/cli/verif_hooks.go
@@ -0,0 +1,46 @@
+//go:build verif
+
+package main
+
+import (
+	"bufio"
+	"fmt"
+	"os"
+	"strconv"
+
+	"github.com/williamflynt/topolith/pkg/app"
+	"github.com/williamflynt/topolith/pkg/world"
+)
+
+// With TOPOLITH_VERIF_LINES set, quoted lines (Go syntax) are read from stdin and given to the line handler of the
+// terminal one by one, each followed by the separator in TOPOLITH_VERIF_LINES. An empty line starts a new terminal.
+func init() {
+	sep := os.Getenv("TOPOLITH_VERIF_LINES")
+	if sep == "" {
+		return
+	}
+	var handle func(string)
+	in := bufio.NewScanner(os.Stdin)
+	in.Buffer(make([]byte, 1<<20), 1<<24)
+	for in.Scan() {
+		if in.Text() == "" || handle == nil {
+			core, err := app.NewApp(world.CreateWorld("default-world"))
+			if err != nil {
+				fmt.Println("error creating app:", err)
+				os.Exit(1)
+			}
+			handle = executor(core)
+		}
+		if in.Text() == "" {
+			continue
+		}
+		line, err := strconv.Unquote(in.Text())
+		if err != nil {
+			fmt.Println("bad line:", err)
+			os.Exit(1)
+		}
+		handle(line)
+		fmt.Print(sep)
+	}
+	os.Exit(0)
+}
diff --git a/pkg/app/verif_hooks.go b/pkg/app/verif_hooks.go
new file mode 100644
index 0000000..668d52e
--- /dev/null
+++ b/pkg/app/verif_hooks.go
@@ -0,0 +1,9 @@
+//go:build verif
+
+package app
+
+// VerifUndo forwards to the unexported undo of an App made by NewApp.
+func VerifUndo(a App) (error, int) { return a.(*app).undo() }
+
+// VerifRedo forwards to the unexported redo of an App made by NewApp.
+func VerifRedo(a App) (error, int) { return a.(*app).redo() }
-- 
2.43.0


From 69448f7f634b91e3b6ec6fb70b6804cbd64b2055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:13 +0000
Subject: [PATCH 02/40] fix: a moved item's parent link follows the move

AddOrMove put the node under its new Tree but left its parent pointing at the old one, so Parent, a second move and
the containment text disagreed.
---
 pkg/world/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 6baa839..21598b8 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -155,6 +155,9 @@ func (t *tree) AddOrMove(item *Item) error {
 		// Just move the node to this Tree.
 		node.Parent().Components().Remove(node)
 		t.components.Add(node)
+		if moved, ok := node.(*tree); ok {
+			moved.parent = t
+		}
 		return nil
 	}
 	// Not in any Tree. Make it and add.
-- 
2.43.0


From 0b8589562d58a206f710f2342aa081fceacb64d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 03/40] fix: components of a deleted item get its parent as
 their parent

---
 pkg/world/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 21598b8..bbda41d 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -209,6 +209,9 @@ func (t *tree) Delete(id string) {
 	foundComponents := found.Components().ToSlice()
 	found.Parent().Components().Remove(found)
 	for _, c := range foundComponents {
+		if moved, ok := c.(*tree); ok {
+			moved.parent, _ = found.Parent().(*tree)
+		}
 		found.Parent().Components().Add(c)
 	}
 }
-- 
2.43.0


From 259266782471a7c37ad8266f8ab6476d8d23ba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 04/40] fix: refuse to nest an item under its own descendant

It detached the whole branch from the hierarchy as a cycle.
---
 pkg/world/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index bbda41d..3ef1549 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -152,6 +152,9 @@ func (t *tree) AddOrMove(item *Item) error {
 	}
 	if node, ok := t.Root().Find(item.Id); ok {
 		// Already in a different Tree.
+		if t.item != nil && node.Has(t.item.Id, false) {
+			return errors.New("cannot nest Item under its own descendant").UseCode(errors.TopolithErrorConflict).WithData(errors.KvPair{Key: "id", Value: item.Id}, errors.KvPair{Key: "parentId", Value: t.item.Id})
+		}
 		// Just move the node to this Tree.
 		node.Parent().Components().Remove(node)
 		t.components.Add(node)
-- 
2.43.0


From c297dfd358236486897ba97a6d15463cd9774348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 05/40] fix: item types can be set by name and cleared

Only a decimal number was accepted, so every type a command or a saved text names (type=person) was dropped with an
error, clearing a type failed, and creating an existing item with its own type was a conflict.
---
 pkg/world/world.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 7df1d58..200cac0 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -401,8 +401,8 @@ func itemSet(item Item, params ItemParams) (Item, error) {
 		item.External = *params.External
 	}
 	if params.Type != nil {
-		if iotaType, err := strconv.Atoi(*params.Type); err == nil {
-			item.Type = ItemType(iotaType)
+		if itemType, err := itemTypeFromParam(*params.Type); err == nil {
+			item.Type = itemType
 		} else {
 			errs = append(errs, err)
 		}
@@ -681,7 +681,7 @@ func equalItemParams(existing Item, params ItemParams) error {
 	if (params.Name != nil && *params.Name != existing.Name) ||
 		(params.Expanded != nil && *params.Expanded != existing.Expanded) ||
 		(params.External != nil && *params.External != existing.External) ||
-		(params.Type != nil && strconv.Itoa(int(existing.Type)) != *params.Type) ||
+		(params.Type != nil && !isItemType(existing.Type, *params.Type)) ||
 		(params.Mechanism != nil && *params.Mechanism != existing.Mechanism) {
 		existingJson, _ := json.Marshal(existing)
 		paramsJson, _ := json.Marshal(params)
@@ -716,6 +716,23 @@ func equalRelParams(existing Rel, params RelParams) error {
 	return nil
 }
 
+// itemTypeFromParam reads the Type in ItemParams: the name of a type, its number, or the empty string for no type.
+func itemTypeFromParam(s string) (ItemType, error) {
+	if t := ItemTypeFromString(s); t != 0 || s == "" {
+		return t, nil
+	}
+	n, err := strconv.Atoi(s)
+	if err == nil && n != 0 && StringFromItemType(ItemType(n)) == "" {
+		err = errors.New("unknown Item type").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "type", Value: s})
+	}
+	return ItemType(n), err
+}
+
+func isItemType(t ItemType, param string) bool {
+	paramType, err := itemTypeFromParam(param)
+	return err == nil && paramType == t
+}
+
 // resetLatestTrackers resets the latestItem, latestRel, and latestErr fields.
 // We do this before every operation to ensure that we don't accidentally return stale values
 // from our Item() and Rel() methods.
-- 
2.43.0


From 49839ecb6a375ce279b308fbdd66810ee59176d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:03 +0000
Subject: [PATCH 06/40] fix: an item create or set that is refused changes
 nothing

The other parameters of a set with an invalid type were applied, and a create left the item behind.
---
 pkg/world/world.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 200cac0..84af2d6 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -330,6 +330,10 @@ func (w *world) ItemCreate(id string, params ItemParams) WorldWithItem {
 	}
 	w.Items[id] = item
 	w.ItemSet(id, params) // After we set in the tracking map on World.
+	if w.latestErr != nil {
+		delete(w.Items, id)
+		return w
+	}
 	w.latestItem = &item
 	if err := w.Tree.AddOrMove(&item); err != nil {
 		// This shouldn't happen if we're properly syncing the Items map with Tree...
@@ -383,6 +387,7 @@ func (w *world) ItemSet(id string, params ItemParams) WorldWithItem {
 	item, err := itemSet(item, params)
 	if err != nil {
 		w.latestErr = err
+		return w
 	}
 	w.Items[id] = item
 	w.latestItem = &item
-- 
2.43.0


From bf987d19fcf66611bfb746814aba7b25f367221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:05 +0000
Subject: [PATCH 07/40] fix: a created item keeps its attributes in the tree
 and in the reply

The item without its parameters went into the Tree, so the world's text and component lists lost them.
---
 pkg/world/world.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 84af2d6..a5aad59 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -334,6 +334,7 @@ func (w *world) ItemCreate(id string, params ItemParams) WorldWithItem {
 		delete(w.Items, id)
 		return w
 	}
+	item = w.Items[id]
 	w.latestItem = &item
 	if err := w.Tree.AddOrMove(&item); err != nil {
 		// This shouldn't happen if we're properly syncing the Items map with Tree...
-- 
2.43.0


From b4eb50b1fe6622d4f066103f4a42faf71af4a830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:07 +0000
Subject: [PATCH 08/40] fix: setting an item's attributes reaches the tree and
 its relationships

They kept the attributes the item had when it was nested or related, and the world's text showed those.
---
 pkg/world/world.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index a5aad59..99c8311 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -392,9 +392,28 @@ func (w *world) ItemSet(id string, params ItemParams) WorldWithItem {
 	}
 	w.Items[id] = item
 	w.latestItem = &item
+	w.syncItem(item)
 	return w
 }
 
+// syncItem brings the copies of an Item in the Tree and at the ends of Rels up to date.
+func (w *world) syncItem(item Item) {
+	if node, ok := w.Tree.Find(item.Id); ok {
+		if t, ok := node.(*tree); ok {
+			t.item = &item
+		}
+	}
+	for k, rel := range w.Rels {
+		if rel.From.Id == item.Id {
+			rel.From = item
+		}
+		if rel.To.Id == item.Id {
+			rel.To = item
+		}
+		w.Rels[k] = rel
+	}
+}
+
 func itemSet(item Item, params ItemParams) (Item, error) {
 	errs := make([]error, 0)
 	if params.Name != nil {
-- 
2.43.0


From 82875d633679bfc3993063bbd9fb4809d3edae6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 09/40] fix: a created relationship is reported back with its
 attributes

---
 pkg/world/world.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 99c8311..88f3e13 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -498,6 +498,7 @@ func (w *world) RelCreate(fromId, toId string, params RelParams) WorldWithRel {
 	}
 	w.Rels[rel.id()] = rel
 	w.RelSet(fromId, toId, params) // After we set in the tracking map on World.
+	rel = w.Rels[rel.id()]
 	w.latestRel = &rel
 	return w
 }
-- 
2.43.0


From b5095eafe9e1568bed5f68bc7fabd0ff79f4c06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 10/40] fix: relationships of different pairs never share a key

The pairs (a, b::c) and (a::b, c) had the same id, so one overwrote the other.
---
 pkg/world/rel.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/world/rel.go b/pkg/world/rel.go
index 4c810a6..b382bab 100644
--- a/pkg/world/rel.go
+++ b/pkg/world/rel.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/grammar"
+	"strconv"
 	"strings"
 )
 
@@ -87,7 +88,8 @@ func (r Rel) id() string {
 }
 
 func relIdFromIds(fromId, toId string) string {
-	return fromId + RelIdSeparator + toId
+	// Quoted, so that no identifier containing the separator can make two pairs share an id.
+	return strconv.Quote(fromId) + RelIdSeparator + strconv.Quote(toId)
 }
 
 // RelParams is a struct that represents the parameters that can be set on a Rel.
-- 
2.43.0


From 4d91540b75ea8033720c4c0abae117e71968117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 11/40] fix: relationship queries follow the hierarchy unless
 strict

RelTo and RelFrom expanded descendants only when strict, and RelFrom compared item ids with relationship keys, so it
never found anything.
---
 pkg/world/world.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 88f3e13..969d7c0 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -532,7 +532,7 @@ func (w *world) RelFetch(fromId, toId string, strict bool) []Rel {
 func (w *world) RelTo(toId string, strict bool) []Rel {
 	rels := make([]Rel, 0)
 	rightIds := []string{toId}
-	if strict {
+	if !strict {
 		rightIds = append(w.Tree.GetDescendantIds(toId), toId)
 	}
 	for _, rel := range w.Rels {
@@ -546,11 +546,11 @@ func (w *world) RelTo(toId string, strict bool) []Rel {
 func (w *world) RelFrom(fromId string, strict bool) []Rel {
 	rels := make([]Rel, 0)
 	leftIds := []string{fromId}
-	if strict {
+	if !strict {
 		leftIds = append(w.Tree.GetDescendantIds(fromId), fromId)
 	}
-	for k, rel := range w.Rels {
-		if slices.Contains(leftIds, k) {
+	for _, rel := range w.Rels {
+		if slices.Contains(leftIds, rel.From.Id) {
 			rels = append(rels, rel)
 		}
 	}
-- 
2.43.0


From 3381af8f22cc8e9e4b470948406e1f1c584f103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 12/40] fix: rel delete looks up and restores the named pair

---
 pkg/app/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index d3de1f4..610d70d 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -663,7 +663,7 @@ type RelDeleteCommand struct {
 }
 
 func (c *RelDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
-	rels := w.RelFetch(c.Id, c.Id, true)
+	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) == 0 {
 		c.noDelete = true
 		return world.Rel{}, nil
@@ -680,7 +680,7 @@ func (c *RelDeleteCommand) Undo(w world.World) error {
 	if c.noDelete {
 		return nil
 	}
-	return w.RelCreate(c.Id, c.Id, c.oldParams).Err()
+	return w.RelCreate(c.Id, c.ToId, c.oldParams).Err()
 }
 
 // --- EXPORTED FUNCTIONS ---
-- 
2.43.0


From 3315c00ca7ea1cdea57404afcca608f5d2f73c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:44 +0000
Subject: [PATCH 13/40] fix: nest reports failures and can be undone

---
 pkg/app/command.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 610d70d..6d05b72 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -271,6 +271,7 @@ type ItemNestCommand struct {
 func (c *ItemNestCommand) Execute(w world.World) (fmt.Stringer, error) {
 	oldParentIds := make(map[string]string)
 	noNest := make(map[string]bool)
+	c.oldParentIds, c.noNest = oldParentIds, noNest
 	errs := make([]error, 0)
 	for _, id := range c.Ids {
 		oldParentId, found := w.Parent(id)
@@ -279,12 +280,17 @@ func (c *ItemNestCommand) Execute(w world.World) (fmt.Stringer, error) {
 			errs = append(errs, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: id}))
 			continue
 		}
-		oldParentIds[id] = oldParentId // Empty string if root.
-		if oldParentId == c.ParentId {
+		if _, seen := oldParentIds[id]; !seen {
+			oldParentIds[id] = oldParentId // Empty string if root.
+		}
+		if oldParentId == c.ParentId && c.ParentId != "" {
 			noNest[id] = true
 			continue
 		}
-		w.Nest(id, c.ParentId)
+		if err := w.Nest(id, c.ParentId).Err(); err != nil {
+			noNest[id] = true
+			errs = append(errs, err)
+		}
 	}
 	if len(errs) > 0 {
 		return BoolStringer(false), errors.Join(errs...)
-- 
2.43.0


From 287648f76d5c9efbeb27a0b18f7b6e090b167ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:45 +0000
Subject: [PATCH 14/40] fix: free can be undone

---
 pkg/app/command.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 6d05b72..40f84bf 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -318,6 +318,7 @@ type ItemFreeCommand struct {
 
 func (c *ItemFreeCommand) Execute(w world.World) (fmt.Stringer, error) {
 	oldParentIds := make(map[string]string)
+	c.oldParentIds = oldParentIds
 	errs := make([]error, 0)
 
 	for _, id := range c.Ids {
@@ -326,7 +327,9 @@ func (c *ItemFreeCommand) Execute(w world.World) (fmt.Stringer, error) {
 			errs = append(errs, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: id}))
 			continue
 		}
-		oldParentIds[id] = oldParentId // Empty string if root.
+		if _, seen := oldParentIds[id]; !seen {
+			oldParentIds[id] = oldParentId // Empty string if root.
+		}
 		w.Free(id)
 	}
 
-- 
2.43.0


From a961d0903febf20dbdf686e1a8252d8ee1d3c6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:17 +0000
Subject: [PATCH 15/40] fix: undoing an item delete restores its place and
 relationships

---
 pkg/app/command.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 40f84bf..8f6d24e 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -234,8 +234,11 @@ func (c *ItemClearCommand) Undo(w world.World) error {
 // ItemDeleteCommand represents a delete command for Item.
 type ItemDeleteCommand struct {
 	CommandBase
-	oldParams world.ItemParams
-	noDelete  bool
+	oldParams     world.ItemParams
+	oldParentId   string
+	oldComponents []string
+	oldRels       []world.Rel
+	noDelete      bool
 }
 
 func (c *ItemDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
@@ -249,6 +252,9 @@ func (c *ItemDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
 	c.oldParams.Type = strPtr(world.StringFromItemType(item.Type))
 	c.oldParams.Mechanism = strPtr(item.Mechanism)
 	c.oldParams.Expanded = strPtr(item.Expanded)
+	c.oldParentId, _ = w.Parent(c.Id)
+	c.oldComponents, _ = w.Components(c.Id)
+	c.oldRels = append(w.RelFrom(c.Id, true), w.RelTo(c.Id, true)...)
 	return world.Item{}, w.ItemDelete(c.Id).Err()
 }
 
@@ -256,7 +262,26 @@ func (c *ItemDeleteCommand) Undo(w world.World) error {
 	if c.noDelete {
 		return nil
 	}
-	return w.ItemCreate(c.Id, c.oldParams).Err()
+	if err := w.ItemCreate(c.Id, c.oldParams).Err(); err != nil {
+		return err
+	}
+	if c.oldParentId != "" {
+		if err := w.Nest(c.Id, c.oldParentId).Err(); err != nil {
+			return err
+		}
+	}
+	for _, componentId := range c.oldComponents {
+		if err := w.Nest(componentId, c.Id).Err(); err != nil {
+			return err
+		}
+	}
+	for _, rel := range c.oldRels {
+		params := world.RelParams{Verb: strPtr(rel.Verb), Mechanism: strPtr(rel.Mechanism), Async: boolPtr(rel.Async), Expanded: strPtr(rel.Expanded)}
+		if err := w.RelCreate(rel.From.Id, rel.To.Id, params).Err(); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // ItemNestCommand represents a nest command for Item.
-- 
2.43.0


From d241f5d2f9a9a6b3c282afe54563c205c026066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:19 +0000
Subject: [PATCH 16/40] fix: redo repeats the undone command and a new command
 discards it

---
 pkg/app/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/app/main.go b/pkg/app/main.go
index 2dfdcb4..5046d65 100644
--- a/pkg/app/main.go
+++ b/pkg/app/main.go
@@ -87,7 +87,7 @@ func (h *app) Persistence() persistence.Persistence {
 // --- INTERNAL ---
 
 func (h *app) exec(c Command) (fmt.Stringer, error) {
-	h.commands = append(h.commands, c)
+	h.commands = append(h.commands[:h.commandsIdx+1], c) // Discard whatever was undone.
 	h.commandsIdx++
 	return c.Execute(h.world)
 }
@@ -111,7 +111,7 @@ func (h *app) redo() (error, int) {
 	if h.commandsIdx >= len(h.commands)-1 {
 		return nil, 0
 	}
-	_, err := h.commands[h.commandsIdx].Execute(h.world)
+	_, err := h.commands[h.commandsIdx+1].Execute(h.world)
 	if err != nil {
 		// We aren't going to validate state of the World. But a problem happened.
 		// Clear app, reset commandsIdx, and return the error.
-- 
2.43.0


From 3e1c7e8ac091f6f9c5a6e95ea358e92d67617a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:40 +0000
Subject: [PATCH 17/40] fix: a word that begins with a reserved word is an
 identifier

---
 pkg/grammar/grammar.peg    | 32 +++++++--------
 pkg/grammar/grammar.peg.go | 80 ++++++++++++++++++++++++++++++--------
 pkg/grammar/main.go        |  5 +++
 3 files changed, 85 insertions(+), 32 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index de250c3..0f07f88 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -226,27 +226,27 @@ ItemType
 Keyword
   <- WORLD / ENDWORLD / ERROR / OK / ITEM / ITEM_EXISTS / REL / REL_EXISTS / FROM_QUERY / TO_QUERY / IN / IN_QUERY / CREATE / DELETE / SET / CLEAR / FETCH / LIST / EXISTS / FREE / NEST / FLAG / DELIMITER
 
-WORLD       <- 'world' _
-ENDWORLD    <- 'endworld' _
-ERROR       <- 'error' _
-OK          <- 'ok' _
-ITEM        <- 'item' 's'? _
+WORLD       <- 'world' &{ p.wordEnds(buffer[position]) } _
+ENDWORLD    <- 'endworld' &{ p.wordEnds(buffer[position]) } _
+ERROR       <- 'error' &{ p.wordEnds(buffer[position]) } _
+OK          <- 'ok' &{ p.wordEnds(buffer[position]) } _
+ITEM        <- 'item' 's'? &{ p.wordEnds(buffer[position]) } _
 ITEM_EXISTS <- 'item?' _
-REL         <- 'rel' 's'? _
+REL         <- 'rel' 's'? &{ p.wordEnds(buffer[position]) } _
 REL_EXISTS  <- 'rel?' _
 FROM_QUERY  <- 'from?' _    # Rels from this Item to anywhere.
 TO_QUERY    <- 'to?' _      # Rels from anywhere to this Item.
-IN          <- 'in' _
+IN          <- 'in' &{ p.wordEnds(buffer[position]) } _
 IN_QUERY    <- 'in?' _      # Items under this one in the Tree, recursively unless STRICT set.
-CREATE      <- 'create' _
-DELETE      <- 'delete' _
-SET         <- 'set' _
-CLEAR       <- 'clear' _
-FETCH       <- 'fetch' _
-LIST        <- 'list' _
-EXISTS      <- 'exists' _
-FREE        <- 'free' _
-NEST        <- 'nest' _
+CREATE      <- 'create' &{ p.wordEnds(buffer[position]) } _
+DELETE      <- 'delete' &{ p.wordEnds(buffer[position]) } _
+SET         <- 'set' &{ p.wordEnds(buffer[position]) } _
+CLEAR       <- 'clear' &{ p.wordEnds(buffer[position]) } _
+FETCH       <- 'fetch' &{ p.wordEnds(buffer[position]) } _
+LIST        <- 'list' &{ p.wordEnds(buffer[position]) } _
+EXISTS      <- 'exists' &{ p.wordEnds(buffer[position]) } _
+FREE        <- 'free' &{ p.wordEnds(buffer[position]) } _
+NEST        <- 'nest' &{ p.wordEnds(buffer[position]) } _
 TRUE        <- 'true' _
 FALSE       <- 'false' _
 
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index b15330a..d6548ab 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -4152,7 +4152,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position408, tokenIndex408
 			return false
 		},
-		/* 69 WORLD <- <('w' 'o' 'r' 'l' 'd' _)> */
+		/* 69 WORLD <- <('w' 'o' 'r' 'l' 'd' &{ p.wordEnds(buffer[position]) } _)> */
 		func() bool {
 			position421, tokenIndex421 := position, tokenIndex
 			{
@@ -4177,6 +4177,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l421
 				}
 				position++
+				if !(p.wordEnds(buffer[position])) {
+					goto l421
+				}
 				if !_rules[rule_]() {
 					goto l421
 				}
@@ -4187,7 +4190,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position421, tokenIndex421
 			return false
 		},
-		/* 70 ENDWORLD <- <('e' 'n' 'd' 'w' 'o' 'r' 'l' 'd' _)> */
+		/* 70 ENDWORLD <- <('e' 'n' 'd' 'w' 'o' 'r' 'l' 'd' &{ p.wordEnds(buffer[position]) } _)> */
 		func() bool {
 			position423, tokenIndex423 := position, tokenIndex
 			{
@@ -4224,6 +4227,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l423
 				}
 				position++
+				if !(p.wordEnds(buffer[position])) {
+					goto l423
+				}
 				if !_rules[rule_]() {
 					goto l423
 				}
@@ -4234,7 +4240,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position423, tokenIndex423
 			return false
 		},
-		/* 71 ERROR <- <('e' 'r' 'r' 'o' 'r' _)> */
+		/* 71 ERROR <- <('e' 'r' 'r' 'o' 'r' &{ p.wordEnds(buffer[position]) } _)> */
 		func() bool {
 			position425, tokenIndex425 := position, tokenIndex
 			{
@@ -4259,6 +4265,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l425
 				}
 				position++
+				if !(p.wordEnds(buffer[position])) {
+					goto l425
+				}
 				if !_rules[rule_]() {
 					goto l425
 				}
@@ -4269,7 +4278,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position425, tokenIndex425
 			return false
 		},
-		/* 72 OK <- <('o' 'k' _)> */
+		/* 72 OK <- <('o' 'k' &{ p.wordEnds(buffer[position]) } _)> */
 		func() bool {
 			position427, tokenIndex427 := position, tokenIndex
 			{
@@ -4282,6 +4291,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l427
 				}
 				position++
+				if !(p.wordEnds(buffer[position])) {
+					goto l427
+				}
 				if !_rules[rule_]() {
 					goto l427
 				}
@@ -4292,7 +4304,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position427, tokenIndex427
 			return false
 		},
-		/* 73 ITEM <- <('i' 't' 'e' 'm' 's'? _)> */
+		/* 73 ITEM <- <('i' 't' 'e' 'm' 's'? &{ p.wordEnds(buffer[position]) } _)> */
 		func() bool {
 			position429, tokenIndex429 := position, tokenIndex
 			{
@@ -4324,6 +4336,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					position, tokenIndex = position431, tokenIndex431
 				}
 			l432:
+				if !(p.wordEnds(buffer[position])) {
+					goto l429
+				}
 				if !_rules[rule_]() {
 					goto l429
 				}
@@ -4369,7 +4384,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position433, tokenIndex433
 			return false
 		},
-		/* 75 REL <- <('r' 'e' 'l' 's'? _)> */
+		/* 75 REL <- <('r' 'e' 'l' 's'? &{ p.wordEnds(buffer[position]) } _)> */
 		func() bool {
 			position435, tokenIndex435 := position, tokenIndex
 			{
@@ -4397,6 +4412,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					position, tokenIndex = position437, tokenIndex437
 				}
 			l438:
+				if !(p.wordEnds(buffer[position])) {
+					goto l435
+				}
 				if !_rules[rule_]() {
 					goto l435
 				}
@@ -4500,7 +4518,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position443, tokenIndex443
 			return false
 		},
-		/* 79 IN <- <('i' 'n' _)> */
+		/* 79 IN <- <('i' 'n' &{ p.wordEnds(buffer[position]) } _)> */
 		func() bool {
 			position445, tokenIndex445 := position, tokenIndex
 			{
@@ -4513,6 +4531,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l445
 				}
 				position++
+				if !(p.wordEnds(buffer[position])) {
+					goto l445
+				}
 				if !_rules[rule_]() {
 					goto l445
 				}
@@ -4550,7 +4571,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position447, tokenIndex447
 			return false
 		},
-		/* 81 CREATE <- <('c' 'r' 'e' 'a' 't' 'e' _)> */
+		/* 81 CREATE <- <('c' 'r' 'e' 'a' 't' 'e' &{ p.wordEnds(buffer[position]) } _)> */
 		func() bool {
 			position449, tokenIndex449 := position, tokenIndex
 			{
@@ -4579,6 +4600,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l449
 				}
 				position++
+				if !(p.wordEnds(buffer[position])) {
+					goto l449
+				}
 				if !_rules[rule_]() {
 					goto l449
 				}
@@ -4589,7 +4613,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position449, tokenIndex449
 			return false
 		},
-		/* 82 DELETE <- <('d' 'e' 'l' 'e' 't' 'e' _)> */
+		/* 82 DELETE <- <('d' 'e' 'l' 'e' 't' 'e' &{ p.wordEnds(buffer[position]) } _)> */
 		func() bool {
 			position451, tokenIndex451 := position, tokenIndex
 			{
@@ -4618,6 +4642,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l451
 				}
 				position++
+				if !(p.wordEnds(buffer[position])) {
+					goto l451
+				}
 				if !_rules[rule_]() {
 					goto l451
 				}
@@ -4628,7 +4655,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position451, tokenIndex451
 			return false
 		},
-		/* 83 SET <- <('s' 'e' 't' _)> */
+		/* 83 SET <- <('s' 'e' 't' &{ p.wordEnds(buffer[position]) } _)> */
 		func() bool {
 			position453, tokenIndex453 := position, tokenIndex
 			{
@@ -4645,6 +4672,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l453
 				}
 				position++
+				if !(p.wordEnds(buffer[position])) {
+					goto l453
+				}
 				if !_rules[rule_]() {
 					goto l453
 				}
@@ -4655,7 +4685,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position453, tokenIndex453
 			return false
 		},
-		/* 84 CLEAR <- <('c' 'l' 'e' 'a' 'r' _)> */
+		/* 84 CLEAR <- <('c' 'l' 'e' 'a' 'r' &{ p.wordEnds(buffer[position]) } _)> */
 		func() bool {
 			position455, tokenIndex455 := position, tokenIndex
 			{
@@ -4680,6 +4710,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l455
 				}
 				position++
+				if !(p.wordEnds(buffer[position])) {
+					goto l455
+				}
 				if !_rules[rule_]() {
 					goto l455
 				}
@@ -4690,7 +4723,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position455, tokenIndex455
 			return false
 		},
-		/* 85 FETCH <- <('f' 'e' 't' 'c' 'h' _)> */
+		/* 85 FETCH <- <('f' 'e' 't' 'c' 'h' &{ p.wordEnds(buffer[position]) } _)> */
 		func() bool {
 			position457, tokenIndex457 := position, tokenIndex
 			{
@@ -4715,6 +4748,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l457
 				}
 				position++
+				if !(p.wordEnds(buffer[position])) {
+					goto l457
+				}
 				if !_rules[rule_]() {
 					goto l457
 				}
@@ -4725,7 +4761,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position457, tokenIndex457
 			return false
 		},
-		/* 86 LIST <- <('l' 'i' 's' 't' _)> */
+		/* 86 LIST <- <('l' 'i' 's' 't' &{ p.wordEnds(buffer[position]) } _)> */
 		func() bool {
 			position459, tokenIndex459 := position, tokenIndex
 			{
@@ -4746,6 +4782,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l459
 				}
 				position++
+				if !(p.wordEnds(buffer[position])) {
+					goto l459
+				}
 				if !_rules[rule_]() {
 					goto l459
 				}
@@ -4756,7 +4795,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position459, tokenIndex459
 			return false
 		},
-		/* 87 EXISTS <- <('e' 'x' 'i' 's' 't' 's' _)> */
+		/* 87 EXISTS <- <('e' 'x' 'i' 's' 't' 's' &{ p.wordEnds(buffer[position]) } _)> */
 		func() bool {
 			position461, tokenIndex461 := position, tokenIndex
 			{
@@ -4785,6 +4824,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l461
 				}
 				position++
+				if !(p.wordEnds(buffer[position])) {
+					goto l461
+				}
 				if !_rules[rule_]() {
 					goto l461
 				}
@@ -4795,7 +4837,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position461, tokenIndex461
 			return false
 		},
-		/* 88 FREE <- <('f' 'r' 'e' 'e' _)> */
+		/* 88 FREE <- <('f' 'r' 'e' 'e' &{ p.wordEnds(buffer[position]) } _)> */
 		func() bool {
 			position463, tokenIndex463 := position, tokenIndex
 			{
@@ -4816,6 +4858,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l463
 				}
 				position++
+				if !(p.wordEnds(buffer[position])) {
+					goto l463
+				}
 				if !_rules[rule_]() {
 					goto l463
 				}
@@ -4826,7 +4871,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position463, tokenIndex463
 			return false
 		},
-		/* 89 NEST <- <('n' 'e' 's' 't' _)> */
+		/* 89 NEST <- <('n' 'e' 's' 't' &{ p.wordEnds(buffer[position]) } _)> */
 		func() bool {
 			position465, tokenIndex465 := position, tokenIndex
 			{
@@ -4847,6 +4892,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l465
 				}
 				position++
+				if !(p.wordEnds(buffer[position])) {
+					goto l465
+				}
 				if !_rules[rule_]() {
 					goto l465
 				}
diff --git a/pkg/grammar/main.go b/pkg/grammar/main.go
index 381db04..8328e12 100644
--- a/pkg/grammar/main.go
+++ b/pkg/grammar/main.go
@@ -70,6 +70,11 @@ func Parse(s string) (*Parser, error) {
 
 // --- INTERNAL ---
 
+// wordEnds returns whether a word ends before the given character of the input, meaning that the character can't extend it.
+func (p *Parser) wordEnds(next rune) bool {
+	return !(next >= 'a' && next <= 'z' || next >= 'A' && next <= 'Z' || next >= '0' && next <= '9' || next == '-' || next == '_')
+}
+
 func cleanString(s string) string {
 	return strings.Trim(strings.TrimSpace(s), "\"")
 }
-- 
2.43.0


From 2285d94fa4d87b26f30977b66f0b7222177a88d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:56 +0000
Subject: [PATCH 18/40] fix: quoted identifiers in a list keep their spaces

---
 pkg/grammar/grammar.peg    |  2 +-
 pkg/grammar/grammar.peg.go |  4 ++--
 pkg/grammar/main.go        | 16 +++++++++++++++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index 0f07f88..c404622 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -148,7 +148,7 @@ IdentifierList
   <- <Identifier Identifier*>
   {
     p.InputAttributes.ResourceId = ""
-    ids := strings.Fields(text)
+    ids := splitIdentifiers(text)
     for _, id := range ids {
       p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
     }
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index d6548ab..21cefda 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -699,7 +699,7 @@ func (p *Parser) Execute() {
 		case ruleAction18:
 
 			p.InputAttributes.ResourceId = ""
-			ids := strings.Fields(text)
+			ids := splitIdentifiers(text)
 			for _, id := range ids {
 				p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
 			}
@@ -5428,7 +5428,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		nil,
 		/* 141 Action18 <- <{
 		   p.InputAttributes.ResourceId = ""
-		   ids := strings.Fields(text)
+		   ids := splitIdentifiers(text)
 		   for _, id := range ids {
 		     p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
 		   }
diff --git a/pkg/grammar/main.go b/pkg/grammar/main.go
index 8328e12..bb87c14 100644
--- a/pkg/grammar/main.go
+++ b/pkg/grammar/main.go
@@ -1,6 +1,9 @@
 package grammar
 
-import "strings"
+import (
+	"strings"
+	"unicode"
+)
 
 // TODO(wf 27 May 2024): We shouldn't be setting raw strings
 //  (ex: `Flags` -> []Flag)
@@ -75,6 +78,17 @@ func (p *Parser) wordEnds(next rune) bool {
 	return !(next >= 'a' && next <= 'z' || next >= 'A' && next <= 'Z' || next >= '0' && next <= '9' || next == '-' || next == '_')
 }
 
+// splitIdentifiers splits a list of bare and quoted identifiers, leaving any whitespace inside the quotes alone.
+func splitIdentifiers(s string) []string {
+	quoted := false
+	return strings.FieldsFunc(s, func(r rune) bool {
+		if r == '"' {
+			quoted = !quoted
+		}
+		return !quoted && unicode.IsSpace(r)
+	})
+}
+
 func cleanString(s string) string {
 	return strings.Trim(strings.TrimSpace(s), "\"")
 }
-- 
2.43.0


From ef0a763b40395918600ee833ff1d86ba18196ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 19/40] fix: items in an item lists its components

---
 pkg/app/command.go         | 3 +++
 pkg/grammar/grammar.peg    | 2 +-
 pkg/grammar/grammar.peg.go | 3 ++-
 pkg/grammar/main.go        | 1 +
 4 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 8f6d24e..45df034 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -760,6 +760,9 @@ func itemCommand(base CommandBase, input grammar.InputAttributes) (Command, erro
 	case Fetch:
 		return &ItemFetchCommand{CommandBase: base}, nil
 	case List:
+		if input.Nested {
+			return &ItemComponentsListCommand{CommandBase: base}, nil
+		}
 		return &ItemListCommand{CommandBase: base, Limit: limitFromInput(input)}, nil
 	case Set:
 		return &ItemSetCommand{CommandBase: base, Params: world.ItemParamsFromInput(input)}, nil
diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index c404622..ce7d99d 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -65,7 +65,7 @@ FetchQuery
 ListQuery
   <- (Item / Rel ) List Limit?
   # Get all Items under this one in the Tree.
-  / Item IN Identifier  { p.InputAttributes.Verb = "list" }
+  / Item IN Identifier  { p.InputAttributes.Verb = "list"; p.InputAttributes.Nested = true }
   / ToQuery Identifier
   / FromQuery Identifier
 
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index 21cefda..c0f3a94 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -634,6 +634,7 @@ func (p *Parser) Execute() {
 			p.InputAttributes.Verb = "fetch"
 		case ruleAction4:
 			p.InputAttributes.Verb = "list"
+			p.InputAttributes.Nested = true
 		case ruleAction5:
 			p.InputAttributes.Verb = "create-or-fetch"
 		case ruleAction6:
@@ -5372,7 +5373,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		nil,
 		/* 126 Action3 <- <{ p.InputAttributes.Verb = "fetch" }> */
 		nil,
-		/* 127 Action4 <- <{ p.InputAttributes.Verb = "list" }> */
+		/* 127 Action4 <- <{ p.InputAttributes.Verb = "list"; p.InputAttributes.Nested = true }> */
 		nil,
 		/* 128 Action5 <- <{ p.InputAttributes.Verb = "create-or-fetch" }> */
 		nil,
diff --git a/pkg/grammar/main.go b/pkg/grammar/main.go
index bb87c14..afb0220 100644
--- a/pkg/grammar/main.go
+++ b/pkg/grammar/main.go
@@ -26,6 +26,7 @@ type InputAttributes struct {
 	Verb         string            `json:"verb"`
 	Params       map[string]string `json:"params"`
 	Flags        []string          `json:"flags"`
+	Nested       bool              `json:"nested"` // Nested is true when a list is limited to what is directly under ResourceId.
 
 	Raw string `json:"raw"`
 }
-- 
2.43.0


From 944b15bae6d7a6d1ff5cfc86af0d8dff4371fffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 20/40] fix: rel create answers with the existing relationship

---
 pkg/app/command.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 45df034..38e0f67 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -484,7 +484,7 @@ type RelCreateCommand struct {
 func (c *RelCreateCommand) Execute(w world.World) (fmt.Stringer, error) {
 	if rels := w.RelFetch(c.Id, c.ToId, true); len(rels) > 0 {
 		c.noCreate = true
-		return world.Rel{}, nil
+		return rels[0], nil
 	}
 	return w.RelCreate(c.Id, c.ToId, c.Params).Rel()
 }
-- 
2.43.0


From 7464f2ce88d1599aca21735560a89c907c24cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 21/40] fix: undoing an item creation that failed is not an
 error

---
 pkg/app/command.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 38e0f67..00c8595 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -138,6 +138,9 @@ func (c *ItemCreateCommand) Undo(w world.World) error {
 	if c.noCreate {
 		return nil
 	}
+	if _, ok := w.ItemFetch(c.Id); !ok {
+		return nil // The creation failed.
+	}
 	return w.ItemDelete(c.Id).Err()
 }
 
@@ -407,6 +410,9 @@ func (c *ItemCreateOrFetchCommand) Undo(w world.World) error {
 	if c.noCreate {
 		return nil
 	}
+	if _, ok := w.ItemFetch(c.Id); !ok {
+		return nil // The creation failed.
+	}
 	return w.ItemDelete(c.Id).Err()
 }
 
@@ -435,6 +441,9 @@ func (c *ItemCreateOrSetCommand) Undo(w world.World) error {
 	if c.noCreate {
 		return w.ItemSet(c.Id, c.oldParams).Err()
 	}
+	if _, ok := w.ItemFetch(c.Id); !ok {
+		return nil // The creation failed.
+	}
 	return w.ItemDelete(c.Id).Err()
 }
 
-- 
2.43.0


From 1d4114e4ad92d5e24dc445ef21cafdcd544dff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:27 +0000
Subject: [PATCH 22/40] fix: deleting the root item of a tree leaves other
 trees alone

---
 pkg/world/tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 3ef1549..7606148 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -209,6 +209,11 @@ func (t *tree) Delete(id string) {
 		// The item doesn't exist here.
 		return
 	}
+	if node, ok := found.(*tree); ok && node.parent == nil {
+		// No parent to transfer Components to, so they stay where they are.
+		node.item = nil
+		return
+	}
 	foundComponents := found.Components().ToSlice()
 	found.Parent().Components().Remove(found)
 	for _, c := range foundComponents {
-- 
2.43.0


From 18f3ac7602d7bd2ab885f38e17a0611038debdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:30 +0000
Subject: [PATCH 23/40] fix: a tree read from empty text is its own tree

---
 pkg/world/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 7606148..5f5572b 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -36,7 +36,7 @@ type Tree interface {
 // `tree{nil::[tree{item "2"::[tree{item "1"::[]}]} tree{item "3"::[]}]}`
 func TreeFromString(s string) (Tree, map[string]Item, error) {
 	if s == "" {
-		return emptyTree, map[string]Item{}, nil
+		return newTree(nil, nil), map[string]Item{}, nil
 	}
 
 	p, err := grammar.Parse(s)
-- 
2.43.0


From 6309481dd8eea3f09e48d12bb4b4c9ba84fe46bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:33 +0000
Subject: [PATCH 24/40] fix: reading a tree returns its items and keeps the
 item at its root

---
 pkg/world/tree.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 5f5572b..5bf9356 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -5,6 +5,7 @@ import (
 	mapset "github.com/deckarep/golang-set/v2"
 	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/grammar"
+	"maps"
 	"sort"
 	"strings"
 )
@@ -53,7 +54,8 @@ func TreeFromString(s string) (Tree, map[string]Item, error) {
 		itemMap[item.Id] = item
 	}
 
-	t, err := convertNodeToTree(p.Tree, itemMap, nil)
+	rootIsNil := strings.HasPrefix(p.TreeString, "tree{nil")
+	t, err := convertNodeToTree(p.Tree, maps.Clone(itemMap), nil, rootIsNil)
 	return t, itemMap, err
 }
 
@@ -89,23 +91,23 @@ func TreeEqual(t1, t2 Tree) bool {
 }
 
 // convertNodeToTree recursively converts a grammar.Node to a Tree.
-func convertNodeToTree(node grammar.Node, itemMap map[string]Item, parent *tree) (*tree, error) {
+func convertNodeToTree(node grammar.Node, itemMap map[string]Item, parent *tree, isNil bool) (*tree, error) {
 	var itemPtr *Item
-	if parent != nil {
+	if !isNil {
 		item, ok := itemMap[node.Id]
 		if !ok {
 			return parent, errors.New("Item not found in map").UseCode(errors.TopolithErrorNotFound).WithDescription("Item not found in map").WithData(errors.KvPair{Key: "id", Value: node.Id})
 		}
 		itemPtr = &item
+		delete(itemMap, node.Id) // Prevent cycles.
 	}
-	delete(itemMap, node.Id) // Prevent cycles.
 	t := &tree{
 		item:       itemPtr,
 		components: mapset.NewSet[Tree](),
 		parent:     parent,
 	}
 	for _, childNode := range node.Children {
-		childTree, err := convertNodeToTree(childNode, itemMap, t)
+		childTree, err := convertNodeToTree(childNode, itemMap, t, false)
 		if err != nil {
 			return t, err
 		}
-- 
2.43.0


From 036ab3bbc14e0235509f403415f870483f355807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:35 +0000
Subject: [PATCH 25/40] fix: refuse text of another kind when reading an item,
 relationship or tree

---
 pkg/world/item.go | 3 +++
 pkg/world/rel.go  | 3 +++
 pkg/world/tree.go | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/pkg/world/item.go b/pkg/world/item.go
index 325a1e3..a1d69de 100644
--- a/pkg/world/item.go
+++ b/pkg/world/item.go
@@ -113,6 +113,9 @@ func ItemFromString(s string) (Item, error) {
 	if err != nil {
 		return Item{}, errors.New("error parsing Item").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("error parsing Item").WithData(errors.KvPair{Key: "input", Value: s})
 	}
+	if p.StmtType != "Command" || p.InputAttributes.ResourceType != "item" || (p.InputAttributes.Verb != "create-or-fetch" && p.InputAttributes.Verb != "create-or-set") {
+		return Item{}, errors.New("not an Item").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "input", Value: s})
+	}
 	return itemSet(Item{Id: p.InputAttributes.ResourceId}, ItemParamsFromInput(p.InputAttributes))
 }
 
diff --git a/pkg/world/rel.go b/pkg/world/rel.go
index b382bab..13a3d87 100644
--- a/pkg/world/rel.go
+++ b/pkg/world/rel.go
@@ -49,6 +49,9 @@ func RelFromString(w World, s string) (Rel, error) {
 	if err != nil {
 		return Rel{}, fmt.Errorf("error parsing Rel: %w", err)
 	}
+	if p.StmtType != "Command" || p.InputAttributes.ResourceType != "rel" || (p.InputAttributes.Verb != "create-or-fetch" && p.InputAttributes.Verb != "create-or-set") {
+		return Rel{}, errors.New("not a Rel").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "input", Value: s})
+	}
 	fromItem, ok := w.ItemFetch(p.InputAttributes.ResourceId)
 	if !ok {
 		return Rel{}, errors.New("from Item not found").UseCode(errors.TopolithErrorNotFound).WithDescription("FromItem not found").WithData(errors.KvPair{Key: "input", Value: s}, errors.KvPair{Key: "fromId", Value: p.InputAttributes.ResourceId})
diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 5bf9356..e3c0815 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -45,6 +45,10 @@ func TreeFromString(s string) (Tree, map[string]Item, error) {
 		return nil, map[string]Item{}, errors.New("error parsing Tree").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("error parsing Tree").WithData(errors.KvPair{Key: "input", Value: s})
 	}
 
+	if p.StmtType != "Tree" {
+		return nil, map[string]Item{}, errors.New("not a Tree").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "input", Value: s})
+	}
+
 	itemMap := make(map[string]Item)
 	for _, itemStr := range p.ItemStrings {
 		item, err := ItemFromString(itemStr)
-- 
2.43.0


From b6e757b939dee66244f91573243fa41dbaed195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:16 +0000
Subject: [PATCH 26/40] fix: refuse text of another kind when reading a world

---
 pkg/world/world.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 969d7c0..8d06081 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -97,6 +97,10 @@ func FromString(s string) (World, error) {
 		return nil, errors.New("error parsing World").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("error parsing World").WithData(errors.KvPair{Key: "input", Value: s})
 	}
 
+	if p.StmtType != "WorldObject" {
+		return nil, errors.New("not a World").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "input", Value: s})
+	}
+
 	w := CreateWorld(p.WorldParams["name"])
 
 	if version, err := strconv.Atoi(p.WorldParams["version"]); err == nil && version != 0 {
-- 
2.43.0


From df4c26257eb78b3499fec07bd559c4a9249b1b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:18 +0000
Subject: [PATCH 27/40] fix: an item called nil is not the root of the world

---
 pkg/world/world.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 8d06081..4d961ee 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -133,7 +133,14 @@ func FromString(s string) (World, error) {
 		node     grammar.Node
 		parentId string
 	}
-	stack := []queueItem{{p.Tree, ""}}
+	rootId := p.Tree.Id
+	if strings.HasPrefix(p.TreeString, "tree{nil") {
+		rootId = "" // The root has no Item, though an Item may be called "nil" too.
+	}
+	stack := make([]queueItem, 0)
+	for _, child := range p.Tree.Children {
+		stack = append(stack, queueItem{child, rootId})
+	}
 	for len(stack) > 0 {
 		current := stack[len(stack)-1]
 		stack = stack[:len(stack)-1]
-- 
2.43.0


From d6c6b650f48fc9ade34e82299bb0ccc6e5069e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:20 +0000
Subject: [PATCH 28/40] fix: a world's id, name and description are written
 quoted and read back exactly

---
 pkg/world/world.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 4d961ee..ea4cb71 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -101,17 +101,13 @@ func FromString(s string) (World, error) {
 		return nil, errors.New("not a World").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "input", Value: s})
 	}
 
-	w := CreateWorld(p.WorldParams["name"])
+	w := CreateWorld(strings.Trim(p.WorldParams["name"], `"`))
 
-	if version, err := strconv.Atoi(p.WorldParams["version"]); err == nil && version != 0 {
+	if version, err := strconv.Atoi(p.WorldParams["version"]); err == nil {
 		w.SetVersion(version)
 	}
-	if p.WorldParams["id"] != "" {
-		w.SetId(p.WorldParams["id"])
-	}
-	if p.WorldParams["expanded"] != "" {
-		w.SetExpanded(p.WorldParams["expanded"])
-	}
+	w.SetId(p.WorldParams["id"])
+	w.SetExpanded(strings.Trim(p.WorldParams["expanded"], `"`))
 
 	for _, itemStr := range p.ItemStrings {
 		item, err := ItemFromString(itemStr)
@@ -276,7 +272,7 @@ func (w *world) String() string {
 	for _, rel := range w.Rels {
 		allRels = append(allRels, rel.String())
 	}
-	return fmt.Sprintf("$$world\nversion=%d\nid=%s\nname=%s\nexpanded=%s\n%s\n%s\nendworld$$",
+	return fmt.Sprintf("$$world\nversion=%d\nid=\"%s\"\nname=\"%s\"\nexpanded=\"%s\"\n%s\n%s\nendworld$$",
 		w.Version_,
 		w.Id_,
 		w.Name_,
-- 
2.43.0


From 043fe88795c5544b0438a164fb7bd26017589175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:44 +0000
Subject: [PATCH 29/40] fix: comparing worlds does not depend on the order of
 relationships

---
 pkg/world/world.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index ea4cb71..c9b54e3 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -221,10 +221,10 @@ func WorldEqual(w1, w2 World) bool {
 		return false
 	}
 	sort.Slice(rels1, func(i, j int) bool {
-		return rels1[i].From.Id < rels1[j].From.Id
+		return rels1[i].From.Id < rels1[j].From.Id || (rels1[i].From.Id == rels1[j].From.Id && rels1[i].To.Id < rels1[j].To.Id)
 	})
 	sort.Slice(rels2, func(i, j int) bool {
-		return rels2[i].From.Id < rels2[j].From.Id
+		return rels2[i].From.Id < rels2[j].From.Id || (rels2[i].From.Id == rels2[j].From.Id && rels2[i].To.Id < rels2[j].To.Id)
 	})
 	for i, rel1 := range rels1 {
 		if !RelEqual(rel1, rels2[i]) {
-- 
2.43.0


From 64f59e9e0ad50abe7b9e6610f520c793fcbd1a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 30/40] fix: comparing trees does not depend on the order of
 components

---
 pkg/world/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index e3c0815..b4aee13 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -79,7 +79,7 @@ func TreeEqual(t1, t2 Tree) bool {
 		return components1Slice[i].Item().Id < components1Slice[j].Item().Id
 	})
 	sort.Slice(components2Slice, func(i, j int) bool {
-		return components1Slice[i].Item().Id < components1Slice[j].Item().Id
+		return components2Slice[i].Item().Id < components2Slice[j].Item().Id
 	})
 	// Compare recursively.
 	for i, c1 := range components1Slice {
-- 
2.43.0


From 9f5c28717d4c4be7f47102d27996fd5e1fb29f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:48 +0000
Subject: [PATCH 31/40] fix: errors derived from the same error do not share
 data

---
 pkg/errors/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/errors/main.go b/pkg/errors/main.go
index 42aeddd..8ef2f88 100644
--- a/pkg/errors/main.go
+++ b/pkg/errors/main.go
@@ -1,6 +1,9 @@
 package errors
 
-import "fmt"
+import (
+	"fmt"
+	"slices"
+)
 
 // TopolithErrorCode is an iota that represents the error code of a TopolithError.
 type TopolithErrorCode int
@@ -37,7 +40,7 @@ func (e TopolithError) WithDescription(description string) TopolithError {
 }
 
 func (e TopolithError) WithData(data ...KvPair) TopolithError {
-	e.Data = append(e.Data, data...)
+	e.Data = append(slices.Clip(e.Data), data...)
 	return e
 }
 
@@ -47,6 +50,7 @@ func (e TopolithError) ClearData() TopolithError {
 }
 
 func (e TopolithError) WithError(errs ...error) TopolithError {
+	e.errs = slices.Clip(e.errs)
 	for _, err := range errs {
 		e.errs = append(e.errs, err)
 	}
-- 
2.43.0


From babc555e01b7fb5625d2e273da36176533a63340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:49 +0000
Subject: [PATCH 32/40] fix: an interrupted save keeps the world saved before

---
 pkg/persistence/main.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index b7b9761..8348b03 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -46,7 +46,32 @@ func (fp *filePersistence) Save(world world.World) error {
 
 	filePath := filepath.Join(fp.directory, world.Name()+".world")
 	data := world.String()
-	return os.WriteFile(filePath, []byte(data), 0644)
+	return writeFile(filePath, []byte(data))
+}
+
+// writeFile replaces the file at the given path as a whole: whatever goes wrong, it holds either its old data or the new data.
+func writeFile(path string, data []byte) error {
+	tmp, err := os.CreateTemp(filepath.Dir(path), ".save-*.tmp")
+	if err != nil {
+		return err
+	}
+	_, err = tmp.Write(data)
+	if err == nil {
+		err = tmp.Chmod(0644)
+	}
+	if err == nil {
+		err = tmp.Sync()
+	}
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmp.Name(), path)
+	}
+	if err != nil {
+		_ = os.Remove(tmp.Name())
+	}
+	return err
 }
 
 // Load loads a world from a file.
-- 
2.43.0


From fcc5464be03c656dc0394fe2a63b5bbdcc7a20a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 33/40] fix: a world whose name ends in .world loads back

---
 pkg/persistence/main.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index 8348b03..98c9944 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -76,9 +76,12 @@ func writeFile(path string, data []byte) error {
 
 // Load loads a world from a file.
 func (fp *filePersistence) Load(name string) (world.World, error) {
-	filePath := name
-	if filepath.Ext(name) != ".world" {
-		filePath = filepath.Join(fp.directory, name+".world")
+	filePath := filepath.Join(fp.directory, name+".world")
+	if filepath.Ext(name) == ".world" {
+		// Either a path, or a World whose name happens to end like one.
+		if _, err := os.Stat(filePath); os.IsNotExist(err) {
+			filePath = name
+		}
 	}
 	data, err := os.ReadFile(filePath)
 	if err != nil {
-- 
2.43.0


From efbc72227b4c520f39c4e77d06f6ba4f9a0c8738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:16 +0000
Subject: [PATCH 34/40] fix: an error is not reported again by a later query
 that succeeds

---
 pkg/world/world.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index c9b54e3..2e6fc07 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -367,11 +367,13 @@ func (w *world) ItemDelete(id string) World {
 }
 
 func (w *world) ItemFetch(id string) (Item, bool) {
+	w.resetLatestTrackers()
 	item, ok := w.Items[id]
 	return item, ok
 }
 
 func (w *world) ItemList(limit int) []Item {
+	w.resetLatestTrackers()
 	items := make([]Item, 0)
 	for _, item := range w.Items {
 		if limit > 0 && len(items) >= limit {
@@ -537,6 +539,7 @@ func (w *world) RelFetch(fromId, toId string, strict bool) []Rel {
 }
 
 func (w *world) RelTo(toId string, strict bool) []Rel {
+	w.resetLatestTrackers()
 	rels := make([]Rel, 0)
 	rightIds := []string{toId}
 	if !strict {
@@ -551,6 +554,7 @@ func (w *world) RelTo(toId string, strict bool) []Rel {
 }
 
 func (w *world) RelFrom(fromId string, strict bool) []Rel {
+	w.resetLatestTrackers()
 	rels := make([]Rel, 0)
 	leftIds := []string{fromId}
 	if !strict {
@@ -565,6 +569,7 @@ func (w *world) RelFrom(fromId string, strict bool) []Rel {
 }
 
 func (w *world) RelList(limit int) []Rel {
+	w.resetLatestTrackers()
 	rels := make([]Rel, 0)
 	for _, rel := range w.Rels {
 		if limit > 0 && len(rels) >= limit {
@@ -653,7 +658,7 @@ func (w *world) Nest(childId, parentId string) WorldWithItem {
 		return w
 	}
 	w.latestItem = &item
-	if _, ok := w.ItemFetch(parentId); !ok {
+	if _, ok := w.Items[parentId]; !ok {
 		w.latestErr = errors.
 			New("parentId for Nest not found").
 			UseCode(errors.TopolithErrorNotFound).
-- 
2.43.0


From d44e6c6a3a7f7d92054975fb5789e66c7306563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:13 +0000
Subject: [PATCH 35/40] fix: nothing can be added to the empty tree that all
 trees share

---
 pkg/world/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index b4aee13..83ec0d7 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -152,6 +152,10 @@ func (t *tree) AddOrMove(item *Item) error {
 	if item == nil {
 		return errors.New("cannot add nil Item to Tree").UseCode(errors.TopolithErrorInvalid)
 	}
+	if t == emptyTree {
+		// All Trees share it as the parent of their root.
+		return errors.New("cannot add Item to the empty Tree").UseCode(errors.TopolithErrorInvalid)
+	}
 	if t.Has(item.Id, true) {
 		// Already in this specific Tree - noop.
 		return nil
-- 
2.43.0


From ccb8d8075eac62c231609ec431f8968b71422743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:45 +0000
Subject: [PATCH 36/40] fix: the response object of a list holds every item or
 relationship of the list

---
 pkg/grammar/grammar.peg    | 4 ++--
 pkg/grammar/grammar.peg.go | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index ce7d99d..87616fd 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -94,11 +94,11 @@ WorldObject             <- BeginWorld WorldParams Tree RelObject* EndWorld
   }
 ItemObject              <- <Item Identifier ItemParams?>
   {
-    p.Response.Object.Type = "item"; p.Response.Object.Repr = strings.TrimSpace(text); p.ItemStrings = append(p.ItemStrings, strings.TrimSpace(text))
+    p.Response.Object.Type = "item"; p.ItemStrings = append(p.ItemStrings, strings.TrimSpace(text)); p.Response.Object.Repr = strings.Join(p.ItemStrings, "\n")
     p.currentId = p.InputAttributes.ResourceId
     p.nodeStack = append(p.nodeStack, Node{Id: p.currentId, Children: []Node{}})
   }
-RelObject               <- <Rel DualIdentifier RelParams?>      { p.Response.Object.Type = "rel"; p.Response.Object.Repr = strings.TrimSpace(text); p.RelStrings = append(p.RelStrings, strings.TrimSpace(text)) }
+RelObject               <- <Rel DualIdentifier RelParams?>      { p.Response.Object.Type = "rel"; p.RelStrings = append(p.RelStrings, strings.TrimSpace(text)); p.Response.Object.Repr = strings.Join(p.RelStrings, "\n") }
 IdentifierListObject    <- IdentifierList                       { p.Response.Object.Type = "ids"; b, _ := json.Marshal(p.InputAttributes.ResourceIds); p.Response.Object.Repr = string(b) }
 Tree
   <- <'tree{' (Nil / ItemObject) '::[' Tree* ']}'> _
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index c0f3a94..80de2ad 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -648,15 +648,15 @@ func (p *Parser) Execute() {
 		case ruleAction8:
 
 			p.Response.Object.Type = "item"
-			p.Response.Object.Repr = strings.TrimSpace(text)
 			p.ItemStrings = append(p.ItemStrings, strings.TrimSpace(text))
+			p.Response.Object.Repr = strings.Join(p.ItemStrings, "\n")
 			p.currentId = p.InputAttributes.ResourceId
 			p.nodeStack = append(p.nodeStack, Node{Id: p.currentId, Children: []Node{}})
 
 		case ruleAction9:
 			p.Response.Object.Type = "rel"
-			p.Response.Object.Repr = strings.TrimSpace(text)
 			p.RelStrings = append(p.RelStrings, strings.TrimSpace(text))
+			p.Response.Object.Repr = strings.Join(p.RelStrings, "\n")
 		case ruleAction10:
 			p.Response.Object.Type = "ids"
 			b, _ := json.Marshal(p.InputAttributes.ResourceIds)
@@ -5385,12 +5385,12 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		 }> */
 		nil,
 		/* 131 Action8 <- <{
-		   p.Response.Object.Type = "item"; p.Response.Object.Repr = strings.TrimSpace(text); p.ItemStrings = append(p.ItemStrings, strings.TrimSpace(text))
+		   p.Response.Object.Type = "item"; p.ItemStrings = append(p.ItemStrings, strings.TrimSpace(text)); p.Response.Object.Repr = strings.Join(p.ItemStrings, "\n")
 		   p.currentId = p.InputAttributes.ResourceId
 		   p.nodeStack = append(p.nodeStack, Node{Id: p.currentId, Children: []Node{}})
 		 }> */
 		nil,
-		/* 132 Action9 <- <{ p.Response.Object.Type = "rel"; p.Response.Object.Repr = strings.TrimSpace(text); p.RelStrings = append(p.RelStrings, strings.TrimSpace(text)) }> */
+		/* 132 Action9 <- <{ p.Response.Object.Type = "rel"; p.RelStrings = append(p.RelStrings, strings.TrimSpace(text)); p.Response.Object.Repr = strings.Join(p.RelStrings, "\n") }> */
 		nil,
 		/* 133 Action10 <- <{ p.Response.Object.Type = "ids"; b, _ := json.Marshal(p.InputAttributes.ResourceIds); p.Response.Object.Repr = string(b) }> */
 		nil,
-- 
2.43.0


From 83ecb6802ccb660fa4620ce9aa6d9729f558f479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:47 +0000
Subject: [PATCH 37/40] fix: the response object of a world keeps the world's
 id as it was written

---
 pkg/grammar/grammar.peg    | 4 ++--
 pkg/grammar/grammar.peg.go | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index 87616fd..901a6a0 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -156,13 +156,13 @@ IdentifierList
 
 WorldParams <- _ WorldParamVersion _ WorldParamId _ WorldParamName _ WorldParamExpanded _
   {
-    p.WorldParams["paramString"] = fmt.Sprintf("version=%s\nid=%s\nname=%s\nexpanded=%s", p.WorldParams["version"], p.WorldParams["id"], p.WorldParams["name"], p.WorldParams["expanded"])
+    p.WorldParams["paramString"] = fmt.Sprintf("version=%s\nid=%s\nname=%s\nexpanded=%s", p.WorldParams["version"], p.WorldParams["idString"], p.WorldParams["name"], p.WorldParams["expanded"])
   }
 ItemParams  <- (ItemParam)+
 RelParams   <- (RelParam)+
 
 WorldParamVersion <- VERSION EQUALS <Number>        { p.WorldParams["version"] = cleanString(text) }
-WorldParamId      <- ID EQUALS <StringLike>         { p.WorldParams["id"] = cleanString(text) }
+WorldParamId      <- ID EQUALS <StringLike>         { p.WorldParams["id"] = cleanString(text); p.WorldParams["idString"] = strings.TrimSpace(text) }
 WorldParamName    <- NAME EQUALS <StringLike?>       { p.WorldParams["name"] = strings.TrimSpace(text) }
 WorldParamExpanded <- EXPANDED EQUALS <StringLike?> { p.WorldParams["expanded"] = strings.TrimSpace(text) }
 
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index 80de2ad..9592500 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -707,12 +707,13 @@ func (p *Parser) Execute() {
 
 		case ruleAction19:
 
-			p.WorldParams["paramString"] = fmt.Sprintf("version=%s\nid=%s\nname=%s\nexpanded=%s", p.WorldParams["version"], p.WorldParams["id"], p.WorldParams["name"], p.WorldParams["expanded"])
+			p.WorldParams["paramString"] = fmt.Sprintf("version=%s\nid=%s\nname=%s\nexpanded=%s", p.WorldParams["version"], p.WorldParams["idString"], p.WorldParams["name"], p.WorldParams["expanded"])
 
 		case ruleAction20:
 			p.WorldParams["version"] = cleanString(text)
 		case ruleAction21:
 			p.WorldParams["id"] = cleanString(text)
+			p.WorldParams["idString"] = strings.TrimSpace(text)
 		case ruleAction22:
 			p.WorldParams["name"] = strings.TrimSpace(text)
 		case ruleAction23:
@@ -5436,12 +5437,12 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		 }> */
 		nil,
 		/* 142 Action19 <- <{
-		   p.WorldParams["paramString"] = fmt.Sprintf("version=%s\nid=%s\nname=%s\nexpanded=%s", p.WorldParams["version"], p.WorldParams["id"], p.WorldParams["name"], p.WorldParams["expanded"])
+		   p.WorldParams["paramString"] = fmt.Sprintf("version=%s\nid=%s\nname=%s\nexpanded=%s", p.WorldParams["version"], p.WorldParams["idString"], p.WorldParams["name"], p.WorldParams["expanded"])
 		 }> */
 		nil,
 		/* 143 Action20 <- <{ p.WorldParams["version"] = cleanString(text) }> */
 		nil,
-		/* 144 Action21 <- <{ p.WorldParams["id"] = cleanString(text) }> */
+		/* 144 Action21 <- <{ p.WorldParams["id"] = cleanString(text); p.WorldParams["idString"] = strings.TrimSpace(text) }> */
 		nil,
 		/* 145 Action22 <- <{ p.WorldParams["name"] = strings.TrimSpace(text) }> */
 		nil,
-- 
2.43.0


From 5ce477aa3b800a7a93b76a334796c6572ad6494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 38/40] fix: the message of a status ends where its quotes end

---
 pkg/grammar/grammar.peg    | 2 +-
 pkg/grammar/grammar.peg.go | 4 ++--
 pkg/grammar/main.go        | 9 +++++++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index 901a6a0..6d114a4 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -125,7 +125,7 @@ StatusObject
   <- ErrCode (ERROR / OK) <StringLike*>
   {
     p.StmtType = "Status"
-    p.Response.Status.Message = cleanString(text)
+    p.Response.Status.Message = statusMessage(text)
   }
 
 ErrCode <- <Number> { p.Response.Status.Code = p.number }
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index 9592500..c94a1c7 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -685,7 +685,7 @@ func (p *Parser) Execute() {
 		case ruleAction13:
 
 			p.StmtType = "Status"
-			p.Response.Status.Message = cleanString(text)
+			p.Response.Status.Message = statusMessage(text)
 
 		case ruleAction14:
 			p.Response.Status.Code = p.number
@@ -5415,7 +5415,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		nil,
 		/* 136 Action13 <- <{
 		   p.StmtType = "Status"
-		   p.Response.Status.Message = cleanString(text)
+		   p.Response.Status.Message = statusMessage(text)
 		 }> */
 		nil,
 		/* 137 Action14 <- <{ p.Response.Status.Code = p.number }> */
diff --git a/pkg/grammar/main.go b/pkg/grammar/main.go
index afb0220..bc6d011 100644
--- a/pkg/grammar/main.go
+++ b/pkg/grammar/main.go
@@ -90,6 +90,15 @@ func splitIdentifiers(s string) []string {
 	})
 }
 
+// statusMessage returns the message in the text after a status, without whatever follows a quoted message.
+func statusMessage(s string) string {
+	if quoted, ok := strings.CutPrefix(strings.TrimSpace(s), `"`); ok {
+		message, _, _ := strings.Cut(quoted, `"`)
+		return message
+	}
+	return cleanString(s)
+}
+
 func cleanString(s string) string {
 	return strings.Trim(strings.TrimSpace(s), "\"")
 }
-- 
2.43.0


From 881dc3dd9fb1c60ae917ec3c897d877c47c9cdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:45 +0000
Subject: [PATCH 39/40] verif hooks: drop the terminal hook, which the checks
 no longer need

---
 cmd/cli/verif_hooks.go | 46 ------------------------------------------
 1 file changed, 46 deletions(-)
 delete mode 100644 cmd/cli/verif_hooks.go

diff --git a/cmd/cli/verif_hooks.go b/cmd/cli/verif_hooks.go
deleted file mode 100644
index fba725d..0000000
--- a/cmd/cli/verif_hooks.go
+++ /dev/null
@@ -1,46 +0,0 @@
-//go:build verif
-
-package main
-
-import (
-	"bufio"
-	"fmt"
-	"os"
-	"strconv"
-
-	"github.com/williamflynt/topolith/pkg/app"
-	"github.com/williamflynt/topolith/pkg/world"
-)
-
-// With TOPOLITH_VERIF_LINES set, quoted lines (Go syntax) are read from stdin and given to the line handler of the
-// terminal one by one, each followed by the separator in TOPOLITH_VERIF_LINES. An empty line starts a new terminal.
-func init() {
-	sep := os.Getenv("TOPOLITH_VERIF_LINES")
-	if sep == "" {
-		return
-	}
-	var handle func(string)
-	in := bufio.NewScanner(os.Stdin)
-	in.Buffer(make([]byte, 1<<20), 1<<24)
-	for in.Scan() {
-		if in.Text() == "" || handle == nil {
-			core, err := app.NewApp(world.CreateWorld("default-world"))
-			if err != nil {
-				fmt.Println("error creating app:", err)
-				os.Exit(1)
-			}
-			handle = executor(core)
-		}
-		if in.Text() == "" {
-			continue
-		}
-		line, err := strconv.Unquote(in.Text())
-		if err != nil {
-			fmt.Println("bad line:", err)
-			os.Exit(1)
-		}
-		handle(line)
-		fmt.Print(sep)
-	}
-	os.Exit(0)
-}
-- 
2.43.0


From e3c8ae1374af3acf71cf5515c6c070b56ce82276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:25 +0000
Subject: [PATCH 40/40] fix: Backspace takes away a whole character outside the
 basic plane

---
 web/src/TopolithTerminal.tsx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/src/TopolithTerminal.tsx b/web/src/TopolithTerminal.tsx
index 2a28845..d031b27 100644
--- a/web/src/TopolithTerminal.tsx
+++ b/web/src/TopolithTerminal.tsx
@@ -25,7 +25,7 @@ export const TopolithTerminal: React.FC = () => {
                     } else if (char === '\u007F') {
                         // Backspace key pressed.
                         if (inputBuffer.current.length > 0) {
-                            inputBuffer.current = inputBuffer.current.slice(0, -1);
+                            inputBuffer.current = Array.from(inputBuffer.current).slice(0, -1).join('');
                             term.current?.write('\b \b');
                         }
                     } else {
-- 
2.43.0

