#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script because long JSON lines are hard to edit)."""
import json, os
W="pkg/world/world.go"; T="pkg/world/tree.go"; I="pkg/world/item.go"; R="pkg/world/rel.go"
C="pkg/app/command.go"; A="pkg/app/main.go"; G="pkg/grammar/grammar.peg.go"; GM="pkg/grammar/main.go"
WEB="web/src"; WEB="web/src"; P="pkg/persistence/main.go"; E="pkg/errors/main.go"; WASM="cmd/wasm/main.go"; CLI="cmd/cli/main.go"
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=(),hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook))
props=[
p("C01","Containment is always a forest over exactly the existing items",
  "After any sequence of operations every existing item appears exactly once in the containment hierarchy, with exactly one parent or at the top level, and nothing that was deleted or never created appears in it. An item's reported parent, the reported components of that parent and the hierarchy in the world's text always agree, and no item is ever directly or indirectly inside itself.",
  ["histories","inputs"],"all histories of create, delete, nest and free over a small set of items, including self-nesting, nesting into a descendant and missing items",
  "The tests build one fixed two-level tree and nest five items once; they never move an item twice, delete an item that has components, or nest an ancestor under its descendant.",
  [W,T],[("AddOrMove keeps one node per item and its parent link",T+":AddOrMove"),("Delete hands components to the parent",T+":Delete"),("World keeps the item map and tree in step",W+":ItemCreate/ItemDelete/Nest/Free")],
  [("Tree","containment hierarchy",W+" world.Tree"),("Items","existing items",W+" world.Items")],
  ["World.Parent","World.Components","World.ItemParent","World.ItemComponents","World.In","World.String"]),
p("C02","Nest, free and delete move exactly the subtree they name",
  "Nesting an item puts it directly under the named parent and freeing it puts it at the top level; in both cases everything inside it comes along unchanged. Deleting an item hands its direct components to its former parent, or to the top level if it had none. No other item's placement changes, and a request that names a missing item or would put an item inside itself changes nothing.",
  ["histories","inputs"],"every such operation from every containment hierarchy over four items, and from long chains and wide hierarchies",
  "Tests nest fresh items only once and never check where the components of a moved or deleted item end up.",
  [W,T,C],[("AddOrMove",T+":AddOrMove"),("Delete",T+":Delete"),("Nest/Free",W+":Nest, Free"),("multi-item nest/free commands",C+":ItemNestCommand, ItemFreeCommand")],
  [("Tree","containment hierarchy",W+" world.Tree")],["World.Parent","World.Components","World.String","App.Exec nest/free/item delete"]),
p("C03","An item has one current value per attribute, and every view shows it",
  "An item's attributes (external, type, name, mechanism, expanded) are always the last values given to it: creating, setting or clearing some attributes leaves its other attributes and all other items untouched. Creating an item that already exists changes nothing, and reports a conflict exactly when a given attribute differs from the current one. Every way of reading an item - fetch, lists, parent and component listings, the item an operation reports back, the ends of its relationships, and the world's text - shows the same current attributes.",
  ["histories","inputs"],"all histories of create/set/clear/delete with every attribute, every item type and representative values, interleaved with nesting and relationships",
  "Tests create items without attributes inside a world; attributes are only tested on isolated Item values, never across the item map, tree and relationship copies.",
  [W,I,T,C],[("itemSet and propagation to copies",W+":ItemSet, itemSet, ItemCreate"),("params from input",I+":ItemParamsFromInput"),("existing-item comparison",W+":equalItemParams")],
  [("Items/Tree/Rels","three places that hold copies of an Item",W)],["World.ItemFetch","World.ItemList","World.ItemComponents","World.ItemParent","World.RelList endpoints","WorldWithItem.Item","World.String","App.Exec"]),
p("C04","Relationships join existing items, one per ordered pair, independently",
  "A relationship exists only between two existing items and at most once per ordered pair; operating on one pair never affects another pair, whatever characters the identifiers contain. Its attributes (verb, mechanism, async, expanded) are the last values given, in every way of reading it, and deleting an item removes exactly the relationships that start or end at it. Creating one with a missing end is refused, and creating one that exists changes nothing and reports a conflict exactly when a given attribute differs.",
  ["histories","inputs"],"all histories of relationship and item create/set/clear/delete over colliding identifier pairs",
  "Tests create each relationship once between fixed, non-colliding ids and never set, clear or delete one in a world.",
  [W,R,C],[("relationship key from the pair of ids",R+":relIdFromIds"),("RelCreate/RelSet/RelDelete",W),("cascade on item delete",W+":ItemDelete"),("rel commands",C+":RelDeleteCommand etc.")],
  [("Rels","existing relationships",W+" world.Rels")],["World.RelFetch","World.RelList","WorldWithRel.Rel","World.String","App.Exec"]),
p("C05","Relationship and containment queries follow the hierarchy exactly",
  "Asking for the relationships between two items, to an item, or from an item returns exactly the relationships whose ends are the named items or anything nested inside them at any depth; with the strict flag it returns exactly those whose ends are the named items themselves. The containment query answers true for two different items exactly when the first is nested, at any depth, inside the second; with the strict flag it answers true only if the two ids are the same existing item.",
  ["histories","inputs"],"every containment hierarchy over up to four items combined with every set of relationships in the alphabet, every pair of ids and both strictness settings",
  "No test calls the relationship queries or the containment query at all.",
  [W,T,C],[("RelFetch/RelTo/RelFrom descendant expansion",W),("GetDescendantIds, Has",T),("query commands",C+":RelToQueryCommand, RelFromQueryCommand, RelFetchCommand, ItemInQueryCommand")],
  [("Tree","containment hierarchy",W),("Rels","relationships",W)],["World.RelFetch","World.RelTo","World.RelFrom","World.In","App.Exec to?/from?/in?/rel fetch"]),
p("C06","A world's text reads back as the same world",
  "For every world built from text that commands can express, writing it out and reading it back gives an equal world: version, id, name and description, every item with all its attributes, the same containment, and every relationship with all its attributes. Writing the read-back world gives the same content again, and it keeps behaving like the original.",
  ["histories","inputs"],"every reachable world of the bounded alphabets, every quotable character in every text field, deep and wide hierarchies, every storage order",
  "Two literal worlds without item attributes are round-tripped; attributes, spaces in names, awkward ids and deep nesting never are.",
  [W,T,I,R,G,GM],[("World.String / FromString",W),("Item/Rel/Tree String",I+", "+R+", "+T),("world grammar and node stack",G)],
  [],["World.String","world.FromString"]),
p("C07","Items, relationships and trees read back from their own text",
  "Every item, relationship and containment tree (including any subtree) written as text and read back on its own equals the original, attribute by attribute and branch by branch. Reading a tree also returns every item that occurs in it. Reading a relationship whose ends do not exist in the given world is refused, as is text that is not an item, relationship or tree at all.",
  ["inputs"],"all combinations of attributes and types, every quotable character in every field, all tree shapes up to five nodes and every subtree of them",
  "Two items, one relationship and one three-node tree are round-tripped; item types, clearing and subtrees never are.",
  [I,R,T,G],[("Item.String/ItemFromString",I),("Rel.String/RelFromString",R),("Tree.String/TreeFromString",T)],[],["ItemFromString","RelFromString","TreeFromString"]),
p("C08","A saved world loads back equal, listed once, and independent of others",
  "Loading the name under which a world was last saved gives a world equal to the one saved, for any name that commands can express; saving again replaces it. The list of saved worlds holds exactly the names saved in the current location, each once, and saving or loading one world never changes another, nor worlds saved in another location.",
  ["histories","inputs"],"all bounded sequences of edit, save, load, list and change of location over several names, including names with dots, spaces and the file suffix",
  "One world with one plain name is saved and loaded once.",
  [P,W],[("Save/Load/ListWorlds path handling",P)],[("directory","current location",P)],["Persistence.Save","Persistence.Load","Persistence.ListWorlds","Persistence.SetSourcePath"]),
p("C09","A failed or interrupted save never costs or corrupts a saved world",
  "If the process dies or any file operation fails at any point during a save, loading that name afterwards gives either the complete previously saved world or the complete new one - never an error, a partial or a mixed world when a previous save existed - and other saved worlds and the list of worlds are unaffected. A save that reports success has stored the complete new world.",
  ["crash_points","fault_sequences"],"a kill before every system call of the save, an I/O error at every such call, and a write cut short at every byte",
  "Tests only save in a directory where every operation succeeds.",
  [P],[("write beside the target and rename",P+":Save")],[],["Persistence.Save error","Persistence.Load","Persistence.ListWorlds"]),
p("C10","Text that is not a complete world is never read as a world",
  "Reading a world from text that is not a complete world description - empty text, any proper truncation of a valid description, or a valid text of another kind such as a command, a status, an item, a relationship or a tree - reports an error and returns no world. A description whose relationships name items it does not contain is rejected too.",
  ["inputs","crash_points"],"every proper prefix of every world text in the corpus, and every other statement kind",
  "No test feeds malformed text to the reader.",
  [W,G],[("FromString validation",W+":FromString")],[],["world.FromString","Persistence.Load"]),
p("C11","Command text parses to exactly what was written",
  "Every well-formed command line - any resource and verb, identifiers that are bare words other than reserved words or quoted text, parameters in any order, flags with one or two dashes, any whitespace between words - parses to exactly the resource, verb, identifiers, values and flags written, with quoted text kept character for character. A bare word that merely begins with a reserved word is an ordinary identifier. A line of words that is not a command of the grammar is rejected, never understood in part.",
  ["inputs"],"all token sequences up to a length over the full command vocabulary, and all argument, spacing, quoting and flag variants of each command form",
  "Thirty hand-picked commands are parsed; combinations of quoting, spacing, parameters, flags and lists are not.",
  [G,GM,"pkg/grammar/grammar.peg"],[("PEG rules and actions",G),("cleanString and list splitting",GM)],[],["grammar.Parse InputAttributes"]),
p("C12","Each command has exactly its documented effect and answer",
  "Each text command changes the world exactly as the command table documents, for exactly the resources it names, and its success reply carries exactly the resource in its resulting state, the list, or the true/false answer that was asked for. A command that needs a resource which does not exist answers with an error instead.",
  ["histories","inputs"],"every command of the grammar in every reachable state of small worlds, compared with a reference model",
  "The only command ever executed by a test is 'world' on an empty world.",
  [C,A,W,G],[("command implementations",C),("dispatch",C+":InputToCommand"),("reply formatting",A+":Exec")],[],["App.Exec","App.World"]),
p("C13","Every input line gets a well-formed answer and never crashes the app",
  "Whatever line is entered in whatever state, the application answers with text that its own grammar accepts as a response or status: success code 200 only for a command that was understood and executed, an error code otherwise. It never crashes or hangs, and a line that is not a valid command leaves the world and the history unchanged.",
  ["inputs","histories"],"all short strings over the grammar's characters, all short token sequences, all single-character edits of valid commands, in several states",
  "Error replies and malformed input are not tested beyond one literal error string.",
  [A,G,E,C],[("Exec error paths",A+":Exec"),("error text",E+":String")],[],["App.Exec","grammar.Parse"]),
p("C14","Queries and refused operations change nothing",
  "Read-only requests (fetch, list, exists, in?, from?, to?, parent and component lookups, the world and its text) never change the world's observable content, and neither does an operation on a single resource that reports an error. Such an error concerns that operation alone: the next successful operation reports none.",
  ["histories","inputs"],"every query and every refused operation from every reachable state",
  "No test looks at a world after a query or a failed operation.",
  [W,C,T],[("validation before mutation",W),("resetLatestTrackers",W)],[],["World.*","App.Exec"]),
p("C15","Undo exactly reverses the command just executed",
  "Undoing a command right after it ran restores the world to exactly what it was before - all items and attributes, all containment, all relationships and their attributes - for every command in every state, including commands that failed, found nothing to do, or named several items.",
  ["histories","inputs"],"every command of the grammar from every reachable state of small worlds",
  "Undo is never called by any test.",
  [C,W],[("Undo of each command and the old values it remembers",C)],[("oldParams/oldParentIds","what Execute must remember",C)],["App.History()[last].Undo","App.World"]),
p("C16","Undo and redo step through history linearly",
  "After any mix of executing successful commands, undoing and redoing, the world equals the result of running just the commands currently in the history, in order, and the reported history and can-undo/can-redo answers say exactly which commands those are and whether there are more to step to. Undoing n times and redoing n times returns through exactly the same states; a new command after undoing discards the undone ones.",
  ["histories"],"all sequences of execute/undo/redo up to a depth over a mutating command alphabet",
  "Undo, redo, CanUndo, CanRedo and History are never called by any test.",
  [A,C],[("commandsIdx and commands list",A+":exec, undo, redo")],[("commands, commandsIdx","history and position",A)],["App.History","App.CanUndo","App.CanRedo","App.World"],
  "undo and redo are unexported: pkg/app/verif_hooks.go (tag verif) forwards to them"),
p("C17","Equality comparisons are exact and independent of storage order",
  "The comparison functions for items, relationships, trees and worlds answer true exactly when the two values have the same content - every attribute, containment and every relationship - regardless of the order in which things were added, stored or visited, and give the same answer with the arguments swapped.",
  ["inputs","histories"],"all pairs from a set of worlds, trees, items and relationships that includes every single-field difference, under all storage orders",
  "Comparisons are only used to confirm equality of worlds with one relationship per source item.",
  [W,T,I,R],[("WorldEqual",W),("TreeEqual",T),("ItemEqual",I),("RelEqual",R)],[],["WorldEqual","TreeEqual","ItemEqual","RelEqual"]),
p("C18","Worlds, trees and applications in one process never affect each other",
  "Operations on one world, tree or application never change any other world, tree or application in the same process, including copies read back from text. Lists and items handed out, and parameter values passed in, are independent of the world's state: changing them afterwards changes nothing in the world.",
  ["histories"],"all interleavings of two operation sequences on two instances, and every returned or passed-in mutable value",
  "Every test uses one instance at a time.",
  [W,T,A],[("no shared mutable package state",T+":emptyTree"),("copies at the API boundary",W)],[("emptyTree","package-level tree shared by all",T)],["World.*","TreeFromString","App.Exec"]),
p("C19","The browser bridge reports each reply faithfully",
  "For every sequence of lines sent through the browser bridge, the reply's raw text is what the application answers, its status is the code in that answer, and its data describes the same object or objects; the error field is empty exactly when the status is 200, and otherwise carries that code and the answer's message. The bridge never crashes and stays usable.",
  ["histories","inputs"],"all short sequences over a command and junk-line alphabet, run through the real WebAssembly build",
  "The WebAssembly program has no tests.",
  [WASM,A,G],[("toReply",WASM)],[],["topolithSend"]),
p("C20","Listing limits are exact",
  "Listing items or relationships with limit k returns exactly min(k, total) of the existing ones, each at most once and each with its current attributes; without a limit, or with limit 0, it returns every one exactly once.",
  ["inputs","histories"],"every total from 0 to 12 and every limit from 0 to 14, through the world API and through commands, under every storage order explored",
  "Listing is never called with a limit by any test.",
  [W,C],[("ItemList/RelList",W),("limitFromInput",C)],[],["World.ItemList","World.RelList","App.Exec item list / rel list"]),
p("C21","Errors carry their cause's code, and building one never alters another",
  "A refused world operation reports the error code of its cause: 404 when a named item or relationship does not exist, 409 for a conflict. Adding a code, description, data or wrapped error to an error value yields a new error with exactly that added and never changes the value it was derived from or any other error derived from it; the wrapped causes stay reachable, in order.",
  ["inputs","histories"],"every refused operation from every reachable state, and all bounded trees of error-building steps",
  "One error is built linearly and only its text is parsed.",
  [E,"pkg/errors/codes.go",W],[("value-receiver builders",E),("UseCode at each failure site",W)],[],["World.Err","TopolithError"]),
p("C22","The terminal prints the application's answer for each line",
  "For every sequence of lines given to the interactive terminal, each non-blank line that the grammar accepts is executed exactly once, in order, and its answer is printed; a line the grammar rejects prints an 'invalid input' message and executes nothing; blank lines do nothing. Leading and trailing whitespace does not matter and no line crashes the terminal.",
  ["histories","inputs"],"all short sequences over a command and junk-line alphabet, through the real terminal program with its keyboard replaced by a pipe",
  "The terminal program has no tests.",
  [CLI,A],[("executor",CLI)],[],["stdout of the terminal"]),
p("C23","The browser terminal sends each typed line exactly once and shows its reply",
  "At the web page's terminal, each Enter sends exactly the text on the input line - the characters typed, with each Backspace taking the last one away - to the application, once and in order, and nothing else is ever sent. The whole content of the reply is then printed, followed by a new empty input line, also when the answer cannot be read; what is typed on one line never affects another.",
  ["inputs","histories","schedules"],"all short sequences of keys, all schedules of the page's timers between them, all moments at which the WebAssembly program may finish loading",
  "The web page has no tests.",
  [WEB+"/TopolithTerminal.tsx",WEB+"/wasm.ts"],[("onData handler and handleCommand",WEB+"/TopolithTerminal.tsx"),("wasmSend",WEB+"/wasm.ts")],[("inputBuffer","the text on the input line",WEB+"/TopolithTerminal.tsx")],["topolithSend","Terminal.write"]),
p("C24","Processes that share a location only ever see complete worlds",
  "When several processes save, load and list worlds in the same location at the same time, a load gives the complete content of one of the saves that may be current at that moment and never fails for a world already saved, a listing names each saved world exactly once and nothing else, saves of different names do not disturb each other, and after two saves of one name the world is one of the two in full. A process killed at any point changes none of this.",
  ["schedules","crash_points"],"every order of the file operations of two processes (three, up to a number of switches), on real processes",
  "No test runs two processes, or saves while something is loaded.",
  [P],[("Save, Load, ListWorlds",P)],[],["Persistence.Save","Persistence.Load","Persistence.ListWorlds"]),
]
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in props: f.write(json.dumps(q)+"\n")
import sys
for q in props:
    assert len(q["title"])<=80,q["title"]
print(len(props))
