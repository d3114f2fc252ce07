#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per claimed property."""
import json, os
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORD="Map iteration order is a controlled choice: several fixed orders and orders that alternate between the iterations of one run (not all orders)."
BFS="explicit-state model checking of the implementation: breadth-first search over operation histories against a reference model"
C={
"C01":(BFS,"Every history of the alphabets up to the stated depth or to a fixpoint, on the real world. "+ORD),
"C02":(BFS,"Every move from every reachable hierarchy of the alphabets, on the real world and through commands. "+ORD),
"C03":(BFS,"Every history of attribute-changing operations up to the stated depth; every view of every item compared. "+ORD),
"C04":(BFS,"Every history of relationship operations over identifiers built to collide. "+ORD),
"C05":("exhaustive enumeration of hierarchies and relationship sets on the implementation, every query compared with the closure","All forests over the items, all small relationship sets, all query arguments; bounded in items and relationships."),
"C06":("explicit-state model checking of the implementation with a write/read-back step in every reached state","Every reachable world of the alphabets is written, read back and compared, including the effect of every further operation on original and copy. "+ORD),
"C07":("exhaustive enumeration of items, relationships and trees, each written and read back","All enumerated values and all tree histories up to the depth; bounded character and value sets."),
"C08":("explicit-state model checking on real directories: histories of edit, save, load, list and change of location against a model of the store","Every history of the alphabets up to the stated depth, all names of up to two characters, all ordered pairs of odd names; on Linux file systems."),
"C09":("exhaustive fault enumeration: a tracer kills the saving process before every file operation, fails every file operation and cuts every write, alone and in combination","The real Save in a real process; process death and I/O errors, not power loss. Needs ptrace of its own children."),
"C10":("exhaustive truncation and substitution of world texts","Every proper prefix of the enumerated texts, all texts of other kinds; bounded by the enumerated worlds."),
"C11":("exhaustive enumeration of command lines checked against an independent reference reader","Every line of the enumerated families; lines whose meaning the documentation leaves open are not judged."),
"C12":("explicit-state model checking of the application: histories of command texts against a reference model","Every history of commands up to the stated depth through App.Exec; world and answer compared after each. "+ORD),
"C13":("exhaustive enumeration of input lines in several application states","Every line of the enumerated families is executed; answers read back by the grammar and by an independent reader."),
"C14":("explicit-state model checking of the application, every query and refused operation tried in every reached state","State comparison through the complete public observation and the text. "+ORD),
"C15":("explicit-state model checking of the application, every command executed and undone in every reached state","State comparison through the complete public observation. "+ORD),
"C16":("explicit-state model checking: every execute/undo/redo sequence up to a length against a history model","Compared with a fresh application that runs the commands of the model history. Undo and redo of the application are reached through a hook when built with the verif tag, else through the exported history."),
"C17":("exhaustive comparison of all ordered pairs of enumerated values under several map orders","Bounded by the enumerated values."),
"C18":("exhaustive interleaving of operations on two instances of the implementation","Every interleaving up to the stated length; every value handed in or out overwritten."),
"C19":("explicit-state exploration of the real WebAssembly program: every sequence of lines up to a length, each in a fresh instance","Every reply compared with the native application's answer and an independent reading of it; trusts node and wasm_exec.js."),
"C20":("exhaustive enumeration of sizes and limits on the implementation","All sizes and limits up to the bound, in worlds built in several ways."),
"C22":("explicit-state exploration of the real terminal program: every sequence of lines up to a length, each in a fresh process","What each line prints compared with the application's answer; the line editor's keyboard reading is replaced by a pipe."),
"C23":("explicit-state exploration of the real web page: every sequence of keys up to a length, every timer schedule and loading moment, against a model of a line editor","The page's own code, bundled, under node; React and xterm are replaced by stand-ins."),
"C24":("exhaustive exploration of the orders of file operations of real processes under a tracer","All orders for two processes (some situations up to a number of switches in the quick check), up to a number of switches for three. Needs ptrace of its own children."),
"C21":("explicit-state model checking of refusals, and exhaustive enumeration of error derivation trees","Every refused operation in every reached state; all derivation trees up to the size."),
}
NA={}
LEVEL={"C09":"fault_enumeration"}
import importlib.util
try:
    exec(open(os.path.join(HERE,"tools","manifest_more.py")).read())
except FileNotFoundError: pass
ids=[json.loads(l)["id"] for l in open(os.path.join(HERE,"properties.jsonl"))]
m={"version":1,"setup_cmd":"bash ./setup.sh",
 "hooks":{"guard":"verif (Go build tag)","enable":"go build -tags verif (mc/build.sh)","source_commits":["df51441a7c596f065ff06ab858dcdca1ad7422c7","881dc3dd9fb1c60ae917ec3c897d877c47c9cdee"]},
 "checks":[{"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":C[i][0],
   "level":LEVEL.get(i,"model_checking"),"level_note":C[i][1]} for i in ids if i in C],
 "not_applicable":[{"property":i,"reason":NA.get(i,"No check has been built for it yet.")} for i in ids if i not in C]}
json.dump(m,open(os.path.join(HERE,"MANIFEST.json"),"w"),indent=1); open(os.path.join(HERE,"MANIFEST.json"),"a").write("\n")
