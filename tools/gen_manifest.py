#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "explicit-state model checking of the real code: every operation sequence up to a depth, against a reference model"
SCH = "stateless model checking of the real code: every interleaving within a deviation bound under a controlled scheduler, against a reference model"
BOTH = SCH + "; plus a race detector pass over those schedules"
ENUM = "explicit-state model checking of the real code: complete enumeration of a bounded input and fault space, against a reference model"
T = "Trusts the instrumentation of channels, locks, time and map order (self-tested on each run) and the reference model; "
CHECKS = {
 "C01": (SEQ, T + "two and three UIDs, all histories of the stated depth, both kinds of graph and both map orders; larger graphs by fixed histories."),
 "C02": (SEQ, T + "two and three UIDs, all histories of the stated depth, both kinds of graph and both map orders; larger graphs by fixed histories."),
 "C03": (SEQ, T + "all graphs of up to 4 (5) nodes with every root and depth, all short histories on 3 nodes, and shapes of up to 24 (64) nodes."),
 "C04": (ENUM, T + "all short strings over a hostile alphabet in every place, all small graphs and all short histories; the text is read with gonum's DOT parser. Strings that already are quoted or HTML DOT IDs are not covered."),
 "C05": (BOTH, T + "two or three threads of one or two (three) operations each, from several starting graphs, within the deviation bound of each family."),
 "C06": (SEQ, T + "two and three UIDs, all histories of the stated depth, both graph kinds; longer bulk operations by fixed histories."),
 "C07": (BOTH, T + "two or three threads of one or two operations each, from several starting stores, within the deviation bound of each family."),
 "C08": (SEQ, T + "two and three UIDs, all histories of the stated depth, UIDs asked for through different objects."),
 "C09": (BOTH, T + "two or three threads of one or two operations each, from several starting caches, within the deviation bound of each family."),
 "C10": (BOTH, T + "all histories of the stated depth on two and three UIDs, and two or three threads of one or two operations each."),
 "C11": (BOTH, T + "two or three threads of one to three operations over topics and capacities, within the deviation bound of each family, in virtual time; all histories judged by a linearizability search over a model of the broker."),
 "C12": (BOTH, T + "two or three threads of one to three operations over one or two sessions, within the deviation bound of each family, in virtual time; all histories judged by a linearizability search over a model of the broker."),
 "C13": (BOTH, T + "every way of waiting with every ending event and timeouts of a small domain in virtual time, and racing events within the deviation bound of each family."),
 "C14": (BOTH, T + "two or three threads of one to three operations, up to six subscribers, within the deviation bound of each family, in virtual time."),
 "C15": (ENUM + "; " + BOTH, T + "all option lists up to a length, every position of every failure in sequences of up to five messages, and the whole pipeline within a deviation bound."),
 "C16": (ENUM + "; " + BOTH, T + "all option lists up to a length in both places, all sequences of up to three (four) runs, three concurrent runs within a deviation bound."),
 "C17": (ENUM, T + "every field over a domain of hostile strings, all small attribute sets, pairs of fields, and both own and foreign implementations of each kind."),
 "C18": (ENUM, T + "all byte strings of up to two (three) bytes, token sequences of up to four (five) tokens in several places, every truncation, single byte change, insertion and short deletion of documents, and pairs of fields with every kind of value; the oracle is encoding/json on structs of the documented fields."),
 "C19": (SEQ, T + "all histories of three (four) operations on two attribute sets and longer ones up to equal states; all contents over seven keys; an error at every call of a source of up to six keys."),
 "C20": (ENUM + "; " + BOTH, T + "all option lists of up to four (five) options for every constructor, all field values of a small domain, three constructors at the same time within a deviation bound."),
}
import sys
extra = os.path.join(here, "tools", "manifest_extra.py")
if os.path.exists(extra):
    exec(open(extra).read())
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        t, n = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
            "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": "its check is still being built"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
