#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MT, CH, TR, LB = ("cinereus/src/" + x for x in ("matching.rs", "chawathe.rs", "tree.rs", "lib.rs"))
AI = "whole-path abstract interpretation of MIR with resolved callees (path facts, loop summaries)"
NOTE = ("Sound over all paths, iterations and inputs of the analysed functions, relative to the stated contract of the tree and "
        "property interfaces and to the models of std functions; not a machine-checked proof, hence level other.")
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=AI, note="", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique,
                  note=note, state=state))


prop("C01", "A node is matched at most once",
     "In the matching computed for two trees no node of the first tree and no node of the second tree belongs to more than one pair.",
     ["inputs", "configurations"], "every pair of trees, every assignment of hashes, kinds, properties and opaque marks, every configuration",
     "Tests run a handful of tiny trees; a double match needs several nodes competing for one counterpart in one phase.",
     [MT], [MT + " compute_matching: every add() in top_down_phase, match_subtrees, bottom_up_phase"],
     note="Each add(a, b) reachable from compute_matching is shown to happen only where both nodes are free at that version of the matching.")
prop("C02", "Matching answers are consistent with the pairs added",
     "After any sequence of additions of fresh nodes, get_b/get_a return exactly the partner that was added, contains_a/contains_b say whether "
     "there is one, pairs() lists the additions in order, and len/is_empty count them; a node never added has no partner.",
     ["histories", "inputs"], "every sequence of add calls, every initial capacity, every node id",
     "Tests only add nodes 1..3 in increasing order; growth, sparse indices and preallocation are not exercised.",
     [MT], [MT + " struct Matching: new, with_capacity, add, get_a, get_b, contains_a, contains_b, pairs, len, is_empty"],
     technique="abstract interpretation of the container's operations against observational equations (difference-bound index reasoning)",
     note="Induction over histories: a fresh container, and one add on an arbitrary container state.",
     state=[{"name": "a_to_b / b_to_a / pairs", "meaning": "the two lookup directions and the list of pairs"}])
prop("C03", "Only nodes of the same kind are matched",
     "Every matched pair consists of two nodes of the same kind.",
     ["inputs", "configurations"], "every pair of trees and every configuration",
     "Tests use trees where most nodes share one kind.", [MT], [MT + " every add() reachable from compute_matching"],
     note="Kinds of nodes below a pair with equal hashes are equal by the hash contract.")
prop("C04", "Every match is justified",
     "Two nodes are matched only if their subtree hashes are equal, or their properties are at least as similar as the configured similarity "
     "threshold, or one of them is opaque and the two are compared at corresponding places (roots, or children of matched nodes).",
     ["inputs", "configurations"], "every pair of trees, every similarity function, every threshold",
     "Tests have no properties at all, so the threshold is never exercised.", [MT],
     [MT + " bottom_up_phase similarity tests, top_down_phase hash and opaque tests"],
     note="Similarity is compared as a term of the program; NaN is excluded by assumption.")
prop("C05", "Matches respect ancestry",
     "When a node is matched while its parent already has a partner, the new partner lies below the parent's partner, and the same holds from "
     "the second tree to the first, unless the pair was found by comparing the two trees level by level from matched or corresponding parents.",
     ["inputs", "configurations"], "every pair of trees and every configuration",
     "Tests have no cross-subtree candidates.", [MT], [MT + " ancestry_compatible and every add() reachable from compute_matching"])
prop("C06", "Opaque subtrees are atomic for matching",
     "No strict descendant of an opaque node, of either tree, is ever matched; the opaque node itself may be.",
     ["inputs", "configurations"], "every pair of trees with any nodes marked opaque, in one tree or in both",
     "Tests mark corresponding nodes of both trees; opacity on one side only is not tested (and was broken, see known_findings.json).",
     [MT], [MT + " top_down_phase, match_subtrees, bottom_up_phase opaque_descendants_a/b"],
     note="Uses induction over the top-down worklist and over match_subtrees' recursion.")
prop("C07", "Small subtrees are not matched by identity alone",
     "A pair that the top-down comparison selects by itself has a height of at least the configured minimum; lower nodes are matched "
     "top-down only as part of such an identical pair.",
     ["inputs", "configurations"], "every pair of trees and every min_height", "Tests only use the default minimum height.",
     [MT], [MT + " top_down_phase height test, match_subtrees"])
prop("C08", "Results depend on the inputs only",
     "The matching and the edit script, including the order of pairs and operations, are determined by the two trees and the configuration: "
     "never by hash-table iteration order, the clock, addresses, randomness or thread-local counters.",
     ["inputs", "configurations", "histories"], "every input, every process, every feature set",
     "Two runs in one process rarely differ; the existing tests check membership, not order.", [MT, CH],
     [MT + " compute_matching", CH + " generate_edit_script", TR + " position counters"],
     technique="taint and effect analysis on the abstract interpretation (hash-ordered iteration, ambient state, impure callees)")
prop("C09", "Identical and opaque nodes found top-down are paired",
     "The top-down phase compares the roots first and goes on until nothing is left to compare. Two compared, still free nodes that are high "
     "enough are treated as follows: identical subtrees are paired node by node (down to opaque nodes); nodes of one kind of which one is opaque "
     "are paired; otherwise, if they differ, each free child of one is compared with each free child of the other that has its hash or its kind.",
     ["inputs", "configurations"], "every pair of trees, every minimum height", "Tests count pairs of a few trees that match completely.",
     [MT], [MT + " top_down_phase worklist, match_subtrees"],
     technique="completeness rules over the worklist and recursion summaries of the abstract interpretation of MIR")
prop("C10", "Children of paired parents are paired by place or hash",
     "After matching, if a node of the first tree outside opaque subtrees is unmatched while its parent was paired when the node's turn came, then "
     "no free child of the parent's partner had the node's kind and position and was similar enough; and if the node is a leaf, no free leaf child "
     "of that partner had its kind and hash.",
     ["inputs", "configurations"], "every pair of trees, every properties implementation, every configuration",
     "Tests do not look at unmatched nodes of larger sibling lists.", [MT], [MT + " bottom_up_phase pass 1 position match, pass 2"],
     technique="completeness of passes: on every path that leaves a node alone an exhausted search rules out all its candidates (abstract interpretation of MIR)")
prop("C11", "Overlap decides global matches",
     "Two nodes that are not identical, not at the same place below paired parents, not both leaves, not both roots and not compared as opaque "
     "nodes are paired only if 2*common/(|A|+|B|) reaches the threshold, common being the descendants of the one paired with descendants of the "
     "other; the partner is the first with the highest value among all free inner nodes of the same kind that are outside opaque subtrees, "
     "similar and compatible with paired parents, and an inner node whose turn comes with such a candidate available does not stay unmatched.",
     ["inputs", "configurations"], "every pair of trees, every threshold", "Tests never have two candidates with different overlap.", [MT],
     [MT + " dice_coefficient, bottom_up_phase pass 1 fallback, LazyDescendantMap"])
prop("C12", "Inserts are exactly the unmatched nodes of the new tree",
     "The edit script contains exactly one Insert for every non-root node of the new tree that is unmatched and not strictly inside an opaque "
     "node, and no other Insert; each carries that node's parent, its position in the new tree and its kind.",
     ["inputs"], "every two trees and every matching", "Tests check a few scripts for the presence of one operation.", [CH],
     [CH + " generate_edit_script phase 2/3"])
prop("C13", "Deletes are exactly the unmatched nodes of the old tree",
     "The edit script contains exactly one Delete for every node of the old tree that is unmatched and not strictly inside an opaque node, "
     "and no other Delete.",
     ["inputs"], "every two trees and every matching", "Tests check single deletions only.", [CH], [CH + " generate_edit_script phase 5"])
prop("C14", "Moves are exactly the matched nodes whose place changed",
     "A matched pair outside opaque subtrees whose nodes both have parents gets exactly one Move if the old parent is not matched to the new "
     "parent or the positions differ, and none otherwise; the Move carries both nodes, the new parent and the new position.",
     ["inputs"], "every two trees and every matching", "Tests cover one or two moves in tiny trees.", [CH], [CH + " generate_edit_script phase 4"])
prop("C15", "SetText is emitted exactly for changed text",
     "A matched pair outside opaque subtrees gets exactly one SetText, carrying the new node's text, if the new node has text and it differs from "
     "the old node's text, and none otherwise.",
     ["inputs"], "every two trees and every matching", "No stable test has text nodes.", [CH], [CH + " generate_edit_script phase 1"])
prop("C16", "Property updates are emitted exactly for changed properties",
     "A matched pair outside opaque subtrees gets exactly one UpdateProperties, carrying the full property diff from old to new, if some property "
     "is marked different or the old node has more properties than the diff keeps, and none otherwise (none when both have no properties).",
     ["inputs"], "every two trees, every matching and every properties implementation", "No stable test has properties.", [CH],
     [CH + " generate_edit_script phase 1"])
prop("C17", "Edit operations come in an applicable order",
     "In every script text and property updates come first, then inserts, moves and deletes; inserts follow the new tree's traversal order "
     "(parents before children) and deletes follow the old tree's post-order (children before parents).",
     ["inputs"], "every two trees and every matching", "Tests look for single operations, not for order.", [CH],
     [CH + " generate_edit_script phases"])
prop("C18", "No edit touches the inside of an opaque node",
     "No operation of the edit script refers to a node strictly inside an opaque node: neither as the node being changed in the old tree nor as "
     "the node being created, moved or updated in the new tree.",
     ["inputs"], "every two trees with any nodes marked opaque and every matching", "Tests mark both trees symmetrically.", [CH],
     [CH + " opaque_descendants_a/b in generate_edit_script"])

from props_more import more, NA          # noqa: E402
more(prop)


def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": m.split(" ", 1)[1], "where": m.split(" ", 1)[0]} for m in p["mech"]]}
            if p["state"]:
                a["state"] = p["state"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
        for p in NA:
            f.write(json.dumps({k: v for k, v in p.items() if k != "reason"}) + "\n")
    checks = [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
               "technique": p["technique"], "level": "other", "level_note": (p["note"] + " " + NOTE).strip()} for p in P]
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks,
         "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
         "notes": "Checks never execute the crate: they type-check /repo's current cinereus, hotmeal and hotmeal-server sources (the latter two against stubs/) with a rustc driver (driver/), "
                  "and analyse the resulting MIR (lib/). No hooks are needed in /repo."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
