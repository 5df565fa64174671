"""Further properties, and those this family cannot decide here."""
MT, CH, TR, LB = ("cinereus/src/" + x for x in ("matching.rs", "chawathe.rs", "tree.rs", "lib.rs"))
SV, DOM, DF, STEM = "hotmeal-server/src/lib.rs", "hotmeal/src/dom.rs", "hotmeal/src/diff.rs", "hotmeal/src/stem.rs"
STUB = ("The crate is type-checked against hand-written signatures of its dependencies (stubs/), whose behaviour is only assumed through the models.")
ARENA = "Tree is analysed against the documented behaviour of the indextree arena."


def more(prop):
    prop("C19", "A tree grows only at the place asked for",
         "A new Tree consists of exactly the given root; add_child creates exactly one node holding the given data, appends it as the last child of "
         "the given parent and returns its id, and leaves the root and all existing nodes as they were.",
         ["histories", "inputs"], "every tree, every parent, every data, any sequence of calls",
         "Tests build a few shapes and look at counts.", [TR], [TR + " Tree::new, Tree::add_child"], note=ARENA,
         state=[{"name": "arena / root", "meaning": "the nodes with their links, and the root id"}])
    prop("C20", "Tree accessors report what is stored",
         "hash, kind, properties, text, parent, children (in order), descendants and iter (parents first, each node once), get, root and node_count "
         "of a Tree answer exactly what its nodes hold and how they are linked, through the inherent methods and through DiffTree alike; no "
         "node is opaque unless the tree type says so.",
         ["inputs"], "every tree and every node", "Tests query two or three nodes.", [TR], [TR + " impl Tree, impl DiffTree for Tree"], note=ARENA)
    prop("C21", "A position is the index among the siblings",
         "position(n) of a Tree, and of any DiffTree by default, is the number of siblings in front of n, and 0 for the root; child_count(n) is "
         "the number of children.",
         ["inputs"], "every tree and every node", "Tests ask for two positions.", [TR], [TR + " Tree::position, DiffTree::position, child_count"], note=ARENA)
    prop("C22", "Height is the distance to the furthest leaf",
         "height(n) of a Tree is 0 for a leaf and otherwise one more than the largest height among its children.",
         ["inputs"], "every tree and every node", "One test, on a tree of height 1.", [TR], [TR + " Tree::height"], note=ARENA)
    prop("C23", "Post-order lists children before parents, each node once",
         "post_order() of a Tree yields every node below and including the root exactly once, every node after all of its children and siblings in order.",
         ["inputs", "histories"], "every tree, every number of next() calls", "The test checks the length and the last node.", [TR],
         [TR + " PostOrderIter"], note=ARENA + " Each step of the iterator is checked on an arbitrary stack.",
         state=[{"name": "PostOrderIter.stack", "meaning": "nodes still to be listed, with a mark whether their children are on the stack"}])
    prop("C24", "diff_trees is matching followed by script generation",
         "diff_trees_with_matching returns the matching computed for the two given trees under the given configuration together with the edit script "
         "generated from the same trees, in the same roles, and that matching; diff_trees returns that same script.",
         ["inputs", "configurations"], "every pair of trees and every configuration", "Tests call only one of the two on two trees with the default configuration.",
         [LB], [LB + " diff_trees, diff_trees_with_matching"])
    prop("C25", "Library values are what they are made from",
         "NodeData holds exactly the hash, kind, properties and text it was built from (element: no text; text_node: default properties; simple: neither); "
         "cloning any library value gives an equal one; equality of library values compares every part; NodeHash converts to and from u64 unchanged; "
         "NoProps has similarity 1, no changes, and is empty; the default configuration is threshold 0.5 and minimum height 1.",
         ["inputs"], "every value", "Tests compare a few edit operations of one variant.", [TR, CH, MT],
         [TR + " NodeData, NodeHash, PropValue, PropertyInFinalState, NoProps", CH + " EditOp", MT + " MatchingConfig"])
    prop("C26", "Features do not change results",
         "With tracing (levels on or off) and matching-stats switched on or off in any combination, the matching, the edit script and the tree functions "
         "give the same results.",
         ["configurations", "inputs"], "every feature set and every input", "The test suite is run with one feature set.", [MT, CH, TR],
         [MT + " cfg(feature) blocks, trace!/debug! calls", CH + " trace!/debug! calls"],
         technique="comparison of canonical path summaries (abstract interpretation of MIR) between feature configurations")
    prop("C27", "Diffing terminates",
         "Matching, script generation and the tree functions finish on every finite tree: every loop consumes a finite source, climbs to the root "
         "or counts to a fixed bound, worklists only take in nodes below the one taken out, and recursion only goes to children.",
         ["inputs", "configurations"], "every finite input", "Tests finish on small trees.", [MT, CH, TR],
         [MT + " top_down_phase worklist, match_subtrees recursion", TR + " height recursion, PostOrderIter worklist"],
         technique="ranking argument per loop, worklist and recursion on the abstract interpretation of MIR")
    prop("C28", "Diffing does not panic",
         "Matching (computing one, and adding to or querying one with any node), script generation and the tree functions do not panic on valid trees: no failing unwrap, index out of bounds, "
         "arithmetic overflow or explicit panic is reachable.",
         ["inputs", "configurations"], "every two valid trees, every configuration, every matching between them", "Tests cover a few shapes.", [MT, CH, TR],
         [MT + " every operation that can panic", CH + " every operation that can panic", TR + " every operation that can panic"],
         technique="reachability of panicking MIR operations under path facts and difference bounds",
         note="Counts of existing things are assumed not to overflow when added; stack depth and RefCell double borrows are not covered.")

    prop("C29", "The server's caches hold the last page and head per route",
         "After cache_html, diff_route or diff_route_with_head the page cached for the route is the one just given, and after cache_head_injections "
         "or diff_route_with_head the head injections are those just given; other routes and the other cache are untouched; remove_route forgets exactly "
         "its route in both caches and says whether something was there; clear forgets everything; cached_routes lists the routes with a page.",
         ["histories", "inputs"], "every cache content, every route, every page, every sequence of calls", "Tests use one or two routes.", [SV],
         [SV + " LiveReloadServer: cache_html, cache_head_injections, diff_route, diff_route_with_head, remove_route, clear, cached_routes"], note=STUB,
         state=[{"name": "html_cache / head injections", "meaning": "the last page and the last head injections per route"}])
    prop("C30", "A reload event says what clients need",
         "diff_route answers nothing only if the page is unchanged or the diff found no patch, Reload only if no page was cached or the diff failed, and "
         "otherwise Patches with the route and all patches from the cached page to the new one in order; diff_route_with_head answers HeadChanged exactly "
         "when the head injections differ from the cached ones (none cached counts as empty).",
         ["histories", "inputs"], "every cache content, every route, every two pages, every head", "Tests cover one page change.", [SV],
         [SV + " LiveReloadServer::diff_route, diff_route_with_head, cache_head_injections"], note=STUB)
    prop("C31", "Injection goes into the head and keeps the page",
         "inject_into_head returns the page with the content inserted exactly once and nothing else changed: directly behind the first <head> tag "
         "(any case, with or without attributes, but not other tags such as <header>), or in front of the page if there is no such tag or it does not end.",
         ["inputs"], "every page and every content", "Tests use three small pages.", [SV], [SV + " inject_into_head"], note=STUB)
    prop("C32", "Serialization writes every node as HTML",
         "to_html, to_html_without_doctype, serialize_inner_html and to_body_html write the doctype (if any), then every node of the document once, in order: "
         "tags with their name, all attributes in order with values escaped so that they read back unchanged, children inside their element, void elements without "
         "content, comments as they are, and text escaped so that it reads back unchanged, except inside raw text elements (script, style, xmp, iframe, noembed, "
         "noframes, plaintext, noscript), where it stands as it is.",
         ["inputs"], "every document", "Tests round-trip a few dozen documents.", [DOM],
         [DOM + " Document::to_html, to_html_without_doctype, serialize_inner_html, to_body_html and the writers they call"], note=STUB)

    prop("C33", "The old document is mirrored faithfully for diffing",
         "The tree built from a document for diffing (build_tree_from_arena) has the body as its root, with its name, namespace and attributes, and below it exactly one node per "
         "node of the document, in the same order and with the same kind, name, namespace, attributes (in order) and text; the hash of every node is computed from its "
         "kind and name or text and the hashes of its children in order, and from nothing else.",
         ["inputs"], "every document with a body", "Tests build one small tree.", [DF], [DF + " build_tree_from_arena, add_arena_children, recompute_hashes"], note=STUB)
    prop("C34", "The new document is read faithfully for diffing",
         "A DiffableDocument is a tree rooted at the document's body (which has no parent and position 0), and kind, properties, text, hash, parent, children, child_count, position, "
         "height, iter, post_order, descendants and node_count answer what the document holds and how its nodes are linked, with hashes computed as for the old "
         "document, whatever was asked before; a node is opaque exactly if it is an element with the attribute data-hotmeal-opaque; OpaqueAwareTree answers as the tree in it, with "
         "the same rule for opaque nodes.",
         ["inputs", "histories"], "every document with a body, every node, every sequence of queries", "Tests only use them through diff.", [DF],
         [DF + " DiffableDocument, impl DiffTree for DiffableDocument, OpaqueAwareTree, PostOrderIterator"], note=STUB)
    prop("C35", "Attribute comparison is exact",
         "diff of two attribute lists goes through the new attributes in order and marks exactly those different whose value changed or which are new, and at least one if the common attributes "
         "come in another order; similarity is 2*common names / all names, and 1 without any attribute; len and is_empty count the attributes.",
         ["inputs"], "every two attribute lists", "Tests change one attribute.", [DF], [DF + " impl Properties for HtmlProps"], note=STUB)
    prop("C36", "A patch changes exactly the node it names",
         "Document::apply_patches applies the patches in order, each once, with slot 0 being the body, and stops at the first error. A node is named by a path: a slot, then child numbers from there. "
         "Remove takes exactly the named node out and leaves an empty text in its place; SetText sets the text of a text or comment node; SetAttribute sets the value of the attribute with that "
         "qualified name where it stands, or adds it at the end; RemoveAttribute removes exactly the attributes with the name; UpdateProps makes the attributes those in the changes, in their order, "
         "with new values where given and the old value of the same name otherwise (and sets the text if one is given); OpaqueChanged replaces all children by deep copies of what the content parses to, "
         "in order. Nothing else of the document changes, and a patch that cannot be applied (empty path, unknown slot, number out of range, wrong kind of node) is refused with the error that says why, "
         "leaving the document as it was.",
         ["inputs", "histories"], "every document, every patch, every sequence of patches", "Tests apply a few patches to small documents.", [DOM],
         [DOM + " Document::apply_patches, apply_patch, init_patch_slots, apply_patch_with_slots, clone_subtree_from; the node lookups they use"], note=STUB)
    prop("C37", "Inserting and moving put nodes where the path says",
         "InsertElement, InsertText, InsertComment and Move put the node under the parent their path leads to, at the position of its last number: with a detach slot the node that stood there is taken out and "
         "kept in the slot, without one it and its successors stay behind the new node; missing positions before it are filled with empty texts. A new element has the given tag and attributes in order and "
         "exactly the given children, recursively; texts and comments have the given text. Move takes a node named by a path out and leaves an empty text in its place, or takes the whole content of a slot "
         "without leaving anything. Nothing else changes, and impossible requests (empty path, unknown slot, number out of range) are refused with the error that says why.",
         ["inputs", "histories"], "every document, every insert or move patch", "Tests insert and move in lists of a few elements.", [DOM],
         [DOM + " Document::apply_patch (Insert*, Move), create_insert_content, insert_at and the node lookups"], note=STUB)
    prop("C38", "Edit operations become patches one for one, with paths that are right when each is applied",
         "Turning an edit script into patches keeps a working copy of the old document and treats the operations in order: each gives exactly one patch, and changes the copy exactly as applying that patch "
         "changes the document (C36, C37). Paths are taken from the copy as the patches before left it: slot number, then the number among the siblings of every node on the way; a deleted or moved node's path "
         "is that from before the change, an inserted node's that of its place. An insertion or move that puts a node where another stands names a fresh detach slot, numbered in the order they are made, and the "
         "node that stood there is kept under it, except for what nothing needs any more; deleted and moved nodes leave an empty text. Insertions carry the tag, attributes and content or text of the new document's node, updates "
         "carry the final attributes in order with the new values, and inserted nodes are remembered as counterparts for the operations after them. Last, each opaque node that changed gets its new content "
         "at the path it has after all operations.",
         ["inputs", "histories"], "every edit script, matching and pair of trees", "Tests diff a few documents.", ["hotmeal/src/diff.rs"],
         ["hotmeal/src/diff.rs convert_ops_with_shadow, ShadowTree"], note=STUB)
    prop("C39", "Inserted content is the new content, all of it and once",
         "Where a patch inserts a node of the new document, it carries the node's tag, its attributes in order, and as children exactly those children of the node, in order and recursively, that neither have a "
         "counterpart in the old document (these are moved there) nor an insertion of their own; texts and comments carry their text. Where the old document has no body at all, each child of the new one is carried "
         "whole: every element, text and comment below it, with all attributes, at its number in slot 0 without a detach slot.",
         ["inputs"], "every pair of documents, every tree below an inserted node", "Tests insert elements with one or two children.", ["hotmeal/src/diff.rs"],
         ["hotmeal/src/diff.rs extract_content_from_tree_b, create_insert_content, create_insert_patch"], note=STUB)
    prop("C40", "A diff is made of both whole documents",
         "diff(old, new) matches the tree of old's body with that of new's body (the smallest subtrees too), takes the two bodies for partners when they are of one kind, generates the edit script from old to new by that "
         "matching and makes the patches of that script with the same trees and matching. Of the content of opaque nodes it sends the new content of exactly those matched nodes that are or were opaque and whose "
         "content, or attributes below them, changed, or that became or stopped being opaque. Without a body on one side, every child of the other body is inserted in order, or removed from the last to the first; without "
         "any body there is no patch. diff_html parses both texts and diffs old against new.",
         ["inputs"], "every pair of documents", "Tests diff some thirty small documents.", ["hotmeal/src/diff.rs"], ["hotmeal/src/diff.rs diff, diff_html"], note=STUB)

    prop("C41", "A patch sent elsewhere says the same",
         "into_owned of an attribute, of content to insert, of a change and of a patch gives a value of the same variant in which every field is the same, lists element by element in the same order and contents "
         "recursively, texts character by character. A qualified or local name sent as strings (QualNameProxy, LocalNameProxy) and received again is the same name: namespace, local name and prefix, an empty prefix "
         "being no prefix. An AttrPair and the pair of its name and value are interchangeable.",
         ["inputs"], "every patch, every name", "Tests round-trip a few patches.", ["hotmeal/src/diff.rs"],
         ["hotmeal/src/diff.rs AttrPair, InsertContent, PropChange, Patch (into_owned); From for LocalNameProxy, QualNameProxy, AttrPair"], note=STUB)
    prop("C42", "A stem is its characters, borrowed or owned",
         "Two stems are equal, and equal to a str, exactly if their characters are; a stem's length, emptiness, hash, Deref, AsRef, Borrow, Display and Debug are those of its characters as a str, so it can be looked up by "
         "one; push_str and push_tendril leave the old characters followed by the new ones; conversions from str, String, CompactString and tendrils, clone and into_owned keep the characters, and new and default have "
         "none. Text from the parser becomes a stem with the same characters, borrowed from the input exactly where the addresses say the text lies wholly inside it.",
         ["inputs"], "every text, however held", "Tests compare a few short texts; most never meet an owned one.", ["hotmeal/src/stem.rs", "hotmeal/src/dom.rs"],
         ["hotmeal/src/stem.rs Stem", "hotmeal/src/dom.rs tendril_to_stem_with_input"], note=STUB)
    prop("C43", "Documents are looked at and changed node by node as the DOM says",
         "Document::get, children, parent, first_child, last_child, next_sibling, prev_sibling and child_count answer what the arena holds and change nothing; body and head give the first child of the root that is an "
         "element with that tag, if there is one. A new document is html with an empty head and an empty body and has no doctype. create_element, create_text and create_comment make one unattached node with the given "
         "tag (no attributes) or text; append_child, insert_before and insert_after put the node exactly there, remove takes exactly the node out. set_text changes the text of a text node and nothing else; set_attr gives the "
         "(first) attribute with that qualified name the value at its place, or adds it at the end; remove_attr removes exactly the attributes with that qualified name; on other kinds of nodes they do nothing.",
         ["inputs", "histories"], "every document and node", "Tests exercise the API on one small document.", [DOM],
         [DOM + " Document: new, get, children, body, head, create_*, append_child, insert_*, remove, set_*, remove_attr, parent, *_child, *_sibling, child_count"], note=STUB)

    prop("C44", "Parsing hands the text over unchanged and keeps the tree the parser orders",
         "parse gives html5ever the text as it is, with nothing behind it and in front of it nothing if it begins (behind ASCII whitespace, in any case) with <!doctype, else a doctype and, if it has no <html or <body tag, an open "
         "html and body; the document's doctype is then left out, so that it has one exactly if the text begins with one. parse_body_fragment parses the text as the content of a body with scripting. The tree sink begins with an "
         "empty document, makes elements with the local name, the namespace (by URL, both ways; html if unknown) and all attributes in order, comments with their text, empty comments for processing instructions; tells the parser "
         "back name and namespace of an element and whether two nodes are the same; appends or inserts a node exactly where ordered, joins a text to the text node directly in front of that place and otherwise makes a new text node "
         "there; for content that may not stand in a table takes the place before the table if that has a parent and the end of the other element otherwise; adds late attributes in order only where the name is missing; takes "
         "out and moves nodes as ordered; and in the end gives the tree with its first element as root, the doctype's name and the errors.",
         ["inputs"], "every text and every sequence of orders", "Tests parse a few dozen texts.", [DOM],
         [DOM + " parse, parse_body_fragment, has_doctype_prefix, has_html_structure, ArenaSink"], note=STUB + " html5ever itself is not analysed; like its own sink, but without the annotation-xml integration point flag.")
    prop("C45", "Parsing, diffing, applying and writing do not panic",
         "Parsing any text, reading any document, diffing any two, applying any list of patches (well-formed or not: a path that is empty, too long or leads nowhere, a slot that does not exist, a node moved into itself give an "
         "error) and writing any document as HTML does not panic: no index or part of a list or text is taken that is not there or cuts a character in two, no number overflows, no unwrap or expect meets None, no RefCell is "
         "borrowed while a guard forbids it, and no node is put under itself or one of its descendants.",
         ["inputs"], "every text, document and list of patches", "Tests run inputs that work.", [DOM, DF],
         [DOM + " apply_patch, navigate_slot_path, get_slot_parent, insert_at, tendril_to_stem_with_input, has_doctype_prefix, ArenaSink", DF + " diff, convert_ops_with_shadow, ShadowTree"],
         note=STUB + " Stack depth, memory, the functions that only print a tree for people, and calls with a NodeId of another document are left out.")
    WA = "hotmeal-wasm/src/lib.rs"
    prop("C46", "The browser client does to the page what each patch says",
         "apply_patches and its variants (with slots of the caller, on a mount point, from postcard or JSON) apply every patch in order, to the page below the body or below the node the selector finds, give the number of patches, and "
         "fail only when something is missing, too short, not an element, or refused by the browser. The first number of a path names the root (0) or a slot, the others children. SetText sets the text of the node the path leads to; "
         "SetAttribute and RemoveAttribute set or remove the attribute with that name (prefix:local if there is a prefix that is not empty) on the element it leads to; Remove takes a whole slot out, or puts an empty text where the "
         "node was; inserting makes an element with the tag, attributes and content given (through the parser if the browser refuses a name, values escaped), a text or a comment; Move takes the slot, or leaves an empty text where the "
         "node was; both put the node at the position the path ends with: what is there is replaced, and put into the given slot if there is one, and behind the end empty texts fill up to the position. UpdateProps sets the text if "
         "it changes; an element loses all its attributes and gets those of the list in order, with the new value or the one it had. OpaqueChanged sends the element a bubbling hotmeal:opaque-changed event with content, element and "
         "the element's key if it has one. Nothing else changes the page.",
         ["inputs", "histories"], "every list of patches, page and state of the slots", "It has no tests that run here; its own run a few patches in a browser.", [WA],
         [WA + " apply_patches_with_slots, apply_patch, insert_at_position, find_node, create_insert_content, create_element_via_html"],
         note=STUB + " The browser is modelled (lib/web.py). What errors say, the live-reload module (wasm32 only) and the dumping functions are left out.")
    prop("C47", "A slot of the browser client holds what was put there last",
         "Slots::get gives what the slot holds, and it stays; take gives it, and the slot is empty; store puts the node there and leaves the other slots as they are, however many there were; new slots are empty.",
         ["inputs", "histories"], "every slot number and state of the slots", "No test uses the slots by themselves.", [WA], [WA + " Slots::store, take, get, new"], note=STUB)
    prop("C48", "Applying patches in the browser does not panic",
         "Applying any list of patches with the browser client (well-formed or not: a path that is empty, too short or leads nowhere, a slot that does not exist or is empty) to any page does not panic: no number of a path and no slot is "
         "taken that is not there, and no unwrap or expect meets None.",
         ["inputs", "histories"], "every list of patches, page and state of the slots", "Its tests apply patches that work.", [WA],
         [WA + " apply_patch, find_node, insert_at_position, Slots::store"], note=STUB + " Memory (a very high slot number) and stack depth are left out, and so is what the dumping functions and the live-reload module do.")


def na(id, title, statement, over, text, why, files, mech, reason):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": m.split(" ", 1)[1], "where": m.split(" ", 1)[0]} for m in mech]}, "reason": reason}


NA = [
    na("N01", "Applying a diff gives the new document",
       "For any two documents, applying the patches of their diff to the old one, in order, succeeds and gives a document that is written as the same HTML as the new one.",
       ["inputs", "histories"], "every pair of documents", "Tests and fuzzers sample pairs.", [DF, DOM], [DF + " diff", DOM + " apply_patches"],
       "It relates two runtime trees after an unbounded history of patches; no sound static argument in reach composes the simulation between shadow tree and document over the whole list. Its single steps are decided: C33, C34 (what "
       "is compared), C01-C18 (matching and script), C38-C40 (patches), C36, C37 (applying one), C32 (writing)."),
    na("N02", "Parsing builds the tree browsers build",
       "Parsing any text gives the tree that the HTML standard prescribes, and so the one a browser has.",
       ["inputs"], "every text", "Tests parse a few dozen texts.", [DOM], [DOM + " parse"],
       "The tree construction is html5ever's, whose source is not on this machine; C44 decides what hotmeal does with the parser's orders."),
    na("N03", "Diffs are small and fast",
       "The diff of two documents that differ a little is short, and diffing takes time near linear in their size.",
       ["inputs"], "every pair of documents", "Benchmarks sample a few sizes.", ["cinereus/src/matching.rs", "cinereus/src/chawathe.rs"], ["cinereus/src/matching.rs compute_matching"],
       "Lengths and running times are runtime quantities; the source bounds neither (the worst case is quadratic and the matching is a heuristic). C27 decides that it ends."),
    na("N04", "Server and clients stay in step",
       "After any sequence of page updates, disconnections and reconnections every connected client shows the last page of its route.",
       ["histories", "schedules", "fault_sequences"], "every history of updates and connections", "No test connects a client.", [SV], [SV + " LiveReloadServer"],
       "The transport and its scheduling (roam, websockets, browser) are not in the source here; the server's side of it is decided by C29 and C30."),
]
