"""Writes properties.jsonl and MANIFEST.json from the texts below. Run: python3 tools/registry.py (in /verif)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "treebeard/models.py"
MP, NS, AL = "treebeard/mp_tree.py", "treebeard/ns_tree.py", "treebeard/al_tree.py"
LT, LTF = "treebeard/ltree/__init__.py", "treebeard/ltree/fields.py"
JS = "treebeard/static/treebeard/treebeard-admin.js"
ADMIN, FORMS, TAGS = "treebeard/admin.py", "treebeard/forms.py", "treebeard/templatetags/admin_tree.py"
UTILS, DEPR, NUM = "treebeard/utils.py", "treebeard/deprecation.py", "treebeard/numconv.py"
ALL = [MP, NS, AL, LT, M]

P = []


def prop(id, title, statement, over, text, why, files, mech, note, technique, observe=("public API", "rows of the tables")):
    P.append(
        (
            {
                "id": id, "title": title, "statement": statement,
                "quantifier": {"over": list(over), "text": text},
                "why_tests_cant": why,
                "anchors": {
                    "files": list(files),
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": list(observe),
                    "hook_needed": None,
                },
            },
            note, technique,
        )
    )


prop(
    "C01", "Insertion puts exactly one new node at the requested place",
    "add_root, add_child and add_sibling store exactly one new node with the given field values, at the place the call asks "
    "for: after the last root, after the last child, or at the named position relative to the target (by node_order_by where "
    "the model has one). Every other node keeps its parent, its relative order among its siblings, its primary key and all its "
    "data. The node returned is the stored one.",
    ["histories", "inputs", "configurations"],
    "Every tree reachable by public operations, every target node, every position name, every implementation and model "
    "configuration (sorted or not, key type, steplen and alphabet, multi-table or proxy class), and every set of field values.",
    "The tests insert into one fixed ten-node tree; the shifting and renaming done to make room depends on the shape, on the "
    "holes left by earlier operations and on the configuration.",
    ALL,
    [("add_root/add_child/add_sibling", f"{x}") for x in (MP, NS, AL, LT)],
    "Online comparison of every stored row with a reference forest, after each operation of seeded histories.",
    "runtime monitor: raw rows decoded after every operation and compared with a reference forest",
)
prop(
    "C02", "Moving a node moves its whole subtree to the requested place",
    "move() makes the node, with its whole subtree in unchanged shape and order, the child or sibling that the position asks "
    "for, relative to the target, and leaves all other nodes under the same parents in the same relative order. No node is "
    "lost, duplicated or changes its primary key or data. Moving a node to where it already is changes nothing.",
    ["histories", "inputs", "configurations"],
    "Every reachable tree, every pair of node and target (also itself, a sibling, an ancestor), every position, every "
    "implementation and model configuration.",
    "A move has dozens of cases (left/right of the target, same or different parent, gaps, overlapping path or interval ranges) "
    "of which tests sample a few on one small tree.",
    ALL,
    [("move", x) for x in (MP, NS, AL, LT)],
    "Online comparison of every stored row with a reference forest, after each operation of seeded histories.",
    "runtime monitor: raw rows decoded after every operation and compared with a reference forest",
)
prop(
    "C03", "Deleting removes exactly the chosen nodes and their descendants",
    "Deleting a node or a queryset of nodes (through any class of the hierarchy, children and descendants querysets included) "
    "removes those nodes and all their descendants and nothing else; what refers to them is deleted, set to null or protects "
    "them as on_delete says. The survivors keep their parents, order and data, the stored child counts and intervals are "
    "brought up to date, and the reported counts are those of the rows removed.",
    ["histories", "inputs", "configurations"],
    "Every reachable tree, every subset of nodes (overlapping subtrees, descendants of one another, siblings, everything), "
    "every implementation and class, with dependents of every on_delete kind.",
    "Tests delete a few fixed nodes; querysets that mix ancestors, descendants and siblings, and dependents, are barely reached.",
    ALL,
    [("queryset delete", x) for x in (MP, NS, AL, LT)],
    "Online comparison of the survivors, and of the rows that refer to nodes, with a reference forest.",
    "runtime monitor: raw rows decoded after every deletion and compared with a reference forest",
)
prop(
    "C04", "Siblings stay sorted by node_order_by",
    "On a model with node_order_by, every group of siblings that was ordered by those fields is still ordered after any "
    "add_root, add_child, add_sibling(sorted-sibling) or move to a sorted position, ascending and descending fields and equal "
    "keys included. The listings (children, roots, siblings, tree) return them in that order. A field that is NULL is ignored, "
    "with a warning, when a node gets its place.",
    ["histories", "inputs", "configurations"],
    "Every history of sorted operations and saves, every value of the ordering fields (ties, mixed signs, any text) and every "
    "implementation; groups that are out of order to start with must not make an operation fail or lose nodes.",
    "Tests sort one or two small sibling groups with well-behaved values.",
    ALL,
    [("get_sorted_pos_queryset", M), ("sorted positions", MP)],
    "Every sibling group is judged after each operation from raw rows and through the API; text is compared in database order.",
    "runtime monitor: order of every sibling group judged after every operation",
)
prop(
    "C05", "The stored encoding of the tree is always valid",
    "After any sequence of successful operations the stored columns are a valid encoding of one forest: materialized paths are "
    "unique, made of alphabet characters, a whole number of steps long, with existing parents and exact depth and numchild; "
    "nested sets have unique, properly nested intervals with exact depth; adjacency lists have existing parents, no cycles, "
    "distinct sibling orders; ltree paths are unique, with existing parents.",
    ["histories", "configurations"],
    "Every history of insertions, moves, deletions, bulk loads and saves, on every implementation and model configuration.",
    "Tests compare (name, depth, numchild) of a fixed tree; a wrong column that no query shows yet is not noticed.",
    ALL,
    [("path/interval rewriting", MP), ("interval shifting", NS), ("sib_order", AL), ("labels", LT)],
    "All storage invariants are evaluated on every row after every operation.",
    "runtime monitor: storage invariants evaluated on every row after every operation",
)
prop(
    "C06", "Navigation queries return exactly the right nodes in tree order",
    "For every node, get_children, get_descendants, get_ancestors, get_siblings, get_parent, get_root, first/last child, "
    "first/last/previous/next sibling, get_tree, get_descendants with max_depth and include_self, first/last/all roots return "
    "exactly the nodes that the parent and sibling structure defines, in tree order, without duplicates. This also holds for "
    "nodes of child and proxy classes and for trees with gaps in the encoding.",
    ["inputs", "histories", "configurations"],
    "Every forest (shape, gaps, hostile field values), every node, every argument value, every implementation and class.",
    "Tests query a fixed tree with a handful of nodes; prefix and boundary mistakes need wide, deep or gapped trees.",
    ALL,
    [("navigation methods", x) for x in (MP, NS, AL, LT)],
    "Every query of every node is compared, in order, with a reference forest, over generated forests.",
    "runtime monitor: results of every navigation query compared with a reference forest",
)
prop(
    "C07", "Relationship predicates and counts agree with the structure",
    "get_depth, is_root, is_leaf, get_children_count, get_descendant_count, is_child_of, is_sibling_of and is_descendant_of "
    "answer exactly what the parent structure says, for every node and every ordered pair of nodes, the node with itself "
    "included. They hold for nodes of child and proxy classes and after any history.",
    ["inputs", "histories", "configurations"],
    "Every forest, every ordered pair of its nodes, every implementation and class.",
    "Tests check some pairs of one tree; predicates computed from path prefixes or intervals go wrong at borders only.",
    ALL,
    [("predicates", x) for x in (MP, NS, AL, LT)],
    "Every ordered pair (capped per forest) of generated forests is judged against the reference forest.",
    "runtime monitor: predicates of all node pairs compared with a reference forest",
)
prop(
    "C08", "Invalid requests are refused and change nothing",
    "An invalid position, a position that does not fit node_order_by, a move below the node itself, an instance that is "
    "already saved, contradictory or missing creation arguments and a primary key already in use raise the documented exception. "
    "Every row of every table, and every object passed in, is as it was before the call, and later operations work.",
    ["inputs", "histories", "configurations"],
    "Every invalid request on every reachable tree, inside or outside a transaction, with any class of object.",
    "Tests check the exception type for some requests; that nothing changed is checked hardly anywhere.",
    [*ALL, "treebeard/exceptions.py", UTILS],
    [("argument checks", M), ("check_create_args", UTILS)],
    "Rows of all tables and objects in memory are compared before and after each refusal.",
    "runtime monitor: full table and object comparison around every refused call",
)
prop(
    "C09", "Tree operations are atomic under faults",
    "An add, move, delete, load_bulk or rebuild that fails in between (a statement that the database refuses, an exception in a "
    "signal handler, a lost connection, a killed process) leaves every row of every table as it was before the call. The "
    "connection, and a transaction around the call that catches the error, remain usable.",
    ["fault_sequences", "crash_points", "inputs"],
    "Every statement and every signal of every operation on every reachable tree, failing before or after the statement runs.",
    "No test injects a fault; multi-statement operations have many intermediate points.",
    [*ALL, UTILS],
    [("atomic", UTILS), ("transactions of operations", MP)],
    "Faults are injected at each kind of point of generated operations; SIGKILL on SQLite files, disconnects on PostgreSQL.",
    "runtime monitor: fault injection at statements, signals, connections and processes, tables compared afterwards",
)
prop(
    "C10", "Objects in memory agree with the database after a tree operation",
    "After a successful add or move, the returned node, the target or parent object passed in and the moved object in memory "
    "hold the same tree column values as their rows. They can therefore be used for the next operation without being reloaded.",
    ["histories", "inputs", "configurations"],
    "Every history in which handles are reused as the documentation allows, on every implementation and configuration.",
    "Tests reload objects before nearly every check.",
    ALL,
    [("in-memory updates", x) for x in (MP, NS, AL, LT)],
    "Each object involved is compared column by column with its row after every operation; histories reuse the handles.",
    "runtime monitor: object state compared with its row after every operation",
)
prop(
    "C11", "Dump and load reproduce the tree",
    "dump_bulk returns the exact structure, order and field values of the tree or branch; load_bulk of it, into an empty table, "
    "under a node or into another implementation, stores the same structure, order, field values, foreign keys and many-to-many "
    "relations, with the same primary keys when keep_ids is given, and returns the keys of the new nodes. Nodes that were there "
    "before stay as they were, and the data passed in is not modified.",
    ["inputs", "configurations"],
    "Every forest, every branch, every pair of implementations, every combination of options.",
    "Tests round-trip one tree of ten nodes with plain text.",
    [*ALL, UTILS],
    [("dump_bulk/load_bulk", M), ("prepare_dumpdata_for_loading", UTILS)],
    "Dump, loaded rows and relations compared with the reference forest over generated forests.",
    "runtime monitor: dumps and loaded rows compared with a reference forest",
)
prop(
    "C12", "bulk_create loading is equivalent to normal loading",
    "load_bulk(bulk_create=True) on a materialized path tree stores the same rows (structure, paths, counts, fields, foreign "
    "keys, many-to-many) as the same call without bulk_create, for every batch size, or raises the same overflow. On sorted "
    "models the top level goes where its values belong.",
    ["inputs", "configurations"],
    "Every structure loaded at the top or under any node of any tree, every batch size and configuration.",
    "Tests compare one structure with default batch size.",
    [MP, M, UTILS],
    [("_load_bulk with bulk_create", MP)],
    "Both ways are run on the same tree and compared row by row.",
    "runtime monitor: differential comparison of two executions, row by row",
)
prop(
    "C13", "Tree signals suffice to follow every change",
    "The treebeard signals (with post_save) tell a listener which rows an operation changed and how: applying to a mirror "
    "exactly what the documentation says each signal means keeps the mirror equal to the table after every operation, and at "
    "each signal the mirror matches the database as documented. The sender and the database alias are right, and no signal is "
    "sent twice or for a change that did not happen.",
    ["histories", "inputs", "configurations"],
    "Every operation of every reachable tree on every implementation.",
    "Tests look at the arguments of the signals of a few operations.",
    [*ALL],
    [("signals", M), ("senders", MP)],
    "A mirror fed only by signals is compared with the table after every operation and at every signal.",
    "runtime monitor: trace oracle, a mirror driven by the emitted signals compared with the table",
)
prop(
    "C14", "find_problems reports exactly the corrupted nodes",
    "find_problems() reports nothing on a tree produced by successful operations, and on a corrupted table lists in each of its "
    "documented categories exactly the nodes (below the given parent) that have that problem.",
    ["inputs", "configurations"],
    "Every reachable tree, and every table obtained by overwriting tree columns of some of its rows.",
    "Tests corrupt one fixed tree in one way each.",
    [MP, NS],
    [("find_problems", MP), ("find_problems", NS)],
    "Answers compared with an independent classifier of the raw rows.",
    "runtime monitor: reports compared with an independent classifier of raw rows",
)
prop(
    "C15", "fix_tree repairs a materialized path tree without moving nodes",
    "fix_tree() makes depth and numchild of every node (below the given parent) agree with its path and changes nothing else; "
    "with fix_paths it also renumbers the siblings without holes, in their order (by node_order_by where the model has one), "
    "keeping every parent. A second call changes nothing and find_problems reports nothing fixable afterwards.",
    ["inputs", "configurations"],
    "Every materialized path table with arbitrary depth and numchild values, holes and out-of-order siblings, any parent.",
    "Tests repair two fixed broken trees.",
    [MP],
    [("fix_tree", MP)],
    "Every row compared with what the paths before the call determine.",
    "runtime monitor: every row compared with the state implied by the paths before the call",
)
prop(
    "C16", "A materialized path tree refuses exactly what does not fit",
    "An operation that needs a sibling position beyond the alphabet and steplen, or a path longer than its column, raises "
    "PathOverflow and changes nothing; every operation that fits succeeds. No wrapped, truncated or too long path is ever stored.",
    ["inputs", "histories", "configurations"],
    "Every alphabet, steplen and max_length, every reachable tree at or near its capacity, every operation.",
    "Tests overflow one model in two ways.",
    [MP, NUM],
    [("inc_path/get_path", MP), ("PathOverflow", "treebeard/exceptions.py")],
    "On models of tiny capacity, each outcome is compared with the room left by the raw paths.",
    "runtime monitor: outcome of every call compared with the room left in the raw paths",
)
prop(
    "C17", "Concurrent add_child calls lose and duplicate nothing",
    "When several transactions call add_child at the same time, each with a handle of its own on the same or another parent, the "
    "result is the tree of running them one after another in some order: every call succeeds, every new node is there once, and "
    "the encoding is valid.",
    ["schedules", "histories"],
    "Every interleaving of the statements of two or more PostgreSQL connections, for the insertions that the documentation calls "
    "safe (one parent; several parents where nothing is shifted).",
    "The tests run on one connection.",
    [MP, AL, LT, NS, UTILS],
    [("row locks", MP), ("row locks", LT), ("row locks", AL), ("row locks", NS)],
    "Real threads on real connections, with random delays around statements; stress, not enumeration of schedules.",
    "runtime monitor: concurrent stress with injected delays, serializability judged from rows and call intervals",
)
prop(
    "C18", "The admin's move endpoint moves exactly as dropped, or refuses",
    "A move request by a user who may change the node moves it as the drop says (last or sorted child; before the target or "
    "sorted sibling), saves it and reports success; every other request (no permission on the model or the object, unknown or "
    "garbage arguments, a node below itself, no room, wrong method, no CSRF token) is answered with an error and changes nothing.",
    ["inputs", "histories", "configurations"],
    "Every tree, every pair of nodes, every kind of user and every malformed request, on every implementation.",
    "Tests send a handful of requests as a superuser.",
    [ADMIN],
    [("move_node", ADMIN)],
    "Requests through Django's test client; the whole database compared after each.",
    "runtime monitor: database, status and signals judged after every generated request",
    ("HTTP responses", "rows of the tables"),
)
prop(
    "C19", "The admin's list shows and deletes the right nodes",
    "The change list shows the root nodes and the lazily loaded view exactly the children of a node, in tree order, on all pages, "
    "with the right level, parent, has-children and can-change record for each row, to users who may see them and to nobody else. "
    "Bulk and single deletion remove the chosen nodes with their subtrees, wherever in the tree they are.",
    ["inputs", "configurations", "histories"],
    "Every tree, node, page, search and column order, every kind of user, every implementation and class, unusual methods included.",
    "Tests fetch a few pages of one tree as a superuser.",
    [ADMIN, TAGS],
    [("changelist_view/children_view/get_queryset", ADMIN), ("tree_context", TAGS)],
    "Requests through Django's test client; rows, records and the database compared with the reference forest.",
    "runtime monitor: rendered rows and records compared with a reference forest for generated requests",
    ("HTTP responses", "rows of the tables"),
)

prop(
    "C20", "The node form offers valid places and stores what it shows",
    "MoveNodeForm, alone and in the admin, offers as reference exactly the nodes a node may be placed beside or below, shows "
    "where the node is now, and stores a valid submission: field values, relations, and the place asked for (or the place by "
    "node_order_by, also after a change of those fields). Saving the form as it was shown moves nothing. An invalid submission "
    "(the node itself or a descendant, an unknown node or position, an invalid field or inline) is refused and changes nothing.",
    ["inputs", "histories", "configurations"],
    "Every tree, every node, new and existing, every position and reference, valid or not, every implementation and class.",
    "Tests submit a few forms on one tree.",
    [FORMS, ADMIN],
    [("MoveNodeForm", FORMS), ("admin add and change views", ADMIN)],
    "Offered choices, initial values and the tables after each submission compared with the reference forest.",
    "runtime monitor: choices, initial values and stored rows of generated form submissions compared with a reference forest",
    ("public API", "HTTP responses", "rows of the tables"),
)
prop(
    "C21", "Trees of child and proxy models work as one tree",
    "Where classes inherit from a tree model (multi-table children, proxies, and children or proxies of those), nodes of all "
    "classes live in one tree: every operation through any class treats them alike, a new node is of the class it was made "
    "with, and the row of a child class stays with its node through moves and goes with it. Tree methods return nodes of the "
    "class that defines the tree, or of the proxy they were called on.",
    ["histories", "inputs", "configurations"],
    "Every history over every mix of classes, every node, every class through which a method may be called.",
    "Tests cover one child and one proxy class with a few calls.",
    ALL,
    [("tree_model", M), ("queryset delete", M)],
    "Rows of all tables, and the class of every object that tree methods return, judged over mixed histories.",
    "runtime monitor: rows of all tables and classes of results judged over histories that mix classes",
)
prop(
    "C22", "Path codecs are exact and order-preserving",
    "The number codec of materialized paths (int2str/str2int) is a bijection onto its strings for every alphabet, with the order "
    "of numbers equal to that of padded strings. Labels made for ltree paths lie strictly between their neighbours in database "
    "order, are valid, and skip what is to be skipped. The ltree field stores what it is given and its lookups and subpath "
    "expressions select what PostgreSQL's ltree defines.",
    ["inputs"],
    "Every number, alphabet and string; every pair of labels; every path, prefix, offset and length.",
    "Tests convert a few values.",
    [NUM, LTF, LT],
    [("NumConv", NUM), ("generate_label", LT), ("PathField", LTF)],
    "Results compared with independent definitions (big integers, tuples of labels, PostgreSQL's own comparison).",
    "runtime monitor: results of generated codec calls and queries compared with independent definitions",
)
prop(
    "C23", "Annotated lists and group counts describe the tree exactly",
    "get_annotated_list and get_annotated_list_qs list every node of the branch once in tree order (down to max_depth), with its "
    "level, and open and close marks that nest exactly as the tree does. get_descendants_group_count gives each sibling its "
    "exact number of descendants.",
    ["inputs", "histories", "configurations"],
    "Every forest, every branch, every depth limit, every implementation.",
    "Tests compare the list of one tree.",
    [M, AL, *ALL[:1]],
    [("get_annotated_list", M), ("get_descendants_group_count", M)],
    "The list is rendered as the documentation's template does and the nesting compared with the reference forest.",
    "runtime monitor: lists rendered and compared with a reference forest",
)
prop(
    "C24", "The deprecated methods do exactly what the manager methods do",
    "Every tree method that moved from the model to its manager (class methods, node methods and the MP handler classes) still "
    "works on the model until it is removed: with the same arguments it has the same result, the same effect on every row and "
    "the same refusals as the manager method, for nodes of any class, and it emits one RemovedInTreebeard8Warning, naming the "
    "line that calls it.",
    ["inputs", "histories", "configurations"],
    "Every moved method, every tree and node, every set of arguments (by position and by name), every implementation and class.",
    "A copy of the test suite calls the deprecated methods on fixed trees; nothing compares them with the manager methods on "
    "other trees, argument forms and classes.",
    [DEPR, M, MP],
    [("moved methods", DEPR), ("Node methods", M), ("MP handlers", MP)],
    "Results and rows compared with those of the manager method on the same tree, each in a transaction rolled back.",
    "runtime monitor: differential comparison of the deprecated and the manager method on the same tree",
)
prop(
    "C25", "The number of queries does not grow with the tree",
    "The statements that a call sends depend on the kind of call and not on how many nodes, siblings, children or descendants "
    "there are (an adjacency list may take some for each level it has to walk): navigation, predicates, counts, adding a node at "
    "the end, moving and deleting a branch, and the admin's list, children and change pages. With MP, NS and LT so does reading a "
    "whole tree, a branch, an annotated list or the choices of the form, also when every node is asked for its depth. Calls that "
    "shift, renumber or walk siblings or branches one by one by design (making room in a materialized path, reading an "
    "adjacency list's branches, nested sets' dump_bulk) send at most a number proportional to the number of nodes.",
    ["inputs", "configurations"],
    "Every read and write of the public API, on trees of any size and shape, every implementation and class.",
    "Tests assert the query counts of some calls on one small tree, where growth cannot show.",
    [*ALL, ADMIN, TAGS],
    [("queries", x) for x in (MP, NS, AL, LT)],
    "Statements are counted at the connection for the same call on small and on several times larger trees.",
    "runtime monitor: statements counted at the database connection for the same call on trees of growing size",
)
prop(
    "C26", "Trees in a routed database stay there, atomically",
    "When a database router sends a tree model to another database, every operation, bulk load, query and admin or form "
    "request reads and writes that database only and works as it does on the default one: the same resulting tree, atomic on "
    "failure, signals naming that database. No row of any other database is read or changed.",
    ["histories", "inputs", "configurations", "fault_sequences"],
    "Every history on every implementation, faults included, with the other database holding a decoy tree in the same table.",
    "The tests have one database.",
    [*ALL, UTILS, ADMIN, FORMS],
    [("atomic", UTILS), ("routing", M)],
    "Rows of both databases and the statements sent to each are watched over generated histories with injected faults.",
    "runtime monitor: rows of both databases and statements sent to each watched over routed histories with faults",
)
prop(
    "C27", "The admin never emits node data as markup",
    "Whatever text the nodes hold and the request contains, the admin's change list, children view, forms, choice lists, "
    "messages and confirmation pages show it as text: it adds no element, attribute or script to the page and cannot end an "
    "embedded JSON record, and the text can be read back exactly.",
    ["inputs", "configurations"],
    "Every text in node fields, primary keys and request parameters, every page of TreeAdmin and MoveNodeForm, every implementation.",
    "Tests escape one label.",
    [FORMS, ADMIN, TAGS],
    [("option labels", FORMS), ("result rows", TAGS), ("messages", ADMIN)],
    "Pages are parsed and compared, element by element, with the page of the same tree holding harmless text.",
    "runtime monitor: parsed pages of hostile and harmless data compared element by element",
    ("HTTP responses",),
)

prop(
    "C28", "The admin tree widget shows the tree and moves what was dropped",
    "On an admin change list, expanding and collapsing rows in any order, with answers arriving late or out of order, leaves "
    "exactly the rows of the open nodes visible, in tree order, once each, indented by level, with a toggle where there are "
    "children and a handle where the user may move. Each node's children are requested at most once per page view. A drop "
    "asks for the move that the marker showed, once, and the tree changes by that; an aborted drag asks nothing.",
    ["inputs", "configurations", "schedules", "histories"],
    "Every sequence of clicks and drags, every order of the answers, on the change list of every implementation, with keys of "
    "any type and text (but not empty, \".\" or \"..\"), for each role.",
    "The tests never run the script.",
    [JS, ADMIN, TAGS],
    [("Node and setupDragHandler", JS), ("children_view and move_node", ADMIN)],
    "The script runs with jQuery on a minimal DOM in node; its rows and requests are compared with a reference forest.",
    "runtime monitor: page state and requests of the running script compared with the reference forest",
    ("HTTP responses",),
)

prop(
    "C29", "Managers and querysets of one's own keep every guarantee",
    "With a manager that subclasses the implementation's manager, and a queryset that subclasses its queryset, as `objects`, which "
    "follow or prefetch relations, annotate or defer columns, every tree operation has the effect and result that it has with "
    "the standard manager: insertions, moves, deletions, reading, dumps and loads, repair, forms and the admin. Every queryset "
    "that the tree methods return is made by that manager: its class, its methods, its annotations and relations. The system checks "
    "report exactly the models whose default manager does not subclass their implementation's.",
    ["configurations", "histories", "inputs"],
    "Every implementation, sorted or not, every tree and operation, for managers that hide no rows and keep the order.",
    "The tests define one or two managers that change nothing; internal queries of one's operations (locks, key lists, "
    "iteration) go through the manager, and break only in combination with what it adds.",
    ALL,
    [("get_queryset and the queries built on it", f"{x}") for x in (MP, NS, AL, LT)],
    "The workloads and oracles of 23 other properties on models with such managers, and a comparison of the returned querysets.",
    "runtime monitor: the other properties' oracles on models with custom managers, and class and content of returned querysets",
)


prop(
    "C30", "Odd but legal models and nodes get every guarantee",
    "Nothing depends on what Django leaves to the author of a model: nodes whose class defines __bool__ or __len__ and which are "
    "false, nodes with a primary key of 0, primary keys of any name beside another field called id, an ordering in the model's "
    "Meta, column and table names that need quoting, and relations without a reverse accessor. Insertions, moves, deletions, "
    "reading, dumps and loads, repair, signals, forms, the admin and its script work as on any other model.",
    ["configurations", "histories", "inputs"],
    "Every implementation, sorted or not, every tree and operation, for such models and nodes.",
    "The tests' models all have an integer key called id that starts at 1, default column names and true nodes.",
    ALL,
    [("`is None` tests, column names in raw SQL, primary keys", f"{x}") for x in (MP, NS, AL, LT, FORMS, JS)],
    "The workloads and oracles of 24 other properties on such models and nodes.",
    "runtime monitor: the other properties' oracles on models with falsy nodes, zero keys, odd keys, columns and orderings",
)

prop(
    "C31", "Wide, deep and large trees work like small ones",
    "With thousands of nodes, thousands of siblings or children, or a thousand levels, each tree operation, navigation query, "
    "dump, load, repair and page has the result that it has on a small tree: nothing is left out, cut off or reordered at a "
    "batch boundary, and nothing fails for the number of nodes, the depth of the tree or the number of branches that one "
    "deletion names, on any supported database, as long as the encoding has room.",
    ["inputs", "histories"],
    "Every implementation and configuration, trees as large, wide and deep as the encoding allows.",
    "The tests' trees have ten nodes and four levels; recursion limits, parameter limits of the database, batches and "
    "positions of several digits need trees a hundred times as large.",
    ALL,
    [("traversals, batched statements, recursion", f"{x}") for x in (MP, NS, AL, LT)],
    "Operations, deletions, navigation, dumps, loads, repairs and pages on trees of up to thousands of nodes or levels, with the "
    "same reference forest and decoders.",
    "runtime monitor: reference forest and table decoders on trees of thousands of nodes and up to a thousand levels",
)

prop(
    "C32", "It does not matter how a node object was obtained",
    "A tree operation or query does the same with any object that stands for the node's current row: read with get, only or "
    "defer (whatever fields are still to load), raw SQL, in_bulk, an iterator, a union, an annotated or pickled queryset, the "
    "base manager or a foreign key, or a copy, deep copy or pickle of such an object. Afterwards the object agrees with the "
    "database as one read with get does.",
    ["inputs", "histories"],
    "Every implementation, every way to obtain an object, every operation and query.",
    "The tests pass objects that come straight out of get or an operation; deferred fields load in the middle of an operation, "
    "after part of the rows have changed, and copies carry caches along.",
    ALL,
    [("reads of the passed node's fields around bulk statements", f"{x}") for x in (MP, NS, AL, LT)],
    "The workloads and oracles of 20 other properties with node objects obtained in 19 ways.",
    "runtime monitor: the other properties' oracles on node objects obtained in nineteen ways",
)

prop(
    "C33", "Django's own facilities work on trees",
    "Fixtures: dumpdata or a serializer and loaddata in emptied tables give back every row, and a tree that works. Writes: save, "
    "update, bulk_update, update_or_create and their kin on nodes and on the querysets of navigation change exactly the named "
    "columns of the named nodes, and no tree. Querysets: what navigation returns can be filtered, excluded, sliced, reversed, "
    "counted, combined, paginated, pickled, copied, used in a subquery and read asynchronously, with the right nodes in tree "
    "order. Migrations: makemigrations writes one that builds the models' tables, and then finds nothing more to do.",
    ["inputs", "configurations"],
    "Every implementation, tree, navigation query and facility.",
    "The tests compare lists of plain navigation queries; they load no fixture, write no migration, and derive few querysets.",
    ALL,
    [("managers, querysets and model fields", f"{x}") for x in (MP, NS, AL, LT)],
    "Random trees go through fixtures, ORM writes, chains on navigation querysets, and a migration run in scratch tables.",
    "runtime monitor: tables and query answers after Django's own facilities compared with those before and the reference forest",
)

prop(
    "C34", "Language, number format, time zone and size of keys change no result",
    "In every language (those that treebeard is translated to, and others), with and without thousand separators, in every time "
    "zone, and with primary keys of any size (beyond 32 bits, and beyond what a script's numbers hold), every operation, form, "
    "page and script does what the other properties say. The texts of the forms and of the page's script, and the admin's "
    "messages about moves, are in the language that is active when they are shown.",
    ["inputs", "configurations"],
    "Every language, format, zone, range of keys, implementation and operation.",
    "The tests run in one language and one zone, with keys below a hundred.",
    [*ALL, FORMS, ADMIN, TAGS, JS],
    [("labels and choices", FORMS), ("move_node", ADMIN), ("tree_context", TAGS), ("texts of the drag marker", JS)],
    "Workloads of other properties run in random languages, formats and zones after the sequences of all tables were set on.",
    "runtime monitor: the other properties' oracles under random locale settings and key ranges; texts against the message catalogs",
)


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "tbmon", "props")) if f.startswith("c") and f[1:2].isdigit()}
    rows = [p for p in P if p[0]["id"] in have]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in rows:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "./check --selftest",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"./check {p['id']} quick",
                "thorough_cmd": f"./check {p['id']} thorough",
                "technique": tech,
                "level": "fault_enumeration" if p["id"] == "C09" else "exploration",
                "level_note": note + " Held on the executions observed, nothing beyond; trusts the reference model, Django, SQLite and PostgreSQL.",
            }
            for p, note, tech in rows
        ],
        "not_applicable": [],
        "notes": "All checks are tbmon (see DESIGN.md). ./check ID [quick|thorough] [--seed N] [--replay FILE].",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
