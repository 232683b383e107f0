#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})
H = ["histories", "inputs"]
TREE, NODE, FT, VT, INIT = ("liblarch/tree.py", "liblarch/treenode.py", "liblarch/filteredtree.py",
                            "liblarch/viewtree.py", "liblarch/__init__.py")
FB, VC, PQ = "liblarch/filters_bank.py", "liblarch/viewcount.py", "liblarch/processqueue.py"
GTK, TM = "liblarch_gtk/__init__.py", "liblarch_gtk/treemodel.py"

prop("C01", "The hierarchy is always a consistent acyclic graph",
     "After every operation on a tree, whatever the history, the relations read back consistently from both ends: B is listed among A's children exactly when A is listed among B's parents, nothing is listed twice or refers to a node that is not in the tree, and no node is its own ancestor. The top level lists exactly the nodes that have no parent, each once.",
     H, "every finite sequence of add, delete (plain and recursive), move, add/remove parent, add child, enable/disable and pre-declaration calls over any node ids",
     "The tests exercise a few fixed shapes with at most two parents and never re-read both ends of every relation after each call; relation bookkeeping lives in two lists per node plus the root list, so a slip shows only for particular parent counts and histories.",
     [TREE, NODE, INIT],
     [("_create_relationship / _destroy_relationship keep both ends", TREE), ("root children bookkeeping in _add_node, _remove_node, _new_relationship, _break_relationship", TREE)],
     [("parents/children", "id lists held at both ends of a relation", NODE), ("root.children", "the top level", TREE)],
     ["Tree.get_node(id).get_parents()/get_children()", "Tree.get_main_view().node_all_children()"])

prop("C02", "Each structural operation changes exactly what it says",
     "Adding, deleting (alone or with all descendants), moving, adding or removing a parent or a child leaves exactly the nodes and relations described: a plain delete keeps the children, a recursive one removes every descendant, a move leaves only the new parent, and everything not mentioned is untouched. Children, parents and top-level nodes stay listed in the order in which they acquired that position, and operations naming unknown or already present nodes change nothing.",
     H, "every finite history of the public structural operations with existing, unknown, duplicate and reserved-looking node ids",
     "The tests check the outcome of hand-picked operations on small trees; the effect of each operation in every reachable state (many parents, orphans, re-added ids, order of siblings) is not sampled.",
     [TREE, NODE, INIT],
     [("MainTree._add_node/_remove_node/_new_relationship/_break_relationship", TREE), ("_Node.set_parent/add_parent/remove_parent/add_child", NODE), ("Tree.move_node/add_parent/del_node", INIT)],
     [], ["Tree.has_node", "get_main_view() queries"])

prop("C03", "Cycles are refused and a refused operation changes nothing",
     "Every operation that would make a node an ancestor of itself, through any chain of relations and any number of parents, is refused with an exception (or ignored when a node is named as its own parent), and every operation that would not is accepted. A refused operation leaves nodes, relations, top level, views and their notified contents exactly as they were, and later operations work normally.",
     ["histories", "inputs", "fault_sequences"], "every reachable hierarchy and every attempted relation in it (add_parent, add_child, move, add with parent), refused attempts included in the history",
     "Tests try a couple of two- and three-node cycles and do not compare the complete state before and after the refusal.",
     [TREE, NODE],
     [("MainTree._is_circular_relation", TREE), ("_new_relationship raising", TREE), ("_Node.set_parent ordering", NODE)],
     [], ["exception raised to the caller", "main view and view contents before/after"])

prop("C04", "Relations declared before nodes exist are honoured when they appear",
     "A parent or child relation may be declared before one or both nodes are in the tree: until then the existing node is simply top-level, and the relation takes effect as soon as both are present, exactly once. For a set of nodes with non-conflicting declared relations the resulting hierarchy is the same whatever the order in which nodes are added and whichever end declared the relation; deleting a node forgets the waiting relations that name it.",
     ["inputs", "histories"], "every acyclic relation graph, every insertion order, every way of declaring each relation (constructor parent, add_parent, add_child, parent given on insertion), with deletions and re-additions in between",
     "Tests add nodes mostly parent first, with a handful of out-of-order cases; orders are factorial in the number of nodes.",
     [TREE, NODE], [("pending_relationships processing in _add_node", TREE), ("pending lists in add_parent/add_child/set_parent", NODE)],
     [("pending_relationships", "relations waiting for a missing end", TREE)], ["get_parents()/get_children() after all insertions"])

prop("C05", "Nodes that refuse parents or children never get them",
     "While a node has parents disabled it never has a parent, and while it has children disabled it never has a child, whatever route a relation is requested through (adding, moving, declaring beforehand, inserting with a parent). Disabling detaches the existing relations on both sides, and enabling again makes new relations possible without resurrecting old ones.",
     H, "every history interleaving enable/disable switches on any node with structural operations",
     "The tests toggle the switches on one fixed example and do not cover insertion or pre-declared relations.",
     [NODE, TREE], [("set_parents_enabled/set_children_enabled", NODE), ("has_children_enabled checks in add_parent/set_parent/add_child", NODE), ("_add_node", TREE)],
     [], ["get_parents()/get_children() of both ends"])

prop("C06", "A filtered view shows exactly the nodes its filters accept",
     "After every operation, a filtered view displays a node if and only if the node is in the tree and every filter applied to that view accepts it (a 'negate' parameter inverts a filter; an applied filter that is not in the bank accepts nothing). This includes filters whose verdict depends on the node's children or descendants, and it holds as soon as the change or refresh request returns.",
     H + ["configurations"], "every history of structural changes, data changes followed by a refresh, and filter operations; filters over a node's own data, its children and its descendants, negated and flat ones, in any combination, on several simultaneous views",
     "Tests use a dozen fixed filters on one fixed tree; incremental update must reach every affected ancestor and descendant in every shape, which cannot be enumerated by examples.",
     [FT, FB], [("__update_node propagation up/down", FT), ("__is_displayed", FT), ("Filter.is_displayed", FB)],
     [("nodes", "cache of displayed nodes with their links", FT)], ["get_all_nodes()", "is_displayed()", "get_n_nodes()", "get_nodes()"])

prop("C07", "A filtered view keeps the hierarchy of what it shows",
     "In a view, a displayed node appears below each of its displayed parents and nowhere else, and at the top level exactly when none of its parents is displayed; nothing is listed twice. When any applied filter is 'flat', every displayed node is at the top level and has no children.",
     H + ["configurations"], "every history of structural, data and filter operations on graphs with multiple parents and several views, hidden intermediate nodes, flat and non-flat filters",
     "Re-parenting of displayed nodes when hidden ancestors come and go depends on the shape of the graph and the order of updates; tests cover few such shapes.",
     [FT], [("__node_parents/__node_children", FT), ("remove_from/add_to handling and deletion branch of __update_node", FT), ("refilter", FT)],
     [("nodes[*]['parents'|'children']", "links between displayed nodes", FT)], ["node_parents()", "node_all_children()", "node_n_children()", "node_has_child()"])

prop("C08", "Replaying a view's notifications reproduces the view exactly",
     "A listener that inserts a row for each node-added-inview and removes one for each node-deleted-inview always holds exactly the paths the view reports: each added path is new and its parent path is already there, each deleted path is present and has no rows below it, each modified path is present, and every path ends with the notified node. A listener that connects later and asks for the current state ends up with the same rows.",
     H + ["configurations"], "every history of structural, data and filter operations, on any number of views, with listeners registered at any time",
     "Tests record expected signal lists for a few scenarios; a widget mirrors the view from these notifications only, for every history.",
     [FT, VT], [("send_add_tree/send_remove_tree", FT), ("callback emission in __update_node", FT), ("get_current_state", FT), ("ViewTree.__emit", VT)],
     [], ["node-added-inview", "node-deleted-inview", "node-modified-inview", "get_paths_for_node()"])

prop("C09", "Every displayed occurrence is notified whenever what it shows changes",
     "When a node's data is changed and a refresh is requested, every displayed occurrence of it in every view gets a modified (or added) notification after the change. The same goes for a row's derived content: whenever the set of displayed children, or the number of displayed descendants, of a displayed node changes, each occurrence of that node is notified after the change, so a listener that recomputes a row when notified is never stale.",
     H, "every history of structural, data and filter operations over multi-parent graphs and several views; labels computed from own data and from counts of displayed children and descendants",
     "No test compares cached labels with recomputed ones; staleness needs an update that fails to propagate to a particular ancestor.",
     [FT, TREE], [("__update_node direction 'up' propagation and modified callbacks", FT), ("_modify_node", TREE)],
     [], ["node-modified-inview", "node-added-inview"])

prop("C10", "Listeners see a coherent view during every notification",
     "While a notification is being delivered, the view can be queried: no query about a displayed node raises an exception, every path reported for one leads through displayed parents, parent, child and path queries agree with each other, and the notified node is at the notified path when it is announced as added or modified.",
     H, "every notification of every history, with a listener that queries the whole view each time",
     "Tests never query the view from inside callbacks, where intermediate states are visible.",
     [FT], [("order of link updates versus callbacks in __update_node", FT), ("get_paths_for_node consistency checks", FT)],
     [], ["queries issued inside node-*-inview listeners"])

prop("C11", "Paths and navigation queries agree with the hierarchy",
     "In the main view and in every filtered view, the paths of a node are exactly the chains from the top level to it, one per occurrence; a path converts to its last node exactly when it is one of those, and to nothing otherwise. Child counts (plain and recursive), n-th child, next sibling, has-child, has-parent and the printed tree all describe that same hierarchy and order.",
     H, "every reachable hierarchy and view, all nodes, all valid paths and generated invalid ones, every index and parent choice",
     "Tests query a few nodes; path sets grow with every combination of parents.",
     [VT, FT, TREE, NODE], [("get_paths_for_node/get_node_for_path/next_node/print_tree", FT), ("same for the main tree", TREE), ("ViewTree delegation", VT)],
     [], ["get_paths_for_node", "get_node_for_path", "next_node", "node_nth_child", "node_n_children", "print_tree"])

prop("C12", "Filter operations depend only on the current filters, not on history",
     "Whatever sequence of apply, unapply, reset and parameter changes led to it, a view shows what a freshly created view with the same applied filters shows; applying twice and unapplying what is not applied change nothing, and a filter operation whose refresh is postponed leaves the view and its listeners alone until the next refresh. Filters are registered under unique names, listed, replaced only after removal, and each view reports the filters applied to it in order.",
     H + ["configurations"], "every sequence of filter-bank and view filter operations (with parameters, reset, refresh on/off, removal and re-registration) interleaved with tree changes",
     "Tests apply one or two filters in a fixed order.",
     [FT, FB, VT, INIT], [("apply_filter/unapply_filter/reset_filters/refilter", FT), ("FiltersBank.add_filter/remove_filter/set_parameters", FB)],
     [("applied_filters", "names applied to the view", FT), ("dic", "parameters of a bank filter", FB)], ["list_applied_filters", "list_filters", "get_all_nodes", "node_parents"])

prop("C13", "Counting with extra filters equals filtering the displayed nodes",
     "Asking a view for its nodes or their number with a list of extra filters returns exactly the displayed nodes which all those filters accept, each once, whatever the number and order of the filters; it never changes the view and stays right after any later change. Without extra filters it is the number of displayed nodes; on the main view it ranges over all nodes.",
     H + ["configurations"], "every reachable view state and every list of zero or more extra filters, repeated before and after changes",
     "Tests ask one or two fixed counts; stale caching shows only on re-query after particular changes.",
     [FT, VT], [("get_nodes/get_n_nodes and filter cache", FT), ("lazily created counting view of the main view", VT)],
     [("filter_cache", "cached results per filter", FT)], ["get_n_nodes(withfilters)", "get_nodes(withfilters)"])

prop("C14", "A view count is always the exact number of matching nodes",
     "A view count equals, after every operation, the number of nodes in the tree accepted by all the filters applied to it (filters over the node's own data; an applied filter that is not in the bank accepts nothing). Each registered listener is called whenever the number changes, with the new number already readable, and is no longer called after it is unregistered, also when a listener unregisters itself while it is called; asking a count to look at a node again never makes it wrong.",
     H + ["configurations"], "every history of tree changes, data changes with refresh, and filter operations on several named and anonymous counts created at any time",
     "Tests check a couple of counts on a static tree.",
     [VC, INIT], [("__modify/__add/__delete", VC), ("apply_filter/unapply_filter/__refresh", VC)],
     [("nodes", "ids currently counted", VC)], ["get_n_nodes()", "registered callback"])

prop("C15", "Views and listeners are independent and identified by name",
     "Filter operations on one view never change what another view shows or notify its listeners; the same name always gives the same view, an unnamed request always a new one, and the main view shows the whole tree and refuses filters. Every listener registered for an event is called exactly once per notification in every view until it is deregistered, and registering or deregistering one never affects another, even during a notification. Separate trees share nothing: not nodes, filters, views nor listeners.",
     H + ["configurations"], "every history with several named and anonymous views and any interleaving of listener registration, deregistration and changes",
     "Tests register one listener per event and use one filtered view at a time.",
     [VT, INIT, TREE], [("get_viewtree/get_viewcount registries", INIT), ("register_cllbck/deregister_cllbck/__emit", VT), ("MainTree.register_callback/_callback", TREE)],
     [("__cllbcks", "listeners per event and key", VT)], ["callbacks received", "get_viewtree(name)", "exceptions on main view filters"])

prop("C16", "An action queued on a node runs exactly once, when it is displayed",
     "An action queued in a view for a node runs exactly once with its parameter, whatever it returns: when the node next becomes displayed in that view (it is displayed at that moment) or, if it already was when the action was queued, from the main loop shortly after. Any number of actions for the same or different nodes, whatever the node ids, are each run once; those waiting for the same node run in the order in which they were queued.",
     H, "every interleaving of queued actions with structural, data and filter operations and main-loop iterations, on any node ids",
     "Tests do not exercise queued actions with multiple occurrences, several actions or unusual ids.",
     [FT, VT], [("set_callback('runonce') and callback('added')", FT), ("queue_action", VT)], [], ["calls of the queued function"])

prop("C17", "Requests from other threads are applied once, in order, by priority",
     "Requests made from another thread do not change the tree until the main loop runs; then each distinct pending request is applied exactly once, higher priority first and in request order within a priority, and requests from the owning thread are applied immediately. A request that fails does not lose or block the others, and once the loop is idle the tree, the views and the notified rows are what applying the requests in that order gives.",
     ["schedules", "histories", "fault_sequences"], "every batch of requests from any number of threads, every interleaving with main-loop iterations, all priorities, duplicate requests and failing requests",
     "Tests run a background main loop and check only the end state of one scenario.",
     [PQ, TREE], [("SyncQueue.push/process/process_queue", PQ), ("priorities passed by MainTree requests", TREE)],
     [("_vip_queue/_queue/_low_queue", "pending requests by priority", PQ)], ["tree state between main-loop iterations"])

prop("C18", "The GTK tree model mirrors the view row for row",
     "After every operation, the GTK model connected to a view has exactly one row per path of the view, below the row of the parent path (in the order of the view's children as long as the model was never sorted), and every column of every row holds what the column's function gives for that node (as of its last notification). This holds with and without sorting, for models connected at any time, and after the columns' functions are replaced and refreshed.",
     H + ["configurations"], "every history of structural, data and filter operations, every column set, sorted and unsorted, one or more models, each connected at any time, also to a view which other models show already",
     "The GTK tests build one small tree; row lookup goes through caches whose staleness depends on removal, re-insertion and sorting order.",
     [TM, GTK], [("add_task/remove_task/update_task", TM), ("my_get_iter with its two caches", TM), ("connect_model", TM)],
     [("cache_paths/cache_position", "row lookup caches", TM)], ["Gtk.TreeStore contents"])

prop("C19", "Rows are kept sorted by the chosen column",
     "When a sort column is chosen, after every operation the children of every row are ordered by that column's comparison, in the chosen direction, for every insertion, change and removal history; changing the sort column or the direction reorders all rows accordingly and the widget reports the choice. A custom comparison gets the two nodes in question and the current direction.",
     H + ["configurations"], "every history of changes and sort-column switches with default and custom comparisons, both directions, multi-parent graphs",
     "Tests do not check sibling order after changes.",
     [GTK, TM], [("set_sort_column/_sort_func", GTK), ("sort columns built from the description", GTK), ("update_task set_value", TM)], [("sort_col/sort_order", "current choice", GTK)], ["row order of the widget's model"])

prop("C20", "Collapsed nodes stay collapsed, all others open by themselves",
     "In the tree widget, once the main loop is idle, every row with children whose ancestors have been open is open unless its node was collapsed: a node collapsed through the widget's interface is shown collapsed at each of its occurrences, also when it had no children yet, when it was not displayed yet, and after it gains, loses and regains children. Expanding it again opens it and ends that; opening or closing a row emits the matching signal (node-expanded, node-collapsed) once, with the ids of the nodes on the path to that row.",
     H + ["schedules"], "every interleaving of collapse/expand requests, structural, data and filter operations and main-loop iterations",
     "There are no tests for expanding and collapsing.",
     [GTK], [("collapse_node/expand_node/on_child_toggled/_collapse_node_retry", GTK), ("queue_action", VT)], [("collapsed_paths", "remembered collapsed paths", GTK)], ["Gtk.TreeView.row_expanded", "node-expanded/node-collapsed signals"])

prop("C21", "Dropping rows moves exactly the dragged nodes to the drop target",
     "After a drop inside the widget every dragged node has as its only parent the node dropped onto, or the parent of the row dropped before or after, or is top-level if there is none; all other relations are unchanged. A drop that would create a cycle moves nothing for that node and does not prevent the others. A drop from another widget with a destination node calls the function registered for that kind of drop once per dragged row with the dragged and the destination node, and changes nothing by itself.",
     ["inputs", "histories", "configurations"], "every displayed hierarchy, every selection of dragged rows (several, nested, several occurrences of one node), every drop row and position, sorted or not",
     "There are no tests for drag and drop.",
     [GTK, INIT], [("on_drag_data_get/on_drag_data_received", GTK), ("Tree.move_node", INIT)], [], ["tree hierarchy after the drop", "calls of the external function"])

prop("C22", "The widget's columns and selection report the right nodes",
     "For every column description, the columns come out in the declared order with the declared titles and visibility, and each shows its own value function's result for the row's node; visibility, resizability, the expander and the search column set later by name affect that column alone. The selected-nodes query returns exactly the node ids of the selected rows in display order, for single and multiple selection, after any change of the view.",
     ["configurations", "histories"], "every column description dictionary (orders, titles, visibility, shared columns) and every selection made over any history",
     "Tests use two fixed descriptions and never select rows.",
     [GTK, TM], [("column construction in TreeView.__init__", GTK), ("get_selected_nodes/set_multiple_selection", GTK), ("set_col_visible/set_column_function", GTK)], [], ["Gtk.TreeView columns", "get_selected_nodes()"])

prop("C23", "Row colours follow the colour column and stay readable",
     "When a background-colour function is set, each row's cells get the colour the function gives for that node (none if it gives none), text on dark backgrounds is white and text on light or no background keeps the default colour. A row refreshed after its node changed colour, or lost its colour, shows the new state, and the brightness used is the colour's relative luminance: between 0 (black) and 1 (white), growing with each colour component, text being white when it is below one half.",
     ["inputs", "histories"], "every colour specification and every sequence of colour changes and refreshes over displayed rows",
     "There are no tests for colours.",
     [GTK, TM], [("_celldatafunction/brightness/set_bg_color", GTK), ("update_task", TM)], [("BRITGHTNESS_CACHE", "memo of brightness per colour", GTK)], ["cell renderer properties"])

prop("C24", "The main view announces every change of the whole tree",
     "Listeners of the main view get exactly one added notification per node that enters the tree and one deleted notification per node that leaves it, in an order in which the node is present when announced as added and gone when announced as deleted, and a modified notification for every node whose data was refreshed or whose parents or children changed by an operation on existing nodes. Refused and no-effect operations announce neither additions nor deletions, and no modified notification names a node which is not in the tree.",
     H, "every history of structural operations, refreshes and refused operations, listeners registered at any time",
     "Tests check a few expected signals on fixed operations.",
     [TREE, VT], [("MainTree._callback calls in _add_node/_remove_node/_new_relationship/_break_relationship/_modify_node", TREE), ("ViewTree.__emit in static mode", VT)], [], ["node-added", "node-deleted", "node-modified on the main view"])

prop("C25", "Rows are separators exactly where the separator function says so",
     "When a separator function is set on the widget, a row is drawn as a separator exactly when the function accepts the node of that row, at every occurrence of the node and at every depth; all other rows are drawn normally. This follows changes of the nodes once they are refreshed, rows which come and go, and replacement of the function; with no function, or after it is set to none, there are no separators.",
     ["histories", "configurations"], "every history of structural, data and filter operations and of setting, replacing and unsetting the separator function, sorted or not",
     "There are no tests for separators.",
     [GTK], [("_separator_func/set_row_separator_func", GTK)], [("separator_func", "current function of the user", GTK)], ["heights of the rows drawn by GTK"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
