import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None)))
TG="src/typed_graph.rs"; AR="src/arena.rs"; TR="src/typed_graph/transaction.rs"; CA="src/cate_arena.rs"; MC="ttgraph_macros/src/cate_arena.rs"; TN="ttgraph_macros/src/typed_node.rs"; NE="ttgraph_macros/src/node_enum.rs"; BD="ttgraph_macros/src/bidirectional.rs"; GR="ttgraph_macros/src/group.rs"; LC="ttgraph_macros/src/link_check.rs"; ML="ttgraph_macros/src/lib.rs"; SE="src/typed_graph/serialize.rs"; CK="src/typed_graph/check.rs"; ID="src/id_distributer.rs"; MA="src/typed_graph/macros.rs"; MT="src/typed_graph/macro_traits.rs"
ST=[dict(name="graph content",meaning="live node indices and the data and links of each node",where=TG),dict(name="transaction",meaning="operations recorded but not yet applied",where=TR)]

p("C01","Commit applies exactly the recorded operations in the documented order",
"After a transaction is committed, the graph holds exactly the nodes and node contents obtained by applying its recorded operations in the documented order: redirections, insertions (including allocated-then-filled nodes), mutations, updates, all-redirections, removals, then bidirectional maintenance. Several operations on the same node take effect in the order they were recorded within their kind, operations on a node created in the same transaction act on that new node, and every node or field that no operation, redirection, removal or bidirectional rule concerns is left exactly as it was.",
["histories","inputs","programs"],"every sequence of transactions of any length and mix of operations (all insertion styles, all link containers, any number of open nodes, self links, duplicates, empty slots, links to indices not in the graph), over generated node schemas",
"The tests run a few fixed transactions on fixed schemas of two or three nodes; the combinations of operation kinds on overlapping nodes inside one commit and over long histories are unbounded.",
[TG,TR,CA,MC,TN],[("commit pipeline order",TG+" do_commit"),("operation recording, immediate application to new nodes",TR+" mutate/update/remove/fill_back"),("typed storage",MC)],ST,["Graph::get","Graph::iter","Graph::len"])
p("C02","Node indices are unique, non-empty, never reused and stable",
"Every index handed out within one context (by inserting, bulk-inserting or allocating nodes, in any transaction, for any graph, from any thread) is distinct from every other index handed out in it and from the empty index, even after the nodes or transactions involved have been removed or dropped. A committed node keeps its index, and that index keeps denoting that node and no other, until the node is removed; a removed index never denotes a node again.",
["histories","schedules","inputs"],"all interleavings of allocations by any number of transactions, graphs and threads sharing one context (including contexts restored by deserialization and re-used by context switching), over any history of commits, removals and drops",
"Tests allocate a handful of nodes in one thread; collisions need concurrent allocation, re-use after removal or a restored context.",
[ID,MC,CA,TR,SE],[("shared atomic counter",ID),("allocation in the typed arena",MC+" alloc/alloc_untyped"),("context restored from the largest index",SE+" deserialize_graph")],
[dict(name="index counter",meaning="last index handed out in the context",where=ID)],["Transaction::insert/alloc/alloc_untyped results","Graph::get","Graph::iter"])
p("C03","Redirection moves every link to the final target and nothing else",
"Redirecting old to new makes each link of every affected node that pointed to old point to new instead: the same field for a direct link, the same position for a vector link, membership (without duplicates) for a set link; all other links, data and the redirected nodes themselves stay as they were. Several redirections in a transaction are resolved as chains, whatever their recording order, so each old node's links end at the end of its chain, and a cyclic chain is rejected. The plain form affects only links held before the transaction's own insertions and changes, the all-links form also affects links of nodes inserted or changed in the same transaction.",
["histories","inputs","programs"],"all graphs, all acyclic redirection sets (long chains, fan-in, forests, any recording order, targets inserted in the same transaction) and all cyclic ones, of both forms, mixed with other operations",
"Tests cover one chain of three nodes in one order on set links.",
[TG,TN,TR],[("chain resolution",TG+" redirect_links_vec"),("per-source link rewriting",TN+" modify_link"),("reverse-link index",TG+" redirect_links")],ST,["Graph::get"])
p("C04","Removing nodes leaves no dangling link and touches nothing else",
"After a commit that removes nodes, the removed indices are absent from every view of the graph and no remaining node links to them: a direct link becomes empty, a vector slot becomes empty in place with the other slots unmoved, a set member disappears. This holds for nodes removed from the graph and for nodes created (inserted, allocated or merged) and removed again inside the same transaction, and apart from those links (and bidirectional maintenance) no other node changes.",
["histories","inputs","programs"],"all graphs and all sets of removed nodes (heavily linked, self-linked, mutually linked, linked several times from one node, linked by changes in the same transaction), for every link container",
"Tests remove one or two nodes with one incoming link each.",
[TG,TR,TN],[("removal through the reverse-link index",TG+" remove_node"),("cancelling nodes of the same transaction",TR+" remove")],ST,["Graph::get","Graph::iter","Graph::check_integrity"])
p("C05","Reverse-link tracking stays exact over any history",
"At any point of any history the graph's record of who links to a node is exactly the set of links present in the node contents: the built-in consistency check passes, and redirecting or removing any node afterwards reaches every link to it and only those. This holds whichever operation created, moved, duplicated, overwrote or erased the links, including bidirectional maintenance, merging, context switching and deserialization.",
["histories","inputs","programs"],"all histories mixing all operations over schemas with every link container, probed by redirecting or removing an arbitrary node at the end",
"The reverse index is only wrong after particular sequences (e.g. re-redirecting, mutating a vector after a slot was cleared); tests check it after very few.",
[TG,TN],[("add/remove back links",TG+" add_back_links, remove_back_links, modify_node, update_node, redirect_links"),("enumeration of link sources",TN+" iter_sources")],
[dict(name="reverse links",meaning="for each index, which field of which node links to it",where=TG+" back_links")],["Graph::check_backlinks","effect of redirect/remove"])
p("C06","Bidirectional links are symmetric after every commit",
"In every graph reached by commits that succeed, for each link from a live node x to a live node y through a field that takes part in a bidirectional declaration with fields of y's node type, at least one of those opposite fields of y links back to x. This holds after any mix of insertion, mutation, update, redirection, removal and merging, and also after context switching and deserialization, including deserialization of data from which one side of a pair is missing.",
["histories","inputs","programs"],"all histories of successful commits (links between live nodes of unchanged node type) over generated bidirectional declarations: direct/direct, direct/set, set/set, several opposite fields, self-paired fields, same-type pairs, groups",
"The tests exercise fixed three-node scenarios; asymmetries arise from combinations of removals and additions in one commit or from several opposite fields.",
[TG,BD,NE,TN],[("link change recording",TG+" LinkChangeRecorder"),("maintenance pass",TG+" apply_bidirectional_links"),("declaration expansion",BD)],
[dict(name="link changes",meaning="links added and removed by the current commit",where=TG+" LinkChangeRecorder")],["Graph::get"])
p("C07","Bidirectional maintenance does only what is documented or rejects",
"Besides the recorded operations a commit changes only opposite links: a newly added link gets its missing opposite (a free direct field is filled, a set gains a member, nothing happens if an opposite is already there), and a removed link takes its opposite with it if that was there and no other link of the node still pairs with it. The commit panics exactly when a missing opposite cannot be placed because the direct field is occupied by another node or because several opposite fields could hold it, and never otherwise.",
["histories","inputs","programs"],"all histories and all single commits that add, remove and move links on both sides of declared pairs, over generated declarations; both accepted and rejected commits",
"Tests check a few accepting and panicking examples; the accept/reject boundary and exact effect depend on all simultaneous link changes.",
[TG,BD,TN],[("maintenance pass",TG+" apply_bidirectional_links"),("field-level add/remove",TN+" add_link/remove_link"),("opposite-field lookup",BD)],ST,["Graph::get","panic of Graph::commit"])
p("C08","Link type check rejects exactly the ill-typed added links",
"With the checking feature on, a commit panics if a link it adds (by insertion, mutation, update, redirection, merging or bidirectional maintenance) to a node present in the graph has a target whose node type is not allowed by a type annotation on that link or on a link group containing it. A commit whose added links all satisfy their annotations never panics because of link types, whatever unannotated links, empty links or removed nodes are involved.",
["histories","inputs","programs"],"all commits adding right- and wrong-typed links through every operation and every link container over generated annotations (single types, type sets, type groups, link groups)",
"Tests hit a few annotated fields by insertion; each operation kind, container and group form is a separate path.",
[TG,LC,NE,TN],[("check of added links",TG+" check_link_type"),("annotation expansion",LC),("link to link-group mapping",TN+" to_link_or_groups")],ST,["panic of Graph::commit"])
p("C09","All views of a graph agree on the same set of nodes",
"Lookup by index, typed lookup, iteration over all nodes, per-type iteration, group iteration, iteration by reference and by value, length and emptiness all describe the same set of live nodes: each live node appears exactly once, under its own index and its current node type, with identical content. The printed forms of the graph list each of them once. Iterators report their exact remaining length at every step and stay exhausted once finished.",
["histories","inputs","programs"],"all graphs reached by any history, including nodes whose type was changed by a mutation or update, over schemas with any number of node types and type groups",
"Tests iterate small graphs built by insertion only.",
[TG,MC,CA,MA,GR],[("per-type containers and dispatcher",MC),("generated iterators",MC+" make_cate_arena_iter*"),("typed access macros",MA)],ST,["Graph::get, iter, iter_type, iter_group, into_iter, len, is_empty","get_node!, iter_nodes!"])
p("C10","Open transactions are isolated until they are committed",
"Recording operations never changes the graph or any other open transaction, and dropping or giving up a transaction leaves no trace. When several transactions built in any interleaving are committed one after another, the graph is the same, up to the choice of fresh indices, as if each had been built just before its own commit.",
["histories","schedules"],"all interleavings of building, committing, dropping and giving up any number of open transactions on one or several graphs of a context",
"Tests always build and commit one transaction at a time.",
[TR,TG,CA],[("deferred operation lists",TR),("graph modified only by commit",TG+" commit")],ST,["Graph::get","Graph::iter"])
p("C11","Reflection agrees with the declared node types",
"For every node type the reported link names, kinds and order, data field names, link-group and type-group membership and discriminants are exactly those declared, for every accepted spelling of a link type. Fetching links by field name or group name yields exactly the non-empty links currently in those fields, and fetching data by name yields a reference to that field exactly when the name and the requested type both match.",
["programs","inputs"],"all node declarations (any number and order of fields, every link container in every accepted spelling, any data type, groups, phantom groups, multiword names) and all node values",
"Tests use a few hand-written structs; each generated accessor depends on the declaration.",
[ML,TN,NE,GR],[("field classification",ML+" typed_node"),("generated accessors",TN),("group accessors",GR)],[],["TypedNode and NodeEnum methods"])
p("C12","Serialization round trip preserves the graph and its usability",
"Serializing a graph, directly or through the serializer helper, and deserializing it yields a graph with the same indices and node contents in every view. The restored graph behaves from then on exactly like the original would for the same transactions created from the restored context, and indices newly handed out never collide with restored nodes.",
["histories","inputs","programs"],"all graphs reached by any history (including after removals, with external or empty links, and empty graphs), followed by any further history, over generated schemas",
"No test serializes a graph; a doc example only checks that it compiles and runs.",
[SE,TG,MC],[("serialized form",SE),("reconstruction of links and counters",TG+" do_deserialize; "+SE+" deserialize_graph")],ST,["serde_json text","Graph::get","further commits"])
p("C13","Context switching only renames indices",
"Switching a graph to another context yields a graph isomorphic to the old one: there is a one-to-one renaming of node indices under which every node's data, node type and links (each field, position and set member) are preserved. The new indices are fresh in the new context, and the result can be modified by transactions of the new context like any other graph.",
["histories","inputs","programs"],"all graphs whose links stay inside the graph, reached by any history, switched to a fresh, used or its own context, any number of times",
"One doc example switches a graph of two unlinked nodes.",
[TG],[("relabelling through reverse links",TG+" switch_context")],ST,["Graph::get/iter after switch_context"])
p("C14","Merging a graph equals inserting its nodes under the same indices",
"Committing a transaction that merged another graph of the same context adds each node of that graph, under its own index and with its content, to the nodes already there and to the transaction's other insertions, and links between both sides work like any other links. Operations of the same transaction on merged nodes act as on nodes inserted in it.",
["histories","inputs","programs"],"all pairs (or more) of graphs of one context with links inside and across them, merged in one or several transactions together with any other operations",
"One doc example merges a one-node graph.",
[TR,TG,MC],[("arena merge",MC+" merge; "+TR+" merge"),("link registration of incoming nodes",TG+" merge_nodes")],ST,["Graph::get"])
p("C15","Checked commit runs every check on exactly what changed",
"A checked commit applies the transaction exactly like a plain commit and calls each node check on every live node that was inserted or changed, each link-addition check on every link added and each link-removal check on every link removed whose source node is still live, with the nodes as they are after the commit and never on unconcerned links. It panics naming a failed check exactly when at least one such call fails.",
["histories","inputs","programs"],"all transactions and all families of recorded predicates over nodes and links, on any graph",
"No test calls the checked commit.",
[TG,CK],[("change recording",TG+" LinkChangeRecorder"),("check dispatch",TG+" check_change"),("check registry",CK)],ST,["calls received by the check closures","panic of commit_checked"])
p("C16","Malformed transactions are rejected",
"Committing or merging across contexts, committing with an allocated node never filled, filling back a wrong type, an occupied or an unknown index, removing, mutating or updating a node that is not in the graph, cyclic redirection and typed mutation or update of a node of another type all panic, in every history in which they occur. When the rejection is due to the context or an unfilled node, the graph is left unchanged.",
["histories","inputs"],"all valid histories with one malformed operation injected at any point (debug build)",
"A few panics are tested in isolation, none inside arbitrary histories.",
[TG,TR,CA,MC,MA],[("context and allocation assertions",TG+" do_commit; "+TR+" merge"),("fill-back checks",CA+" fill_back; "+MC+" fill_back_untyped"),("loop detection",TG+" redirect_links_vec")],ST,["panics","Graph::get after the panic"])
p("C17","Turning the checking feature off changes no committed result",
"Built without the checking feature the library still compiles, and every transaction that the checked build accepts produces the same graph, including all redirections, removals and bidirectional maintenance. Only link type checks and debug self-checks are skipped.",
["configurations","histories","programs"],"all histories over generated schemas with and without bidirectional declarations and annotations, in the build without default features",
"The test suite is only built with default features.",
[TG,CK,"Cargo.toml"],[("feature gates",TG+" LinkChangeRecorder, check_*"),("feature-gated module",CK)],ST,["Graph::get in a no-default-features build"])
p("C18","A group in a declaration means its explicit expansion",
"Using type groups and link groups in bidirectional and link type declarations gives exactly the behaviour of writing out every member pair by hand: the same links are maintained, the same commits are rejected. This holds for overlapping groups, phantom groups, members in several groups and pairs declared more than once.",
["programs","histories"],"all declarations using groups on either or both sides, compared with their expansion over all histories",
"Tests cover one hand-written grouped declaration each.",
[BD,LC,GR,TN,NE],[("group expansion",BD+" expand_bidirectional_links; "+LC+" expand_group"),("link-group mirrors",TN+" make_log_mirror")],[],["Graph::get and commit panics for grouped and expanded schemas"])
p("C19","Mutation and update closures run exactly once on the right value",
"Every mutation and update closure recorded in a committed transaction runs exactly once, receives the node's content as left by the redirections, insertions and closures that precede it in the documented order, and its result is what later closures and the graph see; closures of a dropped transaction never run. For a node created in the same transaction the closure runs at once, for others at commit time; a transaction reports itself empty exactly when nothing is recorded in it.",
["histories","inputs"],"all transactions with any number of mutations and updates on the same or different nodes (new, allocated, existing), by method or typed macro",
"Tests use at most one closure per node.",
[TR,TG,CA,MA],[("deferred closures",TR+" mutate/update"),("application at commit",TG+" modify_node/update_node"),("emptiness",TR+" is_empty")],ST,["calls received by the closures","Transaction::is_empty"])
p("C20","Faulty declarations and uses are rejected at compile time",
"A program does not compile if a declaration in it names a node type, link, group member or target that does not exist, treats a data field as a link, holds something else than one node type per variant, derives a node from anything but a struct with named fields, or contains a malformed or unsupported declaration block; nothing of that kind is silently ignored. The same goes for uses: an unknown variant or field in an access macro, a typed update yielding another node type, mixing the nodes, graphs or transactions of different node enums, changing a graph while its nodes are borrowed, and using a transaction or merged graph again after it was consumed. The same program without the fault compiles.",
["programs"],"all well-formed declarations and uses (any number of node types, fields, groups, annotations and pairs) with one fault put in at any place",
"The test suite only contains programs that compile.",
[ML,NE,BD,LC,GR,MA,TG,TR],[("rejection of faulty declarations",ML+" node_enum, typed_node; "+BD+" check_bidirectional_links"),("generated paths that do not resolve for unknown names",BD+"; "+LC+"; "+GR),("consuming signatures",TG+" commit, switch_context; "+TR+" merge, give_up")],[],["rustc accepts or rejects the program"])
p("C21","The integrity check passes exactly when all links are internal",
"With the checking feature on, checking the integrity of a graph panics exactly when some node of it holds a non-empty link to an index that is not a live node of the same graph, in whatever field, position or container, and returns otherwise; it never changes the graph. Empty links, links of removed nodes and links inside other graphs do not matter.",
["histories","inputs","programs"],"all graphs reached by any history, with and without links to removed nodes, to nodes of other graphs of the context and to indices reserved but never inserted",
"Tests call the check only on graphs where it passes.",
[TG,TN],[("integrity check",TG+" check_integrity"),("enumeration of all links of a node",TN+" iter_sources")],ST,["panic of Graph::check_integrity"])
p("C22","The node arena is an exact typed map",
"Used on its own, the arena generated for a node enum behaves as a map from indices to nodes: after any sequence of inserting, allocating and filling back, removing, updating and modifying (also to another node type), merging, rebuilding from its own nodes and changing nodes through mutable iteration, lookup, containment, type dispatch, the containers per node type, length and all three kinds of iteration describe exactly the nodes put in and not taken out, each under its own index and current type. Handed-out indices are distinct and non-empty, removing returns the node that was there, and filling an index that is occupied, unknown or allocated for another type, updating a missing node and building from duplicate indices panic.",
["histories","inputs","programs"],"all sequences of arena operations over any number of arenas sharing an id distributer, for every node enum",
"No test uses the arena directly.",
[CA,MC,ID],[("arena trait and its provided operations",CA+" CateArena"),("generated containers, dispatcher and iterators",MC+" make_cate_arena"),("index allocation",ID)],[],["return values and panics of CateArena and of its iterators"])
p("C23","Editing or querying a single node's links is exact",
"Through the node interface, adding, removing, replacing or testing one link of a node affects or concerns just that field, position or set member and reports truthfully whether a link was added or removed; adding to an occupied direct link, and adding to or removing from a vector link, panic and change nothing. Which links a field holds, which opposite links a link has, which node type a link belongs to and which target types it allows are answered exactly as declared, groups expanded, for the node's current content.",
["histories","inputs","programs"],"all nodes of all declarations and all sequences of link edits on them",
"No test calls the node interface on links of all kinds, in groups and repeated.",
[TN,NE,MT,BD,LC],[("generated link operations of a node",TN+" make_typed_node"),("dispatch by node type",NE+" make_node_enum"),("opposite links and type checks through groups",MT+" get_bidiretional_link_mirrors_of, check_link_type; "+BD+" make_bidirectional_link; "+LC+" make_check_link_type")],[],["return values of NodeEnum methods, panics, and the node read back afterwards"])
p("C24","A build without debug assertions gives the same results",
"Built without debug assertions, as in a release build, the library gives the same results as with them: every history that the build with debug assertions accepts produces the same graphs, closure calls and check outcomes, including bidirectional maintenance, merging, context switching and serialization. Commits that violate a link type or bidirectional declaration, redirect in a cycle or concern a missing node, and malformed fills and merges, are rejected as well; only the tests for a foreign context or an unfilled allocation at commit and the integrity check may be skipped.",
["configurations","histories"],"all histories of the other properties, in a build with debug assertions turned off",
"The test suite is only run with debug assertions, so an effect inside an assertion goes unnoticed.",
[TG,TR,CA,MC,TN],[("assertions at commit",TG+" do_commit, redirect_links_vec, apply_bidirectional_links"),("fill-back assertions",TR+" fill_back_untyped; "+CA+"; "+MC),("generated link operations",TN)],ST,["Graph::get, closure calls and panics in a build without debug assertions"])
p("C25","Nodes and closures are held exactly as long as they are needed",
"A node exists exactly once from the moment it is inserted until it is removed, and is dropped then: after every call, the nodes that exist are those of the existing graphs and those new in open transactions, each exactly once. Removing a node by a commit, replacing it through an update, giving up the transaction it is new in (or having it rejected for a foreign context or an unfilled allocation), dropping its graph, taking it out of an iterator by value (wholly or partly) and discarding it, switching context and serializing leave no copy behind; a node removed in the transaction that made it may last until that transaction ends. A recorded closure is dropped, run or not, when its transaction is committed, rejected or given up.",
["histories","inputs"],"all histories of transactions over any number of graphs and contexts, with rejected and abandoned transactions",
"No test counts node or closure lifetimes; a leaked or duplicated node shows in no return value.",
[TG,TR,AR,CA,MC],[("commit, removal, update and context switching",TG+" do_commit, remove_node, update_node, switch_context"),("closures and new nodes of a transaction",TR),("storage",AR+"; "+MC)],ST,["number of times each node and closure exists (drop counting)"])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,S)
    n=x['statement'].count('. ')+1
    print(x['id'],n,len(x['statement']))
