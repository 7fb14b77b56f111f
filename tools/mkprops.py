import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
G='src/gimpy/graph.py';T='src/gimpy/tree.py';C='src/gimpy/global_constants.py'
p('C01','Graph container follows its edit history exactly',
 "After any history of node and edge insertions, deletions and attribute writes on a directed or undirected graph, every query (membership, node/edge lists and counts, neighbours, in-/out-neighbours, degrees, attribute reads) reports exactly what the accepted edits imply. A rejected edit (duplicate node, duplicate edge in either orientation of an undirected edge, deletion of something absent) raises and leaves no trace. This stays true when edits alternate with algorithms that complete, fail, or are cut short by a failing or interrupted animation, and while other threads edit other graphs.",
 ['histories','schedules','fault_sequences'],'every edit history, including rejected edits and edits after aborted animations, under every interleaving with other threads working on their own graphs',
 'The tests build a graph once and never delete anything; histories with removals, rejected edits and aborted algorithms in between are unbounded.',
 [G],[('add_node/del_node/add_edge/del_edge update node table, adjacency and edge table together',G+' Graph.add_node..del_edge'),('duplicate edits raise MultipleNodeException/MultipleEdgeException before mutating',G+' Graph.add_node, Graph.add_edge')],
 [('neighbors/in_neighbors','adjacency lists',G+' Graph.__init__'),('edge_attr','edge table keyed by (tail, head)',G),('nodes','node table',G)],['return values and exceptions of the public query and edit methods'])
p('C02','Algorithms never change the problem they are given',
 "Running any algorithm (search, components, spanning tree, maximum flow, minimum-cost flow, label correcting, Floyd-Warshall, PageRank, ...) leaves the node set, the edge set and its orientation, the adjacency, and every user-supplied input attribute (cost, capacity, demand and attributes the algorithm does not document as output) exactly as they were. This holds whether the algorithm succeeds, reports infeasibility, or is cut short while rendering a frame (Graphviz crash, full disk, Ctrl-C, closed window). In particular no auxiliary node or arc stays behind.",
 ['histories','fault_sequences','schedules'],'every graph, every algorithm, every point at which rendering a frame can fail or be interrupted, every sequence of such runs',
 'Existing tests never inspect the graph after a run and never fail a rendering; the abort points are as many as the frames of the animation.',
 [G],[('auxiliary source/sink are removed on both outcomes',G+' Graph.find_feasible_flow'),('residual and spanning-tree graphs are separate Graph objects',G+' Graph.create_residual_graph, get_simplex_solution_graph')],
 [],['node/edge lists, adjacency and input attributes before and after'])
p('C03','Maximum flow is maximum at any point of a graph\'s life',
 "At whatever moment of a graph's life a maximum-flow computation is run (augmenting path with DFS or BFS, preflow-push FIFO, SAP or HighestLabel) - after other algorithms, after edits, after an aborted animation, animated or not, next to other threads on other graphs - it terminates and leaves on the arcs an integral flow within capacities, conserved at every node other than source and sink, and of maximum value for the current capacities. An arc without a capacity is treated as unbounded (10000).",
 ['inputs','histories','fault_sequences','schedules'],'all directed graphs without antiparallel arc pairs and with non-negative integer capacities, all earlier histories of the same graph object including aborted runs, all interleavings with other threads',
 'Tests check only that the algorithm returns; nothing checks feasibility or value, and no test reruns it on a graph carrying another run\'s leftovers.',
 [G],[('flows reset before the search, residual bookkeeping along the augmenting path',G+' Graph.max_flow'),('push/relabel with active-node queue',G+' Graph.max_flow_preflowpush, process_edge_flow, relabel')],
 [('flow/excess/distance attributes','working state that earlier runs leave behind',G)],["'flow' edge attribute"])
p('C04','Minimum-cost flow is optimal or reported infeasible',
 "At whatever moment of a graph's life a minimum-cost-flow computation is run (network simplex with dantzig or first_eligible pivots and any root, or cycle canceling) it terminates and, for balanced demands on a connected graph, either leaves a flow within capacities that meets every node's demand at minimum total cost, or prints that the problem is infeasible, the latter exactly when no feasible flow exists. Earlier runs, changed data, aborted animations and concurrent work on other graphs do not affect this.",
 ['inputs','histories','fault_sequences','schedules'],'all connected directed graphs without antiparallel pairs with non-negative integer capacities, integer costs (possibly negative) and balanced integer demands; all histories and fault sequences before the run',
 'The tests compare two algorithms on ten and on 28 fixed random instances, each on a fresh graph without display.',
 [G],[('feasible flow by max flow from an auxiliary source/sink',G+' Graph.find_feasible_flow'),('negative-cycle canceling on the residual graph',G+' Graph.cycle_canceling'),('spanning-tree pivots with potentials',G+' Graph.network_simplex and simplex_* helpers')],
 [('pred/thread/depth/potential/component attributes','tree indices reused between pivots',G)],["'flow' edge attribute, 'problem is infeasible' message"])
p('C05','Shortest-path algorithms return shortest paths',
 "Whatever ran on the graph before (including aborted runs), Dijkstra and breadth-first search return, for a destination, a shortest path (by cost, respectively by number of edges; None if unreachable) and, without one, a predecessor tree spanning exactly the reachable nodes along shortest paths; FIFO label correcting and Floyd-Warshall give shortest distances for arbitrary costs or report a genuine negative cycle exactly when one is (respectively: is reachable); the acyclic algorithm returns shortest paths on DAGs. In reverse direction both searches follow arcs backwards. The diameter query is 'infinity' exactly for disconnected undirected graphs.",
 ['inputs','histories','fault_sequences','schedules'],'all loop-free graphs (non-negative costs for Dijkstra, DAGs for the acyclic method), all earlier histories of the same graph object, animated or not, under nonfatal display faults and interleaving',
 'No test checks a distance or a path; label correcting, acyclic shortest path and Floyd-Warshall paths are not called by any test.',
 [G],[('generic search with priority queue',G+' Graph.search, process_edge_dijkstra, process_edge_search'),('FIFO label correcting with predecessor-cycle check',G+' Graph.fifo_label_correcting'),('Floyd-Warshall',G+' Graph.floyd_warshall*'),('topological relaxation',G+' Graph.acyclic_shortest_path')],
 [('distance/priority/color/disc_time','per-node marks that survive a run',G)],['return values of the public methods'])
p('C06','Minimum spanning tree methods return minimum trees',
 "Whatever ran on the graph before (including aborted runs and runs on other graphs), Prim's algorithm (both as its own method and as a search mode) returns a predecessor tree spanning exactly the source's connected component with minimum total cost, and Kruskal's algorithm returns an acyclic set of edges of the graph spanning every component with minimum total cost.",
 ['inputs','histories','fault_sequences','schedules'],'all undirected loop-free graphs with arbitrary numeric costs, all earlier histories, aborted runs and interleavings with other threads',
 'The only calls in the tests are on directed graphs with all nodes already coloured, so that Prim returns at once; no weight is checked.',
 [G],[('Prim with priority queue and node colours',G+' Graph.minimum_spanning_tree_prim, process_edge_prim'),('Kruskal over DisjointSet',G+' Graph.minimum_spanning_tree_kruskal, DisjointSet')],
 [('color attribute, queue default argument','state shared between calls',G)],['returned predecessor dictionary / edge list'])
p('C07','Reachability, components and orderings are exact',
 "Whatever ran on the graph before (including aborted runs), depth-first search returns a predecessor tree spanning exactly the nodes reachable from the source, or a real path / None when given a destination; undirected component labelling and strong-component labelling give two nodes the same number exactly when they are (mutually) reachable and count the components correctly; depth-first numbering on unvisited nodes is properly nested and its topological order puts every arc of a DAG forward; the Hamiltonian-path search succeeds exactly when such a path exists.",
 ['inputs','histories','fault_sequences','schedules'],'all loop-free graphs and all earlier histories of the same graph object, including edits between runs and aborted animations',
 'Tests run each algorithm once on a fresh graph and print labels without checking them; rerunning after edits is never exercised.',
 [G],[('generic search',G+' Graph.search'),('component labelling by repeated search',G+' Graph.label_components'),('Tarjan with index/lowlink node attributes',G+' Graph.tarjan, strong_connect'),('dfs with disc/finish times',G+' Graph.dfs'),('backtracking',G+' Graph.hamiltonian')],
 [('index/lowlink/component/disc_time/visited','marks that survive a run',G)],["return values, 'component', 'disc_time', 'finish_time' attributes, num_components"])
p('C08','Animating an algorithm never changes its outcome',
 "For every algorithm, running it with animation in any display mode (file, PIL, matplotlib, xdot, an unknown mode, on any Graphviz layout) gives the same return value, the same printed answer and the same computed attributes as running it with display off. This includes renderings that degrade without being fatal: Graphviz missing or not executable, slow or noisy on stderr, optional viewer libraries missing, a user clicking through the frames.",
 ['inputs','configurations','fault_sequences'],'every algorithm, input, display mode, layout, set of installed optional libraries, and every sequence of nonfatal rendering faults over the frames',
 'All tests run with display off or with an unknown mode name; nothing is rendered and no renderer ever degrades.',
 [G,T],[('display() returns without touching algorithm state',G+' Graph.display'),('OSError from Graphviz is reported and skipped',G+' Graph.create'),('missing viewers turn display off',G+' Graph.display')],
 [('attr[display]','current display mode',G)],['return values, stdout, attributes'])
p('C09','Graphs used by different threads do not affect each other',
 "When several threads each build, edit, query, display and run algorithms on graphs of their own, every call returns and leaves behind exactly what it would have if its thread had run alone, for every interleaving. No module-, class- or default-argument state carries information from one graph to another, in concurrent or in sequential use.",
 ['schedules','histories'],'every interleaving (down to single statements) of every set of per-thread programs over disjoint graphs',
 'The tests are single-threaded and use one graph at a time; shared default arguments or globals show only when two computations overlap or one is aborted.',
 [G,T],[('all working state is kept in the Graph, Tree and Node objects',G+' Graph.__init__, Node.__init__'),('queues, dictionaries and defaults are created per call',G+' search, minimum_spanning_tree_prim, create_cluster; '+T+' traverse')],
 [('default arguments, module-level random state','potential shared state',G+', '+T)],['return values, printed output, final attributes per thread'])
p('C10','After an aborted algorithm the next one is unaffected',
 "If an animated algorithm is cut short at any frame - Graphviz exits with an error, the disk is full, no file descriptors are left, the user presses Ctrl-C or closes the window - the abort surfaces as an exception, and every algorithm run afterwards on the same graph or on any other graph returns exactly the correct result, as if the aborted run had never happened.",
 ['fault_sequences','crash_points','histories'],'every algorithm, every frame at which it can be cut short, every fatal rendering fault, every follow-up program on the same and other graphs',
 'No test aborts an algorithm; the number of abort points equals the number of frames of each animation.',
 [G,T],[('every algorithm initialises the marks it reads',G+' search, max_flow, max_flow_preflowpush, tarjan, minimum_spanning_tree_prim'),('queues are created per call',G+', '+T)],
 [('color, distance, flow, index, excess, queues','partial state at the abort',G)],['results of follow-up runs'])
p('C11','Rendering leaks no temporary file or descriptor',
 "However a rendering ends - success, Graphviz missing, non-executable or failing, full disk while writing the graph or the image, unreadable image, interrupted or closed by the user - once the call has returned or raised, no temporary file it created remains and no file descriptor it opened is still open, in every display mode and for the write and create methods.",
 ['fault_sequences','configurations','crash_points'],'every display mode, method and format; every position and kind of a rendering fault; every interleaving with other threads rendering',
 'Tests never render; leaks appear only on error paths that need an injected fault.',
 [G],[('temporary DOT file removed after Graphviz ran',G+' Graph.create'),('temporary image removed after showing it',G+' Graph.display')],
 [],['scratch directory listing and open descriptor table after each call'])
p('C12','Every frame given to Graphviz describes the graph exactly',
 "Each time a graph is displayed or written, at any step of any algorithm, the text handed to Graphviz (or written as DOT) is complete, well-formed DOT of the right kind that lists every current node and edge exactly once with exactly its current attributes, each cluster with its members, attributes and node defaults, and the recognised graph attributes, and the requested layout program and output format are used. (Names and labels made of letters, digits, spaces, underscores, commas, parentheses, newlines and the punctuation GiMPy itself emits; names that are DOT keywords have to be quoted by the user, as documented.)",
 ['inputs','histories','fault_sequences'],'every state a graph passes through in any history of edits, clusters and algorithm steps, for directed and undirected graphs, including states left by aborted runs',
 'One test prints a DOT text with two clusters and checks nothing; intermediate frames are never examined.',
 [G,C],[('DOT writer',G+' Graph.to_string, edge_to_string, Node.to_string'),('quoting',C+' quote_if_necessary, needs_quotes'),('Graphviz invocation',G+' Graph.create')],
 [('cluster','cluster table',G)],['command line and input of the Graphviz process, DOT files'])
p('C13','A rendering is delivered whole or visibly fails',
 "A display or write call that produces an image delivers to the file or viewer exactly the bytes Graphviz produced for the current graph; if Graphviz fails, cannot be started, or the bytes cannot be stored, the caller learns of it by an exception or a printed message, never silently. A Graphviz that cannot be started and a missing optional viewer are reported by a message and do not raise.",
 ['fault_sequences','configurations'],'every display mode, format and layout, every sequence of renderings with injected process, disk and viewer faults, including several threads rendering at once',
 'Tests never render and no fault is ever injected; the error paths are unreachable without one.',
 [G],[('returncode check and OSError message',G+' Graph.create'),('write of complete stdout',G+' Graph.write'),('viewer dispatch',G+' Graph.display')],
 [],['image files, bytes opened by the viewer, stdout, exceptions'])
p('C14','A display argument applies to that one call only',
 "Passing a display argument to an algorithm (search, dfs, bfs, component labelling, Hamiltonian path, Prim, Kruskal, maximum flow, preflow-push, minimum-cost flow, tree traversals and printing) selects the display mode for that call only: afterwards the graph's own display mode is what it was before, whether the call completed or was cut short by a rendering fault or an interrupt. Without the argument the graph's own mode is used for all frames.",
 ['histories','fault_sequences'],'every algorithm, every pair of own and requested display mode, every abort point, every sequence of such calls',
 'Tests never look at the display mode after a call, and never abort a call that changed it.',
 [G,T],[('save/restore of the display attribute',G+' max_flow, search, dfs, ...; '+T+' traverse, print_nodes')],
 [('attr[display]','the graph\'s display mode',G)],['display mode before/after and the frames rendered'])
p('C15','Disjoint sets represent the partition their history implies',
 "After any history of add and union operations, find returns the same representative for two items exactly when the history joined their sets, the representative is a member of the set, union returns True exactly when it merged two different sets, and the recorded size of each representative is the size of its set; with and without path compression, and regardless of displays, rejected operations, and other threads using other disjoint sets in between.",
 ['histories','schedules'],'every history of add/union/find, both settings of optimize, interleaved with displays that may fail and with other threads',
 'Only Kruskal on one instance uses the class in the tests, without path compression and without any check.',
 [G],[('parent arcs, union by size, path compression',G+' DisjointSet')],
 [('sizes','set sizes by root',G+' DisjointSet')],['find/union return values, sizes'])
p('C16','Trees stay trees and traversals visit every node in order',
 "After any history of root, child, left/right-child insertions, leaf deletions and rejected insertions, parent, children, left/right child and level queries report exactly the tree the accepted operations built. Traversals (depth-first, breadth-first, pre/in/post-order printing with left or right priority, infix printing, postfix evaluation) visit each node of the chosen subtree exactly once in the documented order and, for expression trees, give the arithmetic value; aborted traversals and other threads' trees do not affect later ones.",
 ['histories','fault_sequences','schedules'],'every tree history including rejected insertions, every traversal and starting node, every abort point of an animated traversal before it, every interleaving with traversals of other trees',
 'Two tests build one fixed tree each and print it without checking; no rejected insertion, deletion or aborted traversal is exercised.',
 [T],[('parent/level/direction attributes and child slots',T+' Tree.add_child, BinaryTree.add_left_child/add_right_child/del_node'),('queue-driven traversal',T+' Tree.traverse, BinaryTree.traverse'),('recursive printing and evaluation',T+' print_nodes, printexp, postordereval')],
 [('Lchild/Rchild/parent/level','tree structure in node attributes',T)],['query results, stdout, highlighted frames'])
p('C17','A seed determines the generated random graph',
 "Generating a random graph with given parameters and seed always yields the same nodes, edges, costs, labels and positions - in any thread interleaving, after any use of random numbers elsewhere in the program, in any process and under any hash seed - and only edges between distinct existing nodes; in non-Euclidean graphs with a length range the costs are in that range, and in directed ones no pair is joined in both directions unless parallel_allowed.",
 ['schedules','configurations','inputs'],'all generator parameters and seeds, all interleavings with other users of random numbers, all hash seeds',
 'Tests use their own generators; the library generator is only called by a script that fails before reaching it.',
 [G],[('seeded generator',G+' Graph.random')],[('random module state','shared by all callers in the process',G)],['nodes, edges and attributes of the generated graph'])
p('C18','Queries are read-only and safe to share between threads',
 "Queries - membership, lists, counts, degrees, neighbours, attribute reads, text forms, PageRank, Floyd-Warshall distances, paths and negative cycles, residual graph - return the correct answer for the current graph and leave the graph (structure, every attribute, clusters, display mode) untouched, so that any number of threads may issue them on one shared graph at once, in any interleaving, each getting the answer it would get alone. PageRank values satisfy the PageRank equations to the requested tolerance.",
 ['schedules','inputs'],'all graphs and all interleavings of queries from several threads on one shared graph',
 'Tests call hardly any query and never from two threads; a hidden write shows only when queries overlap.',
 [G],[('queries compute into local variables',G+' page_rank, floyd_warshall, create_residual_graph, get_*_degrees, to_string')],[],['return values; deep snapshot of the graph before and after'])
p('C19','DOT quoting is correct for every string',
 "For every node name, label or attribute value, whatever characters it contains, the DOT text GiMPy emits reads back as the same string.",
 ['inputs'],'all strings','The quoting helper is only exercised with a handful of plain labels.',
 [C],[('quote_if_necessary, needs_quotes',C)],[],['DOT text'])
p('C20','Random generator honours density, degree and geometry parameters',
 "Over all parameter choices, the random generator produces edge densities, degree ranges, closest-neighbour selections and Euclidean costs as its parameters specify.",
 ['inputs'],'all generator parameter combinations','No test calls the generator with more than one parameter combination.',
 [G],[('Graph.random',G)],[],['generated graph'])
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
