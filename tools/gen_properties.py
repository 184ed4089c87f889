#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable)."""
import json, os
I = "include/tdzdd/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "A diagram built from a spec represents exactly the spec's function",
 "For every decision-diagram specification (stateless, scalar-state, array-state or mixed-state, of any arity, with any pattern of level skipping and of equal or unequal states), the diagram built top-down from it accepts exactly the assignments the specification accepts. Its root level and its branches skip exactly the levels the specification skips, equal states at a level share one node, and nodes that cannot reach the accepting terminal are at most removed, never changed into anything else.",
 ["programs", "inputs"], "all specifications (initial state, transition function, hash function, equality) and all assignments to the variables",
 "The tests build a few concrete specs (combinations, one grid, a fixed-seed random DD) and compare only sizes or cardinalities; a defect that needs a particular skip pattern, hash collision or dead-node pattern is not reached.",
 [I+"dd/DdBuilder.hpp", I+"DdSpec.hpp", I+"dd/DdSweeper.hpp", I+"dd/NodeTable.hpp", I+"DdStructure.hpp"],
 [("level-by-level construction with one unique table per level", I+"dd/DdBuilder.hpp: DdBuilder::initialize/construct"),
  ("dead node sweeping", I+"dd/DdSweeper.hpp: DdSweeper::update"),
  ("state storage, hashing and comparison of the spec base classes", I+"DdSpec.hpp: DdSpec, PodArrayDdSpec, HybridDdSpec, StatelessDdSpec")],
 observe=["DdStructure(spec): root(), child(), topLevel(), size()"])

prop("C02", "Reduction never changes what a diagram represents",
 "Applying the quasi-reduction, the BDD reduction or the ZDD reduction to any diagram, of any arity, leaves the represented function (read with that reduction's rule for skipped levels) unchanged for every assignment, provided the diagram was readable under that rule before. This also holds when reductions are repeated or applied to a diagram that shares storage with another one.",
 ["inputs", "programs"], "all (unreduced, partly reduced or reduced) ordered diagrams, all reduction kinds and all assignments",
 "The tests compare cardinalities or node counts after reducing a handful of concrete diagrams.",
 [I+"dd/DdReducer.hpp", I+"dd/NodeTable.hpp", I+"DdStructure.hpp"],
 [("bottom-up merging by list-linked buckets (binary)", I+"dd/DdReducer.hpp: DdReducer::algorithmR"),
  ("hash-based merging (other arities)", I+"dd/DdReducer.hpp: DdReducer::reduce_"),
  ("child-level indexes", I+"dd/NodeTable.hpp: makeIndex, higherLevels, lowerLevels")],
 observe=["qddReduce(), bddReduce(), zddReduce()"])

prop("C03", "Reduced diagrams are canonical and equality decides equivalence",
 "After BDD (or ZDD) reduction a diagram contains no two distinct nodes of one level with identical branches, no node the deletion rule removes and no unreachable node, so its size is the minimum for its function. Consequently two diagrams reduced by the same rule compare equal exactly when they represent the same function; in general the comparison is true exactly when the two rooted diagrams, after merging duplicate nodes, are the same graph, and it is reflexive and symmetric.",
 ["inputs", "programs"], "all pairs of diagrams, all reduction kinds",
 "Equality is only tested between a few diagrams that happen to be built from the same spec; canonicity is only seen through one or two expected sizes.",
 [I+"dd/DdReducer.hpp", I+"DdStructure.hpp", I+"dd/Node.hpp", I+"util/MyHashTable.hpp"],
 [("duplicate merging and node deletion", I+"dd/DdReducer.hpp: algorithmR, reduce_"),
  ("structural comparison", I+"DdStructure.hpp: operator=="),
  ("node hash and equality", I+"dd/Node.hpp")],
 observe=["size(), operator==, operator!="])

prop("C04", "Multi-processor algorithms agree with the serial ones on every schedule",
 "With the multi-processor option on, construction, subsetting, reduction and evaluation produce a result that represents the same function and gives the same values as the serial algorithms, for every number of threads and every way the runtime schedules loop iterations and critical sections among them. After reduction the diagrams are structurally equal to the serial results, and no two threads access the same memory conflictingly outside of synchronisation in a way that can alter the result.",
 ["schedules", "programs", "configurations"], "all specs, thread counts, chunk assignments and interleavings of synchronisation points",
 "The tests run the OpenMP path on whatever schedule the machine happens to choose with four threads.",
 [I+"dd/DdBuilder.hpp", I+"dd/DdReducer.hpp", I+"dd/DdSweeper.hpp", I+"dd/NodeTable.hpp", I+"DdStructure.hpp"],
 [("parallel construction", I+"dd/DdBuilder.hpp: DdBuilderMP"), ("parallel subsetting", I+"dd/DdBuilder.hpp: ZddSubsetterMP"),
  ("parallel reduction", I+"dd/DdReducer.hpp: reduceMP_"), ("parallel evaluation", I+"DdStructure.hpp: evaluate")],
 observe=["DdStructure(spec,true), useMultiProcessors(), zddSubset, zddReduce, evaluate"])

prop("C05", "Subsetting computes the intersection with the specification",
 "Subsetting a ZDD with any specification over the same variables leaves exactly those members of the represented family that the specification accepts, whatever levels either of them skips and however the specification's states collide. The diagram that shared storage with the subsetted one before, if any, is unaffected, and the result can be reduced, subsetted and evaluated like any other.",
 ["programs", "inputs", "histories"], "all ZDDs, all specifications, all members; sequences of subsettings",
 "Only one small subsetting example (and the sample programs) is exercised.",
 [I+"dd/DdBuilder.hpp", I+"DdStructure.hpp", I+"op/Lookahead.hpp"],
 [("product construction with ZDD zero-suppression on skipped levels", I+"dd/DdBuilder.hpp: ZddSubsetter"),
  ("level freeing while reading the input diagram", I+"dd/NodeTable.hpp: derefLevel")],
 observe=["zddSubset(spec)"])

prop("C06", "Specification combinators implement conjunction, disjunction, meet, join",
 "The AND and OR combinators of BDD specifications accept exactly the assignments accepted by all, respectively at least one, of their operands under the BDD reading of skipped levels; the intersection and union combinators of ZDD specifications accept exactly the itemsets contained in all, respectively at least one, of the operand families under the ZDD reading. This holds for two or more operands (binary branching), of any state kinds and level-skipping patterns, and for nested combinations.",
 ["programs", "inputs"], "all tuples of operand specifications and all assignments",
 "The tests use a few combinations of size constraints whose skipping patterns are alike.",
 [I+"op/BinaryOperation.hpp", I+"DdSpecOp.hpp"],
 [("binary combinators", I+"op/BinaryOperation.hpp: BddAnd, BddOr, ZddIntersection, ZddUnion"),
  ("variadic forms", I+"DdSpecOp.hpp: bddAnd, bddOr, zddIntersection, zddUnion")],
 observe=["diagrams built from bddAnd/bddOr/zddIntersection/zddUnion"])

prop("C07", "Look-ahead, unreduction and BDD/ZDD conversion preserve the function",
 "The look-ahead optimisation of a specification accepts exactly what the original accepts under the same (BDD or ZDD) reading. The unreduction of a specification for n variables is a specification without skipped levels that accepts the same assignments over n variables, and converting a diagram from BDD to ZDD form or back, for n variables (n at least the root level), preserves the represented function over those n variables.",
 ["programs", "inputs"], "all specifications, variable counts at least the root level, assignments",
 "The tests convert a size-constraint diagram or two.",
 [I+"op/Lookahead.hpp", I+"op/Unreduction.hpp", I+"DdStructure.hpp"],
 [("look-ahead", I+"op/Lookahead.hpp: BddLookahead, ZddLookahead"), ("unreduction", I+"op/Unreduction.hpp"),
  ("conversion", I+"DdStructure.hpp: bdd2zdd, zdd2bdd")],
 observe=["bddLookahead, zddLookahead, bddUnreduction, zddUnreduction, bdd2zdd, zdd2bdd"])

prop("C08", "Bottom-up evaluation gives the recursively defined value",
 "Evaluating a diagram with a user-defined evaluator calls the terminal function for the terminals and the node function once for every node of every level up to the root, in bottom-up order, passing for each branch exactly the value computed for that child and the child's level. The result is the evaluator's final value for the root, for any diagram (including terminal-only ones) and any evaluator, regardless of when values of no longer needed levels are released.",
 ["programs", "inputs"], "all diagrams, all evaluators (terminal and node functions, value types)",
 "Only cardinality-like evaluators on a few diagrams are tested; a wrong early release or a wrong child level is not visible there.",
 [I+"DdStructure.hpp", I+"DdEval.hpp", I+"dd/NodeTable.hpp", I+"dd/DataTable.hpp"],
 [("evaluation loop", I+"DdStructure.hpp: evaluate"), ("value tuple", I+"DdEval.hpp: DdValues"),
  ("release schedule", I+"dd/NodeTable.hpp: lowerLevels")],
 observe=["evaluate(evaluator)"])

prop("C09", "Cardinality is exact",
 "The cardinality functions return the exact number of satisfying assignments over the given number of variables (BDD reading) or of member itemsets (ZDD reading) as a decimal numeral or, in the machine-integer variants, as that integer whenever it fits. This holds for every diagram, arity and variable count at least the root level, including counts beyond 64 bits.",
 ["inputs", "programs"], "all diagrams, arities and numbers of variables",
 "The tests compare a handful of counts; word-boundary and many-variable cases are rarely hit.",
 [I+"eval/Cardinality.hpp", I+"util/BigNumber.hpp", I+"DdStructure.hpp"],
 [("counting evaluators", I+"eval/Cardinality.hpp"), ("multi-word naturals", I+"util/BigNumber.hpp")],
 observe=["bddCardinality(n), zddCardinality(), evaluate(BddCardinality/ZddCardinality)"])

prop("C10", "Iteration enumerates every itemset exactly once",
 "Iterating over a binary ZDD from begin to end yields every member of the represented family exactly once and nothing else, terminates, and does so for the empty family and the family holding only the empty set as well. Dereferencing always shows the items taken on the current member, and two iterators at the same position compare equal.",
 ["inputs"], "all binary ZDDs, reduced or not",
 "One small example iterates a diagram.",
 [I+"DdStructure.hpp"], [("explicit path stack with backtrack cursor", I+"DdStructure.hpp: const_iterator")],
 observe=["begin(), end(), ++, *, =="])

prop("C11", "Diagrams are independent values",
 "Copying, assigning (including to itself) or returning a diagram yields a diagram with the same meaning, and any later operation on either one (reduction, subsetting, reassignment, destruction) never changes the meaning, size or evaluation of the other. A diagram used as a specification, or captured in one, is read but not modified.",
 ["histories", "inputs"], "all sequences of copy, assign, reduce, subset, convert, destroy over several diagrams",
 "No test keeps a copy and checks it after operating on the original.",
 [I+"dd/NodeTable.hpp", I+"DdStructure.hpp"],
 [("reference-counted copy-on-write node table", I+"dd/NodeTable.hpp: NodeTableHandler")],
 observe=["copy constructor, operator=, privateEntity, derefLevel"])

prop("C12", "Size and linear constraint specs accept exactly the satisfying sets",
 "The size-constraint specification over n items accepts exactly the subsets whose size lies in the given set of integers (any range with bounds and step, or any user-defined integer set). The linear-constraint specification accepts exactly the 0/1 assignments satisfying every added inequality, lower/upper bound pair and equation, for any integer weights, any bounds and any number of constraints (within the machine range of the weights), once the constraints are finalised.",
 ["inputs", "configurations"], "all item counts, ranges, coefficient vectors and subsets",
 "The tests use a few ranges and no linear constraint at all.",
 [I+"spec/SizeConstraint.hpp", I+"spec/LinearConstraints.hpp", I+"util/IntSubset.hpp"],
 [("counting with bound pruning", I+"spec/SizeConstraint.hpp"), ("partial sums with bound pruning", I+"spec/LinearConstraints.hpp"),
  ("ranges", I+"util/IntSubset.hpp: IntRange")],
 observe=["DdStructure(SizeConstraint), DdStructure(LinearConstraints)"])

prop("C13", "Path and cycle specs enumerate exactly the paths and cycles",
 "For every undirected graph (with at least one edge, no self-loops) and every pairing of coloured end vertices, the path specifications accept exactly the edge sets that form vertex-disjoint simple paths joining the vertices of each colour, the Hamiltonian variants exactly those that in addition visit every vertex, and the cycle and Hamiltonian-cycle variants exactly the single simple cycles (through every vertex). Switching the look-ahead option on or off, or, for a single pair, using the alternative map-based implementation, does not change the accepted family.",
 ["inputs", "configurations"], "all graphs, edge orders, vertex colourings, edge subsets, option settings",
 "One grid and a random-order example are counted.",
 [I+"spec/PathZdd.hpp", I+"spec/PathZddByStdMap.hpp", I+"util/Graph.hpp"],
 [("mate array with frontier", I+"spec/PathZdd.hpp: PathZddBase"), ("map mate", I+"spec/PathZddByStdMap.hpp"),
  ("frontier computation", I+"util/Graph.hpp: update")],
 observe=["DdStructure(PathZdd/HamiltonPathZdd/CycleZdd/HamiltonCycleZdd/PathZddByStdMap)"])

prop("C14", "Frontier-based search and degree constraints accept exactly their graphs",
 "For every graph (without self-loops), vertex colouring and edge order, the frontier-based search specification accepts exactly the edge sets that connect all vertices of each colour, connect no two vertices of different colours, have the requested number of components with edges but no coloured vertex (or any number), and contain no cycle when cycles are forbidden. The degree-constraint specification accepts exactly the edge sets in which every constrained vertex has a degree in its allowed set; look-ahead on or off makes no difference.",
 ["inputs", "configurations"], "all graphs, colourings, component counts, degree sets, edge subsets and options",
 "No test exercises either specification.",
 [I+"spec/FrontierBasedSearch.hpp", I+"spec/DegreeConstraint.hpp", I+"util/Graph.hpp"],
 [("frontier mate structure with colour handling", I+"spec/FrontierBasedSearch.hpp"), ("degree counters", I+"spec/DegreeConstraint.hpp")],
 observe=["DdStructure(FrontierBasedSearch), DdStructure(DegreeConstraint)"])

prop("C15", "Diagram-free counting and search agree with the diagram",
 "Counting the accepted paths of a specification directly, with or without the fast or 64-bit modes, returns exactly the number of root-to-accept paths of its diagram. Searching for one instance returns an assignment the specification accepts whenever one exists and reports failure otherwise.",
 ["programs", "inputs"], "all specifications of any state kind and arity",
 "No test calls these functions.",
 [I+"dd/PathCounter.hpp", I+"dd/DepthFirstSearcher.hpp", I+"DdSpec.hpp"],
 [("level-by-level counting", I+"dd/PathCounter.hpp"), ("depth-first search with failed-state cache", I+"dd/DepthFirstSearcher.hpp")],
 observe=["countPaths, findOneInstance"])

prop("C16", "Hash tables and vectors behave as sets, maps and sequences",
 "After any sequence of operations the hash table contains exactly the first-inserted representative of every distinct element added, and the hash map maps every key to its last stored value, for every hash function and across every resize, copy and swap; iterating visits each element once. After any sequence of operations the dynamic array holds the same sequence a standard vector would, including after growth, shrinking, copying, self-assignment and swapping.",
 ["histories", "inputs"], "all operation sequences, element values, hash functions, initial sizes",
 "The containers are only exercised indirectly by building diagrams.",
 [I+"util/MyHashTable.hpp", I+"util/MyVector.hpp"],
 [("open addressing with rehash", I+"util/MyHashTable.hpp"), ("manual storage array", I+"util/MyVector.hpp")],
 observe=["MyHashTable::add/get/iterators, MyHashMap::operator[]/getValue, MyVector"])

prop("C17", "Pooled lists, memory pools and integer sets keep their contents",
 "Objects allocated from a memory pool never overlap and keep their contents until the pool is cleared, also when pools are spliced, moved or collected in a growing or shrinking vector, and a pooled or malloc-backed list yields its elements in reverse order of insertion and the size actually stored. The bit set and the small sorted set hold exactly the non-negative integers added and not removed, list them in order, and compare and hash equal exactly when they hold the same integers.",
 ["histories", "inputs"], "all operation sequences and element values within the documented capacity",
 "Lists and pools are only exercised indirectly; the set classes are not used by any test.",
 [I+"util/MyList.hpp", I+"util/MemoryPool.hpp", I+"util/MySet.hpp"],
 [("block allocation", I+"util/MemoryPool.hpp"), ("singly linked lists", I+"util/MyList.hpp"), ("fixed-capacity sets", I+"util/MySet.hpp")],
 observe=["MemoryPool::allocate/splice/reuse, MyList, MyListOnPool, MyBitSet, MySmallBitSet"])

prop("C18", "Textual dumps describe exactly the diagram",
 "The Graphviz dump of a specification or diagram lists each reachable node once under its level, with each branch drawn to the right child in the right style, and the Sapporo-format dump lists every node once after its children with its level and both branch targets, followed by the root. Reading such a dump back gives the dumped diagram.",
 ["inputs", "programs"], "all specifications and binary diagrams",
 "No test inspects the dumps.",
 [I+"DdSpec.hpp", I+"dd/DdBuilder.hpp", I+"DdStructure.hpp"],
 [("breadth-first dumper", I+"dd/DdBuilder.hpp: DdDumper, called by DdSpec.hpp dumpDot"), ("Sapporo writer", I+"DdStructure.hpp: dumpSapporo")],
 observe=["dumpDot(os), dumpSapporo(os)"])

prop("C19", "States live exactly as long as they should and memory is used safely",
 "During construction, subsetting, path counting, search and dumping, every specification state the library creates (initial, copied or merged) is destroyed exactly once, is never used before creation or after destruction, and none is leaked when the operation finishes; every level the operation passes is closed (destructLevel) once, after the last branch taken and the last state hashed at it. No operation of the library reads or writes memory outside of live objects or reads values it never wrote.",
 ["programs", "inputs"], "all specifications (with resource-owning states), skip patterns, hash functions",
 "The test states are plain data, so a double or missing destruction is invisible.",
 [I+"DdSpec.hpp", I+"dd/DdBuilder.hpp", I+"dd/PathCounter.hpp", I+"dd/DepthFirstSearcher.hpp"],
 [("state copy/destruct protocol", I+"DdSpec.hpp: get_copy, destruct, destructLevel"), ("state nodes on pools", I+"dd/DdBuilder.hpp")],
 observe=["user state copy constructor/destructor calls"])

prop("C20", "Graph input and frontier bookkeeping are faithful",
 "Adding edges programmatically or reading an edge list, an adjacency list or a vertex-group list from text yields a graph with exactly those edges in that order and those vertex groups, independent of the amount of white space, blank lines and a missing newline at the end; malformed edge lines are rejected. Setting and clearing colours leaves exactly the vertex groups last declared. For every edge the reported end vertices, the first-edge/last-edge status of every vertex and the frontier range are exactly those implied by the edge order, so that every vertex enters and leaves the frontier once.",
 ["inputs", "configurations"], "all edge lists, vertex names, colourings and texts",
 "Only grids generated in code are used.",
 [I+"util/Graph.hpp"], [("text readers", I+"util/Graph.hpp: readEdges, readAdjacencyList, readVertexGroups"), ("frontier analysis", I+"util/Graph.hpp: update")],
 observe=["Graph::addEdge/readEdges/readAdjacencyList/readVertexGroups/edgeInfo/setColor/clearColors"])

prop("C21", "Merging states at a level is handled soundly",
 "A specification may define mergeStates(s1, s2), which is asked whenever two different states that compare equal (by hash and equality) meet at a level, and which updates the kept state and tells whether both are kept as one node (0), the first one is discarded (1) or the second one (2). Whatever the relation, construction, subsetting and dumping give a diagram in which every edge into a discarded state leads to the 0-terminal, every edge into a merged state leads to the one node of the kept state, and nothing else changes; so a specification whose states carry a cost and which keeps the cheaper (or the dearer) one gives exactly the paths that are optimal at every meeting. In serial mode this includes states that accept (reach the 1-terminal); the multi-processor algorithms merge the states of the levels. Conjunction, intersection, look-ahead and unreduction pass the relation of their operand on. A specification that never asks for merging gives the same diagram as without the facility.",
 ["programs", "inputs"], "all specifications with all merge relations",
 "No test defines a merge relation.",
 [I+"dd/DdBuilder.hpp", I+"DdSpec.hpp", I+"op/Lookahead.hpp", I+"op/Unreduction.hpp", I+"op/BinaryOperation.hpp"], [("merge_states handling in the level loop", I+"dd/DdBuilder.hpp: DdBuilder::construct")],
 observe=["DdStructure(spec with mergeStates)"])

prop("C22", "Arbitrary-precision natural numbers compute exactly",
 "Multi-word natural numbers stored, added, shifted, compared, divided by a small number and printed give exactly the mathematical result for every operand value and length, including carries across words, and never write beyond the storage reserved for the result. Conversion to a decimal string and to 64-bit integers agrees with the stored value.",
 ["inputs"], "all operand values up to the stored length",
 "Only counts that occur in a few diagrams are tested; carries over several words do not occur.",
 [I+"util/BigNumber.hpp"], [("63-bit digits with continuation bit", I+"util/BigNumber.hpp: BigNumber, FixedBigNumber")],
 observe=["BigNumber::add/shiftLeft/store/equals/translate/operator std::string"])

prop("C23", "Imported diagrams mean what the file says",
 "Loading a ZDD from its Graphillion-style textual form (lines `id item low high`, children named by identifiers, B or T, in any order, the root being the only node with the smallest item) gives a specification that accepts exactly the described family, for every well-formed description that lists at least one node, whatever the numbering of the nodes, the order of the lines, the letter case, the white space and the numbering range of the items; the largest item is mapped to level 1 and smaller items to higher levels. (What happens on malformed text is not part of the property.)",
 ["inputs"], "all textual descriptions",
 "No test loads such a file.",
 [I+"spec/GraphillionZdd.hpp"], [("loader and level mapping", I+"spec/GraphillionZdd.hpp")],
 observe=["GraphillionZdd::load, DdStructure(GraphillionZdd)"])

prop("C24", "The n-queens and number-link sample specs accept exactly the solutions",
 "For every board size the n-queens and n-rooks specifications of the sample program (direct, fixed-first-queen and coloured forms) accept exactly the placements (colourings) in which no two pieces attack each other, the n-ary and one-hot adapters accept exactly the words of the given length in their encoding, and the interleaving of several families accepts exactly the interleaved sets. For every number link puzzle the specifications of the number link sample (NumlinZdd, DegreeZdd with the rooted degree condition) accept exactly the edge sets that connect the equal numbers by disjoint simple paths, with at most the allowed number of unused cells, the default mode of the sample (with ConstraintZdd, which leaves out solutions with needless detours) accepts only solutions and at least one if there is any, and the board transfers and prints such a solution faithfully.",
 ["inputs", "configurations"], "all board sizes and placements",
 "The sample programs are built but not run by the tests.",
 ["apps/numberlink/NumlinZdd.hpp", "apps/numberlink/DegreeZdd.hpp", "apps/numberlink/ConstraintZdd.hpp", "apps/numberlink/Board.hpp", "apps/ddqueens/NQueenZdd.hpp", "apps/ddqueens/NAryZdd.hpp", "apps/ddqueens/ColoredZdd.hpp", "apps/ddqueens/ZddInterleave.hpp"],
 [("row/diagonal bookkeeping", "apps/ddqueens/NQueenZdd.hpp")],
 observe=["DdStructure(NQueenZdd...)"])

prop("C25", "Interoperability with the SAPPORO BDD package is lossless",
 "Exporting a diagram to the SAPPORO BDD package as a BDD or a ZBDD (with any non-negative offset of the levels, and any variables existing already, whose numbers may differ from their levels; a negative offset of a ZBDD drops the members with items at levels that vanish) and importing a BDD or ZBDD from it (with any offset) preserve the represented function or family, with node level i + offset of the package standing for level i; exporting creates exactly the missing variables, an import of a BDD that depends on a variable below the offset is refused by an exception, and the package, which is not reentrant, is called by one thread at a time in multi-processor mode.",
 ["inputs", "programs"], "all diagrams",
 "The external packages are not part of the tests.",
 [I+"eval/ToBDD.hpp", I+"eval/ToZBDD.hpp", I+"spec/SapporoBdd.hpp", I+"spec/SapporoZdd.hpp"],
 [("conversion evaluators and specs", I+"eval/ToZBDD.hpp")],
 observe=["evaluate(ToBDD/ToZBDD), DdStructure(SapporoBdd/SapporoZdd)"])

prop("C26", "CNF compilers accept exactly the satisfying assignments",
 "For every CNF formula in DIMACS form (comments before the header, any white space, repeated literals and clauses, tautological clauses, a last clause without its terminating zero) the CNF-to-BDD specification of the sample program accepts exactly the satisfying assignments, with or without clause sorting, canonical clause numbers and top-down/bottom-up reachability analysis with any size limit; the CNF-to-ZTDD specification represents exactly the set of distinct non-tautological clauses, and its conversion to a CUDD BDD, and that BDD read back as a specification, represent the formula. The CUDD wrapper computes the logical operations, quantification and substitution it names and releases every reference once.",
 ["inputs", "configurations"], "all formulas and option settings",
 "The programs need the CUDD package and are neither built nor run by the tests.",
 ["apps/cnfbdd/CnfToBdd.cpp", "apps/cnfbdd/CnfToBdd.hpp", "apps/cnfbdd/Cudd.hpp", "apps/cnf2ztdd2bdd/CnfToZtdd.cpp", "apps/cnf2ztdd2bdd/CnfToZtdd.hpp", "apps/cnf2ztdd2bdd/ZtddToCudd.hpp"],
 [("clause bookkeeping and reachability pruning", "apps/cnfbdd/CnfToBdd.cpp"), ("sorted clause ranges", "apps/cnf2ztdd2bdd/CnfToZtdd.cpp")],
 observe=["DdStructure(CnfToBdd), DdStructure(CnfToZtdd), evaluate(ZtddToCudd), Cudd operators"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
