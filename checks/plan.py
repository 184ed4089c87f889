# The runs that decide each property: harness, parameters (bounds) and what they cover.
ASSUMPTIONS = [
    "the harness and /repo's headers are compiled by clang 18 at -O1 to LLVM IR; the IR is what is executed symbolically, so miscompilation by other compilers or flags is outside",
    "byte-exact memory model: every heap, stack and global object has bounds and a live/uninitialised/freed state; malloc never fails",
    "iostream formatting, printf, string streams and the red-black tree/list helpers of libstdc++ are models in engine/rt and engine/include, validated by running solver-found inputs of passing paths natively",
    "small integer choices of a harness (table entries, graph edges, operation codes) are split into all their values, each decided feasible by the solver; data values (assignments, numbers, weights) stay symbolic",
]
RUNS = {}
def run(pid, name, src, **kw): RUNS.setdefault(pid, []).append(dict(name=name, src=src, **kw))
GEN = "one generated table per seed in which nsym entries (each reject/accept/near or far child) are arbitrary; the assignment is fully symbolic"

# C01 ------------------------------------------------------------------
for k, w in ((0, "scalar state"), (3, "array state")):
    run("C01", f"bin_k{k}", "c01_build.cpp", params=dict(n=3, kind=k), thorough=dict(n=3, w=3), bounds=f"all binary specifications over 3 variables with at most 2 states a level, {w}, any level skips; all assignments")
for s in range(1, 4):
    run("C01", f"gen{s}", "c01_build.cpp", params=dict(n=12, w=8, kind=0, gen=1, seed=s, nsym=3), thorough=dict(n=16, nsym=4), bounds="12 variables, 8 states a level; " + GEN)
run("C01", "deep", "c01_build.cpp", params=dict(n=39, w=3, kind=0, gen=1, seed=5, nsym=3), thorough=dict(n=64), bounds="39 variables, 3 states a level; " + GEN)
run("C01", "wide", "c01_build.cpp", params=dict(n=8, w=60, kind=0, gen=1, seed=5, nsym=2), thorough=dict(w=200), bounds="8 variables, 60 states a level (table growth); " + GEN)
run("C01", "dead", "c01_build.cpp", params=dict(n=8, w=60, kind=0, gen=1, dead=60, seed=5, nsym=2), thorough=dict(w=150), bounds="8 variables, 60 states a level, 60% rejecting entries (sweeping); " + GEN)
T3 = dict(defines=["ARITY_=3"])
for k in (0, 9): run("C01", f"ter_k{k}", "c01_build.cpp", params=dict(n=2, w=2, kind=k), bounds="all ternary specifications over 2 variables with at most 2 states a level, state kind %d; all assignments" % k, **T3)
run("C01", "ter_gen", "c01_build.cpp", params=dict(n=8, w=6, kind=5, gen=1, seed=2, nsym=3, dead=25), bounds="ternary, 8 variables, 6 states a level, mixed state; " + GEN, **T3)
for k in (1, 2, 4, 5, 9): run("C01", f"gen_k{k}", "c01_build.cpp", params=dict(n=9, w=7, kind=k, gen=1, seed=k, nsym=2, dead=20, far=20), thorough=dict(nsym=3), bounds="9 variables, 7 states a level, state kind %d (constant hash, one bucket, byte array, mixed, none); " % k + GEN)
for k, z in ((3, 1), (3, 7), (4, 8), (4, 17), (5, 0), (5, 9), (5, 4)): run("C01", f"sz_k{k}_{z}", "c01_build.cpp", params=dict(n=10, w=6, kind=k, sz=z, gen=1, seeds=6, nsym=1, dead=15, far=15), thorough=dict(seeds=24), bounds="10 variables, 6 states a level, state kind %d of %d elements; " % (k, z) + GEN)
for k, z in ((3, 2), (3, 3), (3, 7), (4, 8), (4, 17), (5, 0), (5, 9), (5, 4)): run("C01", f"szh_k{k}_{z}", "c01_build.cpp", params=dict(n=8, w=6, kind=k, sz=z, gen=1, seeds=4, nsym=1, dead=15, far=15, hk=1), thorough=dict(seeds=24), bounds="8 variables, 6 states a level, state kind %d of %d elements, all with one hash code; " % (k, z) + GEN)
run("C01", "qua", "c01_build.cpp", defines=["ARITY_=4"], params=dict(n=6, w=5, kind=0, gen=1, seed=3, nsym=2, dead=30), bounds="arity 4, 6 variables; " + GEN)

# C02, C03 -------------------------------------------------------------
for m, pid in ((0, "C02"), (1, "C03")):
    run(pid, f"all{m}", "c02_reduce.cpp", params=dict(n=2, w=2, mode=m), thorough=dict(n=3, w=1), bounds="all binary diagrams over 2 variables with at most 2 nodes a level before reduction; all reductions; all assignments")
    for s in (1, 2):
        run(pid, f"gen{m}_{s}", "c02_reduce.cpp", params=dict(n=10, w=6, gen=1, seed=s, nsym=2, mode=m), thorough=dict(n=14, w=8, nsym=3), bounds="10 variables, 6 nodes a level; " + GEN)
    run(pid, f"ter{m}", "c02_reduce.cpp", defines=["ARITY_=3"], params=dict(n=6, w=4, gen=1, seed=2, nsym=2, mode=m), thorough=dict(n=8, nsym=3), bounds="ternary, 6 variables, 4 nodes a level; " + GEN)
run("C03", "pair2", "c02_reduce.cpp", params=dict(n=2, w=1, mode=2), thorough=dict(w=2), bounds="all pairs of reduced binary diagrams from specifications over 2 variables with one state a level")
run("C03", "unred2", "c02_reduce.cpp", params=dict(n=2, w=1, mode=2, unred=1), thorough=dict(w=2), bounds="all pairs of unreduced binary diagrams, 2 variables, one state a level")
for k, q in enumerate((dict(n=2, w=2), dict(n=2, w=1, alias=6), dict(n=5, w=3, gen=1, nsym=1, seeds=8), dict(n=7, w=4, gen=1, nsym=1, dead=25, far=25, seeds=6))): run("C03", f"twice{k}", "c02_reduce.cpp", params=dict(dict(mode=4, alias=2, red=0), **q), time=1500, bounds="an unreduced diagram against the same one with every node repeated and references mixed, perhaps with one entry changed: " + ("all specifications over 2 variables with at most %d states a level" % q["w"] if k < 2 else "%d variables, %d states a level; " % (q["n"], q["w"]) + GEN))
run("C03", "mut", "c02_reduce.cpp", params=dict(n=2, w=2, mode=3), bounds="a diagram over 2 variables and a copy with one changed entry")
for m, pid in ((0, "C02"), (1, "C03")):
    run(pid, f"ter_all{m}", "c02_reduce.cpp", params=dict(n=2, w=1, mode=m), bounds="all ternary diagrams over 2 variables with one node a level before reduction; all reductions", **T3)
    run(pid, f"qua{m}", "c02_reduce.cpp", defines=["ARITY_=4"], params=dict(n=5, w=3, gen=1, seed=4, nsym=2, mode=m, dead=30, far=20), bounds="arity 4, 5 variables; " + GEN)
    run(pid, f"wide{m}", "c02_reduce.cpp", params=dict(n=7, w=40, gen=1, seed=6, nsym=1, mode=m, dead=20, far=20), bounds="7 variables, 40 nodes a level; " + GEN)

# C05 ------------------------------------------------------------------
run("C05", "pair2", "c05_subset.cpp", params=dict(n=2, w=1, w2=1, post=0), bounds="all pairs (ZDD, specification) over 2 variables with one node a level; all itemsets")
for k in (0, 1, 3, 5, 9, 10): run("C05", f"gen_k{k}", "c05_subset.cpp", params=dict(n=10, w=5, w2=3 if k != 9 else 1, gen=1, nsym=1, kind=k, seed=k + 1), thorough=dict(nsym=2, n=12), bounds="10 variables, 5 nodes x 3 states a level, state kind %d; " % k + GEN)
for k, z in ((3, 13), (5, 9)): run("C05", f"sz_k{k}", "c05_subset.cpp", params=dict(n=9, w=5, w2=4, gen=1, nsym=1, kind=k, sz=z, seed=k + 9), thorough=dict(nsym=2), bounds="9 variables, state of several words; " + GEN)
for k, z in ((3, 13), (3, 5), (5, 9), (5, 3)): run("C05", f"szh_k{k}_{z}", "c05_subset.cpp", params=dict(n=7, w=5, w2=4, gen=1, nsym=1, kind=k, sz=z, seed=k + 7, hk=1), thorough=dict(nsym=2), bounds="7 variables, state of several words, all with one hash code; " + GEN)
run("C05", "ter", "c05_subset.cpp", defines=["ARITY_=3"], params=dict(n=6, w=4, w2=3, gen=1, nsym=1, seed=1), thorough=dict(nsym=2), bounds="ternary, 6 variables; " + GEN)
run("C05", "ter2", "c05_subset.cpp", params=dict(n=2, w=1, w2=1, post=0, pre=0, shared=0), time=100, bounds="all pairs (ternary diagram, specification) over 2 variables with one node a level", **T3)
run("C05", "up", "c05_subset.cpp", params=dict(n=4, n2=6, w=3, w2=3, gen=1, nsym=1, far=35, seed=2), bounds="specification with more variables than the diagram; " + GEN)
run("C05", "down", "c05_subset.cpp", params=dict(n=7, n2=4, w=3, w2=3, gen=1, nsym=1, far=35, seed=3), bounds="diagram with more variables than the specification; " + GEN)

# C06 ------------------------------------------------------------------
for k in range(5): run("C06", f"two_k{k}", "c06_ops.cpp", params=dict(n=2, w=1, kinds=k), bounds="all pairs of specifications over 2 variables with one state a level, state-kind pair %d" % k)
for k in range(5): run("C06", f"gen_k{k}", "c06_ops.cpp", params=dict(n=8, w=4, kinds=k, gen=1, nsym=1), thorough=dict(nsym=2), bounds="8 variables, 4 states a level; " + GEN)
for k in range(2): run("C06", f"gen3_k{k}", "c06_ops.cpp", params=dict(n=7, w=3, kinds=k, gen=1, nsym=1, ops=3), bounds="three operands and nested combinations, 7 variables; " + GEN)
run("C06", "gen_k5", "c06_ops.cpp", params=dict(n=7, w=4, kinds=5, gen=1, nsym=1), thorough=dict(nsym=2), bounds="7 variables, 4 states a level, states of 3 and 4 words; " + GEN)
run("C06", "genh_k5", "c06_ops.cpp", params=dict(n=6, w=4, kinds=5, gen=1, nsym=1, hk=1, seed=4), thorough=dict(nsym=2), bounds="6 variables, 4 states a level, states of 3 and 4 words, all with one hash code; " + GEN)
run("C06", "updn", "c06_ops.cpp", params=dict(n=4, n2=7, w=3, kinds=0, gen=1, nsym=2, far=35), bounds="operands over 4 and 7 variables; " + GEN)

# C07 ------------------------------------------------------------------
for k in (0, 9): run("C07", f"all_k{k}", "c07_adapt.cpp", params=dict(n=2, w=2, kind=k), thorough=dict(n=3, w=1), bounds="all specifications over 2 variables with at most 2 states a level, state kind %d" % k)
for k in (0, 1, 3, 5): run("C07", f"gen_k{k}", "c07_adapt.cpp", params=dict(n=8, w=4, kind=k, gen=1, nsym=1), thorough=dict(nsym=2), bounds="8 variables, 4 states a level, state kind %d; " % k + GEN)
run("C07", "ter2", "c07_adapt.cpp", params=dict(n=2, w=1), bounds="all ternary specifications over 2 variables with one state a level", **T3)
run("C07", "ter", "c07_adapt.cpp", params=dict(n=5, w=3, kind=5, gen=1, nsym=1, dead=30, far=30), bounds="ternary, 5 variables; " + GEN, **T3)
run("C07", "look", "c07_adapt.cpp", params=dict(n=8, w=2, gen=1, nsym=3, dead=55, far=35, nv=9, seed=7), bounds="8 variables, mostly rejecting (long look-ahead); " + GEN)

# C08 ------------------------------------------------------------------
run("C08", "all", "c08_eval.cpp", params=dict(n=2, w=2), thorough=dict(n=3), bounds="all diagrams over 2 variables with at most 2 nodes a level; symbolic terminal values and node weights")
run("C08", "gen", "c08_eval.cpp", params=dict(n=10, w=5, gen=1, nsym=2), thorough=dict(n=14, w=8, nsym=3), bounds="10 variables, 5 nodes a level; " + GEN)
run("C08", "ter", "c08_eval.cpp", defines=["ARITY_=3"], params=dict(n=5, w=4, gen=1, nsym=1), thorough=dict(nsym=2), bounds="ternary, 5 variables; " + GEN)
run("C08", "ter2", "c08_eval.cpp", params=dict(n=2, w=1, show=0), bounds="all ternary diagrams over 2 variables with one node a level", **T3)

# C09 ------------------------------------------------------------------
run("C09", "all", "c09_card.cpp", params=dict(n=2, w=2), thorough=dict(n=3, w=2), bounds="all binary diagrams over 2 variables with at most 2 nodes a level, 0-2 more variables than the root level")
run("C09", "univ", "c09_card.cpp", params=dict(n=130, univ=1, red=0, step=31, maxover=3), bounds="the full family over up to 130 variables (counts up to 2^130)")
run("C09", "univ3", "c09_card.cpp", defines=["ARITY_=3"], params=dict(n=85, univ=1, red=0, step=20, maxover=3), bounds="ternary full family over up to 85 variables")
run("C09", "deep", "c09_card.cpp", params=dict(n=80, w=3, gen=1, nsym=1, dead=3, far=10, step=40, maxover=2), thorough=dict(nsym=2), bounds="80 variables (counts beyond 64 bits); " + GEN)
run("C09", "far", "c09_card.cpp", params=dict(n=135, w=3, gen=1, nsym=1, dead=3, far=80, red=0, step=40, maxover=2), thorough=dict(nsym=2), bounds="135 variables with long skips; " + GEN)
run("C09", "ter", "c09_card.cpp", defines=["ARITY_=3"], params=dict(n=45, w=3, gen=1, nsym=1, dead=3, far=10, step=40, maxover=2), thorough=dict(nsym=2), bounds="ternary, 45 variables; " + GEN)
run("C09", "shift", "c09_card.cpp", params=dict(n=2, w=1, step=63, maxover=3), thorough=dict(w=2), bounds="all binary diagrams over 2 variables with one node a level, 0, 63, 126 or 189 more variables than the root level")
run("C09", "gaps", "c09_card.cpp", params=dict(n=230, w=1, gaps=1, red=0, step=1, maxover=1), bounds="two or three nodes, skips of 60-66 and of 60-66 or 122-128 levels between them (counts around one, two and three words)")
run("C09", "gaps3", "c09_card.cpp", params=dict(n=230, w=1, gaps=1, red=0, step=1, maxover=0), bounds="the same, ternary", **T3)
run("C09", "ter2", "c09_card.cpp", params=dict(n=2, w=1), bounds="all ternary diagrams over 2 variables with one node a level, 0-2 more variables", **T3)

# C10 ------------------------------------------------------------------
run("C10", "all", "c10_iter.cpp", params=dict(n=2, w=2), thorough=dict(n=3), bounds="all binary diagrams over 2 variables with at most 2 nodes a level")
run("C10", "all3", "c10_iter.cpp", params=dict(n=3, w=1), bounds="all binary diagrams over 3 variables with one node a level")
run("C10", "univ", "c10_iter.cpp", params=dict(n=7, univ=1), thorough=dict(n=9), bounds="the full family over 7 variables")
run("C10", "gen", "c10_iter.cpp", params=dict(n=8, w=4, gen=1, nsym=2, dead=8, inner=1, seed=3), thorough=dict(nsym=3), bounds="8 variables; " + GEN)
run("C10", "sparse", "c10_iter.cpp", params=dict(n=24, w=6, gen=1, nsym=2, dead=40, inner=1, far=30), thorough=dict(nsym=3), bounds="24 variables, sparse; " + GEN)

# C11 ------------------------------------------------------------------
run("C11", "seq", "c11_values.cpp", params=dict(n=4, w=3, gen=1, nsym=1, steps=2), thorough=dict(steps=3), bounds="all sequences of 2 operations over 2 diagrams (4 variables) and their copies")
run("C11", "all", "c11_values.cpp", params=dict(n=2, w=1, steps=1), thorough=dict(w=2), bounds="all diagrams over 2 variables with one node a level, every single operation")
run("C11", "ter", "c11_values.cpp", params=dict(n=3, w=2, gen=1, nsym=1, steps=2), bounds="as seq, ternary, 3 variables", **T3)

# C12 ------------------------------------------------------------------
for k in range(5): run("C12", f"size{k}", "c12_constraints.cpp", params=dict(n=5, which=k), thorough=dict(n=7), bounds="5 items, all integer sets of kind %d with symbolic bounds; all subsets" % k)
run("C12", "size_c", "c12_constraints.cpp", params=dict(n=9, which=0, concrete=1), thorough=dict(n=11), bounds="9 items, all ranges; all subsets")
run("C12", "lin1", "c12_constraints.cpp", params=dict(n=3, which=10, wmax=1, bmax=2, hole=1), bounds="3 items, one constraint, weights -1..1, bounds -2..2")
run("C12", "lin1w", "c12_constraints.cpp", params=dict(n=2, which=10, wmax=3, bmax=4), bounds="2 items, weights -3..3, bounds -4..4")
run("C12", "lin2", "c12_constraints.cpp", params=dict(n=5, which=11, nc=2, wmode=1, bmax=2), bounds="5 items, two constraints with generated weights, symbolic bounds")
run("C12", "lin3", "c12_constraints.cpp", params=dict(n=9, which=10, nc=3, wmode=1, band=1, bmax=1, seed=2, subset=1), bounds="9 items, three banded constraints, applied by subsetting")
run("C12", "lin4", "c12_constraints.cpp", params=dict(n=9, which=11, nc=2, wmode=3, seed=3), bounds="9 items, two constraints")
run("C12", "lin5", "c12_constraints.cpp", params=dict(n=7, which=12, nc=2, wmode=2, seed=4), bounds="7 items, two equations/inequalities")

# C13 ------------------------------------------------------------------
T13 = ("simple paths", "Hamiltonian paths", "cycles", "Hamiltonian cycles", "simple paths (map-based)")
for t in range(5): run("C13", f"all{t}", "c13_paths.cpp", params=dict(type=t, V=4, m=4), thorough=dict(V=5, m=5), bounds=T13[t] + ": every graph and edge order with at most 4 vertices and 4 edges, every terminal pair, look-ahead on/off; every edge set")
for t in (0, 1): run("C13", f"two{t}", "c13_paths.cpp", params=dict(type=t, V=4, m=4, pairs=2), thorough=dict(V=5, m=5), bounds=T13[t] + " for two terminal pairs: every graph with at most 4 vertices and 4 edges")
for t in range(5):
    for s in (0, 1, 4, 5, 7, 10): run("C13", f"shape{t}_{s}", "c13_paths.cpp", params=dict(type=t, shape=s, k=0), thorough=dict(k=1), bounds=T13[t] + ": fixed graph %d (grid, K5, wheel-like, ladders, pseudo-random) with every terminal pair; every edge set" % s)
for t in (0, 1):
    for s in (0, 1, 4, 5): run("C13", f"shape2_{t}_{s}", "c13_paths.cpp", params=dict(type=t, shape=s, k=0, pairs=2, la=1), thorough=dict(la=-1), bounds=T13[t] + " for two terminal pairs: fixed graph %d; every edge set" % s)
K13 = " (recorded finding: this input is checked exactly; elsewhere sets missing only vertices outside the frontier window, or the first one of it for cycles, are allowed)"
run("C13", "known_path", "c13_paths.cpp", params=dict(type=1, shape=100, k=0, known=1), bounds="Hamiltonian paths on the path 1-2-3" + K13)
run("C13", "known_cycle", "c13_paths.cpp", params=dict(type=3, shape=101, k=0, known=1), bounds="Hamiltonian cycles on edges 12 13 23 14" + K13)
run("C13", "known_first", "c13_paths.cpp", params=dict(type=3, shape=5, k=0, known=1), bounds="Hamiltonian cycles on edges 12 23 34 41 51 52 13 24" + K13)
for t in range(5):
    for m in (8, 10, 12): run("C13", f"rnd{t}_{m}", "c13_paths.cpp", params=dict(type=t, gseeds=400, m=m, seed=t), thorough=dict(gseeds=3000), ttime=2400, bounds=T13[t] + f": 400 generated graphs with 5 to 8 vertices and up to {m} edges, generated terminals and look-ahead option; every edge set")
for t in (0, 1): run("C13", f"rnd2_{t}", "c13_paths.cpp", params=dict(type=t, gseeds=400, m=9, pairs=2, seed=t + 7), thorough=dict(gseeds=3000), ttime=2400, bounds=T13[t] + " for two terminal pairs: 400 generated graphs with 5 to 8 vertices and up to 9 edges; every edge set")
for t in (2, 3): run("C13", f"ord{t}", "c13_paths.cpp", params=dict(type=t, V=5, m=6, orient=1), thorough_only=True, ttime=3000, bounds=T13[t] + ": every graph, edge order and orientation with at most 5 vertices and 6 edges")

# C22 ------------------------------------------------------------------
run("C22", "store", "c22_big.cpp", params=dict(op=0), bounds="any 64-bit value below 2^63")
run("C22", "copy", "c22_big.cpp", params=dict(op=1, L=4), bounds="any value of at most 4 words")
run("C22", "add", "c22_big.cpp", params=dict(op=2, L=4), thorough=dict(L=6), bounds="any two values of at most 4 words")
run("C22", "double", "c22_big.cpp", params=dict(op=3, L=5), bounds="any value of at most 5 words")
run("C22", "shift", "c22_big.cpp", params=dict(op=4, L=3, K=140), bounds="any value of at most 3 words shifted by 0..140")
run("C22", "div", "c22_big.cpp", params=dict(op=5, L=1, div=0, bits=32), bounds="any 32-bit value divided by any small divisor")
run("C22", "print", "c22_big.cpp", params=dict(op=6, max=999), bounds="printing any value up to 999")
run("C22", "print2", "c22_big.cpp", params=dict(op=6, rng=1), bounds="printing values around powers of two")
run("C22", "print10", "c22_big.cpp", params=dict(op=7, digits=40), bounds="printing values of up to 40 decimal digits around powers of ten")
run("C22", "fixed", "c22_big.cpp", params=dict(op=8), bounds="fixed-size numbers of 1-3 words")
run("C22", "fixed_p", "c22_big.cpp", params=dict(op=8, f=3), bounds="fixed-size numbers, printing")
run("C22", "fixed_d", "c22_big.cpp", params=dict(op=8, f=2, S=1), bounds="fixed-size numbers, division")
for d in (0, 1, 6, 8, 5): run("C22", f"divpat{d}", "c22_big.cpp", params=dict(op=5, L=3, div=d, pat=1, bits=3), bounds="values of at most 3 words with arbitrary low bits, divisor case %d" % d)

# C14 ------------------------------------------------------------------
F14 = "frontier-based search: "
run("C14", "f4", "c14_frontier.cpp", params=dict(V=4, m=4, uec=-1, noloop=0, la=0), thorough=dict(la=-1, uec=-9, noloop=-1), ttime=2400, bounds=F14 + "every graph and edge order with at most 4 vertices and 4 edges, every colouring with at most 2 colours; every edge set")
run("C14", "f3", "c14_frontier.cpp", params=dict(V=4, m=3, colored=2), thorough=dict(m=4), ttime=2400, bounds=F14 + "every graph with at most 3 edges, at most 2 coloured vertices, 0-2 or any number of uncoloured components, cycles allowed or not, look-ahead on/off")
for s in (5, 12): run("C14", f"s{s}", "c14_frontier.cpp", params=dict(shape=s, k=0, colored=5, uec=-1, noloop=0, la=1), thorough=dict(la=-1, uec=-9, noloop=-1), ttime=2400, bounds=F14 + "fixed graph %d with 5 vertices, every colouring with at most 2 colours; every edge set" % s)
for s in (1, 7, 10): run("C14", f"s{s}", "c14_frontier.cpp", params=dict(shape=s, k=0, colored=2, la=1, uec=1), thorough=dict(la=-1, uec=-9, colored=3), ttime=2400, bounds=F14 + "fixed graph %d, every choice of 2 coloured vertices, one uncoloured component; every edge set" % s)
for s in (0, 4): run("C14", f"s{s}", "c14_frontier.cpp", params=dict(shape=s, k=0, colored=2, la=1, uec=-1, noloop=1, C=1), thorough=dict(la=-1, uec=-9, noloop=-1, C=2), ttime=2400, bounds=F14 + "fixed graph %d (grid / wheel-like), every pair of terminals, acyclic; every edge set" % s)
for m in (7, 9, 12): run("C14", f"rnd{m}", "c14_frontier.cpp", params=dict(gseeds=400, m=m, seed=m), thorough=dict(gseeds=3000, colored=9), ttime=2400, bounds=F14 + f"400 generated graphs with 5 to 8 vertices and up to {m} edges, generated colourings and options; every edge set")
for m in (8, 11): run("C14", f"drnd{m}", "c14_frontier.cpp", params=dict(gseeds=400, m=m, deg=1, common=m % 2, seed=m), thorough=dict(gseeds=3000), ttime=2400, bounds=f"degree constraint: 400 generated graphs with 5 to 8 vertices and up to {m} edges, generated degree sets and options; every edge set")
run("C14", "d1", "c14_frontier.cpp", params=dict(V=4, m=4, deg=1, D=3), thorough=dict(V=5, m=5), bounds="degree constraint: every graph with at most 4 edges, every common degree set within 0..3; every edge set")
run("C14", "d2", "c14_frontier.cpp", params=dict(V=3, m=3, deg=1, common=0, D=2, la=1), thorough=dict(la=-1, V=4), bounds="degree constraint: every graph with at most 3 vertices, every choice of constrained vertices and degree sets within 0..2")
for s in (0, 4, 5, 7, 10, 12): run("C14", f"ds{s}", "c14_frontier.cpp", params=dict(shape=s, k=0, deg=1, D=3), bounds="degree constraint: fixed graph %d, every common degree set within 0..3; every edge set" % s)

# C15 ------------------------------------------------------------------
run("C15", "all", "c15_count.cpp", params=dict(n=3, w=1, dd=1), thorough=dict(w=2), bounds="all specifications over 3 variables with one state a level; arbitrary-precision, fast and 64-bit counting")
run("C15", "all2", "c15_count.cpp", params=dict(n=2, w=2), thorough=dict(w=3), bounds="all specifications over 2 variables with at most 2 states a level")
for k in (0, 1, 3, 5, 9): run("C15", f"gen_k{k}", "c15_count.cpp", params=dict(n=10, w=5, gen=1, nsym=3, kind=k, dd=1), thorough=dict(nsym=5), bounds="10 variables, 5 states a level, state kind %d; " % k + GEN)
for k, z in ((3, 3), (3, 7), (5, 3), (5, 5)): run("C15", f"genh_k{k}_{z}", "c15_count.cpp", params=dict(n=8, w=5, gen=1, nsym=2, kind=k, sz=z, hk=1, dd=1), thorough=dict(nsym=4), bounds="8 variables, 5 states a level, state kind %d of %d elements, all with one hash code; " % (k, z) + GEN)
run("C15", "deep", "c15_count.cpp", params=dict(n=140, w=3, gen=1, nsym=2, dead=3, far=10, tens=1), thorough=dict(nsym=4), bounds="140 variables, counts beyond 64 bits; " + GEN)
run("C15", "far", "c15_count.cpp", params=dict(n=140, w=3, gen=1, nsym=2, dead=3, far=50, tens=1), thorough=dict(nsym=4), bounds="140 variables with long skips; " + GEN)
run("C15", "ter", "c15_count.cpp", defines=["ARITY_=3"], params=dict(n=130, w=3, gen=1, nsym=2, dead=0, tens=1), thorough=dict(nsym=3), bounds="ternary, 130 variables; " + GEN)
run("C15", "long2", "c15_count.cpp", params=dict(n=135, w=1, long=1), bounds="a chain of 135 don't-care variables joined by a branch that skips to the bottom")
run("C15", "web2", "c15_count.cpp", params=dict(n=129, w=8, long=1, tgt=3, **{"from": 64}), bounds="a web of 8 states a level over 129 variables joined by a branch that skips 61-63 levels")
run("C15", "long3", "c15_count.cpp", params=dict(n=260, w=1, long=1), bounds="a chain of 260 don't-care variables joined by a branch that skips to the bottom (numbers of five words)")
run("C15", "long5", "c15_count.cpp", defines=["ARITY_=5"], params=dict(n=63, w=1, long=1), bounds="as long2 with arity 5, 63 variables")
run("C15", "find", "c15_count.cpp", params=dict(n=2, w=2, what=1, reps=2), thorough=dict(n=3, w=1), bounds="search: all specifications over 2 variables with at most 2 states a level; every outcome of the random choices (8-bit)")
run("C15", "find3", "c15_count.cpp", defines=["ARITY_=3"], params=dict(n=4, w=2, what=1, gen=1, nsym=2, dead=60), bounds="search, ternary, 4 variables; every outcome of the random choices")
run("C15", "find_h", "c15_count.cpp", params=dict(n=5, w=3, what=1, gen=1, nsym=2, dead=50, kind=5, seed=3), bounds="search, 5 variables, mixed state")
run("C15", "ter2", "c15_count.cpp", params=dict(n=2, w=2), bounds="all ternary specifications over 2 variables with at most 2 states a level", **T3)

# C16 ------------------------------------------------------------------
run("C16", "tab", "c16_tables.cpp", params=dict(what=0, steps=2, hsym=2, pre=0), thorough=dict(steps=3), bounds="hash table: every sequence of 2 operations (add, get, assign, self-assign, copy, rehash, clear, initialize, move) on two tables, arbitrary hash of two keys, symbolic payloads")
run("C16", "tab8", "c16_tables.cpp", params=dict(what=0, steps=2, hmode=1, pre=7), thorough=dict(steps=3), bounds="as tab, 7 elements loaded, constant hash function (resize boundary at 8)")
run("C16", "tab14", "c16_tables.cpp", params=dict(what=0, steps=2, hmode=3, pre=13), thorough=dict(steps=3), bounds="as tab, 13 elements loaded, clustered hash at the end of the table")
run("C16", "tab100", "c16_tables.cpp", params=dict(what=0, steps=2, hmode=2, pre=99), thorough=dict(pre=300), bounds="as tab, 99 elements loaded, default multiplicative hash")
run("C16", "tabi", "c16_tables.cpp", params=dict(what=0, steps=2, hmode=1, pre=3, init=9), thorough=dict(init=40), bounds="as tab, initial size hint 0..9, constant hash function")
run("C16", "map", "c16_tables.cpp", params=dict(what=1, steps=3, pre=0), ttime=1800, thorough=dict(steps=4), bounds="hash map: every sequence of 3 operations, symbolic values, arbitrary hash of two keys")
run("C16", "map8", "c16_tables.cpp", params=dict(what=1, steps=3, pre=7, hmode=1), thorough=dict(steps=4), bounds="as map, 7 keys loaded, constant hash function")
run("C16", "vec", "c16_tables.cpp", params=dict(what=2, steps=2, pre=3), thorough=dict(steps=3), bounds="dynamic array of lifetime-checked elements: every sequence of 2 operations on two arrays, symbolic values")
run("C16", "vec1", "c16_tables.cpp", params=dict(what=2, steps=3, pre=1, one=1, nmax=2, grow=3), time=100, thorough=dict(steps=4), bounds="every sequence of 3 operations on one array")
run("C16", "vecp", "c16_tables.cpp", params=dict(what=3, steps=2, pre=5, grow=23, nmax=7), thorough=dict(steps=3), bounds="array of 64-bit integers, 5 elements loaded: every sequence of 2 operations")
run("C16", "vecu", "c16_tables.cpp", params=dict(what=4, steps=2, pre=1), bounds="array with 32-bit sizes: every sequence of 2 operations")
for hm in (2, 3): run("C16", f"tab380_{hm}", "c16_tables.cpp", params=dict(what=0, steps=1, hmode=hm, pre=380), maxinstr=120000000, bounds="as tab, 380 elements loaded, %s; every single operation" % ("default multiplicative hash" if hm == 2 else "clustered hash at the end of the table"))
run("C16", "map380", "c16_tables.cpp", params=dict(what=1, steps=1, hmode=2, pre=380), maxinstr=120000000, bounds="as map, 380 keys loaded; every single operation")
run("C16", "vec70", "c16_tables.cpp", params=dict(what=2, steps=1, pre=70, grow=60), bounds="as vec, 70 elements loaded; every single operation")
run("C16", "vecp70", "c16_tables.cpp", params=dict(what=3, steps=1, pre=70, grow=60), bounds="as vecp, 70 elements loaded; every single operation")
run("C16", "pools", "c16_tables.cpp", params=dict(what=5, steps=4), bounds="array of memory pools: every sequence of 4 operations")

# C17 ------------------------------------------------------------------
run("C17", "list", "c17_pools.cpp", params=dict(what=0, steps=5, nmax=2), thorough=dict(steps=7), bounds="malloc-backed list with blocks of two elements: every sequence of 5 insertions (0-2 words), removals and clears; symbolic contents")
run("C17", "list2", "c17_pools.cpp", params=dict(what=0, steps=3, nmax=3, two=1), thorough=dict(steps=4), bounds="two malloc-backed lists, every sequence of 3 operations")
run("C17", "listb", "c17_pools.cpp", params=dict(what=8, steps=4, nmax=3), thorough=dict(steps=5), bounds="malloc-backed list with the default block size, every sequence of 4 operations")
run("C17", "plist", "c17_pools.cpp", params=dict(what=1, steps=4, nmax=3), thorough=dict(steps=5), bounds="pooled list, every sequence of 4 operations")
for nm, wh, ld in (("listl", 0, 9), ("listbl", 8, 2600), ("plistl", 1, 2600)): run("C17", nm, "c17_pools.cpp", params=dict(what=wh, steps=2, nmax=3, two=1, load=ld), maxinstr=120000000, bounds=f"two lists (as list, listb, plist) with {ld} elements of 0-3 words inserted before: every sequence of 2 operations")
run("C17", "plist2", "c17_pools.cpp", params=dict(what=1, steps=3, nmax=3, two=1), thorough=dict(steps=4), bounds="two lists on one pool, every sequence of 3 operations")
run("C17", "odd", "c17_pools.cpp", params=dict(what=7, steps=5), thorough=dict(steps=7), bounds="lists of 11-byte elements, every sequence of 5 operations")
run("C17", "pool", "c17_pools.cpp", params=dict(what=2, steps=3, nsz=5), thorough=dict(steps=4, nsz=8), ttime=3600, bounds="two memory pools: every sequence of 3 operations (allocate 8 to 420000 bytes, fill two blocks, clear, reuse, splice, move)")
run("C17", "pool1", "c17_pools.cpp", params=dict(what=2, steps=4, two=0, opmax=10, nsz=4), thorough=dict(steps=5, nsz=8), ttime=3600, bounds="one memory pool: every sequence of 4 operations")
for w in (1, 2): run("C17", f"bits{w}", "c17_pools.cpp", params=dict(what=3, words=w, steps=4 - w, pre=3 * w - 3), thorough=dict(steps=5 - w), bounds="bit set of %d words: every sequence of 3 (one word) or 2 (two words, three elements loaded) operations on two sets, boundary indices" % w)
run("C17", "bits3", "c17_pools.cpp", params=dict(what=3, words=3, steps=2, pre=9), thorough=dict(steps=3), bounds="bit set of 3 words, 9 elements loaded: every sequence of 2 operations")
run("C17", "bitsp", "c17_pools.cpp", params=dict(what=3, words=130, steps=2, pre=4), thorough=dict(steps=3), bounds="pooled bit set of 130 bits: every sequence of 2 operations")
run("C17", "sbits", "c17_pools.cpp", params=dict(what=5), bounds="one-word bit set with arbitrary contents and indices")
run("C17", "small", "c17_pools.cpp", params=dict(what=4, steps=3, dom=4), thorough=dict(steps=4), ttime=3600, bounds="small sorted set of capacity 3: every sequence of 3 operations over 4 values on two sets")
run("C17", "small3", "c17_pools.cpp", params=dict(what=4, steps=3, dom=5, pre=2), bounds="as small, two elements loaded, 5 values")
run("C17", "smallp", "c17_pools.cpp", params=dict(what=4, steps=3, dom=5, pool=3, pre=2), bounds="pooled small set of capacity 3: every sequence of 3 operations")
run("C17", "ssmall", "c17_pools.cpp", params=dict(what=6, n=3), thorough=dict(n=5), bounds="small sorted set with 3 arbitrary 32-bit elements added and one removed")
run("C17", "poolvec", "c17_pools.cpp", params=dict(what=10, steps=5), thorough=dict(steps=7), bounds="collection of memory pools: every sequence of 5 operations (grow, shrink, reserve, allocate in every pool, clear)")
run("C17", "pull", "c17_pools.cpp", params=dict(what=9), bounds="removing an entry of a two-word bit set: memory safety at every position")

# C20 ------------------------------------------------------------------
run("C20", "edges", "c20_graph.cpp", params=dict(what=0, V=4, m=4, C=0, loops=1, dump=1), thorough=dict(m=5), bounds="every sequence of at most 4 edges (repetitions, both directions, loops) on at most 4 vertices")
run("C20", "col", "c20_graph.cpp", params=dict(what=0, V=4, m=3, C=2, loops=0, more=1, dump=1), thorough=dict(m=4), bounds="every sequence of at most 3 edges on at most 4 vertices with every colouring by at most 2 colours; then clearing colours, adding an edge or an unknown colour")
run("C20", "coli", "c20_graph.cpp", params=dict(what=0, V=4, m=3, C=3, loops=0, how=7), thorough=dict(m=4), bounds="every sequence of at most 3 edges, every colouring by at most 3 numbered colours")
run("C20", "read", "c20_graph.cpp", params=dict(what=1, len=6), thorough=dict(len=8), bounds="every edge list text of at most 6 characters (two letters, blank, newline), with and without final newline")
run("C20", "readt", "c20_graph.cpp", params=dict(what=1, len=5, tab=1), thorough=dict(len=6), bounds="every edge list text of at most 5 characters (letters, blank, tab, carriage return, newline)")
run("C20", "adj", "c20_graph.cpp", params=dict(what=2, len=6), thorough=dict(len=8), bounds="every adjacency list text of at most 6 characters (two digits, blank, newline)")
run("C20", "grp", "c20_graph.cpp", params=dict(what=3, len=5), thorough=dict(len=7), bounds="every vertex group text of at most 5 characters (three digits, blank, newline) on a fixed graph")
for sd in (1, 2): run("C20", f"big{sd}", "c20_graph.cpp", params=dict(what=7, gseeds=60 if sd == 1 else 15, V=12 if sd == 1 else 28, m=24 if sd == 1 else 50, seed=sd), thorough=dict(gseeds=600), ttime=3000, maxinstr=120000000, bounds="generated graphs with up to %s vertices and edges: edges added one by one, read as edge list or as adjacency list; up to 4 vertex groups set or read" % ("14 and 24" if sd == 1 else "30 and 50"))
run("C20", "dflt", "c20_graph.cpp", params=dict(what=4), bounds="default terminals on paths of 2-5 vertices closed anywhere")
run("C20", "numbers", "c20_graph.cpp", params=dict(what=6), bounds="any two group numbers from 0 to 4095 give the same group exactly if they are equal")
run("C20", "adjt", "c20_graph.cpp", params=dict(what=2, len=5, tab=1), thorough=dict(len=6), bounds="every adjacency list text of at most 5 characters (two digits, blank, tab, carriage return, newline)")
run("C20", "many", "c20_graph.cpp", params=dict(what=5, n=8), bounds="8 numbered groups from two bases stay apart")

# C18 ------------------------------------------------------------------
for k in (0, 1, 3, 5, 9): run("C18", f"dot_k{k}", "c18_dump.cpp", params=dict(what=0, n=2, w=2, kind=k), thorough=dict(n=3, w=1), bounds="Graphviz dump of all specifications over 2 variables with at most 2 states a level, state kind %d" % k)
run("C18", "dot_gen", "c18_dump.cpp", params=dict(what=0, n=8, w=5, gen=1, nsym=2), thorough=dict(nsym=3), bounds="Graphviz dump, 8 variables; " + GEN)
run("C18", "dot_ter", "c18_dump.cpp", params=dict(what=0, n=2, w=1), bounds="Graphviz dump of all ternary specifications over 2 variables with one state a level", **T3)
run("C18", "dot_qua", "c18_dump.cpp", defines=["ARITY_=4"], params=dict(what=0, n=4, w=3, gen=1, nsym=1), bounds="Graphviz dump, arity 4; " + GEN)
run("C18", "comb", "c18_dump.cpp", params=dict(what=1, n=4, w=2, gen=1, nsym=1, far=30), thorough=dict(nsym=2), bounds="Graphviz dumps of look-ahead, unreduction, union and AND of specifications over 4 variables; " + GEN)
run("C18", "dd", "c18_dump.cpp", params=dict(what=2, n=2, w=2, inner=1), thorough=dict(n=3, w=1), bounds="Graphviz dump of all diagrams over 2 variables with at most 2 nodes a level, every reduction, re-rooted at a child")
run("C18", "dd_gen", "c18_dump.cpp", params=dict(what=2, n=6, w=4, gen=1, nsym=1, inner=1), bounds="Graphviz dump of diagrams over 6 variables; " + GEN)
run("C18", "sap", "c18_dump.cpp", params=dict(what=3, n=2, w=2, inner=1), thorough=dict(n=3, w=2), bounds="Sapporo dump of all diagrams over 2 variables with at most 2 nodes a level, every reduction, re-rooted at a child")
run("C18", "sap_gen", "c18_dump.cpp", params=dict(what=3, n=9, w=5, gen=1, nsym=2, inner=1, far=30), bounds="Sapporo dump of diagrams over 9 variables; " + GEN)

# C19 ------------------------------------------------------------------
O19 = ("construction", "subsetting", "counting", "fast counting", "searching", "dumping", "64-bit counting")
for w in range(7):
    run("C19", f"all_w{w}", "c19_life.cpp", params=dict(n=2, w=2, op=0, what=w), thorough=dict(n=3, w=1), bounds=O19[w] + ": all specifications over 2 variables with at most 2 states a level; memory-owning scalar state")
    run("C19", f"op_w{w}", "c19_life.cpp", params=dict(n=1, w=1, what=w, gen2=0), thorough=dict(n=2, gen2=1), bounds=O19[w] + " of every combinator: all pairs of specifications over 1 variable")
    for k in (0, 1, 2): run("C19", f"gen_w{w}_k{k}", "c19_life.cpp", params=dict(n=4 if w == 4 else 5, w=2 if w == 4 else 3, what=w, kind=k, gen=1, nsym=1, far=20, dead=25), thorough=dict(nsym=2), bounds=O19[w] + " of every combinator over 5 (searching: 4) variables, state kind %d (scalar, constant hash, mixed); " % k + GEN)
for w in range(7): run("C19", f"ter_w{w}", "c19_life.cpp", params=dict(n=1 if w == 4 else 2, w=1, what=w), thorough=dict(n=2), bounds=O19[w] + " of every combinator on all ternary specifications over 2 (searching: 1) variables with one state a level", **T3)

# C04 ------------------------------------------------------------------
MP = dict(omp=1, race=1)
OP4 = ("construction", "reduction (all three rules)", "subsetting", "evaluation", "conversion between BDD and ZDD")
SCH = "schedules: base schedule (stay on a thread / rotate at every scheduling point) with the given number of deviations anywhere; scheduling points: loop chunk hand-out, critical, single, barriers, region start and end"
G4 = dict(gen=1, gen2=1, dead=6, far=15, nsym=0)
for op in (0, 2): run("C04", f"far_op{op}", "c04_mp.cpp", params=dict(n=5, w=2, op=op, craft=1, gen2=1, nsym2=0, seed2=2), ttime=3000, threads=2, delays=1, pbase=1, tdelays=2, base=1, bounds=OP4[op] + ": 5 variables, edges of different lengths above a dead node, either way round (on-the-fly sweeping); 2 threads, at most 1 deviation from rotating; " + SCH, **MP)
for op in range(5):
    run("C04", f"all_op{op}", "c04_mp.cpp", params=dict(n=2, w=2, op=op, gen2=1), thorough=dict(n=3, w=1) if op != 2 else {}, threads=2, delays=1, time=90, ttime=3000, bounds=OP4[op] + ": all binary specifications over 2 variables with at most 2 states a level, 2 threads, at most 1 deviation from staying; " + SCH, **MP)
    run("C04", f"gen_op{op}", "c04_mp.cpp", params=dict(G4, n=5, w=4, op=op, seed=3, kind=4), thorough=dict(nsym=2), ttime=3000, threads=2, delays=1, tdelays=2, base=1, bounds=OP4[op] + ": 5 variables, 4 states a level, specification and evaluator with working memory; 2 threads, at most 1 deviation from rotating; " + SCH, **MP)
    if op < 4: run("C04", f"d2_op{op}", "c04_mp.cpp", params=dict(G4, n=2 if op < 2 else 3, w=3, op=op, seed=7, kind=1, red=2), ttime=3000, threads=2, delays=2, tdelays=3, base=0, bounds=OP4[op] + ": 2 (subsetting, evaluation: 3) variables, 3 states a level, constant hash; 2 threads, at most 2 deviations from staying; " + SCH, **MP)
    run("C04", f"t3_op{op}", "c04_mp.cpp", params=dict(G4, n=3 if op == 4 else 4, w=4, op=op, seed=2, kind=2), ttime=3000, threads=3, delays=1, tdelays=2, base=1, bounds=OP4[op] + ": 4 (conversion: 3) variables, 4 states a level, mixed state; 3 threads, at most 1 deviation from rotating; " + SCH, **MP)
    if op < 4: run("C04", f"ter_op{op}", "c04_mp.cpp", params=dict(G4, n=3, w=4, op=op, seed=4, kind=3), ttime=3000, threads=2, delays=1, tdelays=2, base=1, bounds=OP4[op] + ": ternary, 3 variables, 4 states a level, array state; 2 threads, at most 1 deviation from rotating; " + SCH, defines=["ARITY_=3"], **MP)
    run("C04", f"t1_op{op}", "c04_mp.cpp", params=dict(n=2, w=2, op=op, gen2=1), threads=1, delays=0, bounds=OP4[op] + ": all binary specifications over 2 variables with at most 2 states a level, a single thread", **MP)
for op in (0, 2):
    run("C04", f"pool_op{op}", "c04_mp.cpp", params=dict(G4, n=3, w=3, op=op, seed=3, kind=5), ttime=3000, threads=2, delays=1, tdelays=2, base=1, pbase=1, bounds=OP4[op] + ": 3 variables, 3 states a level, states in memory of the specification of a thread, released level by level; 2 threads, at most 1 deviation from rotating; " + SCH, **MP)
    run("C04", f"poolb_op{op}", "c04_mp.cpp", params=dict(G4, n=4, w=3, op=op, seed=6, kind=5), ttime=3000, threads=2, delays=1, tdelays=2, base=0, pbase=1, bounds=OP4[op] + ": 4 variables, 3 states a level, states in memory of the specification of a thread, released level by level; 2 threads, at most 1 deviation from staying; " + SCH, **MP)
for sd in (1, 4, 6):
    for op in (0, 2): run("C04", f"sweep_op{op}_{sd}", "c04_mp.cpp", params=dict(gen=1, gen2=1, n=6, w=3, op=op, seed=sd, kind=0, dead=30, far=45, nsym=0), ttime=3000, threads=2, delays=1, tdelays=2, base=1, bounds=OP4[op] + ": 6 variables, 3 states a level, many dead nodes and far edges (on-the-fly sweeping); 2 threads, at most 1 deviation from rotating; " + SCH, **MP)
for op in range(4): run("C04", f"wide_op{op}", "c04_mp.cpp", params=dict(G4, n=6, w=24, op=op, seed=5, kind=1, red=2, every=99), ttime=3000, threads=2, delays=1, tdelays=1, base=0, bounds=OP4[op] + ": 6 variables, up to 24 states a level, constant hash; 2 threads, at most 1 deviation from staying; " + SCH, **MP)

# C21 ------------------------------------------------------------------
O21 = {0: "construction", 1: "zero-suppressed look-ahead", 2: "look-ahead", 3: "BDD unreduction", 4: "ZDD unreduction", 5: "conjunction", 6: "intersection", 8: "intersection (second operand)", 7: "subsetting", 9: "dumping"}
C21T = "; the states carry a cost that hashing and equality ignore, mergeStates keeps the cheaper or the dearer one"
for op in (0, 7, 9):
    for kind in range(3): run("C21", f"flat_op{op}_k{kind}", "c21_merge.cpp", params=dict(n=6, w=3, cost=3, op=op, gen=1, nsym=1, far=15, dead=12, flat=1, seeds=8, kind=kind, seed=kind + 2, seed2=kind + 2, cseed=op + 7 * kind), thorough=dict(nsym=2, seeds=20), ttime=3000, bounds=O21[op] + f": 6 variables, 3 states a level, costs 0..3, state kind {kind}, accepting states carry no cost (only states of inner levels are cut off); " + GEN + C21T)
    run("C21", f"flatall_op{op}", "c21_merge.cpp", params=dict(n=2, w=2, cost=1, op=op, flat=1, nsym2=0, seed2=2), thorough=dict(cost=2), ttime=3000, bounds=O21[op] + ": all specifications over 2 variables with at most 2 states a level, edge costs 0..1, accepting states carry no cost" + C21T)
for op in O21:
    run("C21", f"all_op{op}", "c21_merge.cpp", params=dict(n=2, w=2, cost=1, op=op, nsym2=0, seed2=2), thorough=dict(cost=2, nsym2=1), ttime=3000, bounds=O21[op] + ": all specifications over 2 variables with at most 2 states a level, every edge cost in 0..1" + C21T)
    run("C21", f"const_op{op}", "c21_merge.cpp", params=dict(n=2, w=2, cost=1, op=op, nsym2=0, seed2=2, hash=1, dear=0, kind=2), ttime=3000, thorough=dict(cost=2), bounds=O21[op] + ": the same with a constant hash function and mixed states; cheaper states are kept" + C21T)
    for kind in range(3): run("C21", f"gen_op{op}_k{kind}", "c21_merge.cpp", params=dict(n=5, w=3, cost=3, op=op, gen=1, nsym=2, far=15, dead=8, kind=kind, seed=kind + 2, seed2=kind + 2, cseed=op + 7 * kind), thorough=dict(nsym=3), ttime=3000, bounds=O21[op] + f": 5 variables, 3 states a level, costs 0..3, state kind {kind} (scalar, array, mixed); " + GEN + C21T)
    if op not in (5, 6, 8): run("C21", f"ter_op{op}", "c21_merge.cpp", params=dict(n=1 if op in (3, 4) else 2, w=1, cost=1, op=op, ncost=4, dear=0, nsym2=0, seed2=2), thorough=dict(dear=-1, ncost=99), ttime=3000, bounds=O21[op] + ": all ternary specifications over 2 (unreduction: 1) variables with one state a level, edge costs in 0..1 (4 of them arbitrary)" + C21T, **T3)
for op in (0, 1, 2, 3, 4, 7):
    for k, q in enumerate((dict(n=7, w=3, far=35, dead=30), dict(n=8, w=12, far=0, dead=40, acc=10), dict(n=7, w=10, far=0, dead=35, acc=15))): run("C21", f"sweep{k}_op{op}", "c21_merge.cpp", params=dict(q, cost=3, op=op, gen=1, nsym=0, seeds=12 if k == 0 else 60 if op in (0, 7) else 8, nsym2=0, seed2=5, dead2=3), thorough=dict(seeds=200), ttime=3000, bounds=O21[op] + ": %d variables, %d states a level, generated tables with many rejecting entries (the diagram is swept while accepting states are replaced)" % (q["n"], q["w"]) + C21T)
MT = "; multi-processor mode: states of the levels are merged, accepting states are not compared"
for op in (0, 7):
    for th in (1, 2): run("C21", f"mp{th}_op{op}", "c21_merge.cpp", params=dict(n=2, w=2, cost=1, op=op, mp=1, nsym2=0, seed2=2), threads=th, delays=0, base=1, omp=1, ttime=3000, thorough=dict(cost=2), bounds=O21[op] + f": all specifications over 2 variables with at most 2 states a level, every edge cost in 0..1, {th} thread(s) taking turns" + C21T + MT)
    run("C21", f"mpgen_op{op}", "c21_merge.cpp", params=dict(n=5, w=3, cost=3, op=op, gen=1, nsym=2, far=15, dead=8, kind=1, hash=1, seed=4, seed2=4, mp=1), threads=2, delays=0, base=1, omp=1, thorough=dict(nsym=3), ttime=3000, bounds=O21[op] + ": 5 variables, 3 states a level, costs 0..3, array states, constant hash function, 2 threads taking turns; " + GEN + C21T + MT)
    run("C21", f"mpsch_op{op}", "c21_merge.cpp", params=dict(n=4, w=2, cost=3, op=op, gen=1, nsym=0, far=15, dead=8, kind=0, hash=1, seed=4, seed2=4, mp=1), threads=2, delays=1, tdelays=2, base=0, omp=1, ttime=3000, bounds=O21[op] + ": 4 variables, 2 states a level, costs 0..3, 2 threads, at most 1 deviation from staying on a thread" + C21T + MT)

# C24 ------------------------------------------------------------------
for n in range(1, 9): run("C24", f"queens{n}", "c24_apps.cpp", params=dict(what=0, n=n, rooks=int(n < 8)), bounds=f"all placements on the {n} x {n} board: queens, " + ("rooks, " if n < 8 else "") + "fixed first queen, queens among the rooks")
for n in range(1, 7): run("C24", f"colored{n}", "c24_apps.cpp", params=dict(what=1, n=n), bounds=f"all colourings of the {n} x {n} board by {n} colours (queens)")
for n in range(1, 6): run("C24", f"latin{n}", "c24_apps.cpp", params=dict(what=1, n=n, rook=1), bounds=f"all colourings of the {n} x {n} board by {n} colours (rooks)")
for m in (1, 2, 3): run("C24", f"nary{m}", "c24_apps.cpp", params=dict(what=2, m=m, n=4), bounds=f"all words of length 4 over {m} letters and a blank")
for m in (1, 2, 3): run("C24", f"hot{m}", "c24_apps.cpp", params=dict(what=2, m=m, n=4, hot=1), bounds=f"all words of length 4 over {m} letters, one-hot")
run("C24", "inter", "c24_apps.cpp", params=dict(what=3, n=2, w=1, k=2), thorough=dict(w=2), ttime=3000, bounds="all pairs of families given by specifications over 2 variables with one state a level")
for sd in (1, 2, 3): run("C24", f"inter_gen{sd}", "c24_apps.cpp", params=dict(what=3, n=4, w=3, k=3, gen=1, nsym=1, far=20, dead=20, seed=sd), bounds="three families over 4 variables; " + GEN)
run("C24", "link22", "c24_apps.cpp", params=dict(what=4, m=2, n=2, pairs=1, maxBlank=2), bounds="all number link puzzles with one pair on the 2 x 2 board, at most 0..2 unused cells or any number")
run("C24", "link33", "c24_apps.cpp", params=dict(what=4, m=3, n=3, pairs=1, maxBlank=2), bounds="all number link puzzles with one pair on the 3 x 3 board")
for m, n in ((2, 3), (3, 2), (2, 4), (4, 2)): run("C24", f"link{m}{n}", "c24_apps.cpp", params=dict(what=4, m=m, n=n, pairs=2, maxBlank=2), thorough=dict(m=m + 1), ttime=3000, bounds=f"all number link puzzles with two pairs on the {m} x {n} board, at most 0..2 unused cells or any number")
run("C24", "link33b", "c24_apps.cpp", params=dict(what=4, m=3, n=3, pairs=2, maxBlank=0), bounds="all number link puzzles with two pairs on the 3 x 3 board, no unused cell or any number")

# C23 ------------------------------------------------------------------
run("C23", "all", "c23_load.cpp", params=dict(n=2, w=2), thorough=dict(n=3, w=1), ttime=3000, bounds="all descriptions of diagrams over 2 variables with at most 2 nodes a level; 3 orders of the lines, 4 styles of identifiers and spacing, two ranges of identifiers, first item 1 or 10")
for sd in (1, 2, 3): run("C23", f"gen{sd}", "c23_load.cpp", params=dict(n=5, w=4, gen=1, nsym=1, far=20, dead=15, seed=sd), thorough=dict(nsym=2), ttime=3000, bounds="descriptions of diagrams over 5 variables; 3 orders of the lines, 4 styles, two ranges of identifiers, first item 1 or 10; " + GEN)

# C25 ------------------------------------------------------------------
PK = "; calls of the package go to a model of it (truth tables over at most 6 variables, harness/sapporo), variable numbers and levels differ arbitrarily"
for wh, nm in ((0, "tobdd"), (1, "tozbdd")):
    run("C25", nm, "c25_sapporo.cpp", params=dict(what=wh, n=2, w=2, exist=2, off=1), thorough=dict(exist=3, off=2), ttime=3000, bounds="export of all diagrams over 2 variables with at most 2 nodes a level, offsets %s..1, 0..2 variables already in the package" % ("0" if wh == 0 else "-1") + PK)
    for red in (0, 1, 2): run("C25", f"{nm}_gen{red}", "c25_sapporo.cpp", params=dict(what=wh, n=4, w=3, exist=2, off=2, gen=1, nsym=1, far=15, dead=10, seed=red + 2, red=red), bounds="export of diagrams over 4 variables, offsets up to 2, 0..2 variables already in the package; " + GEN + PK)
    run("C25", f"{nm}_mp", "c25_sapporo.cpp", params=dict(what=wh, n=4, w=3, exist=2, off=2, gen=1, nsym=0, seed=3, mp=1), omp=1, threads=2, delays=0, base=1, bounds="export of diagrams over 4 variables in multi-processor mode: the package is called by one thread only" + PK)
run("C25", "bdd", "c25_sapporo.cpp", params=dict(what=2, n=2, off=2), thorough=dict(n=3), ttime=3000, bounds="import of every function of 2 variables, offsets 0..2" + PK)
run("C25", "bdd3", "c25_sapporo.cpp", params=dict(what=2, n=3, off=0, perm=0), bounds="import of every function of 3 variables" + PK)
run("C25", "zbdd", "c25_sapporo.cpp", params=dict(what=3, n=2, off=0), thorough=dict(n=3), ttime=3000, bounds="import of every family over 2 variables" + PK)
run("C25", "zbdd3", "c25_sapporo.cpp", params=dict(what=3, n=3, off=2, perm=0), bounds="import of every family over 3 variables, offsets 0..2, variable numbers equal to levels" + PK)
run("C25", "zbdd_neg", "c25_sapporo.cpp", params=dict(what=3, n=2, off=-1), bounds="import of every family over 2 variables, offset -1" + PK, maxviol=400)
run("C25", "bdd_neg", "c25_sapporo.cpp", params=dict(what=2, n=2, off=-1), bounds="import of every function of 2 variables, offset -1" + PK)
run("C25", "zbdd_off", "c25_sapporo.cpp", params=dict(what=3, n=2, off=2, offmin=1), bounds="import of every family over 2 variables, offsets 1..2, variable numbers and levels differ" + PK, maxviol=400)

# sweeps over many generated tables of different shapes ------------------
SHAPES = (dict(n=6, w=3, far=35, dead=20, nsym=1), dict(n=8, w=8, far=0, dead=35, acc=10, nsym=0), dict(n=5, w=2, far=20, dead=5, nsym=1), dict(n=9, w=4, far=60, dead=15, nsym=0))
def sweeps(pid, src, seeds=8, shapes=SHAPES, tag="sw", **more):
    defines = more.pop("defines", None); over = more.pop("over", {})
    for k, q in enumerate(shapes):
        par = dict(q, gen=1, seeds=seeds * (3 if q["nsym"] == 0 else 1), seed=31 * k + int(pid[1:]), **more); par.update(over)
        kw = dict(defines=defines) if defines else {}
        run(pid, f"{tag}{k}", src, params=par, thorough=dict(seeds=par["seeds"] * 6), ttime=2400, bounds="%d generated tables (%d variables, up to %d states a level, %d%% long skips, %d%% rejecting), %d arbitrary entries each; %s" % (par["seeds"], par["n"], par["w"], par["far"], par["dead"], par["nsym"], "arity %s" % defines[0][-1] if defines else "binary"), **kw)
for kind in (0, 3, 5): sweeps("C01", "c01_build.cpp", tag=f"sw_k{kind}_", kind=kind, seeds=40)
sweeps("C01", "c01_build.cpp", tag="sw_ter", kind=0, seeds=40, defines=["ARITY_=3"], shapes=SHAPES[:3])
for m, pid in ((0, "C02"), (1, "C03")):
    for red in (0, 1, 2): sweeps(pid, "c02_reduce.cpp", tag=f"sw{m}_{red}_", mode=m, red=red, seeds=20)
    sweeps(pid, "c02_reduce.cpp", tag=f"swt{m}_", mode=m, defines=["ARITY_=3"], shapes=SHAPES[:3], seeds=12, over=dict(n=5))
sweeps("C03", "c02_reduce.cpp", tag="swp_", mode=2, off=5, seeds=4, shapes=(dict(n=3, w=2, far=20, dead=10, nsym=1), dict(n=2, w=2, far=10, dead=30, nsym=2)))
sweeps("C05", "c05_subset.cpp", w2=3, seeds=2, over=dict(nsym=0)); sweeps("C05", "c05_subset.cpp", tag="sw_ter", w2=3, seeds=2, defines=["ARITY_=3"], shapes=SHAPES[:1] + SHAPES[2:3], over=dict(n=4, nsym=0, seeds=4))
for k in (0, 2): sweeps("C06", "c06_ops.cpp", tag=f"sw_k{k}_", kinds=k, seeds=3, over=dict(nsym=0))
for k in (0, 5): sweeps("C07", "c07_adapt.cpp", tag=f"sw_k{k}_", kind=k, seeds=4)
sweeps("C08", "c08_eval.cpp", seeds=16); sweeps("C09", "c09_card.cpp", step=30, seeds=20)
sweeps("C10", "c10_iter.cpp", inner=1, seeds=25); sweeps("C11", "c11_values.cpp", steps=1)
sweeps("C15", "c15_count.cpp", dd=1, kind=0, seeds=40); sweeps("C15", "c15_count.cpp", tag="sw_h", kind=5, seeds=40); sweeps("C15", "c15_count.cpp", tag="sw_find", what=1, seeds=2, shapes=(dict(n=4, w=2, far=25, dead=50, nsym=0),))
sweeps("C18", "c18_dump.cpp", tag="sw_dot", what=0); sweeps("C18", "c18_dump.cpp", tag="sw_dd", what=2, inner=1, seeds=4); sweeps("C18", "c18_dump.cpp", tag="sw_sap", what=3, inner=1)
for w in (0, 1, 2, 3, 5): sweeps("C19", "c19_life.cpp", tag=f"sw_w{w}_", what=w, op=0, seeds=4)
for wh in (0, 1): sweeps("C25", "c25_sapporo.cpp", tag=f"sw_{wh}_", what=wh, exist=1, off=1, seeds=12, shapes=(dict(n=5, w=3, far=30, dead=15, nsym=0), dict(n=4, w=4, far=0, dead=25, acc=10, nsym=1)))

# C26 ------------------------------------------------------------------
B26 = "; clause sorting, canonical clause numbers, no reachability analysis or one of three limits"
run("C26", "bdd2", "c26_cnf.cpp", params=dict(what=0, nv=2, nc=2, len=2, style=0), thorough=dict(nv=3), ttime=3000, bounds="all formulas of 2 clauses with 1-2 literals over 2 variables" + B26)
run("C26", "bddt", "c26_cnf.cpp", params=dict(what=0, nv=2, nc=1, len=2), thorough=dict(len=3), ttime=3000, bounds="all formulas of one clause with 1-2 literals over 2 variables, four text styles" + B26)
for nv, nc, ln, sd in ((4, 5, 2, 40), (5, 7, 3, 40), (7, 9, 3, 15), (6, 12, 2, 15)): run("C26", f"bdd_g{nv}_{nc}", "c26_cnf.cpp", params=dict(what=0, nv=nv, nc=nc, len=ln, seeds=sd, style=0), thorough=dict(seeds=sd * 5, nsym=1), ttime=3000, bounds=f"{sd} generated formulas of {nc} clauses with at most {ln} literals over {nv} variables; the assignment is symbolic" + B26)
run("C26", "bdd_s", "c26_cnf.cpp", params=dict(what=0, nv=4, nc=5, len=3, seeds=6, nsym=1, seed=3, style=3), thorough=dict(nsym=2), ttime=3000, bounds="6 generated formulas of 5 clauses over 4 variables with one arbitrary literal" + B26)
run("C26", "ztdd2", "c26_cnf.cpp", params=dict(what=1, nv=2, nc=2, len=2), thorough=dict(nv=3), ttime=3000, bounds="all formulas of 2 clauses with 1-2 literals over 2 variables, four text styles")
run("C26", "ztdd1", "c26_cnf.cpp", params=dict(what=1, nv=2, nc=1, len=4), thorough=dict(nv=3), ttime=3000, bounds="all clauses with 1-4 literals over 2 variables, four text styles")
run("C26", "ztdd3", "c26_cnf.cpp", params=dict(what=1, nv=2, nc=3, len=2, style=0), bounds="all formulas of 3 clauses with 1-2 literals over 2 variables")
for nv, nc, ln, sd in ((4, 6, 2, 150), (6, 9, 3, 100), (9, 14, 4, 40)): run("C26", f"ztdd_g{nv}", "c26_cnf.cpp", params=dict(what=1, nv=nv, nc=nc, len=ln, seeds=sd, style=0), thorough=dict(seeds=sd * 5, nsym=1), ttime=3000, bounds=f"{sd} generated formulas of {nc} clauses with at most {ln} literals over {nv} variables; the assignment is symbolic")
run("C26", "wrap", "c26_cnf.cpp", params=dict(what=2, nv=2), thorough=dict(nv=3), ttime=3000, bounds="CUDD wrapper: all pairs of functions of 2 and 1 variables")

# large diagrams --------------------------------------------------------
DEEP = dict(n=36, w=3, gen=1, far=15, dead=8, acc=6, nsym=1, seed=3)
BROAD = dict(n=9, w=100, gen=1, far=3, dead=3, acc=3, nsym=0, seed=3)
for nm, q, bt in (("deep", DEEP, "36 variables, 3 nodes a level; " + GEN), ("broad", BROAD, "9 variables, up to 100 nodes a level, one generated table; the assignment is fully symbolic"),
                  ("deeper", dict(DEEP, n=70, nsym=0), "70 variables, 3 nodes a level, one generated table; the assignment is fully symbolic"),
                  ("broader", dict(BROAD, n=12, w=1000, far=2, dead=1, acc=1), "12 variables, up to 1000 nodes a level, one generated table; the assignment is fully symbolic")):
    run("C01", "big_" + nm, "c01_build.cpp", params=dict(q, kind=3), maxinstr=120000000, bounds=bt)
    for m, pid in ((0, "C02"), (1, "C03")): run(pid, nm, "c02_reduce.cpp", params=dict(q, mode=m), maxinstr=120000000, bounds=bt)
    run("C05", nm, "c05_subset.cpp", params=dict(q, w2=3, kind=0), maxinstr=120000000, bounds=bt)
    if nm != "deeper": run("C06", nm, "c06_ops.cpp", params=dict(q, kinds=0), maxinstr=120000000, bounds=bt)
    if nm in ("deep", "broad"):
        for k in (0, 5): run("C07", nm + f"_k{k}", "c07_adapt.cpp", params=dict(q, kind=k, nsym=0), maxinstr=120000000, bounds=bt.replace("nsym", "no"))
    run("C08", nm, "c08_eval.cpp", params=dict(q), maxinstr=120000000, bounds=bt)
    run("C09", "big_" + nm, "c09_card.cpp", params=dict(q), maxinstr=120000000, bounds=bt)
    run("C11", nm, "c11_values.cpp", params=dict(q, steps=1), maxinstr=120000000, bounds=bt)
    run("C15", "big_" + nm, "c15_count.cpp", params=dict(q), maxinstr=120000000, bounds=bt)
    for w in (0, 2, 3) if nm != "broader" else (): run("C18", nm + f"_{w}", "c18_dump.cpp", params=dict(q, what=w, inner=int(w > 0)), maxinstr=120000000, bounds=bt)
    run("C19", nm, "c19_life.cpp", params=dict(q, what=0, op=0), maxinstr=120000000, bounds=bt)
    if nm == "broad":
        for op in (0, 7): run("C21", f"{nm}_op{op}", "c21_merge.cpp", params=dict(q, cost=3, op=op, seed2=2, nsym2=0, cseed=3), maxinstr=120000000, bounds=O21[op] + ": " + bt + C21T)
    run("C23", nm, "c23_load.cpp", params=dict(q), maxinstr=120000000, bounds=bt)
for t in range(5): run("C13", f"lrg{t}", "c13_paths.cpp", params=dict(type=t, gseeds=40, m=20, V0=9, seed=t + 20), thorough=dict(gseeds=400), ttime=2400, bounds=T13[t] + ": 40 generated graphs with 9 to 12 vertices and 20 edges (repetitions included), generated terminals; every edge set")
run("C14", "lrg", "c14_frontier.cpp", params=dict(gseeds=30, m=18, V0=9, seed=5), thorough=dict(gseeds=300), ttime=2400, bounds=F14 + "30 generated graphs with 9 to 12 vertices and 18 edges, generated colours and options; every edge set")
run("C14", "dlrg", "c14_frontier.cpp", maxinstr=120000000, params=dict(gseeds=30, m=20, V0=9, deg=1, common=1, seed=6), thorough=dict(gseeds=300), ttime=2400, bounds="degree constraint: 30 generated graphs with 9 to 12 vertices and 20 edges, generated common degree set; every edge set")
for i, (n, nc, md, sd) in enumerate(((6, 2, 1, 200), (8, 4, 1, 150), (12, 3, 1, 40), (9, 3, 2, 60), (14, 5, 1, 20))):
    run("C12", f"lgen{n}_{nc}", "c12_constraints.cpp", params=dict(n=n, which=10 + i % 2, nc=nc, wmode=md, win=1, seeds=sd, seed=i, subset=1), thorough=dict(seeds=sd * 10), ttime=2400, maxinstr=120000000, bounds=f"{sd} generated systems of {nc} linear constraints over windows of {n} items, weights " + ("-3..3" if md == 1 else "-1000..1000") + "; all subsets; directly and by subsetting")
run("C12", "size_l", "c12_constraints.cpp", params=dict(n=34, which=0, concrete=1, szs=1), maxinstr=120000000, bounds="34 items, ranges from 3, 31, 33 to one of them or one more, with steps 1-3; all subsets")
