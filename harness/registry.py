"""What runs for each property."""
CHECKS = {}


def check(pid, driver, judge, models=(), technique="", note="", assumptions=(), **kw):
    CHECKS[pid] = dict(driver=driver, judge=judge, models=list(models), technique=technique,
                       note=note, assumptions=list(assumptions), **kw)


check("C01", "union_find", "UnionFindTrace",
      models=[dict(module="UnionFindForest", emit="uf", tiers=("quick",)),
              dict(module="UnionFindForest", cfg="UnionFindForestDeep.cfg", emit="uf", tiers=("thorough",))],
      technique="TLA+ partition machine refined by a parent-forest model; TLC-generated and random histories replayed into the code",
      note="Forest model exhaustive for 4 items and all request histories to the stated depth; the code is checked on those histories, on seeded longer ones and on up to 130 items united by name so that trees grow deep.")

check("C02", "bucket_queue", "BucketQueueTrace",
      models=[dict(module="BucketQueueScan", emit="bq", tiers=("quick",)),
              dict(module="BucketQueueScan", cfg="BucketQueueScanDeep.cfg", emit="bq", tiers=("thorough",))],
      technique="TLA+ priority-map machine and upward-scan model; TLC-generated and random interleavings replayed into the code",
      note="Scan model exhaustive for 2 items, 3 priorities, all histories to the stated depth; code checked on those and on seeded longer interleavings with several live iterators, up to 200 items and priorities to 30000 either way.")

check("C03", "int_heap", "IntHeapTrace",
      models=[dict(module="FlatHeapModel", emit="fh"),
              dict(module="FlatHeapModel", cfg="FlatHeapModelBig.cfg")],
      technique="TLA+ set-with-minimum machine refined by a high/low-half model; histories replayed into every heap variant",
      note="One level of the recursive layout is explored exhaustively (the induction step); code checked on all variants with keys up to 512 bits, logged by rank.")

check("C04", "sorted_set", "SortedSetTrace",
      models=[dict(module="SortedSetLazy", emit="ss", tiers=("quick",)),
              dict(module="SortedSetLazy", cfg="SortedSetLazyDeep.cfg", emit="ss", tiers=("thorough",))],
      technique="TLA+ keyed-set machine refined by a lazy-merge model; TLC-generated and random histories replayed into the code",
      note="Lazy-merge model exhaustive for 2 items with changing keys to the stated depth; code checked on those and on seeded longer histories.",
      assumptions=["update() is only called on members, and a member's sort key changes only together with update()"])

check("C05", "seq_plain", "SequenceTrace",
      models=[dict(module="LinkedList", emit="ll", tiers=("quick",)),
              dict(module="LinkedList", cfg="LinkedListDeep.cfg"),
              dict(module="LinkedList", cfg="LinkedListLong.cfg", emit="ll", tiers=("thorough",))],
      technique="TLA+ sequence machine refined by a doubly-linked-list model; TLC-generated and random edit histories replayed into the code",
      note="Linked-list model exhaustive for 3 and 4 items to the stated depth; code checked on the 3-item histories, fully observed, and on seeded longer ones including refused edits.")

check("C06", "seq_ordered", "SequenceTrace",
      models=[dict(module="OrderTags", cfg="OrderTagsAll.cfg"),
              dict(module="OrderTags", cfg="OrderTagsRange.cfg", tiers=("thorough",)),
              dict(module="OrderTags", cfg="OrderTagsRangeSmall.cfg"),
              dict(module="LinkedList", emit="ll")],
      technique="TLA+ sequence machine with position comparison, plus a tag-relabelling model for both schemes; histories replayed into both implementations",
      note="Relabelling model exhaustive for 4 items in a 16/32-tag space; code checked with full-size tags by forcing hundreds of insertions at one point.")

check("C07", "partition", "PartitionTrace",
      models=[dict(module="PartitionModel", emit="pr"),
              dict(module="PartitionModel", cfg="PartitionModelWide.cfg")],
      technique="TLA+ partition machine with named blocks, a two-map model checked against the coarsest-refinement meaning; histories replayed into the code",
      note="Two-map model exhaustive for 3 and 4 elements and all histories to depth 3; code checked on those, fully observed after each step, on seeded longer histories and on some with 300 elements.",
      assumptions=["no refinement after freezing", "blocks emptied by removals may or may not stay listed"])

check("C08", "frequency", "FrequencyTrace",
      models=[dict(module="MisraGries", emit="mg"), dict(module="MisraGries", cfg="MisraGriesWide.cfg")],
      technique="TLA+ frequency contract over exact counts, checked on the counter scheme exhaustively; every stream prefix of the code judged by TLC",
      note="Counter scheme exhaustive for all streams of 3 keys to length 7 and 4 keys to length 8; code judged after every element of those streams and of seeded longer ones.")

check("C09", "svgdoc", "SvgDocTrace",
      models=[dict(module="SvgModel", emit="svg")],
      technique="TLA+ document machine (open-element stack and prescribed markup); the writer's output is tokenised and judged against the calls",
      note="All nesting orders of four kinds of call to depth 5, plus seeded longer scripts with arbitrary coordinates and styles; markup compared attribute by attribute.",
      assumptions=["labels and style values are already safe for XML, as documented"])

check("C10", "matrix_search", "MatrixSearchTrace",
      models=[dict(module="SmawkModel", emit="sm33"),
              dict(module="SmawkModel", cfg="SmawkModel44.cfg", emit="sm44"),
              dict(module="SmawkModel", cfg="SmawkModel25.cfg", emit="sm25"),
              dict(module="OnlineMinima", emit="om4"),
              dict(module="OnlineMinima", cfg="OnlineMinima5.cfg", emit="om5"),
              dict(module="OnlineMinima", cfg="OnlineMinima42.cfg", emit="om42", tiers=("thorough",))],
      technique="TLA+ definition of column minima; both algorithms modelled and run by TLC on every small totally monotone matrix, the same matrices replayed into the code",
      note="All totally monotone 3x3 (3 values), 4x4 (2 values), 2x5 (3 values) matrices and all triangular 4- and 5-position cost tables, plus seeded larger ones (to 130 rows, 100 columns and 80 positions), value-dependent costs and arbitrary query orders.")

check("C11", "regex", "AutomataTrace",
      models=[dict(module="RegexModel", emit="rx"), dict(module="RegexText", emit="rt"),
              dict(module="RegexText", cfg="RegexText6.cfg", tiers=("thorough",))],
      technique="TLA+ grammar and two semantics for expressions (derivatives, position automaton) checked against each other; TLC-generated expressions replayed into the code and compared by canonical minimal automata",
      note="Every expression with at most 3 leaves over two symbols, every text of at most 5 characters, plus seeded larger ones with escapes and redundant parentheses; the code's recognizer is compared as a language, not only on sample strings.",
      assumptions=["text with a bare + or * in an operand position is not judged unless a parenthesis or escape is broken too"])

check("C12", "lang_algebra", "AutomataTrace",
      models=[dict(module="AlgebraModel", emit="al"), dict(module="AlgebraModel", cfg="AlgebraModelUnary.cfg", emit="alu"),
              dict(module="AlgebraModel", cfg="AlgebraModelDeep.cfg", tiers=("thorough",))],
      technique="TLA+ algebra of canonical automata, kept next to plain sets of words through every session of operations on all two-state languages; the model's sessions and random ones run in the code, each result and each comparison judged exactly",
      note="Model exhaustive for all pairs of two-state languages over two symbols with one operation (thorough: two) and over one symbol with two; code judged on a quarter of those sessions (thorough: all). Seeded sessions over expressions, deterministic and nondeterministic tables with compositions of up to four operations and all six comparisons; each verdict is exact for the languages involved.",
      assumptions=["comparing a language with something that is not a language is not judged"])

check("C13", "minimize", "AutomataTrace",
      models=[dict(module="HopcroftModel", emit="hop"),
              dict(module="HopcroftModel", cfg="HopcroftModel4.cfg", tiers=("thorough",))],
      technique="TLA+ worklist-refinement model checked against Moore equivalence on every small DFA and every splitter order; the code's minimal automata compared with canonical ones",
      note="Refinement model exhaustive for all 3-state (thorough: 4-state) two-symbol DFAs; code checked on all of those, and on seeded automata to 12 states.")

check("C14", "extract", "AutomataTrace",
      models=[dict(module="ElimModel", emit="el1"), dict(module="ElimModel", cfg="ElimModel22.cfg", emit="el2")],
      technique="TLA+ state-elimination model on every 2-state automaton and elimination order; the code's extracted expressions are parsed by the specification and compared as languages",
      note="All 2-state automata over one and two symbols plus seeded ones to 4 states; expressions, conversions and printed listings compared as languages.",
      assumptions=["symbols are single ordinary characters", "the empty language has no expression, reported as None"])

check("C15", "dfs", "DFSTrace",
      models=[dict(module="DfsModel", emit="dg"),
              dict(module="DfsModel", cfg="DfsModel4.cfg", tiers=("thorough",))],
      technique="TLA+ machine over reported arcs, an iterative-stack model checked against it for every child and root order; the code's event streams judged step by step",
      note="Model exhaustive for all 3-vertex digraphs with loops (thorough: 4 vertices) and all orders; code judged on all of those and on seeded digraphs to 40 vertices and a 3000-vertex path.",
      assumptions=["no repeated neighbour in an adjacency list"])

check("C16", "orders", "GraphOrdersTrace",
      models=[dict(module="LexBfsModel", emit="ug4"), dict(module="LexBfsModel", cfg="LexBfsModel5.cfg", emit="ug")],
      technique="TLA+ partition-refinement model of the lexicographic search on every small graph and every choice; levels and orders from the code judged against distances and the lexicographic rule",
      note="Model exhaustive for all graphs on 4 and 5 vertices; code judged on all of those with every root, and on seeded graphs to 20 and some to 130 vertices.",
      assumptions=["lexicographic search is asked only of undirected graphs"])

check("C17", "chordal", "GraphOrdersTrace",
      models=[dict(module="LexBfsModel", emit="ug4"), dict(module="LexBfsModel", cfg="LexBfsModel5.cfg", emit="ug")],
      technique="TLA+ model tying lexicographic orders, simplicial elimination and the chordless-cycle definition together on every small graph; the code's answers and orders judged against it",
      note="Equivalence of the three characterisations is model-checked for all graphs to 5 vertices; code judged on those and on seeded chordal and nearly chordal graphs to 14 and some to 60 vertices.")

BLOCK_MODELS = [dict(module="BlockModel"), dict(module="BlockMeaning", emit="ug"),
                dict(module="BlockModel", cfg="BlockModel5.cfg", tiers=("thorough",), limit=400)]

check("C18", "bicon", "BiconnectedTrace", models=BLOCK_MODELS,
      technique="TLA+ low-point model of the search on every small graph and order, the judging definition itself checked against the cycle definition; components from the code judged exactly",
      note="Low-point model exhaustive for all 4-vertex (thorough: 5-vertex) graphs and all search orders; code judged on all 5-vertex graphs under several orders and on seeded glued-block graphs to 30 and some to 70 vertices.")

check("C19", "storient", "BiconnectedTrace", models=BLOCK_MODELS,
      technique="TLA+ model of relating edges through low points on every small graph and search order; orientations from the code judged exactly",
      note="Edge-relating model exhaustive for all 4-vertex (thorough: 5-vertex) graphs and all search orders; code judged on all 5-vertex graphs under several orders, on seeded ear graphs, graphs to 70 vertices and near misses.",
      assumptions=["nothing is promised for graphs without an edge"])

check("C20", "strong", "GraphFactsTrace",
      models=[dict(module="DfsModel", emit="dg"), dict(module="DfsModel", cfg="DfsModel4.cfg", emit="dg4", limit=300)],
      technique="TLA+ model of the shared-low-value component bookkeeping on every small digraph and search order; components and condensations from the code judged against mutual reachability",
      note="Bookkeeping model exhaustive for all 3-vertex digraphs with loops and 4-vertex digraphs without, all search orders; code judged on those (a quarter of the larger in quick) and on seeded digraphs to 30 and some to 130 vertices.")

check("C21", "bipartite", "GraphFactsTrace",
      models=[dict(module="GraphMeaning", emit="ug")],
      technique="TLA+ definitions of odd cycles, colourings and odd core checked against each other on every small graph; the code's answers judged exactly",
      note="Judging definitions checked against cycle enumeration on all 5-vertex graphs; code judged on all of those and on seeded graphs with odd and even pieces to 18 and some to 70 vertices.")

check("C25", "degeneracy", "GraphFactsTrace",
      models=[dict(module="GraphMeaning", emit="ug")],
      technique="TLA+ pruning definition of cores checked against the all-subgraphs definition on every small graph; removal orders, cores, orientations and triangles from the code judged exactly",
      note="Judging definitions checked on all 5-vertex graphs; code judged on all of those and on seeded graphs to 18 and some to 130 vertices with every k up to 6.",
      assumptions=["degeneracy is asked only of graphs with a vertex"])

check("C26", "mst", "GraphFactsTrace",
      models=[dict(module="KruskalModel", emit="kr")],
      technique="TLA+ Kruskal model with every tie order and an exchange criterion proved by enumeration to accept exactly the lightest forests; the code's forests judged by that criterion",
      note="Model exhaustive for all 4-vertex graphs with weights 1..2; code judged on those and on seeded graphs to 16 and some to 130 vertices with ties, negative and fractional weights.",
      assumptions=["weights are comparable numbers"])

check("C22", "bip_matching", "MatchingTrace",
      models=[dict(module="AugmentModel", emit="b33"), dict(module="AugmentModel", cfg="AugmentModel43.cfg", emit="b43"),
              dict(module="AugmentModel", cfg="AugmentModel34.cfg", emit="b34")],
      technique="TLA+ model of layered augmentation with every search order on every small bipartite graph; the code's matchings judged with their own independent-set certificate",
      note="Layered model and the perfect-matching edge test exhaustive for 3x3, 4x3 and 3x4; code judged on all of those (a third of the larger in quick) and on seeded graphs to 20+20 vertices.")

check("C23", "gen_matching", "MatchingTrace",
      models=[dict(module="BergeModel", emit="mm")],
      technique="TLA+ augmenting-path model from every matching of every small graph proving the barrier certificate exact; the code's matchings judged with barriers",
      note="Model exhaustive for all 5-vertex graphs and matchings; code judged on all of those, on every 6- and 7-vertex graph up to isomorphism, and on seeded nested odd cycles to 22 vertices, long paths, long odd cycles with tails to 45, and nests a thousand deep. Barriers are proposed by the recorder and verified by TLC.")

check("C24", "cubic_ham", "HamiltonTrace",
      models=[dict(module="HamSearch", emit="sub"), dict(module="HamSearch", cfg="HamSearch6.cfg", tiers=("thorough",))],
      technique="TLA+ model of the forcing/removing backtracking search proving that open subproblems partition the cycles; the code's enumerations compared with the path-extension definition",
      note="Search model exhaustive for all 5-vertex graphs of maximum degree 3 (thorough: all cubic 6-vertex graphs, any deduction and branching order); code judged on all those, every graph up to 7 vertices up to isomorphism, cubic families and seeded subcubic graphs to 14 vertices.")

check("C27", "topo", "OrdersTrace",
      models=[dict(module="TopoModel", emit="d3"), dict(module="TopoModel", cfg="TopoModel4.cfg", emit="d4")],
      technique="TLA+ model of reversed finishing order and back-to-front reach sets over every small digraph and search order; recorded orders, verdicts and closures judged against the definitions",
      note="Model exhaustive for all 3-vertex digraphs with loops and 4-vertex digraphs without; code judged on those (half of the 4-vertex ones in quick) with every candidate sequence on part of the 3-vertex ones, and on seeded digraphs to 25 and some to 110 vertices.")

check("C28", "dilworth", "OrdersTrace",
      models=[dict(module="DilworthModel", emit="dag"), dict(module="DilworthModel", cfg="DilworthModel5.cfg", tiers=("thorough",))],
      technique="TLA+ model of chain covers as matchings with any augmentation order on every small acyclic graph, proving covers and antichains meet; the code's covers and antichains judged with touching sets, antichains and chain covers",
      note="Model exhaustive for all 543 acyclic graphs on 4 vertices (thorough: 29281 on 5); code judged on those in several listing orders and on seeded acyclic graphs to 18 and some to 60 vertices. Certificates are proposed by the recorder and verified by TLC.")

check("C29", "twosat", "TwoSatTrace",
      models=[dict(module="TwoSatModel", emit="s2"), dict(module="TwoSatModel", cfg="TwoSatModel3.cfg", emit="s3"),
              dict(module="TwoSatModel", cfg="TwoSatModel34.cfg", tiers=("thorough",))],
      technique="TLA+ model of limited backtracking and of the implication-reachability test against all assignments on every small instance; recorded answers judged by that test",
      note="Exhaustive over all 4096 instances on 2 variables and all instances with at most 3 (thorough: 4) implications on 3 variables; code judged on a third of those (thorough: all) and on seeded instances to 25 and some to 130 variables.")

check("C30", "media", "MediaTrace",
      models=[dict(module="MediaMeaning", emit="mm"), dict(module="RoutingModel"), dict(module="RoutingModel", cfg="RoutingModel5.cfg", tiers=("thorough",))],
      technique="TLA+ definition of media proved equal to the token axioms on every 3-bit family, and a model of pointer-and-list routing along every walk; recorded systems, graphs, routes and coordinates judged against the token system computed by the specification",
      note="Definition exhaustive over all 255 families of 3-bit vectors; routing model exhaustive on 4-vertex (thorough: 5-vertex) partial cubes. Code judged on all those families, seeded families to 6 bits and corrupted labelled graphs; transition graphs, routes and coordinates of families of up to 256 states by differing bits, a test proved equal on the small ones.")

check("C31", "partial_cube", "MediaTrace",
      models=[dict(module="MediaMeaning", emit="gg"), dict(module="RoutingModel")],
      technique="TLA+ half-space definition of partial cubes proved equal to the existence of an isometric cube embedding on every 5-vertex graph; recorded verdicts, labels and coordinates judged by that definition",
      note="Definition exhaustive over all 5-vertex graphs; code judged on all of them, on every graph to 7 vertices up to isomorphism, and on seeded and named partial cubes and near misses to 24 and some beyond a hundred vertices.")

check("C32", "halin", "HalinTrace",
      models=[dict(module="HalinModel"), dict(module="HalinModel", cfg="HalinModel7.cfg", emit="at")],
      technique="TLA+ model of triangle and path reductions in every order against direct definitions of Halin graphs and wheels; recorded verdicts, leaf sets, cycles and reconstructions judged by the definitions",
      note="Confluence and verdicts model-checked on all 6-vertex graphs of minimum degree 2 and all graphs to 7 vertices up to isomorphism; code judged on the latter in several labellings and on seeded Halin graphs, reducible graphs and near misses to 12 vertices by definition, and to 40 by marked reductions (proved equal on the small ones) and proposed leaf sets.")

check("C33", "xyz", "XyzTrace",
      models=[dict(module="ColourModel", cfg="ColourModel4.cfg", emit="c4"), dict(module="ColourModel", cfg="ColourModel6.cfg", emit="c6"),
              dict(module="ColourModel", cfg="ColourModel8.cfg", emit="c8")],
      technique="TLA+ model of direction choices along vertex orders proving each split into matchings is produced once, and that generic positions decide embeddability; recorded partitions, embeddings and point-set verdicts compared with the sets computed by the specification",
      note="Model exhaustive for all labelled cubic graphs on 4 and 6 vertices and the cube, every admissible order; code judged on those, all point sets in the 2x2x2 grid, seeded cubic graphs to 12 vertices (thorough: 16) and point sets.")

check("C34", "walks", "WalksTrace",
      models=[dict(module="GadgetModel")],
      technique="TLA+ model of the label-splitting gadget under every grouping; recorded cyclic edges, reachable pairs and shortest walks judged against walks defined on labelled arcs",
      note="Gadget exhaustive for up to 9 labels; code judged on all 256 two-vertex two-label graphs with every query, a fifth (thorough: all) of the three-vertex ones, and seeded graphs to 10 vertices and 13 labels, some to 35 vertices and 40 labels.")

check("C35", "graph_text", "GraphTextTrace",
      models=[dict(module="TextModel", emit="txt"), dict(module="TextModel", cfg="TextModel5.cfg", tiers=("thorough",))],
      technique="TLA+ decoders for every format; writers of the two packed formats modelled with every emission choice and proved to decode to the graph written; recorded readings of generated and corrupted texts compared with the decoders",
      note="Writers exhaustive for every graph with at most 4 (thorough: 5) vertices; code judged on those texts, on all short packed texts for up to 8 vertices (a sample of two-unit ones in quick), and on seeded, large and corrupted documents of all seven formats (graphs inside graphs, sections of other programs, names repeated between kinds of objects) given as strings, sequences and files.")

check("C36", "graph_tools", "GraphToolsTrace",
      models=[dict(module="HeapModel", emit="heap"), dict(module="HeapModel", cfg="HeapModel3.cfg"), dict(module="FamilyModel")],
      technique="TLA+ model of graphs as owned cells under every short history of copies, subgraphs, unions and writes, and of the families drawn from their definitions; recorded histories re-read after every call and families compared with the definitions",
      note="Heap model exhaustive for 2-vertex graphs to depth 3; families model-checked for parameters to 8 with order, girth, diameter and sides of the named graphs. Code judged on those histories, all 3-vertex digraphs, seeded histories to 9 vertices, and families to 39 (quick: 19).")

check("C37", "lca", "AncestorsTrace",
      models=[dict(module="CartesianModel", emit="seq"), dict(module="EulerModel", emit="tree"),
              dict(module="CartesianModel", cfg="CartesianModel7.cfg", tiers=("thorough",))],
      technique="TLA+ models of the stack scan that turns range minima into ancestors and of the tour and folding walk that turn ancestors into range minima, on every small sequence and tree; every query of the code judged against direct minima and ancestor chains",
      note="Models exhaustive for sequences to length 5 over 3 values (thorough: 7 over 4) and all trees to 6 nodes with any child order; code judged on all of those with every query, all plus-minus-one sequences to length 8, seeded ones to 130, and long or deep inputs to 1500.")

check("C38", "subseq", "SubseqTrace",
      models=[dict(module="PatienceModel", emit="seq"), dict(module="LcsModel", emit="ab3"), dict(module="LcsModel", cfg="LcsModel5.cfg", emit="ab5"),
              dict(module="PatienceModel", cfg="PatienceModel7.cfg", tiers=("thorough",))],
      technique="TLA+ models of the piles and of every walk back through the table, with lengths and preferred ends proved equal to search over all subsets; recorded answers judged by those lengths and ends",
      note="Exhaustive for sequences to length 5 over 4 values (thorough: 7) and pairs to length 3 over 3 and length 5 over 2 symbols; code judged on those (half of the last in quick) and on seeded ones to length 40 and some to 200, with equal values told apart by position.")

check("C39", "lyndon", "LyndonTrace",
      models=[dict(module="DuvalModel"), dict(module="FactorModel", emit="w3"), dict(module="FactorModel", cfg="FactorModel9.cfg", emit="w2")],
      technique="TLA+ models of generation by successive words and of two-pointer factorisation against the suffix definition, uniqueness over all splits and the counting formula; recorded lists, counts, factors and rotations judged by the definition",
      note="Generation exhaustive for up to 3 letters and length 5, factorisation for all words to length 6 over 3 and 9 over 2 letters; code judged on all those words, every alphabet to 8 letters with at most 1100 words (thorough: 4100), counts to length 30 and, by the divisor relation in long arithmetic, for up to 256 letters and length 36 or 60, and seeded words to length 30.",
      assumptions=["generated words are read before the next one is asked for"])

check("C40", "int_parts", "IntPartsTrace",
      models=[dict(module="PartsModel", emit="parts"), dict(module="PartsModel", cfg="PartsModel14.cfg", tiers=("thorough",))],
      technique="TLA+ models of the successor rules proving each goes to the very next partition of its kind, with counting recurrences checked against enumeration; recorded lists judged for membership, order and number, conjugates against the transposed diagram",
      note="Successor rules exhaustive to n = 9 (thorough: 14) for all, binary and fixed-length partitions; code judged on complete lists to n = 17 (thorough: 22) with every number of parts, binary ones to 59 (thorough: 89), seeded fixed-length ones to 80.",
      assumptions=["generated partitions are read before the next one is asked for, as documented"])

check("C41", "changes", "ChangesTrace",
      models=[dict(module="SweepModel")],
      technique="TLA+ model of the recursive sweeps and of a machine carrying out their changes, which keeps to its kind, never returns and sees every object; recorded visits and change sequences judged for kind, number, distinctness and moves",
      note="Sweeps exhaustive to 6 items for permutations and involutions and 4 for doubled ones; code judged on complete lists to 8 items, involutions to 11, doubled and Stirling permutations to 6, on the beginnings of lists for up to 40 items, and over several item types and iterables.",
      assumptions=["each list is read before the next one is asked for, as documented"])

check("C42", "numbers_", "NumbersTrace",
      models=[dict(module="SieveModel")],
      technique="TLA+ models of both incremental sieves, with handed-out factorisations in cells that the sieve must not write to again; recorded sessions of several streams, queries and re-reads judged by trial division, with the practical criterion proved equal to the definition by divisor sums",
      note="Sieves run to 300 in the model; code judged on streams of 900 primes, 360 practical numbers, 1600 factorisations and 2400 Moebius values (thorough: four times as many), longer single streams of 5000 integers and 2000 primes, seeded sessions of up to six interleaved streams, and factorisations of up to a hundred bits whose last prime lies next to the bound.",
      assumptions=["the Moebius function is asked for positive integers"])

check("C43", "points", "PointsTrace",
      models=[dict(module="HullModel"), dict(module="HullModel", cfg="HullModel100.cfg", tiers=("thorough",))],
      technique="TLA+ model of the growing hull with the nearest point beyond each edge, under every order of equally near points; recorded enumerations judged ring by ring against all points of the grid",
      note="Model explores every tie order to squared distance 50 (thorough: 100); code judged on the first 110000 points (thorough: 300000) and on seeded interleavings of up to four enumerations.")

check("C44", "wrapping", "WrapTrace",
      models=[dict(module="WrapModel", emit="wrap"), dict(module="WrapModel", cfg="WrapModelAll.cfg", tiers=("thorough",))],
      technique="TLA+ model setting a paragraph line by line over all arrangements, the least total proved equal to the recurrence and the best line start proved never to move back; recorded lines read back as parts of the text and their total compared with the least",
      note="Model exhaustive for up to 4 parts of length 1 or 2 with option sets and two ways of measuring; code judged on part of those (thorough: all), on odd texts with dashes and initials, and on seeded texts to 60 words (some to 200) with every option and seven ways of measuring varied.",
      assumptions=["penalties are not negative and widths add up", "capital letters are those of ASCII"])

check("C45", "sudoku_", "SudokuTrace",
      models=[dict(module="SolveModel"), dict(module="SolveModel", cfg="SolveModelAll.cfg", tiers=("thorough",))],
      technique="TLA+ model of a solver applying singles, alignments, locked sets, whole placements, chains and ambiguous-rectangle avoidance in any order on four-by-four puzzles; the solutions of every recorded nine-by-nine puzzle are found by a search inside the specification and every step of the code is judged against all of them",
      note="Model over a sample of the four-clue puzzles of size four (thorough: a tenth of all); code judged after every deduction on known hard and seeded minimal puzzles with one, several or no solutions, with all rules and with seeded subsets of them, on every ordered pair of clashing clues, and on enumeration, formats, rearrangement and generation.",
      assumptions=["rules that assume a unique solution are switched on only for puzzles with one"])

check("C46", "packing", "PackingTrace",
      models=[dict(module="PackModel", emit="packs")],
      technique="TLA+ model of triangulated disks grown by splits and diagonal exchanges, with placement of their circles in every order; its disks are packed by the code and the recorded centres and radii judged by TLC in exact long fixed point",
      note="Disks of up to 7 circles from the model (rims of 3 to 5, one exchange), random disks up to 20 circles, grids, strips up to 1100 internal circles; tangency judged to one part in 250000 of the squared distance.",
      assumptions=["internal circles hang together; circles are judged at nine decimal places"])

check("C47", "calls", "CallsTrace",
      models=[dict(module="CallsModel", emit="calls")],
      technique="TLA+ model of iterations with buffers of their own and plain calls on shared arguments, explored over every interleaving (a shared buffer, work on the argument itself or an answer kept and handed out again is refuted); its schedules are replayed with pairs of real iterations and a call, and every answer is judged against the same task run alone in a process of its own",
      note="Schedules of two iterations of three steps, two calls and changes made to their answers by the caller; about 190 tasks over all modules with shared argument objects, arguments compared after every event, answers read again at the end.",
      assumptions=["lists that generators reuse are read before the next one is asked for"])

check("C48", "solverlog", "SolverLogTrace",
      models=[dict(module="LogModel", emit="logs")],
      technique="TLA+ specification in which every message of the solver is a transition on grid, possible digits and stack of trial branches; a model explores a solver next to a reader of its messages (a branch copied in any other way is refuted) and its calls are replayed on the code, whose recorded messages must lead to the recorded state and be true when given",
      note="9261 behaviours of three placements or eliminations, seeded longer ones, and the accounts of solving and enumerating known hard, minimal, several-solution and contradictory puzzles with all rules and subsets of them.",
      assumptions=["grounds are judged for singles, alignments, pairs, triples, places for sets of digits and whole placements of a digit; the prose of the longer chain arguments is not interpreted"])

check("C49", "program", "ProgramTrace",
      models=[dict(module="ProgramModel", emit="programs")],
      technique="TLA+ model of a run of the program on four-by-four puzzles (options, reading, deductions in any order, search, report); every option set of the model is given to the real program as a process of its own, and the grids and report it writes are judged against the solutions found by the specification's own search",
      note="128 option sets on seeded puzzles in all formats and ways of writing the input, puzzles with several or no solutions, rearrangement and generation, and comparison of levels over pools of puzzles.",
      assumptions=["uniqueness rules are left on only for puzzles with one solution", "help texts and the exact layout are not judged"])

check("C50", "rest", "RestTrace",
      models=[dict(module="RestModel"), dict(module="RestGen", emit="rest"), dict(module="RestModel", cfg="RestModelMore.cfg", tiers=("thorough",))],
      technique="TLA+ specification of what each rule of the solver still concludes from a state; a model draws the conclusions in any order on four-by-four puzzles and compares them with plain readings, another forms full-size states by ruling out digits, and the states in which the code reports no progress with a selection of rules must leave nothing to conclude",
      note="Model over four clue sets (thorough: a thirty-seventh of all sets of five clues) with one digit ruled out; 400 full-size states replayed with every rule, and seeded puzzles with one or several solutions thinned out at random or towards locked sets and alignments, with single rules and selections.",
      assumptions=["a solution is still possible in the state; uniqueness rules are on only for puzzles with one solution", "rules for cycles and paths of two-way alternatives and for trapezoids are judged only by the two-satisfiability rule and by soundness"])
