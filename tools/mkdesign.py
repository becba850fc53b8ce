#!/usr/bin/env python3
"""Rewrites /verif/DESIGN.md: design_head.md, one section per property (from the registry,
the property texts, the planted bugs and the last evidence), findings, design_tail.md."""
import glob
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(ROOT, "tools")
sys.path.insert(0, os.path.join(ROOT, "harness"))
import registry  # noqa: E402

# What the specification holds as state and how it decides.
ORACLE = {
 "C01": "State: the partition into sets with their names. A union merges blocks; the name must be a member and may change only when a block grows. `UnionFindForest` is a parent forest with weights and path compression whose roots must give the same partition.",
 "C02": "State: a map from items to priorities and, per live iterator, nothing more than that it exists. A pop must name an item of least priority at that moment. `BucketQueueScan` is the scan over buckets that starts again from the bottom.",
 "C03": "State: a finite set (keys recorded by rank, so 64-bit keys fit). `FlatHeapModel` splits a key into halves with a summary set, one level of the recursion.",
 "C04": "State: members with current keys. An iteration must list them once each in order of the current keys. `SortedSetLazy` keeps a sorted list, pending additions and removals that are merged when iterated.",
 "C05": "State: a sequence. Every edit, index, successor and predecessor is a function of it; illegal edits must be refused and change nothing. `LinkedList` has next and previous maps with a sentinel.",
 "C06": "Same state as C05 with comparison by position. `OrderTags` explores both relabelling schemes in a tiny tag space, where overflow happens at once; the code is driven into overflow of its real tags by repeated insertion at one place.",
 "C07": "State: blocks with the identity of their sets. A refinement must report each split block once, as (inside, outside). `PartitionModel` has the two maps and is checked against 'separated by some refining set since placed together'.",
 "C08": "State: exact counts. After every arrival every estimate must be between count minus accuracy times length and count, in exact rational arithmetic.",
 "C09": "State: stack of open groups and the elements due. The written text is tokenised; each token must be the next due one, attribute by attribute with coordinates in ten-thousandths.",
 "C10": "The matrix is part of the trace; column minima and earliest rows are computed by definition. `SmawkModel` and `OnlineMinima` run reduce/interpolate and the online scheme on every small totally monotone matrix.",
 "C11": "An expression is parsed by the specification and turned into its canonical minimal automaton through positions; derivatives give a second semantics, checked equal on small expressions. The recognizer read from the code is minimised and compared state for state, so equality is of languages, not of samples. A further model forms every text of up to five characters from letters, operators, parentheses and escapes and says which are refused.",
 "C12": "Every language in a session is a canonical automaton in the state. Operations are products or reversals of those; results and six comparisons must agree exactly. `AlgebraModel` carries every language as a plain set of words beside the automaton. Operands are re-read at the end of a session.",
 "C13": "Canonical automata again; number of states is compared with the number of Moore classes of reachable states. `HopcroftModel` explores every choice of splitter.",
 "C14": "The extracted text is parsed by the specification's own grammar and compared as a language. `ElimModel` eliminates states in every order.",
 "C15": "State: visited set, stack of open vertices, arcs reported. Every event must be legal in it and the end must leave nothing open. `DfsModel` is an explicit stack of iterators under every order.",
 "C16": "Distances and the lexicographic rule by definition. `LexBfsModel` refines a partition with any choice within the first block.",
 "C17": "Chordality by simplicial elimination, which `LexBfsModel` shows equal to the absence of chordless cycles and to success of the search order.",
 "C18": "Blocks as classes of edges on common cycles, computed by reachability with a vertex removed; `BlockMeaning` checks that against cycle enumeration. `BlockModel` is the low-point search.",
 "C19": "Orientation judged by its definition; refusal judged by the block definition of C18. `BlockModel` relates edges through low points.",
 "C20": "Mutual reachability from the closure. `DfsModel` carries the component bookkeeping.",
 "C21": "Odd cycles through two-colouring of components and blocks; `GraphMeaning` checks them against enumerated cycles.",
 "C22": "A matching is accepted with an independent set of the complementary size (Koenig), returned by the code itself. Edges in no perfect matching are judged by alternating cycles. `AugmentModel` explores layered augmentation.",
 "C23": "A matching is accepted with a barrier (Tutte-Berge) proposed by the recorder and verified by TLC; `BergeModel` shows that barrier exists exactly for maximum matchings.",
 "C24": "All Hamiltonian cycles are enumerated by path extension inside the specification and compared as sets of edges. `HamSearch` is the search by forced and removed edges.",
 "C25": "Cores by repeated pruning, checked against all induced subgraphs in `GraphMeaning`; removal order judged step by step on the remaining graph.",
 "C26": "A forest is minimum exactly when no edge outside it is lighter than an edge on its tree path; `KruskalModel` shows this equals minimum total weight for every tie order.",
 "C27": "Closure by definition. `TopoModel` covers reversed finishing order and reach sets.",
 "C28": "Covers are accepted with an antichain, or a vertex cover of the comparability graph, of matching size, proposed by the recorder and verified by TLC. `DilworthModel` shows both always meet.",
 "C29": "Satisfiability by implication reachability, checked against all assignments in `TwoSatModel`; forced values likewise.",
 "C30": "The token system is computed from the input; distance between states by breadth-first search; routes, coordinates, copies compared with it. `MediaMeaning` shows the test for media equal to the token axioms.",
 "C31": "Half-spaces of edges (Djokovic) by distances; `MediaMeaning` shows them equal to existence of an isometric embedding.",
 "C32": "Halin graphs by search over spanning trees with the leaf cycle; wheels, reducible graphs by all reductions. `HalinModel` shows confluence of the reductions.",
 "C33": "All colourings into three perfect matchings are computed in the specification; embeddings through generic coordinates.",
 "C34": "Walks as paths in the graph of labelled arcs with consecutive labels different; shortest lengths by layers. `GadgetModel` is the label-splitting construction.",
 "C35": "A decoder per format written in TLA+ from the published formats; writers of graph6 and sparse6 modelled with every freedom they have.",
 "C36": "`HeapModel` has graphs as cells with owners, so that aliasing is a visible state; all graphs are re-read after each call. Families are drawn from their definitions in `FamilyModel`.",
 "C37": "Minimum of the range and deepest common ancestor by definition. `CartesianModel` and `EulerModel` are the two reductions between the problems.",
 "C38": "Lengths by table in the specification, checked against all subsets; preferred ends likewise.",
 "C39": "A word is Lyndon when smaller than all its proper suffixes. Lists are judged for membership, order and number (counting formula, checked by enumeration).",
 "C40": "Membership, order and number, with counting recurrences checked against enumeration. `PartsModel` shows that each successor rule goes to the very next partition.",
 "C41": "A machine carries out the changes; kind, distinctness, number and move are judged. `SweepModel` is the recursive sweeps.",
 "C42": "Trial division. `SieveModel` has the factorisations handed out as cells that the sieve must not write again.",
 "C43": "Ring by ring: before distance d is exceeded all points nearer must have been given. `HullModel` explores every tie order.",
 "C44": "Least total penalty by the recurrence over parts, checked against all arrangements in `WrapModel`; returned lines are read back as parts of the text.",
 "C45": "The solutions of each puzzle are found by a search in the specification; every recorded state after a deduction must still allow all of them. `SolveModel` applies the rules in any order on four-by-four puzzles.",
 "C46": "Centres and radii as long fixed-point numbers; tangency is an inequality between squares computed exactly (multi-limb multiplication in TLA+). `PackModel` grows the disks.",
 "C47": "Each answer must equal that of the same task run alone in its own process; arguments are compared after every event. `CallsModel` explores all interleavings.",
 "C48": "Every message is a transition on grid, possibilities and branch stack; the state told must be the state found. `LogModel` explores solver and reader side by side.",
 "C49": "The specification's own search finds the solutions; the output of the process is parsed into grids and report lines and judged against options and solutions. `ProgramModel` is a run as a state machine.",
 "C50": "For each rule `SolverRest` gives the conclusions that its description still draws from a state: singles, alignments, pairs and triads directly, placements within a group and of one digit by a forward and a backward pass over the sets of cells, columns and squares used. For two-way alternatives the recorder proposes choices of digits (worlds) and TLC checks that each breaks nothing and that every possible digit is in one and missing from another. `RestModel` compares all of this with plain readings over all patterns, fillings and worlds of four-by-four states and lets the rules run in any order; `RestGen` forms full-size states by ruling out digits, which are replayed on the code. The code is run with single rules and selections until it reports no progress; a state with a conclusion left is a violation. A missed conclusion changes no final answer, so no test of results can see it.",
}


def evidence(pid):
    p = os.path.join(ROOT, "evidence", pid + ".json")
    return json.load(open(p)) if os.path.exists(p) else None


def sizes():
    """Measured sizes of the last quick run; kept so that the file can be rewritten later."""
    path = os.path.join(T, "sizes.json")
    old = json.load(open(path)) if os.path.exists(path) else {}
    for pid in registry.CHECKS:
        e = evidence(pid)
        if e and e["tier"] == "quick":
            c = e["coverage"]
            old[pid] = {"wall": round(e["wall_s"]), "traces": c["traces_validated_against_impl"],
                        "events": c["events_replayed"],
                        "models": {m["cfg"][:-4]: m["distinct_states"] for m in c["model_runs"]}}
    json.dump(old, open(path, "w"), indent=0, sort_keys=True)
    return old


def main():
    props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
    bugs = {}
    missed = json.load(open(os.path.join(T, "missed.json")))
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        bugs.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
    size = sizes()
    found = {}
    for x in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", x)
        if m:
            found.setdefault(m.group(1), []).append((m.group(2)[:7], m.group(3)))
    o = [open(os.path.join(T, "design_head.md")).read().rstrip(), "", "## The properties", ""]
    for p in props:
        i = p["id"]
        c = registry.CHECKS[i]
        s = size.get(i, {})
        o += ["### %s %s" % (i, p["title"]), ""]
        o.append("*Specified.* %s (`spec/%s.tla` judged by `%s.tla`, recorder `drivers/%s.py`.)" % (
            ORACLE[i], c["judge"][:-5], c["judge"], c["driver"]))
        o.append("")
        quick = ["`%s` %d" % (k, v) for k, v in s.get("models", {}).items()]
        thor = ["`%s`" % m.get("cfg", m["module"])[:-4 if m.get("cfg") else None]
                for m in c["models"] if m.get("tiers") == ("thorough",)]
        o.append("*Explored and replayed.* %s%s%s" % (
            c["note"],
            " Distinct states in quick: %s." % ", ".join(quick) if quick else " There is no separate design model; the session machine itself is the model.",
            " Thorough adds %s." % ", ".join(thor) if thor else ""))
        o.append("")
        if s:
            o.append("*Cost.* About %d s quick: %d traces, %d events judged." % (s["wall"], s["traces"], s["events"]))
            o.append("")
        o.append("*Beyond the tests.* %s The quantifier here is %s." % (p["why_tests_cant"], p["quantifier"]["text"].rstrip(".")))
        o.append("")
        if c["assumptions"]:
            o += ["*Assumed.* " + "; ".join(c["assumptions"]) + ".", ""]
        if i in bugs:
            o += ["*Planted bugs.* " + ", ".join("`%s`" % b for b, _ in bugs[i]) + ".", ""]
        if i in found:
            o += ["*Found and repaired.* " + "; ".join("%s (%s)" % (w, h) for h, w in found[i]) + ".", ""]
    n = sum(map(len, bugs.values()))
    o += ["## Findings", "",
          "%d defects of the repository as given were found and repaired, one `fix:` commit each; they are"
          % sum(map(len, found.values())),
          "listed under their property above and in `KNOWN_FINDINGS.txt`. No finding is left unrepaired.", "",
          "## Planted bugs", "",
          "%d bugs in `seeded/`. Each applies to the current tree, builds, passes the stable tests and is shown" % n,
          "by its demonstration. The last column is the quick check of the bug's property: `caught`, or what was",
          "added after it was first missed.", "",
          "| bug | property | needs | verdict |", "|---|---|---|---|"]
    for i in sorted(bugs):
        for b, m in bugs[i]:
            o.append("| %s | %s | %s | %s |" % (b, i, m["needs"].replace("|", "/"), missed.get(b, "caught")))
    o += ["", open(os.path.join(T, "design_tail.md")).read().rstrip(), ""]
    st = os.path.join(T, "selftest.jsonl")
    if os.path.exists(st):
        rs = sorted((json.loads(x) for x in open(st)), key=lambda r: r["property"])
        o += ["## Changed traces", "",
              "`tools/selftest.py`: one value of one event changed in each of a sample of recorded traces.",
              "'At the event' counts rejections at exactly the changed event; the others are rejected later or as",
              "values outside the specification's domain. Accepted ones are changed requests, or answers as good as the recorded one.", "",
              "| property | changed | rejected | at the event | accepted |", "|---|---|---|---|---|"]
        for r in rs:
            acc = ", ".join("%s (%d)" % kv for kv in sorted(r["accepted"].items()))
            o.append("| %s | %d | %d | %d | %s |" % (r["property"], r["changed"], r["rejected"], r["at_event"], acc))
        o.append("")
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(o))
    print(len(o), "lines,", n, "bugs")


main()
