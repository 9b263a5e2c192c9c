#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

G, EC, CS, BA, DS, WS, RO, UT, LI, LA = ("src/generic.rs", "src/generic/equiv_classes.rs",
    "src/cycle_safe.rs", "src/basic.rs", "src/deep_safe.rs", "src/wide_safe.rs",
    "src/robust.rs", "src/utils.rs", "src/lib.rs", "src/like_anticipated.rs")
RN = "src/cycle_safe/modes/interleave/random/mod.rs"

p("C01", "Cycle-safe verdicts are exact on every graph",
  "The cycle-safe comparisons (cycle_safe and robust, with and without precheck, and the generic interleaving ones) "
  "report two finite graphs as equivalent exactly when no path of edge indices tells them apart, i.e. following the same "
  "path from both roots never meets nodes with different own values or different amounts of edges. This holds for cyclic, "
  "shared, degenerate and mutually overlapping graphs, and for every sequence of random numbers, every choice of limits "
  "(with a nonzero slow limit), every recursion mode and every conforming table.",
  ["inputs", "configurations", "histories"],
  "All finite ordered graphs (any sharing, any cycles, either root anywhere), all limits, all random sequences, all recursion modes.",
  "The tests compare a handful of shapes with an equal copy of themselves, so nearly always the answer is 'equal'; a wrongly merged class, "
  "a skipped edge or a lost pending pair only shows on particular unequal graphs at particular phase switches.",
  [G, EC, CS, RO],
  [("visit, admit edges, descend", "generic.rs equiv_main / equiv"), ("slow phase skips pairs already in one class", "cycle_safe.rs do_edges"),
   ("union of classes", "equiv_classes.rs same_class")],
  ["return value of cycle_safe::{equiv,precheck_equiv}, robust::{equiv,precheck_equiv}, generic equiv / precheck_interleave::equiv"],
  [("ticker", "phase of the interleaving", CS), ("equiv_classes", "what is assumed equivalent", EC), ("recur_mode", "pairs still to compare", "generic.rs")])

p("C02", "Verdicts are exact on acyclic graphs for the simple variants",
  "On every finite acyclic graph pair, basic, deep_safe and wide_safe comparison (and their limited forms, when the limit is not reached) "
  "report equivalence exactly when the two graphs unfold to the same tree of own values and edge amounts. "
  "Every edge of every node is taken into account, whatever the depth, width, position or sharing.",
  ["inputs", "configurations"], "All finite acyclic graph pairs, including ones that share nodes, all three recursion modes.",
  "The tests have a few small unequal trees for ordering and otherwise only equal shapes; a pair lost by one recursion mode at one position is not reached.",
  [G, BA, DS, WS, UT],
  [("edges iterated in lockstep", "generic.rs EdgesIter"), ("call-stack loop", BA), ("lazy stack and queue", "utils.rs LazierIterator")],
  ["return value of basic::equiv, deep_safe::equiv, wide_safe::equiv and the limited_equiv of each"])

p("C03", "Cycle-safe comparison terminates with work linear in the graph",
  "On every finite graph, cyclic or however much shared, the cycle-safe comparisons terminate, and the number of node pairs they visit is bounded by a "
  "linear function of the amount of distinct nodes: with B distinct branch nodes, at most d edges per node, slow limit s and greatest fast limit f, at most "
  "1 + d*((B-1) + (f+1)*floor((B-1)/s)) pairs are visited, plus at most the precheck limit when there is a precheck. "
  "This holds for every random sequence, and also when only the precheck limit is chosen and the other limits take their derived defaults, however small it is.",
  ["inputs", "configurations", "histories"],
  "All finite graphs, all limits with a nonzero slow limit, all precheck limits with derived defaults, all random sequences.",
  "The tests run two degenerate shapes with the default limits and would also pass with far more work, or with non-termination for other limits or shapes.",
  [CS, EC, G],
  [("slow phase records and skips", "cycle_safe.rs do_edges"), ("fast phase is limited by a bounded random number", "cycle_safe.rs do_edges"),
   ("derived default limits", "cycle_safe.rs interleave::Params")],
  ["number of equiv_modulo_edges and get_edge calls made on the user's nodes during one comparison"])

p("C04", "A multi-way result is the first difference in traversal order",
  "The result of a comparison is the value for the first difference met when both graphs are walked in lockstep - a node's own values before its edges, edges in "
  "increasing index order, a missing edge reported as less for the side that has fewer - depth-first preorder for basic and wide_safe, and for cycle_safe on acyclic graphs; "
  "breadth-first for deep_safe, and for robust on every graph, cyclic or not. The limits, the random numbers and the sharing of structure never change which difference is reported.",
  ["inputs", "configurations", "histories"],
  "All graph pairs (acyclic for depth-first), all limits and random sequences, all result types (bool, Ordering, richer ones).",
  "The ordering tests are small trees without sharing, mostly compared where depth-first and breadth-first agree, and deep_safe is not among them.",
  [G, BA, DS, WS, RO, LI],
  [("first inequivalent value returned at once", "generic.rs equiv, equiv_main"), ("amount of edges compared", "generic.rs EdgesIter::get_next"),
   ("order of pending pairs", "basic.rs CallStack, wide_safe.rs RecurStack, deep_safe.rs RecurQueue"), ("Cmp for bool and Ordering", LI)],
  ["return value of every equiv function, with Cmp = bool, Ordering and a type that names the differing nodes"])

p("C05", "Limited comparison aborts exactly when the limit is too small",
  "A limited comparison returns the same result as the unlimited one when that visits at most `limit` counterpart pairs (identical pairs count, missing edges do not), and otherwise "
  "returns the limit-reached error after having visited exactly `limit` pairs. This holds for every unsigned integer type and every value of the limit, zero and the type's maximum included.",
  ["inputs", "configurations"],
  "All acyclic graph pairs, all limits 0..max, all unsigned integer types, all three recursion modes; and cyclic graphs, on which it must abort.",
  "The tests check about a dozen limits on trees of at most five nodes with the call-stack only; the others pass the type's maximum.",
  [BA, DS, WS, G],
  [("limit decremented per visited pair", "basic.rs Limited::do_traverse"), ("permission asked before anything else", "generic.rs equiv_main")],
  ["return value of {basic,deep_safe,wide_safe}::limited_equiv", "pairs seen by equiv_modulo_edges"])

p("C06", "The precheck never influences the answer",
  "Comparison with a precheck visits at most the precheck limit of pairs plainly, and if that suffices gives that answer without using the table or the random numbers. Otherwise it starts over from "
  "the roots with nothing left over from the aborted precheck, and behaves from there exactly as the comparison without a precheck, whatever recursion modes are combined. It never reports the limit to the user.",
  ["inputs", "configurations", "histories"],
  "All graph pairs, all precheck limits, all combinations of recursion modes, all random sequences.",
  "The tests run prechecks on equal graphs only, so pending pairs left over from an aborted precheck would still compare equal and go unnoticed.",
  [G, DS, WS, BA],
  [("abort converts into the interleave", "generic.rs precheck_interleave::equiv"), ("recursion mode reset on reuse", "generic.rs Equiv::from; reset of RecurQueue, RecurStack, CallStack")],
  ["sequence of node callbacks, return value, table construction, random draws"])

p("C07", "Comparison obeys the laws of equivalence and ordering",
  "Over any set of nodes whose own values compare lawfully, the cycle-safe verdicts (and those of the simple variants on acyclic graphs) form an equivalence relation: reflexive, symmetric and transitive. "
  "With Ordering results, swapping the arguments reverses the result and the results are transitive, so that they are a total order consistent with the equivalence - for the breadth-first cycle-safe variants on all graphs, and for every variant on acyclic graphs.",
  ["inputs", "histories"],
  "All node triples of all finite graphs, each compared in both directions by every variant.",
  "The tests compare in one direction mostly and check transitivity only through one sort of small trees.",
  [G, EC, LI], [("symmetric handling of both sides", "generic.rs EdgesIter, equiv_classes.rs same_class"), ("Cmp::from_ord", LI)],
  ["results of all pairwise comparisons of a set of nodes"])

p("C08", "Identical nodes are equal without being examined",
  "Whenever the two counterpart nodes have equal identities, at the roots or anywhere below, they count as equivalent and neither their own values nor their edges are examined. "
  "Nodes with different identities are always examined, even if they would look the same.",
  ["inputs", "configurations"],
  "All graph pairs with shared nodes, all variants, identities of any kind.",
  "The tests use equal copies that share nothing, so the shortcut is hardly exercised, and nothing checks that it examines nothing.",
  [G, UT], [("identity compared first", "generic.rs equiv_main"), ("RefId equality", UT)],
  ["equiv_modulo_edges and get_edge calls on the user's nodes"])

p("C09", "Node methods are called as the Node contract promises",
  "For each node value the algorithm asks for edges with indexes starting at zero and increasing by one, at most twice for each index, and never beyond the first index that has no edge. "
  "Own values are compared only between counterparts (nodes at the same path, the first argument's node as self), at most once per visit, and edges are only asked for on nodes whose own values compared equivalent.",
  ["inputs", "configurations"], "All graphs, all variants, all index types.",
  "The tests' node types answer any index at any time and compare symmetrically, so out-of-contract calls would go unnoticed.",
  [G, UT, LI], [("lazy edge iteration", "generic.rs EdgesIter"), ("non-advancing peek", "utils.rs NonAdvancingIterator, LazierIterator")],
  ["calls to Node::get_edge and Node::equiv_modulo_edges"])

p("C10", "The slow phase skips a pair exactly when it is already implied",
  "In the slow phase the edges of a pair are skipped exactly when the two nodes are already connected by pairs recorded earlier in the same comparison (the reflexive, symmetric, transitive closure of those pairs); "
  "otherwise the pair is recorded and descended. Each node identity is given to the table once, and classes once joined are never separated.",
  ["histories", "configurations"],
  "All sequences of recorded pairs over any identities, all conforming tables and shared-pointer types.",
  "The one unit test of the classes runs a single fixed sequence over seven keys; link shortening and merging of long chains depends on the order of unions.",
  [EC, CS], [("union-find with links", "equiv_classes.rs Class, EquivClasses")],
  ["answer of the interleave mode's do_edges", "calls to a custom Table", "content of custom Rc cells"],
  [("table", "class cell of each identity", EC), ("Class", "representative with weight, or link", EC)])

p("C11", "Class lookups stay logarithmic",
  "However the recorded pairs arrive, the chain of links from any node's class cell to its representative is never longer than the binary logarithm of the amount of nodes in the class, "
  "and lookups never lengthen a chain. So recording n pairs costs at most about n log n link steps.",
  ["histories"], "All sequences of recorded pairs.",
  "It cannot be seen in results at all: a wrong union direction or weight still gives right answers, only slowly on particular orders of merging.",
  [EC], [("weighted union", "equiv_classes.rs all_seen"), ("link shortening", "equiv_classes.rs get_rep_and_weight")],
  ["link chains in the cells of a custom Rc"])

p("C12", "Deep-safe variants use constant call-stack space",
  "deep_safe, wide_safe and robust comparison (limited and precheck forms included) use an amount of call-stack that does not depend on the depth, width or size of the graphs, "
  "so no graph that fits in memory overflows the stack.",
  ["inputs", "configurations"], "All graphs of all depths and widths.",
  "The tests run some very deep equal shapes on the main test stack; stack use proportional to depth only in some position or only after a phase change stays within that.",
  [G, DS, WS, RO], [("iteration instead of recursion", "generic.rs equiv loop"), ("recur defers", "RecurQueue::recur, RecurStack::recur")],
  ["address of a local variable in the node callbacks", "running on a small stack"])

p("C13", "Pending work is held lazily and dropped when exhausted",
  "The lazy stack and queue hold at most one pair of nodes per descended pair whose edges are not all visited yet, independent of how many edges it has, and drop it together with its last edge. "
  "So walking depth-first, a chain through last edges needs constant space whatever its length; walking breadth-first, a chain needs constant space wherever its edges are; and a node of any width needs constant space.",
  ["inputs", "configurations"], "All graphs; every moment of every comparison with the lazy stack or queue.",
  "The tests only need to fit in memory; holding exhausted iterators or materializing edges passes them.",
  [UT, DS, WS, G], [("exhausted sub-iterators removed before their last item is returned", "utils.rs LazierIterator::next"), ("edges generated on demand", "generic.rs EdgesIter")],
  ["number of the user's node values alive during the comparison"])

p("C14", "Phases of the interleaving follow the configured limits",
  "An interleaved comparison starts slow; the slow phase lasts until SLOW_LIMIT unseen branch pairs in a row have been recorded, any already-known pair restarting that count; then one number is drawn from 0 to FAST_LIMIT_MAX inclusive, "
  "and that branch pair and as many further ones as the number drawn are descended without being looked up or recorded; then it is slow again. Only branch pairs (different identities, equal own values, both with edges) count.",
  ["histories", "configurations", "inputs"],
  "All graphs, all values of the limits up to the extremes of their type, all random sequences.",
  "No test observes the phases; any schedule that still terminates passes.",
  [CS, RN], [("ticker", "cycle_safe.rs Interleave::do_edges")],
  ["draws made from a custom NumberGenerator and their bounds", "answers of do_edges", "order of callbacks"],
  [("ticker", "remaining pairs of the phase", CS)])

p("C15", "Random numbers are in range and cover it",
  "Every provided random-number generator returns, for every exclusive end from 1 to 65535 and at any point of its sequence, a number below that end, and every number of the range can come up. "
  "With any generator, and whichever provided one is the default, comparisons give the same verdicts.",
  ["inputs", "histories", "configurations"], "All three provided generators, all ends, long draw sequences.",
  "The other generators are only type-checked by the existing build, and no test looks at a number drawn.",
  ["src/cycle_safe/modes/interleave/random/wyrng.rs", "src/cycle_safe/modes/interleave/random/oorandom.rs", "src/cycle_safe/modes/interleave/random/fastrand.rs", RN],
  [("reduction to the range", "rand_upto of each")], ["NumberGenerator::rand_upto of each provided generator", "results of the premade functions built with each default"])

p("C16", "Custom modes are consulted and obeyed as documented",
  "For every pair the descend mode is asked first whether to traverse (if not, the pair counts as equivalent unexamined), and asked once whether to do edges only if identities differ, own values are equivalent and both nodes have edges (if not, no edge of the pair is visited). "
  "Admitted pairs are handed to the recursion mode as an iterator over exactly the counterpart edges in order, ending in the comparison of the amounts if these differ; the recursion mode is asked for the next pair only after an equivalent outcome, its pairs are visited as given, "
  "and the comparison ends equivalent only when it has no more.",
  ["programs", "histories", "inputs"], "All behaviours of user-supplied descend and recursion modes, on all graphs.",
  "One test has two custom recursion modes that behave like the premade ones; none has a mode that prunes, reorders or declines.",
  [G], [("central loop", "generic.rs Equiv::equiv, equiv_main"), ("EdgesIter", "generic.rs")],
  ["calls to DescendMode::{do_traverse,do_edges}, RecurMode::{recur,next}, items of EdgesIter"])

p("C17", "Errors and unequal results end the comparison at once, unchanged",
  "As soon as a descend mode or recursion mode reports an error, the comparison returns that very error, converted once, and calls nothing further; likewise as soon as a difference is found. "
  "An error of the recursion mode during a precheck is returned and not retried by interleaving, and only the reached limit leads to interleaving.",
  ["fault_sequences", "programs", "inputs"], "Every point at which any mode method can fail, on all graphs, in the plain, limited and precheck forms.",
  "No test makes a mode fail; the error paths of custom modes are compiled but never run.",
  [G, BA], [("errors propagated", "generic.rs equiv_main try_into!, precheck_interleave::equiv"), ("call-stack loop stops", "basic.rs CallStack::recur")],
  ["returned error value, callbacks made after the failure"])

p("C18", "Each comparison is independent of all others",
  "The result of a comparison depends only on the graphs as they are during it (and, where C04 leaves a choice, on the random numbers): not on earlier comparisons (equal, unequal, aborted or unwound by a panic of a node method), not on ones nested inside a node method, and not on ones running in other threads. "
  "After the graphs have been changed, comparing them again reflects the change.",
  ["histories", "schedules", "fault_sequences"], "All sequences, nestings and concurrent sets of comparisons with mutations in between.",
  "Tests make isolated comparisons of graphs that never change.",
  [G, CS, EC], [("fresh state per invocation", "Equiv::default / new in every equiv function")],
  ["results of sequences, nestings and parallel sets of calls"])

p("C19", "RefId identifies by address and metadata, consistently",
  "Two RefId are equal exactly when they refer to the same object (same address and, for wide references, same metadata), never by value; equal ones hash equally; and all comparison operators agree with one total order in which only equal ones are Equal. "
  "Moving, copying or cloning the reference does not change its identity.",
  ["inputs", "histories"], "All reference kinds (plain, Box, Rc, Arc, slices, str, trait objects), all operators, all pairs of objects.",
  "RefId is only used as a key of equal-shape comparisons; its ordering operators and wide references are hardly used.",
  [UT], [("pointer comparison", "utils.rs RefId")], ["operators and hash of RefId"])

p("C20", "Every edge index is reached, up to the end of the index type",
  "With any index type, all edges of a node up to the greatest value of the type are compared, each exactly once per descent and in order, and when the type has no further value the edges end there, without wrapping around, repeating or failing. "
  "This holds for every provided integer type and for custom index types of any size.",
  ["inputs", "configurations"], "All provided integer index types, custom index types, all widths up to and beyond the range of the type.",
  "One test uses a different index type with few edges; none reaches the end of an index type.",
  [G, LA], [("checked increment", "like_anticipated.rs Step"), ("exhaustion ends iteration", "generic.rs EdgesIter::get_next")],
  ["indexes passed to get_edge, result of comparisons of wide nodes, Step::increment"])

p("C21", "A difference at finite depth is found even in endless graphs",
  "The breadth-first variants (deep_safe and robust, with their limited and precheck forms) find any difference at finite depth in graphs that never end, such as ones generated on the fly with ever-new identities, and return it having examined no node below the level of the difference and nothing after it. "
  "The depth-first variants return a difference as soon as it is first in order, without touching anything later.",
  ["inputs"], "All endless (lazily generated) graphs with a difference at any finite position.",
  "All test graphs are finite, and nothing measures what is examined beyond a difference.",
  [G, DS, RO, UT], [("breadth-first queue", "deep_safe.rs RecurQueue"), ("immediate return", "generic.rs equiv")],
  ["node callbacks made, return value"])

p("C22", "No configuration or input makes the library panic",
  "No comparison panics or overflows by itself, whatever the graphs and whatever the limits: precheck, fast and slow limits of zero (fast, precheck) or one up to the maxima of their types, initial capacities of zero, every size of graph, random numbers at either end of their range, and any error of a mode. "
  "A comparison always ends with an answer or the mode's error.",
  ["configurations", "inputs", "fault_sequences"], "All combinations of extreme parameters, in builds with and without overflow checks and debug assertions.",
  "The tests use the default limits and two mild variations.",
  [CS, G, BA, UT, LA], [("saturating and checked arithmetic", "cycle_safe.rs do_edges; basic.rs do_traverse; equiv_classes.rs all_seen")],
  ["panics observed by catch_unwind, in a checked and an unchecked build"])

p("C23", "A comparison's memory is bounded by the graph and freed at its end",
  "A comparison takes heap memory for the pairs pending at once (as C13 bounds them), and, in the slow phase of a cycle-safe one, for each distinct node with edges at most once, plus a constant; never per pair visited, per path, or per leaf. "
  "Variants that are not cycle-safe take none but for what is pending, and the lazy ones need no more than a constant where that is constant. "
  "However a comparison ends (an answer, an early difference, a limit, an error, or a panic in one of the nodes' methods) it keeps no node and no memory afterwards.",
  ["inputs", "configurations", "fault_sequences"], "All graphs, all variants, all ways of ending.",
  "The tests only need to fit in memory; none measures what is allocated or what survives a comparison.",
  [CS, EC, BA, UT, DS, WS], [("table of classes keyed by distinct nodes", "equiv_classes.rs Table::same_class"), ("dropped with the comparison", "cycle_safe.rs cycle_safe_equiv; utils.rs LazierIterator::next")],
  ["bytes allocated and not freed, and node values alive, during and after each comparison"])

p("C24", "Varying the order of edges by position changes no guarantee",
  "A node may give its edges in an order that depends on where in the shape it is met (so that values of the same identity at different positions give the same edges in different orders), as long as the two nodes of each compared pair use the same order, as Node::get_edge allows. "
  "Then every guarantee stands: the verdict is that of the graph itself, whichever order is used where; the result is the first difference in the order given; work is linear in the distinct identities, limits count the pairs of the walk, and the slow phase still recognizes identities it has recorded at another position.",
  ["inputs", "configurations", "histories"], "All graphs, all consistent ways of ordering edges by position, all variants, limits and random sequences.",
  "In every test a node gives its edges in the same fixed order wherever it is met.",
  [LI, G, CS, EC, UT], [("edges asked of the node value at hand", "generic.rs EdgesIter"), ("classes keyed by identity only", "cycle_safe.rs do_edges, equiv_classes.rs")],
  ["return values, callbacks and amounts of visits of comparisons of nodes whose order of edges varies"])

p("C25", "Package features change what is available, never how it behaves",
  "Every set of package features builds (std with one of the generators, as it must have one), and without std the library needs no std. "
  "Switching a further feature on takes nothing away, several generators may be enabled together, and the default is the first of wyrng, oorandom and fastrand (needing std) that is. "
  "Whatever is available with a set of features compares just as with all of them: the same verdicts, limits, differences, work and ends, also without std, without alloc, with any generator as the default, and with anticipate on a nightly compiler.",
  ["configurations", "inputs"], "All sets of package features, all that is available in each, on all graphs.",
  "The tests run with two sets of features only: the default one, and wyrng alone with a node without edges.",
  ["src/lib.rs", CS, EC, UT, G, "src/cycle_safe/modes/interleave/random/mod.rs"], [("feature-dependent modules", "lib.rs; equiv_classes.rs premade; random/mod.rs"), ("feature-dependent code", "generic.rs increment_index; utils.rs lazy_collections")],
  ["whether a program (without std) that uses all items builds and runs; return values, callbacks and steps of comparisons in builds with few features"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
