#!/usr/bin/env python3
"""The list of properties, from which properties.jsonl and MANIFEST.json are written.

Run as `python3 /verif/tools/registry.py` after changing it; it also validates the results when
jsonschema is at hand.
"""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TWO_PHASE = "src/algorithm/two_phase"
CARRY = f"{TWO_PHASE}/tableau/inverse_maintenance/carry"
LU = f"{CARRY}/lower_upper"
PRESOLVE = "src/data/linear_program/general_form/presolve"
GF = "src/data/linear_program/general_form/mod.rs"
MPS = "src/io/mps"


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = list(observe)
    anchors["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    return {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": anchors,
    }


PIVOT_SEAM = "the public PivotRule trait is the seam; a cfg-guarded choice point covers the fixed choices of column and row that no trait reaches"

PROPERTIES = [
    prop(
        "P01", "The verdict and the optimum are exact, whatever the pivots",
        "For every linear program with rational data, solving it with the two-phase simplex method reports infeasible exactly if no point satisfies the constraints and bounds, unbounded exactly if the objective can be improved without limit, and otherwise a point that satisfies every constraint and bound exactly and whose objective value is the optimum. "
        "This holds for every pivot rule, tie-break, refactorisation moment and both representations of the basis inverse. "
        "The reported objective value is the one the reported point attains.",
        ["schedules", "inputs", "configurations"],
        "all sequences of entering columns, leaving-row tie-breaks and refactorisation moments the algorithm may take, on all small rational linear programs (all constraint types, ranges, free, fixed and boxed variables, degenerate, redundant, infeasible, unbounded)",
        "The tests solve a few dozen fixed problems, each along the single pivot path its rule happens to choose; a wrong ratio test, a stale basis or a bad update only shows on paths and degeneracies that those do not meet.",
        [f"{TWO_PHASE}/mod.rs", f"{TWO_PHASE}/phase_one.rs", f"{TWO_PHASE}/phase_two.rs", f"{TWO_PHASE}/tableau/mod.rs", f"{CARRY}/mod.rs", GF],
        [("two phases with artificial variables and removal of redundant rows", f"{TWO_PHASE}/mod.rs"), ("ratio test", f"{TWO_PHASE}/tableau/mod.rs: select_primal_pivot_row"), ("reconstruction of a solution in the original variables", f"{GF}: compute_full_solution_with_reduced_solution")],
        state=[("basis", "which column is basic in which row", f"{CARRY}/mod.rs"), ("basis inverse", "maintained by updates between refactorisations", CARRY)],
        observe=["SolveRelaxation::solve_relaxation", "Tableau", "GeneralForm"],
        hook=PIVOT_SEAM,
    ),
    prop(
        "P02", "Presolving changes neither the verdict nor the optimum",
        "Whatever reductions presolving makes, in whatever order and wherever it stops, the reduced problem is infeasible, unbounded or has the same optimal value exactly if the original is or has. "
        "A solution of the reduced problem extends to a solution of the original that satisfies every original constraint and bound with the same objective value. "
        "When presolving itself reports infeasible, unbounded or a solution, that is the right answer.",
        ["schedules", "inputs", "crash_points"],
        "all orders in which pending reductions are applied, all points at which presolving may be cut short, repeated presolving, on all small rational linear programs",
        "The presolve tests apply single rules to hand-made problems and compare the data structure; the interplay of rules in an order that the test does not take, and postsolving after them, are not sampled.",
        [GF, f"{PRESOLVE}/mod.rs", f"{PRESOLVE}/updates.rs", f"{PRESOLVE}/queues.rs", f"{PRESOLVE}/counters.rs"],
        [("rules: bound constraints, slacks, fixed variables, domain propagation", f"{PRESOLVE}/rule"), ("work queues", f"{PRESOLVE}/queues.rs"), ("postsolve", f"{GF}: compute_full_solution_with_reduced_solution")],
        state=[("activity bounds and counters", "incrementally maintained summaries of each row", f"{PRESOLVE}/updates.rs, counters.rs"), ("removed variables", "how to recover each eliminated variable", GF)],
        observe=["GeneralForm::presolve", "GeneralForm::compute_full_solution_with_reduced_solution"],
        hook="a choice point for the order of the work queues and for stopping early, off by default",
    ),
    prop(
        "P03", "From file to answer: the problem that was written is the one solved",
        "Reading a well-formed problem file in the free or fixed layout and solving it, with or without presolving, gives exactly the verdict and optimal value of the problem that the file describes and a feasible solution that attains it, under the file's variable names. "
        "This does not depend on how the file's bytes are delivered, on its line endings, comments or spacing, or on the numeric notation used.",
        ["inputs", "fault_sequences", "schedules"],
        "all small problems, all legal ways of writing them down, all ways in which the operating system may deliver the bytes, all pivot schedules",
        "The integration tests read real files whose feature use is narrow (few range rows, few bound types, one style each) and compare only an objective value, delivered in one read.",
        ["src/io/mod.rs", f"{MPS}/mod.rs", f"{MPS}/convert.rs", f"{MPS}/parse/mod.rs", f"{MPS}/parse/free.rs", f"{MPS}/parse/fixed.rs", f"{MPS}/number/parse.rs", GF],
        [("reading", "src/io/mod.rs: import"), ("section parsers", f"{MPS}/parse"), ("conversion to a general form", f"{MPS}/convert.rs")],
        observe=["relp::io::import", "GeneralForm"],
    ),
    prop(
        "P04", "The basis inverse stays exact through any history of updates",
        "After any sequence of basis changes, refactorisations and restarts, in any order and number, both representations of the basis inverse answer every query (left product, right product, single element, row, column before the change) with exactly the values that the inverse of the current basis matrix has. "
        "An element is reported absent exactly if it is zero.",
        ["histories", "schedules", "crash_points"],
        "all histories of basis changes, refactorisations, removals and queries up to some dozens of updates, on all rational bases of order 1 to 12",
        "Unit tests check one factorisation or one or two updates on matrices of order up to five; update files that grow over dozens of changes, with rotations, fill-in and refactorisations in between, are not reached.",
        [f"{CARRY}/basis_inverse_rows.rs", f"{LU}/mod.rs", f"{LU}/eta_file.rs", f"{LU}/decomposition/mod.rs", f"{LU}/decomposition/pivoting.rs", f"{LU}/permutation/mod.rs"],
        [("Forrest-Tomlin style updates", f"{LU}/mod.rs: change_basis"), ("factorisation with Markowitz pivoting", f"{LU}/decomposition"), ("explicit inverse rows", f"{CARRY}/basis_inverse_rows.rs")],
        state=[("triangular factors, eta files and permutations", "together the inverse", f"{LU}/mod.rs")],
        observe=["BasisInverse"],
    ),
    prop(
        "P05", "Work can resume from any basis after a crash",
        "When solving is cut off at any point and only the basis survives, rebuilding the state from that basis in either representation gives the same tableau (same basic solution, objective, reduced costs) as at that point, and continuing from there gives the verdict and optimum that the uninterrupted execution gives. "
        "Starting again from nothing also does, and so does continuing from an old optimal basis after the costs have changed.",
        ["crash_points", "histories", "schedules"],
        "all points at which an execution may be cut off, any number of times in a row, all choices of representation on restart, all pivot schedules",
        "No test stops an execution; restarts from a basis are tested on a few fixed bases of order two to five.",
        [f"{CARRY}/mod.rs", f"{TWO_PHASE}/tableau/inverse_maintenance/mod.rs", f"{TWO_PHASE}/tableau/mod.rs", f"{TWO_PHASE}/phase_two.rs"],
        [("construction from a basis", f"{CARRY}/mod.rs: from_basis, from_basis_pivots"), ("tableau around an existing inverse", f"{TWO_PHASE}/tableau/mod.rs: new_with_inverse_maintainer")],
        state=[("basis indices", "the only state that is durable in this property", f"{CARRY}/mod.rs")],
        observe=["InverseMaintainer::from_basis", "InverseMaintainer::from_basis_pivots", "Tableau"],
        hook=PIVOT_SEAM,
    ),
    prop(
        "P06", "Every step of the simplex method keeps the tableau consistent",
        "At every point at which the method decides what to do next, the current basis is nonsingular, the basic solution satisfies the equations and is non-negative, and the reported objective, reduced costs and columns are those that the basis and the original data define. "
        "The objective never gets worse from one step to the next, a column that enters has a negative relative cost, and the method stops only when no column has one or when none can leave.",
        ["schedules", "histories"],
        "every state along every sequence of pivots, refactorisations and phase changes",
        "The tests look at results or at single steps of hand-computed tableaux; nothing checks the states in between, where an inconsistency may cancel out or be masked by a refactorisation.",
        [f"{TWO_PHASE}/tableau/mod.rs", f"{CARRY}/mod.rs", f"{TWO_PHASE}/phase_one.rs", f"{TWO_PHASE}/phase_two.rs", f"{TWO_PHASE}/strategy/pivot_rule.rs"],
        [("incremental update of the minus pi row, the objective and b", f"{CARRY}/mod.rs: change_basis"), ("pivot rules", f"{TWO_PHASE}/strategy/pivot_rule.rs")],
        state=[("minus pi, minus objective, b", "carried along and updated per pivot", f"{CARRY}/mod.rs")],
        observe=["PivotRule callbacks", "Tableau"],
        hook=PIVOT_SEAM,
    ),
    prop(
        "P07", "Solving always comes to an end",
        "With the smallest-index rule the method ends within the number of distinct bases, however the problem degenerates, and never returns to a basis; with any other rule it ends as soon as the schedule stops making it stall. "
        "Presolving always ends.",
        ["schedules", "inputs"],
        "all small problems with heavy degeneracy, including the known cycling examples, all refactorisation moments and queue orders",
        "A test that ends shows nothing about the next problem; the fixed problems of the test suite hardly degenerate.",
        [f"{TWO_PHASE}/strategy/pivot_rule.rs", f"{TWO_PHASE}/tableau/mod.rs", f"{TWO_PHASE}/phase_one.rs", f"{TWO_PHASE}/phase_two.rs", f"{PRESOLVE}/mod.rs"],
        [("Bland's rule for the entering column", f"{TWO_PHASE}/strategy/pivot_rule.rs: FirstProfitable"), ("smallest basis index in ties of the ratio test", f"{TWO_PHASE}/tableau/mod.rs"), ("rules only tighten", f"{PRESOLVE}/rule")],
        observe=["PivotRule callbacks", "SolveRelaxation"],
        hook=PIVOT_SEAM,
    ),
    prop(
        "P08", "Storage failures while importing are reported, never absorbed",
        "If opening, sizing or reading a problem file fails for good, importing returns an input/output error carrying the cause, and never a problem built from what happened to arrive; if the failure is transient or the data merely comes in pieces, the imported problem is the same as without it. "
        "In every case the file is closed again, nothing panics, and a later import works.",
        ["fault_sequences", "inputs"],
        "all sequences of failures, interruptions and short deliveries by the storage, at every call",
        "The tests only read files that are there and intact; no test makes a read fail.",
        ["src/io/mod.rs", "src/io/error.rs", f"{MPS}/mod.rs"],
        [("reading the whole file before parsing", "src/io/mod.rs: import"), ("conversion of errors", "src/io/error.rs")],
        observe=["relp::io::import"],
    ),
    prop(
        "P09", "Damaged problem files are refused or read as what they then say",
        "For every file content, including a torn, cut-off, bit-flipped, reordered or partly zeroed version of a valid file, importing either refuses it or yields exactly the problem that the content describes under the rules of the format. "
        "It never panics, loops, or silently drops, repeats or alters a row, column, bound, range or number.",
        ["fault_sequences", "inputs", "crash_points"],
        "all points at which a write may have been torn and all damage to a file's bytes",
        "The parser tests use well-formed snippets and a handful of errors that the author thought of.",
        [f"{MPS}/mod.rs", f"{MPS}/parse/mod.rs", f"{MPS}/parse/free.rs", f"{MPS}/parse/fixed.rs", f"{MPS}/convert.rs", f"{MPS}/number/parse.rs", f"{MPS}/token.rs"],
        [("section parsers", f"{MPS}/parse"), ("consistency checks of the conversion", f"{MPS}/convert.rs")],
        observe=["relp::io::import", "relp::io::mps::parse"],
    ),
    prop(
        "P10", "The same input gives the same result in every process",
        "Importing, presolving, scaling and solving the same input gives the same problem, the same reductions, the same sequence of bases and the same solution each time, whatever the seeds of the hash tables, the addresses of allocations and the thread that runs it.",
        ["schedules", "configurations"],
        "all seeds of the randomised hash tables, on all small problems and files",
        "Every test runs under one random hash seed and asserts on it; dependence on the iteration order shows as a rare flake at best.",
        [f"{MPS}/convert.rs", f"{PRESOLVE}/queues.rs", f"{PRESOLVE}/mod.rs", GF, f"{TWO_PHASE}/tableau/mod.rs", f"{CARRY}/mod.rs"],
        [("no result depends on the iteration order of a hash table", f"{MPS}/convert.rs, {PRESOLVE}, {CARRY}")],
        observe=["relp::io::import", "GeneralForm::presolve", "PivotRule callbacks"],
    ),
    prop(
        "P11", "Executions do not influence each other",
        "Several problems solved at the same time in different threads, one inside a callback of another, or one after another was abandoned or panicked, each give the result and the sequence of bases that they give alone.",
        ["schedules", "crash_points"],
        "all interleavings of concurrent, nested and abandoned executions at the granularity of the callbacks into the caller's code",
        "The tests do run in parallel threads, but on schedules nobody controls or looks at, and never nested or abandoned.",
        [f"{TWO_PHASE}/mod.rs", f"{TWO_PHASE}/tableau/mod.rs", f"{CARRY}/mod.rs", "src/io/mod.rs"],
        [("no state outside the values that an execution owns", "src")],
        observe=["SolveRelaxation", "relp::io::import"],
    ),
    prop(
        "P12", "Pivot rules and the ratio test choose what they promise",
        "At every step of every history, the smallest-index rule lets the first column with negative relative cost enter, the rule with memory the first one after the column it chose last, the steepest-descent-along-variable rule one with the most negative cost, "
        "and the steepest-edge rule one with the greatest cost decrease per unit length along its edge, although it only ever updates the lengths. "
        "The column that leaves attains the minimal ratio and is the one of smallest index among those that do.",
        ["histories", "schedules", "inputs"],
        "all sequences of pivots, refactorisations and phase changes on small problems, ties and degenerate vertices included",
        "One test looks at a few ratio tests without ties; a wrong choice still leads to the optimum in every test, only later, or never on the problems that cycle.",
        [f"{TWO_PHASE}/strategy/pivot_rule.rs", f"{TWO_PHASE}/tableau/mod.rs", f"{CARRY}/mod.rs"],
        [("weights of the steepest-edge rule", f"{TWO_PHASE}/strategy/pivot_rule.rs: after_basis_update"), ("smallest index in ties of the ratio test", f"{TWO_PHASE}/tableau/mod.rs: select_primal_pivot_row")],
        state=[("gamma", "updated per pivot", f"{TWO_PHASE}/strategy/pivot_rule.rs"), ("last_selected", "updated per selection", f"{TWO_PHASE}/strategy/pivot_rule.rs")],
        observe=["PivotRule callbacks", "Tableau"],
    ),
    prop(
        "P13", "Redundant and contradictory equations are handled",
        "When constraints are linearly dependent, the method either reports infeasible, exactly if they contradict each other, or identifies rows whose removal leaves the feasible set unchanged and makes the remaining rows independent, and continues without them to the right answer.",
        ["schedules", "inputs"],
        "all small systems with dependent rows, all pivot schedules that may leave artificial variables in the basis",
        "Two fixed rank-deficient problems are tested, each along one path; whether an artificial variable stays basic depends on the path.",
        [f"{TWO_PHASE}/phase_one.rs", f"{TWO_PHASE}/matrix_provider/filter/generic_wrapper.rs", f"{TWO_PHASE}/mod.rs", f"{CARRY}/mod.rs"],
        [("removal of rows whose artificial variable can't leave the basis", f"{TWO_PHASE}/phase_one.rs: remove_artificial_basis_variables"), ("view of the problem without rows", f"{TWO_PHASE}/matrix_provider/filter/generic_wrapper.rs")],
        observe=["phase_one::Rank", "RemoveRows", "SolveRelaxation"],
        hook=PIVOT_SEAM,
    ),
    prop(
        "P14", "Problems supplied by the caller's own code are solved just as exactly",
        "A problem given by the caller's implementation of the matrix interface, computing its columns on demand and possibly announcing an initial basis, such as a maximum-flow, shortest-path or minimum-cost-flow problem on a graph, is solved to exactly its optimum.",
        ["inputs", "schedules", "configurations"],
        "all small graphs and matrices, all ways of announcing a partial initial basis, all pivot schedules",
        "Two fixed graphs are solved as examples, which are not even tests.",
        [f"{TWO_PHASE}/matrix_provider/mod.rs", f"{TWO_PHASE}/tableau/kind/artificial/partially.rs", f"{TWO_PHASE}/tableau/kind/artificial/fully.rs", "src/data/linear_program/network/representation.rs", "examples/max_flow.rs", "examples/shortest_path.rs"],
        [("interface for problems", f"{TWO_PHASE}/matrix_provider/mod.rs"), ("partially artificial tableau", f"{TWO_PHASE}/tableau/kind/artificial/partially.rs"), ("incidence matrix", "src/data/linear_program/network/representation.rs")],
        observe=["SolveRelaxation", "MatrixProvider"],
        hook=PIVOT_SEAM,
    ),
    prop(
        "P15", "Putting a problem in canonical form and scaling it is undone exactly",
        "Putting a problem in canonical form, scaling its rows and columns, solving it and undoing both gives the verdict and optimal value of the original and a solution that satisfies the original constraints and bounds. "
        "Undoing a scaling restores the problem's data exactly.",
        ["inputs", "schedules"],
        "all small rational problems in all combinations of presolving, canonicalisation and scaling, all pivot schedules",
        "The scaling tests check the scale factors of a few two-by-two matrices; none solves a scaled problem and undoes the scaling.",
        [GF, f"{PRESOLVE}/scale/mod.rs", f"{PRESOLVE}/scale/rational/mod.rs"],
        [("canonical form", f"{GF}: standardize"), ("scaling by powers of primes", f"{PRESOLVE}/scale/rational/mod.rs")],
        observe=["GeneralForm::standardize", "Scalable"],
        hook=PIVOT_SEAM,
    ),
    prop(
        "P16", "Numbers in problem files are read exactly",
        "Every decimal literal that the format allows is read as exactly the rational number it denotes, or is refused if it cannot be represented.",
        ["inputs"],
        "all literals",
        "A few literals are tested.",
        [f"{MPS}/number/parse.rs"],
        [("digit accumulation with an exponent", f"{MPS}/number/parse.rs")],
        observe=["relp::io::mps"],
    ),
    prop(
        "P17", "Sparse and dense vector and matrix operations are exact",
        "Every operation on vectors and matrices gives the mathematically exact result and keeps its representation free of explicit zeros and in order.",
        ["inputs"],
        "all operands",
        "A few operands are tested.",
        ["src/data/linear_algebra/vector/sparse.rs", "src/data/linear_algebra/vector/dense.rs", "src/data/linear_algebra/matrix.rs"],
        [("merge of sorted index-value pairs", "src/data/linear_algebra/vector/sparse.rs")],
    ),
]

CLAIMED = os.environ.get("CLAIMED", "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15").split()

LEVEL_NOTES = {
    "P01": "Seeded search, not proof: small rational problems (up to about 6 variables and 6 rows), every pivot, tie, refactorisation and presolve decision drawn by the simulator, judged by an independent exact reference solver. Trusts that reference solver, relp-num's arithmetic and the hooks.",
    "P02": "Seeded search: orders of the presolve queue, cut-off points and repeated presolving on small problems; verdict, value and postsolved point judged by an exact reference solver on the original problem.",
    "P03": "Seeded search: problems written to an in-memory file in the many legal notations, delivered in pieces by interposed system calls, read by the real importer and solved; judged by the exact reference solver on the problem that was written.",
    "P04": "Seeded search over histories of up to about 80 updates on bases of order 1 to 12; every answer is checked by multiplying with the true basis matrix, kept by the harness in exact arithmetic.",
    "P05": "Seeded search over crash points, repeated crashes and restarts in either representation; state after a restart is compared with the state before, the final answer with the exact reference solver.",
    "P06": "Seeded search; at every callback the tableau is recomputed from the basis and the original data by an independent exact model.",
    "P07": "Seeded search with step bounds: bases are recorded and must not recur under the smallest-index rule, and every execution must end within a generous bound.",
    "P08": "Seeded search over storage faults at every intercepted call (open, stat, read, close) of the real importer, through symbol interposition in one process.",
    "P09": "Seeded search over torn, cut-off and damaged versions of generated files; the importer's answer is compared with an independent reference reader of the format. In the fixed layout only one direction is compared where the importer is stricter than the format.",
    "P10": "Seeded search: the same input is run under several hash seeds and threads, and everything observable is compared.",
    "P11": "Seeded search: concurrent executions are serialised by a baton that a seeded scheduler hands over at each callback; nested and abandoned executions included.",
    "P12": "Seeded search; every selection of a real rule is compared with one computed from the complete tableau at that moment.",
    "P13": "Seeded search over rank-deficient systems and pivot schedules; the removed rows are judged by exact elimination in the harness.",
    "P14": "Seeded search over small graphs, lazily computed matrices and announced bases; judged by independent graph algorithms and the exact reference solver.",
    "P15": "Seeded search over small problems and all combinations of the transformations; judged by the exact reference solver on the original.",
}

NOT_APPLICABLE = {
    "P16": "A pure function of one string: no schedule, time, I/O or fault can influence it, so simulation would only be input generation. Its effect on whole executions is covered by P03 and P09, which write numbers in many notations.",
    "P17": "Pure functions of their operands: there is nothing to schedule or to make fail. Their effect on whole executions is covered by P01, P04 and P06, which recompute every result independently.",
}
NOT_YET = "Not built yet."


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPERTIES:
            f.write(json.dumps(p) + "\n")
    checks = []
    na = []
    for p in PROPERTIES:
        id = p["id"]
        if id in CLAIMED:
            checks.append({
                "property": id,
                "quick_cmd": f"bash /verif/check.sh {id} quick",
                "thorough_cmd": f"bash /verif/check.sh {id} thorough",
                "evidence_file": f"evidence/{id}.json",
                "technique": "deterministic simulation with fault injection: seeded search over " + ", ".join(p["quantifier"]["over"]).replace("_", " "),
                "level": "exploration",
                "level_note": LEVEL_NOTES[id],
            })
        else:
            na.append({"property": id, "reason": NOT_APPLICABLE.get(id, NOT_YET)})
    commits = subprocess.run(
        ["git", "-C", "/repo", "log", "--format=%H", "--grep=^Add seams for a deterministic simulator", "--", "src/sim.rs"],
        capture_output=True, text=True,
    ).stdout.split()
    manifest = {
        "version": 1,
        "setup_cmd": "bash /verif/build.sh",
        "hooks": {
            "guard": "--cfg relp_sim",
            "enable": "the simulator in /verif/sim is built with RUSTFLAGS='--cfg relp_sim' (see /verif/sim/env.sh), with a path dependency on /repo; without the flag src/sim.rs is not compiled and the choice points vanish",
            "source_commits": commits,
        },
        "checks": checks,
        "not_applicable": na,
        "notes": "See /verif/DESIGN.md. Replay a violation with: /verif/sim/target/release/relp-sim replay FILE. Known findings and repaired defects: /verif/known-findings.txt.",
    }
    path = os.path.join(HERE, "MANIFEST.json")
    if not commits and os.path.exists(path):
        manifest["hooks"]["source_commits"] = json.load(open(path))["hooks"]["source_commits"]
    with open(path, "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    try:
        import jsonschema
    except ImportError:
        return
    if os.path.exists("/root/.vp/MANIFEST.schema.json"):
        jsonschema.validate(manifest, json.load(open("/root/.vp/MANIFEST.schema.json")))
        schema = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in PROPERTIES:
            jsonschema.validate(p, schema)


main()
