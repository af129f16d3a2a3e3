"""Writes properties.jsonl and MANIFEST.json.   python3 tools/meta.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "pyswarms/backend/"
OPT = ["pyswarms/single/global_best.py", "pyswarms/single/local_best.py", "pyswarms/single/general_optimizer.py",
       "pyswarms/discrete/binary.py"]
TOPO = [B + "topology/%s.py" % t for t in ("star", "ring", "von_neumann", "random", "pyramid")]
BASE = ["pyswarms/base/base_single.py", "pyswarms/base/base_discrete.py"]
SEARCH = ["pyswarms/utils/search/%s.py" % t for t in ("base_search", "grid_search", "random_search")]
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                           "observe_at": list(observe), "hook_needed": None}, technique=technique, note=note))


prop("C01", "A particle's memory is the first best position it has visited",
     "After every personal-best update each particle's remembered cost is the smaller of its old remembered cost and the "
     "cost of its current position, and the remembered position changes exactly when the current cost is strictly "
     "smaller (ties and nan keep the old position). Over a run, every particle remembers the smallest cost it has been "
     "evaluated with and the first position that had it, independently of all other particles.",
     ["inputs", "histories"], "every position, remembered position and cost (all IEEE doubles incl. inf, nan), every "
     "history of evaluations", "the tests update one hand-written swarm; ties, nan, inf and mixed improvement patterns "
     "across particles are never tried",
     [B + "operators.py"] + OPT, [("personal best update", B + "operators.py compute_pbest")],
     [("pbest_pos, pbest_cost", "personal best position and cost of each particle", B + "swarms.py")],
     ["compute_pbest's result", "swarm.pbest_pos / pbest_cost during a run"])
prop("C02", "The star topology's best is the best personal best and never gets worse",
     "In a fully connected swarm every update returns a best cost that is the smaller of the previous best cost and the "
     "smallest personal best cost, together with a position that was evaluated with exactly that cost. The best "
     "therefore never gets worse and no personal best is ever cheaper than it.",
     ["inputs", "histories"], "every set of personal bests, costs and previous best (all IEEE doubles except nan personal "
     "bests), every history of evaluations", "tests compare one fixed swarm against a stored number; ties and previous bests better than the "
     "current personal bests are not reached", [TOPO[0]] + OPT, [("global best", TOPO[0] + " compute_gbest")],
     [("best_cost, best_pos", "best of the swarm", B + "swarms.py")], ["compute_gbest's result"])
prop("C03", "Every particle follows the best personal best of its own neighbourhood",
     "With a ring, von Neumann, random or pyramid topology, the best position a particle is given is the personal best "
     "position of a neighbour (of the topology's current neighbourhood of that particle) whose personal best cost is the smallest in that neighbourhood, one position "
     "per particle. The reported best cost is the smallest personal best cost of the whole swarm.",
     ["inputs", "configurations"], "every position, personal best and cost, every neighbourhood the topology can have, every "
     "k, norm and range within the bounds", "tests compare a fixed swarm with stored numbers, for one neighbourhood",
     TOPO[1:], [("neighbourhood best", t + " compute_gbest") for t in TOPO[1:]],
     [("neighbor_idx", "neighbours of each particle", B + "topology/base.py")], ["compute_gbest's result"])
prop("C04", "Neighbourhoods are those the topology promises",
     "A ring gives every particle its k nearest distinct particles under the chosen norm (itself included); a von Neumann "
     "topology does so with the particle count of its range; a random topology gives every particle itself and at least k "
     "others, mutually, with every particle reachable from every other; a pyramid gives every particle exactly "
     "the others sharing a simplex with it in a triangulation of the current positions (everybody when the swarm is too small). "
     "A static topology keeps the neighbourhoods of its first update, a dynamic one computes them anew at every update.",
     ["inputs", "histories", "configurations"], "every set of positions, every outcome of the random choices, every k, p, "
     "range and static flag within the bounds", "tests look at one fixed swarm; neighbourhood structure is not asserted "
     "for random graphs or repeated updates", TOPO[1:], [
         ("nearest neighbours", TOPO[1] + " compute_gbest"), ("range to count", TOPO[2] + " calculate_r / delannoy numbers"),
         ("random connected graph", TOPO[3] + " __compute_neighbors"), ("triangulation", TOPO[4] + " compute_gbest")],
     [("neighbor_idx", "neighbours of each particle", B + "topology/base.py")], ["topology.neighbor_idx after an update"])
prop("C05", "New velocity is inertia plus randomly weighted pulls towards the two bests",
     "Every component of a new velocity equals w times the old velocity plus c1 times a random number times the distance to the particle's personal "
     "best plus c2 times another random number times the distance to its (neighbourhood's or swarm's) best, with both random numbers in "
     "[0, 1) and different for every component. Computing it changes nothing in the swarm, and it "
     "holds between any two consecutive iterations of a run.",
     ["inputs", "histories"], "every position, velocity, best, coefficient and random number; every run within the bounds",
     "tests check shapes, and one value at most; the rule is never compared for arbitrary inputs",
     [B + "operators.py"] + TOPO + OPT, [("velocity rule", B + "operators.py compute_velocity")], [],
     ["compute_velocity's result", "position and velocity histories"])
prop("C06", "With a velocity clamp no particle is faster than the clamp allows",
     "Whenever a clamp (two numbers or two per-dimension arrays) is set, every component of every new velocity lies within "
     "it: components inside the limits are kept, others are put on the nearest limit. This holds for every topology, "
     "optimizer and velocity strategy, in every iteration of a run.",
     ["inputs", "histories", "configurations"], "every velocity, position, best, draw and clamp; every form of the clamp; every "
     "run within the bounds", "tests clamp one seeded swarm by one pair of numbers",
     [B + "operators.py", B + "handlers.py"] + OPT, [("clamping", B + "handlers.py VelocityHandler"),
                                                     ("velocity rule", B + "operators.py compute_velocity")],
     [], ["compute_velocity's result", "velocity history"])
prop("C07", "Velocity strategies treat out-of-bounds particles as documented",
     "The 'unmodified' strategy returns the computed (clamped) velocity; 'invert' returns -z times the velocity of a particle "
     "outside the bounds in any coordinate (z = 0.5 by default), 'zero' returns zeros for it, and both leave the velocities of particles inside alone; "
     "'adjust' returns the difference between a particle's position and its position at the previous call (the computed velocity on first use). A clamp is applied in every strategy, and positions and bounds "
     "are never changed.",
     ["inputs", "configurations"], "every position, velocity, bounds and clamp, inside and outside in every combination",
     "tests check that velocities stay within the clamp, not what each strategy returns", [B + "handlers.py", B + "operators.py"],
     [("velocity strategies", B + "handlers.py VelocityHandler")], [("memory", "previous positions for 'adjust'", B + "handlers.py")],
     ["the handler's result", "compute_velocity's result"])
prop("C08", "A particle moves by its velocity; operators change nothing else",
     "The new position of a particle is its position plus its velocity, exactly, whenever there are no bounds or the sum "
     "is within them. Computing positions never changes the swarm's current position, velocity or memory, nor the bounds.",
     ["inputs", "configurations"], "every position and velocity (floats and integers), every bounds and strategy",
     "tests compare a single swarm with stored numbers", [B + "operators.py", B + "handlers.py"],
     [("position rule", B + "operators.py compute_position")], [], ["compute_position's result"])
prop("C09", "No boundary strategy ever leaves a particle outside the bounds",
     "Whatever position a particle is moved to, after any of the six boundary strategies (nearest, random, shrink, "
     "reflective, intermediate, periodic) every one of its coordinates lies within the bounds, for particles arbitrarily far outside and for all particles at once. "
     "The strategies keep the shape and always terminate.",
     ["inputs", "configurations"], "every position, previous position within the bounds, velocity, bounds and random "
     "number", "tests use one seeded swarm and one box; far-away particles, several violated coordinates, rounding and "
     "second calls are not reached", [B + "handlers.py", B + "operators.py"],
     [("boundary strategies", B + "handlers.py BoundaryHandler")], [("memory", "previous positions", B + "handlers.py")],
     ["the handler's result", "compute_position's result"])
prop("C10", "Each boundary strategy puts particles where its documentation says",
     "'nearest' puts a violating coordinate on the violated bound; 'reflective' mirrors it at the bounds until it is inside; "
     "'periodic' shifts it by whole widths of the box; 'intermediate' puts it midway between the particle's previous coordinate and "
     "the violated bound; 'shrink' moves the particle back along its last step to the point where it left the box; 'random' replaces a violating particle's position by a "
     "uniformly drawn position within the bounds, drawn for each particle. Particles (for coordinate-wise strategies: coordinates) inside the bounds are left exactly where they are.",
     ["inputs", "configurations"], "every position, previous position, bounds and random number; inside and outside mixed in "
     "every way", "tests assert containment only, not where particles end up", [B + "handlers.py"],
     [("boundary strategies", B + "handlers.py BoundaryHandler")], [("memory", "previous positions", B + "handlers.py")],
     ["the handler's result"])
prop("C11", "Option schedules follow their documented formulas",
     "With a schedule assigned to any of w, c1 and c2, each call returns for that option: linear variation end + (start-end)(N-t)/N; "
     "nonlinear modulation end + (start-end)(N-t)^n/N^n; exponential decay (start-end-d1) exp(1/(1+d2 t/N)); random: uniform "
     "between start and end (start+1 by default). Options without a strategy and all other keys keep their values, end values and "
     "modulation parameters default as documented (0.4, 0.8 c1, 1.0 c2; d1=0.2, d2=7, n=1.2), and the user's start options are never changed.",
     ["inputs", "configurations"], "every start and end value, d1, d2, n, iteration t of N, every assignment of strategies to "
     "options", "tests check a handful of formula values with one set of numbers", [B + "handlers.py"],
     [("schedules", B + "handlers.py OptionsHandler")], [], ["the options handler's result"])
prop("C12", "During a run every iteration uses the coefficients its schedule prescribes",
     "In every optimizer with option strategies, the velocity of iteration t of N is computed with the coefficients the "
     "schedule gives for t and N, starting from the user's initial coefficients, in every run of the same optimizer. "
     "Without strategies the initial coefficients are used throughout, and the initial coefficients and the schedule are never changed.",
     ["inputs", "histories", "configurations"], "every option strategy, optimizer, random number and start; repeated runs",
     "tests only check that runs with strategies finish", OPT + [B + "handlers.py"],
     [("schedule use", f + " optimize") for f in OPT[:3]], [("options", "current coefficients", B + "swarms.py")],
     ["velocity and position histories"])
prop("C13", "The returned cost and position are the best of everything the run evaluated",
     "For every optimizer and topology, a run returns the smallest cost the objective returned during that run and a "
     "position of the search space's dimension that was evaluated with exactly that cost. Every iteration evaluates every particle once; running "
     "again on the same optimizer starts from its current swarm and returns that run's own best, leaving earlier results alone.",
     ["inputs", "histories", "configurations"], "every sequence of costs (inf and nan included, at least one below inf), every start and "
     "random number; repeated runs", "tests run sphere with seeds and compare optimizers loosely", OPT + TOPO + [B + "operators.py"],
     [("returned best", f + " optimize") for f in OPT], [("best_cost, pbest_pos", "best found", B + "swarms.py")],
     ["optimize's result", "calls of the objective"])
prop("C14", "Histories faithfully record the run, one entry per iteration",
     "After a run the cost, mean personal best, mean neighbourhood best, position and velocity histories have one entry per iteration: the smallest cost so far, "
     "the mean of the personal best costs, the neighbourhood best cost, the positions that were evaluated in that iteration and the "
     "velocities belonging to them. The recorded best cost never rises and its last entry is the returned cost; entries are not changed by "
     "later iterations or runs.",
     ["inputs", "histories", "configurations"], "every sequence of costs, every optimizer, repeated runs",
     "tests check history shapes only", OPT + BASE, [("recording", "pyswarms/base/*.py _populate_history; optimize of each optimizer")],
     [("histories", "cost_history, mean_pbest_history, mean_neighbor_history, pos_history, velocity_history", BASE[0])],
     ["history properties of an optimizer"])
prop("C15", "A run stops early exactly when the best cost has stood still long enough",
     "With tolerance ftol and patience ftol_iter a run ends after the first iteration, later than the first ftol_iter ones, at which the best cost's change has been smaller than "
     "ftol*(1+|previous best cost|) in each of the last ftol_iter iterations, and otherwise after the requested number of "
     "iterations; without a tolerance every iteration is run. The rule is counted per run: an earlier run does not shorten a later one.",
     ["inputs", "histories", "configurations"], "every finite cost sequence, ftol, ftol_iter, number of iterations and runs",
     "tests try a handful of seeded runs and check only that a run was shorter", OPT, [("early stop", f + " optimize") for f in OPT],
     [("ftol history", "queue of recent standstills", OPT[0])], ["number of history entries"])
prop("C16", "A bounded run never evaluates a position outside the bounds",
     "With bounds set (default centre, any given initial positions within the bounds), every position passed to the objective, "
     "the returned position and the swarm's final positions lie within the bounds, for every boundary strategy, velocity strategy, "
     "clamp, optimizer and topology. It keeps holding in repeated runs and after resets.",
     ["inputs", "histories", "configurations"], "every start, bounds, random number and cost sequence; all six boundary and "
     "four velocity strategies; repeated runs", "tests check containment of one operator call, not of what the objective sees",
     OPT[:3] + [B + "handlers.py", B + "operators.py", B + "generators.py"], [("boundary handling", B + "operators.py compute_position")],
     [("position", "current positions", B + "swarms.py")], ["calls of the objective", "optimize's result"])
prop("C17", "Parallel evaluation changes nothing but the speed",
     "Evaluating a swarm over any number of worker processes returns the same costs in the same order as evaluating it at once, "
     "with every particle evaluated exactly once and all keyword arguments passed on. Whole runs show the same results and histories, "
     "workers are used only when asked for, and are released when the run ends.",
     ["inputs", "configurations"], "every positions, every objective that treats rows independently, every number of workers and particles "
     "(more workers than particles included)", "tests run one seeded optimizer with workers", [B + "operators.py"] + OPT,
     [("splitting and joining", B + "operators.py compute_objective_function"), ("pool", "optimize of each optimizer")], [],
     ["costs", "optimize's result", "histories"])
prop("C18", "Progress reporting never influences a run",
     "A verbose run and a silent run with the same random numbers and objective evaluate the same positions, record the same "
     "histories and return the same result, with and without early stopping. A silent run shows no progress bar.",
     ["inputs", "configurations"], "every start, random number and cost sequence; every optimizer",
     "tests never compare verbose and silent runs", OPT + ["pyswarms/utils/reporter/reporter.py"], [("reporting", "optimize of each optimizer; reporter.py")],
     [], ["optimize's result", "histories"])
prop("C19", "Every swarm starts inside the bounds, at the given positions, within the clamp",
     "Generated initial positions are uniform over the bounds (without bounds: between 0 and the centre), one per particle, with every coordinate within them; initial velocities are uniform "
     "over the clamp (default [0, 1)); discrete positions are bits, or permutations when not binary. Given initial positions are "
     "used exactly as they are, and rejected with an error when a coordinate is outside the bounds; a new optimizer holds "
     "empty histories, and every particle's best starts as its start.",
     ["inputs", "configurations"], "every bounds, clamp, centre, initial position and random number, every swarm size within the bounds",
     "tests sample a few seeded swarms and boxes", [B + "generators.py"] + BASE,
     [("generators", B + "generators.py generate_swarm, generate_discrete_swarm, generate_velocity, create_swarm")],
     [("swarm", "initial swarm", BASE[0])], ["create_swarm's result", "optimizer.swarm"])
prop("C20", "A reset optimizer behaves like a new one",
     "After a reset an optimizer has empty histories, its full swarm size and (if given) its initial positions, and with the same random numbers "
     "its next run evaluates the same positions, records the same histories and returns the same result as a newly created optimizer's first run. "
     "This holds whatever happened before the reset (only a static topology keeps its neighbourhoods).",
     ["inputs", "histories", "configurations"], "every history of runs before the reset, every option, boundary and velocity strategy",
     "tests check that a reset empties some attributes", BASE + OPT, [("reset", "pyswarms/base/*.py reset; optimizers' reset")],
     [("swarm, histories, handlers", "state of an optimizer", BASE[0])], ["optimize's result after a reset"])
prop("C21", "Binary swarms hold bits, each set with the sigmoid probability of its velocity",
     "Every position a binary swarm evaluates, records or returns consists of zeros and ones. After each iteration a bit is one "
     "exactly when its own uniform random number is below 1/(1+exp(-v)) of that component's velocity, and velocities follow the continuous rule "
     "and stay within the clamp if one is set.",
     ["inputs", "histories"], "every velocity, random number, start and cost sequence",
     "tests check dtype and shape", ["pyswarms/discrete/binary.py", "pyswarms/base/base_discrete.py", B + "generators.py"],
     [("bit rule", "pyswarms/discrete/binary.py _compute_position, _sigmoid")], [("position", "bits", B + "swarms.py")],
     ["calls of the objective", "histories", "optimize's result"])
prop("C22", "All randomness comes from numpy's seedable generator, one fresh number per use",
     "Two runs (or random searches) started after seeding numpy's global generator alike are identical, for every optimizer, topology and strategy. Every component of every "
     "velocity pull, generated position and velocity, bit decision and random strategy uses its own fresh random number; none is used twice.",
     ["inputs", "configurations"], "every value of the random numbers, every optimizer, topology and strategy",
     "tests fix seeds but never compare repeated runs or independence",
     [B + "operators.py", B + "generators.py", B + "handlers.py", TOPO[3], OPT[3], SEARCH[2]],
     [("draws", "numpy.random calls in operators, generators, handlers, topologies, search")], [], ["histories of two runs", "generated arrays"])
prop("C23", "A decorated scalar cost function is evaluated once per particle",
     "The cost decorator turns a function of one position into a function of a swarm that calls it exactly once per particle, in order, on that "
     "particle's position with the given keyword arguments, and returns one cost per particle. Positions are left alone, the name and docstring are kept, "
     "functions that do not return one number are rejected, and runs with the decorated function equal runs with a vectorised one.",
     ["inputs", "configurations"], "every position, every function value, every swarm size within the bounds",
     "tests decorate two functions and compare one swarm", ["pyswarms/utils/decorators/decorators.py"],
     [("decorator", "pyswarms/utils/decorators/decorators.py cost")], [], ["the decorated function's result"])
prop("C24", "Benchmark functions compute their documented formulas, row by row",
     "Each of the seventeen benchmark functions returns one cost per row of its input, equal to its published formula at that row, "
     "whatever the other rows are. The input is never changed.",
     ["inputs"], "every real input within the domain (and outside it where there is none), every number of rows and, where free, of columns within the bounds",
     "tests evaluate the minima only", ["pyswarms/utils/functions/single_obj.py"],
     [("formulas", "pyswarms/utils/functions/single_obj.py")], [], ["the functions' results"])
prop("C25", "Benchmark functions accept exactly their documented domain",
     "A benchmark function with a documented domain raises a value error if any coordinate of any row lies outside it (nan lies in no domain) and evaluates every "
     "input inside (limits included); a function defined for two dimensions raises an index error for any other number of columns.",
     ["inputs"], "every real input, every number of rows and columns within the bounds",
     "tests try one far-out value per function", ["pyswarms/utils/functions/single_obj.py"],
     [("domain checks", "pyswarms/utils/functions/single_obj.py")], [], ["errors raised by the functions"])
prop("C26", "Benchmark functions have their documented minima",
     "Each benchmark function takes its documented minimum value at its documented minimiser. No point of its domain has a smaller value (decided for all of them but cross-in-tray, eggholder and Holder table).",
     ["inputs"], "every point of the domain", "tests evaluate the minimiser but no other point",
     ["pyswarms/utils/functions/single_obj.py"], [("formulas", "pyswarms/utils/functions/single_obj.py")], [], ["the functions' results"])
prop("C27", "Grid search tries every combination once and returns the best",
     "A grid search evaluates one optimizer run for every combination of the given option values (scalars count as one value), each exactly once, and returns the "
     "best score (smallest, or largest if maximising) with the options that produced it. Every optimizer is built with the user's particles, dimensions, bounds and clamp and run "
     "with the user's objective and iterations; the user's options are left alone.",
     ["inputs", "configurations"], "every option grid within the bounds, every sequence of scores",
     "tests search two fixed grids with seeded optimizers", SEARCH,
     [("grid", SEARCH[1] + " generate_grid"), ("selection", SEARCH[0] + " search")], [], ["search's result", "optimizers built"])
prop("C28", "Random search tries the asked number of settings and returns the best",
     "A random search runs exactly the requested number of settings, each with c1, c2 and w uniform within their ranges, k an integer of its range and p as given, and "
     "returns the best score (smallest, or largest if maximising) with the settings that produced it. The user's options are left alone; a non-integer number of settings is rejected.",
     ["inputs", "configurations"], "every range, random number and sequence of scores", "tests search seeded ranges",
     SEARCH, [("settings", SEARCH[2] + " generate_grid"), ("selection", SEARCH[0] + " search")], [], ["search's result", "optimizers built"])
prop("C29", "Plots and animations are given exactly the recorded data",
     "The three-dimensional history prepared for surface plots contains, for every iteration and particle, the recorded two coordinates and the "
     "objective's value there. Contour and surface animations have one frame per iteration showing that iteration's positions, and, with a mesh, the "
     "objective's value at every grid point from the lower limits in steps of the mesh width; the cost plot draws the recorded costs against "
     "their iterations. Titles, labels, limits, levels and marks are those given, and parallel mesh evaluation changes nothing.",
     ["inputs", "configurations"], "every position and cost history, function and mark within the bounds; several meshes, any number of workers",
     "tests check the types of the returned plots only",
     ["pyswarms/utils/plotters/formatters.py", "pyswarms/utils/plotters/plotters.py"],
     [("mesher", "pyswarms/utils/plotters/formatters.py Mesher.compute_history_3d"), ("plots", "pyswarms/utils/plotters/plotters.py")],
     [], ["compute_history_3d's result", "calls of the drawing library"])
prop("C30", "User inputs are never written to; the objective gets the user's arguments",
     "No run or operator ever changes the options, strategies, bounds, clamp, centre or initial positions handed in by the user, nor the arrays returned by the objective, "
     "in any number of runs and resets. The objective is called with exactly the keyword arguments the user gave.",
     ["inputs", "histories", "configurations"], "every start, cost sequence and argument value; all strategies",
     "tests reuse inputs without comparing them", OPT + BASE + [B + "handlers.py", B + "operators.py", B + "generators.py"],
     [("copies", "constructors and operators"), ("argument forwarding", B + "operators.py compute_objective_function")], [],
     ["the user's objects after a run", "keyword arguments of the objective's calls"])
prop("C31", "Worker processes are scheduled and cleaned up by the operating system as asked",
     "Worker processes started for a run are all ended when the run ends, and a crashing worker surfaces as an error.",
     ["schedules", "fault_sequences"], "every schedule and crash of worker processes", "tests never crash a worker", OPT,
     [("pool", "optimize of each optimizer")], [], ["process table"])
prop("C32", "Runs converge towards the optimum",
     "On the benchmark functions a run of sufficient length comes close to the optimum.", ["inputs"],
     "every seed", "tests try fixed seeds", OPT, [("update rules", B + "operators.py")], [], ["optimize's result"])

NA = {
    "C31": "operating-system processes, pickling and crashes live outside the Python code that can be encoded; the pool is a contract stub (C17 decides what the code does with it)",
        "C32": "a statistical statement about long runs of a chaotic random process; no bounded symbolic query decides it",
}

TECH = "symbolic execution of the real Python code (all paths), claims decided by z3 over reals / IEEE-754 / uninterpreted functions"
NOTES = "All inputs, random numbers and objective values symbolic; every path within the stated bounds is enumerated by the solver and every claim is an unsatisfiability query; counterexamples are replayed on the real library before being reported. Trusted: the symbolic numpy layer (validated on every run by concrete replays of solver models on the real code), z3/cvc5, and the contract stubs named in the evidence's assumptions."
EXTRA = {
    "C09": " IEEE rounding covered with binary16 and a 8-bit format for the strategies where double precision is out of reach, exactly for the others.",
    "C24": " exp, sqrt, sin, cos and powers are functions of which only general facts are used.",
    "C26": " exp, sqrt, sin and cos are functions of which only general facts are used.",
    "C29": " matplotlib is replaced by a recorder.",
    "C11": " exp and pow are uninterpreted functions with monotonicity facts.",
    "C21": " exp is an uninterpreted function with monotonicity facts.",
    "C03": " The kd-tree and Delaunay are contract stubs (any result their documentation allows).",
    "C04": " The kd-tree and Delaunay are contract stubs (any result their documentation allows).",
    "C17": " The process pool is a contract stub.",
}


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "checks")) if f.startswith("c") and f[1:3].isdigit()}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")
    man = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": [], "not_applicable": [], "notes":
           "No hooks in /repo. Run a check with: /opt/venv/bin/python -m symx.run <id> [quick|thorough] (see DESIGN.md)."}
    for p in P:
        if p["id"] in have:
            cmd = "/opt/venv/bin/python -m symx.run %s " % p["id"]
            man["checks"].append({"property": p["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                                  "technique": p["technique"] or TECH, "level": "model_checking",
                                  "level_note": (p["note"] or NOTES) + EXTRA.get(p["id"], ""),
                                  "evidence_file": "evidence/%s.json" % p["id"]})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "no check yet")})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
