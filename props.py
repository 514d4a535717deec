"""The properties: statement, what is analysed, what is assumed.  tools/gen.py writes
properties.jsonl and MANIFEST.json from this table; check.py writes the evidence from it."""

TECH = 'abstract interpretation: value-dependence graph in algebraic normal form compared with a declarative specification'
BASE = ('Static value-graph comparison over all inputs (symbolic sizes, data and tolerances); no code of '
        'the repository is executed and no solver is used. ')
TRUST = ('Trusts the front end and normal forms in sa/, the library summaries in sa/lib.py (numpy, '
         'gurobipy, csv, random) and the reference specification. ')
UNDEC = ('A construct outside the analysed language makes the obligation UNDECIDED (printed, exit 0), never '
         'a violation.')
REAL = 'real arithmetic for data: rounding is not modelled, only the named tolerances'
GRB = 'the solver returns what its documentation says for the model, status and attributes it is given'

PROPS = []


def P(id, title, statement, over, text, why, files, mech, explain, note='', assume=(), tech=TECH):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, explain=explain, note=note,
                      assume=list(assume) or [REAL], tech=tech))


P('C01', 'The solver model states exactly the chance-constrained program',
  'For any instance, and for any partition of its scenarios, the mixed-integer model handed to the solver in '
  'indicator form maximises the instance objective over variables of the declared type and bounds, has one '
  'binary indicator per scenario (or subset) that enforces every row of that scenario (of every scenario of '
  'that subset), and requires the indicators\' probability mass to reach one minus the tolerance. Warm-start '
  'values and pruning set only the start value of, respectively fix to zero, exactly the named indicators. '
  'Solution values are read back in the order of the variables and of the indicators.',
  ['inputs'], 'every instance (any number of items, rows, scenarios, any data, probabilities, tolerance), every partition, binary and continuous variables',
  'Tests solve a handful of tiny instances and compare optimal values; a wrong, missing or duplicated row that is not binding there passes.',
  ['src/optim/CCLPModel.py', 'src/optim/OptiModel.py', 'src/instance/PartitionChanceKnapInstance.py'],
  [('model construction', 'CCLPModel.build'), ('shared rows and chance constraint', 'OptiModel'), ('aggregated data', 'PartitionChanceKnapInstance')],
  'Abstract runs of the model constructor and build on a symbolic instance and on a symbolic partition; the multiset of '
  'solver effects (variables with type/bounds/size, objective and sense, general constraints, rows, starts), each with '
  'its guard and quantified loop indices, must equal the multiset of the reference formulation. Read-back functions are '
  'compared as indexed tables of the same variable group.', assume=[REAL, GRB])

P('C02', 'Big-M rows relax a scenario exactly when its indicator is off',
  'For any instance or partition and any vector of big-M values, the model handed to the solver in big-M form has, for '
  'every row of every scenario, "row at most right-hand side plus M times one minus the scenario\'s (subset\'s) indicator" with the M of that very row. '
  'A row whose M is negative beyond the numerical tolerance is left out only when all variables are continuous and is '
  'otherwise enforced with the right-hand side tightened by that M. Requesting lazy rows changes no row.',
  ['inputs', 'configurations'], 'every instance, partition and big-M vector, binary and continuous variables, lazy or not',
  'Tests compare optimal values on tiny instances where most big-M rows are slack; a shifted index or a dropped row is invisible.',
  ['src/optim/OptiModel.py', 'src/optim/CCLPModel.py'],
  [('big-M rows', 'OptiModel._add_bigM_constraint'), ('model construction', 'CCLPModel.build')],
  'Abstract runs of build(use_big_M=True) with the big-M provider left as an uninterpreted function of the subset index; solver effects '
  'compared with the reference big-M formulation. The sign tolerance is read from the source and must lie in (-1e-3, 0].',
  assume=[REAL, GRB])

P('C03', 'The deterministic model holds exactly the requested scenarios',
  'A deterministic model built for one scenario or a list of scenarios maximises the instance objective over variables of the declared type and bounds, subject to every row of each of these scenarios and no other row. '
  'Scenarios added later contribute all of their rows, and removing scenarios removes exactly the rows that were created for them.',
  ['inputs', 'histories'], 'every instance, every scenario list, single index or list, every add/remove after build',
  'Tests build two small models; leftovers of a removal or a skipped row only show up when the row binds.',
  ['src/optim/DeterModel.py', 'src/optim/OptiModel.py'],
  [('build/add/remove', 'DeterModel')],
  'Abstract runs of build, add and remove for a symbolic index and a symbolic list; effects (including which row objects are removed from '
  'which model) compared with the reference.', assume=[REAL, GRB])

P('C04', 'A partitioned instance aggregates its scenarios faithfully',
  'For every partition loaded, a subset\'s rows are the rows of its scenarios in order, its probability is the smallest probability of its scenarios '
  'divided by the sum of these minima, and the tolerance is divided by the same sum. '
  'Loading another partition leaves nothing of the previous one behind, and objective, bounds and variable types stay those of the original instance.',
  ['inputs', 'histories'], 'every instance, every partition (any number and sizes of subsets), every sequence of loads',
  'Tests load one partition of a 5-scenario instance with equal probabilities, where wrong aggregation or stale data cannot be seen.',
  ['src/instance/PartitionChanceKnapInstance.py'],
  [('aggregation', 'PartitionChanceKnapInstance.load_partition'), ('data access', 'get_matrix_A / get_vector_b / get_proba / get_epsilon')],
  'Every getter of the partitioned instance is lowered after one and after two symbolic loads and compared with the reference tables.')

P('C05', 'Feasibility verdict counts violated scenarios against the tolerance',
  'A point is declared feasible exactly when at most epsilon times the number of scenarios have at least one row violated by more than the numerical tolerance. '
  'The models whose solutions are tested keep rows and indicators at least ten times more exactly than that. '
  'The scenario flags, the list of violated scenarios and the feasible-scenario mask published with the verdict are those of the point checked last.',
  ['inputs', 'histories'], 'every instance and point, every sequence of checked points',
  'Tests check one point of one instance; boundary counts (epsilon times N integral or rounding below it) and stale flags are not reached.',
  ['src/instance/ChanceKnapInstance.py'],
  [('verdict', 'ChanceKnapInstance.is_feasible'), ('published flags', 'ChanceKnapInstance.check_feasibility')],
  'is_feasible and check_feasibility are lowered for a symbolic point, twice in a row for two points; verdict, count, flags and masks are compared '
  'with the quantified definition. Row tolerance must lie in (0, 1e-4], rounding slack in [0, 1e-3]. The row and integrality tolerances set before the solve of a chance-constrained model are collected as effects.')

P('C06', 'The upper bound only moves to a proven, no larger relaxation bound',
  'During an adaptive solve the upper bound starts at infinity or at the quantile bound of the scenario costs and is afterwards only ever replaced by the proven bound '
  'of the relaxation just solved, never increases (beyond rounding), and takes a smaller proven bound whenever the relaxation was solved in time. The largest-subset-cost bound is '
  'used only while the partition has floor(epsilon*N)+1 subsets. The stored upper-bound point is the solution of such a relaxation and moves along with the bound whenever its value does not exceed it. Subset costs used as bounds are solved to optimality.',
  ['histories', 'inputs'], 'every sequence of relaxation answers (point, objective, bound), any iteration, time-outs included',
  'Tests run one or two iterations on tiny instances whose relaxations are exact, so a bound taken from the wrong quantity or a lost improvement gives the same optimum.',
  ['src/solver/AdaptivePartitioner.py', 'src/Evaluator.py'],
  [('bound update', 'AdaptivePartitioner._upper_bound'), ('initial bound', 'AdaptivePartitioner._setup_initial_partition')],
  'The main loop of solve is lowered with every component replaced by an uninterpreted answer; for every way an iteration can end the joint leaves of the '
  '(bound, point) fields are enumerated with their path guards, and each must be the old pair or a proven bound that the guard shows to be no larger.', assume=[REAL, GRB])

P('C08', 'The adaptive method stops only on optimality, gap or time',
  'The main loop of the adaptive method ends only when the relaxation solution just computed is feasible for the original program, when the optimality gap of the current bounds is at most the requested gap, or when no time is left. '
  'It does not go on with a feasible relaxation solution. Lower bound equal to upper bound (with the same point) is reported exactly when the relaxation solution was feasible.',
  ['histories', 'inputs'], 'every sequence of component answers, any requested gap, any point in time at which the budget runs out',
  'Tests only see runs that end by feasibility on tiny instances; a premature or missing exit in another state of the loop is never reached.',
  ['src/solver/AdaptivePartitioner.py', 'src/solver/Solver.py'],
  [('main loop', 'AdaptivePartitioner.solve'), ('gap', 'Solver._compute_gap')],
  'The guard of every loop exit (with initial values and with the values carried over from a completed iteration) must be contradictory with: time left at every '
  'query, relaxation solution infeasible, gap of the exit state above the requested gap. Claims after the loop are checked per path.', assume=[REAL, GRB])

P('C07', 'Every lower bound comes with a point of that value',
  'A lower bound obtained from candidate solutions is the objective value of a candidate that the instance declares feasible, that does not exceed the upper bound and improves on the current lower bound, and it is the best such candidate. '
  'A lower bound obtained from the projected deterministic model is the optimal value of that solved model, returned together with the point of the same solution, and no bound is reported when the model is infeasible. '
  'The solver keeps a lower bound and its point together: whenever the lower bound changes, the stored point changes to the point that attains it.',
  ['inputs', 'histories'], 'every instance, every list of candidates, every sequence of projections and improvements',
  'Tests run one projection and one candidate list; order of candidates, ties, non-improving candidates and infeasible projections are not reached.',
  ['src/LowerBounder.py', 'src/solver/AdaptivePartitioner.py'],
  [('candidate search', 'LowerBounder.incumbent_bound'), ('projection', 'LowerBounder.deterministic_bound'), ('stored pair', 'AdaptivePartitioner')],
  'Value-graph comparison of both bounding entry points, and of the (bound, point) pairs left in the solver object by one symbolic iteration of the main loop: every leaf must be '
  'the old pair, the accepted candidate with its value, or the projection result with its value under "value > old bound".', assume=[REAL, GRB])

P('C09', 'Every partition holds each scenario exactly once',
  'The initial partition has the requested number of subsets, and after every initialisation, refinement and merge the partition contains every scenario in exactly one subset and no subset is empty. '
  'Initial subsets are of as equal size as possible; with the cost-based initialisation the scenarios are dealt out in turn in order of their single-scenario cost.',
  ['inputs', 'histories'], 'every number of scenarios and subsets, every cost vector, every set of violated scenarios, every random draw, every group of merged subsets',
  'Tests partition a few fixed instances with one random draw each; a scenario lost or duplicated for one particular size, draw or merge order is not sampled, and a lost scenario silently relaxes the chance constraint.',
  ['src/Initializer.py', 'src/refiner/Refiner.py', 'src/refiner/RandomRefiner.py', 'src/refiner/CostRefiner.py', 'src/Merger.py'],
  [('initial partition', 'Initializer.create_first_partition'), ('splitting', 'Refiner.refine'), ('merging', 'Merger.merge_all / merge_feasible')],
  'The partition each operation returns is derived as a function of its inputs (loops as recurrences) and compared with the reference operation; where the two are not identified, the '
  'derived function itself is searched for an admissible input on which the partition is not one.', assume=[REAL, 'random.sample and random.shuffle return permutations'])

P('C10', 'A refinement excludes the last solution with the fewest splits',
  'When a solution is feasible for the partitioned problem but not for the scenarios, refining the partition splits subsets until more subsets than the tolerated number floor(epsilon*N) contain a violated scenario, with exactly as many splits as that requires. '
  'It terminates without an error for every such input. Every subset of the result is part of one old subset, and the reported new subsets are exactly the positions whose content changed or was appended. The caller\'s partition is not modified.',
  ['inputs'], 'every partition, tolerance, set of violated scenarios admitted by the feasibility tests, every random draw, every split returned by the accurate split model',
  'Tests refine fixed partitions of ten or thirty scenarios; termination and the exact count depend on how violated scenarios are spread over subsets and on repeated splits of the same subset.',
  ['src/refiner/Refiner.py', 'src/refiner/RandomRefiner.py', 'src/refiner/CostRefiner.py'],
  [('random splits', 'RandomRefiner'), ('cost-based splits', 'CostRefiner'), ('number of splits', 'Refiner._find_number_of_splits_to_perform')],
  'refine is derived as a function of partition, violated scenarios, tolerance and random draws (while loops as recurrences with their trip counts; the accurate split as an uninterpreted valid split) and compared with the '
  'reference procedure; otherwise the derived function and its assertions are searched for an admissible input refuting one of the clauses.',
  assume=[REAL, 'random.sample and random.shuffle return permutations', 'the accurate split model returns two disjoint sides with a violated scenario each (C20)'])

P('C11', 'Merging joins exactly the selected subsets',
  'Merging a group of subsets replaces them by their union at the smallest position of the group, keeps all other subsets in order, and reports the merged position and the deleted positions of the partition before deletion. '
  'When more subsets are satisfied than needed, the merged group consists of the subsets with the largest scaled constraint margin at the given solution, one more than the number of splits made; when exactly as many are satisfied, all of them are joined with the costliest violated subset. With merging switched on, an iteration merges exactly when no subset that it split costs more than the upper bound.',
  ['inputs', 'histories'], 'every partition, group, solution, aggregated data and number of splits',
  'Tests merge one fixed pair or triple; the wrong position, order or group only shows for other index patterns.',
  ['src/Merger.py', 'src/solver/AdaptivePartitioner.py'],
  [('merging', 'Merger.merge_all'), ('selection by margin', 'Merger.merge_feasible'), ('position bookkeeping', 'Merger._delete_subsets')],
  'merge_all and merge_feasible are derived as functions of partition, group and margins and compared with the reference operations; otherwise the derived functions are searched for an input refuting a clause.')

P('C12', 'Partition, loaded instance, costs and big-Ms stay in step',
  'At the start of every iteration of an adaptive solve the partitioned instance holds exactly the solver\'s current partition and its number of subsets (initially floor(epsilon*N)+1), and the '
  'list of subset costs and solutions is that of the current partition: split subsets are re-evaluated in place or appended, deleted subsets are dropped and merge targets re-evaluated. '
  'Upper bounds and big-M values are computed from this current partition, its costs and the current upper bound.',
  ['histories', 'inputs'], 'every sequence of refinements and merges, any number of subsets',
  'A stale cost or partition only changes results when a later relaxation uses it, after several split/merge rounds on instances larger than the test ones.',
  ['src/solver/AdaptivePartitioner.py'],
  [('split bookkeeping', 'AdaptivePartitioner._split'), ('merge bookkeeping', 'AdaptivePartitioner._post_merge_processing'), ('setup', 'AdaptivePartitioner._setup_initial_partition')],
  'Fields of solver and partitioned instance at the end of every path through an iteration are compared with each other and with a reference update of the cost lists (as folds over the reported new, deleted and target subsets).')

P('C13', 'Naive and knapsack big-M values bound the largest violation',
  'With the naive method the big-M of a row is the sum of its coefficients minus its right-hand side. With the knapsack (Belotti et al.) method it is an upper bound on the largest violation of the row over all points whose objective is at most the given upper bound, '
  'and no larger than needed: exactly the fractional-knapsack optimum when all variables are continuous, the proven bound of the maximisation problem over binary variables solved to optimality otherwise. '
  'This holds for rows of scenarios and for rows of subsets of any partition; values of an earlier method or partition do not survive an update, and an unknown method name is rejected. '
  'The extended formulation is solved with these values, for the quantile upper bound of the single-scenario costs.',
  ['inputs', 'histories', 'configurations'], 'every instance, row, partition, upper bound, method, sequence of updates',
  'Tests check the naive value of one row of a two-row instance and only run the knapsack method; a value that is too small cuts off optimal solutions only on rows that bind.',
  ['src/BigMFinder.py', 'src/song_big_m.py', 'src/optim/BigMKnapsackModel.py', 'src/solver/MilpSolver.py'],
  [('naive values', 'BigMFinder._naive_bigM'), ('knapsack values', 'BigMFinder.run_belotti_et_al_big_M'), ('fractional knapsack', 'solve_continuous_knapsack')],
  'The entry for a symbolic row is derived from the source as a function of the instance data and the bound; the naive entry is compared with its definition, the knapsack entry with the greedy reference, otherwise searched for data on which it is '
  'below (or above) the exact fractional-knapsack optimum. For binary variables the solver effects of the knapsack problems and the attribute read are compared with the reference.', assume=[REAL, GRB])

P('C14', 'Quantile big-M values never cut off a feasible point',
  'With the Song et al. method, the big-M of a row is at least the violation that remains after ignoring the floor(epsilon*N) smallest of its per-scenario violation bounds (of its per-subset minima when a partition is used), and at most the next larger of these bounds; '
  'it exists for every tolerance below one. The table of pairwise violation bounds is computed from all scenarios of the original instance and is unchanged by later updates. The extended formulation is solved with these values.',
  ['inputs', 'histories'], 'every table of violation bounds, tolerance below one, number of scenarios, partition with more than floor(epsilon*N) subsets, sequence of updates',
  'Tests only run the method on one instance with tolerance 0.2; wrong quantile indices, aggregation over the wrong subset or a table destroyed by sorting show up as silently wrong optima.',
  ['src/BigMFinder.py', 'src/solver/MilpSolver.py'],
  [('quantile', 'BigMFinder._quantile_big_m'), ('aggregation over subsets', 'BigMFinder.run_song_et_al_big_m')],
  'With the pairwise table left symbolic, the entry for a symbolic row is derived as a function of the table, the partition and the tolerance (order statistics of sorted tables) and compared with the reference order statistic; otherwise searched for a table '
  'on which it lies outside the two admissible order statistics or indexes out of range. A second update is derived from the state the first one leaves.',
  assume=[REAL, 'scenarios are equally probable (as in all instances the program reads)'])

P('C16', 'Native pairwise violations are the fractional knapsack bounds',
  'compute_all_violations(A, b) returns a table with one entry per (scenario s, scenario t, constraint i). For s different from t the entry is the largest violation of row i of s that one row of t permits: the minimum over the rows l of t of the fractional knapsack value max{A[s,i]x : A[t,l]x <= b[t,l], 0<=x<=1} minus b[s,i], up to round-off. '
  'For s = t it is at most zero and at most these bounds over the other rows of s, and not below the smallest of them and zero.',
  ['inputs'], 'every non-negative A and b, number of scenarios, constraints and items, and every order std::sort may give to equivalent items',
  'The kernel is only compared with the Python version on a few random matrices; index arithmetic, greedy order, zero weights, ties, tight capacities and the early exit are not sampled, and a wrong bound silently cuts off optimal solutions.',
  ['violations.h', 'violations.pyx'],
  [('kernel', 'violations.h computeAllViolations, compute, update, Comp'), ('wrapper', 'violations.pyx compute_all_violations')],
  'The C++ kernel is translated from the syntax tree of clang into the analysed language (pointers as array and offset) and lowered with its Cython wrapper to one term over symbolic flat buffers, loops as folds, std::sort as an arbitrary order consistent with the comparator. '
  'The term is compared with that of a reference kernel; otherwise matrices are searched for on which its normal form lies outside the knapsack bounds.',
  assume=[REAL, 'matrices and right-hand sides are non-negative and free of weights in (0, 1e-6]', 'the C++ subset of sa/cfront.py; other constructs leave the property undecided'])

P('C15', 'The native kernel stays inside its buffers',
  'Every element the C++ kernel reads or writes through a pointer lies inside the array the pointer belongs to (matrix, right-hand side, result table, work arrays) for the sizes that the Cython wrapper passes, no null pointer is dereferenced, work arrays are released exactly once with the matching delete, '
  'and the comparator given to std::sort is a strict weak order on all non-negative data, zeros included.',
  ['inputs'], 'all sizes k, n, m >= 1 and all non-negative data',
  'An out of bounds read or write of one element or a comparator that is no order corrupts memory only for some sizes and data; the tests run a few sizes and no sanitizer.',
  ['violations.h', 'violations.pyx'],
  [('accesses', 'violations.h all pointer and array accesses'), ('comparator', 'violations.h Comp'), ('sizes', 'violations.pyx compute_all_violations')],
  'Abstract interpretation of the kernel with symbolic sizes: for each access the offset is a polynomial in loop indices and sizes; bounds are proved by substituting the loop bounds, and refuted by sizes and loop indices that satisfy the integer guards on the path. '
  'Allocation and release are paired per object; the comparator matrix is compared with that of a known strict weak order or searched for data on which it is none.',
  assume=['matrices and right-hand sides are non-negative', 'the C++ subset of sa/cfront.py; other constructs leave the property undecided'])

P('C17', 'The quantile and partition upper bounds are valid',
  'The quantile upper bound is the cost of the first scenario, in increasing order of cost, at which the cumulated probability reaches the tolerance (up to a tiny slack). '
  'The first iteration\'s upper bound is the largest subset cost, reported with the solution and indicator of that very subset. '
  'In later iterations only subsets whose cost lies below the current lower bound are fixed to zero, and the partitioned model solved is the current one with the requested options.',
  ['inputs'], 'every cost vector, probability vector, tolerance and lower bound',
  'Tests use one equal-probability instance; non-uniform probabilities, ties and pruning near the bound are not sampled.',
  ['src/UpperBounder.py', 'src/solver/Solver.py'],
  [('quantile bound', 'UpperBounder.ahmed_et_al_bound'), ('first iteration', 'UpperBounder.first_iteration_bound'), ('pruning', 'UpperBounder.partition_bound')],
  'Each bound is lowered to a term over symbolic costs and compared with its definition; the arguments with which the partitioned problem is solved '
  'are compared one by one; slack and pruning tolerance are read from the source and must lie in (0,1e-6] and (0,1].')

P('C18', 'The projection keeps enough scenarios to be feasible',
  'The deterministic lower-bound model contains exactly the scenarios with the smallest violation index of the given point, taken in increasing order until their probability reaches one minus the tolerance. '
  'With the counter rule the index is how often a scenario was satisfied so far. '
  'Scenarios left over from the previous projection are removed and missing ones added before the model is solved.',
  ['inputs', 'histories'], 'every instance, point, pair of successive points, probability vector, both selection rules',
  'Tests project once on an equal-probability instance; leftover or missing scenarios after a second projection are not reached.',
  ['src/LowerBounder.py', 'src/optim/DeterModel.py'],
  [('selection', 'LowerBounder'), ('model update', 'DeterModel.add / remove')],
  'Two successive projections are lowered from a fresh bounder with symbolic points; all solver effects (rows, removals, solves) are compared with the reference '
  'procedure; rows bounding the objective by the current lower bound are handled by C07.', assume=[REAL, GRB])

P('C20', 'The accurate split model evaluates the best split of a subset',
  'The model that evaluates a split assigns every scenario of the subset to exactly one side, puts at least one violated scenario on each side, and minimises the larger of the two sides\' linear-programming dual values over the instance rows of the scenarios assigned to the side. '
  'The two subsets read back contain exactly the scenarios assigned to the respective side.',
  ['inputs'], 'every instance, subset and set of violated scenarios',
  'No test builds this model on its own; it is only exercised through integration runs that compare final optimal values.',
  ['src/optim/AccObjModel.py', 'src/refiner/CostRefiner.py'],
  [('split model', 'AccObjModel'), ('read-back', 'AccObjModel.get_subsets')],
  'Solver effects of the split model compared with the reference dual formulation; the read-back conditions are evaluated on the two values of the binary assignment.',
  assume=[REAL, GRB])

P('C19', 'Warm starts name the surviving subsets selected last',
  'The relaxation of an iteration is warm-started by giving the value one to exactly those subsets of the current partition that were selected by the previous relaxation and survived since, at their position after the subsets deleted by merging are removed. '
  'Indicators and deletions used are those of the previous iteration: an iteration without a merge leaves no deletions behind.',
  ['inputs', 'histories'], 'every indicator vector, every list of deleted subsets in any order, every sequence of iterations with and without merges',
  'A misaligned warm start only slows the solver down or makes it fail at an index that no longer exists; tests on two or three subsets rarely merge twice.',
  ['src/Warmstarter.py', 'src/UpperBounder.py', 'src/solver/AdaptivePartitioner.py', 'src/solver/Solver.py'],
  [('start values', 'Warmstarter.get_z_start'), ('hand-over', 'UpperBounder.partition_bound, Solver.solve_cclp_model'), ('bookkeeping', 'AdaptivePartitioner main loop, Merger')],
  'The start values are lowered to a term over a symbolic indicator vector and a symbolic list of deleted subsets and compared with the reference, otherwise refuted by a valuation; hand-over of arguments is compared along the call chain; '
  'for each way an iteration of the main loop ends, the pairing of partition, indicators and recorded deletions is checked.')

P('C23', 'The time limit given by the user bounds every solver call',
  'At any moment the time granted to a solver call is the limit of the run minus the time elapsed since the run started, never negative and never more. '
  'Every model of the chance-constrained program is solved under such a limit, set before solving and reduced by the time its construction took; in the extended formulation it also excludes the time spent on the big-M values. '
  'The adaptive method starts no iteration without time left. If the limit is hit before any solution is found, no solution is reported, only the proven upper bound.',
  ['inputs', 'schedules'], 'every limit, every sequence of clock readings, every point of the solve at which the limit is reached',
  'Tests solve tiny instances in milliseconds: no test runs out of time, so negative, stale or missing limits and reads from an empty model never happen there.',
  ['src/TimeManager.py', 'src/solver/Solver.py', 'src/solver/MilpSolver.py', 'src/solver/AdaptivePartitioner.py', 'src/UpperBounder.py'],
  [('clock', 'TimeManager'), ('limit of a solver call', 'Solver.solve_cclp_model'), ('hand-over', 'MilpSolver.solve, AdaptivePartitioner.solve, UpperBounder.partition_bound')],
  'Clock readings are distinct symbols; the limit set on the model and the time handed from caller to callee are lowered to terms over them and compared with max(limit - (later - earlier), 0), otherwise refuted with a concrete clock. '
  'Limit parameter and solve effects are ordered along the trace; returned values are split by the number of solutions found.',
  assume=[REAL, GRB, 'the clock does not run backwards'])

P('C30', 'The reported gap is the relative distance of the two bounds',
  'The optimality gap is (upper - lower)/lower for finite bounds, infinite while one of the bounds is missing, and defined for every pair of bounds the methods can hold: a lower bound of zero never raises and is reported as closed only if the upper bound is zero too.',
  ['inputs'], 'every pair of bounds, infinite ones included',
  'Tests evaluate the gap on three fixed pairs of bounds; the zero lower bound (e.g. when only the zero solution is feasible) is not among them.',
  ['src/solver/Solver.py'],
  [('gap', 'Solver._compute_gap')],
  'The function is lowered once for symbolic finite bounds and for each infinite case and compared with its definition; otherwise bounds are searched for on which it differs or divides by zero.')

P('C26', 'The command line runs the requested method on the requested instance',
  'For each method number the script builds the instance from the given file, variable type and tolerance, and runs exactly one solver on it with the options of that method '
  '(1: extended formulation with the big-M values of Song et al., 2: with those of Belotti et al., 3: adaptive, random partition and split, no merging, 4: adaptive, cost partition and split, merging), '
  'a gap of 1e-4 and a limit of 3600 s, for the adaptive methods also as an alarm set beforehand and with big-M values of the solver\'s own partition. Afterwards it takes the final time and writes the result file, and the bound or iteration trace, under the name made of output folder, instance, tolerance, variable type and method. '
  'Every call fits the called function. The batch script passes its arguments in the order in which the script reads them.',
  ['inputs'], 'every instance path, tolerance and output folder, each method and variable type',
  'No test runs the script: a keyword the solver does not take, a wrong option or a wrong file name only shows when a full experiment is started.',
  ['main.py', 'run_all_experiments.sh', 'src/solver/MilpSolver.py', 'src/solver/AdaptivePartitioner.py'],
  [('script', 'main.py'), ('batch script', 'run_all_experiments.sh')],
  'The script is lowered for each method and variable type with symbolic remaining arguments; calls with their bound arguments, guards and order, the file names as string terms, and argument errors are checked against the table of methods. The batch script is parsed and its positional arguments are traced to its loop variables.')

P('C25', 'Result files hold what the summary reads, at the place where it reads it',
  'The result file of every method is one row: name, size, type and tolerance of the instance, time limit, gap, options, and results (run time, lower bound, upper bound, gap last; for the adaptive methods preceded by iteration and partition size; for the extended formulation the time spent on big-M values at the position the summary reads). '
  'All cells after the first are numbers for every option the solvers accept, and distinct options have distinct codes, each option in its own cell. A row can be written for every way a run ends; for the extended formulation its bounds are those of the model solved. '
  'The summary looks a result up under exactly the name the script writes it to, and averages time, gap, iterations and big-M time from the cells holding them.',
  ['inputs'], 'every instance, every combination of options a solver accepts, every end of a run, every experiment grid',
  'No test writes or reads a result file; an option without a code, a missing attribute, a shifted column or a different file name loses the results of an hour-long run.',
  ['src/solver/Solver.py', 'src/solver/AdaptivePartitioner.py', 'src/solver/MilpSolver.py', 'src/Informer.py', 'src/export/format_results.py', 'export_results.py', 'main.py'],
  [('writers', 'write_all_computation_details'), ('codes', 'Informer.adaptive_details, MilpSolver'), ('readers', 'format_results, export_results.py')],
  'The written rows are lowered to lists of terms and each cell is compared with its meaning; the reader is lowered over rows of named cells and compared with a reference that takes the positions found in the writers; the file name read is compared as a string term with the one written; options are enumerated.')

P('C24', 'A run stopped by the time limit still leaves valid results',
  'The adaptive methods are interrupted by an alarm at the time limit, at whatever point they are. From the first step of the solution process on, every value the lower and the upper bound take is a proven bound, so that the bounds on record are valid at every moment; everything the result and iteration files show exists. '
  'An optimisation that the alarm interrupts is never used as if it were finished, and no handler in between swallows the interruption. The script catches it, takes the final time and writes both files. (Construction of the initial partition is excluded.)',
  ['inputs', 'schedules'], 'every point of the solution process at which the alarm can arrive',
  'Tests never run into the time limit; a bound that is wrong only between two statements, a broad exception handler or an attribute set too late loses or falsifies the result of the instances that matter most.',
  ['main.py', 'src/solver/AdaptivePartitioner.py', 'src/solver/Solver.py', 'src/optim/OptiModel.py'],
  [('bounds', 'AdaptivePartitioner.solve'), ('files', 'write_all_computation_details, write_iteration_details'), ('interrupted solves', 'OptiModel.solve'), ('script', 'main.py')],
  'Every write of the two bounds inside the lowered main loop is an obligation: the value under its path condition must be one of the proven bounds. The writers are lowered on the state at the first call into each component. Handlers in all modules are searched for ones that catch the interruption without raising it again; the script is lowered with the exceptional edge from the solve call.',
  assume=[GRB])

P('C29', 'Bound traces record both bounds with their time, in order',
  'Every row saved while solving holds the elapsed time of the run, the incumbent and the bound at that moment, in this order and with the sign under which they are minimised; a row is saved whenever one of the two bounds changed. '
  'The adaptive trace has one row for each bound update with iteration, time since the start of the run, lower and upper bound, gap in percent and number of subsets. The file contains exactly the recorded rows in order, also when the solve is interrupted.',
  ['inputs', 'histories'], 'every sequence of solver callbacks and of bound updates',
  'No test reads a trace; swapped columns, a lost last change or rows of a previous solve pass every test.',
  ['src/optim/OptiModel.py', 'src/Informer.py', 'src/solver/AdaptivePartitioner.py'],
  [('callback', 'OptiModel._save_bounds_callback'), ('file', 'OptiModel.solve'), ('iterations', 'Informer.store_iteration_info, AdaptivePartitioner.write_iteration_details')],
  'The callback handed to the solver is lowered for symbolic previous and current bounds: appended row and condition are compared with the reference; effects of the solve are ordered (record, save, raise); the iteration rows and their number per bound update are lowered in the same way.',
  assume=[REAL, GRB])

P('C31', 'Summary tables show each experiment in its own row and column',
  'For the whole grid of experiments the summary reads every result once and writes, for each instance family and variable type, one row per tolerance and number of scenarios with the entries of the methods in order, each averaged over the replications of exactly that experiment. '
  'The entry in bold is the method with the smallest time, or, if none solved all replications, the one with the smallest gap among those that solved most. An experiment without a result file is shown as missing and never in bold. The grid summarised is exactly the one the batch script runs, and every result counts as solved below the requested gap. The table of big-M times averages the time cells of exactly the experiments of its row and column.',
  ['inputs'], 'every content of the result files; the grid is analysed with two values per dimension and four orders of the methods, solved and unsolved',
  'No test runs the export; an entry in the wrong row or column, a wrong replication or a wrong winner only shows in the published tables.',
  ['export_results.py', 'src/export/format_results.py', 'run_all_experiments.sh'],
  [('script', 'export_results.py')],
  'The script is lowered on a grid shortened to two values per dimension with one symbolic cell per experiment and column; the written tables are compared cell by cell with the averages and entries of the experiment of that row and column.',
  note='The grid is shortened to two values per dimension before lowering; the entry of one method is C25.')

P('C32', 'Costs of scenarios and subsets are optimal values of their own problems',
  'The cost of a scenario or subset is the optimal value, to a relative gap of at most 1e-6, of the deterministic problem with exactly its scenarios, computed without any limit that stops the solve early, and the solution returned with it is that of the same solve. '
  'Nothing evaluated earlier influences it. The lists of the costs of given scenarios, of all scenarios and of a partition (with its solutions) hold one entry per element, in order.',
  ['inputs', 'histories'], 'every scenario, subset, partition, every order of evaluations, reused list objects with another content',
  'The quantile bound, the first upper bound, the initial partition and the pruning all take these numbers for upper bounds; a cost remembered under the wrong key or solved loosely is still close to the right one.',
  ['src/Evaluator.py', 'src/optim/DeterModel.py', 'src/optim/OptiModel.py'],
  [('single costs', 'Evaluator.subset_cost'), ('lists', 'Evaluator.scenario_costs, get_all_single_scenario_costs, partition_cost')],
  'Evaluator is lowered with the deterministic model (C03) as an uninterpreted optimum of the set of scenarios it holds; the returned terms of a history of evaluations are compared with that optimum of the argument, otherwise refuted by subsets on which they differ. Parameters set before the solve are collected as effects.', assume=[GRB])

P('C28', 'Instance files are read back as they were generated',
  'The generator writes one comma-separated file per instance, named after its numbers of items, constraints and scenarios and its index: a header with the three numbers, the profits, for each scenario in turn one row of weights per constraint, and the capacities. '
  'An item that fails in a scenario has weight zero in all its constraints; the other weights are drawn around the original ones, each separately, and never negative. The generation script makes every instance file that the experiments are run on. '
  'Reading such a file gives exactly these profits, weights of each scenario and constraint, and capacities (the same for all scenarios), rounded to one decimal, equal probabilities, the requested tolerance, and binary variables or, on request, continuous ones between 0 and 1.',
  ['inputs'], 'every well-formed original instance file, numbers of scenarios and instances, and random draws',
  'The generator has no test and the tests read one tiny file; a row read at the wrong place still parses and gives a plausible instance with other weights.',
  ['data/cc-instances/knapsack/instance-generator.py', 'data/cc-instances/knapsack/generate-all-instances.sh', 'run_all_experiments.sh', 'src/instance/ChanceKnapInstance.py', 'src/instance/ChanceInstance.py'],
  [('data/cc-instances/knapsack/instance-generator.py', 'script'), ('src/instance/ChanceKnapInstance.py', 'ChanceKnapInstance')],
  'Reader and generator are lowered on an unknown file of any size; each value read and each row written is compared in normal form with the position the file layout gives it, and the draws behind a weight are checked for what they depend on.',
  note='The numerical distribution of the draws beyond their parameters is not claimed.')

P('C27', 'Random choices are the same in every run of an experiment',
  'Every random draw of the methods comes from the generator that the command line seeds with a constant before anything is drawn; nothing seeds it again, no draw comes from an unseeded or entropy-based source or at import time, and no choice depends on an order that differs between runs. '
  'Two runs of the same command on the same instance thus draw the same initial partition and the same splits.',
  ['inputs', 'histories'], 'every module the command line uses, both adaptive methods',
  'A test sees one run; two runs that differ are only noticed when published results cannot be reproduced.',
  ['main.py', 'src/Initializer.py', 'src/refiner/RandomRefiner.py', 'src/solver/AdaptivePartitioner.py'],
  [('main.py', 'script'), ('src/refiner/RandomRefiner.py', 'RandomRefiner'), ('src/Initializer.py', 'Initializer')],
  'Every use of a random source in the modules is resolved through the imports and classified; the script is lowered and the seed must be a constant set unconditionally before the first draw and the method.',
  note='Determinism of Gurobi itself is trusted.')

P('C21', 'A remembered split is the split of the subset it is used for',
  'When the cost refiner reuses the cost and the two halves of an earlier split, they are those the split model gives for exactly this subset with exactly the scenarios its last solution violates, whatever subsets and solutions came before. '
  'Remembered halves keep their contents when the partition they became part of is split, merged, loaded or evaluated.',
  ['inputs', 'histories'], 'every earlier and current subset and set of violated scenarios, and each operation on the partition',
  'A stale or damaged entry shows only after the same subset comes back in a later iteration with another violated set, which the tests never reach; the method then splits by a plan that does not exclude the solution.',
  ['src/refiner/CostRefiner.py', 'src/Merger.py', 'src/refiner/Refiner.py'],
  [('src/refiner/CostRefiner.py', 'CostRefiner._evaluate_single_accurate_split'), ('src/Merger.py', 'Merger')],
  'The memory is filled for an unknown subset and set of violated scenarios and used for other unknown ones on an abstract heap; each conditional result must be the answer for its own arguments. The lists in the memory are placed in a partition, and each operation on partitions is followed on the heap to see whether they change.')

P('C22', 'Solving never changes the instance',
  'Whatever method is run on an instance, and whatever is asked of it, its costs, matrices, right-hand sides, probabilities, tolerance and bounds stay as they were read: no component writes into an array it got from the instance (getters return live views), nor binds these fields again, and the native routine only reads them. '
  'The same holds for the probabilities and sizes of a partition between two loads, and for the stored table of violations of the Song et al. method.',
  ['inputs', 'histories'], 'every use of the arrays of the instance in the program, along all calls',
  'A view written in place leaves the result of that call right and corrupts what is computed later from the same instance: the next subset, the final feasibility check, or the next method; tests build a new instance for each case.',
  ['src/instance', 'src', 'violations.h'],
  [('src/instance/ChanceInstance.py', 'ChanceInstance'), ('main.py', 'chance_instance')],
  'Interprocedural may-alias analysis over the syntax trees from main.py and every other function: which expressions may be views of the arrays of the instance (slices, rows, reshapes, containers, arguments, fields, returned values), and every construct that writes in place. The native routine is translated and analysed the same way, with the two input buffers as the arrays.')

NOT_APPLICABLE = [
    ('N01', 'All solution methods return the same optimal value',
     'equality of optima of different algorithms is a statement about solver numerics and mathematical arguments over runtime values; '
     'the structural necessary conditions (formulations, bounds, exit guards) are claimed separately'),
    ('N02', 'The adaptive method terminates after finitely many iterations',
     'termination needs a progress argument over the runtime partitions and solver answers; only the per-iteration split rule has static content (claimed separately)'),
    ('N03', 'The compiled violation routine and the Python reference return equal numbers',
     'numerical equality of two different summation orders and tie rules is a runtime quantity; coverage and pairing of the compiled routine are claimed separately'),
]
