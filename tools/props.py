#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place where the property texts are kept)."""
import json, os
G='optlib/src/genetic/'; P='optlib/src/particleswarm/'; T='optlib/src/tools/'
ps=[]
def p(id,title,statement,over,q,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    ps.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p('C01','Genetic optimizer reports the true best and worst of every generation',
 'After every generation of the genetic optimizer that leaves at least one individual alive, the reported best (worst) solution is a member of that generation, together with exactly the goal value that the goal function returned for it, and no surviving individual has a smaller (larger) goal value. A NaN goal is never reported as best or worst while any surviving individual has a number. find_min returns the best of the last generation.',
 ['inputs','histories'],'all goal values (NaN, infinities, ties) of all points, all birth/kill histories over the generations',
 'the integration tests run a few well-behaved goal functions and only look at the final point; ties, NaN in any position and a dying best are never sampled',
 [G+'mod.rs'],[('update_best_worst_individuals, individuals_min_cmp/max_cmp','Population'),('next_iterations','GeneticOptimizer')],['Population::get_best/get_worst','AlgorithmState::get_best_solution','find_min result'])
p('C02','A generation runs pairing, cross, mutation, pre-birth, birth, selection in order',
 'In every generation the chromosomes of the individuals selected by pairing, in the order chosen, are crossed family by family; every child is mutated exactly once; every pre-birth filter sees the list left by the previous one; exactly the chromosomes that are left become individuals, each evaluated exactly once. Then every selection runs once, in order, on parents and newborn together, exactly the killed individuals disappear, and every survivor keeps its chromosomes and goal value without being evaluated again.',
 ['inputs','histories'],'all pairing results, children, mutants, pre-birth edits, kills and goal values',
 'tests use one fixed stack of operators and only observe the final optimum; a child evaluated before mutation or an individual evaluated twice still converges',
 [G+'mod.rs'],[('run_pairing, next_iterations','GeneticOptimizer'),('push/append/remove_dead','Population')],['calls of the user-supplied operators','calls of the goal function'])
p('C03','Iterations, stop checks, logger events, restart and resume follow the protocol',
 'Both optimizers ask the stop checker before every iteration, with the number of iterations completed so far in this run, and perform an iteration exactly when it answers no, so that a limit of n iterations performs exactly n. Loggers see start once per find_min, resume once per call, next_iteration exactly once after every iteration with its number, finish once at the end. A second find_min starts from scratch: new initial points, iteration number 0, nothing remembered from the previous run; next_iterations continues the run where it stopped.',
 ['histories','configurations'],'all answers of the stop checker, all sequences of find_min / next_iterations, both optimizers, any number of loggers',
 'no test reuses an optimizer, resumes it, or counts iterations and logger events',
 [G+'mod.rs',P+'mod.rs'],[('find_min, next_iterations','GeneticOptimizer, ParticleSwarmOptimizer'),('reset, next_iteration','Population, Swarm')],['StopChecker::can_stop','Logger events','AlgorithmState'])
p('C04','With population-limit selection the best goal never gets worse',
 'When the only killing rule of a genetic run is limiting the population to a positive size, optionally after killing the non-finite goal values, the best goal value reported after a generation is never worse than the one reported after the previous generation, and never worse than any goal value obtained so far in the run (non-finite values aside).',
 ['inputs','histories'],'all goal values of all individuals, all generations',
 'needs the interplay of truncation selection and best tracking for every order of goal values; a lost best individual is found again by luck in the stochastic tests',
 [G+'selection/mod.rs',G+'mod.rs'],[('kill_worst, LimitPopulation, KillFitnessNaN','selection'),('update_best_worst_individuals','Population')],['AlgorithmState::get_best_solution'])
p('C05','Particle swarm never loses the best point found so far',
 'At every moment the swarm optimizer reports the best of all points evaluated in this run up to the end of the last completed iteration (the initial points included): a point that was evaluated, with exactly its goal value, such that no evaluated point has a smaller finite value. A non-finite goal value (NaN or infinity) is reported only if no finite value has been seen.',
 ['inputs','histories'],'all goal values (NaN, infinities, ties) of all evaluated points, all iterations and particles',
 'tests look at the final error of convex functions only; the best point being overwritten by a later worse one or by NaN needs specific value orders',
 [P+'mod.rs'],[('compare_floats','particleswarm'),('update_best_particle, replace_particles','Swarm')],['AlgorithmState::get_best_solution','find_min result'])
p('C06','Particles move by their corrected velocity and are evaluated where they land',
 'In every iteration each particle moves exactly once: its new velocity is what the velocity rule returned after all velocity corrections in order, its new position is its old position plus that velocity after all position corrections in order, and its goal value is the goal function at exactly that position, evaluated once. Initial points pass the position corrections before their first evaluation, so with a boundary correction the goal function is only ever called with finite points inside the intervals, whatever the velocities.',
 ['inputs','histories'],'all initial positions and velocities (any float), velocity-rule results, corrections, iterations, particles',
 'tests only check that the final answer is close to the optimum; an evaluation outside the box or at a stale position does not fail them',
 [P+'mod.rs',P+'postmove/mod.rs'],[('renew_swarm, next_iterations','ParticleSwarmOptimizer'),('post_move','MoveToBoundary')],['arguments of the goal function','AgentsState::get_agents'])
p('C07','Limiting the population kills exactly the worst individuals',
 'Limiting the population to n leaves min(n, alive) individuals alive, never revives a dead one, and no individual it kills is better than one it leaves alive, where NaN is worse than every number. The same holds for killing a given number (at most the number alive) of worst individuals directly.',
 ['inputs'],'all goal values, all subsets already dead, all limits',
 'no unit test of the selection exists; the integration tests run it but never look at who is killed',
 [G+'selection/mod.rs'],[('LimitPopulation::kill, kill_worst','genetic/selection/mod.rs')],['Individual::is_alive'])
p('C08','Feasibility filters remove exactly the infeasible individuals',
 'The non-finite-goal filter kills exactly the individuals whose goal value is NaN or infinite. The interval filters, for living individuals and for chromosomes before birth, remove exactly those with a gene that is not finite or lies outside its closed interval, and keep all others unchanged and in order. No filter revives a dead individual.',
 ['inputs'],'all gene values (NaN, infinities, bounds themselves, subnormals), all intervals, all goal values',
 'no unit test feeds boundary values or NaN genes; the examples never produce them deliberately',
 [G+'selection/mod.rs',G+'selection/vec_float.rs',G+'pre_birth/vec_float.rs'],[('KillFitnessNaN, CheckChromoInterval','selection, pre_birth')],['Individual::is_alive','new chromosome list'])
p('C09','Pairing selects valid individuals and tournaments are won by the best contestant',
 'Random pairing returns half as many pairs as there are individuals (rounded down), and a tournament returns the requested number of families of the requested size; every selected index is valid for the population, and every individual can be selected. Each tournament winner is the best, NaN being worst, of its rounds+1 randomly drawn contestants. For an empty population both return no pairs instead of failing.',
 ['inputs','configurations'],'all random draws, all goal values, all population sizes, family, partner and round counts',
 'depends on every outcome of the random draws; no unit test of the pairing module exists',
 [G+'pairing/mod.rs'],[('RandomPairing, Tournament','genetic/pairing')],['get_pairs result'])
p('C10','Single-point bitwise crossover takes low bits from parent 2, high from parent 1',
 'For every pair of parents and every crossing position from 1 to the bit width minus 1, the child of the single-point crossover (all integer widths, signed and unsigned, and f32/f64 bit patterns) has exactly the bits below the position from the second parent and all other bits from the first. The random bitwise cross returns exactly one child, which is such a child for some position in that range; both ends of the range can occur.',
 ['inputs'],'all parents bit patterns of every width, all positions 1..width-1, all random draws',
 'doc tests try a handful of all-ones / all-zeros patterns per width',
 [G+'cross/mod.rs'],[('cross_u8..u64, cross_i8..i64, cross_f32/f64, CrossBitwise','genetic/cross')],['returned child'])
p('C11','Exponent/mantissa crossover yields one child built from parental parts',
 'Crossing two finite floats by independent single-point crossover of mantissa and exponent returns exactly one child and never fails. A child that is a number other than zero has the sign of one of the parents; if both parents are equal to the same normal number the child equals them.',
 ['inputs'],'all finite f32/f64 parents including subnormals and zeros, all random draws',
 'no test of this crossover exists',
 [G+'cross/mod.rs'],[('FloatCrossExp','genetic/cross')],['returned child'])
p('C12','Mean crossover yields the arithmetic mean of all parents',
 'The mean crossover of two or more parents returns exactly one child: the sum of all parents divided by their number (with integer genes, the integer quotient), whenever that sum is representable. Up to rounding it lies between the smallest and the largest parent and does not depend on any other state.',
 ['inputs'],'all parents of integer and float type for two to four parents',
 'three doc-test examples with small positive floats',
 [G+'cross/mod.rs'],[('CrossMean','genetic/cross')],['returned child'])
p('C13','Vector operators work gene by gene',
 'The vector crossover returns one child whose n-th gene comes from crossing the n-th genes of the two parents (first parent first), for every n and in order. The vector mutation returns a vector of the same length whose n-th gene is either the n-th gene unchanged or the single-gene mutation applied once to it; with probability 0 nothing is mutated, with probability 100 every gene is, and in between a gene may be mutated or kept.',
 ['inputs'],'all gene values, all results of the single-gene operators, all random draws, all lengths',
 'no unit test of the vector operators exists',
 [G+'cross/mod.rs',G+'mutation/mod.rs'],[('VecCrossAllGenes','genetic/cross'),('VecMutation','genetic/mutation')],['returned chromosomes','calls of the single-gene operator'])
p('C14','Bitwise mutation flips only as many bits as configured',
 'Bitwise mutation of a float with n bit changes is its bit pattern after flipping n randomly chosen, not necessarily distinct, bit positions: it differs in at most n bits, and the parity of the number of changed bits is that of n. Every bit position, sign, exponent and mantissa alike, can be chosen, and with n = 0 the value is unchanged bit for bit.',
 ['inputs'],'all f32/f64 bit patterns (NaN payloads included), all random draws, all n',
 'no test of the mutation module exists; random draws',
 [G+'mutation/mod.rs'],[('BitwiseMutation','genetic/mutation')],['returned gene'])
p('C15','Random initialisers fill the requested box with the requested number of points',
 'The random population creator, the random coordinate and velocity initialisers and the random vector creator return the requested number of vectors of the dimension of the interval list, every component drawn independently from its own closed interval, for floats and integers; the zero velocity initialiser returns only zeros. Both ends of an interval can occur, and an interval whose lower end is not below its upper end is rejected.',
 ['inputs','configurations'],'all random draws, all intervals, counts and dimensions',
 'the tests sample a thousand draws from three float intervals; rounding at the ends and integer types are not covered',
 [G+'creation/vec_float.rs',P+'initializing/mod.rs',T+'mod.rs'],[('RandomCreator','genetic/creation'),('RandomCoordinatesInitializer, RandomVelocityInitializer, ZeroVelocityInitializer','particleswarm/initializing'),('RandomVectorCreator','tools')],['returned vectors'])
p('C16','Classic, canonical and inertia velocity rules implement their equations',
 'In every dimension the new velocity is exactly: classic v + a*r1*(p - x) + b*r2*(g - x); canonical xi times that, xi = 2*alpha/(a + b - 2); inertia w(t)*v in place of v, with w asked for the current iteration number. Here x, v are the position and velocity of the particle itself, p its own best position so far, g the best position of the swarm, a and b the personal and global coefficients, and r1, r2 two independent random numbers in [0, 1] drawn anew for every dimension. A canonical rule without a + b > 4 and 0 < alpha < 1 is rejected.',
 ['inputs','histories'],'all positions, velocities, best positions, coefficients, random draws, iteration numbers',
 'there is no test of any velocity rule; wrong signs, swapped attractors or a shared random number still converge on the test functions',
 [P+'velocitycalc/mod.rs',P+'mod.rs'],[('ClassicVelocityCalculator, CanonicalVelocityCalculator, InertiaVelocityCalculator','velocitycalc'),('move_to, update_best_particle','Particle, Swarm')],['calc_new_velocity result'])
p('C17','Negative-reinforcement velocity uses all six attractors with the right signs',
 'In every dimension the new velocity is xi times the sum of the old velocity, the three attractions to the personal best, current-iteration best and global best positions, minus the three repulsions from the personal worst, current worst and global worst positions; each term is its own coefficient times its own random number in [0, 1] times the difference between that position and the particle position. Best and worst positions are extremal over what was really evaluated: the particle for personal, the present swarm for current, the whole run up to the last completed iteration for global.',
 ['inputs','histories'],'all positions, velocities, goal values, coefficients and random draws',
 'no test of this rule exists; six symmetric terms invite copy/paste mistakes that still converge',
 [P+'velocitycalc/mod.rs',P+'mod.rs'],[('NegativeReinforcement','velocitycalc'),('find_best/worst_particle, update_worst_particle, move_to','Swarm, Particle')],['calc_new_velocity result'])
p('C18','Velocity limiters bound the velocity and keep its direction',
 'The per-dimension limiter returns a velocity of the same length in which every component keeps its sign and has magnitude min(|v|, limit) of its own dimension; a component within its limit is unchanged. The absolute limiter returns a velocity within the limit unchanged, and otherwise scales it to the length of the limit without changing its direction (up to rounding, while the squared norm of the velocity is representable).',
 ['inputs'],'all velocities and all non-negative limits',
 'seven example velocities in unit tests',
 [P+'postvelocitycalc/mod.rs'],[('MaxVelocityDimensions, MaxVelocityAbs','postvelocitycalc')],['correct_velocity result'])
p('C19','Inertia schedules give the documented coefficient for every iteration',
 'The constant inertia returns its coefficient for every iteration. The linear inertia is w_max at iteration 0, w_min at iteration t_max, and in between w_max - (w_max - w_min)*t/t_max up to rounding, hence never increases while w_min <= w_max and stays within [w_min, w_max] for every iteration up to t_max.',
 ['inputs'],'all coefficients and all iteration numbers up to t_max',
 'no test of the inertia schedules exists',
 [P+'velocitycalc/mod.rs'],[('ConstInertia, LinearInertia','velocitycalc')],['Inertia::get result'])
p('C20','Iteration-limit, threshold and composite stop checkers decide as documented',
 'The iteration limit stops exactly when the number of completed iterations has reached the limit. The threshold stops exactly when a best solution exists and its goal value is less than or equal to the threshold (never for NaN). A composite stops exactly when any (all) of its checkers would stop, for every number, order and nesting of checkers; a checker with memory counts as if it had watched the run alone.',
 ['inputs','configurations'],'all iteration numbers, limits, thresholds, best goal values (None, NaN, infinities), all answers of the parts',
 'no unit test of the stop checkers exists',
 [T+'stopchecker/mod.rs'],[('MaxIterations, Threshold, CompositeAny, CompositeAll','tools/stopchecker')],['can_stop result'])
p('C21','Stagnation stop checker fires exactly after the configured quiet iterations',
 'The goal-not-change checker stops exactly when the best goal value has not moved by more than delta from the last noted value for more than the configured number of iterations; every move by more than delta is noted and restarts the count, and without a best solution it does not stop. Reusing the checker for a new run (the iteration number goes back) starts it afresh and never fails.',
 ['inputs','histories'],'all sequences of best goal values and iteration numbers, all deltas and limits, restarts',
 'a stateful property of sequences; the checker is never unit-tested or reused',
 [T+'stopchecker/mod.rs'],[('GoalNotChange','tools/stopchecker')],['can_stop result'])
p('C22','Averages and standard deviations are those of the successful runs',
 'Over the runs that have a solution, the average goal is their mean and the deviation the sample standard deviation (divisor n-1), both for goal values and for every coordinate of the solutions, up to floating-point rounding. There is no average without any solution and no deviation with fewer than two solutions; failed runs change neither.',
 ['inputs'],'all numbers and positions of failed runs, all goal values and coordinates of bounded magnitude',
 'unit tests use constant or arithmetic sequences; None in arbitrary places is sampled once or twice',
 [T+'statistics/mod.rs'],[('get_average_goal, get_standard_deviation_goal, get_average, get_standard_deviation','tools/statistics')],['returned values'])
p('C23','Success rate counts exactly the successful runs',
 'The success rate is the number of runs whose solution satisfies the predicate divided by the number of all runs, failed runs included, and is undefined only without any run. The goal predicate accepts exactly the solutions whose goal is closer than delta to the expected goal; the coordinate predicate accepts exactly those all of whose coordinates are within their own delta of the expected ones, so NaN is never a success.',
 ['inputs'],'all results (None, NaN, infinities), expectations, deltas, predicates',
 'a few examples; NaN and infinite coordinates are never tried',
 [T+'statistics/mod.rs'],[('get_success_rate, get_predicate_success_goal, get_predicate_success_vec_solution','tools/statistics')],['returned values'])
p('C24','Run statistics and call counters record every run and call exactly once',
 'After any number of uninterrupted runs the statistics hold one result per run, the solution the run returned, and one convergence entry per iteration of every run, the best solution after that iteration. The call counter of a run is the number of goal calls made since that run began, the wrapped goal value is passed on unchanged, the average is their mean. Uniting two collections appends all runs of the second to the first, losing and changing nothing.',
 ['inputs','histories'],'all sequences of runs, iterations, calls and unions, all solutions',
 'one integration test runs ten optimizations and checks lengths',
 [T+'statistics/mod.rs'],[('StatisticsLogger, Statistics, GoalCalcStatistics, CallCountData','tools/statistics')],['get_results, get_convergence, get_call_count, get_average_call_count'])
p('C25','Position corrections keep particles in the box',
 'The boundary correction leaves a coordinate inside its closed interval unchanged, moves one beyond an end to that end, and a NaN or infinite one to an end, so that every coordinate ends in its interval. Random teleportation either leaves the whole position unchanged or replaces every coordinate by a random value of its interval; with probability 0 it never happens, with probability 1 always.',
 ['inputs'],'all coordinates (NaN, infinities), all intervals, all random draws and probabilities',
 'three example positions; infinities, NaN and teleportation are untested',
 [P+'postmove/mod.rs'],[('MoveToBoundary, RandomTeleport','particleswarm/postmove')],['post_move result'])
p('C26','Polynomial test functions are never negative and vanish at their minimum',
 'The paraboloid is the sum of (x_n - n)^2 with n counted from 1, and the Rosenbrock function the sum of 100*(x_{n+1} - x_n^2)^2 + (1 - x_n)^2 over neighbouring coordinates. Both are never negative for finite arguments, exactly 0 at the documented minimum, and positive at every point of small integer coordinates other than it.',
 ['inputs'],'all finite points of dimension up to 3',
 'the doc tests evaluate the functions at the documented minimum only',
 ['optlib-testfunc/src/lib.rs'],[('paraboloid, rosenbrock','optlib-testfunc')],['returned value'])
p('C27','Average convergence averages the runs iteration by iteration',
 'The average convergence has as many entries as the shortest run has iterations, none without runs. Each entry is the mean (up to rounding) of the goal values of those runs that have a solution at that iteration, and is empty exactly if no run has one.',
 ['inputs'],'all numbers of runs and iterations, all positions of missing solutions, all goal values of bounded magnitude',
 'a few fixed tables in unit tests, mostly with equal lengths',
 [T+'statistics/mod.rs'],[('get_average_convergence, get_min_iterations','tools/statistics')],['returned vector'])
p('C28','Trigonometric test functions compute their documented formulas',
 'The Rastrigin function of n coordinates is 10 n plus the sum of x^2 - 10 cos(2 pi x), is never negative for finite arguments and 0 at the origin. The Schwefel function is 418.9829 n minus the sum of x sin(sqrt(|x|)).',
 ['inputs'],'all points, all values of the trigonometric functions',
 'the doc tests evaluate the functions at the minimum only',
 ['optlib-testfunc/src/lib.rs'],[('rastrigin, schwefel','optlib-testfunc')],['returned value'])
p('C29','Text loggers print every iteration and the final result',
 'The verbose logger writes exactly one line after every iteration that has a best solution, with the iteration number, the coordinates in order and the goal value in the chosen precision, and nothing else. The result logger writes, at the end only, all coordinates and the goal value of the final solution in the chosen precision, or that none was found, and the number of iterations. The time logger writes, at the end only, the whole milliseconds since the run was last started or resumed.',
 ['inputs','histories'],'all solutions, iteration numbers, precisions and durations',
 'no test looks at the output',
 [T+'logging/mod.rs'],[('VerboseLogger, ResultOnlyLogger, TimeLogger','tools/logging')],['bytes written'])
p('C30','Geometric-mean crossover yields the geometric mean',
 'The geometric-mean crossover of two or more positive parents returns exactly one child, the n-th root of their product whenever that product is representable, which lies between the smallest and the largest parent up to rounding.',
 ['inputs'],'all positive float parents',
 'three doc-test examples, compared one-sidedly',
 [G+'cross/mod.rs'],[('FloatCrossGeometricMean','genetic/cross')],['returned child'])
p('C31','Optimizers converge to the optimum of the test functions',
 'With the documented settings both optimizers find the global minimum of the test functions with high probability.',
 ['inputs','schedules'],'all random seeds',
 'tests sample a few seeds; the claim is probabilistic',
 [G+'mod.rs',P+'mod.rs'],[('whole system','optlib')],['find_min result'])
p('C32','Replaced parts of an optimizer take effect and the run goes on',
 'Replacing a part of an optimizer between two calls (genetic: pairing, cross, mutation, pre-birth filters, selections, stop checker, loggers; swarm: stop checker, loggers, velocity corrections, position corrections) takes effect from the next call on: only the new part is used, exactly as often as the run demands; a new list replaces the old list as a whole, every member once per step and in order; the other parts stay the same. Replacing evaluates nothing and changes neither the current points, nor their goal values, nor the iteration number, so the run continues with them.',
 ['configurations','histories'],'all sequences of replacements, list lengths, goal values, sizes, both optimizers',
 'the tests configure an optimizer once, run it once and look at the final point; a list that grows instead of being replaced, or a run silently restarted, still finds the optimum',
 [G+'mod.rs',P+'mod.rs'],[('set_pairing, set_cross, set_mutation, set_selection, set_pre_birth, set_stop_checker, set_loggers','GeneticOptimizer'),('set_stop_checker, set_loggers, set_post_moves, set_post_velocity_calc','ParticleSwarmOptimizer')],['calls of the user-supplied parts','population and swarm seen by them'])
p('C33','The agents shown to callbacks are exactly the evaluated points',
 'Whenever the population or the swarm is shown to a user-supplied part (pairing, pre-birth filter, selection, velocity rule), get_agents lists every current individual (particle) exactly once, each with the point it sits at and the value the goal function returned for exactly that point. For a population the number of individuals, the number of live ones, indexing, and the const and mutable iterators describe the same individuals in the same order; killing an individual through an index or an iterator shows in all of them. A goal function wrapped by GoalFromFunction returns what the function returns.',
 ['inputs','histories'],'all points, goal values (NaN, infinities, ties), kills, sizes, iterations, both optimizers',
 'no test looks at the agents of a running optimizer; a view that skips or repeats an agent or pairs it with an old goal value changes the final answer only slightly',
 [G+'mod.rs',P+'mod.rs','optlib/src/lib.rs'],[('get_agents, iter, iter_mut, index, len, len_alive','Population'),('get_agents, len, move_to','Swarm, Particle'),('GoalFromFunction','lib')],['AgentsState::get_agents','Agent::get_parameter/get_goal','Population accessors'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in ps: f.write(json.dumps(x)+'\n')
