#!/usr/bin/env python3
"""Writes engine/spec.json: bounds, what lies outside, extra assumptions, parallel jobs."""
import json, os
S = {}
def s(id, bounds, outside, assumptions=(), jobs=8):
    S[id] = dict(bounds=bounds, outside=outside, assumptions=list(assumptions), jobs=jobs)

DIMSTUB = ('copies of coordinate/velocity vectors are made by a stub that asserts the dimension of the vector and '
           'copies exactly that many components')
CAPSTUB = 'Vec::with_capacity(n) reserves 8 slots instead of n: the capacity is only a hint'
F7 = ('the generic code is instantiated with the scalar type F_7 (exact arithmetic modulo 7, 2^-1 and so on exist): '
      'the rules are polynomials of degree < 7 in every variable, so an identity over F_7 pins down every '
      'coefficient up to multiples of 7; floating-point rounding is not examined')
SQ = ('the square root is replaced by the injective marker x + 1024, which the oracle undoes: what is decided is '
      'that the deviation is the root of the right variance')

s('C01', 'initial population 3, quick: 1 or 2 generations with 1 child each, thorough: 3 generations; every goal value is any f64 '
  '(NaN, infinities, ties); in each generation one selection rule kills a fixed, harness-specific subset (bit mask)',
  'larger populations, more children per generation, more than 3 generations; goal values reported when nobody survives')
s('C02', 'initial population 2 or 3, 1 or 2 generations (thorough 3), 0-2 pre-birth filters, 1-3 selections; the script of a '
  'generation (families, children, what each filter removes or inserts, who is killed) is one of 10 fixed scripts (one kills everybody) with '
  'families of 1-3 parents including repeated and reordered ones; all gene values, mutation results and goal values are symbolic',
  'other shapes of the generation; pairing results with invalid indices')
s('C03', 'both optimizers; populations of 1-2, genetic also 0 and one that dies out; scripts of up to 3 calls of find_min/next_iterations (thorough 4), 0-2 loggers; '
  'every answer of the stop checker symbolic (genetic: up to 2 iterations per call in quick, 3 in thorough) or iteration limits 0 to 3',
  'longer runs, more calls', [DIMSTUB])
s('C04', 'populations up to 3 (thorough 4), up to 2 generations with up to 2 children (thorough 3), limits 1-5, with and without '
  'the non-finite filter before the limit; every goal value any f64',
  'two consecutive generations that really kill, except with a population of 1 (memory); non-finite filter with more than '
  '3 individuals; the limit applied before the filter', [CAPSTUB], 6)
s('C05', '1-3 particles, 0-3 iterations in one or two calls (thorough: up to 3 particles and 2 iterations, 2 particles and 3); '
  'every goal value any f64; positions identified by a symbolic-free number so that the reported point is traced exactly',
  'more particles or iterations', [DIMSTUB], 6)
s('C06', '1-2 particles (thorough 3) of dimension 1-2, 1-2 iterations, 0-2 velocity corrections and 0-2 position corrections; '
  'positions, velocities, velocity-rule results and corrections are symbolic; the boundary harnesses take every f64 as initial '
  'position and as velocity',
  'more particles, dimensions, iterations', [DIMSTUB], 6)
s('C07', 'limits on 2-5 individuals (thorough 6) for a fixed set of dead individuals (in thorough every set of a population '
  'of 4, singles of 5) and a fixed limit 0-9; every goal value any f64; plus 2 (thorough 3) individuals with a symbolic set '
  'and a symbolic limit',
  'more individuals; killing more individuals than are alive directly', [CAPSTUB])
s('C08', '0-3 individuals or children of 1-3 genes (thorough up to 6 children), f32 and f64; every gene, goal value and interval '
  'bound is any float (interval bounds not NaN); any subset already dead',
  'longer chromosomes and populations')
s('C09', 'populations 0-5, families up to 3, partners up to 3, rounds up to 3 (thorough 6); every goal value any f64, every '
  'random draw symbolic; "can be selected" is a reachability query per individual (lowest and highest draw)',
  'larger populations and counts; the distribution of the draws')
s('C10', 'complete: every bit pattern of every type and every position 1..width-1; the random cross with every draw, f32 and f64',
  'positions 0 and width (outside the documented range)')
s('C11', 'every pair of finite f32/f64 values and every draw for the shape and the sign; equal normal parents for every exponent; '
  'mantissa cross for two fixed exponents and every mantissa, exponent cross for every pair of powers of two',
  'whether mantissa and exponent of unrelated parents are simultaneously crosses (decided separately)',
  ['exp2/powi with base 2 are replaced by their exact values (CBMC does not model them)'])
s('C12', 'integers: every value of u8/i8/i32/i64 with 2-4 parents whose partial sums are representable; floats: 2 parents of any '
  'magnitude < MAX/4 (hull), 2-4 parents from grids of 8-256 integers (thorough 4096) for the exact mean',
  'sums that overflow; five or more parents; the rounding error of the mean on the full float range')
s('C13', 'chromosomes of 0-3 genes (thorough 4); every gene, every draw and every single-gene result symbolic; probabilities any '
  'f64 in [0, 100]', 'longer chromosomes')
s('C14', 'complete in the value: every f32/f64 bit pattern and every draw; 0-3 bit changes (thorough 6)', 'more bit changes')
s('C15', '1-3 points of dimension 1-3, types f32, f64, u8, i32, i64; every draw and every interval (floats: finite with finite '
  'width; i64: magnitude up to 2^53); reversed and empty intervals are rejected for every such interval',
  'more points or dimensions; i64 intervals wider than 2^53',
  ['rand::distributions::Uniform / gen_range return any value of the documented range'])
s('C16', '1-2 particles (thorough 3) of dimension 1-2, 0-2 completed iterations before the observed step (thorough 3); positions, '
  'velocities, coefficients and draws symbolic; goal values follow a fixed order per harness that makes old, new, own and '
  'foreign best positions distinct; which position attracts: every finite goal value, 1 particle and 3 moves '
  '(thorough 2 particles and 3 moves)', 'goal values that are not finite; rounding', [F7, DIMSTUB], 6)
s('C17', '2-3 particles of dimension 1-2, 0-4 completed iterations before the observed step; positions, velocities, all seven '
  'coefficients and six draws per dimension symbolic; goal values follow a fixed order per harness; which of the six '
  'positions attracts or repels: every finite goal value, 1 particle and 3 moves or 2 and 2 (thorough 2 and 3)',
  'goal values that are not finite; rounding', [F7, DIMSTUB], 6)
s('C18', 'per-dimension limiter: complete for 0-3 dimensions, every float and every limit >= 0; absolute limiter: integer vectors '
  'of integer length (8 shapes, every sign pattern and rotation), limits n/4 with n < 64',
  'NaN velocities; other vectors of the absolute limiter',
  ['the square root is exact on squares of 0..32 and arbitrary elsewhere'])
s('C19', 'every iteration number 0..t_max for t_max in {1,3,4,10,100} (thorough also 5,16,1000), coefficients multiples of 1/8 of '
  'up to 5 bits; constant inertia: complete', 'other coefficients and t_max; iterations beyond t_max')
s('C20', 'iteration limit and threshold: complete (every usize, every f64); composites of 0-3 parts (thorough 6), one nesting level, '
  'every combination of answers; runs of 3 decisions (thorough 5) of a composite with a stagnation checker in either place', 'deeper nesting')
s('C21', 'sequences of 4-5 calls (thorough 7) with every pattern of advancing, repeated and restarted iteration numbers; goal values '
  'and deltas are small integers times 2^0, 2^900 or 2^-600; two calls: every f64 up to 1e300 and every delta; every limit',
  'longer sequences; limits above 2^40')
s('C22', '0-4 runs, every placement of failures (one harness each), dimension 1-2; values are integers of 1-3 bits, '
  'also at a distance of 2^30 from zero; averages of two values: every pair with NaN or infinity',
  'other values (rounding), more runs', [SQ])
s('C23', '0-4 runs (thorough 5) with any answers; predicates: complete for every f64/f32 goal, delta and expectation, 0-2 '
  'coordinates (thorough 3)', 'more coordinates or runs')
s('C24', '0-4 runs of 0-3 iterations, unions of two collections, real runs of both optimizers with up to 3 iterations (thorough); '
  'every goal value and every presence of a best solution symbolic; up to 5 calls of the counter per run',
  'more runs and iterations; resumed runs (they append a second result by design)')
s('C25', 'complete per coordinate: every float coordinate (NaN and infinities included), every closed interval of finite bounds, '
  'every draw and probability; 1-3 dimensions', 'more dimensions')
s('C26', 'values on integer grids of 2-6 bits per coordinate for dimension 1-3, f32 and f64; the sign for every finite float of '
  'dimension 2-3', 'values off the grid (rounding)', ['powi is replaced by exact multiplications for exponents -2..4'])
s('C27', '0-3 runs (thorough 4) of 0-3 iterations with every placement of missing solutions; goal values are integers of 1-3 bits; '
  'two runs: every pair of goal values with NaN or infinity',
  'larger finite values, more runs')
s('C28', 'dimension 1-3 (thorough 4); sign of Rastrigin: every f32 of magnitude < 1e18 in dimension 1 (thorough 2; f64 in 1), '
  'every cosine in [-1, 1]',
  'the numeric values of the trigonometric functions and of the global minimum of Schwefel',
  [F7, 'sin, cos, sqrt and abs are arbitrary functions of F_7 (any table), so the formula is decided for every such function; '
   'in the float harnesses cos is any value of [-1, 1] with cos 0 = 1'])
s('C29', '1 or 2 coordinates, 1-2 iterations, precisions 0, 3 and 5, every finite goal value, every iteration number, every letter '
  'a coordinate may print; time: every pair of durations up to 3 s in nanoseconds, 1 or 2 runs',
  'the conversion of numbers to digits (std), padding and the length of the padded line',
  ['Display of f64, usize, u64, u128 prints one letter that tells whether it is the expected number',
   'String buffers have a concrete capacity (stubs of String::push_str, with_capacity, fmt::format)',
   'Instant::now is a symbolic clock'], 8)
s('C30', '2-5 parents (thorough 6) that are powers of two 2^e, |e| <= 400 (f64) or 60 (f32), less with more parents',
  'parents that are not powers of two; products that overflow',
  ['powf, powi, ln, log2, exp, exp2, sqrt, cbrt are exact where the result is a power of two with integer exponent and '
   'otherwise return any value between the two neighbouring powers of two'])
s('C32', 'genetic: population of 1 or 2 with one newborn per iteration, every part replaced alone and all together, lists of 0-2 '
  'replaced by lists of 0-2; swarm: 1-2 particles in one dimension, the same for its four parts, lists of '
  '0-2; one iteration between two replacements, up to 4 replacements (thorough 5), restart at the end; every goal value any f64',
  'longer lists, more iterations and particles', [DIMSTUB])
s('C33', 'populations of up to 4, 2 generations (thorough 3) with 0-2 newborn, fixed kills; swarms of 1-3 particles of dimension 1-2, '
  '1-2 iterations; every point, every goal value, every velocity any f64 (u64 for chromosomes)',
  'larger populations and swarms, more iterations', [DIMSTUB])
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine/spec.json')
json.dump(S, open(p, 'w'), indent=1)
