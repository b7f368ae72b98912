"""The checks: harness parts, case counts, evidence rules, manifest texts."""
from run import Part, MPI_INC, MPI_LIB, NW

CHECKS = {}


def check(pid, **kw):
    CHECKS[pid] = kw


GRAPHS = ('A case is a simple graph from ~24 families (G(n,p), trees+edges, grids, tori, hypercubes, K_n, multipartite, wheels, Petersen, theta, cactus, ladders, '
          'circulants, forests, disjoint unions, pendant/bridge/isolated decorations, subdivisions; all labelled graphs on <=5 vertices exhaustively) with one of 12 weight classes, '
          'random renumbering, edge order and orientation. ')

check('C01',
      parts=lambda env: [Part('exact1', 'checks/exact.cpp', 60000, 900000, defs=('PROP=1',))],
      rule=GRAPHS + 'Each case runs the three sequential exact algorithms (double, int or set-based adjacency). Non-trivial: cycle-space dimension >= 2. distinct = distinct case texts.',
      technique='property-based testing: random + exhaustive small graphs, basis-validity oracle (union-find dimension, simple-cycle test, GF(2) rank)',
      note='Exploration: every emitted list is decided by an independent predicate, but only on generated graphs (mostly n<=24, some to ~100). Trusts Boost.Graph containers.')
check('C02',
      parts=lambda env: [Part('exact2', 'checks/exact.cpp', 60000, 900000, defs=('PROP=2',))],
      rule=GRAPHS + 'Each case runs the three sequential exact algorithms and compares return value and sorted cycle weights with an independent exact optimum. Non-trivial: cycle-space dimension >= 2.',
      technique='property-based testing: differential against an independent exact minimum-cycle-basis oracle (itself cross-checked by brute force)',
      note='Exploration: optimality is decided exactly (int64) on every generated graph; graphs mostly n<=24, some to ~100.')

check('C12',
      parts=lambda env: [Part('sptree', 'checks/trees.cpp', 120000, 2500000, defs=('PROP=12',))],
      rule=GRAPHS + 'Each case builds the shortest-path trees of all sources and checks every ordered pair. Non-trivial: at least one pair has several shortest paths (a tie).',
      technique='property-based testing: Floyd-Warshall reference distances plus structural consistency predicates over all pairs of trees',
      note='Exploration over generated graphs with exactly summable weights; all ordered vertex pairs of each graph are decided.')
check('C13',
      parts=lambda env: [Part('fvs', 'checks/structs.cpp', 120000, 2500000, defs=('PROP=13',))],
      rule=GRAPHS + 'All labelled graphs on <=6 vertices exhaustively. Each case runs greedy_fvs. Non-trivial: at least two vertices emitted.',
      technique='property-based testing: union-find acyclicity of the remaining graph, distinctness, emptiness on forests',
      note='Exploration over generated graphs (exhaustive for all labelled graphs with <=6 vertices, random beyond, up to ~300 vertices).')
check('C14',
      parts=lambda env: [Part('cands', 'checks/trees.cpp', 80000, 1500000, defs=('PROP=14',))],
      rule=GRAPHS + 'Each case builds the Horton, FVS and isometric collections and checks every candidate. Non-trivial: cycle-space dimension >= 2.',
      technique='property-based testing: per-candidate validity predicate, multiset inclusion, greedy sufficiency against an independent exact optimum',
      note='Exploration over generated graphs with exactly summable weights.')
check('C16',
      parts=lambda env: [Part('forest', 'checks/structs.cpp', 120000, 2500000, defs=('PROP=16',))],
      rule=GRAPHS + 'Some cases add self-loops and parallel edges; all labelled graphs on <=6 vertices exhaustively. Each case also checks copies and assignments. Non-trivial: at least one off-forest and one forest edge.',
      technique='property-based testing: bijection and spanning-forest predicates (union-find)',
      note='Exploration over generated (multi)graphs.')
check('C17',
      parts=lambda env: [Part('gf2', 'checks/gf2.cpp', 60000, 1500000, libs=('-lboost_serialization', '-ltbb', '-lboost_timer'), ndebug=False)],
      rule='A case is a history of up to 120 operations (construction from nothing/index/set, copy, move, assignment, self-assignment, +, +=, self-addition, append, clear, swap, serialisation) on five vectors over size_t/int/unsigned/unsigned char coordinates; after every operation all vectors and several products are compared with std::set models. Non-trivial: an addition in which at least one coordinate cancelled.',
      technique='stateful model-based property testing against a set reference model',
      note='Exploration over generated histories; every intermediate state is compared.')

check('C18',
      parts=lambda env: [Part('fp', 'checks/fp.cpp', 60000, 1500000, libs=('-lboost_serialization', '-ltbb', '-lboost_timer'), ndebug=False),
                         Part('fp-ubsan', 'checks/fp.cpp', 12000, 200000, libs=('-lboost_serialization', '-ltbb', '-lboost_timer'),
                              flags=('-fsanitize=signed-integer-overflow,integer-divide-by-zero', '-fno-sanitize-recover=all'))],
      rule='A case is a block of integer pairs (small dense blocks, Fibonacci numbers, highly composite numbers, type limits, zeros, multi-limb values over int/long/short/cpp_int), or of integers for is_prime (dense from 2, around prime squares, near type limits), or a history of up to 40 operations on four F_p vectors (p from 2 to 2^89-1). Non-trivial: both gcd arguments non-zero / inverse exists / primality decided / some coordinate wrapped modulo p.',
      technique='property-based testing: Bezout identity in big integers, deterministic Miller-Rabin, stateful model (dense F_p vectors in cpp_int)',
      note='Exploration; is_prime values are chosen so that trial division is affordable (least factor or square root below 10^6). Pairs whose gcd is not representable in T (e.g. INT_MIN, 0) are outside the domain.')
check('C10',
      parts=lambda env: [Part('dimacs', 'checks/dimacs.cpp', 300000, 6000000)],
      rule='Two thirds of the cases are generated DIMACS texts (comments incl. lines around and beyond 1024 bytes, e/a lines, omitted/decimal/exponent/negative weights, tabs, blank lines, missing final newline, mismatched edge counts, undeclared vertices incl. 0, negative and >2^32 values, leading zeros, up to 140000 vertices), read through tmpfile or fmemopen; one third are (multi)graphs with loops, parallel edges and non-positive weights (incl. subnormal ones and near-equal vertex pairs in large graphs) in vector, list and multiset edge containers for the validators. Non-trivial: >= 2 edge lines or an undeclared vertex / at least one defect present.',
      technique='grammar-based generation with a reference interpretation of the text; naive validator predicates',
      note='Exploration over generated texts and graphs.')

for _p, _n, _r, _t in ((5, 60000, 'Non-trivial: cycle-space dimension >= 2.', 'basis-validity oracle in caller descriptors, weights read back through the caller\'s map after the call'),
                       (6, 60000, 'Includes k = 0. Non-trivial: cycle-space dimension >= 2.', 'differential against the exact optimum (bound, equality for k = 1), rejection of k = 0'),
                       (15, 60000, 'Non-trivial: at least one retained and one dropped edge.', 'spanner captured through a spy exact phase (template argument); BFS oracle for stretch, weight and girth')):
    check('C%02d' % _p,
          parts=lambda env, _p=_p, _n=_n: [Part('approx%d' % _p, 'checks/approx.cpp', _n, 12 * _n, defs=('PROP=%d' % _p,))],
          rule=GRAPHS + 'Some graphs are subdivided so that spanners keep cycles. k in 1..6, n/2+1, n+1, 10^6, 2^31, 2^63, 2^63+1, SIZE_MAX; double, int, set-based adjacency, external weight map (interior weights differ). ' + _r,
          technique='property-based testing: ' + _t,
          note='Exploration over generated graphs with exactly summable weights.')

check('C09',
      parts=lambda env: [Part('inexact', 'checks/inexact.cpp', 36000, 700000), _ranks('inexact-ranks', 9, 1200, 30000)],
      rule=GRAPHS + 'Here weights are arbitrary doubles in [1e-3, 1e3] of 12 classes (decimal fractions that tie in decimal but not in binary, few-ulp near ties, arbitrary mantissas, log-uniform, extremes, Manhattan distances in tenths). Each case runs the three sequential and three TBB exact algorithms (evaluations counts runs); part inexact-ranks runs the five MPI variants on 1-16 rank processes (stand-in MPI, heap layouts per rank). Non-trivial: cycle-space dimension >= 2 and some pair of weights whose sum is rounded.',
      technique='property-based testing: basis-validity oracle and optimum computed on the exact values of the doubles (__int128), relative tolerance 1e-9',
      note='Exploration over generated graphs (n mostly <= 24).')

check('C08',
      parts=lambda env: [Part('meta', 'checks/meta.cpp', 20000, 400000), _ranks('meta-ranks', 8, 1200, 30000)],
      rule=GRAPHS + 'About one case in 1000 has 120-320 vertices and a dimension in the tens to hundreds. Each case compares the values reported by all six sequential/TBB exact variants (large graphs: two to four) and by a random variant on up to three transformed copies (renumbering, edge order/orientation, isolated vertices, pendant trees, bridges, disjoint union, subdivision, power-of-two scaling, compositions). Part meta-ranks compares the values reported by the five MPI variants on 1-16 rank processes, for the graph and a renumbered copy, with a sequential variant. Non-trivial: cycle-space dimension >= 2.',
      technique='metamorphic property-based testing (transformed copies, cross-variant differential)',
      note='Exploration over generated graphs; no optimum oracle is needed, so graphs of a few hundred vertices are covered.')

import demos

def _c20(env):
    one = Part('knob', 'checks/knob.cpp', 4000, 60000, flags=('-pthread',))
    return [Part('knob2', ['checks/knob.cpp', 'checks/knob_tu2.cpp'], 4000, 60000, defs=('KNOB_TU2=1',), flags=('-pthread',), fallback=one)]

check('C20', parts=_c20, custom=demos.c20_custom, replay=demos.c20_replay,
      rule='Library part: a history of up to 10 operations (set_global_tbb_concurrency(n) with 1 <= n <= 256, the cap of the TBB runtime itself from either of two translation units, library calls, sets and queries from another thread) in a fresh process; TBB\'s active value is compared with the model (last n set) after every operation and sampled by a scheduler observer while library calls run; threads are counted where the limit was set first. Demo part: random option lines (--cores n, verbose/parallel/algorithm/printcycles/k in all spellings) on random graphs, the active value sampled before and after every parallel algorithm (interposed TBB entry points). Non-trivial: at least two sets, or a set followed by another operation / at least one sample was taken.',
      technique='stateful property-based testing against a one-variable model, with a TBB scheduler observer; generated option lines for the demos',
      note='Exploration. --cores 0 (documented as all cores) and options that select a sequential algorithm are outside the property.')

import headers
check('C19', custom=headers.custom, replay=headers.replay,
      rule='Generated programs: every header under include/parmcb alone, in the four TBB/MPI configurations (configurations with the same preprocessed text are compiled once), with g++ (object code) and clang++; two units for every header and random (thorough: all) pairs, and one program with two units for every header, per configuration; random programs of one to three units with random ordered sets of headers and uses of the public interface after them. Every program counts as non-trivial.',
      technique='generative testing of programs: the oracle is the exit status of compiler and linker',
      note='Exploration of include sets and orders; C++14, g++ 13 and clang 18 with libstdc++. The one-header part is exhaustive over headers x configurations. Headers are compiled with the TBB and MPI packages installed; "off" means that the library is configured without them.')

check('C11', custom=demos.c11_custom, replay=demos.c11_replay,
      rule='DIMACS files (empty graph, forests, cycles, cliques, grids, random; up to 16 vertices; relabelled; weights that print exactly with six digits) of which half violate one, two or three preconditions (loop anywhere, parallel edge in either orientation, weight 0/-0/negative), and files of some 170-220 vertices and 10^4 edges that are rejected because of one edge; option lines in all spellings (algorithm switches, parallel, cores, verbose, printcycles, k, ways to name the file). Every small file runs with three option lines; the MPI demo runs under mpiexec with 1-8 processes, half of the runs with a wrapper that records each rank\'s own exit status. Non-trivial: the file is invalid, or its cycle space is not trivial.',
      technique='generated files and command lines run against the built programs; oracle: exit status, termination, diagnostic, printed weight against an independent optimum (Horton candidates with exact fractions)',
      note='Exploration. A run that does not end within 20-40 s (twice that when repeated) counts as not terminating.')

WRAP = ('-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_rwlock_rdlock,--wrap=pthread_rwlock_wrlock,--wrap=__cxa_guard_acquire,'
        '--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort,--wrap=pthread_once',)
TSAN = {'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_bugs=1:history_size=4:second_deadlock_stack=1'}

def _c03(env):
    sched = (('mock/sched/sched.cpp', ()),)
    real = lambda name, q, t: Part(name, 'checks/parallel.cpp', q, t)
    sl = sched + (('lib/layout.cpp', ()),)
    return [Part('schedules', ['checks/parallel.cpp', 'mock/sched/stdlib.cpp'], 5000, 100000, flags=('-fsanitize-coverage=trace-pc', '-pthread') + WRAP, libs=('-lboost_timer',), inc=('mock',), objs=sl,
                 fallback=real('real-instead-of-schedules', 3000, 60000)),
            # no inlining: tasks can also be preempted at every call
            Part('schedules-fine', ['checks/parallel.cpp', 'mock/sched/stdlib.cpp'], 3000, 60000, flags=('-fno-inline', '-fsanitize-coverage=trace-pc', '-pthread') + WRAP, libs=('-lboost_timer',), inc=('mock',), objs=sl,
                 fallback='skip'),
            Part('races', ['checks/parallel.cpp', 'mock/sched/stdlib.cpp'], 2000, 40000, flags=('-g1', '-fsanitize=thread', '-fsanitize-coverage=trace-pc', '-pthread') + WRAP, libs=('-lboost_timer',), inc=('mock',), objs=sched,
                 environ=TSAN, fallback='skip'),
            real('runtime', 3000, 60000)]

check('C03', parts=_c03,
      rule=GRAPHS + 'Part schedules: the six TBB entry points on a stand-in for oneTBB that draws every choice the runtime has from a seed (partition of ranges with arbitrary split points, contiguous accumulation runs from the identity, join tree, execution order, worker count 1-16, slots of concurrent push_backs, preemption of tasks between any two basic blocks); evaluations counts executions. Part races: the same executions under ThreadSanitizer, where the only happens-before edges are those of the fork-join structure. Part runtime: the real oneTBB with 1-16 workers. Non-trivial: cycle-space dimension >= 2 and at least two tasks run by another thread with at least four task switches (runtime: at least two workers).',
      technique='schedule-generating property-based testing (seeded scheduler behind a stand-in TBB, ThreadSanitizer on the same executions); oracle: basis validity, exact optimum, (2k-1) bound, returned = emitted weight',
      note='Exploration of schedules and inputs (graphs mostly n <= 24). The stand-in is trusted to draw only legal TBB executions; weak-memory effects other than data races are not modelled. If changed sources use a TBB feature that the stand-in lacks, the real runtime replaces it.')

import mpireal

def _ranks(name, prop, q, t):
    # the MPI entry points on rank processes behind the stand-in MPI
    d = ('PROP=%d' % prop,) if prop != 4 else ()
    return Part(name, 'checks/mpi.cpp', q, t, defs=d, flags=('-pthread',) + WRAP, libs=('-lboost_serialization', '-lboost_timer'), inc=('mock_mpi', 'mock'),
                objs=(('mock/sched/sched.cpp', ()), ('lib/layout.cpp', ())),
                fallback=Part(name + '-tbb', 'checks/mpi.cpp', q * 4 // 5, t * 4 // 5, defs=d, libs=('-lboost_serialization', '-ltbb', '-lboost_timer', '-pthread'), inc=('mock_mpi',), objs=(('lib/layout.cpp', ()),), fallback='skip'))

def _c04(env):
    if '--replay' not in __import__('sys').argv: mpireal.start_build(env)
    return [_ranks('ranks', 4, 5000, 120000)]

check('C04', parts=_c04, custom=mpireal.custom, replay=mpireal.replay,
      rule=GRAPHS + 'A case also fixes the number of ranks (1-16, thorough 32; biased to the cycle-space dimension and the number of vertices, one more, one less), the heap layout of every rank (operator new hands out the slots of an arena at a fixed address in an order drawn per rank; 10%: the same on all ranks), the stand-in TBB schedule and the order and association of reductions. Part ranks: the five entry points on forked processes joined by a stand-in for Boost.MPI, every collective a rendezvous. Then the same under the real MPI (mpiexec -n 1..8, layouts per rank) and the MPI demo on generated files. Non-trivial: dimension >= 2 and at least two ranks.',
      technique='property-based testing over inputs, communicator sizes, per-rank heap layouts and reduction orders (stand-in MPI with rank processes, plus mpiexec); oracle: basis validity and exact optimum at rank 0, nothing emitted elsewhere, every rank returns (exact deadlock and mismatch detection)',
      note='Exploration. The stand-in covers the collectives and point-to-point calls of Boost.MPI on one communicator; if changed sources need more, the check falls back to the real MPI only. Graphs mostly n <= 24.')

ASAN = '-fsanitize=address,signed-integer-overflow,bounds,shift,integer-divide-by-zero,bool,enum,return,unreachable,float-cast-overflow'
ASAN_ENV = {'ASAN_OPTIONS': 'exitcode=67:allocator_may_return_null=1:detect_leaks=0:detect_stack_use_after_return=1:max_malloc_fill_size=65536:malloc_fill_byte=190:hard_rss_limit_mb=3000',
            'UBSAN_OPTIONS': 'exitcode=67:print_stacktrace=1'}
MEMCHECK = ('valgrind', '-q', '--leak-check=no', '--error-exitcode=97')

def _c07(env):
    sched = (('mock/sched/sched.cpp', ()),)
    ser = ('-lboost_serialization', '-ltbb', '-lboost_timer')
    def both(name, src, defs, q, t, mq, mt, std, libs=('-lboost_timer',), flags=(), inc=(), objs=(), mw=None):
        d = ('PBT_ONLY_UB=1',) + defs
        return [Part(name, src, q, t, defs=d + std, flags=(ASAN, '-fno-sanitize-recover=all') + flags, libs=libs, inc=inc, objs=objs, opt='-O0', environ=ASAN_ENV, fallback='skip'),
                Part(name + '-memcheck', src, mq, mt, defs=d + ('PBT_MEMCHECK=1', 'FEW_TYPES=1'), flags=('-g1',) + flags, libs=libs, inc=inc, objs=objs, opt='-O0', prefix=MEMCHECK, workers=mw or (None if env.thorough else 4), fallback='skip')]
    dbg, asr = ('_GLIBCXX_DEBUG=1',), ('_GLIBCXX_ASSERTIONS=1',)
    mk = dict(flags=('-pthread',) + WRAP, inc=('mock',), objs=sched)
    r = []
    r += both('algorithms', 'checks/ub.cpp', ('PART=1',), 960, 40000, 48, 3000, dbg, libs=('-ltbb', '-lboost_timer'))
    r += both('algorithms-tbb', 'checks/ub.cpp', ('PART=2',), 720, 30000, 40, 2000, dbg, **mk)
    r += both('builders', 'checks/ub.cpp', ('PART=3',), 960, 40000, 48, 3000, dbg, libs=('-ltbb', '-lboost_timer'))
    r += both('ranks', 'checks/mpi.cpp', ('PROP=7',), 160, 6000, 10, 800, asr, libs=('-lboost_serialization', '-lboost_timer'), flags=('-pthread',) + WRAP, inc=('mock_mpi', 'mock'), objs=sched)
    r += both('dimacs', 'checks/dimacs.cpp', (), 6000, 200000, 300, 20000, dbg, mw=None if env.thorough else 2, libs=('-ltbb', '-lboost_timer'))
    r += both('gf2', 'checks/gf2.cpp', (), 4000, 100000, 150, 10000, asr, libs=ser, mw=None if env.thorough else 2)
    r += both('fp', 'checks/fp.cpp', (), 4000, 100000, 150, 10000, asr, libs=ser, mw=None if env.thorough else 2)
    r.append(Part('races', ['checks/parallel.cpp', 'mock/sched/stdlib.cpp'], 640, 30000, defs=('PBT_ONLY_UB=1', 'FEW_TYPES=1'), flags=('-g1', '-fsanitize=thread', '-fsanitize-coverage=trace-pc', '-pthread') + WRAP,
                  libs=('-lboost_timer',), inc=('mock',), objs=sched, environ=TSAN, fallback='skip'))
    r.append(Part('runtime', 'checks/ub.cpp', 320, 10000, defs=('PBT_ONLY_UB=1', 'PART=2', 'PBT_NO_LEAKS=1', 'FEW_TYPES=1') + dbg, flags=(ASAN, '-fno-sanitize-recover=all'), opt='-O0', environ=ASAN_ENV, fallback='skip'))
    return r

check('C07', parts=_c07,
      rule=GRAPHS + 'Every entry point runs on every case and what it hands back is used afterwards: the six sequential and six TBB algorithms (stand-in TBB with drawn schedules; part runtime: the real one), the three component builders with trees, candidates and lookups, greedy_fvs, ForestIndex copies that outlive the original, the searches, the five MPI algorithms on 1-12 rank processes, the DIMACS reader and validators, SpVecGF2 and SpVecFP histories. int graphs include total weights close to the largest int; some graphs have a vertex index map with a state, so that a map that is gone is noticed. Non-trivial: the cycle space is not trivial (for the other generators see C10, C17, C18).',
      technique='property-based testing under AddressSanitizer, UndefinedBehaviorSanitizer, the checking mode of libstdc++ and ThreadSanitizer, and under memcheck (uninitialised values); leaks: the allocated bytes grow with every repetition of a case',
      note='Exploration. Wrong results, exceptions and timeouts are not counted here (they belong to other properties). Parts whose harness does not compile against changed sources are skipped.')
