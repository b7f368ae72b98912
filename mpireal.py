"""C04 under the real MPI: the harness of checks/mpi.cpp under mpiexec, and the MPI demo."""
import os, random, re, threading
import run as R, demos
from run import sh, HERE, MPI_INC, MPI_LIB
from demos import DEMO_LIBS, c11_run, c11_judge, c11_graph, c11_text, c11_case_text, c11_options, c11_replay, c11_parse, c11_kind, c11_shrink, mcb_weight, parallel

NAME = 'mpi-real'


def start_build(env):
    """Compiles the real-MPI harness and the demo while the parts are built and run."""
    def one():
        lay = env.path('layout-real.o')
        jobs = [(NAME, [['g++', '-std=c++14', '-O2', '-w', '-c', os.path.join(HERE, 'lib/layout.cpp'), '-o', lay],
                        ['g++', '-std=c++14', '-O1', '-w', '-DNDEBUG', '-I' + os.path.join(R.REPO, 'include'), '-I' + env.inc] + MPI_INC + [os.path.join(HERE, 'checks/mpi.cpp'), lay, '-o', env.path(NAME), '-ltbb', '-lboost_timer'] + MPI_LIB]),
                ('mcb-dimacs-mpi', [demos.cxx(env, '-DNDEBUG', *MPI_INC, os.path.join(R.REPO, 'src/mcb-dimacs-mpi.cpp'), '-o', env.path('mcb-dimacs-mpi')) + DEMO_LIBS + MPI_LIB])]
        env.real = demos.compile_all(env, jobs)
    env.real_thread = threading.Thread(target=one); env.real_thread.start()


def mpiexec(env, P, args, timeout):
    pre = ['mpiexec', '--allow-run-as-root', '--oversubscribe', '--bind-to', 'none', '--mca', 'mpi_yield_when_idle', '1', '-n', str(P), env.path(NAME)]
    rc, o, e = sh(env, pre + args, timeout=timeout, environ=dict(os.environ, TMPDIR=env.scratch), cwd=env.scratch)
    if rc is None: demos.c11_reap(env, env.path(NAME))
    return rc, o, e


def read_logs(out, P):
    """(failure text or None, done (case index -> dimension), last thing each rank started)"""
    bad, done, last = None, {}, []
    for r in range(P):
        st = 'no start'
        try: lines = open('%s.%d' % (out, r)).read().splitlines()
        except OSError: lines = []
        for l in lines:
            t = l.split(' ', 2)
            if t[0] == 'start': st = '%s (case %s)' % (t[2], t[1]); cur = int(t[1])
            elif t[0] == 'fail': bad = bad or (int(t[1]), t[2])
            elif t[0] == 'done' and r == 0: done[int(t[1])] = int(t[2])
            elif t[0] == 'end': st = 'end'
        last.append((st, cur if lines and st != 'end' and st != 'no start' else None))
    return bad, done, last


def one_case(env, P, text, timeout):
    """Replays one case; returns a description of the failure or None."""
    key = '%x' % random.getrandbits(60)
    f = env.path('c' + key)
    open(f, 'w').write(text)
    rc, o, e = mpiexec(env, P, ['replay', f, f + '.log'], timeout)
    bad, done, last = read_logs(f + '.log', P)
    if bad: return bad[1]
    stuck = '; '.join('rank %d: %s' % (i, s) for i, (s, _) in enumerate(last) if s != 'end')
    if rc is None: return 'mpiexec -n %d does not end: %s' % (P, stuck)
    if rc != 0: return 'mpiexec -n %d ends with status %d: %s; %s' % (P, rc, stuck, e.strip()[-200:])
    return None


def custom(env):
    env.real_thread.join()
    for d, x in env.real.items():
        if x:
            import sys
            sys.stderr.write('cannot build %s: %s\n' % (d, x)); R.finish(env, broken=True)
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    alone = not env.parts                       # the stand-in could not be used
    per = max(4, int((600 if env.thorough else 60) * scale * (4 if alone else 1)))
    sizes = [1, 2, 2, 3, 3, 4, 5, 7, 8] * (4 if env.thorough else 1)
    lock = threading.Lock()

    def batch(j):
        P = sizes[j]
        a = j * per
        out = env.path('b%d' % j)
        rc, o, e = mpiexec(env, P, ['batch', str(env.seed), str(a), str(a + per), out, '1' if env.thorough else '0'], 150 if not env.thorough else 1500)
        bad, done, last = read_logs(out, P)
        for i, d in done.items():
            env.count(('real', P, i) if d >= 2 and P >= 2 else None)
        env.count(n=4 * len(done))
        env.label('mpiexec -n %d: graphs' % P, len(done))
        if rc == 0 and not bad: return
        case = bad[0] if bad else next((c for _, c in last if c is not None), None)
        if case is None:
            env.label('mpiexec failed without a case: %s %s' % (rc, e.strip()[-120:])); return
        rc2, text, _ = sh(env, [env.path(NAME), 'show', str(env.seed), str(case), '1' if env.thorough else '0'], timeout=60)
        msgs = [one_case(env, P, text, 60) for _ in range(3)]
        if not all(msgs):
            env.label('unreproducible-failure: ' + str(bad or rc)[:80]); return
        with lock:
            if not env.violations:
                env.violation('mpi %d\n%s' % (P, text), msgs[0], 'real')
    parallel(env, range(len(sizes)), batch, workers=2)
    if env.violations: return

    def demo(i):
        r = random.Random('c04demo/%d/%d' % (env.seed, i))
        n, e = c11_graph(r)
        text = c11_text(r, n, e); n, e = c11_parse(text)
        P = r.choice([1, 2, 3, 4, 5, 7, 8])
        c = dict(demo='mcb-dimacs-mpi', text=text, kind='valid', P=P, wrapped=r.random() < .5, fa=r.choice(['pos', '-I', 'eq']), opts=c11_options(r, 'mcb-dimacs-mpi'))
        c['dim'], c['opt'] = mcb_weight(n, e)
        bad = c11_judge(c, c11_run(env, c, 25))
        env.label('mcb-dimacs-mpi, P=%d' % P)
        env.count(('demo', P, tuple(c['opts']), text) if c['dim'] > 1 and P > 1 else None)
        if not bad: return
        for _ in range(2):
            bad = c11_judge(c, c11_run(env, c, 40))
            if not bad: env.label('unreproducible-failure: demo'); return
        with lock:
            if env.violations: return
            env.stop.set()
            c, bad = c11_shrink(env, c, bad, 12)
            env.violation(c11_case_text(c, 0, 0), bad, 'demo')
    parallel(env, range(int((400 if env.thorough else 32) * scale)), demo, workers=4)


def replay(env, path):
    t = open(path).read()
    m = re.match(r'mpi (\d+)\n', t)
    if not m: return c11_replay(env, path)
    start_build(env); env.real_thread.join()
    bad = one_case(env, int(m.group(1)), t[m.end():], 90)
    print('still fails: ' + bad if bad else 'passes')
    return 1 if bad else 0
