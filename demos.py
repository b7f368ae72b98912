"""Checks that run the built demo programs: C20 (demo part) and C11."""
import os, random, re, shutil, subprocess, threading, queue, math
from fractions import Fraction
import run as R
from run import sh, HERE, MPI_INC, MPI_LIB, NW

DEMO_LIBS = ['-ltbb', '-lboost_timer', '-lboost_program_options', '-lboost_thread', '-lboost_system', '-pthread', '-ldl']


def compile_all(env, jobs):
    """jobs: list of (name, [commands]); runs them in parallel; returns {name: error or None}."""
    res = {}
    def one(name, cmds):
        for c in cmds:
            rc, o, e = sh(env, c, timeout=600)
            if rc != 0:
                res[name] = (o + e)[-2500:] or 'compiler failed'
                return
        res[name] = None
    ts = [threading.Thread(target=one, args=j) for j in jobs]
    [t.start() for t in ts]; [t.join() for t in ts]
    return res


def cxx(env, *a):
    return ['g++', '-std=c++14', '-O1', '-w'] + ['-I' + os.path.join(R.REPO, 'include'), '-I' + env.inc] + list(a)


def parallel(env, items, fn, workers=NW):
    """fn(item) for all items on a pool; stops early when env.stop is set."""
    q = queue.Queue()
    for i in items: q.put(i)
    errs = []
    def w():
        while not env.stop.is_set():
            try: i = q.get_nowait()
            except queue.Empty: return
            try: fn(i)
            except Exception as x:   # a bug of the checker, never a violation
                import traceback
                errs.append(traceback.format_exc()); env.stop.set()
    ts = [threading.Thread(target=w) for _ in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs:
        import sys
        sys.stderr.write(errs[0]); R.finish(env, broken=True)


def random_graph(r, nmax=20):
    n = r.randint(5, nmax)
    e = {}
    for i in range(1, n):
        if r.random() < .9: e[(r.randrange(i), i)] = 1
    for _ in range(r.randint(2, 2 * n)):
        u, v = r.randrange(n), r.randrange(n)
        if u != v: e[(min(u, v), max(u, v))] = 1
    for k in e: e[k] = r.randint(1, 9)
    return n, [(u, v, w) for (u, v), w in e.items()]


def text_of(n, e):
    return 'p edge %d %d\n' % (n, len(e)) + ''.join('e %d %d %s\n' % (u + 1, v + 1, w) for u, v, w in e)


# ---------------------------------------------------------------- C20
def c20_option_line(r, demo):
    o = []
    cores = r.choice([1, 1, 2, 2, 3, 4, 5, 7, 9, 13, 16])
    o.append(r.choice(['--cores=%d', '--cores=%d']) % cores)
    v = r.random()
    if v < .25: o.append('--verbose')
    elif v < .4: o.append('--verbose=true')
    elif v < .55: o.append('--verbose=false')
    elif v < .6: o.append('-v')
    p = r.random()
    if p < .5: o.append('--parallel=true')
    elif p < .6: o.append('-p1')
    a = r.random()
    if a < .3: o.append('--signed=true')
    elif a < .65: o += ['--signed=false', '--fvstrees=true']
    elif a < .9: o += ['--signed=false', '--isotrees=true']
    if r.random() < .25: o.append('--printcycles')
    if demo.startswith('approx') and r.random() < .7: o.append('--k=%d' % r.choice([2, 2, 3, 4]))
    r.shuffle(o)
    return cores, o


def c20_run(env, exe, n, e, opts, key):
    f = env.path('g%s.dimacs' % key); k = env.path('k%s' % key)
    open(f, 'w').write(text_of(n, e))
    en = dict(os.environ, KNOB_OUT=k)
    rc, o, er = sh(env, [exe] + opts + [f], timeout=60, environ=en)
    try: smp = [int(x) for x in open(k).read().split()]
    except Exception: smp = None
    for x in (f, k):
        if os.path.exists(x): os.unlink(x)
    return rc, o, er, smp


def c20_bad(cores, smp):
    if not smp or smp[0] == 0: return None
    if smp[1] != cores or smp[2] != cores:
        return 'the allowed parallelism while the algorithm ran was %d..%d' % (smp[1], smp[2])
    if smp[3] > cores: return '%d threads executed tasks at the same time' % smp[3]
    return None


def c20_build(env):
    jobs = []
    for d in ('mcb-dimacs', 'approx-mcb-dimacs'):
        jobs.append((d, [cxx(env, '-Dmain=demo_main', '-c', os.path.join(R.REPO, 'src', d + '.cpp'), '-o', env.path(d + '.o')),
                         cxx(env, env.path(d + '.o'), os.path.join(HERE, 'checks/knob_demo.cpp'), '-o', env.path(d)) + DEMO_LIBS]))
    err = compile_all(env, jobs)
    for d, x in err.items():
        if x: 
            import sys
            sys.stderr.write('cannot build %s: %s\n' % (d, x)); R.finish(env, broken=True)


def c20_custom(env):
    c20_build(env)
    count = int((900 if env.thorough else 260) * float(os.environ.get('VERIF_SCALE', '1')))
    def one(i):
        r = random.Random('%d/%d' % (env.seed, i))
        demo = ('mcb-dimacs', 'approx-mcb-dimacs')[i % 2]
        n, e = random_graph(r); cores, opts = c20_option_line(r, demo)
        rc, o, er, smp = c20_run(env, env.path(demo), n, e, opts, i)
        env.label('demo ' + demo + (' verbose' if any(x.startswith('-v') or x.startswith('--verbose') for x in opts) else ' quiet'))
        nt = bool(smp and smp[0])
        env.count((demo, tuple(opts), n, tuple(e)) if nt else None)
        if i < 3: env.sample('%s %s on n=%d m=%d: samples,min,max,peak threads = %s' % (demo, ' '.join(opts), n, len(e), smp))
        bad = c20_bad(cores, smp)
        if bad:
            # minimise: fewer options, then a smaller graph
            for x in list(opts):
                if x.startswith('--cores'): continue
                t = [y for y in opts if y != x]
                if c20_bad(cores, c20_run(env, env.path(demo), n, e, t, '%sx' % i)[3]): opts = t
            tri = (3, [(0, 1, 1), (1, 2, 1), (0, 2, 1)])
            if c20_bad(cores, c20_run(env, env.path(demo), tri[0], tri[1], opts, '%sx' % i)[3]): n, e = tri
            hits = sum(1 for _ in range(3) if c20_bad(cores, c20_run(env, env.path(demo), n, e, opts, '%sx' % i)[3]))
            if hits == 3:
                env.violation('demo %s\noptions %s\ncores %d\n' % (demo, ' '.join(opts), cores) + text_of(n, e), '%s %s: %s' % (demo, ' '.join(opts), bad), 'demo')
            else: env.label('unreproducible-failure: ' + bad)
    parallel(env, range(count), one)


def c20_replay(env, path):
    t = open(path).read().splitlines()
    demo = t[0].split()[1]; opts = t[1].split()[1:]; cores = int(t[2].split()[1])
    e = []; n = 0
    for l in t[3:]:
        f = l.split()
        if f[0] == 'p': n = int(f[2])
        else: e.append((int(f[1]) - 1, int(f[2]) - 1, int(f[3])))
    c20_build(env)
    bad = c20_bad(cores, c20_run(env, env.path(demo), n, e, opts, 'r')[3])
    print('replay: %s' % (bad or 'holds'))
    return 1 if bad else 0


# ---------------------------------------------------------------- C11
def mcb_weight(n, edges):
    """Minimum cycle basis weight (Horton's candidates + greedy elimination), exact for Fractions/ints."""
    import heapq
    adj = [[] for _ in range(n)]
    for i, (u, v, w) in enumerate(edges):
        adj[u].append((v, w, i)); adj[v].append((u, w, i))
    comp = [-1] * n; c = 0
    for s in range(n):
        if comp[s] < 0:
            comp[s] = c; st = [s]
            while st:
                x = st.pop()
                for y, _, _ in adj[x]:
                    if comp[y] < 0: comp[y] = c; st.append(y)
            c += 1
    dim = len(edges) - n + c
    if dim == 0: return 0, 0
    cand = []
    for s in range(n):
        dist, mask, done, h = {s: 0}, {s: 0}, set(), [(0, s)]
        while h:
            d, x = heapq.heappop(h)
            if x in done: continue
            done.add(x)
            for y, w, i in adj[x]:
                if y not in dist or d + w < dist[y]:
                    dist[y] = d + w; mask[y] = mask[x] ^ (1 << i); heapq.heappush(h, (d + w, y))
        for i, (u, v, w) in enumerate(edges):
            if u in dist:
                m = mask[u] ^ mask[v] ^ (1 << i)
                if m: cand.append((dist[u] + dist[v] + w, m))
    cand.sort()
    piv, total = {}, 0
    for w, m in cand:
        while m:
            b = m & -m
            if b not in piv: break
            m ^= piv[b]
        if m:
            piv[m & -m] = m; total += w
            if len(piv) == dim: break
    assert len(piv) == dim
    return dim, total


def c11_graph(r, nmax=16):
    f = r.random()
    n = r.randint(0, nmax) if f < .15 else r.randint(3, nmax)
    e = {}
    def add(u, v):
        if u != v: e[(min(u, v), max(u, v))] = 1
    if f < .1: pass
    elif f < .2:
        for i in range(1, n):
            if r.random() < .8: add(r.randrange(i), i)
    elif f < .3:
        for i in range(n): add(i, (i + 1) % n)
        for _ in range(r.randint(0, 3)): add(r.randrange(n), r.randrange(n))
    elif f < .4:
        n = min(n, 9); p = r.choice([.6, 1])
        for i in range(n):
            for j in range(i):
                if r.random() < p: add(i, j)
    elif f < .5:
        a = r.randint(2, 4); b = r.randint(2, 4); n = a * b
        for i in range(a):
            for j in range(b):
                if i + 1 < a: add(i * b + j, i * b + b + j)
                if j + 1 < b: add(i * b + j, i * b + j + 1)
    else:
        for i in range(1, n):
            if r.random() < .9: add(r.randrange(i), i)
        for _ in range(r.randint(0, 2 * n)):
            add(r.randrange(n), r.randrange(n))
    wc = r.randrange(6)
    def wt():
        if wc == 0: return Fraction(1)
        if wc == 1: return Fraction(r.randint(1, 3))
        if wc == 2: return Fraction(r.randint(1, 16), 4)
        if wc == 3: return Fraction(r.choice([1, 1, 1, 50]))
        if wc == 4: return Fraction(r.randint(1, 1000))
        return Fraction(r.randint(1, 9))
    es = [(u, v, wt()) if r.random() < .5 else (v, u, wt()) for u, v in e]
    r.shuffle(es)
    p = list(range(n)); r.shuffle(p)
    return n, [(p[u], p[v], w) for u, v, w in es]


def c11_text(r, n, e):
    t = ['c generated'] if r.random() < .5 else []
    t.append('p %s %d %d' % (r.choice(['edge', 'sp', 'col']), n, len(e)))
    tag = r.choice('aeee')
    for u, v, w in e:
        w = w if isinstance(w, str) else (str(int(w)) if w.denominator == 1 else '%s' % float(w))
        t.append('%s %d %d %s' % (tag, u + 1, v + 1, w) if w != '1' or r.random() < .5 else '%s %d %d' % (tag, u + 1, v + 1))
        if r.random() < .05: t.append('c comment')
    return '\n'.join(t) + '\n'


def c11_break(r, n, e, kinds):
    """Adds one violation of every kind in kinds (the graph needs a vertex, two for parallel edges and weights)."""
    e = list(e)
    for k in kinds:
        w = Fraction(r.randint(1, 5))
        at = r.randint(0, len(e))
        if k == 'loop':
            v = r.choice([0, n - 1, r.randrange(n)]); e.insert(at, (v, v, w))
        elif k == 'parallel':
            ok = [x for x in e if x[0] != x[1]]
            if not ok:
                u, v = r.sample(range(n), 2); e.insert(at, (u, v, w)); ok = [(u, v, w)]
            u, v, x = r.choice(ok)
            if r.random() < .5: u, v = v, u
            e.insert(r.choice([at, len(e)]), (u, v, r.choice([w, x])))
        else:
            x = r.choice(['0', '-1', '0.0', '-0.5', '-0', '-1e-9', '-1e300', '0e5', '-3'])
            if e and r.random() < .7:
                i = r.choice([0, len(e) - 1, r.randrange(len(e))]); e[i] = (e[i][0], e[i][1], x)
            else:
                used = {(min(a, b), max(a, b)) for a, b, _ in e}
                free = [(a, b) for a in range(n) for b in range(a + 1, n) if (a, b) not in used]
                if free: a, b = r.choice(free); e.insert(at, (a, b, x))
                elif e: i = r.randrange(len(e)); e[i] = (e[i][0], e[i][1], x)
    return e


def c11_options(r, demo):
    o = []
    b = lambda n, v: ['--%s=%s' % (n, r.choice(['true', '1', 'yes', 'on'] if v else ['false', '0', 'no', 'off']))]
    if demo != 'collection-stats-dimacs':
        a = r.randrange(7)
        if a == 0: pass
        elif a == 1: o += b('signed', True)
        elif a == 2: o += b('signed', False)
        elif a == 3: o += b('signed', False) + b('fvstrees', True)
        elif a == 4: o += b('signed', False) + b('isotrees', True)
        elif a == 5: o += b('signed', False) + b('fvstrees', False) + b('isotrees', True)
        else: o += b('signed', r.random() < .5) + b('fvstrees', r.random() < .5) + b('isotrees', r.random() < .5)
        if r.random() < .25: o += r.choice([['--printcycles'], ['--printcycles=true'], ['--printcycles=0']])
        if not demo.endswith('mpi'):
            if r.random() < .6: o += b('parallel', r.random() < .5)
            if r.random() < .4: o.append('--cores=%d' % r.choice([0, 1, 2, 3, 5, 8]))
    if r.random() < .3: o.append(r.choice(['-v', '--verbose', '--verbose=true', '--verbose=false']))
    r.shuffle(o)
    return o


def c11_file_args(r, f):
    return r.choice([[f], ['-I', f], ['--input-file=' + f], [f]])


def c11_run(env, case, timeout):
    """case: dict(demo, opts, text, P, wrapped, fa). Returns (rc or None on timeout, rank codes or None, stdout, stderr)."""
    key = '%x' % random.getrandbits(60)
    f = env.path('d%s.dimacs' % key)
    open(f, 'w').write(case['text'])
    args = {'pos': [f], '-I': ['-I', f], 'eq': ['--input-file=' + f]}[case['fa']]
    # an option without a value would take a file name that follows it as its value
    args = [env.path(case['demo'] + ('-notbb' if case.get('notbb') else ''))] + (case['opts'] + args if all('=' in x for x in case['opts'][-1:]) else args + case['opts'])
    codes = None
    if case['demo'].endswith('mpi'):
        d = env.path('r' + key)
        os.mkdir(d)
        pre = ['mpiexec', '--allow-run-as-root', '--oversubscribe', '--bind-to', 'none', '-n', str(case['P'])]
        if case['wrapped']:
            args = ['/bin/sh', '-c', '"$0" "$@"; echo $? > %s/$OMPI_COMM_WORLD_RANK; exit 0' % d] + args
        en = dict(os.environ, TMPDIR=env.scratch)
        rc, o, e = sh(env, pre + args, timeout=timeout, environ=en, cwd=env.scratch)
        if rc is None: c11_reap(env, env.path(case['demo']))
        if case['wrapped']:
            codes = {}
            for x in os.listdir(d):
                try: codes[int(x)] = int(open(os.path.join(d, x)).read())
                except ValueError: pass
        shutil.rmtree(d, ignore_errors=True)
    else:
        rc, o, e = sh(env, args, timeout=timeout, cwd=env.scratch)
    os.unlink(f)
    return rc, codes, o, e


def c11_reap(env, exe):
    """mpiexec starts its ranks in process groups of their own: ends those of ours that a time-out left behind."""
    import signal
    for p in os.listdir('/proc'):
        if p.isdigit():
            try:
                if os.readlink('/proc/%s/exe' % p) == exe: os.kill(int(p), signal.SIGKILL)
            except OSError: pass


def c11_same(x, opt):
    """Is the printed number x the value opt, as printed with at least six significant digits?"""
    try: y = Fraction(x)
    except (ValueError, ZeroDivisionError): return False
    if y == opt: return True
    if Fraction('%.6g' % float(opt)) == opt: return False    # six digits are enough to print it
    return abs(y - opt) <= abs(opt) * Fraction(1, 190000)


def c11_judge(case, res):
    rc, codes, o, e = res
    mpi = case['demo'].endswith('mpi')
    what = '%s%s %s%s' % (case['demo'], ' (built without TBB)' if case.get('notbb') else '', ' '.join(case['opts']), ' with %d processes' % case['P'] if mpi else '')
    if rc is None: return '%s did not terminate on %s input' % (what, case['kind'])
    if codes is not None and rc == 0 and len(codes) != case['P']: return None    # not a verdict
    weights = re.findall(r'MCB weight = (\S+)', o + e)
    if case['kind'] != 'valid':
        if rc == 0 and codes is None: return '%s exited with status 0 on a file with %s' % (what, case['kind'])
        if rc < 0: return '%s was ended by signal %d on a file with %s' % (what, -rc, case['kind'])
        if codes and any(c == 0 for c in codes.values()):
            return '%s: rank %d exited with status 0 on a file with %s' % (what, [k for k in codes if codes[k] == 0][0], case['kind'])
        if codes and rc == 0 and any(c > 128 for c in codes.values()): return '%s: a rank was ended by a signal on a file with %s' % (what, case['kind'])
        if weights: return '%s printed a weight on a file with %s' % (what, case['kind'])
        if not e.strip() and not re.search(r'(?i)abort|loop|multiple|parallel|negative|positive|invalid|error|zero', o):
            return '%s gave no diagnostic on a file with %s' % (what, case['kind'])
        return None
    if rc != 0: return '%s exited with status %s on a valid file: %s' % (what, rc, e.strip()[-200:])
    if codes and any(codes.values()): return '%s: a rank exited with non-zero status on a valid file (%s)' % (what, codes)
    if case['demo'] == 'collection-stats-dimacs': return None
    if not weights: return '%s printed no weight for a valid file' % what
    for w in weights:
        if case['demo'].startswith('approx'):
            k = case['k']
            try: y = Fraction(w)
            except ValueError: return '%s printed weight %s' % (what, w)
            t = Fraction(1) if c11_same('%.6g' % y, y) and len(w.replace('.', '').lstrip('0')) < 6 else 1 + Fraction(1, 190000)
            if not (case['opt'] <= y * t and y <= (2 * k - 1) * case['opt'] * t): return '%s printed weight %s, the optimum is %s' % (what, w, float(case['opt']))
        elif not c11_same(w, case['opt']): return '%s printed weight %s, the optimum is %s' % (what, w, float(case['opt']))
    case['weights'] = weights
    return None


def c11_case_text(case, n, e):
    return 'demo %s\nbuild %s\noptions %s\nfile %s\nprocesses %d%s\nkind %s\n' % (case['demo'], 'no TBB' if case.get('notbb') else 'default', ' '.join(case['opts']), case['fa'], case['P'], ' wrapped' if case['wrapped'] else '', case['kind']) + 'text\n' + case['text']


DEMOS = ['mcb-dimacs', 'approx-mcb-dimacs', 'collection-stats-dimacs']


def c11_build(env, thorough=False):
    jobs = [(d, [cxx(env, '-DNDEBUG', os.path.join(R.REPO, 'src', d + '.cpp'), '-o', env.path(d)) + DEMO_LIBS]) for d in DEMOS]
    # TBB is optional for the project: the same programs configured without it
    inc = env.path('notbb')
    R.write_config(inc, tbb=False, mpi=False)
    for d in DEMOS[:2]:
        jobs.append((d + '-notbb', [['g++', '-std=c++14', '-O1', '-w', '-I' + os.path.join(R.REPO, 'include'), '-I' + inc, '-DNDEBUG', os.path.join(R.REPO, 'src', d + '.cpp'), '-o', env.path(d + '-notbb')] + [x for x in DEMO_LIBS if x != '-ltbb']]))
    jobs.append(('mcb-dimacs-mpi', [cxx(env, '-DNDEBUG', *MPI_INC, os.path.join(R.REPO, 'src/mcb-dimacs-mpi.cpp'), '-o', env.path('mcb-dimacs-mpi')) + DEMO_LIBS + MPI_LIB]))
    err = compile_all(env, jobs)
    for d, x in err.items():
        if x:
            import sys
            sys.stderr.write('cannot build %s: %s\n' % (d, x)); R.finish(env, broken=True)


def c11_parse(text):
    n, e = 0, []
    for l in text.splitlines():
        t = l.split()
        if l.startswith('p'): n = int(t[2])
        elif l[:1] in ('e', 'a'):
            e.append((int(t[1]) - 1, int(t[2]) - 1, Fraction(t[3]) if len(t) > 3 else Fraction(1)))
    return n, e


def c11_kind(n, e):
    k = []
    if any(u == v for u, v, _ in e): k.append('a self-loop')
    s = [(min(u, v), max(u, v)) for u, v, _ in e]
    if len(set(s)) < len(s): k.append('parallel edges')
    if any(w <= 0 for _, _, w in e): k.append('a non-positive weight')
    return ' and '.join(k) or 'valid'


def c11_shrink(env, case, bad, timeout):
    def still(c):
        nonlocal bad
        n, e = c11_parse(c['text'])
        if c11_kind(n, e) == 'valid': 
            if c['kind'] != 'valid': return False
            c['opt'] = mcb_weight(n, e)[1]
        elif c['kind'] == 'valid': return False
        c['kind'] = c11_kind(n, e)
        x = c11_judge(c, c11_run(env, c, timeout))
        if x and x.split()[0] == bad.split()[0]: bad = x; return True
        return False
    import time as T
    end = T.time() + 90
    def plain(n, e): return 'p edge %d %d\n' % (n, len(e)) + ''.join('e %d %d %s\n' % (u + 1, v + 1, int(w) if w.denominator == 1 else float(w)) for u, v, w in e)
    n, e = c11_parse(case['text'])
    progress = True
    while progress and T.time() < end:
        progress = False
        for i in range(len(case['opts'])):
            if case['opts'][i].startswith('--k='): continue
            c = dict(case, opts=case['opts'][:i] + case['opts'][i + 1:])
            if still(c): case = c; progress = True; break
        for P in (1, 2, 3):
            if case['P'] > P and T.time() < end:
                c = dict(case, P=P)
                if still(c): case = c; progress = True; break
        i = 0
        step = max(1, len(e) // 2)
        while step >= 1 and T.time() < end:
            i = 0
            while i < len(e) and T.time() < end:
                e2 = e[:i] + e[i + step:]
                used = sorted({x for u, v, _ in e2 for x in (u, v)})
                m = {x: j for j, x in enumerate(used)}
                for cand in ((len(used), [(m[u], m[v], w) for u, v, w in e2]), (n, e2)):
                    c = dict(case, text=plain(*cand))
                    if still(c): case = c; n, e = cand; progress = True; break
                else: i += step
            step //= 2
    return case, bad


def c11_custom(env):
    c11_build(env)
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    lock = threading.Lock()
    def attempt(case, timeout, tag):
        res = c11_run(env, case, timeout)
        bad = c11_judge(case, res)
        if not bad: return True
        # the verdict has to come back: a time-out may be the machine's fault
        for _ in range(2):
            b2 = c11_judge(case, c11_run(env, case, timeout * (2 if res[0] is None else 1)))
            if not b2:
                env.label('unreproducible-failure: ' + bad[:80]); return True
            bad = b2
            if res[0] is None: break
        with lock:
            if env.violations: return False
            env.stop.set()
            if len(case['text']) > 20000:
                # does a small file do?
                t = 'p edge 3 3\ne 1 2 1\ne 2 3 1\n' + ('e 3 3 1\n' if 'loop' in case['kind'] else 'e 2 1 1\n' if 'parallel' in case['kind'] else 'e 1 3 0\n')
                c = dict(case, text=t, kind=c11_kind(*c11_parse(t)))
                x = c11_judge(c, c11_run(env, c, timeout))
                if x: case, bad = c, x
            if len(case['text']) < 20000: case, bad = c11_shrink(env, case, bad, min(timeout, 12))
            env.violation(c11_case_text(case, 0, 0), bad, 'demo')
        return False
    def make(r, demo, mpi):
        n, e = c11_graph(r)
        kinds = []
        if r.random() < .5 and n >= 2: kinds = r.choice([['loop'], ['parallel'], ['weight'], ['loop'], ['parallel'], ['weight'], ['loop', 'parallel'], ['parallel', 'weight'], ['loop', 'weight'], ['loop', 'parallel', 'weight']])
        if n == 1 and r.random() < .5: kinds = ['loop']
        e = c11_break(r, n, e, kinds)
        text = c11_text(r, n, e)
        n, e = c11_parse(text)
        kind = c11_kind(n, e)
        case = dict(demo=demo, text=text, kind=kind, P=1, wrapped=False, fa='pos')
        if kind == 'valid': case['dim'], case['opt'] = mcb_weight(n, e)
        if demo.startswith('approx'): case['k'] = r.choice([2, 2, 2, 3, 4, 10])
        return n, e, case
    def one(i):
        r = random.Random('c11/%d/%d' % (env.seed, i))
        demo = r.choice(['mcb-dimacs', 'mcb-dimacs', 'approx-mcb-dimacs', 'approx-mcb-dimacs', 'collection-stats-dimacs'])
        n, e, case = make(r, demo, False)
        seen = None
        if demo != 'collection-stats-dimacs' and r.random() < .2:
            case['notbb'] = True; env.label(demo + ' built without TBB')
        for _ in range(3 if demo != 'collection-stats-dimacs' else 1):
            c = dict(case, opts=c11_options(r, demo) + (['--k=%d' % case['k']] if 'k' in case else []), fa=r.choice(['pos', '-I', 'eq']))
            if 'k' in case and case['k'] == 2 and r.random() < .3: c['opts'].remove('--k=2')
            if not attempt(c, 20, i): return
            env.label('%s, %s' % (demo, case['kind'])); 
            env.count((demo, tuple(c['opts']), case['text']) if case['kind'] != 'valid' or case['dim'] > 0 else None)
            if seen and c.get('weights') and seen[1] != c['weights'][:1]:
                bad = 'approx-mcb-dimacs prints %s with %s and %s with %s' % (seen[1][0], ' '.join(seen[0]), c['weights'][0], ' '.join(c['opts']))
                env.violation('compare\n' + c11_case_text(dict(c, opts=seen[0]), 0, 0) + 'compare with options %s\n' % ' '.join(c['opts']), bad, 'demo')
                return
            if c.get('weights'): seen = (c['opts'], c['weights'][:1])
        if i < 4: env.sample('%s %s, n=%d m=%d, %s' % (demo, ' '.join(c['opts']), n, len(e), case['kind']))
    parallel(env, range(int((9000 if env.thorough else 1000) * scale)), one)
    if env.violations: return

    def mpi(i):
        r = random.Random('c11mpi/%d/%d' % (env.seed, i))
        n, e, case = make(r, 'mcb-dimacs-mpi', True)
        P = r.choice([1, 2, 2, 3, 3, 4, 5, 7, 8])
        c = dict(case, opts=c11_options(r, case['demo']), fa=r.choice(['pos', '-I', 'eq']), P=P, wrapped=r.random() < .5)
        if not attempt(c, 20, i): return
        env.label('mcb-dimacs-mpi, P=%d' % P); env.label('mcb-dimacs-mpi, %s' % case['kind'])
        env.count(('mpi', P, tuple(c['opts']), case['text']) if case['kind'] != 'valid' or case['dim'] > 0 else None)
        if i < 4: env.sample('mpiexec -n %d%s %s %s, n=%d m=%d, %s' % (P, ' (wrapped)' if c['wrapped'] else '', c['demo'], ' '.join(c['opts']), n, len(e), case['kind']))
    parallel(env, range(int((1200 if env.thorough else 120) * scale)), mpi, workers=5)
    if env.violations: return

    # files whose graph takes the algorithms minutes, rejected because of one edge
    def big(i):
        r = random.Random('c11big/%d/%d' % (env.seed, i))
        n = r.randint(170, 220)
        es = [(u, v, Fraction(r.randint(1, 9))) for u in range(n) for v in range(u) if r.random() < .5]
        r.shuffle(es)
        kinds = [['loop'], ['parallel'], ['weight']][i % 3]
        es = c11_break(r, n, es, kinds)
        demo = (DEMOS + ['mcb-dimacs-mpi'])[i // 3 % 4]
        text = c11_text(r, n, es)
        case = dict(demo=demo, text=text, kind=c11_kind(*c11_parse(text)), P=r.choice([2, 3]), wrapped=False, fa='pos', opts=c11_options(r, demo))
        attempt(case, 25, i)
        env.label('large rejected files'); env.count(('big', demo, kinds[0], i))
    parallel(env, range(int((48 if env.thorough else 12) * min(scale, 1))), big)


def c11_replay(env, path):
    t = open(path).read()
    two = t.startswith('compare\n')
    if two: t = t[8:]
    head, text = t.split('text\n', 1)
    other = None
    if two: text, other = text.rsplit('compare with options ', 1)
    g = lambda k: (re.search('^' + k + ' (.*)$', head, re.M) or [None, ''])[1]
    n, e = c11_parse(text)
    c = dict(demo=g('demo'), notbb=g('build') == 'no TBB', opts=g('options').split(), fa=g('file'), P=int(g('processes').split()[0]), wrapped='wrapped' in g('processes'), text=text, kind=c11_kind(n, e))
    if c['kind'] == 'valid': c['dim'], c['opt'] = mcb_weight(n, e)
    ks = [x for x in c['opts'] if x.startswith('--k=')]
    c['k'] = int(ks[-1][4:]) if ks else 2
    c11_build(env)
    bad = c11_judge(c, c11_run(env, c, 40))
    if two and not bad:
        d = dict(c, opts=other.split())
        c11_judge(d, c11_run(env, d, 40))
        if c.get('weights') != d.get('weights'): bad = 'weights differ: %s %s' % (c.get('weights'), d.get('weights'))
    print('still fails: ' + bad if bad else 'passes')
    return 1 if bad else 0
