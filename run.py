#!/usr/bin/env python3
"""Driver: builds the harnesses of one property from /repo's current tree, runs them on all cores,
merges their counters into evidence/<id>.json and reports.  Usage: run.py C01 [quick|thorough]"""
import atexit, glob, hashlib, importlib, json, os, queue, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('PARMCB_REPO', '/repo')
NW = min(8, os.cpu_count() or 8)
MPI_INC = ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
MPI_LIB = ['-L/usr/lib/x86_64-linux-gnu/openmpi/lib', '-lboost_mpi', '-lboost_serialization', '-lmpi_cxx', '-lmpi']


class Env:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.scratch = tempfile.mkdtemp(prefix='pv-%s-' % pid)
        atexit.register(self.cleanup)
        self.inc = os.path.join(self.scratch, 'inc')
        write_config(self.inc)
        self.evals = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.parts = {}
        self.violations = []      # (replay path, message)
        self.notes = []
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.procs = set()
        self.t0 = time.time()

    def cleanup(self):
        for p in list(self.procs):
            kill_group(p)
        shutil.rmtree(self.scratch, ignore_errors=True)

    def path(self, *a):
        return os.path.join(self.scratch, *a)

    def label(self, k, n=1):
        with self.lock:
            self.labels[k] = self.labels.get(k, 0) + n

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 12:
                self.samples.append(s[:1200])

    def count(self, nontrivial_key=None, n=1):
        with self.lock:
            self.evals += n
            if nontrivial_key is not None:
                self.nontrivial.add(hashlib.blake2b(repr(nontrivial_key).encode(), digest_size=8).digest())

    def violation(self, text, msg, name=None):
        """text: the replay file's content."""
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        h = hashlib.blake2b(text.encode(), digest_size=5).hexdigest()
        p = os.path.join(d, '%s-%s%s.txt' % (self.pid, (name + '-') if name else '', h))
        with open(p, 'w') as f:
            f.write(text)
        with self.lock:
            self.violations.append((p, msg))
        self.stop.set()


def write_config(inc, tbb=True, mpi=True, extra=()):
    os.makedirs(os.path.join(inc, 'parmcb'), exist_ok=True)
    on = {'PARMCB_HAVE_BOOST', 'PARMCB_INVARIANTS_CHECK'} | set(extra)
    if tbb: on.add('PARMCB_HAVE_TBB')
    if mpi: on.add('PARMCB_HAVE_MPI')
    out = []
    for line in open(os.path.join(REPO, 'include/parmcb/config.hpp.in')):
        m = re.match(r'\s*#cmakedefine\s+(\w+)(.*)', line)
        out.append(('#define %s%s\n' % (m.group(1), m.group(2)) if m.group(1) in on else '/* #undef %s */\n' % m.group(1)) if m else line)
    with open(os.path.join(inc, 'parmcb', 'config.hpp'), 'w') as f:
        f.writelines(out)


def kill_group(p):
    for f in (lambda: os.killpg(p.pid, signal.SIGKILL), p.kill):
        try:
            f()
        except Exception:
            pass


def sh(env, cmd, timeout=None, cwd=None, environ=None, stdin=None):
    """Runs a command in its own process group; returns (rc or None on timeout, stdout, stderr)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                         cwd=cwd, env=environ, start_new_session=True)
    env.procs.add(p)
    try:
        o, e = p.communicate(stdin, timeout=timeout)
        return p.returncode, o.decode('latin-1'), e.decode('latin-1')
    except subprocess.TimeoutExpired:
        kill_group(p)
        o, e = p.communicate()
        return None, o.decode('latin-1'), e.decode('latin-1')
    finally:
        kill_group(p)
        env.procs.discard(p)


class Part:
    """One harness binary of a check."""
    def __init__(self, name, src, quick, thorough, defs=(), flags=(), libs=('-ltbb', '-lboost_timer'), cxx='g++', inc=(), environ=None,
                 wall=(330, 3600), fallback=None, std='c++14', opt='-O1', ndebug=True, only=None, workers=None, objs=(), prefix=()):
        self.__dict__.update(locals())

    def compile_objs(self, env):
        # support files that must not get the harness's instrumentation flags
        res = []
        for src, fl in self.objs:
            o = env.path('%s.%s.o' % (self.name, os.path.basename(src)))
            rc, so, se = sh(env, [self.cxx, '-std=' + self.std, '-O2', '-w', '-c', os.path.join(HERE, src), '-o', o] + list(fl), timeout=300)
            if rc != 0:
                raise RuntimeError(so + se)
            res.append(o)
        return res

    def command(self, env, out):
        i = ['-I' + os.path.join(HERE, x) if not x.startswith('/') else '-I' + x for x in self.inc]
        return ([self.cxx, '-std=' + self.std, self.opt, '-w'] + (['-DNDEBUG'] if self.ndebug else []) + list(self.flags) + ['-D' + d for d in self.defs] + i +
                ['-I' + os.path.join(REPO, 'include'), '-I' + env.inc] + [os.path.join(HERE, x) for x in ([self.src] if isinstance(self.src, str) else self.src)] + self.compile_objs(env) + ['-o', out] + list(self.libs))


def build(env, parts, report=lambda p, q, exe: None):
    """Compiles all parts in parallel. A part that does not compile is replaced by its fallback."""
    res = {}
    def one(p):
        q = p
        while q is not None:
            out = env.path(q.name)
            rc, o, e = sh(env, q.command(env, out), timeout=700)
            if rc == 0:
                res[p.name] = (q, out)
                report(p, q, out)
                if q is not p:
                    with env.lock:
                        env.notes.append('part %s did not compile, used %s' % (p.name, q.name))
                return
            err = (o + e)[-3000:]
            q = q.fallback
            if q is None:
                res[p.name] = (None, err)
                report(p, None, err)
            elif q == 'skip':
                with env.lock:
                    env.notes.append('part %s did not compile and was skipped: %s' % (p.name, err[-400:]))
                res[p.name] = ('skip', err)
                report(p, 'skip', err)
                return
    ts = [threading.Thread(target=one, args=(p,)) for p in parts]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return res


def run_parts(env, parts):
    parts = [p for p in parts if p.only is None or p.only == env.tier]
    jobs = queue.Queue()
    building = threading.Event()
    broken = []

    def built(p, q, exe):
        # called as soon as a part is built: its workers start while other parts are still compiled
        if q is None:
            broken.append('cannot build harness %s:\n%s\n' % (p.name, exe))
            return
        if q == 'skip':
            return
        scale = float(os.environ.get('VERIF_SCALE', '1'))
        total = max(1, int((q.thorough if env.thorough else q.quick) * scale))
        w = q.workers or NW
        for k in range(w):
            jobs.put((q, exe, k, w, total))

    def build_all():
        t = time.time()
        build(env, parts, built)
        env.notes.append('build %.1fs' % (time.time() - t))
        building.set()
    bt = threading.Thread(target=build_all)
    bt.start()
    fails = []
    errors = []

    def worker():
        while not env.stop.is_set():
            try:
                q, exe, k, w, total = jobs.get(timeout=0.1)
            except queue.Empty:
                if building.is_set() and jobs.empty():
                    return
                continue
            out = env.path('%s.%d' % (q.name, k))
            cmd = list(q.prefix) + [exe, 'run', '--seed', str(env.seed), '--from', str(k), '--to', str(total), '--step', str(w), '--tier', env.tier, '--out', out,
                   '--max-wall', str(q.wall[1] if env.thorough else q.wall[0])]
            en = dict(os.environ)
            en.update({k2: v.replace('@S', env.scratch) for k2, v in (q.environ or {}).items()})
            t_start = time.time()
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'), stdin=subprocess.DEVNULL, env=en, start_new_session=True, cwd=env.scratch)
            env.procs.add(p)
            while p.poll() is None:
                if env.stop.is_set():
                    # let a worker that is already shrinking finish
                    if not os.path.exists(out + '.fail.raw'):
                        kill_group(p)
                time.sleep(0.05)
            kill_group(p)
            env.procs.discard(p)
            merge(env, q, out)
            with env.lock:
                pt = env.parts.setdefault(q.name, {'evaluations': 0, 'nontrivial': 0}); pt['worker_seconds'] = round(pt.get('worker_seconds', 0) + time.time() - t_start, 1)
            if p.returncode == 1 and os.path.exists(out + '.fail'):
                with env.lock:
                    fails.append((q, exe, out + '.fail'))
                env.stop.set()
            elif p.returncode != 0 and not env.stop.is_set():
                with env.lock:
                    errors.append('%s worker %d: exit %s: %s' % (q.name, k, p.returncode, open(out + '.err').read()[-800:]))
    ts = [threading.Thread(target=worker) for _ in range(NW)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if not env.stop.is_set():
        bt.join()
    if broken and not fails:
        sys.stderr.write(''.join(broken))
        finish(env, broken=True)
    if fails:
        fails.sort(key=lambda f: os.path.getsize(f[2]))
        q, exe, f = fails[0]
        txt = open(f).read()
        msg = txt.splitlines()[1][2:] if txt.count('\n') > 1 else ''
        head = '# part %s; to replay: python3 run.py %s --replay <this file>\n' % (q.name, env.pid)
        env.violation(head + txt, msg, q.name)
    elif errors:
        sys.stderr.write('\n'.join(errors) + '\n')
        finish(env, broken=True)


def merge(env, q, out):
    with env.lock:
        part = env.parts.setdefault(q.name, {'evaluations': 0, 'nontrivial': 0})
        try:
            for line in open(out + '.stats', errors='replace'):
                k, _, v = line.rstrip('\n').partition('\t')
                if k == 'evals':
                    env.evals += int(v); part['evaluations'] += int(v)
                elif k == 'nontrivial':
                    part['nontrivial'] += int(v)
                elif k == 'cut' and v != '0':
                    part['stopped_by_time_cap'] = True
                elif k.startswith('label:'):
                    env.labels[k[6:]] = env.labels.get(k[6:], 0) + int(v)
                elif line.startswith('sample:') and part.get('s', 0) < 3:
                    part['s'] = part.get('s', 0) + 1
                    env.samples.append('[%s] %s' % (q.name, line[7:].strip()))
            data = open(out + '.hash', 'rb').read()
            for i in range(0, len(data) - 7, 8):
                env.nontrivial.add(data[i:i + 8])
        except FileNotFoundError:
            pass


def known_findings(pid):
    res = []
    f = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'finding: property=(\S+)\s+(.*)', line)
            if m and m.group(1) == pid:
                res.append(m.group(2))
    return res


def finish(env, broken=False):
    from registry import CHECKS
    ck = CHECKS[env.pid]
    for p in env.parts.values():
        p.pop('s', None)
    ev = {
        'property': env.pid, 'tier': env.tier, 'seed': env.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': env.evals, 'distinct_nontrivial': len(env.nontrivial), 'rule': ck['rule'],
            'samples': env.samples[:12], 'class_distribution': dict(sorted(env.labels.items())), 'parts': env.parts, 'notes': env.notes,
        },
        'assumptions': ck.get('assumptions', []),
        'wall_s': round(time.time() - env.t0, 2), 'violations': len(env.violations),
    }
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, env.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known_findings(env.pid):
        print('KNOWN-FINDING: property=%s %s' % (env.pid, k))
    for path, msg in env.violations[:3 if 'C19_ALL' not in os.environ else 99]:
        print('  ' + msg)
        print('VIOLATION property=%s replay=%s' % (env.pid, path))
    print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1fs%s' % (env.pid, env.tier, env.seed, env.evals, len(env.nontrivial), time.time() - env.t0,
          ' [BROKEN]' if broken else ''))
    sys.stdout.flush()
    rc = 1 if env.violations else (2 if broken else 0)
    env.cleanup()
    os._exit(rc)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from registry import CHECKS
    ck = CHECKS[pid]
    env = Env(pid, tier, seed)
    signal.signal(signal.SIGTERM, lambda *a: (env.cleanup(), os._exit(3)))
    if len(sys.argv) > 2 and sys.argv[2] == '--replay':
        txt = open(sys.argv[3]).read()
        m = re.match(r'# part (\S+);', txt)
        if m:
            ps = []
            for p in ck['parts'](env):
                while p is not None and p != 'skip':
                    ps.append(p); p = p.fallback
            part = [p for p in ps if p.name == m.group(1)][0]
            part.fallback = None
            b = build(env, [part])[part.name]
            if b[0] is None:
                print(b[1]); env.cleanup(); os._exit(2)
            en = dict(os.environ); en.update({k: v.replace('@S', env.scratch) for k, v in (part.environ or {}).items()})
            rc = subprocess.call(list(part.prefix) + [b[1], 'replay', os.path.abspath(sys.argv[3]), '--times', '3'], env=en, cwd=env.scratch)
        else:
            rc = ck['replay'](env, sys.argv[3])
        env.cleanup(); os._exit(rc)
    if ck.get('parts'):
        run_parts(env, ck['parts'](env))
    if ck.get('custom') and not env.violations:
        ck['custom'](env)
    finish(env)


if __name__ == '__main__':
    sys.modules['run'] = sys.modules['__main__']
    main()
