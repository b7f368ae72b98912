#!/usr/bin/env python3
"""mutate.py N SEED [FILE-SUBSTRING...]: random source mutants of /repo in a scratch clone; keeps those that build and pass the tests
and runs the checks of the mutated file against them. Log: /tmp/w/mu/log.txt (one line per mutant)."""
import os, re, random, subprocess, sys, json
W = os.environ.get('MUT_DIR', '/tmp/w/mu')
R = W + '/repo'
MAP = [('mpi/', 'C04 C07'), ('forestindex', 'C16 C01'), ('spvecgf2', 'C17'), ('spvecfp', 'C18'), ('fp.hpp', 'C18'), ('arithmetic', 'C18'), ('approx_sva', 'C05 C06 C03'),
       ('approx_spanner', 'C15 C05 C06 C03'), ('bfs', 'C15 C05'), ('detail/fvs', 'C13 C14'), ('lex_dijkstra', 'C12 C14 C02'), ('signed_dijkstra', 'C02 C01 C03 C09'), ('detail/dijkstra', 'C12 C02 C15'),
       ('cycles', 'C14 C02 C09 C01'), ('sptrees', 'C12 C14 C02 C03 C09'), ('spanning_forest', 'C16 C01'), ('detail/util', 'C02 C12'), ('tbb', 'C03 C08'), ('parmcb_sva', 'C02 C01 C08'), ('parmcb/util', 'C10 C20'),
       ('mpi.cpp', 'C11 C04'), ('src/', 'C11 C20')]
SECOND = 'C07 C08'

def mutants(path, text, rnd):
    out = []
    lines = text.split('\n')
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('/*'): incomment = True
        if incomment:
            if '*/' in s: incomment = False
            continue
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('*') or s.startswith('template') or s.startswith('typedef') or s.startswith('using') or s.startswith('BOOST_CONCEPT'): continue
        if 'static_assert' in s or 'assert(' in s or s.startswith('std::cout'): continue
        def add(new, kind):
            if new != l: out.append((i, l, new, kind))
        for m in re.finditer(r' (<|<=|>|>=|==|!=|\+|-|&&|\|\||\*|%|\+=|-=|\^) ', l):
            op = m.group(1)
            if op in '<>' and ('typename' in l or 'std::' in l and '(' not in l): continue
            for new in {'<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'], '==': ['!='], '!=': ['=='], '+': ['-'], '-': ['+'], '&&': ['||'], '||': ['&&'], '*': ['+'], '%': ['/'], '+=': ['='], '-=': ['='], '^': ['||']}[op]:
                add(l[:m.start(1)] + new + l[m.end(1):], 'op')
        for a, b in (('true', 'false'), ('false', 'true'), ('continue;', 'break;'), ('break;', 'continue;'), ('std::min', 'std::max'), ('std::max', 'std::min'), ('source(', 'target('), ('target(', 'source('), ('.begin()', '.end()'), ('.first', '.second'), ('push_back', 'push_front'), ('.insert(', '.erase('),
                     ('std::less', 'std::greater'), ('std::greater', 'std::less'), ('.front()', '.back()'), ('const auto &', 'auto '), ('static_cast<std::size_t>', 'static_cast<int>'), ('std::size_t', 'int'), ('std::size_t', 'unsigned char'), ('double', 'float')):
            for m in re.finditer(r'(?<![A-Za-z_])' + re.escape(a), l):
                add(l[:m.start()] + b + l[m.end():], 'word')
        for m in re.finditer(r'(?<![A-Za-z_0-9.])([0-9]+)(?![A-Za-z_0-9.])', l):
            n = int(m.group(1)); add(l[:m.start()] + str(n + 1) + l[m.end():], 'const')
            if n: add(l[:m.start()] + str(n - 1) + l[m.end():], 'const')
        m = re.match(r'^(\s*)(} else )?(if|while) \((.*)\) \{\s*$', l)
        if m:
            pre = m.group(1) + (m.group(2) or '')
            if m.group(3) == 'if': add(pre + 'if (true) {', 'cond'); add(pre + 'if (false) {', 'cond')
            add(pre + m.group(3) + ' (!(' + m.group(4) + ')) {', 'neg')
            for op in (' && ', ' || '):
                if op in m.group(4):
                    a, b = m.group(4).split(op, 1); add(pre + m.group(3) + ' (' + a + ') {', 'half'); add(pre + m.group(3) + ' (' + b + ') {', 'half')
        if s.endswith(';') and not s.startswith('return') and not s.startswith('}') and (re.match(r'^[\w\.\->\[\]\(\)\*:, ]+ ?[-+^]?= ', s) or re.match(r'^[\w\.\->\[\]\*:]+\(.*\);$', s)) and not re.match(r'^(const |auto |typename |std::\S+ \w+ =|[A-Z]\w* \w+ = )', s):
            add('', 'del')
        m = re.match(r'^(\s*)return (.+);$', l)
        if m and m.group(2) in ('true', 'false'): pass
        for m in re.finditer(r'!(?=[\w(])', l):
            add(l[:m.start()] + l[m.end():], 'not')
        # swap two neighbouring statements
        if s.endswith(';') and i + 1 < len(lines) and lines[i + 1].strip().endswith(';') and not s.startswith('return') and not lines[i + 1].strip().startswith('return') and rnd.random() < .5:
            out.append((i, l, None, 'swap'))
    return out

def sh(c, t=900):
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True)
    except subprocess.TimeoutExpired as e:
        class X: returncode = 124; stdout = 'TIMEOUT'
        return X

def main():
    n, seed, subs = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    scale = os.environ.get('MUT_SCALE', '0.15')
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(R): sh('git clone -q /repo ' + R)
    sh('cd %s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD' % R)
    rnd = random.Random(seed)
    files = sh('cd %s && git ls-files include src' % R).stdout.split()
    files = [f for f in files if f.endswith(('.hpp', '.cpp')) and (not subs or any(s in f for s in subs))]
    pool = []
    for f in files:
        t = open(R + '/' + f).read()
        pool += [(f,) + m for m in mutants(f, t, rnd)]
    rnd.shuffle(pool)
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    log = open(W + '/log.txt', 'a')
    print(len(pool), 'candidates')
    done = 0
    for f, i, old, new, kind in pool:
        if done >= n: break
        p = R + '/' + f
        L = open(p).read().split('\n')
        if L[i] != old: continue
        if kind == 'swap': L[i], L[i + 1] = L[i + 1], L[i]
        else: L[i] = new
        open(p, 'w').write('\n'.join(L))
        desc = '%s:%d [%s] %s => %s' % (f, i + 1, kind, old.strip()[:110], (new.strip() if new is not None else 'swap with: ' + L[i].strip())[:110])
        try:
            # fast syntax check through one translation unit happens in the build itself
            b = sh('cd %s && { [ -f _build/build.ninja ] || CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DCMAKE_CXX_FLAGS=-Wno-error >/dev/null; } && ninja -C _build -j8' % R)
            if b.returncode: continue
            t = sh('timeout 120 python3 /opt/vp/run_doctest.py %s/_build' % R).stdout
            bad = [x for x in stable if not any((x in q) and ('pass' in q.lower() or 'ok' in q.lower()) for q in t.splitlines())]
            if bad: continue
            done += 1
            checks = next((c for k, c in MAP if k in f), '')
            verdict = 'SURVIVED'
            for rnd_no, (cs, sc) in enumerate(((checks, scale), (SECOND if 'include' in f else '', '0.3'))):
                for c in cs.split():
                    r = sh('cd /verif && VERIF_SCALE=%s PARMCB_REPO=%s timeout 890 python3 run.py %s quick' % (sc, R, c))
                    if r.returncode == 1 and 'VIOLATION' in r.stdout: verdict = 'caught %s%s' % (c, '' if not rnd_no else ' (second round)'); break
                    if r.returncode != 0: verdict = 'BROKEN %s rc=%d %s' % (c, r.returncode, r.stdout[-200:].replace('\n', ' ')); break
                if verdict != 'SURVIVED': break
            log.write(verdict + ' | ' + desc + '\n'); log.flush()
        finally:
            sh('cd %s && git checkout -q -f .' % R)
main()
