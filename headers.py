"""C19: generated one-header programs, multi-unit programs and random include sets."""
import itertools, os, random, re, hashlib, time, subprocess
import run as R
from run import sh, HERE, MPI_INC, MPI_LIB
from demos import compile_all, parallel

LIBS = ['-ltbb', '-lboost_timer'] + MPI_LIB
CONFIGS = list(itertools.product((1, 0), (1, 0)))     # (tbb, mpi)


DETAIL = 'approx_spanner.hpp bfs.hpp cycles.hpp dijkstra.hpp fvs.hpp lex_dijkstra.hpp signed_dijkstra.hpp spanning_forest.hpp util.hpp'.split()


def headers():
    top = os.path.join(R.REPO, 'include')
    h = []
    for d, _, fs in os.walk(os.path.join(top, 'parmcb')):
        h += [os.path.relpath(os.path.join(d, f), top) for f in fs if f.endswith('.hpp')]
    # headers that a change adds under detail/ are the library's own business, they are reached through the others
    return sorted(x for x in h if '/detail/' not in x or os.path.basename(x) in DETAIL)


def config_dir(env, t, m):
    d = env.path('inc%d%d' % (t, m))
    if not os.path.exists(os.path.join(d, 'parmcb', 'config.hpp')):
        R.write_config(d, bool(t), bool(m))
        if not t:
            # TBB is not there at all
            for top in ('tbb', 'oneapi/tbb'):
                os.makedirs(os.path.join(d, top), exist_ok=True)
                for f in os.listdir('/usr/include/' + top) if os.path.isdir('/usr/include/' + top) else ['tbb.h']:
                    if f.endswith('.h'): open(os.path.join(d, top, f), 'w').write('#error "TBB is not available"\n')
    return d


def mpi_inc(m):
    return MPI_INC if m else []


# Uses of the public interface. {h}: headers any one of which is documented to provide it. Bodies are compiled after the
# parmcb headers and after the Boost graph headers a user needs to build a graph.
GRAPH = '''
#include <boost/graph/adjacency_list.hpp>
typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property,
    boost::property<boost::edge_weight_t, double> > @T;
typedef boost::graph_traits<@T>::edge_descriptor @E;
typedef boost::property_map<@T, boost::edge_weight_t>::type @W;
'''
ENTRY = GRAPH + '''
#include <list>
#include <vector>
#include <iterator>
double @f(@T &g) { std::list<std::list<@E>> c; return (double) parmcb::%s(g, boost::get(boost::edge_weight, g), %sstd::back_inserter(c)%s); }
'''
MPI_ENTRY = '''
#include <boost/mpi/communicator.hpp>
static boost::mpi::communicator @w;
''' + ENTRY
USES = {
    'fp': (['fp.hpp'], 0, 0, 'long @f(long a) { long x, y; return parmcb::fp<long>::ext_gcd(a, 35l, x, y) + parmcb::fp<long>::get_mult_inverse(a, 7l); }\nbool @g(int a) { return parmcb::primes<int>::is_prime(a); }'),
    'fp-long': (['fp.hpp'], 0, 0, 'long long @f(long long a) { long long x, y; return parmcb::fp<long long>::ext_gcd(a, 35ll, x, y) + parmcb::primes<long long>::is_prime(a); }'),
    'fp-big': (['fp.hpp', 'arithmetic.hpp'], 0, 0, '@1#include <boost/multiprecision/cpp_int.hpp>\nbool @f(int a) { typedef boost::multiprecision::cpp_int Z; Z x, y; return parmcb::fp<Z>::ext_gcd(Z(a), Z(35), x, y) == 1; }'),
    'arith': (['arithmetic.hpp'], 0, 0, 'int @f(int a) { return parmcb::compare(parmcb::ptype(a), parmcb::ptype(3)); }'),
    'gf2': (['spvecgf2.hpp'], 0, 0, '''
#include <iostream>
#include <set>
std::size_t @f() { parmcb::SpVecGF2<std::size_t> a(1), b(2), c; c = a + b; c += a; c.add(7); std::set<std::size_t> s; parmcb::SpVecGF2<std::size_t> d(c), e(s); std::cout << d; return c * b + c * s + c.size() + (c.begin() == c.end() ? 1 : 0); }'''),
    'fpv': (['spvecfp.hpp'], 0, 0, '''
#include <iostream>
std::size_t @f() { parmcb::SpVecFP<long> a(7), b(7), c(7); a = 3; b = 2; c = a + b; c = c * 2l; c += a; c *= 3l; std::cout << c; return c.size() + c * a + (c.begin() == c.end() ? 1 : 0); }'''),
    'forest': (['forestindex.hpp'], 0, 0, GRAPH + '''
std::size_t @f(@T &g) { parmcb::ForestIndex<@T> fi(g); return fi.cycle_space_dimension() + fi.weak_connected_components() + fi.is_on_forest(*boost::edges(g).first) + fi(*boost::edges(g).first) + boost::source(fi(0), g); }'''),
    'pre': (['util.hpp'], 0, 0, GRAPH + '''
#include <list>
bool @f(@T &g) { std::list<@E> c; return parmcb::has_loops(g) || parmcb::has_multiple_edges(g) || parmcb::has_non_positive_weights(g, boost::get(boost::edge_weight, g)) || parmcb::is_cycle(g, c); }'''),
    'dimacs': (['util.hpp'], 0, 0, GRAPH + '''
#include <cstdio>
void @f(@T &g) { parmcb::read_dimacs_from_file(stdin, g); }'''),
    'cores': (['util.hpp'], 1, 0, 'void @f() { parmcb::set_global_tbb_concurrency(2); }'),
}
for _a, _h in (('mcb_sva_signed', 'parmcb_sva_signed.hpp'), ('mcb_sva_fvs_trees', 'parmcb_sva_trees.hpp'), ('mcb_sva_iso_trees', 'parmcb_sva_trees.hpp')):
    USES[_a] = ([_h, 'parmcb.hpp'], 0, 0, ENTRY % (_a, '', ''))
    USES[_a + '_tbb'] = ([_h.replace('signed.', 'signed_tbb.'), 'parmcb.hpp'], 1, 0, ENTRY % (_a + '_tbb', '', ''))
    USES['approx_' + _a] = (['parmcb_approx_' + _h[7:], 'parmcb.hpp'], 0, 0, ENTRY % ('approx_' + _a, '(std::size_t) 2, ', ''))
    USES['approx_' + _a + '_tbb'] = (['parmcb_approx_' + _h[7:-4] + '_tbb.hpp', 'parmcb.hpp'], 1, 0, ENTRY % ('approx_' + _a + '_tbb', '(std::size_t) 2, ', ''))
    USES[_a + '_mpi'] = (['mpi/' + _h, 'mpi/parmcb.hpp'], 1 if 'signed' in _a else 0, 1, MPI_ENTRY % (_a + '_mpi', '', ', @w'))
    if 'trees' in _a:
        USES[_a + '_tbb_mpi'] = (['mpi/' + _h, 'mpi/parmcb.hpp'], 1, 1, MPI_ENTRY % (_a + '_tbb_mpi', '', ', @w'))

# everything a user might include first; TBB and MPI only where configured
PRELUDE = ''.join('#include <%s>\n' % h for h in
    'algorithm array cassert cerrno climits cmath cstddef cstdint cstdio cstdlib cstring deque exception functional iostream iterator limits list map memory mutex numeric queue set sstream stack stdexcept string system_error tuple type_traits unordered_map unordered_set utility vector'.split()) + \
    ''.join('#include <boost/%s.hpp>\n' % h for h in 'graph/adjacency_list graph/graph_utility graph/connected_components property_map/property_map property_map/function_property_map tuple/tuple timer/timer'.split())


def use_text(name, tag):
    t = USES[name][3].replace('@1', '')
    for k in 'TEWfgw':
        t = t.replace('@' + k, 'u%s_%s' % (tag, {'T': 'graph', 'E': 'edge', 'W': 'wmap', 'f': 'use', 'g': 'use2', 'w': 'world'}[k]))
    return t + '\n'


def unit(hs, uses, tag, prelude=''):
    """Source text of one translation unit: parmcb headers first (nothing else before them), then the uses."""
    return prelude + ''.join('#include <%s>\n' % h for h in hs) + ''.join(use_text(u, '%s_%d' % (tag, i)) for i, u in enumerate(uses))


def compile_unit(env, text, cfg, cc, out=None, std='c++14', extra=()):
    """Compiles; returns None or the first error line."""
    key = hashlib.blake2b((text + repr((cfg, cc, out, std))).encode(), digest_size=8).hexdigest()
    f = env.path('u%s.cpp' % key)
    open(f, 'w').write(text)
    en = dict(os.environ, LC_ALL='C')
    cmd = [cc, '-std=' + std, '-O0', '-w', '-I' + os.path.join(R.REPO, 'include'), '-I' + config_dir(env, *cfg)] + mpi_inc(cfg[1]) + list(extra) + [f]
    rc, o, e = sh(env, cmd + (['-c', '-o', out] if out else ['-fsyntax-only']), timeout=300, environ=en)
    if rc == 0: return None
    if rc is None or 'Killed' in e or 'internal compiler error' in e or 'out of memory' in e: raise RuntimeError('compiler gave no answer: ' + e[-500:])
    errs = [l for l in e.splitlines() if ' error: ' in l] or e.splitlines()[:1]
    return re.sub(r'^\S*?include/parmcb', 'parmcb', errs[0].replace(f, 'unit.cpp'))[:300]


def preprocessed(env, h, cfg):
    rc, o, e = sh(env, ['bash', '-c', 'echo "#include <%s>" | g++ -std=c++14 -E -P -w -x c++ -I%s -I%s %s - | sha1sum' % (h, os.path.join(R.REPO, 'include'), config_dir(env, *cfg), ' '.join(mpi_inc(cfg[1])))], timeout=100)
    return o.split()[0] if o else repr(cfg)


def link(env, objs, out):
    rc, o, e = sh(env, ['g++'] + objs + ['-o', out] + LIBS, timeout=300, environ=dict(os.environ, LC_ALL='C'))
    if os.path.exists(out): os.unlink(out)
    if rc == 0: return None
    bad = [l for l in e.splitlines() if 'multiple definition' in l or 'undefined reference' in l]
    if not bad: raise RuntimeError('linker gave no answer: ' + e[-800:])
    return re.sub(r"^\S*ld: ", '', bad[0])[:300]


def program_text(kind, cfg, cc, units):
    return 'headers %s\ntbb %d mpi %d compiler %s\n' % (kind, cfg[0], cfg[1], cc) + ''.join('--- unit\n' + u for u in units)


def check_program(env, units, cfg, cc, tag):
    """Compiles every unit with cc and links them; returns None or the error."""
    objs = []
    for i, u in enumerate(units):
        o = env.path('%s_%d.o' % (tag, i))
        x = compile_unit(env, u, cfg, cc, o)
        if x: return 'does not compile: ' + x
        objs.append(o)
    m = env.path('%s_main.o' % tag)
    x = compile_unit(env, 'int main() { return 0; }\n', cfg, cc, m)
    assert x is None, x
    x = link(env, objs + [m], env.path(tag + '.exe'))
    for o in objs + [m]: os.unlink(o)
    return 'does not link: ' + x if x else None


def custom(env):
    H = headers()
    short = {h: h[len('parmcb/'):] for h in H}
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    r0 = random.Random('c19/%d' % env.seed)
    for c in CONFIGS: config_dir(env, *c)
    main_o = env.path('main.o')
    assert compile_unit(env, 'int main() { return 0; }\n', (1, 1), 'g++', main_o) is None
    found = []          # (kind, cfg, cc, units, message)

    # 1. every header alone, in every configuration (configurations with the same preprocessed text are one program)
    pre = {}
    def prep(i): pre[i] = preprocessed(env, *i)
    parallel(env, [(h, c) for h in H for c in CONFIGS], prep)
    todo, alias = {}, {}
    for h in H:
        seen = {}
        for c in CONFIGS:
            k = seen.setdefault(pre[(h, c)], c)
            alias[(h, c)] = (h, k)
            if k == c: todo[(h, c)] = env.path('h%d_%d%d.o' % (H.index(h), c[0], c[1]))
    bad = {}
    def one(i):
        (h, c), o = i
        x = compile_unit(env, '#include <%s>\n' % h, c, 'g++', o)
        if x:
            bad[(h, c)] = x
            found.append(('one header', c, 'g++', [unit([h], [], 'x')], '%s alone (TBB %s, MPI %s) does not compile: %s' % (h, 'on' if c[0] else 'off', 'on' if c[1] else 'off', x)))
        env.count(('alone', h, c))
    parallel(env, sorted(todo.items()), one)
    for h in H:
        for c in CONFIGS: env.label('one-header programs (tbb %d mpi %d)' % c)
    # clang's two-phase lookup rejects things g++ accepts
    cl = sorted(k for k in todo if k not in bad)
    if not env.thorough: cl = [k for k in cl if k[1] == (1, 1)] if scale >= 1 else cl[:4]
    def onec(i):
        x = compile_unit(env, '#include <%s>\n' % i[0], i[1], 'clang++')
        if x: found.append(('one header', i[1], 'clang++', [unit([i[0]], [], 'x')], '%s alone (TBB %d, MPI %d) does not compile with clang++: %s' % (i[0], i[1][0], i[1][1], x)))
        env.count(('alone clang', i)); env.label('one-header programs, clang++')
    if not found: parallel(env, cl, onec)

    env.notes.append('one-header programs %.0fs' % (time.time() - env.t0))
    # 2. two units including the same header, every pair of headers
    def copy(o): return o[:-2] + '_b.o'
    for k, o in todo.items():
        if k not in bad: subprocess.check_call(['cp', o, copy(o)])
    def pair(i):
        a, b, c = i
        ka, kb = alias[(a, c)], alias[(b, c)]
        if ka in bad or kb in bad: return
        x = link(env, [todo[ka], copy(todo[kb]), main_o], env.path('l%d_%d_%d%d.exe' % (H.index(a), H.index(b), c[0], c[1])))
        env.count(('pair', a, b, c)); env.label('two-unit programs linked')
        if x: found.append(('two units', c, 'g++', [unit([a], [], 'x'), unit([b], [], 'y')], 'two units including %s and %s do not link: %s' % (a, b, x)))
    if not found:
        pairs = sorted({(h, h, alias[(h, c)][1]) for h in H for c in CONFIGS})
        rest = [(a, b, c) for c in CONFIGS for i, a in enumerate(H) for b in H[i + 1:]]
        pairs += rest if env.thorough else r0.sample(rest, min(len(rest), int(60 * scale)))
        parallel(env, pairs, pair)
    def everything(c):
        objs = []
        for h in H:
            k = alias[(h, c)]
            if k not in bad: objs += [todo[k], copy(todo[k])]
        x = link(env, objs + [main_o], env.path('all%d%d.exe' % c))
        env.count(('all', c)); env.label('programs of two units per header')
        if x:
            # smallest pair that shows it
            for a in H:
                for b in H:
                    ka, kb = alias[(a, c)], alias[(b, c)]
                    if ka in bad or kb in bad: continue
                    y = link(env, [todo[ka], copy(todo[kb]), main_o], env.path('all%d%d.exe' % c))
                    if y:
                        found.append(('two units', c, 'g++', [unit([a], [], 'x'), unit([b], [], 'y')], 'two units including %s and %s do not link: %s' % (a, b, y)))
                        return
    if not found: parallel(env, CONFIGS, everything)

    env.notes.append('linked %.0fs' % (time.time() - env.t0))
    # 3. random programs: one to three units, each with a random ordered set of headers and uses of the interface
    def usable(u, c):
        return c[0] >= USES[u][1] and c[1] >= USES[u][2]
    obsolete = {}
    def is_obsolete(u, c):
        """The use does not compile under any include set: the interface itself is different, nothing to decide."""
        if (u, c) not in obsolete:
            obsolete[(u, c)] = all(compile_unit(env, unit(hs, [u], 'o', PRELUDE + ('#include <tbb/tbb.h>\n' if c[0] else '') + ('#include <boost/mpi.hpp>\n' if c[1] else '')), c, 'g++') for hs in
                                   (['parmcb/' + USES[u][0][0]] if 'parmcb/' + USES[u][0][0] in H else [], H, H[::-1]))
            if obsolete[(u, c)]:
                with env.lock: env.notes.append('use %s does not compile under any include set and was skipped' % u)
        return obsolete[(u, c)]
    def gen(r, first=None):
        c = r.choice([(1, 1), (1, 1), (1, 0), (0, 0), (0, 1)])
        units = []
        for k in range(1 if first else r.choice([1, 2, 2, 3])):
            us = [u for u in USES if usable(u, c)]
            pick = r.sample(us, r.choice([1, 1, 2, 3]))
            hs = []
            for u in pick:
                h = 'parmcb/' + r.choice([x for x in USES[u][0] if 'parmcb/' + x in H] or ['parmcb.hpp'])
                if u == 'fp-big': hs += [x for x in ('parmcb/fp.hpp', 'parmcb/arithmetic.hpp') if x not in hs]
                elif h not in hs: hs.append(h)
            if r.random() < .6: hs += [h for h in r.sample(H, r.choice([1, 2, 3, 5])) if h not in hs]
            r.shuffle(hs)
            units.append((hs, pick))
        return c, units
    progs = []
    # every use from each of its headers, alone
    for u in sorted(USES):
        for x in USES[u][0]:
            if 'parmcb/' + x not in H: continue
            hs = ['parmcb/fp.hpp', 'parmcb/arithmetic.hpp'] if u == 'fp-big' else ['parmcb/' + x]
            if u == 'fp-big' and x != 'fp.hpp': hs.reverse()
            progs += [(c, [(hs, [u])], cc) for c in CONFIGS for cc in ('g++', 'clang++') if usable(u, c)]
    fixed = len(progs)
    if not env.thorough:
        # one configuration and compiler per header, with all its uses in one program
        byk = {}
        for p in progs: byk.setdefault(tuple(p[1][0][0]), {}).setdefault((p[0], p[2]), []).extend(p[1][0][1])
        progs = []
        for k, v in sorted(byk.items()):
            c, cc = r0.choice(sorted(v)); progs.append((c, [(list(k), v[(c, cc)])], cc))
    for i in range(int((400 if env.thorough else 10) * scale)):
        r = random.Random('c19/%d/%d' % (env.seed, i))
        c, us = gen(r); progs.append((c, us, r.choice(['g++', 'g++', 'clang++'])))
    def run_prog(p, tag):
        c, us, cc = p
        return check_program(env, [unit(hs, pick, '%d' % i) for i, (hs, pick) in enumerate(us)], c, cc, tag)
    def prog(ip):
        i, p = ip
        c, us, cc = p
        x = run_prog(p, 'p%d' % i)
        env.count(('prog', c, repr(us), cc)); env.label('programs using the interface (tbb %d mpi %d)' % c)
        if i % 17 == 0: env.sample('tbb %d mpi %d %s: ' % (c + (cc,)) + ' | '.join('%s : uses %s' % (' '.join(short[h] for h in hs), ' '.join(pick)) for hs, pick in us))
        if not x: return
        if any(is_obsolete(u, c) for hs, pick in us for u in pick):
            us = [(hs, [u for u in pick if not is_obsolete(u, c)]) for hs, pick in us]
            x = run_prog((c, us, cc), 'p%d' % i)
            if not x: return
        # minimise: units, uses, headers
        changed = True
        while changed:
            changed = False
            cand = [us[:k] + us[k + 1:] for k in range(len(us)) if len(us) > 1]
            for k, (hs, pick) in enumerate(us):
                cand += [us[:k] + [(hs, pick[:j] + pick[j + 1:])] + us[k + 1:] for j in range(len(pick))]
            for k, (hs, pick) in enumerate(us):
                for j in range(len(hs)):
                    n = hs[:j] + hs[j + 1:]
                    # a unit keeps, for every use, one of the headers that provide it
                    if all(any('parmcb/' + q in n for q in USES[u][0]) for u in pick) and (n or len(us) > 1) and 'fp-big' not in pick:
                        cand.append(us[:k] + [(n, pick)] + us[k + 1:])
            for t in cand:
                y = run_prog((c, t, cc), 'p%d' % i)
                if y:
                    us, x, changed = t, y, True
                    break
        found.append(('program', c, cc, [unit(hs, pick, '%d' % i) for i, (hs, pick) in enumerate(us)],
                      'program (TBB %d, MPI %d, %s) %s %s' % (c[0], c[1], cc, ' | '.join('{%s; uses %s}' % (' '.join(hs), ' '.join(pick) or '-') for hs, pick in us), x)))
        env.stop.set()
    if not found: parallel(env, list(enumerate(progs)), prog)
    for kind, c, cc, units, msg in sorted(found, key=lambda f: (len(f[3]), f[4]))[:40 if os.environ.get('C19_ALL') else 3]:
        env.violation(program_text(kind, c, cc, units), msg)


def replay(env, path):
    t = open(path).read()
    head, units = t.split('--- unit\n')[0], t.split('--- unit\n')[1:]
    m = re.search(r'tbb (\d) mpi (\d) compiler (\S+)', head)
    x = check_program(env, units, (int(m.group(1)), int(m.group(2))), m.group(3), 'r')
    print('still fails: ' + x if x else 'passes')
    return 1 if x else 0
