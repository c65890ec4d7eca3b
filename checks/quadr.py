"""Q01: quadrature rules are exact for their degree"""
from refine import *
from fe import moment
from meshes import obj
import math

# named rules: the name of a rule PxOy promises x points and order y (exactness for degree y-1)
NAMED = re.compile(r'lf::quad::make_(Tria|Quad)QR_(\w+)$')


def quad_unit():
    inst = ''
    return export('quad', unity(module_sources('lib/lf/quad', 'lib/lf/base')) + inst)


def fl(x):
    if isinstance(x, int):
        return float(x)
    if isinstance(x, RF) and x.is_const():
        return float(x.value())
    if isinstance(x, Top) and x.why.startswith('uninitialised'):
        raise ThrowEx('a point or a weight of the rule is never assigned')
    raise Undecided('the nodes of the rule are not constants')


def gauss_hook(I, tag, log):
    """GaussLegendre(n) / GaussJacobi(n, a, b): n symbolic points and weights (numerical contract assumed)"""
    def h(I_, e, ob, args):
        a = [I_.rv(x) for x in args]
        n = int(num(a[0]))
        pars = tuple(num(x) if not isinstance(x, int) else F(x) for x in a[1:])
        log.append((tag, n, pars))
        k = tag
        P = eigen.new_mat(n, 1, -1, 1, 'double', False, lambda i, j: S('%sp%d' % (k, i)))
        W = eigen.new_mat(n, 1, -1, 1, 'double', False, lambda i, j: S('%sw%d' % (k, i)))
        return Tup([Cell(P), Cell(W)])
    return h


def Q01(pid):
    c = Check(pid, rule='Every rule with constant nodes (all hard-coded triangle rules reachable from make_QuadRule for degree 1..50, the named rules, the nodal rules): the nodes and weights are evaluated by constant propagation and all monomials up to the degree reported by Degree() (coordinate degree on quadrilaterals) are integrated with relative error below 1e-12; make_QuadRule(ref_el, d) returns a rule for ref_el with Degree() >= d. Rules composed from one-dimensional Gauss rules: with symbolic Gauss nodes, the sum over the composed rule is identical to the product of one-dimensional sums that is exact by the contract of the Gauss rules, and the reported degree does not exceed that of the factors.')
    P = quad_unit()

    def check_const(I, key, w, q, r, dmin):
        X, W = mcall(I, q, 'Points'), mcall(I, q, 'Weights')
        d = int(num(mcall(I, q, 'Degree')))
        rn = mcall(I, mcall(I, q, 'RefEl'), 'NumNodes')
        dim = len(VERT[r][0])
        if not c.require(key + '/refel', w, rn == len(VERT[r]), 'the rule is for a reference element with %s nodes' % rn):
            return
        if dmin is not None:
            c.require(key + '/degree', w, d >= dmin, 'Degree()=%d is below the requested degree %d' % (d, dmin))
        if not c.require(key + '/shape', w, X.rows == dim and X.cols == W.rows * W.cols and X.cols > 0, 'points %dx%d, weights %dx%d' % (X.rows, X.cols, W.rows, W.cols)):
            return
        xs = [[fl(X.cells[i][j].v) for j in range(X.cols)] for i in range(dim)]
        ws = [fl(v.v) for row in W.cells for v in row]
        inside = all((sum(p) <= 1 + 1e-12 if r == 'Tria' else max(p) <= 1 + 1e-12) and min(p) >= -1e-12 for p in zip(*xs)) if dim else True
        c.require(key + '/inside', w, inside, 'a quadrature node lies outside the reference element')
        pw = [[[1.0] * len(ws)] for _ in range(dim)]
        for i in range(dim):
            for k in range(d):
                pw[i].append([a * b for a, b in zip(pw[i][-1], xs[i])])
        import itertools
        worst = None
        for ex in itertools.product(range(d + 1), repeat=dim):
            if r == 'Tria' and sum(ex) > d:
                continue
            ex_v = float(moment(len(VERT[r]), ex))
            t = ws
            for i in range(dim):
                t = [a * b for a, b in zip(t, pw[i][ex[i]])]
            s = math.fsum(t)
            err = abs(s - ex_v)
            if err > 1e-12 * max(abs(ex_v), 1e-3):
                worst = (ex, s, ex_v)
                break
        c.require(key + '/exact', w, worst is None, 'monomial with exponents %s is integrated to %r instead of %r' % (worst or ('', '', '')), degree=d)

    def hard(d):
        alg.reset()
        I = Interp(P)
        log = []
        I.hooks['lf::quad::GaussLegendre'] = gauss_hook(I, 'L', log)
        I.hooks['lf::quad::GaussJacobi'] = gauss_hook(I, 'J', log)
        w = loc(P.fn('lf::quad::make_QuadRule'))
        key = 'make_QuadRule(Tria,%d)' % d

        def run():
            q = fcall(I, 'lf::quad::make_QuadRule', ref_el(I, 'Tria'), d)
            if log:
                composed(I, key, w, q, 'Tria', d, log)
            else:
                check_const(I, key, w, q, 'Tria', d)
        c.attempt(key, w, run)
        c.cover(I)

    def composed(I, key, w, q, r, d, log):
        X, W = mcall(I, q, 'Points'), mcall(I, q, 'Weights')
        deg = int(num(mcall(I, q, 'Degree')))
        rn = mcall(I, mcall(I, q, 'RefEl'), 'NumNodes')
        dim = len(VERT[r][0])
        if not c.require(key + '/refel', w, rn == len(VERT[r]), 'the rule is for a reference element with %s nodes' % rn):
            return
        nmin = min(n for _, n, _ in log)
        c.require(key + '/degree', w, d <= deg <= 2 * nmin - 1, 'Degree()=%d with %d-point Gauss rules, requested %d' % (deg, nmin, d))
        ws = [v.v for row in W.cells for v in row]
        if not c.require(key + '/shape', w, X.rows == dim and X.cols == len(ws), 'points %dx%d, %d weights' % (X.rows, X.cols, len(ws))):
            return
        nL = [n for t, n, _ in log if t == 'L'][0]
        jac = [(n, p) for t, n, p in log if t == 'J']
        if jac and not c.require(key + '/jacobi', w, jac[0][1] == (1, 0), 'Gauss-Jacobi rule with parameters %s' % (jac[0][1],)):
            return

        def smp(i):
            rr = random.Random(i)
            return {'%s%s%d' % (t, k, m): F(rr.randint(1, 99), 100) for t in 'LJ' for k in 'pw' for m in range(40)}

        def one_d(k):
            return nsum(S('Lw%d' % i) * pw_(S('Lp%d' % i), k) for i in range(nL))
        for a in range(min(deg, 3) + 1):
            for b in range(min(deg, 3) + 1 if dim == 2 else 1):
                if r == 'Tria' and a + b > deg:
                    continue
                tot = nsum(num_mul(ws[j], num_mul(pw_(X.cells[0][j].v, a), pw_(X.cells[1][j].v, b) if dim == 2 else ONE)) for j in range(len(ws)))
                if r == 'Segment':
                    exp = one_d(a)
                elif r == 'Quad':
                    exp = num_mul(one_d(a), one_d(b))
                else:
                    nJ = jac[0][0]
                    y = [(S('Jp%d' % i) + ONE) * C(F(1, 2)) for i in range(nJ)]
                    exp = num_mul(one_d(a), nsum(S('Jw%d' % i) * C(F(1, 4)) * pw_(ONE - y[i], a) * pw_(y[i], b) for i in range(nJ)))
                c.equal('%s/x^%dy^%d' % (key, a, b), w, tot, exp, smp, 'the composed rule does not integrate x^%d y^%d like the product of one-dimensional rules' % (a, b))
    md = 50
    c.par(list(range(0, md + 1)) + [51, 52, 53], hard)

    def other(x):
        kind, r, d = x
        alg.reset()
        I = Interp(P)
        log = []
        I.hooks['lf::quad::GaussLegendre'] = gauss_hook(I, 'L', log)
        I.hooks['lf::quad::GaussJacobi'] = gauss_hook(I, 'J', log)
        if kind == 'make':
            w = loc(P.fn('lf::quad::make_QuadRule'))
            key = 'make_QuadRule(%s,%d)' % (r, d)

            def run():
                q = fcall(I, 'lf::quad::make_QuadRule', ref_el(I, r), d)
                if log:
                    composed(I, key, w, q, r, d, log)
                else:
                    check_const(I, key, w, q, r, d)
        elif kind == 'nodal':
            w = loc(P.fn('lf::quad::make_QuadRuleNodal'))
            key = 'make_QuadRuleNodal(%s)' % r

            def run():
                check_const(I, key, w, fcall(I, 'lf::quad::make_QuadRuleNodal', ref_el(I, r)), r, None)
        else:
            f = P.fn(kind)
            w = loc(f)
            key = kind.split('::')[-1]

            def run():
                q = fcall(I, kind)
                m = re.match(r'P(\d+)O', NAMED.match(kind).group(2))
                if m:
                    n = mcall(I, q, 'NumPoints')
                    c.require(key + '/points', w, int(num(n)) == int(m.group(1)), 'the rule has %s points' % n)
                if log:
                    composed(I, key, w, q, r, d or 0, log)
                else:
                    check_const(I, key, w, q, r, d)
        c.attempt(key, w, run)
        c.cover(I)
    xs = [('make', r, d) for r in ('Segment', 'Quad') for d in range(0, 8)] + [('nodal', r, None) for r in VERT]
    names = sorted({f['q'] for f in P.funcs.values() if NAMED.match(f['q']) and f.get('body')})
    for n in names:
        m = re.match(r'P(\d+)O(\d+)$', NAMED.match(n).group(2))
        xs.append((n, NAMED.match(n).group(1), int(m.group(2)) - 1 if m else None))
    c.par(xs, other)
    c.assumptions.append('GaussLegendre(n) and GaussJacobi(n,1,0) fulfil their numerical contract (Newton iteration at run time, not decided here)')
    return c.finish(150)


def pw_(x, n):
    r = ONE
    for _ in range(n):
        r = num_mul(r, x)
    return r


CACHEW = '''
namespace lfv {
using lf::base::RefEl;
using lf::quad::QuadRule;
using lf::quad::QuadRuleCache;
QuadRule mk(RefEl r, const Eigen::MatrixXd& p, const Eigen::VectorXd& w, unsigned d) { return QuadRule(r, p, w, d); }
std::unique_ptr<QuadRuleCache> cache() { return std::make_unique<QuadRuleCache>(); }
const QuadRule* get(const QuadRuleCache& c, RefEl r, unsigned d) { return &c.Get(r, d); }
void move_in(QuadRuleCache& a, QuadRuleCache& b) { a = std::move(b); }
std::unique_ptr<QuadRuleCache> move_new(QuadRuleCache& b) { return std::make_unique<QuadRuleCache>(std::move(b)); }
RefEl rseg() { return RefEl::kSegment(); }
RefEl rtri() { return RefEl::kTria(); }
RefEl rquad() { return RefEl::kQuad(); }
}
'''


def Q02(pid):
    c = Check(pid, rule='QuadRuleCache is abstractly interpreted with make_QuadRule replaced by its contract (a rule with symbolic points and weights that depends on its arguments only). For all short and sampled long sequences of requests, each request returns the rule made for exactly these arguments, the same request returns the same object, and references obtained earlier stay valid (element references of a std::vector die when it grows beyond its guaranteed capacity), also when the cache is moved.')
    P = export('quadcache', unity(module_sources('lib/lf/base') + [os.path.join(REPO, 'lib/lf/quad', f) for f in ('quad_rule_cache.cc', 'make_quad_rule.h')], CACHEW))
    w = loc(P.fn('lf::quad::QuadRuleCache::Get'))
    import random
    thorough = TIER == 'thorough'
    reqs = [(r, d) for r in ('seg', 'tri', 'quad') for d in range(5 if thorough else 4)]
    import itertools
    seqs = list(itertools.product(reqs, repeat=2)) + list(itertools.product([x for x in reqs if x[1] in (0, 1, 3)], repeat=3))
    rnd = random.Random(5)
    for n in (6, 12, 25):
        for _ in range(20 if thorough else 6):
            seqs.append(tuple((rnd.choice(('seg', 'tri', 'quad')), rnd.choice((0, 1, 2, 3, 5, 8, 20, 40))) for _ in range(n)))

    def one(j):
        i, seq = j
        key = 'seq%d' % i

        def run():
            alg.reset()
            I = Interp(P)
            ref = {r: obj(I, fcall(I, 'lfv::r' + r)) for r in ('seg', 'tri', 'quad')}
            dim = {'seg': 1, 'tri': 2, 'quad': 2}
            made = {}

            def rule(r, d):
                D = dim[r]
                p = eigen.new_mat(D, 2, -1, -1, 'double', False, lambda a, b: S('p%s_%d_%d%d' % (r, d, a, b)))
                q = eigen.new_mat(2, 1, -1, 1, 'double', False, lambda a, b: S('w%s_%d_%d' % (r, d, a)))
                return p, q, d + d % 2

            def hook(I_, e, ob, args):
                a = [I_.rv(x) for x in args]
                rn = a[0]
                n = mcall(I_, rn, 'NumNodes')
                d = int(num(a[1]))
                r = {2: 'seg', 3: 'tri', 4: 'quad'}[n]
                p, q, dd = rule(r, d)
                return obj(I_, fcall(I_, 'lfv::mk', rn, p, q, dd))
            I.hooks['lf::quad::make_QuadRule'] = hook

            def same(k, q, r, d):
                p, ww, dd = rule(r, d)
                rq = obj(I, q)
                ok = isinstance(rq, Obj)
                if not c.require(k + '/obj', w, ok, 'the reference obtained for %s, degree %d is not valid any more' % (r, d)):
                    return False
                X, W = mcall(I, rq, 'Points'), mcall(I, rq, 'Weights')
                n = mcall(I, mcall(I, rq, 'RefEl'), 'NumNodes')
                if not c.require(k + '/kind', w, n == {'seg': 2, 'tri': 3, 'quad': 4}[r] and int(num(mcall(I, rq, 'Degree'))) == dd and X.rows == dim[r] and X.cols == 2, 'the rule returned for %s, degree %d is a different one' % (r, d)):
                    return False
                for a in range(dim[r]):
                    for b in range(2):
                        c.equal('%s/p%d%d' % (k, a, b), w, X.cells[a][b].v, p.cells[a][b].v, what='point of the rule returned for %s, degree %d' % (r, d))
                for b in range(2):
                    c.equal('%s/w%d' % (k, b), w, [v.v for row in W.cells for v in row][b], [v.v for row in ww.cells for v in row][b], what='weight of the rule returned for %s, degree %d' % (r, d))
                return True
            C0 = obj(I, fcall(I, 'lfv::cache'))
            held = []
            for s, (r, d) in enumerate(seq):
                if s == 2 and i % 3 == 0:
                    C0 = obj(I, fcall(I, 'lfv::move_new', C0))
                elif s == 2 and i % 3 == 1:
                    n0 = obj(I, fcall(I, 'lfv::cache'))
                    fcall(I, 'lfv::move_in', n0, C0)
                    C0 = n0
                p = I.rv(fcall(I, 'lfv::get', C0, ref[r], d))
                cell = p.c if p.c is not None else p.vec.items[p.i]
                for (r2, d2), cell2 in held:
                    if (r2, d2) == (r, d):
                        c.require('%s/%d/same' % (key, s), w, cell is cell2, 'a repeated request for %s, degree %d returns a different object' % (r, d))
                held.append(((r, d), cell))
                if s < 3 or s == len(seq) - 1:
                    for k, ((r2, d2), cell2) in enumerate(held):
                        if not same('%s/%d/held%d' % (key, s, k), cell2, r2, d2):
                            return
            c.cover(I)
        c.attempt(key, w, run)
    c.par(list(enumerate(seqs)), one)
    return c.finish(800)
