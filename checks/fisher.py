"""projects/fisher_kpp: K01 (Galerkin matrices, SDIRK-2 / Strang splitting evolution, quadrature of functions)"""
import math
from decimal import Decimal, localcontext
from femod import *
from hier import obj
from dpg import dpg_files, area2
from stokes import StEnv, Vals, ev, hat_grad

FK = '''
#include "%s/projects/fisher_kpp/strangsplitting.h"
namespace lfv {
using MP = std::shared_ptr<const lf::mesh::Mesh>;
using lf::base::RefEl;
using lf::mesh::Entity;
struct Kc { double operator()(const Eigen::Vector2d& x) const; };
struct Kh { double operator()(const Eigen::Vector2d& x) const; };
struct Kf { double operator()(const Eigen::VectorXd& x) const; };
struct Sel { bool operator()(const Entity& e) const; };
lf::quad::QuadRule mkrule(RefEl r, Eigen::MatrixXd p, Eigen::VectorXd w, unsigned d) { return lf::quad::QuadRule(r, std::move(p), std::move(w), d); }
std::shared_ptr<lf::uscalfe::UniformScalarFESpace<double>> space(MP m) { return std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(m); }
auto gal(const lf::assemble::DofHandler& d, const Eigen::MatrixXd& L) { return FisherKPP::assembleGalerkinMatrices(d, Kc{}, Kh{}, L); }
using PM = std::pair<Eigen::SparseMatrix<double>, Eigen::SparseMatrix<double>>;
Eigen::MatrixXd galA(const PM& p) { return Eigen::MatrixXd(p.first); }
Eigen::MatrixXd galM(const PM& p) { return Eigen::MatrixXd(p.second); }
const lf::assemble::DofHandler& dofh(const lf::uscalfe::UniformScalarFESpace<double>& s) { return s.LocGlobMap(); }
std::shared_ptr<FisherKPP::StrangSplit> split(std::shared_ptr<lf::uscalfe::UniformScalarFESpace<double>> s, double T, unsigned m, double l, const Eigen::MatrixXd& L) { return std::make_shared<FisherKPP::StrangSplit>(s, T, m, l, Kc{}, Kh{}, L); }
Eigen::VectorXd evo(FisherKPP::StrangSplit& s, const Eigen::VectorXd& cap, const Eigen::VectorXd& mu) { return s.Evolution(cap, mu); }
Eigen::VectorXd dif(FisherKPP::StrangSplit& s, bool first, const Eigen::VectorXd& mu) { return s.diffusionEvolutionOperator(first, mu); }
double lq(const lf::mesh::Mesh& m, const lf::quad::QuadRule& a, const lf::quad::QuadRule& b, unsigned codim) { std::map<RefEl, lf::quad::QuadRule> q{{a.RefEl(), a}, {b.RefEl(), b}}; return FisherKPP::localQuadFunction(m, q, Kf{}, codim, Sel{}); }
}
'''
FKP = 'projects/fisher_kpp/strangsplitting.'
FL_ = ('-I' + os.path.join(REPO, 'projects/fisher_kpp'),)


def unit():
    s = list(dict.fromkeys(module_sources('lib/lf/mesh/utils', 'lib/lf/mesh', 'lib/lf/fe', 'lib/lf/uscalfe', 'lib/lf/assemble', 'lib/lf/geometry', 'lib/lf/base') + dpg_files('lib/lf/quad/quad_rule_cache.cc', FKP + 'cc')))
    return export('fisher', unity(s, FK % REPO), flags=FL_)


class FkEnv(StEnv):
    def __init__(self, P, spec, conc=None):
        """conc: (diffusion coefficient, Robin coefficient) as numbers, else affine functions with symbolic coefficients"""
        self.conc = conc
        StEnv.__init__(self, P, spec, npts=3)
        self.asked = {}
        I = self.I

        def fn(name, which):
            def h(I_, e, ob, a):
                X = I_.rv(a[0])
                v = [to_rf(X.cells[d][0].v) if X.cols == 1 else to_rf(X.cells[0][d].v) for d in (0, 1)]
                return Cell(self.coefv(which, v))
            I.hooks['lfv::%s::operator()' % name] = h
        fn('Kc', 'c')
        fn('Kh', 'h')
        fn('Kf', 'f')

    def coefv(self, which, x):
        if self.conc and which in self.conc:
            return C(F(self.conc[which]))
        return S(which + '0') + S(which + '1') * x[0] + S(which + '2') * x[1]

    def rulevals(self, t, d):
        if d == 'free' or t not in ('Tria', 'Segment'):
            return FemEnv.rulevals(self, t, d)
        if t == 'Tria':
            p = [(F(1, 2), 0), (F(1, 2), F(1, 2)), (0, F(1, 2))]
            return cmat(2, 3, lambda i, j: C(F(p[j][i]))), cmat(3, 1, lambda i, j: C(F(1, 6)), fc=1)
        p = [F(0), F(1, 2), F(1)]
        w = [F(1, 6), F(2, 3), F(1, 6)]
        return cmat(1, 3, lambda i, j: C(p[j])), cmat(3, 1, lambda i, j: C(w[i]), fc=1)

    def edgeglob(self, e, t):
        a, b = (self.pts[v] for v in self.sk.edges[e])
        return [C(F(a[d])) + C(F(b[d] - a[d])) * t for d in (0, 1)]

    def matrices(self):
        n = len(self.pts)
        A = [[ZERO] * n for _ in range(n)]
        M = [[ZERO] * n for _ in range(n)]
        for q, cl in enumerate(self.sk.cells):
            T = self.corners(q)
            ar = abs(F(area2(T)))
            p, w = self.rulevals('Tria', 2)
            cm = ZERO
            for j in range(3):
                cm = cm + w.cells[j][0].v * self.coefv('c', self.glob(q, [p.cells[i][j].v for i in (0, 1)]))
            for i in range(3):
                gi = hat_grad(T, i)
                for j in range(3):
                    gj = hat_grad(T, j)
                    A[cl[i]][cl[j]] = A[cl[i]][cl[j]] + C(ar * (gi[0] * gj[0] + gi[1] * gj[1])) * cm
                    M[cl[i]][cl[j]] = M[cl[i]][cl[j]] + C(ar * F(2 if i == j else 1, 24))
        for e in sorted(self.bedge):
            p, w = self.rulevals('Segment', 2)
            en = self.sk.edges[e]
            for k in range(3):
                t = p.cells[0][k].v
                b = [C(F(1)) - t, t]
                v = w.cells[k][0].v * self.coefv('h', self.edgeglob(e, t)) * self.elen(e)
                for i in (0, 1):
                    for j in (0, 1):
                        A[en[i]][en[j]] = A[en[i]][en[j]] + v * b[i] * b[j]
        return A, M


def hpval(v, env, memo):
    prec = 60
    old = None
    while prec < 40000:
        x = float(hp(v, env, memo.setdefault(prec, {}), prec))
        if old is not None and abs(x - old) <= 1e-12 * (1 + abs(x)):
            return x
        old = x
        prec *= 3
    raise Undecided('no stable value')


def hp(v, env, memo, prec=80):
    """value of a closed form with prec digits (large coefficients cancel)"""
    def dec(x):
        x = F(x)
        return Decimal(x.numerator) / Decimal(x.denominator)

    def atom(i):
        if i not in memo:
            d = alg.CTX.defs.get(i)
            if d is None:
                memo[i] = dec(env(alg.CTX.names[i]))
            elif d[0] == 'sqrt':
                memo[i] = hp(RF(d[1]), env, memo, prec).sqrt()
            elif d[0] != 'abs' and d[1] == 'exp':
                memo[i] = hp(d[2][0], env, memo, prec).exp()
            else:
                memo[i] = Decimal(alg.atom_val(i, env))
        return memo[i]

    def poly(p):
        t = Decimal(0)
        for m, k in p.items():
            x = dec(k)
            i = 0
            while m:
                if m & alg.FULL:
                    x *= atom(i) ** (m & alg.FULL)
                m >>= alg.BITS
                i += 1
            t += x
        return t
    with localcontext() as ctx:
        ctx.prec = prec
        v = to_rf(v)
        r = poly(v.n)
        for k, e in v.d:
            r /= poly(dict(k)) ** e
        return r


def mulv(A, x, s=1):
    return [s * sum(a * b for a, b in zip(r, x)) for r in A]


def gauss(A, b):
    n = len(b)
    A = [list(r) + [b[i]] for i, r in enumerate(A)]
    for k in range(n):
        p = max(range(k, n), key=lambda i: abs(A[i][k]))
        A[k], A[p] = A[p], A[k]
        for i in range(n):
            if i != k:
                f = A[i][k] / A[k][k]
                A[i] = [x - f * y for x, y in zip(A[i], A[k])]
    return [A[i][n] / A[i][i] for i in range(n)]


MESHES = {
    'triangle': ([(0, 0), (4, 0), (0, 3)], [(0, 1, 2)], [(0, 1), (2, 1), (0, 2)]),
    'two': ([(0, 0), (4, 0), (4, 3), (0, 3)], [(0, 1, 2), (2, 3, 0)], [(0, 1), (1, 2), (2, 0), (2, 3), (0, 3)]),
    'mixed': ([(0, 0), (4, 0), (4, 3), (0, 3), (8, 6)], [(2, 1, 0), (0, 2, 3), (1, 4, 2)], [(1, 2), (0, 1), (0, 2), (3, 2), (0, 3), (1, 4), (4, 2)]),
}


def K01(pid):
    c = Check(pid, rule='assembleGalerkinMatrices is abstractly interpreted on triangle meshes with affine coefficients whose values are symbolic and a symbolic matrix L: mass matrix, and stiffness matrix plus Robin mass matrix of the boundary edges minus L. StrangSplit is interpreted with concrete Galerkin data, several final times and numbers of steps and a symbolic growth factor: diffusionEvolutionOperator is one SDIRK-2 step of length tau or tau/2, Evolution is the Strang splitting: half a diffusion step, alternating full logistic reaction and diffusion steps, half a diffusion step, covering [0,T] exactly. localQuadFunction is the quadrature sum over the selected entities.')
    P = unit()
    W = {n: wsrc(P, 'FisherKPP::' + n) for n in ('StrangSplit::Evolution', 'StrangSplit::diffusionEvolutionOperator', 'assembleGalerkinMatrices', 'localQuadFunction')}
    thorough = TIER == 'thorough'

    def spec(name):
        p, cl, ed = MESHES[name]
        return p, cl, ed

    def galerkin(name):
        E = FkEnv(P, spec(name))
        I = E.I
        key = 'galerkin/' + name
        w = W['assembleGalerkinMatrices']

        def run():
            n = len(E.pts)
            sp = fcall(I, 'lfv::space', E.sk.mesh())
            dh = fcall(I, 'lfv::dofh', Cell(obj(I, sp)))
            pm = Cell(fcall(I, 'lfv::gal', dh if isinstance(dh, Cell) else Cell(dh), cmat(n, n, lambda i, j: S('L%d%d' % (i, j)))))
            A, M = E.matrices()
            c.equal_mat(key + '/A', w, I.rv(fcall(I, 'lfv::galA', pm)), cmat(n, n, lambda i, j: A[i][j] - S('L%d%d' % (i, j))), ev, 'the first matrix is not stiffness matrix + boundary mass matrix - L')
            c.equal_mat(key + '/M', w, I.rv(fcall(I, 'lfv::galM', pm)), cmat(n, n, lambda i, j: M[i][j]), ev, 'the second matrix is not the mass matrix')
        c.attempt(key, w, run)
        c.no_abort(key, I, ev)
        c.cover(I)

    def evolution(j):
        name, T, m, robin = j
        E = FkEnv(P, spec(name), {'c': F(3, 2), 'h': robin})
        I = E.I
        key = 'evolution/%s/T=%s,m=%d,h=%s' % (name, T, m, robin)
        w, wd = W['StrangSplit::Evolution'], W['StrangSplit::diffusionEvolutionOperator']

        def run():
            n = len(E.pts)
            Lm = [[F((3 * i + 5 * k) % 4, 8) if robin else F(0) for k in range(n)] for i in range(n)]
            sp = fcall(I, 'lfv::space', E.sk.mesh())
            lam = S('lambda')
            s = Cell(obj(I, fcall(I, 'lfv::split', sp, C(T), m, lam, cmat(n, n, lambda i, k: C(Lm[i][k])))))
            cap = [F(5 + 2 * i, 3) for i in range(n)]
            mu = [F(1 + (3 * i) % 5, 4) for i in range(n)]
            A, M = E.matrices()
            e0 = Env(ev(0))
            An = [[float(A[i][k].eval(e0)) - float(Lm[i][k]) for k in range(n)] for i in range(n)]
            Mn = [[float(M[i][k].eval(e0)) for k in range(n)] for i in range(n)]
            tau = float(T) / m
            ka = 1 - math.sqrt(.5)

            def D(h, x):
                B = [[Mn[i][k] + h * ka * An[i][k] for k in range(n)] for i in range(n)]
                k1 = gauss(B, mulv(An, x, -1))
                k2 = gauss(B, mulv(An, [x[i] + h * (1 - ka) * k1[i] for i in range(n)], -1))
                return [x[i] + h * ((1 - ka) * k1[i] + ka * k2[i]) for i in range(n)]
            mn = [float(x) for x in mu]
            cn = [float(x) for x in cap]
            vec = lambda v: cmat(n, 1, lambda i, k: C(v[i]), fc=1)

            def cmpv(k, wh, got, exp, what, nl):
                got = I.rv(got)
                if not c.require(k + '/size', wh, got.rows * got.cols == n, '%d entries' % (got.rows * got.cols)):
                    return
                g = [x.v for r in got.cells for x in r]
                bad = None
                for i in range(nl):
                    e = Env(ev(i))
                    x = exp(float(e('lambda')))
                    memo = {}
                    v = [hpval(y, e, memo) for y in g]
                    for q in range(n):
                        if not abs(v[q] - x[q]) <= 1e-8 * (1 + abs(x[q])):
                            bad = (q, v[q], x[q])
                c.require(k, wh, bad is None, what + ('' if bad is None else ': component %d is %.9g instead of %.9g' % bad))
            for first, h in ((True, tau / 2), (False, tau)):
                cmpv('%s/diffusion%d' % (key, first), wd, fcall(I, 'lfv::dif', s, first, vec(mu)), lambda l: D(h, mn), 'the diffusion operator is not the SDIRK-2 step of length %s' % ('tau/2' if first else 'tau'), 1)

            def strang(l):
                x = D(tau / 2, mn)
                for q in range(m):
                    x = [k / (1 + (k / y - 1) * math.exp(-l * tau)) for k, y in zip(cn, x)]
                    x = D(tau / 2 if q == m - 1 else tau, x)
                return x
            cmpv(key + '/evolution', w, fcall(I, 'lfv::evo', s, vec(cap), vec(mu)), strang, 'Evolution is not the Strang splitting with %d steps on [0,%s]' % (m, T), 2)
        c.attempt(key, w, run)
        c.no_abort(key, I, ev)
        c.cover(I)

    def quadr(j):
        name, codim = j
        key = 'localQuadFunction/%s/%d' % (name, codim)
        w = W['localQuadFunction']
        E = FkEnv(P, spec(name))
        I = E.I
        t = ('Tria', 'Segment')[codim]
        num_e = len(E.sk.cells) if codim == 0 else len(E.sk.edges)

        E.realgeo.clear()

        def run():
            ra, rb = E.rule('Tria', 'free'), E.rule('Segment', 'free')
            r = fcall(I, 'lfv::lq', Cell(obj(I, E.sk.mesh())), Cell(ra), Cell(rb), codim)
            p, wt = E.rulevals(t, 'free')
            x = ZERO
            for i in range(num_e):
                v = ZERO
                k = E.sk.ent(codim, i).key
                for j in range(p.cols):
                    col = colkey(p, j)
                    v = v + wt.cells[j][0].v * E.coefv('f', [S('X[%s]%s.%d' % (k, col, d)) for d in (0, 1)]) * S('det[%s]%s' % (k, col))
                x = num_add(x, mk_ite(Cond('op', 'sel(%s)' % k), v, ZERO))
            c.equal(key, w, r, x, ev, 'the result is not the sum of the quadrature approximations of the selected entities')
        c.attempt(key, w, run)
        c.no_abort(key, I, ev)
        c.cover(I)
    steps = [('triangle', F(1), 1, 0), ('triangle', F(2), 2, F(1, 2)), ('triangle', F(1, 2), 3, 0), ('two', F(1), 2, F(1, 3))]
    if thorough:
        steps += [('triangle', F(3), 4, F(1)), ('two', F(2), 3, 0)]
    jobs = [(galerkin, n) for n in MESHES] + [(evolution, s) for s in steps] + [(quadr, (n, k)) for n in MESHES for k in (0, 1)]
    c.par(jobs, lambda j: j[0](j[1]))
    return c.finish(20)
