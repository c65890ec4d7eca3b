"""Element providers and finite element functions: E01 .. (environment of opaque geometry, finite elements, coefficients)"""
from assem import *

FEM = '''
#include "%s/lib/lf/fe/fe.h"
#include "%s/lib/lf/uscalfe/uscalfe.h"
namespace lfv {
using Cd = std::complex<double>;
using lf::mesh::Entity;
template <class S> using Fes = std::shared_ptr<const lf::fe::ScalarFESpace<S>>;
template <class S> using UFes = std::shared_ptr<const lf::uscalfe::UniformScalarFESpace<S>>;
#define LFV_COEF(N, T) struct N { int tag; std::vector<T> operator()(const Entity& e, const Eigen::MatrixXd& p) const; }; N mk_##N(int t) { return N{t}; }
LFV_COEF(CoefD, double)
LFV_COEF(CoefZ, Cd)
LFV_COEF(CoefM, Eigen::Matrix2d)
LFV_COEF(CoefN, Eigen::Matrix2cd)
LFV_COEF(CoefX, Eigen::MatrixXd)
LFV_COEF(CoefV, Eigen::Vector2d)
LFV_COEF(CoefW, Eigen::VectorXd)
struct Sel { bool operator()(const Entity& e) const; };
lf::quad::QuadRule mkrule(lf::base::RefEl r, Eigen::MatrixXd p, Eigen::VectorXd w, unsigned d) { return lf::quad::QuadRule(r, std::move(p), std::move(w), d); }
std::map<lf::base::RefEl, lf::quad::QuadRule> mkmap(lf::quad::QuadRule a, lf::quad::QuadRule b) { return {{a.RefEl(), a}, {b.RefEl(), b}}; }
#define LFV_DIFF(N, S, A) \\
auto N(Fes<S> s, A a, const Entity& e) { lf::fe::DiffusionElementMatrixProvider p(s, a); return p.Eval(e); } \\
bool N##_act(Fes<S> s, A a, const Entity& e) { lf::fe::DiffusionElementMatrixProvider p(s, a); return p.isActive(e); }
LFV_DIFF(diff_d_d, double, CoefD)
LFV_DIFF(diff_d_z, double, CoefZ)
LFV_DIFF(diff_d_dm, double, CoefM)
LFV_DIFF(diff_d_dx, double, CoefX)
LFV_DIFF(diff_d_zm, double, CoefN)
LFV_DIFF(diff_z_z, Cd, CoefZ)
#define LFV_MASS(N, S, A) \\
auto mass_##N(Fes<S> s, A a, const Entity& e) { lf::fe::MassElementMatrixProvider p(s, a); return p.Eval(e); } \\
bool mass_##N##_act(Fes<S> s, A a, const Entity& e) { lf::fe::MassElementMatrixProvider p(s, a); return p.isActive(e); } \\
auto edge_##N(Fes<S> s, A a, Sel f, const Entity& e) { lf::fe::MassEdgeMatrixProvider p(s, a, f); return p.Eval(e); } \\
bool edge_##N##_act(Fes<S> s, A a, Sel f, const Entity& e) { lf::fe::MassEdgeMatrixProvider p(s, a, f); return p.isActive(e); } \\
auto load_##N(Fes<S> s, A a, const Entity& e) { lf::fe::ScalarLoadElementVectorProvider p(s, a); return p.Eval(e); } \\
bool load_##N##_act(Fes<S> s, A a, const Entity& e) { lf::fe::ScalarLoadElementVectorProvider p(s, a); return p.isActive(e); } \\
auto eload_##N(Fes<S> s, A a, Sel f, const Entity& e) { lf::fe::ScalarLoadEdgeVectorProvider p(s, a, f); return p.Eval(e); } \\
bool eload_##N##_act(Fes<S> s, A a, Sel f, const Entity& e) { lf::fe::ScalarLoadEdgeVectorProvider p(s, a, f); return p.isActive(e); } \\
auto umass_##N(UFes<S> s, A a, A z, const Entity& e) { lf::uscalfe::ReactionDiffusionElementMatrixProvider p(s, z, a); return p.Eval(e); } \\
auto umassq_##N(UFes<S> s, A a, A z, std::map<lf::base::RefEl, lf::quad::QuadRule> q, const Entity& e) { lf::uscalfe::ReactionDiffusionElementMatrixProvider<S, A, A> p(s, z, a, q); return p.Eval(e); } \\
auto uedge_##N(UFes<S> s, A a, Sel f, const Entity& e) { lf::uscalfe::MassEdgeMatrixProvider<S, A, Sel> p(s, a, f); return p.Eval(e); } \\
bool uedge_##N##_act(UFes<S> s, A a, Sel f, const Entity& e) { lf::uscalfe::MassEdgeMatrixProvider<S, A, Sel> p(s, a, f); return p.isActive(e); } \\
auto uedgeq_##N(UFes<S> s, A a, Sel f, lf::quad::QuadRule q, const Entity& e) { lf::uscalfe::MassEdgeMatrixProvider<S, A, Sel> p(s, a, q, f); return p.Eval(e); } \\
auto uload_##N(UFes<S> s, A a, const Entity& e) { lf::uscalfe::ScalarLoadElementVectorProvider<S, A> p(s, a); return p.Eval(e); } \\
auto uloadq_##N(UFes<S> s, A a, std::map<lf::base::RefEl, lf::quad::QuadRule> q, const Entity& e) { lf::uscalfe::ScalarLoadElementVectorProvider<S, A> p(s, a, q); return p.Eval(e); } \\
auto ueload_##N(UFes<S> s, A a, Sel f, const Entity& e) { lf::uscalfe::ScalarLoadEdgeVectorProvider<S, A, Sel> p(s, a, f); return p.Eval(e); } \\
auto ueloadq_##N(UFes<S> s, A a, Sel f, lf::quad::QuadRule q, const Entity& e) { lf::uscalfe::ScalarLoadEdgeVectorProvider<S, A, Sel> p(s, a, q, f); return p.Eval(e); } \\
bool ueload_##N##_act(UFes<S> s, A a, Sel f, const Entity& e) { lf::uscalfe::ScalarLoadEdgeVectorProvider<S, A, Sel> p(s, a, f); return p.isActive(e); }
LFV_MASS(d_d, double, CoefD)
LFV_MASS(d_z, double, CoefZ)
LFV_MASS(z_z, Cd, CoefZ)
auto urd_m(UFes<double> s, CoefM a, CoefD g, const Entity& e) { lf::uscalfe::ReactionDiffusionElementMatrixProvider p(s, a, g); return p.Eval(e); }
auto urd_zm(UFes<double> s, CoefN a, CoefD g, const Entity& e) { lf::uscalfe::ReactionDiffusionElementMatrixProvider p(s, a, g); return p.Eval(e); }
auto urd_dz(UFes<double> s, CoefD a, CoefZ g, const Entity& e) { lf::uscalfe::ReactionDiffusionElementMatrixProvider p(s, a, g); return p.Eval(e); }
// lin_fe
Eigen::Matrix4d lin_lapl(const Entity& e) { lf::uscalfe::LinearFELaplaceElementMatrix p; return p.Eval(e); }
auto lin_load(CoefD f, const Entity& e) { lf::uscalfe::LinearFELocalLoadVector<double, CoefD> p(f); return p.Eval(e); }
// mesh functions
#define LFV_MF(N, S, C) \\
auto mf_##N(Fes<S> s, Eigen::Matrix<C, Eigen::Dynamic, 1> v, const Entity& e, const Eigen::MatrixXd& p) { return lf::fe::MeshFunctionFE<S, C>(s, v)(e, p); } \\
auto mg_##N(Fes<S> s, Eigen::Matrix<C, Eigen::Dynamic, 1> v, const Entity& e, const Eigen::MatrixXd& p) { return lf::fe::MeshFunctionGradFE<S, C>(s, v)(e, p); }
LFV_MF(d_d, double, double)
LFV_MF(d_z, double, Cd)
LFV_MF(z_z, Cd, Cd)
// fe_tools
struct QSel { lf::quad::QuadRule operator()(const Entity& e) const; };
#define LFV_INT(N, T) \\
auto int_##N(const lf::mesh::Mesh& m, T f, QSel q, Sel s, int c) { return lf::fe::IntegrateMeshFunction(m, f, q, s, c); } \\
auto intd_##N(const lf::mesh::Mesh& m, T f, int q, Sel s, int c) { return lf::fe::IntegrateMeshFunction(m, f, q, s, c); } \\
auto inta_##N(const lf::mesh::Mesh& m, T f, int q) { return lf::fe::IntegrateMeshFunction(m, f, q); }
LFV_INT(d, CoefD)
LFV_INT(z, CoefZ)
LFV_INT(v, CoefV)
LFV_INT(m, CoefM)
LFV_INT(x, CoefW)
auto np_d(const lf::fe::ScalarFESpace<double>& s, CoefD f, Sel p) { return lf::fe::NodalProjection(s, f, p); }
auto npa_d(const lf::fe::ScalarFESpace<double>& s, CoefD f) { return lf::fe::NodalProjection(s, f); }
auto np_z(const lf::fe::ScalarFESpace<Cd>& s, CoefZ f, Sel p) { return lf::fe::NodalProjection(s, f, p); }
auto np_m(const lf::fe::ScalarFESpace<Cd>& s, CoefD f, Sel p) { return lf::fe::NodalProjection(s, f, p); }
auto np_w(const lf::fe::ScalarFESpace<double>& s, CoefZ f, Sel p) { return lf::fe::NodalProjection(s, f, p); }
auto ic_m(const lf::fe::ScalarFESpace<Cd>& s, Sel p, CoefD f) { return lf::fe::InitEssentialConditionFromFunction(s, p, f); }
auto ic_d(const lf::fe::ScalarFESpace<double>& s, Sel p, CoefD f) { return lf::fe::InitEssentialConditionFromFunction(s, p, f); }
auto ic_z(const lf::fe::ScalarFESpace<Cd>& s, Sel p, CoefZ f) { return lf::fe::InitEssentialConditionFromFunction(s, p, f); }
}
'''


COEF = {'CoefD': ('d', 0, 0, 0, 0), 'CoefZ': ('z', 0, 0, 0, 0), 'CoefM': ('d', 2, 2, 2, 2), 'CoefN': ('z', 2, 2, 2, 2),
        'CoefX': ('d', 2, 2, -1, -1), 'CoefV': ('d', 2, 1, 2, 1), 'CoefW': ('d', 2, 1, -1, 1)}


def fem_unit():
    return export('fem', unity(module_sources('lib/lf/fe', 'lib/lf/uscalfe', 'lib/lf/assemble', 'lib/lf/geometry', 'lib/lf/base') + [os.path.join(REPO, 'lib/lf/quad/quad_rule_cache.cc')], FEM % (REPO, REPO)))


def colkey(M, j):
    return '(' + ','.join(txt(M.cells[i][j].v, 400) for i in range(M.rows)) + ')'


def cmat(n, m, f, z=False, fr=-1, fc=-1):
    return eigen.new_mat(n, m, fr, fc, 'std::complex<double>' if z else 'double', False, f)


class FemEnv:
    """opaque geometry, reference finite elements, FE space, coefficients and quadrature rules, all symbolic"""

    def __init__(self, I, sk, world=2, z=False, degree=None, nsf=None, npts=2, dh=None, geo=True):
        self.I, self.sk, self.world, self.z = I, sk, world, z
        self.degree = degree or {'Point': 1, 'Segment': 2, 'Tria': 1, 'Quad': 3}
        self.nsf = nsf or {'Point': 1, 'Segment': 2, 'Tria': 3, 'Quad': 4}
        self.npts = npts
        self.dh = dh
        self.nev = {'Point': 1, 'Segment': 3, 'Tria': 2, 'Quad': 3}
        self.asked = {}
        self.rules = {}
        self.active = {}
        self.realgeo = {}
        sk.install(I)
        I.nonnull |= {'fes', 'fe', 'geo', sk.key}
        I.opq_hooks.append(self.hook)
        I.hooks['lf::quad::make_QuadRule'] = self.mkrule
        I.hooks['lfv::Sel::operator()'] = lambda I_, e, ob, a: Cell(self.sel(I_.rv(a[0])))
        for t in COEF:
            I.hooks['lfv::%s::operator()' % t] = self.coef
        I.hooks['lfv::QSel::operator()'] = lambda I_, e, ob, a: Cell(self.rule(self.etype(I_.rv(a[0])), 'sel'))

    def sel(self, en):
        k = self.sk.parse(en)
        if k in self.active:
            return self.active[k]
        return Cond('op', 'sel(%s)' % en.key)

    def etype(self, en):
        c, i = self.sk.parse(en)
        return self.sk.type(c, i)

    def rt(self, r):
        return {1: 'Point', 2: 'Segment', 3: 'Tria', 4: 'Quad'}[mcall(self.I, r, 'NumNodes')]

    def rulevals(self, t, d):
        dim = DIM[t]
        k = '%s_%s' % (t, d)
        return cmat(dim, self.npts, lambda i, j: S('x%s_%d_%d' % (k, j, i))), cmat(self.npts, 1, lambda i, j: S('w%s_%d' % (k, i)), fc=1)

    def rule(self, t, d):
        if (t, d) not in self.rules:
            p, w = self.rulevals(t, d)
            self.rules[t, d] = fcall(self.I, 'lfv::mkrule', ref_el(self.I, t), p, w, d if isinstance(d, int) else 7)
        return copy_val(self.rules[t, d])

    def mkrule(self, I, e, ob, args):
        t = self.rt(I.rv(args[0]))
        d = I.rv(args[1])
        d = int(num(d))
        self.asked.setdefault(t, []).append(d)
        return Cell(self.rule(t, d))

    # value of coefficient on entity at a column
    def cval(self, typ, tag, en, key):
        b = 'c%d[%s]%s' % (tag, en.key, key)
        z, r, c, fr, fc = COEF[typ]
        if not r:
            return mk(z, b)
        return cmat(r, c, lambda i, j: mk(z, '%s.%d%d' % (b, i, j)), z == 'z', fr, fc)

    def coef(self, I, e, ob, a):
        en = I.rv(a[0])
        M = I.rv(a[1])
        o = I.rv(ob)
        return Cell(Vec([Cell(self.cval(o.rec['q'].split('::')[-1], int(num(o.f['tag'].v)), en, colkey(M, j))) for j in range(M.cols)]))

    def newcoef(self, t, tag):
        return fcall(self.I, 'lfv::mk_' + t, tag)

    def hook(self, I, e, f, o, name, args):
        if not isinstance(o, Opq):
            return NotImplemented
        k = o.key
        en = self.sk.parse(o)
        if en is not None and name == 'Geometry':
            return Cell(self.realgeo.get(en) or Opq('geo:' + k, 'lf::geometry::Geometry'))
        if k.startswith('geo:'):
            c, i = self.sk.parse(Opq(k[4:], ''))
            t = self.sk.type(c, i)
            if name == 'DimLocal':
                return Cell(DIM[t])
            if name == 'DimGlobal':
                return Cell(self.world)
            if name == 'RefEl':
                return Cell(ref_el(I, t))
            if name == 'isAffine':
                return Cell(Cond('op', 'affine(%s)' % k))
            M = I.rv(args[0]) if args else None
            if name == 'Global':
                return Cell(cmat(self.world, M.cols, lambda r, j: S('X[%s]%s.%d' % (k[4:], colkey(M, j), r))))
            if name == 'IntegrationElement':
                return Cell(cmat(M.cols, 1, lambda j, _: S('det[%s]%s' % (k[4:], colkey(M, j))), fc=1))
            d = DIM[t]
            if name == 'JacobianInverseGramian':
                return Cell(cmat(self.world, d * M.cols, lambda r, j: S('JIG[%s]%s.%d%d' % (k[4:], colkey(M, j // d), r, j % d))))
            if name == 'Jacobian':
                return Cell(cmat(self.world, d * M.cols, lambda r, j: S('J[%s]%s.%d%d' % (k[4:], colkey(M, j // d), r, j % d))))
            return NotImplemented
        if k == 'fes':
            if name == 'Mesh':
                return Cell(self.sk.mesh())
            if name == 'LocGlobMap':
                return Cell(self.dh.val())
            if name == 'ShapeFunctionLayout':
                x = I.rv(args[0])
                t = self.etype(x) if isinstance(x, Opq) else self.rt(x)
                return Cell(Opq('fe:' + t, 'lf::fe::ScalarReferenceFiniteElement<double>'))
            return NotImplemented
        if k.startswith('fe:'):
            t = k[3:]
            n = self.nsf[t]
            M = I.rv(args[0]) if args else None
            if name == 'Degree':
                return Cell(self.degree[t])
            if name == 'RefEl':
                return Cell(ref_el(I, t))
            if name == 'NumRefShapeFunctions' and not args:
                return Cell(n)
            if name == 'EvalReferenceShapeFunctions':
                return Cell(cmat(n, M.cols, lambda i, j: self.b(t, i, colkey(M, j)), self.z))
            if name == 'GradientsReferenceShapeFunctions':
                d = DIM[t]
                return Cell(cmat(n, M.cols * d, lambda i, j: self.gb(t, i, j % d, colkey(M, j // d)), self.z))
            if name == 'EvaluationNodes':
                return Cell(cmat(DIM[t], self.nev[t], lambda i, j: S('ev%s_%d_%d' % (t, j, i))))
            if name == 'NumEvaluationNodes':
                return Cell(self.nev[t])
            if name == 'NodalValuesToDofs':
                v = [M.cells[i][j].v for i in range(M.rows) for j in range(M.cols)]
                if len(v) != self.nev[t]:
                    raise ThrowEx('NodalValuesToDofs called with %d values for %d evaluation nodes' % (len(v), self.nev[t]))
                return Cell(cmat(1, n, lambda _, j: self.n2d(t, j, v), self.z, 1, -1))
        return NotImplemented

    def n2d(self, t, j, v):
        r = ZERO
        for q, x in enumerate(v):
            r = num_add(r, num_mul(S('L%s_%d_%d' % (t, j, q)), x))
        return r

    def b(self, t, i, key):
        v = S('b%s_%d%s' % (t, i, key))
        return Cx(v, ZERO) if self.z else v

    def gb(self, t, i, d, key):
        v = S('gb%s_%d.%d%s' % (t, i, d, key))
        return Cx(v, ZERO) if self.z else v


def num_mul(a, b):
    def cx(v):
        return v if isinstance(v, Cx) else Cx(to_rf(v), ZERO)
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
    return to_rf(a) * to_rf(b)


def n_scale(v, *fs):
    for f in fs:
        v = num_mul(f, v)
    return v


def wsrc(P, q):
    for f in P.funcs.values():
        if f['sq'] == q and 'body' in f:
            return loc(f)
    return q


FORMS = []
for _n, _s in (('d_d', 'd'), ('d_z', 'd'), ('z_z', 'z')):
    _a = 'CoefZ' if _n.endswith('z') else 'CoefD'
    FORMS += [('diff_' + _n, _s, 'cell', 'fe::DiffusionElementMatrixProvider', [('A', _a)], 'act'),
              ('mass_' + _n, _s, 'cell', 'fe::MassElementMatrixProvider', [('G', _a)], 'act'),
              ('edge_' + _n, _s, 'edge', 'fe::MassEdgeMatrixProvider', [('G', _a)], 'act'),
              ('load_' + _n, _s, 'cell', 'fe::ScalarLoadElementVectorProvider', [('F', _a)], 'act'),
              ('eload_' + _n, _s, 'edge', 'fe::ScalarLoadEdgeVectorProvider', [('F', _a)], 'act'),
              ('umass_' + _n, _s, 'cell', 'uscalfe::ReactionDiffusionElementMatrixProvider', [('G', _a), ('A', _a)], ''),
              ('umassq_' + _n, _s, 'cell', 'uscalfe::ReactionDiffusionElementMatrixProvider', [('G', _a), ('A', _a)], 'q'),
              ('uedge_' + _n, _s, 'edge', 'uscalfe::MassEdgeMatrixProvider', [('G', _a)], 'act'),
              ('uedgeq_' + _n, _s, 'edge', 'uscalfe::MassEdgeMatrixProvider', [('G', _a)], 'q'),
              ('uload_' + _n, _s, 'cell', 'uscalfe::ScalarLoadElementVectorProvider', [('F', _a)], ''),
              ('uloadq_' + _n, _s, 'cell', 'uscalfe::ScalarLoadElementVectorProvider', [('F', _a)], 'q'),
              ('ueload_' + _n, _s, 'edge', 'uscalfe::ScalarLoadEdgeVectorProvider', [('F', _a)], 'act'),
              ('ueloadq_' + _n, _s, 'edge', 'uscalfe::ScalarLoadEdgeVectorProvider', [('F', _a)], 'q')]
FORMS += [('diff_d_dm', 'd', 'cell', 'fe::DiffusionElementMatrixProvider', [('A', 'CoefM')], ''),
          ('diff_d_dx', 'd', 'cell', 'fe::DiffusionElementMatrixProvider', [('A', 'CoefX')], ''),
          ('diff_d_zm', 'd', 'cell', 'fe::DiffusionElementMatrixProvider', [('A', 'CoefN')], ''),
          ('urd_m', 'd', 'cell', 'uscalfe::ReactionDiffusionElementMatrixProvider', [('A', 'CoefM'), ('G', 'CoefD')], ''),
          ('urd_zm', 'd', 'cell', 'uscalfe::ReactionDiffusionElementMatrixProvider', [('A', 'CoefN'), ('G', 'CoefD')], ''),
          ('urd_dz', 'd', 'cell', 'uscalfe::ReactionDiffusionElementMatrixProvider', [('A', 'CoefD'), ('G', 'CoefZ')], '')]


def E01(pid):
    c = Check(pid, rule='Eval of every element matrix / vector provider (fe and uscalfe) is abstractly interpreted for an opaque entity, geometry, finite element, coefficient and quadrature rule, all values symbolic. Each entry must be the quadrature sum of the weak form: sum_k w_k det_k [ (JIG grad b_i)^T alpha (JIG grad b_j) + gamma b_i b_j ] resp. sum_k w_k det_k f b_i with coefficient, determinant, gradients and shape functions taken at the quadrature points of a rule for the type of the entity of degree at least twice that of the finite element (or the rule given by the user). isActive is the edge selector / constantly true. LinearFELaplaceElementMatrix / LinearFELocalLoadVector are compared with the exact integral resp. the documented quadrature for symbolic vertices.')
    P = fem_unit()
    jobs = []
    for f in FORMS:
        for t in (('Tria', 'Quad') if f[2] == 'cell' else ('Segment',)):
            for p, n, world in ((1, 3, 2), (2, 4, 3), (3, 2, 2)) if TIER == 'thorough' else ((1, 3, 2), (2, 2, 3)):
                if world == 3 and any(COEF[x[1]][1] for x in f[4]):
                    world = 2
                jobs.append((f, t, p, n, world))

    def one(job):
        (fn, s, what, cls, coefs, opt), t, p, n, world = job
        alg.reset()
        I = Interp(P)
        sk = [q for q in skels() if q.name == ('T' if t == 'Tria' else 'Q')][0]
        E = FemEnv(I, sk, world, s == 'z', {'Segment': p, 'Tria': p, 'Quad': p, 'Point': 1}, {'Segment': n, 'Tria': n, 'Quad': n, 'Point': 1})
        en = sk.ent(0, 0) if what == 'cell' else sk.ent(1, 1)
        w = wsrc(P, 'lf::%s::Eval' % cls)
        key = '%s/%s/p%d n%d %dD' % (fn, t, p, n, world)

        def run():
            fes = Opq('fes', 'std::shared_ptr<const lf::fe::ScalarFESpace<double>>')
            args = [fes] + [E.newcoef(ct, k + 1) for k, (_, ct) in enumerate(coefs)]
            if what == 'edge':
                args.append(new_default(I, 'lfv::Sel'))
            if opt == 'q':
                if what == 'edge':
                    args.append(E.rule('Segment', 77))
                else:
                    args.append(fcall(I, 'lfv::mkmap', E.rule('Tria', 77), E.rule('Quad', 77)))
            M = fcall(I, 'lfv::' + fn, *args, en)
            if opt == 'q':
                d = 77
            else:
                ds = E.asked.get(t, [])
                if not c.require(key + '/rule', w, bool(ds), 'no quadrature rule for the reference element %s is requested' % t):
                    return
                d = max(ds)
                c.require(key + '/degree', w, d >= 2 * p, 'quadrature of degree %d for a finite element of degree %d (the documentation promises twice the degree)' % (d, p))
            load = coefs[0][0] == 'F'
            if not c.require(key + '/size', w, (M.rows, M.cols) == (n, 1 if load else n), 'the result is %dx%d for %d shape functions' % (M.rows, M.cols, n)):
                return
            pts, wts = E.rulevals(t, d)
            dim = DIM[t]
            for i in range(n):
                for j in range(1 if load else n):
                    ex = ZERO
                    for k in range(E.npts):
                        ck = colkey(pts, k)
                        wd = wts.cells[k][0].v * S('det[%s]%s' % (en.key, ck))
                        for tag, (kind, ct) in enumerate(coefs):
                            v = E.cval(ct, tag + 1, en, ck)
                            if kind == 'G':
                                ex = num_add(ex, n_scale(v, wd, E.b(t, i, ck), E.b(t, j, ck)))
                            elif kind == 'F':
                                ex = num_add(ex, n_scale(v, wd, E.b(t, i, ck)))
                            else:
                                g = [[None] * world for _ in range(2)]
                                for q, sf in enumerate((i, j)):
                                    for a in range(world):
                                        x = ZERO
                                        for b in range(dim):
                                            x = num_add(x, num_mul(S('JIG[%s]%s.%d%d' % (en.key, ck, a, b)), E.gb(t, sf, b, ck)))
                                        g[q][a] = x
                                for a in range(world):
                                    for b in range(world):
                                        al = v.cells[a][b].v if isinstance(v, Mat) else v if a == b else None
                                        if al is not None:
                                            ex = num_add(ex, n_scale(al, wd, g[0][a], g[1][b]))
                    c.equal('%s/(%d,%d)' % (key, i, j), w, M.cells[i][j].v, ex, None, 'entry (%d,%d) is not the quadrature sum of the weak form' % (i, j))
            if opt == 'act':
                r = fcall(I, 'lfv::%s_act' % fn, *args, en)
                if what == 'cell':
                    c.require(key + '/active', w, r is True, 'isActive is not constantly true')
                else:
                    c.require(key + '/active', w, isinstance(r, Cond) and str(r) == str(Cond('op', 'sel(%s)' % en.key)), 'isActive is %s, not the value of the edge selector' % (r,))
        c.attempt(key, w, run)
        c.no_abort_atoms(key, I, ('active(', 'sel(', 'affine(', 'mesh:or'))
        c.cover(I)
    c.par(jobs, one)
    c.par(['Tria', 'Quad'], lambda t: linfe(c, P, t))
    return c.finish(300)


def linfe(c, P, t):
    nv = {'Tria': 3, 'Quad': 4}[t]
    sk = [q for q in skels() if q.name == t[0]][0]
    w = wsrc(P, 'lf::uscalfe::LinearFELaplaceElementMatrix::Eval')

    def samples(i):
        r = random.Random(i)
        base = {'Tria': [(0, 0), (3, 1), (1, 4)], 'Quad': [(0, 0), (4, 1), (5, 5), (1, 4)]}[t]
        if i % 2 and t == 'Tria':
            base = [(y, x) for x, y in base]
        return {'v%d_%d' % (d, k): F(base[k][d]) + F(r.randint(-30, 30), 100) for k in range(nv) for d in (0, 1)}

    FIX = [[(0, 0), (4, 1), (5, 5), (1, 4)], [(1, 0), (-1, 5), (-4, 3), (-3, -2)]]

    def lap(free, b):
        alg.reset()
        I = Interp(P)
        E = FemEnv(I, sk)

        def vc(d, k):
            return S('v%d_%d' % (d, k)) if t == 'Tria' or k == free else C(F(FIX[b][k][d]))
        V = eigen.new_mat(2, nv, -1, -1, 'double', False, vc)
        g = new(I, 'lf::geometry::%sO1' % t, V)
        E.realgeo[0, 0] = Ptr(Cell(g)) if not isinstance(g, Cell) else Ptr(g)
        M = fcall(I, 'lfv::lin_lapl', sk.ent(0, 0))
        if not c.require('lin/%s/size' % t, w, M.rows >= nv and M.cols >= nv, 'element matrix too small'):
            return
        x = [[vc(d, k) for d in (0, 1)] for k in range(nv)]
        h = C(F(1, 2))
        s3 = alg.sqrt(C(F(1, 12)))
        pts = [(C(F(1, 3)), C(F(1, 3)))] if t == 'Tria' else [(h + a * s3, h + b * s3) for a in (C(-1), C(1)) for b in (C(-1), C(1))]
        ex = [[ZERO] * nv for _ in range(nv)]
        for p in pts:
            one = C(1)
            gr = [(C(-1), C(-1)), (C(1), C(0)), (C(0), C(1))] if t == 'Tria' else [(p[1] - one, p[0] - one), (one - p[1], -p[0]), (p[1], p[0]), (-p[1], one - p[0])]
            J = [[sum((x[k][r] * gr[k][cc] for k in range(nv)), ZERO) for cc in (0, 1)] for r in (0, 1)]
            det = J[0][0] * J[1][1] - J[0][1] * J[1][0]
            ad = [(J[1][1] * a - J[1][0] * b, -J[0][1] * a + J[0][0] * b) for a, b in gr]
            den = alg.absv(det)
            wt = C(F(1, 2)) if t == 'Tria' else C(F(1, 4))
            for i in range(nv):
                for j in range(nv):
                    ex[i][j] = ex[i][j] + wt * (ad[i][0] * ad[j][0] + ad[i][1] * ad[j][1]) / den
        for i in range(nv):
            for j in range(nv):
                c.equal('lin/%s/%d%d/(%d,%d)' % (t, free, b, i, j), w, M.cells[i][j].v, ex[i][j], samples, 'entry (%d,%d) of the element matrix of the Laplacian is wrong' % (i, j))
        c.cover(I)
    for free, b in [(0, 0)] if t == 'Tria' else [(k, q) for k in range(4) for q in (0, 1)]:
        c.attempt('lin/%s/%d%d' % (t, free, b), w, lambda: lap(free, b))
    w2 = wsrc(P, 'lf::uscalfe::LinearFELocalLoadVector::Eval')

    def load():
        alg.reset()
        I = Interp(P)
        E = FemEnv(I, sk)
        V = symmat(2, nv, 'v')
        g = new(I, 'lf::geometry::%s' % ('TriaO1' if t == 'Tria' else 'QuadO1'), V)
        E.realgeo[0, 0] = Ptr(Cell(g))
        v = fcall(I, 'lfv::lin_load', E.newcoef('CoefD', 1), sk.ent(0, 0))
        vol = fcall(I, 'lf::geometry::Volume', Cell(g))
        cor = {'Tria': [(0, 0), (1, 0), (0, 1)], 'Quad': [(0, 0), (1, 0), (1, 1), (0, 1)]}[t]
        f = [E.cval('CoefD', 1, sk.ent(0, 0), colkey(constmat([[F(cor[k][d] + cor[(k + 1) % nv][d], 2)] for d in (0, 1)]), 0)) for k in range(nv)]
        for k in range(nv):
            c.equal('load/%s/%d' % (t, k), w2, v.cells[k][0].v, to_rf(vol) * (f[k] + f[k - 1]) * C(F(1, 2 * nv)), samples, 'component %d is not the edge midpoint quadrature of the load' % k)
        c.cover(I)
    c.attempt('load/%s' % t, w2, load)


INTS = {'d': 'CoefD', 'z': 'CoefZ', 'v': 'CoefV', 'm': 'CoefM', 'x': 'CoefW'}


def subsets(n, lim=5):
    if n <= lim - 1 and n <= 3:
        return [tuple((m >> k) & 1 for k in range(n)) for m in range(1 << n)]
    ms = sorted({0, (1 << n) - 1, 1, 1 << (n - 1), ((1 << n) - 1) ^ 1, 0x5555 & ((1 << n) - 1), 0xAAAA & ((1 << n) - 1)})
    return [tuple((m >> k) & 1 for k in range(n)) for m in ms]


def fe_lists(sk, nsf):
    """arbitrary but injective local-to-global lists, consistent with the number of shape functions"""
    def lists(en):
        c, i = sk.parse(en)
        n = nsf[sk.type(c, i)]
        return [(7 * i + 3 * k + 2 * c + k * k) % 11 for k in range(n)]
    return lists


def E02(pid):
    c = Check(pid, rule='IntegrateMeshFunction, NodalProjection and InitEssentialConditionFromFunction are abstractly interpreted over abstract meshes with opaque geometry, finite elements, mesh function and quadrature rules (all values symbolic) and every (large) subset of selected entities. The integral is the sum over exactly the selected entities of sum_k w_k det_k f(x_k), zero if none is selected; the projection sets exactly the coefficients of the selected cells to NodalValuesToDofs of the values at the evaluation nodes, all other coefficients are zero; InitEssentialCondition flags exactly the dofs of selected edges with the interpolated values. Scalar, complex, vector and matrix valued functions.')
    P = fem_unit()
    wi = wsrc(P, 'lf::fe::IntegrateMeshFunction')
    jobs = []
    for name in ('T', 'Q', 'TQ', 'QT'):
        for k in INTS:
            for codim in (0, 1):
                for form in ('int', 'intd', 'inta'):
                    if form == 'inta' and codim:
                        continue
                    jobs.append(('int', name, k, codim, form))
        for k in ('np_d', 'npa_d', 'np_z', 'np_m', 'np_w', 'ic_d', 'ic_z', 'ic_m'):
            jobs.append(('proj', name, k, 0, ''))

    def zero(t):
        z, r, cc, fr, fc = COEF[t]
        return ZERO if not r else cmat(r, cc, lambda i, j: ZERO, z == 'z', fr, fc)

    def entries(v):
        return [q.v for r in v.cells for q in r] if isinstance(v, Mat) else [v]

    def one(job):
        kind, name, k, codim, form = job
        sk = [s for s in skels() if s.name == name][0]
        if kind == 'int':
            ent = [(codim, i) for i in range(sk.count(codim))]
        else:
            cd = 1 if k.startswith('ic') else 0
            ent = [(cd, i) for i in range(sk.count(cd))]
        for act in (subsets(len(ent)) if form != 'inta' and k != 'npa_d' else [(1,) * len(ent)]):
            alg.reset()
            I = Interp(P)
            E = FemEnv(I, sk, 2, k[-2:] in ('_z', '_m') and kind != 'int', npts=2)
            E.active = {en: bool(a) for en, a in zip(ent, act)}
            ct = INTS[k] if kind == 'int' else 'CoefZ' if k[-2:] in ('_z', '_w') else 'CoefD'
            key = '%s/%s/%s/c%d/%s' % (form or k, name, ct, codim, ''.join(map(str, act)))
            sel = lambda: new_default(I, 'lfv::Sel')

            def run_int():
                f = E.newcoef(ct, 1)
                fn = 'lfv::%s_%s' % (form, k)
                if form == 'int':
                    r = fcall(I, fn, sk.mesh(False), f, new_default(I, 'lfv::QSel'), sel(), codim)
                elif form == 'intd':
                    r = fcall(I, fn, sk.mesh(False), f, 5, sel(), codim)
                else:
                    r = fcall(I, fn, sk.mesh(False), f, 5)
                ex = entries(zero(ct))
                for en, a in zip(ent, act):
                    if not a:
                        continue
                    t = sk.type(*en)
                    d = 'sel' if form == 'int' else max(E.asked.get(t, [0]))
                    if form != 'int' and not c.require(key + '/degree', wi, d >= 5, 'quadrature of degree %s on %s, requested 5' % (d, t)):
                        return
                    p, w = E.rulevals(t, d)
                    for q in range(E.npts):
                        ck = colkey(p, q)
                        wd = w.cells[q][0].v * S('det[%s]%s' % (sk.ent(*en).key, ck))
                        for n, x in enumerate(entries(E.cval(ct, 1, sk.ent(*en), ck))):
                            ex[n] = num_add(ex[n], num_mul(wd, x))
                got = entries(r)
                if not any(act) and ct == 'CoefW' and isinstance(r, Mat) and r.rows == 0:
                    c.ok(key)
                    return
                if not c.require(key + '/shape', wi, len(got) == len(ex), 'the result has %d components, expected %d' % (len(got), len(ex))):
                    return
                for n, (a, b) in enumerate(zip(got, ex)):
                    c.equal('%s/%d' % (key, n), wi, a, b, None, 'the integral is not the sum over the selected entities')

            def run_proj():
                w = wsrc(P, 'lf::fe::NodalProjection' if k.startswith('np') else 'lf::fe::InitEssentialConditionFromFunction')
                ls = fe_lists(sk, E.nsf)
                E.dh = Dh('dh', sk, 11, ls)
                I.opq_hooks.append(E.dh.hook)
                fes = Opq('fes', 'lf::fe::ScalarFESpace<double>')
                f = E.newcoef(ct, 1)
                args = [fes, f] + ([sel()] if k != 'npa_d' else []) if k.startswith('np') else [fes, sel(), f]
                r = fcall(I, 'lfv::' + k, *args)
                if k.startswith('np'):
                    if not c.require(key + '/size', w, isinstance(r, Mat) and r.rows == 11, 'the coefficient vector does not have length NumDofs()'):
                        return
                    got = [(True, x) for x in entries(r)]
                else:
                    if not c.require(key + '/size', w, isinstance(r, Vec) and len(r.items) == 11, 'the result does not have length NumDofs()'):
                        return
                    got = [(p.v.items[0].v, p.v.items[1].v) for p in r.items]
                ex = {}
                for en, a in zip(ent, act):
                    if not a:
                        continue
                    t = sk.type(*en)
                    ev = cmat(DIM[t], E.nev[t], lambda i, j: S('ev%s_%d_%d' % (t, j, i)))
                    vals = [E.cval(ct, 1, sk.ent(*en), colkey(ev, j)) for j in range(E.nev[t])]
                    for j, g in enumerate(ls(sk.ent(*en))):
                        ex.setdefault(g, []).append(E.n2d(t, j, vals))
                for g in range(11):
                    fl, v = got[g]
                    if k.startswith('ic'):
                        c.require('%s/flag%d' % (key, g), w, fl is (g in ex), 'dof %d is flagged %s, it %s a dof of a selected edge' % (g, fl, 'is' if g in ex else 'is not'))
                    if g in ex:
                        cand = ex[g]
                        if isinstance(v, Cx):
                            cand = [x if isinstance(x, Cx) else Cx(x, ZERO) for x in cand]
                        if any(exact_same(v, x) for x in cand):
                            c.ok('%s/%d' % (key, g))
                        else:
                            c.equal('%s/%d' % (key, g), w, v, cand[-1], None, 'coefficient %d is not the value given by NodalValuesToDofs' % g)
                    else:
                        c.equal('%s/%d' % (key, g), w, v, ZERO if not isinstance(v, Cx) else Cx(ZERO, ZERO), None, 'coefficient %d belongs to no selected entity but is not zero' % g)
            c.attempt(key, wi, run_int if kind == 'int' else run_proj)
            c.no_abort_atoms(key, I, ('active(', 'sel(', 'affine(', 'mesh:or'))
            c.cover(I)
    c.par(jobs, one)
    return c.finish(300)


def E03(pid):
    c = Check(pid, rule='MeshFunctionFE and MeshFunctionGradFE are abstractly interpreted for an opaque entity of every type, symbolic shape functions, geometry and coefficient vector and several evaluation points: the value is sum_i v[dof_i] b_i(x) and the gradient is JacobianInverseGramian(x) sum_i v[dof_i] grad b_i(x), for real and complex spaces and coefficients.')
    P = fem_unit()
    jobs = [(n, t, world, npt) for n in ('d_d', 'd_z', 'z_z') for t in ('Segment', 'Tria', 'Quad') for world in (2, 3) for npt in (1, 2, 3)]
    jobs += [(n, 'Point', 2, 1) for n in ('d_d', 'd_z', 'z_z')]

    def one(job):
        n, t, world, npt = job
        alg.reset()
        I = Interp(P)
        sk = [s for s in skels() if s.name == ('Q' if t == 'Quad' else 'T')][0]
        E = FemEnv(I, sk, world, n[0] == 'z')
        ls = fe_lists(sk, E.nsf)
        E.dh = Dh('dh', sk, 11, ls)
        I.opq_hooks.append(E.dh.hook)
        en = sk.ent({'Point': 2, 'Segment': 1}.get(t, 0), 0)
        V = vecS(n[2], 11, 'v')
        v = [r[0].v for r in V.cells]
        dim = DIM[t]
        X = cmat(dim, npt, lambda i, j: S('x%d_%d' % (j, i)))
        key = '%s/%s/%dD/%d' % (n, t, world, npt)
        dofs = ls(en)
        fes = Opq('fes', 'std::shared_ptr<const lf::fe::ScalarFESpace<double>>')

        def val():
            w = wsrc(P, 'lf::fe::MeshFunctionFE::operator()')
            r = fcall(I, 'lfv::mf_' + n, fes, copy_val(V), en, X)
            if not c.require(key + '/count', w, len(r.items) == npt, '%d values for %d points' % (len(r.items), npt)):
                return
            for j in range(npt):
                ex = ZERO
                for i, g in enumerate(dofs):
                    ex = num_add(ex, num_mul(v[g], E.b(t, i, colkey(X, j))))
                c.equal('%s/val%d' % (key, j), w, r.items[j].v, ex, None, 'value at point %d is not the finite element expansion' % j)

        def grad():
            w = wsrc(P, 'lf::fe::MeshFunctionGradFE::operator()')
            r = fcall(I, 'lfv::mg_' + n, fes, copy_val(V), en, X)
            if not c.require(key + '/gcount', w, len(r.items) == npt, '%d gradients for %d points' % (len(r.items), npt)):
                return
            for j in range(npt):
                m = r.items[j].v
                if not c.require('%s/gdim%d' % (key, j), w, m.rows == world and m.cols == 1, 'the gradient is a %dx%d matrix in a %d-dimensional world' % (m.rows, m.cols, world)):
                    continue
                ck = colkey(X, j)
                for a in range(world):
                    ex = ZERO
                    for b in range(dim):
                        for i, g in enumerate(dofs):
                            ex = num_add(ex, n_scale(num_mul(v[g], E.gb(t, i, b, ck)), S('JIG[%s]%s.%d%d' % (en.key, ck, a, b))))
                    c.equal('%s/grad%d.%d' % (key, j, a), w, m.cells[a][0].v, ex, None, 'component %d of the gradient at point %d is wrong' % (a, j))
        c.attempt(key + '/val', wsrc(P, 'lf::fe::MeshFunctionFE::operator()'), val)
        if t != 'Point':
            c.attempt(key + '/grad', wsrc(P, 'lf::fe::MeshFunctionGradFE::operator()'), grad)
        c.no_abort_atoms(key, I, ('active(', 'sel(', 'affine(', 'mesh:or'))
        c.cover(I)
    c.par(jobs, one)
    return c.finish(150)
