"""projects/dpg: P01 (degree of freedom handler of product spaces), P02 (DPG tools), P03 (product spaces), P04 (element providers)"""
from femod import *
from hier import obj

DOF = '''
#include "%s/projects/dpg/product_dofhandler.h"
namespace lfv {
using MP = std::shared_ptr<const lf::mesh::Mesh>;
using lf::base::RefEl;
inline projects::dpg::dof_map_t dm(unsigned p, unsigned s, unsigned t, unsigned q) { return {{RefEl::kPoint(), p}, {RefEl::kSegment(), s}, {RefEl::kTria(), t}, {RefEl::kQuad(), q}}; }
using D = projects::dpg::ProductUniformFEDofHandler;
std::shared_ptr<D> pd1(MP m, unsigned a, unsigned b, unsigned c, unsigned d) { return std::make_shared<D>(m, std::vector<projects::dpg::dof_map_t>{dm(a, b, c, d)}); }
std::shared_ptr<D> pd2(MP m, unsigned a, unsigned b, unsigned c, unsigned d, unsigned e, unsigned f, unsigned g, unsigned h) { return std::make_shared<D>(m, std::vector<projects::dpg::dof_map_t>{dm(a, b, c, d), dm(e, f, g, h)}); }
std::shared_ptr<D> pd3(MP m, unsigned a, unsigned b, unsigned c, unsigned d, unsigned e, unsigned f, unsigned g, unsigned h, unsigned i, unsigned j, unsigned k, unsigned l) { return std::make_shared<D>(m, std::vector<projects::dpg::dof_map_t>{dm(a, b, c, d), dm(e, f, g, h), dm(i, j, k, l)}); }
const lf::assemble::DofHandler& base(const D& d) { return d; }
unsigned ncomp(const D& d, unsigned c) { return d.NumDofs(c); }
unsigned nloc(const D& d, const lf::mesh::Entity& e, unsigned c) { return d.NumLocalDofs(e, c); }
unsigned nint(const D& d, const lf::mesh::Entity& e, unsigned c) { return d.NumInteriorDofs(e, c); }
unsigned start(const D& d, const lf::mesh::Entity& e, unsigned c) { return d.LocalStartIndex(e, c); }
unsigned comp(const D& d, unsigned g) { return d.Component(g); }
unsigned off(const D& d, unsigned c) { return d.Offset(c); }
unsigned ncomps(const D& d) { return d.NumComponents(); }
const lf::assemble::UniformFEDofHandler& cdh(const D& d, unsigned c) { return d.ComponentDofHandler(c); }
}
'''
DPGSRC = ['projects/dpg/product_dofhandler.cc']


def dpg_files(*names):
    return [os.path.join(REPO, n) for n in names if os.path.exists(os.path.join(REPO, n))]


def P01(pid):
    c = Check(pid, rule='The constructor of ProductUniformFEDofHandler (and of the handlers of its components) is abstractly interpreted over abstract meshes with symbolic relative orientations for one to three components with distinct numbers of shape functions per entity type. The dofs of component k occupy the range [Offset(k), Offset(k)+NumDofs(k)); for every entity the local and interior index lists are the concatenation over the components of the lists of a UniformFEDofHandler of that component shifted by the offset, LocalStartIndex is the position of the component in the local list, Component(dof) and Entity(dof) invert the numbering.')
    P = export('pdofs', unity(module_sources('lib/lf/assemble', 'lib/lf/base') + dpg_files('projects/dpg/product_dofhandler.cc'), DOF % REPO))
    w = 'projects/dpg/product_dofhandler.cc'
    lays = [[(1, 0, 0, 0)], [(1, 2, 1, 4), (0, 0, 3, 1)], [(0, 2, 0, 0), (1, 1, 0, 1)], [(1, 1, 0, 1), (0, 3, 0, 0), (0, 0, 2, 1)], [(0, 0, 0, 0), (2, 0, 1, 0), (1, 2, 0, 0)], [(0, 0, 1, 1), (0, 0, 3, 4), (0, 1, 0, 0)]]
    thorough = TIER == 'thorough'
    if thorough:
        lays += [[(2, 1, 1, 3), (0, 4, 0, 0), (1, 0, 0, 0)], [(0, 1, 2, 3), (3, 0, 0, 2)], [(0, 0, 0, 0)], [(0, 2, 0, 0), (0, 0, 0, 0), (1, 3, 1, 4)]]
    jobs = [(k, l) for k in range(len(skels(thorough))) for l in range(len(lays))]

    def one(job):
        k, li = job
        L = lays[li]
        sk = skels(thorough)[k]
        sk.symorient = True
        alg.reset()
        I = Interp(P)
        sk.install(I)
        I.nonnull.add(sk.key)
        key = '%s/%s' % (sk.name, L)
        T = ('Point', 'Segment', 'Tria', 'Quad')

        def run():
            dh = fcall(I, 'lfv::pd%d' % len(L), sk.mesh(), *[x for l in L for x in l])
            d = Cell(obj(I, dh))
            NI = [{en: dict(zip(T, l))[sk.type(*en)] for en in sk.all()} for l in L]
            tot = [sum(n.values()) for n in NI]
            off = [sum(tot[:i]) for i in range(len(L) + 1)]
            c.require(key + '/NumComponents', w, same(fcall(I, 'lfv::ncomps', d), len(L)), 'wrong number of components')
            c.require(key + '/NumDofs', w, same(mcall(I, d.v, 'NumDofs'), off[-1]), 'NumDofs() is %s, the components have %s dofs' % (txt(mcall(I, d.v, 'NumDofs')), tot))
            m = mcall(I, d.v, 'Mesh')
            c.require(key + '/Mesh', w, isinstance(m, Opq) and m.key == sk.key, 'Mesh() returns %s' % m)
            for q in range(len(L)):
                c.require('%s/Offset%d' % (key, q), w, same(fcall(I, 'lfv::off', d, q), off[q]), 'Offset(%d) is %s instead of %d' % (q, txt(fcall(I, 'lfv::off', d, q)), off[q]))
                c.require('%s/NumDofs%d' % (key, q), w, same(fcall(I, 'lfv::ncomp', d, q), tot[q]), 'NumDofs(%d) is %s instead of %d' % (q, txt(fcall(I, 'lfv::ncomp', d, q)), tot[q]))
            # numbering of one component: nodes, edges, cells
            inter = []
            for q in range(len(L)):
                nxt = off[q]
                mp = {}
                for en in sk.all():
                    mp[en] = list(range(nxt, nxt + NI[q][en]))
                    nxt += NI[q][en]
                inter.append(mp)
            owner = {}
            for q in range(len(L)):
                cd = Cell(obj(I, fcall(I, 'lfv::cdh', d, q)))
                c.require('%s/comp%d/NumDofs' % (key, q), w, same(mcall(I, cd.v, 'NumDofs'), tot[q]), 'the handler of component %d has %s dofs' % (q, txt(mcall(I, cd.v, 'NumDofs'))))
                for en in sk.all():
                    for x in inter[q][en]:
                        owner[x] = (q, en)
            for g, (q, en) in sorted(owner.items()):
                c.require('%s/Component(%d)' % (key, g), w, same(fcall(I, 'lfv::comp', d, g), q), 'dof %d belongs to component %d, Component() is %s' % (g, q, txt(fcall(I, 'lfv::comp', d, g))))
                o = mcall(I, d.v, 'Entity', g)
                c.require('%s/Entity(%d)' % (key, g), w, sk.parse(o) == en, 'Entity(%d) is %s' % (g, o))
            for en in sk.all():
                lk = '%s/%s%d' % (key, sk.type(*en), en[1])

                def lst(o, name):
                    return [I.rv(x) for x in I.iter_items(mcall(I, o, name, sk.ent(*en)))]
                gi = lst(d.v, 'InteriorGlobalDofIndices')
                exp = [x for q in range(len(L)) for x in inter[q][en]]
                c.require(lk + '/interior', w, len(gi) == len(exp) and all(same(a, b) for a, b in zip(gi, exp)), 'the interior dofs are %s, expected %s' % ([txt(x) for x in gi], exp))
                c.require(lk + '/nint', w, same(mcall(I, d.v, 'NumInteriorDofs', sk.ent(*en)), len(exp)), 'NumInteriorDofs is %s instead of %d' % (txt(mcall(I, d.v, 'NumInteriorDofs', sk.ent(*en))), len(exp)))
                full, st = [], []
                for q in range(len(L)):
                    st.append(len(full))
                    x0 = len(full)
                    if en[0] < 2:
                        for v in sk.subs(*en, 2 - en[0]):
                            full += inter[q][v]
                    if en[0] == 0:
                        for j, s in enumerate(sk.subs(*en, 1)):
                            x = inter[q][s]
                            cond = Cond('op', '%s:or%d_%d' % (sk.key, en[1], j))
                            full += [mk_ite(cond, a, b) for a, b in zip(x, x[::-1])]
                    full += inter[q][en]
                    n = len(full) - x0
                    c.require('%s/nloc%d' % (lk, q), w, same(fcall(I, 'lfv::nloc', d, Cell(sk.ent(*en)), q), n), 'NumLocalDofs(entity, %d) is not %d' % (q, n))
                    c.require('%s/nint%d' % (lk, q), w, same(fcall(I, 'lfv::nint', d, Cell(sk.ent(*en)), q), NI[q][en]), 'NumInteriorDofs(entity, %d) is not %d' % (q, NI[q][en]))
                    c.require('%s/start%d' % (lk, q), w, same(fcall(I, 'lfv::start', d, Cell(sk.ent(*en)), q), x0), 'LocalStartIndex(entity, %d) is %s instead of %d' % (q, txt(fcall(I, 'lfv::start', d, Cell(sk.ent(*en)), q)), x0))
                g = lst(d.v, 'GlobalDofIndices')
                if c.require(lk + '/nloc', w, len(g) == len(full) and same(mcall(I, d.v, 'NumLocalDofs', sk.ent(*en)), len(full)), '%d global indices, %d shape functions cover the entity' % (len(g), len(full))):
                    bad = [j for j in range(len(full)) if not exact_same(g[j], full[j])]
                    c.require(lk + '/local', w, not bad, 'local dof %s maps to %s, expected %s' % ((bad[0], txt(g[bad[0]]), txt(full[bad[0]])) if bad else ('', '', '')))
        c.attempt(key, w, run)
        c.no_abort_atoms(key, I, '%s:or' % sk.key)
        c.cover(I)
    c.par(jobs, one)
    return c.finish(500)


TOOLS = '''
#include "%s/projects/dpg/dpg_tools.h"
#include "%s/projects/dpg/product_fe_space_factory.h"
namespace lfv {
using MP = std::shared_ptr<const lf::mesh::Mesh>;
using lf::mesh::Entity;
namespace dp = projects::dpg;
lf::quad::QuadRule mkrule(lf::base::RefEl r, Eigen::MatrixXd p, Eigen::VectorXd w, unsigned d) { return lf::quad::QuadRule(r, std::move(p), std::move(w), d); }
std::vector<lf::quad::QuadRule> bqr(lf::base::RefEl r, const lf::quad::QuadRule& q) { return dp::BoundaryQuadRule(r, q); }
Eigen::MatrixXd qpts(const lf::quad::QuadRule& q) { return q.Points(); }
Eigen::VectorXd qwts(const lf::quad::QuadRule& q) { return q.Weights(); }
unsigned qnp(const lf::quad::QuadRule& q) { return q.NumPoints(); }
lf::base::RefEl qre(const lf::quad::QuadRule& q) { return q.RefEl(); }
Eigen::MatrixXd normals(const lf::geometry::Geometry& g) { return dp::OuterNormals(g); }
std::shared_ptr<dp::PrescribedSignProvider> sp(MP m) { return std::make_shared<dp::PrescribedSignProvider>(m); }
int sgn(const dp::PrescribedSignProvider& p, const Entity& k, const Entity& e) { return p.PrescribedSign(k, e); }
struct Beta { std::vector<Eigen::Vector2d> operator()(const Entity& e, const Eigen::MatrixXd& p) const; };
auto infl(MP m) { return dp::flagEntitiesOnInflowBoundary(m, Beta{}); }
auto outf(MP m) { return dp::flagEntitiesOnOutflowBoundary(m, Beta{}); }
bool flag_at(const lf::mesh::utils::CodimMeshDataSet<bool>& d, const Entity& e) { return d(e); }
double err_at(const lf::mesh::utils::CodimMeshDataSet<double>& d, const Entity& e) { return d(e); }
void err_set(lf::mesh::utils::CodimMeshDataSet<double>& d, const Entity& e, double v) { d(e) = v; }
auto errs(MP m) { return lf::mesh::utils::make_CodimMeshDataSet<double>(m, 0); }
double post(MP m, const lf::mesh::utils::CodimMeshDataSet<double>& d) { return dp::EvalPosteriorError(m, d); }
struct CoefG { std::vector<double> operator()(const Entity& e, const Eigen::MatrixXd& p) const; };
struct CoefH { std::vector<double> operator()(const Entity& e, const Eigen::MatrixXd& p) const; };
struct SelD { bool operator()(const Entity& e) const; };
struct SelN { bool operator()(const Entity& e) const; };
using Sp = std::shared_ptr<dp::ProductUniformFESpace<double>>;
// order of the components: 0 trace, 1 L2, 2 flux  or  0 flux, 1 trace
Sp tlf(MP m, unsigned p, unsigned q) { dp::ProductUniformFESpaceFactory<double> f(m); f.AddTraceComponent(p); f.AddL2Component(1); f.AddFluxComponent(q); return f.Build(); }
Sp ft(MP m, unsigned p, unsigned q) { dp::ProductUniformFESpaceFactory<double> f(m); f.AddFluxComponent(q); f.AddTraceComponent(p); return f.Build(); }
auto ess(const dp::ProductUniformFESpace<double>& s, unsigned t, unsigned f) { return dp::InitEssentialConditionsFromFunctions(s, t, f, SelD{}, SelN{}, CoefG{}, CoefH{}); }
const lf::assemble::DofHandler& dofh(const dp::ProductUniformFESpace<double>& s) { return s.LocGlobMap(); }
unsigned off(const dp::ProductUniformFESpace<double>& s, unsigned c) { return s.LocGlobMap().Offset(c); }
unsigned ncomp(const dp::ProductUniformFESpace<double>& s, unsigned c) { return s.LocGlobMap().NumDofs(c); }
const lf::assemble::UniformFEDofHandler& cdh(const dp::ProductUniformFESpace<double>& s, unsigned c) { return s.LocGlobMap().ComponentDofHandler(c); }
const dp::ProductUniformFEDofHandler& pdh(const dp::ProductUniformFESpace<double>& s) { return s.LocGlobMap(); }
using PM = std::shared_ptr<dp::ProductElementMatrixProvider<double>>;
using PV = std::shared_ptr<dp::ProductElementVectorProvider<double>>;
auto est(const dp::ProductUniformFEDofHandler& d, PM b, PM g, PV l, const Eigen::VectorXd& x) { return dp::ElementErrorEstimators<double>(d, b, g, l, x); }
}
'''


def tools_unit():
    src = module_sources('lib/lf/mesh/utils', 'lib/lf/mesh', 'lib/lf/fe', 'lib/lf/uscalfe', 'lib/lf/assemble', 'lib/lf/geometry', 'lib/lf/base') + \
        dpg_files('lib/lf/quad/quad_rule_cache.cc', 'projects/dpg/product_dofhandler.cc', 'projects/dpg/dpg_tools.cc')
    return export('dpgtools', unity(list(dict.fromkeys(src)), TOOLS % (REPO, REPO)))


CORN = {'Tria': [(0, 0), (1, 0), (0, 1)], 'Quad': [(0, 0), (1, 0), (1, 1), (0, 1)]}
GEO = {'T': [(0, 0), (4, 1), (1, 3)], 'Q': [(0, 0), (5, 1), (4, 4), (-1, 3)], 'TQ': [(0, 0), (3, 0), (1, 2), (5, 2), (3, 5)],
       'QT': [(0, 0), (3, -1), (4, 2), (-1, 3), (7, 1), (6, 5)], 'TTQQ': [(0, 0), (3, -1), (6, 0), (-1, 3), (3, 3), (7, 2), (0, 7), (4, 6), (8, 6)]}


def area2(P):
    return sum(P[i][0] * P[(i + 1) % len(P)][1] - P[(i + 1) % len(P)][0] * P[i][1] for i in range(len(P)))


def simple_quads(n, rnd):
    """simple quadrilaterals (convex and concave, both orientations) with non-zero corner determinants"""
    out = [[(0, 0), (4, 1), (5, 5), (1, 4)], [(0, 0), (4, 0), (1, 1), (0, 4)], [(0, 0), (4, 2), (0, 4), (1, 2)]]

    def cross(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])

    def inter(a, b, c, d):
        return cross(a, b, c) * cross(a, b, d) <= 0 and cross(c, d, a) * cross(c, d, b) <= 0
    while len(out) < n:
        q = [(rnd.randint(-6, 6), rnd.randint(-6, 6)) for _ in range(4)]
        if any(cross(q[i - 1], q[i], q[(i + 1) % 4]) == 0 for i in range(4)) or inter(q[0], q[1], q[2], q[3]) or inter(q[1], q[2], q[3], q[0]):
            continue
        out.append(q)
    res = []
    for q in out:
        for k in range(4):
            r = q[k:] + q[:k]
            res += [r, r[::-1]]
    return res


def cgeo(I, t, pts, o=1):
    return new(I, 'lf::geometry::%sO%d' % (t, o), eigen.new_mat(2, len(pts), -1, -1, 'double', False, lambda i, j: pts[j][i] if isinstance(pts[j][i], RF) else C(F(pts[j][i]))))


def P02(pid):
    c = Check(pid, rule='The functions of dpg_tools are abstractly interpreted. BoundaryQuadRule: symbolic rule, both cell types: points and weights are the images on every edge. OuterNormals: symbolic triangles of both orientations, enumerated simple (convex, concave, clockwise, counter-clockwise) quadrilaterals, affine curved triangles: unit normals of the edges pointing out of the cell. PrescribedSignProvider: abstract meshes: +1/-1, opposite on the two sides of an interior edge, +1 on the boundary. Inflow / outflow flags: boundary edges partitioned by the sign of beta.n at the edge midpoint, beta taken on the edge. InitEssentialConditionsFromFunctions: exactly the dofs of the trace (flux) component on the edges (including end points) selected by the Dirichlet (Neumann) selector are fixed, with the values of the nodal interpolant. ElementErrorEstimators / EvalPosteriorError: sqrt((l - B x)^T G^-1 (l - B x)) per cell, square root of the sum of squares.')
    P = tools_unit()
    thorough = TIER == 'thorough'
    W = {n: wsrc(P, 'projects::dpg::' + n) for n in ('BoundaryQuadRule', 'OuterNormals', 'PrescribedSignProvider::PrescribedSign', 'flagEntitiesOnInflowBoundary', 'flagEntitiesOnOutflowBoundary', 'InitEssentialConditionsFromFunctions', 'ElementErrorEstimators', 'EvalPosteriorError')}

    def rules(t, n):
        alg.reset()
        I = Interp(P)
        w = W['BoundaryQuadRule']
        key = 'BoundaryQuadRule/%s/%d' % (t, n)

        def run():
            q = fcall(I, 'lfv::mkrule', ref_el(I, 'Segment'), cmat(1, n, lambda i, j: S('x%d' % j)), cmat(n, 1, lambda i, j: S('w%d' % i), fc=1), 3)
            L = I.rv(fcall(I, 'lfv::bqr', ref_el(I, t), Cell(q))).items
            m = len(CORN[t])
            if not c.require(key + '/count', w, len(L) == m, '%d rules for %d edges' % (len(L), m)):
                return
            for j, r in enumerate(L):
                k = '%s/edge%d' % (key, j)
                A, B = CORN[t][j], CORN[t][(j + 1) % m]
                c.require(k + '/refel', w, same(mcall(I, fcall(I, 'lfv::qre', r), 'NumNodes'), m), 'the rule belongs to another reference element')
                c.equal_mat(k + '/points', w, fcall(I, 'lfv::qpts', r), cmat(2, n, lambda d, i: C(F(A[d])) + C(F(B[d] - A[d])) * S('x%d' % i)), None, 'the points are not those of the rule on edge %d' % j)
                l2 = (B[0] - A[0])**2 + (B[1] - A[1])**2
                c.equal_mat(k + '/weights', w, fcall(I, 'lfv::qwts', r), cmat(n, 1, lambda i, _: alg.sqrt(C(F(l2))) * S('w%d' % i)), None, 'the weights are not scaled with the length of edge %d' % j)
        c.attempt(key, w, run)
        c.no_abort(key, I, lambda i: {})
        c.cover(I)

    def check_normals(key, w, N, pts, valid=None):
        n = len(pts)
        if not c.require(key + '/size', w, (N.rows, N.cols) == (2, n), 'the result is %dx%d' % (N.rows, N.cols)):
            return
        s = 1 if area2(pts) > 0 else -1
        for j in range(n):
            e = [pts[(j + 1) % n][d] - pts[j][d] for d in (0, 1)]
            l = alg.sqrt(C(F(e[0]**2 + e[1]**2)))
            c.equal('%s/%d.x' % (key, j), w, N.cells[0][j].v, C(F(e[1] * s)) / l, None, 'normal of edge %d is not the outer unit normal' % j)
            c.equal('%s/%d.y' % (key, j), w, N.cells[1][j].v, C(F(-e[0] * s)) / l, None, 'normal of edge %d is not the outer unit normal' % j)

    def norm_num(j):
        t, pts, o = j
        alg.reset()
        I = Interp(P)
        key = 'OuterNormals/%sO%d/%s' % (t, o, pts)

        def run():
            p = pts
            if o == 2:
                n = len(pts)
                p = pts + [tuple(F(pts[i][d] + pts[(i + 1) % n][d], 2) for d in (0, 1)) for i in range(n)]
                if t == 'Quad':
                    p.append(tuple(F(sum(q[d] for q in pts), 4) for d in (0, 1)))
            check_normals(key, W['OuterNormals'], I.rv(fcall(I, 'lfv::normals', Cell(cgeo(I, t, p, o)))), pts)
        c.attempt(key, W['OuterNormals'], run)
        c.no_abort(key, I, lambda i: {})
        c.cover(I)

    def norm_sym(_):
        alg.reset()
        I = Interp(P)
        w = W['OuterNormals']
        key = 'OuterNormals/symbolic triangle'

        def samp(i):
            r = random.Random(i)
            while True:
                d = {'v%d_%d' % (k, a): F(r.randint(-40, 40), 7) for k in range(3) for a in (0, 1)}
                if area2([(d['v%d_0' % k], d['v%d_1' % k]) for k in range(3)]):
                    return d

        def run():
            x = [[S('v%d_%d' % (k, a)) for a in (0, 1)] for k in range(3)]
            N = I.rv(fcall(I, 'lfv::normals', Cell(cgeo(I, 'Tria', x))))
            D = (x[1][0] - x[0][0]) * (x[2][1] - x[0][1]) - (x[2][0] - x[0][0]) * (x[1][1] - x[0][1])
            for j in range(3):
                e = [x[(j + 1) % 3][a] - x[j][a] for a in (0, 1)]
                l = alg.sqrt(e[0] * e[0] + e[1] * e[1])
                for a, v in ((0, e[1]), (1, ZERO - e[0])):
                    ex = mk_ite(Cond('lt', ZERO - D), v / l, ZERO - v / l)
                    c.equal('%s/%d.%d' % (key, j, a), w, N.cells[a][j].v, ex, samp, 'normal of edge %d is not the outer unit normal' % j)
        c.attempt(key, w, run)
        c.no_abort(key, I, samp)
        c.cover(I)

    SK = [lambda k=k: skels(True)[k] for k in range(5)]
    MORE = [lambda: Skel('strip', 8, [(0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7), (2, 7, 6)]), lambda: Skel('TT', 4, [(1, 0, 2), (1, 3, 0)], edges=[(0, 1)]),
            lambda: Skel('fan6', 7, [(0, 1, 2), (0, 2, 3), (0, 4, 3), (0, 5, 4), (0, 6, 5), (0, 6, 1)])]

    def sign(mk):
        sk = mk()
        alg.reset()
        I = Interp(P)
        sk.install(I)
        I.nonnull.add(sk.key)
        w = W['PrescribedSignProvider::PrescribedSign']
        key = 'PrescribedSign/' + sk.name

        def run():
            p = Cell(obj(I, fcall(I, 'lfv::sp', sk.mesh())))
            for i in range(len(sk.edges)):
                adj = [q for q in range(len(sk.cells)) if i in sk.cedges[q]]
                s = [I.rv(fcall(I, 'lfv::sgn', p, Cell(sk.ent(0, q)), Cell(sk.ent(1, i)))) for q in adj]
                if len(adj) == 1:
                    c.require('%s/edge%d' % (key, i), w, same(s[0], 1), 'the sign on a boundary edge is %s, the prescribed normal has to point outwards' % txt(s[0]))
                elif len(adj) == 2:
                    c.require('%s/edge%d' % (key, i), w, sorted(map(int, map(num, s))) == [-1, 1], 'the signs on the two sides of edge %d are %s' % (i, [txt(x) for x in s]))
        c.attempt(key, w, run)
        c.no_abort(key, I, lambda i: {})
        c.cover(I)

    def geo_env(I, sk, pts):
        gs = {}

        def hook(I_, e, f, o, name, args):
            en = sk.parse(o)
            if en is not None and name == 'Geometry':
                if en not in gs:
                    v = sk.cells[en[1]] if en[0] == 0 else sk.edges[en[1]] if en[0] == 1 else (en[1],)
                    if en[0] == 2:
                        return NotImplemented
                    gs[en] = Ptr(Cell(cgeo(I_, sk.type(*en) if en[0] == 0 else 'Segment', [pts[x] for x in v])))
                return Cell(gs[en])
            return NotImplemented
        I.opq_hooks.append(hook)

    def flow(j):
        name, seed = j
        sk = [s for s in skels(True) if s.name == name][0]
        pts = GEO[name]
        rnd = random.Random(seed)
        if seed % 2:   # mirrored: all cells clockwise
            pts = [(-x, y) for x, y in pts]
        beta = {en: (F(rnd.randint(-9, 9)), F(rnd.randint(-9, 9))) for en in sk.all() if en[0] < 2}
        if seed % 3 == 2:
            b = (F(rnd.choice((-1, 1))), F(0))
            beta = {en: b for en in beta}
        alg.reset()
        I = Interp(P)
        sk.install(I)
        I.nonnull.add(sk.key)
        geo_env(I, sk, pts)
        key = 'flow/%s/%d' % (name, seed)
        bad = []

        def ev(I_, e, ob, a):
            en = sk.parse(I_.rv(a[0]))
            M = I_.rv(a[1])
            if en[0] == 1 and any(not same(M.cells[0][q].v, C(F(1, 2))) for q in range(M.cols)):
                bad.append(en)
            return Cell(Vec([Cell(eigen.new_mat(2, 1, 2, 1, 'double', False, lambda i, _: C(beta[en][i]))) for _ in range(M.cols)], 'vector'))
        I.hooks['lfv::Beta::operator()'] = ev

        def run():
            din, dout = Cell(fcall(I, 'lfv::infl', sk.mesh())), Cell(fcall(I, 'lfv::outf', sk.mesh()))
            for i, ed in enumerate(sk.edges):
                adj = [q for q in range(len(sk.cells)) if i in sk.cedges[q]]
                fi, fo = [I.rv(fcall(I, 'lfv::flag_at', d, Cell(sk.ent(1, i)))) for d in (din, dout)]
                fi, fo = [(evalcond(x, Env({})) if isinstance(x, Cond) else bool(x) if same(x, 0) or same(x, 1) else x) for x in (fi, fo)]
                exp_i = exp_o = False
                if len(adj) == 1:
                    cell = sk.cells[adj[0]]
                    k = sk.cedges[adj[0]].index(i)
                    A, B = pts[cell[k]], pts[cell[(k + 1) % len(cell)]]
                    s = 1 if area2([pts[v] for v in cell]) > 0 else -1
                    bn = s * ((B[1] - A[1]) * beta[1, i][0] - (B[0] - A[0]) * beta[1, i][1])
                    exp_i, exp_o = bn < 0, bn >= 0
                    where = 'boundary edge with beta.n = %s (times its length)' % bn
                else:
                    where = 'interior edge'
                c.require('%s/in%d' % (key, i), W['flagEntitiesOnInflowBoundary'], isinstance(fi, bool) and fi == exp_i, '%s is %sflagged as inflow edge' % (where, '' if fi else 'not '))
                c.require('%s/out%d' % (key, i), W['flagEntitiesOnOutflowBoundary'], isinstance(fo, bool) and fo == exp_o, '%s is %sflagged as outflow edge' % (where, '' if fo else 'not '))
            c.require(key + '/midpoint', W['flagEntitiesOnInflowBoundary'], not bad, 'beta is not evaluated at the midpoint of the edges %s' % bad)
        c.attempt(key, W['flagEntitiesOnInflowBoundary'], run)
        c.no_abort(key, I, lambda i: {})
        c.cover(I)

    def esscond(j):
        name, fn, p, q, seed = j
        sk = [s for s in skels(True) if s.name == name][0]
        rnd = random.Random('%s%s%d' % (name, fn, seed))
        dsel = {i: rnd.random() < 0.5 for i in range(len(sk.edges))}
        nsel = {i: rnd.random() < 0.5 for i in range(len(sk.edges))}
        alg.reset()
        I = Interp(P)
        sk.install(I)
        I.nonnull.add(sk.key)
        w = W['InitEssentialConditionsFromFunctions']
        key = 'essential/%s/%s/%d%d/%d' % (name, fn, p, q, seed)
        tc, fc = (0, 2) if fn == 'tlf' else (1, 0)
        for nm, sel in (('SelD', dsel), ('SelN', nsel)):
            I.hooks['lfv::%s::operator()' % nm] = lambda I_, e, ob, a, sel=sel: Cell(bool(sel.get(sk.parse(I_.rv(a[0]))[1]) if sk.parse(I_.rv(a[0]))[0] == 1 else False))
        for nm in 'GH':
            def cf(I_, e, ob, a, nm=nm):
                en = sk.parse(I_.rv(a[0]))
                M = I_.rv(a[1])
                return Cell(Vec([Cell(S('%s[%d_%d]%s' % (nm, en[0], en[1], colkey(M, k)))) for k in range(M.cols)], 'vector'))
            I.hooks['lfv::Coef%s::operator()' % nm] = cf

        def run():
            s = Cell(obj(I, fcall(I, 'lfv::' + fn, sk.mesh(), p, q)))
            r = I.rv(fcall(I, 'lfv::ess', s, tc, fc)).items
            dh = I.rv(fcall(I, 'lfv::dofh', s))
            N = int(num(mcall(I, dh, 'NumDofs')))
            if not c.require(key + '/size', w, len(r) == N, '%d flags for %d dofs' % (len(r), N)):
                return
            got = []
            for x in r:
                t = I.rv(x)
                got.append((I.rv(t.items[0] if hasattr(t, 'items') and not callable(t.items) else t.a[0]), I.rv(t.items[1] if hasattr(t, 'items') and not callable(t.items) else t.a[1])))
            want = {}
            for comp, sel, nm, deg in ((tc, dsel, 'G', p), (fc, nsel, 'H', q)):
                ch = I.rv(fcall(I, 'lfv::cdh', s, comp))
                o = int(num(fcall(I, 'lfv::off', s, comp)))
                for i in range(len(sk.edges)):
                    if sel[i]:
                        dl = [o + int(num(I.rv(x))) for x in I.iter_items(mcall(I, ch, 'GlobalDofIndices', sk.ent(1, i)))]
                        # positions of the dofs on the edge
                        xs = [F(k, deg) for k in range(deg + 1)] if deg else [F(1, 2)]
                        for g in dl:
                            want.setdefault(g, set()).update('%s[1_%d](%s)' % (nm, i, txt(C(x), 400)) for x in xs)
            for g, (fl, v) in enumerate(got):
                k = '%s/dof%d' % (key, g)
                if not c.require(k, w, isinstance(fl, bool) and fl == (g in want), 'dof %d is %sfixed' % (g, '' if fl else 'not ')):
                    continue
                if fl:
                    c.require(k + '/value', w, txt(v, 400) in want[g], 'dof %d is fixed to %s, not to a value of the prescribed function at a node of the edge' % (g, txt(v, 200)))
            # every node value is used once per edge
            for comp, sel, nm, deg in ((tc, dsel, 'G', p), (fc, nsel, 'H', q)):
                ch = I.rv(fcall(I, 'lfv::cdh', s, comp))
                o = int(num(fcall(I, 'lfv::off', s, comp)))
                for i in range(len(sk.edges)):
                    if sel[i]:
                        dl = [o + int(num(I.rv(x))) for x in I.iter_items(mcall(I, ch, 'InteriorGlobalDofIndices', sk.ent(1, i)))]
                        vs = [txt(got[g][1], 400) for g in dl if got[g][0] is True]
                        c.require('%s/%s/edge%d' % (key, nm, i), w, len(set(vs)) == len(dl), 'two dofs of one edge carry the same value')
        c.attempt(key, w, run)
        c.no_abort(key, I, lambda i: {})
        c.cover(I)

    def estim(j):
        name, nt, nv = j
        sk = [s for s in skels(True) if s.name == name][0]
        alg.reset()
        I = Interp(P)
        sk.install(I)
        I.nonnull.add(sk.key)
        w = W['ElementErrorEstimators']
        key = 'estimator/%s/%d' % (name, nv)

        def mats(nm):
            def f(I_, e, ob, a):
                o = I_.rv(ob)
                tag = o.key if isinstance(o, Opq) else '?'
                en = sk.parse(I_.rv(a[0]))
                return tag, en
            return f

        def run():
            s = Cell(obj(I, fcall(I, 'lfv::ft', sk.mesh(), 1, 0)))
            d = Cell(I.rv(fcall(I, 'lfv::pdh', s)))
            N = int(num(mcall(I, d.v, 'NumDofs')))
            for k_ in ('B', 'G', 'L'):
                I.nonnull.add(k_)

            def val(nm, en, i, jj):
                r = random.Random('%s%s%d%d' % (nm, en, i, jj))
                if nm == 'G':   # symmetric positive definite
                    r = random.Random('%s%s%s' % (nm, en, sorted((i, jj))))
                    return C(F(r.randint(-3, 3), 2)) if i != jj else C(F(9 + i))
                if nm == 'B':
                    return C(F(r.randint(-5, 5), 3))
                return S('l%d_%d' % (en[1], i)) if nv == 1 else C(F(r.randint(-7, 7), 2))

            def nl(en):
                return len(list(I.iter_items(mcall(I, d.v, 'GlobalDofIndices', sk.ent(*en)))))

            def hook(I_, e, f, o, name, args):
                if isinstance(o, Opq) and o.key in 'BGL' and len(o.key) == 1 and name == 'Eval':
                    en = sk.parse(I_.rv(args[0]))
                    n = nl(en)
                    r_, c_ = {'B': (nv, n), 'G': (nv, nv), 'L': (nv, 1)}[o.key]
                    return Cell(cmat(r_, c_, lambda i, jj: val(o.key, en, i, jj), fc=1 if o.key == 'L' else -1))
                return NotImplemented
            I.opq_hooks.append(hook)
            X = Cell(cmat(N, 1, lambda i, _: C(F(2 * i - 5, 3)), fc=1))
            D = Cell(fcall(I, 'lfv::est', d, Opq('B', 'std::shared_ptr<projects::dpg::ProductElementMatrixProvider<double>>'), Opq('G', 'std::shared_ptr<projects::dpg::ProductElementMatrixProvider<double>>'), Opq('L', 'std::shared_ptr<projects::dpg::ProductElementVectorProvider<double>>'), X))
            for q in range(len(sk.cells)):
                en = (0, q)
                g = [int(num(I.rv(x))) for x in I.iter_items(mcall(I, d.v, 'GlobalDofIndices', sk.ent(*en)))]
                r = []
                for i in range(nv):
                    v = val('L', en, i, 0)
                    for jj, gg in enumerate(g):
                        v = num_sub(v, num_mul(val('B', en, i, jj), C(F(2 * gg - 5, 3))))
                    r.append(v)
                Gi = eigen.inverse(cmat(nv, nv, lambda i, jj: val('G', en, i, jj)))
                t = ZERO
                for i in range(nv):
                    for jj in range(nv):
                        t = num_add(t, num_mul(num_mul(r[i], Gi.cells[i][jj].v), r[jj]))
                c.equal('%s/cell%d' % (key, q), w, fcall(I, 'lfv::err_at', D, Cell(sk.ent(*en))), alg.sqrt(t), None, 'the estimator is not the norm of the residual in the inverse Gramian')
        c.attempt(key, w, run)
        c.no_abort(key, I, lambda i: {})
        c.cover(I)

    def poster(name):
        sk = [s for s in skels(True) if s.name == name][0]
        alg.reset()
        I = Interp(P)
        sk.install(I)
        I.nonnull.add(sk.key)
        w = W['EvalPosteriorError']
        key = 'posterior/' + name

        def run():
            D = Cell(obj(I, fcall(I, 'lfv::errs', sk.mesh())))
            t = ZERO
            for q in range(len(sk.cells)):
                fcall(I, 'lfv::err_set', D, Cell(sk.ent(0, q)), S('e%d' % q))
                t = t + S('e%d' % q) * S('e%d' % q)
            c.equal(key, w, fcall(I, 'lfv::post', sk.mesh(), D), alg.sqrt(t), None, 'the error is not the root of the sum of squares')
        c.attempt(key, w, run)
        c.cover(I)

    rnd = random.Random(SEED)
    quads = simple_quads(24 if thorough else 10, rnd)
    tr = [[(rnd.randint(-6, 6), rnd.randint(-6, 6)) for _ in range(3)] for _ in range(10)] + [[(0, 0), (1, 0), (0, 1)], [(0, 0), (0, 1), (1, 0)]]
    tr = [t for t in tr if area2(t)]
    jobs = [('rules', t, n) for t in CORN for n in (1, 3)] + [('norm_num', ('Quad', q, o)) for q in quads for o in (1,)] + [('norm_num', ('Tria', t, o)) for t in tr for o in (1, 2)]
    jobs += [('norm_sym', 0)] + [('sign', m) for m in range(len(SK + MORE))]
    jobs += [('flow', (n, s)) for n in GEO for s in range(12 if thorough else 6)]
    jobs += [('esscond', (n, f, p, q, s)) for n in ('T', 'Q', 'TQ', 'QT') for f in ('tlf', 'ft') for p, q in ((1, 0), (2, 1), (3, 2)) for s in range(3 if thorough else 1)]
    jobs += [('estim', (n, 1, v)) for n in ('T', 'TQ', 'QT') for v in (1, 3)] + [('poster', n) for n in GEO]
    F_ = dict(rules=rules, norm_num=norm_num, norm_sym=norm_sym, flow=flow, esscond=esscond, estim=estim, poster=poster)

    def one(j):
        if j[0] == 'sign':
            sign((SK + MORE)[j[1]])
        else:
            F_[j[0]](*j[1:])
    c.par(jobs, one)
    return c.finish(500)


SPACE = '''
#include "%s/projects/dpg/product_fe_space_factory.h"
namespace lfv {
using MP = std::shared_ptr<const lf::mesh::Mesh>;
using lf::mesh::Entity;
namespace dp = projects::dpg;
template <class S> using Fa = std::shared_ptr<dp::ProductUniformFESpaceFactory<S>>;
template <class S> using Sp = std::shared_ptr<dp::ProductUniformFESpace<S>>;
#define LFV_P(N, S) \\
Fa<S> fac_##N(MP m) { return std::make_shared<dp::ProductUniformFESpaceFactory<S>>(m); } \\
unsigned add_##N(Fa<S> f, unsigned k, unsigned p) { return k == 0 ? f->AddH1Component(p) : k == 1 ? f->AddL2Component(p) : k == 2 ? f->AddFluxComponent(p) : f->AddTraceComponent(p); } \\
unsigned nfac_##N(Fa<S> f) { return f->NumComponents(); } \\
Sp<S> build_##N(Fa<S> f) { return f->Build(); } \\
const lf::fe::ScalarReferenceFiniteElement<S>* lay_##N(Sp<S> s, lf::base::RefEl r, unsigned c) { return s->ShapeFunctionLayout(r, c); } \\
unsigned nref_##N(Sp<S> s, lf::base::RefEl r, unsigned c) { return s->NumRefShapeFunctions(r, c); } \\
unsigned ncomps_##N(Sp<S> s) { return s->NumComponents(); } \\
MP mesh_##N(Sp<S> s) { return s->Mesh(); } \\
std::shared_ptr<const lf::uscalfe::UniformScalarFESpace<S>> cfes_##N(Sp<S> s, unsigned c) { return s->ComponentFESpace(c); } \\
const lf::fe::ScalarReferenceFiniteElement<S>* clay_##N(Sp<S> s, lf::base::RefEl r, unsigned c) { return s->ComponentFESpace(c)->ShapeFunctionLayout(r); } \\
const dp::ProductUniformFEDofHandler& pdh_##N(Sp<S> s) { return s->LocGlobMap(); }
LFV_P(d, double)
LFV_P(z, std::complex<double>)
unsigned nloc(const dp::ProductUniformFEDofHandler& d, const Entity& e, unsigned c) { return d.NumLocalDofs(e, c); }
unsigned nint(const dp::ProductUniformFEDofHandler& d, const Entity& e, unsigned c) { return d.NumInteriorDofs(e, c); }
unsigned start(const dp::ProductUniformFEDofHandler& d, const Entity& e, unsigned c) { return d.LocalStartIndex(e, c); }
}
'''
KIND = ('H1', 'L2', 'Flux', 'Trace')


def P03(pid):
    from fe import TDIR, ev, pt, refpts
    from spaces import VTX
    c = Check(pid, rule='ProductUniformFESpaceFactory and the spaces it builds are abstractly interpreted over abstract meshes (triangles and quadrilaterals sharing edges in both directions), all kinds of components and degrees 0..3. Layouts exist exactly on the entity types the kind of component promises, they have the dimension of the polynomial space, interpolation by EvaluationNodes/NodalValuesToDofs reproduces the monomials of the degree, gradients are the formal derivatives, numbers agree with the product dof handler. At a symbolic point of every shared edge the traces of a global basis function (H1, trace, flux) from all adjacent cells equal that of the edge.')
    src = module_sources('lib/lf/fe', 'lib/lf/uscalfe', 'lib/lf/assemble', 'lib/lf/base') + dpg_files('lib/lf/quad/quad_rule_cache.cc', 'projects/dpg/product_dofhandler.cc')
    P = export('dpgspaces', unity(list(dict.fromkeys(src)), SPACE % REPO))
    thorough = TIER == 'thorough'
    N = 'projects::dpg::'
    wl, wb = wsrc(P, N + 'ProductUniformFESpace::ShapeFunctionLayout'), wsrc(P, N + 'ProductUniformFESpaceFactory::Build')
    wn = wsrc(P, N + 'ProductUniformFESpace::NumRefShapeFunctions')
    wcls = {0: wl, 1: wsrc(P, N + 'DiscontinuousScalarReferenceFiniteElement::EvalReferenceShapeFunctions'), 3: wsrc(P, N + 'TraceScalarReferenceFiniteElement::EvalReferenceShapeFunctions')}
    wcls[2] = wcls[1]
    lists = [[(0, p), (2, p)] for p in (1, 2, 3)] + [[(3, 2), (1, 0), (2, 1)], [(2, 3), (3, 1), (0, 2), (1, 2)], [(1, 3), (1, 1), (2, 0)], [(2, 2), (3, 3)]]
    jobs = [(z, n, i) for z in 'dz' for n in ('T', 'Q', 'TQ', 'QT') + (('TTQQ',) if thorough else ()) for i in range(len(lists)) if z == 'd' or thorough or n in ('TQ', 'T')]
    TY = ('Point', 'Segment', 'Tria', 'Quad')
    HAS = {0: (1, 2, 3), 1: (2, 3), 2: (1,), 3: (1, 2, 3)}

    def dim(k, t, p):
        d = {1: p + 1, 2: (p + 1) * (p + 2) // 2, 3: (p + 1) ** 2}[t]
        if k == 3 and t > 1:
            d = 3 * p if t == 2 else 4 * p
        return d

    def one(job):
        z, name, li = job
        L = lists[li]
        sk = [s for s in skels(thorough) if s.name == name][0]
        alg.reset()
        I = Interp(P)
        sk.install(I)
        I.nonnull.add(sk.key)
        Rules(I)
        key = '%s/%s/%s' % (z, name, '+'.join('%s%d' % (KIND[k], p) for k, p in L))
        f_ = lambda n, *a: fcall(I, 'lfv::%s_%s' % (n, z), *a)

        def run():
            fac = f_('fac', sk.mesh())
            for rnd in (0, 1):       # a second space built by the same factory
                got = [f_('add', fac, k, p) for k, p in L]
                wa = wsrc(P, N + 'ProductUniformFESpaceFactory::AddH1Component') if rnd == 0 else wb
                c.require('%s/add%d' % (key, rnd), wa, all(same(x, i) for i, x in enumerate(got)), 'the factory returns the component indices %s%s' % ([txt(x) for x in got], ' for the second space' if rnd else ''))
                c.require('%s/count%d' % (key, rnd), wa, same(f_('nfac', fac), len(L)), 'NumComponents() is %s for %d components' % (txt(f_('nfac', fac)), len(L)))
                s = f_('build', fac)
                c.require('%s/ncomps%d' % (key, rnd), wb, same(f_('ncomps', s), len(L)), 'the space has %s components' % txt(f_('ncomps', s)))
            m = f_('mesh', s)
            c.require(key + '/mesh', wb, isinstance(m, Opq) and m.key == sk.key, 'Mesh() returns %s' % m)
            dh = Cell(I.rv(f_('pdh', s)))
            s_ = S('s')
            for q, (k, p) in enumerate(L):
                ck = '%s/comp%d' % (key, q)
                w = wcls[k]
                lay = {}
                for t in (1, 2, 3):
                    o = f_('lay', s, ref_el(I, TY[t]), q)
                    if not c.require('%s/%s/layout' % (ck, TY[t]), wl, isinstance(o, Ptr) == (t in HAS[k]) and (o is None or isinstance(o, Ptr)), 'a %s component has %s layout on entities of type %s' % (KIND[k], 'no' if o is None else 'a', TY[t])) or o is None:
                        continue
                    lay[t] = o
                    n = int(num(mcall(I, o, 'NumRefShapeFunctions')))
                    lk = '%s/%s' % (ck, TY[t])
                    c.require(lk + '/refel', w, same(mcall(I, mcall(I, o, 'RefEl'), 'NumNodes'), (2, 3, 4)[t - 1]), 'the layout belongs to another reference element')
                    c.require(lk + '/degree', w, same(mcall(I, o, 'Degree'), p), 'the degree is %s instead of %d' % (txt(mcall(I, o, 'Degree')), p))
                    if not c.require(lk + '/dim', w, n == dim(k, t, p), '%d shape functions instead of %d' % (n, dim(k, t, p))):
                        continue
                    # numbers per sub-entity add up
                    tot = 0
                    NS = {1: ((1, 1), (2, 2)), 2: ((1, 1), (3, 3), (3, 3)), 3: ((1, 1), (4, 4), (4, 4))}
                    cnt = {1: (1, 2), 2: (1, 3, 3), 3: (1, 4, 4)}[t]
                    for cd in range(len(cnt)):
                        for j in range(cnt[cd]):
                            a = mcall(I, o, 'NumRefShapeFunctions', cd, j)
                            tot += int(num(a))
                            c.require('%s/num%d.%d' % (lk, cd, j), w, same(a, mcall(I, o, 'NumRefShapeFunctions', cd)), 'NumRefShapeFunctions(codim, subidx) and NumRefShapeFunctions(codim) differ')
                    c.require(lk + '/numtotal', w, tot == n, 'the sub-entities own %d of %d shape functions' % (tot, n))
                    # interpolation
                    nodes = mcall(I, o, 'EvaluationNodes')
                    ne = int(num(mcall(I, o, 'NumEvaluationNodes')))
                    d = 1 if t == 1 else 2
                    if not c.require(lk + '/nodes', w, (nodes.rows, nodes.cols) == (d, ne), 'EvaluationNodes() is %dx%d, NumEvaluationNodes() is %d' % (nodes.rows, nodes.cols, ne)):
                        continue
                    X = [S('t0_0'), S('t1_0')][:d]
                    val = ev(I, o, pt(X))
                    gr = mcall(I, o, 'GradientsReferenceShapeFunctions', pt(X))
                    if c.require(lk + '/shape', w, (val.rows, val.cols) == (n, 1) and (gr.rows, gr.cols) == (n, d), 'values %dx%d, gradients %dx%d for %d shape functions' % (val.rows, val.cols, gr.rows, gr.cols, n)):
                        for i in range(n):
                            for a in range(d):
                                dv = ndiff(val.cells[i][0].v, 't%d_0' % a)
                                c.equal('%s/grad%d.%d' % (lk, i, a), w, gr.cells[i][a].v, dv, refpts(TY[t]), 'the gradient of shape function %d is not its derivative' % i)
                    mons = [(a, b) for a in range(p + 1) for b in range(p + 1) if (d == 2 or b == 0) and (t == 3 or a + b <= p)]
                    pts = [X] if k != 3 or t == 1 else [[C(u) + (C(v) - C(u)) * s_ for u, v in zip(A, B)] for A, B in TDIR[TY[t]]]
                    for a, b in mons:
                        f = lambda x: npow(to_rf(x[0]), a) * (npow(to_rf(x[1]), b) if d == 2 else ONE)
                        nv = eigen.new_mat(1, ne, 1, -1, 'std::complex<double>' if z == 'z' else 'double', False, lambda i, j: lift(z, f([cell.v for cell in (nodes.cells[r_][j] for r_ in range(d))])))
                        dv = mcall(I, o, 'NodalValuesToDofs', nv)
                        if not c.require('%s/dofs/x%dy%d' % (lk, a, b), w, dv.rows * dv.cols == n, '%d dofs for %d shape functions' % (dv.rows * dv.cols, n)):
                            continue
                        for e, x in enumerate(pts):
                            v = ev(I, o, pt(x))
                            r = ZERO
                            for i in range(n):
                                r = num_add(r, num_mul(dv.cells[0][i].v, v.cells[i][0].v))
                            c.equal('%s/interpolate/x%dy%d/%d' % (lk, a, b, e), w, r, f(x), refpts(TY[t]), 'the interpolant of x^%d y^%d is another polynomial' % (a, b))
                # component space
                if k in (0, 1, 3):
                    for t in lay:
                        o2 = f_('clay', s, ref_el(I, TY[t]), q)
                        c.require('%s/%s/component' % (ck, TY[t]), wsrc(P, N + 'ProductUniformFESpace::ComponentFESpace'), isinstance(o2, Ptr) and I.rv(I.deref(o2)) is I.rv(I.deref(lay[t])), 'the layout of the component space differs')
                dofs = {}
                for en in sk.all():
                    t = TY.index(sk.type(*en))
                    st, nl = int(num(fcall(I, 'lfv::start', dh, Cell(sk.ent(*en)), q))), int(num(fcall(I, 'lfv::nloc', dh, Cell(sk.ent(*en)), q)))
                    g = [int(num(I.rv(x))) for x in I.iter_items(mcall(I, dh.v, 'GlobalDofIndices', sk.ent(*en)))]
                    dofs[en] = g[st:st + nl]
                    ni = fcall(I, 'lfv::nint', dh, Cell(sk.ent(*en)), q)
                    c.require('%s/%s%d/nref' % (ck, TY[t], en[1]), wn, same(f_('nref', s, ref_el(I, TY[t]), q), ni), 'NumRefShapeFunctions is %s but the entity owns %s dofs' % (txt(f_('nref', s, ref_el(I, TY[t]), q)), txt(ni)))
                    if t in lay:
                        c.require('%s/%s%d/nloc' % (ck, TY[t], en[1]), wl, same(mcall(I, lay[t], 'NumRefShapeFunctions'), nl), '%s shape functions but %d local dofs' % (txt(mcall(I, lay[t], 'NumRefShapeFunctions')), nl))
                if k == 1 or 1 not in lay:
                    continue
                es = ev(I, lay[1], pt([s_]))
                for i in range(len(sk.edges)):
                    want = {}
                    for n, g in enumerate(dofs[1, i]):
                        want[g] = es.cells[n][0].v
                    for cq in range(len(sk.cells)):
                        for j, e in enumerate(sk.cedges[cq]):
                            if e != i:
                                continue
                            tn = sk.type(0, cq)
                            tt = s_ if sk.corient[cq][j] == 1 else ONE - s_
                            if k == 2:
                                val = ev(I, lay[1], pt([tt]))
                                dl = dofs[0, cq][j * (p + 1):(j + 1) * (p + 1)]
                            else:
                                if TY.index(tn) not in lay:
                                    continue
                                A, B = TDIR[tn][j]
                                val = ev(I, lay[TY.index(tn)], pt([C(u) + (C(v) - C(u)) * tt for u, v in zip(A, B)]))
                                dl = dofs[0, cq]
                            if not c.require('%s/edge%d/cell%d/rows' % (ck, i, cq), w, val.rows == len(dl), '%d shape functions, %d dofs' % (val.rows, len(dl))):
                                continue
                            tr = {}
                            for n, g in enumerate(dl):
                                tr[g] = num_add(tr[g], val.cells[n][0].v) if g in tr else val.cells[n][0].v
                            for g in sorted(set(want) | set(tr)):
                                c.equal('%s/edge%d/cell%d/dof%d' % (ck, i, cq, g), w, tr.get(g, ZERO), want.get(g, ZERO), refpts('Tria'), 'the trace of basis function %d of the %s component on edge %d from cell %d differs from that of the edge' % (g, KIND[k], i, cq))
        c.attempt(key, wb, run)
        c.no_abort(key, I, lambda i: {})
        c.cover(I)
    c.par(jobs, one)
    return c.finish(500)


def npow(x, n):
    r = ONE
    for _ in range(n):
        r = r * x
    return r


def ndiff(v, n):
    return Cx(v.re.diff(n), v.im.diff(n)) if isinstance(v, Cx) else to_rf(v).diff(n)


def lift(z, v):
    return Cx(v, ZERO) if z == 'z' else v


PROV = '''
#include "%s/projects/dpg/product_element_matrix_provider_builder.h"
#include "%s/projects/dpg/product_element_vector_provider_builder.h"
#include "%s/projects/dpg/dpg_element_matrix_provider.h"
#include "%s/projects/dpg/dpg_element_vector_provider.h"
#include "%s/projects/dpg/product_fe_space_factory.h"
namespace lfv {
using lf::mesh::Entity;
using Cd = std::complex<double>;
namespace dp = projects::dpg;
template <class S> using Sp = std::shared_ptr<dp::ProductUniformFESpace<S>>;
template <class S> using MatP = std::shared_ptr<dp::ProductElementMatrixProvider<S>>;
template <class S> using VecP = std::shared_ptr<dp::ProductElementVectorProvider<S>>;
using MP = std::shared_ptr<const lf::mesh::Mesh>;
struct Sel { bool operator()(const Entity& e) const; };
struct QSel { lf::quad::QuadRule operator()(const Entity& e) const; };
lf::quad::QuadRule mkrule(lf::base::RefEl r, Eigen::MatrixXd p, Eigen::VectorXd w, unsigned d) { return lf::quad::QuadRule(r, std::move(p), std::move(w), d); }
std::vector<lf::quad::QuadRule> bqr(lf::base::RefEl r, const lf::quad::QuadRule& q) { return dp::BoundaryQuadRule(r, q); }
Eigen::MatrixXd qpts(const lf::quad::QuadRule& q) { return q.Points(); }
std::shared_ptr<dp::PrescribedSignProvider> sp(MP m) { return std::make_shared<dp::PrescribedSignProvider>(m); }
int sgn(const dp::PrescribedSignProvider& p, const Entity& k, const Entity& e) { return p.PrescribedSign(k, e); }
#define LFV_COEF(N, T) struct N { int tag; std::vector<T> operator()(const Entity& e, const Eigen::MatrixXd& p) const; }; N mk_##N(int t) { return N{t}; }
LFV_COEF(CoefD, double)
LFV_COEF(CoefZ, Cd)
LFV_COEF(CoefM, Eigen::Matrix2d)
LFV_COEF(CoefN, Eigen::Matrix2cd)
LFV_COEF(CoefX, Eigen::MatrixXd)
LFV_COEF(CoefV, Eigen::Vector2d)
LFV_COEF(CoefW, Eigen::VectorXd)
#define LFV_SUB(N, S, T, CLS) \\
auto N(Sp<S> r, Sp<S> t, unsigned a, unsigned b, T c, const Entity& e) { dp::CLS<S, T> p(r, t, a, b, c); return p.Eval(e); } \\
unsigned N##_trial(Sp<S> r, Sp<S> t, unsigned a, unsigned b, T c, const Entity& e) { dp::CLS<S, T> p(r, t, a, b, c); return p.TrialComponent(); } \\
unsigned N##_test(Sp<S> r, Sp<S> t, unsigned a, unsigned b, T c, const Entity& e) { dp::CLS<S, T> p(r, t, a, b, c); return p.TestComponent(); } \\
bool N##_act(Sp<S> r, Sp<S> t, unsigned a, unsigned b, T c, const Entity& e) { dp::CLS<S, T> p(r, t, a, b, c); return p.isActive(e); }
LFV_SUB(diff_d, double, CoefD, DiffusionElementMatrixProvider)
LFV_SUB(diff_z, Cd, CoefZ, DiffusionElementMatrixProvider)
LFV_SUB(diff_m, double, CoefM, DiffusionElementMatrixProvider)
LFV_SUB(diff_x, double, CoefX, DiffusionElementMatrixProvider)
LFV_SUB(reac_d, double, CoefD, ReactionElementMatrixProvider)
LFV_SUB(reac_z, Cd, CoefZ, ReactionElementMatrixProvider)
LFV_SUB(flux_d, double, CoefD, FluxElementMatrixProvider)
LFV_SUB(trace_v, double, CoefV, TraceElementMatrixProvider)
LFV_SUB(trace_w, double, CoefW, TraceElementMatrixProvider)
#define LFV_CONV(N, S, T, U) auto N(Sp<S> r, Sp<S> t, unsigned a, unsigned b, T c, U d, const Entity& e) { dp::ConvectionElementMatrixProvider<S, T, U> p(r, t, a, b, c, d); return p.Eval(e); } \\
unsigned N##_trial(Sp<S> r, Sp<S> t, unsigned a, unsigned b, T c, U d, const Entity& e) { dp::ConvectionElementMatrixProvider<S, T, U> p(r, t, a, b, c, d); return p.TrialComponent(); } \\
unsigned N##_test(Sp<S> r, Sp<S> t, unsigned a, unsigned b, T c, U d, const Entity& e) { dp::ConvectionElementMatrixProvider<S, T, U> p(r, t, a, b, c, d); return p.TestComponent(); } \\
bool N##_act(Sp<S> r, Sp<S> t, unsigned a, unsigned b, T c, U d, const Entity& e) { dp::ConvectionElementMatrixProvider<S, T, U> p(r, t, a, b, c, d); return p.isActive(e); }
LFV_CONV(conv_v, double, CoefV, CoefV)
LFV_CONV(conv_w, double, CoefW, CoefV)
auto load_d(Sp<double> t, unsigned b, CoefD c, const Entity& e) { dp::LoadElementVectorProvider<double, CoefD> p(t, b, c); return p.Eval(e); }
unsigned load_d_test(Sp<double> t, unsigned b, CoefD c, const Entity& e) { dp::LoadElementVectorProvider<double, CoefD> p(t, b, c); return p.TestComponent(); }
bool load_d_act(Sp<double> t, unsigned b, CoefD c, const Entity& e) { dp::LoadElementVectorProvider<double, CoefD> p(t, b, c); return p.isActive(e); }
auto load_z(Sp<Cd> t, unsigned b, CoefZ c, const Entity& e) { dp::LoadElementVectorProvider<Cd, CoefZ> p(t, b, c); return p.Eval(e); }
unsigned load_z_test(Sp<Cd> t, unsigned b, CoefZ c, const Entity& e) { dp::LoadElementVectorProvider<Cd, CoefZ> p(t, b, c); return p.TestComponent(); }
bool load_z_act(Sp<Cd> t, unsigned b, CoefZ c, const Entity& e) { dp::LoadElementVectorProvider<Cd, CoefZ> p(t, b, c); return p.isActive(e); }
// product providers with mock sub providers
Eigen::MatrixXd mockm(unsigned tag, const Entity& e);
Eigen::VectorXd mockv(unsigned tag, const Entity& e);
bool mocka(unsigned tag, const Entity& e);
struct MockM : dp::SubElementMatrixProvider<double> { unsigned r, t, tag; MockM(unsigned r_, unsigned t_, unsigned g) : r(r_), t(t_), tag(g) {} bool isActive(const Entity& e) override { return mocka(tag, e); } Eigen::MatrixXd Eval(const Entity& e) override { return mockm(tag, e); } unsigned TrialComponent() const override { return r; } unsigned TestComponent() const override { return t; } };
struct MockV : dp::SubElementVectorProvider<double> { unsigned t, tag; MockV(unsigned t_, unsigned g) : t(t_), tag(g) {} bool isActive(const Entity& e) override { return mocka(tag, e); } Eigen::VectorXd Eval(const Entity& e) override { return mockv(tag, e); } unsigned TestComponent() const override { return t; } };
// trial: trace, L2, flux; test: L2, H1, L2
Sp<double> trial(MP m) { dp::ProductUniformFESpaceFactory<double> f(m); f.AddTraceComponent(2); f.AddL2Component(1); f.AddFluxComponent(1); return f.Build(); }
Sp<double> test(MP m) { dp::ProductUniformFESpaceFactory<double> f(m); f.AddL2Component(0); f.AddH1Component(1); f.AddL2Component(2); return f.Build(); }
unsigned nloc(const Sp<double>& s, const Entity& e, unsigned c) { return s->LocGlobMap().NumLocalDofs(e, c); }
using VM = std::vector<std::shared_ptr<dp::SubElementMatrixProvider<double>>>;
using VV = std::vector<std::shared_ptr<dp::SubElementVectorProvider<double>>>;
auto pm(Sp<double> r, Sp<double> t, const Entity& e) { dp::ProductElementMatrixProvider<double> p(r, t, VM{std::make_shared<MockM>(0, 0, 0), std::make_shared<MockM>(2, 1, 1), std::make_shared<MockM>(1, 2, 2), std::make_shared<MockM>(2, 1, 3)}); return p.Eval(e); }
bool pma(Sp<double> r, Sp<double> t, const Entity& e) { dp::ProductElementMatrixProvider<double> p(r, t, VM{std::make_shared<MockM>(0, 0, 0)}); return p.isActive(e); }
auto pv(Sp<double> t, const Entity& e) { dp::ProductElementVectorProvider<double> p(t, VV{std::make_shared<MockV>(1, 0), std::make_shared<MockV>(0, 1), std::make_shared<MockV>(2, 2), std::make_shared<MockV>(1, 3)}); return p.Eval(e); }
bool pva(Sp<double> t, const Entity& e) { dp::ProductElementVectorProvider<double> p(t, VV{std::make_shared<MockV>(1, 0)}); return p.isActive(e); }
auto dm(Sp<double> r, Sp<double> t, const Entity& e) {
  auto b = std::make_shared<dp::ProductElementMatrixProvider<double>>(r, t, VM{std::make_shared<MockM>(0, 0, 0), std::make_shared<MockM>(2, 1, 1)});
  auto g = std::make_shared<dp::ProductElementMatrixProvider<double>>(t, t, VM{std::make_shared<MockM>(0, 0, 10), std::make_shared<MockM>(1, 1, 11)});
  dp::DpgElementMatrixProvider p(b, g); return p.Eval(e); }
auto dv(Sp<double> r, Sp<double> t, const Entity& e) {
  auto l = std::make_shared<dp::ProductElementVectorProvider<double>>(t, VV{std::make_shared<MockV>(0, 20), std::make_shared<MockV>(1, 21)});
  auto b = std::make_shared<dp::ProductElementMatrixProvider<double>>(r, t, VM{std::make_shared<MockM>(0, 0, 0), std::make_shared<MockM>(2, 1, 1)});
  auto g = std::make_shared<dp::ProductElementMatrixProvider<double>>(t, t, VM{std::make_shared<MockM>(0, 0, 10), std::make_shared<MockM>(1, 1, 11)});
  dp::DpgElementVectorProvider p(l, b, g); return p.Eval(e); }
Sp<double> rtrial(MP m) { dp::ProductUniformFESpaceFactory<double> f(m); f.AddTraceComponent(1); f.AddL2Component(0); f.AddFluxComponent(0); return f.Build(); }
Sp<double> rtest(MP m) { dp::ProductUniformFESpaceFactory<double> f(m); f.AddL2Component(0); f.AddL2Component(0); return f.Build(); }
// builders
template <class S> struct PairM { MatP<S> a, b; };
auto bld(Sp<double> r, Sp<double> t, CoefD a, CoefV v, CoefV u) { dp::ProductElementMatrixProviderBuilder<double> b(r, t); b.AddDiffusionElementMatrixProvider(1, 2, a).AddConvectionElementMatrixProvider(1, 1, v, u); b.AddTraceElementMatrixProvider(0, 1, v); auto p = b.Build(); b.AddReactionElementMatrixProvider(1, 0, a).AddFluxElementMatrixProvider(2, 2, a); auto q = b.Build(); return PairM<double>{p, q}; }
auto bld_a(const PairM<double>& p, const Entity& e) { return p.a->Eval(e); }
auto bld_b(const PairM<double>& p, const Entity& e) { return p.b->Eval(e); }
struct PairV { VecP<double> a, b; };
auto bldv(Sp<double> t, CoefD f, CoefD g) { dp::ProductElementVectorProviderBuilder<double> b(t); b.AddLoadElementVectorProvider(1, f).AddLoadElementVectorProvider(2, g); auto p = b.Build(); b.AddLoadElementVectorProvider(0, g); auto q = b.Build(); return PairV{p, q}; }
auto bldv_a(const PairV& p, const Entity& e) { return p.a->Eval(e); }
auto bldv_b(const PairV& p, const Entity& e) { return p.b->Eval(e); }
auto conv1(Sp<double> r, Sp<double> t, unsigned a, unsigned b, CoefV c, CoefV d, const Entity& e) { dp::ConvectionElementMatrixProvider<double, CoefV, CoefV> p(r, t, a, b, c, d); return p.Eval(e); }
unsigned start(const Sp<double>& s, const Entity& e, unsigned c) { return s->LocGlobMap().LocalStartIndex(e, c); }
}
'''


class DpgEnv(FemEnv):
    """opaque product spaces: shapes[(space, component)] = {type: (number of shape functions, degree)}"""

    def __init__(self, I, sk, shapes, **kw):
        self.shapes = shapes
        FemEnv.__init__(self, I, sk, **kw)
        I.nonnull |= {'ptrial', 'ptest', 'pfe'}

    def hook(self, I, e, f, o, name, args):
        if isinstance(o, Opq) and o.key in ('ptrial', 'ptest'):
            if name == 'Mesh':
                return Cell(self.sk.mesh())
            if name == 'ShapeFunctionLayout':
                x, k = I.rv(args[0]), int(num(I.rv(args[1])))
                t = self.etype(x) if isinstance(x, Opq) else self.rt(x)
                if t not in self.shapes[o.key, k]:
                    return Cell(None)
                return Cell(Opq('pfe:%s%d:%s' % (o.key, k, t), 'lf::fe::ScalarReferenceFiniteElement<%s>' % ('std::complex<double>' if self.z else 'double')))
            return NotImplemented
        if isinstance(o, Opq) and o.key.startswith('pfe:'):
            _, sp, t = o.key.split(':')
            n, p = self.shapes[sp[:-1], int(sp[-1])][t]
            M = I.rv(args[0]) if args else None
            if name == 'Degree':
                return Cell(p)
            if name == 'RefEl':
                return Cell(ref_el(I, t))
            if name == 'NumRefShapeFunctions':
                return Cell(n if not args or num(M) == 0 else 0)
            if name == 'EvalReferenceShapeFunctions':
                return Cell(cmat(n, M.cols, lambda i, j: self.b(sp + t, i, colkey(M, j)), self.z))
            if name == 'GradientsReferenceShapeFunctions':
                d = DIM[t]
                return Cell(cmat(n, M.cols * d, lambda i, j: self.gb(sp + t, i, j % d, colkey(M, j // d)), self.z))
            return NotImplemented
        return FemEnv.hook(self, I, e, f, o, name, args)


SUBS = [('diff_d', 'Diffusion', ['CoefD']), ('diff_z', 'Diffusion', ['CoefZ']), ('diff_m', 'Diffusion', ['CoefM']), ('diff_x', 'Diffusion', ['CoefX']),
        ('reac_d', 'Reaction', ['CoefD']), ('reac_z', 'Reaction', ['CoefZ']), ('conv_v', 'Convection', ['CoefV', 'CoefV']), ('conv_w', 'Convection', ['CoefW', 'CoefV']),
        ('flux_d', 'Flux', ['CoefD']), ('trace_v', 'Trace', ['CoefV']), ('trace_w', 'Trace', ['CoefW']), ('load_d', 'Load', ['CoefD']), ('load_z', 'Load', ['CoefZ'])]


def P04(pid):
    c = Check(pid, rule='Eval of the DPG element providers is abstractly interpreted. Volume providers (diffusion, reaction, convection, load): opaque cell, geometry, finite elements of trial and test component, coefficient and quadrature rule: every entry (row: test, column: trial function) is the quadrature sum of the weak form with a rule of at least the sum of the degrees. Flux and trace providers: real cells with symbolic rules and coefficients: sum over the edges with the determinants of the edge, the coefficient at the mapped points, the prescribed sign (flux: one block of columns per edge) resp. the outer normal (trace). Product providers: sum of the blocks of the active sub providers at the positions of their components. Builders: the product provider of the terms added since the last Build. DPG providers: B^T G^-1 B and B^T G^-1 l.')
    src = module_sources('lib/lf/mesh/utils', 'lib/lf/mesh', 'lib/lf/fe', 'lib/lf/uscalfe', 'lib/lf/assemble', 'lib/lf/geometry', 'lib/lf/base') + \
        dpg_files('lib/lf/quad/quad_rule_cache.cc', 'projects/dpg/product_dofhandler.cc', 'projects/dpg/dpg_tools.cc')
    P = export('dpgprov', unity(list(dict.fromkeys(src)), PROV % ((REPO,) * 5)))
    thorough = TIER == 'thorough'
    N = 'projects::dpg::'
    PTS = {'Tria': [[(0, 0), (4, 1), (1, 3)], [(2, 1), (0, 5), (-1, -2)], [(0, 0), (3, 0), (0, 4)]], 'Quad': [[(0, 0), (5, 1), (4, 4), (-1, 3)], [(1, 0), (-2, 3), (2, 4), (3, -1)]]}
    RSP, TSP = 'std::shared_ptr<projects::dpg::ProductUniformFESpace<double>>', 'std::shared_ptr<projects::dpg::ProductUniformFESpace<double>>'

    class Env(DpgEnv):
        def cval(self, typ, tag, en, key):
            b = 'c%d[%s]%s' % (tag, en.key, key)
            z, r, cc, fr, fc = COEF[typ]
            if not r:
                return mk(z, b)
            return cmat(r, cc, lambda i, j: mk(z, '%s.%d%d' % (b, min(i, j), max(i, j))), z == 'z', fr, fc)

        def hook(self, I, e, f, o, name, args):
            if isinstance(o, Opq) and o.key in ('ptrial', 'ptest') and name == 'LocGlobMap':
                return Cell(Opq('dof' + o.key, 'projects::dpg::ProductUniformFEDofHandler'))
            if isinstance(o, Opq) and o.key in ('dofptrial', 'dofptest') and name in ('NumLocalDofs', 'LocalStartIndex'):
                en = I.rv(args[0])
                n = self.nl(o.key[3:], en)
                if name == 'NumLocalDofs':
                    return Cell(sum(n) if len(args) == 1 else n[int(num(I.rv(args[1])))])
                return Cell(sum(n[:int(num(I.rv(args[1])))]))
            return DpgEnv.hook(self, I, e, f, o, name, args)

        def nl(self, sp, en):
            """number of local shape functions per component on a cell"""
            t = self.etype(en)
            r = []
            for (s, k), sh in sorted(self.shapes.items()):
                if s == sp:
                    r.append(sh[t][0] if t in sh else sh['Segment'][0] * len(CORN[t]))
            return r

    def setup(sk, shapes, z, world, geo):
        alg.reset()
        I = Interp(P)
        E = Env(I, sk, shapes, world=world, z=z)
        if geo is not None:
            for q in range(len(sk.cells)):
                E.realgeo[0, q] = Ptr(Cell(cgeo(I, sk.type(0, q), [geo[v] for v in sk.cells[q]])))
        sp = {s: Opq(s, RSP) for s in ('ptrial', 'ptest')}
        return I, E, sp

    def edge_rules(I, E, t, d):
        r = E.rule('Segment', d)
        L = I.rv(fcall(I, 'lfv::bqr', ref_el(I, t), Cell(r))).items
        return [I.rv(fcall(I, 'lfv::qpts', x)) for x in L], E.rulevals('Segment', d)

    def expected(I, E, en, kind, coefs, a, b, d, geo, tag0=1):
        """matrix of the documented (bi)linear form"""
        sk = E.sk
        t = E.etype(en)
        tr, te = E.shapes.get(('ptrial', a)), E.shapes['ptest', b]
        nt = te[t][0]
        if kind in ('Flux', 'Trace'):
            qi = sk.parse(en)[1]
            corners = [geo[v] for v in sk.cells[qi]]
            m = len(corners)
            pts, (sx, sw) = edge_rules(I, E, t, d)
            flux = kind == 'Flux'
            nr = tr['Segment'][0] * m if flux else tr[t][0]
            M = [[ZERO] * nr for _ in range(nt)]
            sgnp = Cell(obj(I, fcall(I, 'lfv::sp', sk.mesh()))) if flux else None
            o = 1 if area2(corners) > 0 else -1
            for s in range(m):
                ev = [F(corners[(s + 1) % m][x] - corners[s][x]) for x in (0, 1)]
                ln = alg.sqrt(C(ev[0]**2 + ev[1]**2))
                sg = I.rv(fcall(I, 'lfv::sgn', sgnp, Cell(en), Cell(sk.ent(1, sk.cedges[qi][s])))) if flux else None
                for k in range(E.npts):
                    ck = colkey(pts[s], k)
                    v = E.cval(coefs[0], tag0, en, ck)
                    w = sw.cells[k][0].v
                    for i in range(nt):
                        ti = E.b('ptest%d%s' % (b, t), i, ck)
                        if flux:
                            for j in range(tr['Segment'][0]):
                                M[i][s * tr['Segment'][0] + j] = num_add(M[i][s * tr['Segment'][0] + j], n_scale(v, w, ln, C(F(num(sg))), ti, E.b('ptrial%dSegment' % a, j, colkey(sx, k))))
                        else:
                            bn = num_add(num_mul(v.cells[0][0].v, C(ev[1] * o)), num_mul(v.cells[1][0].v, C(-ev[0] * o)))
                            for j in range(nr):
                                M[i][j] = num_add(M[i][j], n_scale(bn, w, ti, E.b('ptrial%d%s' % (a, t), j, ck)))
            return M
        pts, wts = E.rulevals(t, d)
        nr = 1 if kind == 'Load' else tr[t][0]
        M = [[ZERO] * nr for _ in range(nt)]
        dim = 2
        for k in range(E.npts):
            ck = colkey(pts, k)

            def grad(sp, i):
                r = []
                for x in range(E.world):
                    v = ZERO
                    for y in range(dim):
                        v = num_add(v, num_mul(S('JIG[%s]%s.%d%d' % (en.key, ck, x, y)), E.gb(sp, i, y, ck)))
                    r.append(v)
                return r
            wd = wts.cells[k][0].v * S('det[%s]%s' % (en.key, ck))
            cv = [E.cval(ct, tag0 + q, en, ck) for q, ct in enumerate(coefs)]
            T, R = 'ptest%d%s' % (b, t), 'ptrial%d%s' % (a, t)
            for i in range(nt):
                for j in range(nr):
                    if kind == 'Load':
                        x = n_scale(cv[0], wd, E.b(T, i, ck))
                    elif kind == 'Reaction':
                        x = n_scale(cv[0], wd, E.b(T, i, ck), E.b(R, j, ck))
                    elif kind == 'Diffusion':
                        gi, gj = grad(T, i), grad(R, j)
                        x = ZERO
                        for p in range(E.world):
                            for q in range(E.world):
                                al = cv[0].cells[p][q].v if isinstance(cv[0], Mat) else cv[0] if p == q else None
                                if al is not None:
                                    x = num_add(x, n_scale(al, wd, gi[p], gj[q]))
                    else:
                        gi, gj = grad(T, i), grad(R, j)
                        x = ZERO
                        for p in range(E.world):
                            x = num_add(x, n_scale(cv[0].cells[p][0].v, wd, gi[p], E.b(R, j, ck)))
                            x = num_add(x, n_scale(cv[1].cells[p][0].v, wd, gj[p], E.b(T, i, ck)))
                    M[i][j] = num_add(M[i][j], x)
        return M

    def cmp(key, w, M, ex, msg):
        if c.require(key + '/size', w, (M.rows, M.cols) == (len(ex), len(ex[0])), 'the result is %dx%d instead of %dx%d' % (M.rows, M.cols, len(ex), len(ex[0]))):
            for i in range(len(ex)):
                for j in range(len(ex[0])):
                    c.equal('%s/(%d,%d)' % (key, i, j), w, M.cells[i][j].v, ex[i][j], None, msg % (i, j))

    def sub(job):
        (fn, kind, coefs), (name, qi, gi), a, b, (pr, pt_), (nr, nt), world = job
        sk = [s for s in skels(True) if s.name == name][0]
        t = sk.type(0, qi)
        bnd = kind in ('Flux', 'Trace')
        shapes = {('ptest', b): {t: (nt, pt_)}}
        if kind == 'Flux':
            shapes['ptrial', a] = {'Segment': (nr, pr)}
        elif kind != 'Load':
            shapes['ptrial', a] = {t: (nr, pr)}
        for k in shapes:
            if k[0] == 'ptest' or kind != 'Flux':
                for tt in ('Tria', 'Quad'):
                    shapes[k].setdefault(tt, (2, 1))
        geo = None
        if bnd:
            geo = GEO[name] if gi >= 0 else [(-x, y) for x, y in GEO[name]]
            if name in 'TQ' and gi > 0:
                L = PTS[t]
                geo = L[gi % len(L)]
        I, E, sp = setup(sk, shapes, fn.endswith('_z'), world, geo)
        w = wsrc(P, N + kind + 'Element%sProvider::Eval' % ('Vector' if kind == 'Load' else 'Matrix'))
        en = sk.ent(0, qi)
        key = '%s/%s%d.%d/%d,%d/p%d,%d/n%d,%d/%dD' % (fn, name, qi, gi, a, b, pr, pt_, nr, nt, world)

        def run():
            cf = [E.newcoef(ct, k + 1) for k, ct in enumerate(coefs)]
            args = ([sp['ptest'], b] if kind == 'Load' else [sp['ptrial'], sp['ptest'], a, b]) + cf + [en]
            M = I.rv(fcall(I, 'lfv::' + fn, *args))
            rt = 'Segment' if bnd else t
            ds = [x for x in E.asked.get(rt, [])]
            if not c.require(key + '/rule', w, bool(ds), 'no quadrature rule for the reference element %s is requested' % rt):
                return
            need = 2 * pt_ if kind == 'Load' else pr + pt_
            good = [x for x in ds if x >= need]
            if not c.require(key + '/degree', w, bool(good), 'the rules have the degrees %s for components of degree %d and %d' % (ds, pr, pt_)):
                return
            # the rule of this cell type: degrees of the other type are smaller
            ex = expected(I, E, en, kind, coefs, a, b, max(good), geo)
            cmp(key, w, M, ex, 'entry (%d,%d) is not the quadrature sum of the weak form')
            c.require(key + '/active', w, I.rv(fcall(I, 'lfv::%s_act' % fn, *args)) is True, 'isActive is not constantly true')
            c.require(key + '/test component', w, same(I.rv(fcall(I, 'lfv::%s_test' % fn, *args)), b), 'TestComponent() is another component')
            if kind != 'Load':
                c.require(key + '/trial component', w, same(I.rv(fcall(I, 'lfv::%s_trial' % fn, *args)), a), 'TrialComponent() is another component')
        c.attempt(key, w, run)
        c.no_abort_atoms(key, I, ('affine(', 'mesh:or', 'x', 'w'))
        c.cover(I)

    def mocks(I, sk, on, dims):
        def m(tag, en, r_, c_):
            return lambda i, j: S('m%d[%s].%d%d' % (tag, en.key, i, j)) if tag < 10 or tag >= 20 else C(F(random.Random('%d%s%s' % (tag, en.key, sorted((i, j)))).randint(-2, 2), 3)) if i != j else C(F(7 + i))

        def mm(I_, e, ob, a):
            tag, en = int(num(I_.rv(a[0]))), I_.rv(a[1])
            r_, c_ = dims(tag, en)
            return Cell(cmat(r_, c_, m(tag, en, r_, c_)))

        def mv(I_, e, ob, a):
            tag, en = int(num(I_.rv(a[0]))), I_.rv(a[1])
            r_, _ = dims(tag, en)
            return Cell(cmat(r_, 1, m(tag, en, r_, 1), fc=1))
        I.hooks['lfv::mockm'] = mm
        I.hooks['lfv::mockv'] = mv
        I.hooks['lfv::mocka'] = lambda I_, e, ob, a: Cell(on[int(num(I_.rv(a[0]))) % 10])
        return m

    def product(job):
        what, name, mask = job
        sk = [s for s in skels(True) if s.name == name][0]
        alg.reset()
        I = Interp(P)
        sk.install(I)
        I.nonnull.add(sk.key)
        on = [bool(mask >> k & 1) for k in range(4)]
        key = '%s/%s/%d' % (what, name, mask)
        w = wsrc(P, N + {'pm': 'ProductElementMatrixProvider', 'pv': 'ProductElementVectorProvider', 'dm': 'DpgElementMatrixProvider', 'dv': 'DpgElementVectorProvider'}[what] + '::Eval')

        def run():
            dpg = what in ('dm', 'dv')
            tr = fcall(I, 'lfv::rtrial' if dpg else 'lfv::trial', sk.mesh())
            te = fcall(I, 'lfv::rtest' if dpg else 'lfv::test', sk.mesh())
            nc = lambda s, en, k: int(num(I.rv(fcall(I, 'lfv::nloc', Cell(s), Cell(en), k))))   # noqa
            MB = {0: (0, 0), 1: (2, 1), 2: (1, 2), 3: (2, 1)} if what in ('pm', 'dm', 'dv') else {}
            VB = {0: 1, 1: 0, 2: 2, 3: 1}

            def dims(tag, en):
                if tag >= 20:
                    return nc(te, en, tag - 20), 1
                if tag >= 10:
                    return nc(te, en, tag - 10), nc(te, en, tag - 10)
                if what == 'pv':
                    return nc(te, en, VB[tag]), 1
                a, b = MB[tag]
                return nc(te, en, b), nc(tr, en, a)
            m = mocks(I, sk, on, dims)
            for q in range(len(sk.cells)):
                en = sk.ent(0, q)
                ntc = [nc(te, en, k) for k in range(2 if dpg else 3)]
                nrc = [nc(tr, en, k) for k in range(3)]

                def block(pairs, nr_, nt_):
                    M = [[ZERO] * (sum(nr_) if nr_ else 1) for _ in range(sum(nt_))]
                    for tag, (a, b) in pairs:
                        if not on[tag % 10]:
                            continue
                        f = m(tag, en, 0, 0)
                        for i in range(nt_[b]):
                            for j in range(nr_[a] if nr_ else 1):
                                x, y = sum(nt_[:b]) + i, sum(nr_[:a]) + j if nr_ else 0
                                M[x][y] = num_add(M[x][y], f(i, j))
                    return M
                args = [tr, te] if what != 'pv' else [te]
                R = I.rv(fcall(I, 'lfv::' + what, *args, en))
                k = '%s/cell%d' % (key, q)
                if what == 'pm':
                    ex = block(MB.items(), nrc, ntc)
                elif what == 'pv':
                    ex = block([(t_, (0, b)) for t_, b in VB.items()], None, ntc)
                else:
                    B = block([(0, (0, 0)), (1, (2, 1))], nrc, ntc)
                    G = block([(10, (0, 0)), (11, (1, 1))], ntc, ntc)
                    Gi = eigen.inverse(cmat(len(G), len(G), lambda i, j: G[i][j]))
                    X = B if what == 'dm' else block([(20, (0, 0)), (21, (0, 1))], None, ntc)
                    ex = [[ZERO] * len(X[0]) for _ in B[0]]
                    for i in range(len(B[0])):
                        for j in range(len(X[0])):
                            for p in range(len(B)):
                                for r in range(len(B)):
                                    ex[i][j] = num_add(ex[i][j], n_scale(B[p][i], Gi.cells[p][r].v, X[r][j]))
                cmp(k, w, R, ex, {'pm': 'entry (%d,%d) is not the sum of the blocks of the active sub providers', 'pv': 'entry (%d,%d) is not the sum of the segments of the active sub providers', 'dm': 'entry (%d,%d) is not that of B^T G^-1 B', 'dv': 'entry (%d,%d) is not that of B^T G^-1 l'}[what])
                if not dpg:
                    c.require(k + '/active', w, I.rv(fcall(I, 'lfv::%sa' % what, *args, en)) is True, 'isActive is not constantly true')
        c.attempt(key, w, run)
        c.no_abort(key, I, lambda i: {})
        c.cover(I)

    def build(job):
        what, name, qi = job
        sk = [s for s in skels(True) if s.name == name][0]
        t = sk.type(0, qi)
        al = lambda n, p: {'Tria': (n, p), 'Quad': (n, p)}   # noqa
        shapes = {('ptrial', 0): al(3, 1), ('ptrial', 1): al(1, 1), ('ptrial', 2): {'Segment': (1, 0)}, ('ptest', 0): al(2, 2), ('ptest', 1): al(1, 1), ('ptest', 2): al(2, 3)}
        geo = GEO[name]
        I, E, sp = setup(sk, shapes, False, 2, None)
        E.npts = 1
        key = 'builder/%s/%s%d' % (what, name, qi)
        w = wsrc(P, N + 'ProductElement%sProviderBuilder::Build' % ('Matrix' if what == 'bld' else 'Vector'))
        en = sk.ent(0, qi)

        def run():
            # the terms of the sum are evaluated by the sub providers (decided above)
            nr, nt = E.nl('ptrial', en), E.nl('ptest', en)

            def place(ex, M, a, b):
                for i in range(M.rows):
                    for j in range(M.cols):
                        x, y = sum(nt[:b]) + i, sum(nr[:a]) + j if what == 'bld' else 0
                        ex[x][y] = num_add(ex[x][y], M.cells[i][j].v)
            E.realgeo.update({(0, q): Ptr(Cell(cgeo(I, sk.type(0, q), [geo[v] for v in sk.cells[q]]))) for q in range(len(sk.cells))})
            if what == 'bld':
                A, V, U = E.newcoef('CoefD', 1), E.newcoef('CoefV', 2), E.newcoef('CoefV', 3)
                B = Cell(fcall(I, 'lfv::bld', sp['ptrial'], sp['ptest'], A, V, U))
                parts = {'a': [('diff_d', 1, 2, [A]), ('conv_v', 1, 1, [V, U]), ('trace_v', 0, 1, [V])], 'b': [('reac_d', 1, 0, [A]), ('flux_d', 2, 2, [A])]}
            else:
                A, V = E.newcoef('CoefD', 1), E.newcoef('CoefD', 2)
                B = Cell(fcall(I, 'lfv::bldv', sp['ptest'], A, V))
                parts = {'a': [('load_d', 1, A), ('load_d', 2, V)], 'b': [('load_d', 0, V)]}
            for h, L in parts.items():
                ex = [[ZERO] * (sum(nr) if what == 'bld' else 1) for _ in range(sum(nt))]
                for p in L:
                    if what == 'bld':
                        place(ex, I.rv(fcall(I, 'lfv::' + p[0], sp['ptrial'], sp['ptest'], p[1], p[2], *[copy_val(x) for x in p[3]], en)), p[1], p[2])
                    else:
                        place(ex, I.rv(fcall(I, 'lfv::' + p[0], sp['ptest'], p[1], copy_val(p[2]), en)), 0, p[1])
                R = I.rv(fcall(I, 'lfv::%s_%s' % (what, h), B, Cell(en)))
                cmp('%s/%s' % (key, h), w, R, ex, 'entry (%d,%d) of the %s provider built is not the sum of the terms added for it'.replace('%s', 'first' if h == 'a' else 'second'))
        c.attempt(key, w, run)
        c.no_abort_atoms(key, I, ('affine(', 'mesh:or', 'x', 'w'))
        c.cover(I)

    jobs = []
    cellsV = [('T', 0, 0), ('Q', 0, 0)]
    cellsB = [('T', 0, 0), ('Q', 0, 0), ('T', 0, 1), ('Q', 0, 1), ('TQ', 0, 0), ('TQ', 1, -1), ('QT', 1, 0), ('QT', 0, -1)]
    dg = [((1, 3), (1, 2), 0, 1), ((2, 1), (2, 3), 2, 0), ((1, 2), (2, 2), 1, 2)] + ([((0, 2), (3, 2), 1, 1), ((3, 3), (2, 2), 1, 0)] if thorough else [])
    for s in SUBS:
        for ce in (cellsB if s[1] in ('Flux', 'Trace') else cellsV):
            for (pr, pt_), (nr, nt), a, b in dg:
                for world in ((2, 3) if s[1] in ('Reaction', 'Load') or s[0] in ('diff_d', 'diff_z') else (2,)):
                    jobs.append(('sub', s, ce, a, b, (pr, pt_), (nr, nt), world))
    jobs += [('product', (k, n, m)) for k in ('pm', 'pv') for n in ('T', 'Q', 'TQ') for m in ((15, 6, 9, 0) if n != 'TQ' or thorough else (15, 5))]
    jobs += [('product', (k, n, 15)) for k in ('dm', 'dv') for n in ('T', 'Q', 'TQ')]
    jobs += [('build', (k, n, q)) for k in ('bld', 'bldv') for n, q in (('T', 0), ('TQ', 0), ('TQ', 1))]

    def one(j):
        if j[0] == 'sub':
            sub(j[1:])
        elif j[0] == 'product':
            product(j[1])
        else:
            build(j[1])
    c.par(jobs, one)
    return c.finish(300)
