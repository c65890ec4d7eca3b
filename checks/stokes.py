"""projects/ipdg_stokes: S01 (mesh helpers), S02 (element matrices, systems of equations), S03 (post-processing)"""
import math
import zlib
from femod import *
from hier import obj
from dpg import dpg_files, cgeo, area2
from meshes import factory, ents, at

ST = 'projects/ipdg_stokes/'
NS = 'projects::ipdg_stokes::'
FL_ = tuple('-I' + os.path.join(REPO, ST, d) for d in ('mesh', 'assemble', 'post_processing'))

MESHT = '''
#include "%s/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.h"
#include "%s/projects/ipdg_stokes/mesh/utils.h"
#include "%s/lib/lf/mesh/hybrid2d/hybrid2d.h"
namespace lfv {
namespace st = projects::ipdg_stokes;
auto normals(const lf::mesh::Entity& e) { return st::mesh::computeOutwardNormals(e); }
auto tangs(const lf::mesh::Entity& e) { return st::mesh::computeTangentials(e); }
struct Ann { unsigned nr, na; double r, R, x, y; int set; };
std::shared_ptr<lf::mesh::Mesh> annulus(unsigned nr, unsigned na, double r, double R, double x, double y, int order) {
  st::mesh::AnnulusTriagMeshBuilder b(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2));
  if (order == 0) { b.setInnerRadius(r); b.setOuterRadius(R); b.setCenterPoint(x, y); b.setNumRadialCells(nr); b.setNumAngularCells(na); }
  else { b.setNumAngularCells(na); b.setNumRadialCells(nr); b.setCenterPoint(0, 7); b.setCenterPoint(x, y); b.setOuterRadius(R); b.setInnerRadius(r); }
  return b.Build();
}
std::shared_ptr<lf::mesh::Mesh> annulus_default() { return st::mesh::AnnulusTriagMeshBuilder(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2)).Build(); }
}
'''

SYS = '''
#include "%s/projects/ipdg_stokes/assemble/build_system_matrix.h"
#include "%s/projects/ipdg_stokes/assemble/offset_function.h"
#include "%s/projects/ipdg_stokes/assemble/piecewise_const_element_matrix_provider.h"
#include "%s/projects/ipdg_stokes/assemble/piecewise_const_element_vector_provider.h"
#include "%s/projects/ipdg_stokes/post_processing/mesh_function_velocity.h"
#include "%s/projects/ipdg_stokes/post_processing/norms.h"
#include "%s/projects/ipdg_stokes/post_processing/solution_to_mesh_data_set.h"
namespace lfv {
namespace sa = projects::ipdg_stokes::assemble;
namespace sp = projects::ipdg_stokes::post_processing;
using MP = std::shared_ptr<const lf::mesh::Mesh>;
using lf::base::RefEl;
using lf::mesh::Entity;
struct Force { Eigen::Vector2d operator()(const Eigen::Vector2d& x) const; };
struct Dir { Eigen::Vector2d operator()(const Entity& e) const; };
struct QSel { lf::quad::QuadRule operator()(const Entity& e) const; };
struct MFV { std::vector<Eigen::Vector2d> operator()(const Entity& e, const Eigen::MatrixXd& p) const; };
struct MFM { std::vector<Eigen::Matrix2d> operator()(const Entity& e, const Eigen::MatrixXd& p) const; };
struct CoefD { std::vector<double> operator()(const Entity& e, const Eigen::MatrixXd& p) const; };
lf::quad::QuadRule mkrule(RefEl r, Eigen::MatrixXd p, Eigen::VectorXd w, unsigned d) { return lf::quad::QuadRule(r, std::move(p), std::move(w), d); }
std::shared_ptr<lf::assemble::UniformFEDofHandler> dh(MP m) { return std::make_shared<lf::assemble::UniformFEDofHandler>(m, std::map<RefEl, lf::base::size_type>{{RefEl::kPoint(), 1}, {RefEl::kSegment(), 1}}); }
std::shared_ptr<lf::mesh::utils::CodimMeshDataSet<bool>> flags(MP m, int c) { return std::make_shared<lf::mesh::utils::CodimMeshDataSet<bool>>(lf::mesh::utils::flagEntitiesOnBoundary(m, c)); }
std::shared_ptr<lf::mesh::utils::AllCodimMeshDataSet<bool>> flagsa(MP m) { return std::make_shared<lf::mesh::utils::AllCodimMeshDataSet<bool>>(lf::mesh::utils::flagEntitiesOnBoundary(m)); }
std::shared_ptr<lf::mesh::utils::CodimMeshDataSet<Eigen::Vector2d>> dirds(MP m) { auto r = std::make_shared<lf::mesh::utils::CodimMeshDataSet<Eigen::Vector2d>>(m, 1); Dir d; for (const auto* e : m->Entities(1)) (*r)(*e) = d(*e); return r; }
using DB = lf::mesh::utils::MeshDataSet<bool>;
auto mat(double s, const DB& b, bool m, const Entity& e) { return sa::PiecewiseConstElementMatrixProvider(s, b, m).Eval(e); }
auto mat1(double s, const DB& b, const Entity& e) { return sa::PiecewiseConstElementMatrixProvider(s, b).Eval(e); }
bool matact(double s, const DB& b, const Entity& e) { return sa::PiecewiseConstElementMatrixProvider(s, b).isActive(e); }
auto vec(double s, lf::quad::QuadRule q, const DB& b, const lf::mesh::utils::MeshDataSet<Eigen::Vector2d>& d, const Entity& e) { return sa::PiecewiseConstElementVectorProvider(s, Force{}, q, b, d).Eval(e); }
auto nofl(MP m, const lf::assemble::DofHandler& h, double s, lf::quad::QuadRule q, bool mod) { return sa::buildSystemMatrixNoFlow(m, h, Force{}, Dir{}, s, q, mod); }
auto inout(MP m, const lf::assemble::DofHandler& h, double s, lf::quad::QuadRule q, bool mod) { return sa::buildSystemMatrixInOutFlow(m, h, Force{}, Dir{}, s, q, mod); }
Eigen::MatrixXd dense0(const std::tuple<lf::assemble::COOMatrix<double>, Eigen::VectorXd>& t) { return std::get<0>(t).makeDense(); }
Eigen::VectorXd rhs0(const std::tuple<lf::assemble::COOMatrix<double>, Eigen::VectorXd>& t) { return std::get<1>(t); }
Eigen::MatrixXd dense1(const std::tuple<lf::assemble::COOMatrix<double>, Eigen::VectorXd, Eigen::VectorXd>& t) { return std::get<0>(t).makeDense(); }
Eigen::VectorXd rhs1(const std::tuple<lf::assemble::COOMatrix<double>, Eigen::VectorXd, Eigen::VectorXd>& t) { return std::get<1>(t); }
Eigen::VectorXd off1(const std::tuple<lf::assemble::COOMatrix<double>, Eigen::VectorXd, Eigen::VectorXd>& t) { return std::get<2>(t); }
double cf(MP m, const lf::assemble::DofHandler& h, const Eigen::VectorXd& x, const Entity& e) { return sp::extractBasisFunctionCoefficients(m, h, x)(e); }
Eigen::Vector2d vel(MP m, const lf::assemble::DofHandler& h, const Eigen::VectorXd& x, const Entity& e) { return sp::extractVelocity(m, h, x)(e); }
auto mfv(std::shared_ptr<const lf::uscalfe::UniformScalarFESpace<double>> s, const Eigen::VectorXd& x, const Entity& e, const Eigen::MatrixXd& p) { return sp::MeshFunctionVelocity(s, x)(e, p); }
double l2(MP m) { return sp::L2norm(m, MFV{}, QSel{}); }
double dg(MP m) { return sp::DGnorm(m, MFV{}, MFM{}, QSel{}); }
}
'''


class Vals(dict):
    """sample value of every symbol"""

    def __init__(self, i):
        dict.__init__(self)
        self.i = i

    def __missing__(self, k):
        return F(1 + zlib.crc32(('%s#%d' % (k, self.i)).encode()) % 40, 7)

    def get(self, k, d=None):
        return self[k]

    def __contains__(self, k):
        return True

    def __bool__(self):
        return True


def ev(i):
    return Vals(i)


def src(*extra):
    return list(dict.fromkeys(module_sources('lib/lf/mesh/utils', 'lib/lf/mesh', 'lib/lf/fe', 'lib/lf/uscalfe', 'lib/lf/assemble', 'lib/lf/geometry', 'lib/lf/base') + dpg_files('lib/lf/quad/quad_rule_cache.cc') + list(extra)))


def mesh_st_unit():
    s = module_sources('lib/lf/mesh/hybrid2d', 'lib/lf/mesh/utils', 'lib/lf/mesh', 'lib/lf/geometry', 'lib/lf/base') + module_sources(ST + 'mesh')
    return export('stmesh', unity(list(dict.fromkeys(s)), MESHT % ((REPO,) * 3)), flags=FL_)


def sys_unit():
    return export('stsys', unity(src(*(module_sources(ST + 'mesh') + module_sources(ST + 'assemble') + module_sources(ST + 'post_processing'))), SYS % ((REPO,) * 7)), flags=FL_)


TRI = [[(0, 0), (4, 0), (0, 3)], [(0, 0), (4, 1), (1, 3)], [(2, 1), (0, 5), (-1, -2)], [(1, 0), (-2, 3), (2, 4)], [(0, 0), (0, 3), (4, 0)]]


def unit_normal(P, j):
    """outer unit normal of edge j of the triangle with rational corners"""
    n = len(P)
    e = [P[(j + 1) % n][d] - P[j][d] for d in (0, 1)]
    s = 1 if area2(P) > 0 else -1
    l = alg.sqrt(C(F(e[0]**2 + e[1]**2)))
    return [C(F(e[1] * s)) / l, C(F(-e[0] * s)) / l], l


def hat_grad(P, i):
    """gradient of the barycentric coordinate of corner i"""
    a, b = P[(i + 1) % 3], P[(i + 2) % 3]
    A = area2(P)
    return [F(a[1] - b[1], A), F(b[0] - a[0], A)]


def S01(pid):
    c = Check(pid, rule='computeOutwardNormals / computeTangentials are abstractly interpreted for a triangle with symbolic corners (both orientations) and for concrete triangles: unit vectors orthogonal to the edges pointing away from the opposite corner, tangentials are the normals turned by 90 degrees. AnnulusTriagMeshBuilder::Build is interpreted with symbolic radii and center for several numbers of cells: the nodes, triangles and geometries are those of the documented annulus.')
    P = mesh_st_unit()
    W = {n: wsrc(P, NS + 'mesh::' + n) for n in ('computeOutwardNormals', 'computeTangentials', 'AnnulusTriagMeshBuilder::Build')}

    def env(I, pts):
        sk = Skel('T', 3, [(0, 1, 2)])
        sk.install(I)
        g = Cell(cgeo(I, 'Tria', pts))

        def geo(I_, e, f, o, name, args):
            if sk.parse(o) == (0, 0) and name == 'Geometry':
                return Cell(Ptr(g))
            return NotImplemented
        I.opq_hooks.append(geo)
        return Cell(sk.ent(0, 0))

    def tri(j):
        pts = j
        alg.reset()
        I = Interp(P)
        key = 'triangle/%s' % (pts if pts else 'symbolic')

        def samp(i):
            r = random.Random(i)
            while True:
                d = {'v%d_%d' % (k, a): F(r.randint(-40, 40), 7) for k in range(3) for a in (0, 1)}
                if area2([(d['v%d_0' % k], d['v%d_1' % k]) for k in range(3)]):
                    return d

        def run():
            x = [[S('v%d_%d' % (k, a)) for a in (0, 1)] for k in range(3)] if not pts else [[C(F(v)) for v in p] for p in pts]
            en = env(I, x)
            N = I.rv(fcall(I, 'lfv::normals', en))
            T = I.rv(fcall(I, 'lfv::tangs', en))
            D = (x[1][0] - x[0][0]) * (x[2][1] - x[0][1]) - (x[2][0] - x[0][0]) * (x[1][1] - x[0][1])
            for j in range(3):
                e = [x[(j + 1) % 3][a] - x[j][a] for a in (0, 1)]
                l = alg.sqrt(e[0] * e[0] + e[1] * e[1])
                if not pts:
                    nn, tt = [[to_rf(M.cells[a][j].v) for a in (0, 1)] for M in (N, T)]
                    c.equal('%s/normal%d.e' % (key, j), W['computeOutwardNormals'], nn[0] * e[0] + nn[1] * e[1], ZERO, samp, 'column %d is not orthogonal to edge %d' % (j, j))
                    c.equal('%s/normal%d.unit' % (key, j), W['computeOutwardNormals'], nn[0] * nn[0] + nn[1] * nn[1], C(F(1)), samp, 'column %d is not a unit vector' % j)
                    # unit vectors orthogonal to the edge that depend continuously on the corners: the side is constant on the triangles of one orientation
                    d = [x[(j + 2) % 3][a] - x[j][a] for a in (0, 1)]
                    v = nn[0] * d[0] + nn[1] * d[1]
                    c.require('%s/normal%d.side' % (key, j), W['computeOutwardNormals'], all(float(evalnum(v, Env(samp(i)))) < 0 for i in range(12)), 'column %d points into the triangle' % j)
                    c.equal('%s/tangential%d.0' % (key, j), W['computeTangentials'], tt[0], ZERO - nn[1], samp, 'column %d is not the normal of edge %d turned by 90 degrees' % (j, j))
                    c.equal('%s/tangential%d.1' % (key, j), W['computeTangentials'], tt[1], nn[0], samp, 'column %d is not the normal of edge %d turned by 90 degrees' % (j, j))
                    continue
                ex = [v / l if area2(pts) > 0 else ZERO - v / l for v in (e[1], ZERO - e[0])]
                for a in (0, 1):
                    c.equal('%s/normal%d.%d' % (key, j, a), W['computeOutwardNormals'], N.cells[a][j].v, ex[a], None, 'column %d is not the outer unit normal of edge %d' % (j, j))
                for a, v in ((0, ZERO - ex[1]), (1, ex[0])):
                    c.equal('%s/tangential%d.%d' % (key, j, a), W['computeTangentials'], T.cells[a][j].v, v, None, 'column %d is not the normal of edge %d turned by 90 degrees' % (j, j))
        c.attempt(key, W['computeOutwardNormals'], run)
        c.no_abort(key, I, samp)
        c.cover(I)
    c.par([None] + TRI, tri)

    def ann(j):
        nr, na, order, num_ = j
        alg.reset()
        I = Interp(P)
        key = 'annulus/%dx%d/%s%d' % (nr, na, num_, order)
        w = W['AnnulusTriagMeshBuilder::Build']
        I.assume_known = [Cond('lt', ZERO - S('r')), Cond('lt', S('r') - S('R'))]

        def samp(i):
            r = random.Random(i)
            a = F(r.randint(1, 40), 7)
            return {'r': a, 'R': a + F(r.randint(1, 40), 7), 'cx': F(r.randint(-9, 9), 2), 'cy': F(r.randint(-9, 9), 2)}

        def run():
            if num_ == 'default':
                m = obj(I, fcall(I, 'lfv::annulus_default'))
                r, R, cx, cy = C(F(1, 4)), C(F(1)), ZERO, ZERO
            else:
                r, R, cx, cy = S('r'), S('R'), S('cx'), S('cy')
                m = obj(I, fcall(I, 'lfv::annulus', nr, na, r, R, cx, cy, order))
            E0, E1, E2 = (ents(I, m, k) for k in (0, 1, 2))
            if not c.require(key + '/counts', w, (len(E0), len(E1), len(E2)) == (2 * na * nr, 3 * na * nr + na, na * (nr + 1)), 'the mesh has %d cells, %d edges and %d nodes' % (len(E0), len(E1), len(E2))):
                return

            envs = [samp(i) for i in range(3)]

            def pos(k, v):
                q, a = divmod(k, na)
                g = {n: float(evalnum(to_rf(x), Env(v))) for n, x in (('r', r), ('R', R), ('cx', cx), ('cy', cy))}
                rad = g['r'] + (g['R'] - g['r']) * q / nr
                return g['cx'] + rad * math.cos(2 * math.pi * a / na), g['cy'] + rad * math.sin(2 * math.pi * a / na)
            grid = [[pos(k, v) for v in envs] for k in range(na * (nr + 1))]

            def same_pt(M, col, want):
                return all(abs(float(evalnum(to_rf(M.cells[d][col].v), Env(v))) - want[i][d]) < 1e-9 for i, v in enumerate(envs) for d in (0, 1))
            # nodes: every grid point exactly once
            where_ = {}
            for q, en in enumerate(E2):
                M = mcall(I, obj(I, mcall(I, obj(I, en), 'Geometry')), 'Global', eigen.new_mat(0, 1))
                hits = [k for k in range(len(grid)) if same_pt(M, 0, grid[k])]
                if c.require('%s/node%d' % (key, q), w, len(hits) == 1 and hits[0] not in where_.values(), 'node %d of the mesh lies at (%s, %s), which is not a (new) grid point of the annulus' % (q, txt(M.cells[0][0].v), txt(M.cells[1][0].v))):
                    where_[q] = hits[0]
            if len(where_) < len(E2):
                return
            quads = {}
            for q, en in enumerate(E0):
                o = obj(I, en)
                subs = [int(num(I.rv(mcall(I, m, 'Index', obj(I, s))))) for s in mcall(I, o, 'SubEntities', 2).items]
                k = [where_[s] for s in subs]
                rr, aa = [x // na for x in k], [x % na for x in k]
                lo = min(rr)
                # the quadrilateral of the grid the triangle belongs to
                cand = [a for a in range(na) if set(aa) <= {a, (a + 1) % na}]
                ok = len(k) == 3 and set(rr) == {lo, lo + 1} and len(set(k)) == 3 and len(cand) >= 1
                c.require('%s/cell%d' % (key, q), w, ok, 'cell %d connects the grid points %s (radial, angular)' % (q, list(zip(rr, aa))))
                if ok:
                    quads.setdefault((lo, cand[0] if len(cand) == 1 else tuple(cand)), []).append(frozenset(k))
                M = I.rv(at(I, o, [(0, 0), (1, 0), (0, 1)]))
                c.require('%s/geometry%d' % (key, q), w, len(k) == 3 and all(same_pt(M, i, grid[k[i]]) for i in range(3)), 'the geometry of cell %d does not fit its nodes' % q)
            if na > 2:
                good = len(quads) == nr * na and all(len(v) == 2 and len(v[0] & v[1]) == 2 and len(v[0] | v[1]) == 4 for v in quads.values())
                # the common edge has to be a diagonal
                good = good and all(len({x // na for x in v[0] & v[1]}) == 2 and len({x % na for x in v[0] & v[1]}) == 2 for v in quads.values())
                c.require(key + '/cells', w, good, 'the triangles do not split every cell of the grid along a diagonal')
        c.attempt(key, w, run)
        c.no_abort(key, I, samp)
        c.cover(I)
    L = [(1, 3, 0, 'n'), (2, 3, 0, 'n'), (1, 4, 1, 'n'), (2, 4, 0, 'n'), (3, 5, 1, 'n'), (1, 4, 0, 'default'), (2, 6, 1, 'n')]
    if TIER == 'thorough':
        L += [(4, 7, 0, 'n'), (2, 12, 1, 'n'), (5, 4, 0, 'n'), (1, 9, 0, 'n')]
    c.par(L, ann)
    return c.finish(60)


# meshes of triangles (counter-clockwise and clockwise, edges of either direction) with rational edge lengths
SM = {'T': ([(0, 0), (4, 0), (0, 3)], [(0, 1, 2)], []), 'Tcw': ([(0, 0), (0, 3), (4, 0)], [(0, 1, 2)], [(2, 1)]),
      'TT': ([(0, 0), (4, 0), (0, 3), (4, 3)], [(0, 1, 2), (3, 2, 1)], [(2, 1), (3, 1)]),
      'fan': ([(0, 0), (4, 3), (-4, 3), (-4, -3), (4, -3)], [(1, 2, 0), (3, 0, 2), (0, 3, 4), (4, 1, 0)], [(3, 0), (1, 0), (2, 3)]),
      'strip': ([(0, 0), (4, 0), (8, 0), (0, 3), (4, 3), (8, 3)], [(0, 1, 3), (1, 4, 3), (1, 2, 5), (5, 4, 1)], [(4, 1), (5, 2)])}
IRR = {'TI': ([(0, 0), (4, 1), (1, 3)], [(0, 1, 2)], []), 'TTI': ([(0, 0), (3, -1), (1, 2), (4, 4)], [(0, 1, 2), (2, 3, 1)], [(2, 0), (1, 2)])}


class StEnv(FemEnv):
    def __init__(self, P, spec, npts=2):
        pts, cells, edges = spec
        self.pts = pts
        alg.reset()
        I = Interp(P)
        sk = Skel('S', len(pts), cells, edges=edges)
        FemEnv.__init__(self, I, sk, npts=npts)
        I.nonnull.add(sk.key)
        for i, cl in enumerate(sk.cells):
            self.realgeo[0, i] = Ptr(Cell(cgeo(I, 'Tria', [pts[v] for v in cl])))
        for i, e in enumerate(sk.edges):
            self.realgeo[1, i] = Ptr(Cell(cgeo(I, 'Segment', [pts[v] for v in e])))
        for i in range(len(pts)):
            self.realgeo[2, i] = Ptr(Cell(new(I, 'lf::geometry::Point', eigen.new_mat(2, 1, -1, 1, 'double', False, lambda a, b: C(F(pts[i][a]))))))
        I.hooks['lfv::Force::operator()'] = lambda I_, e, ob, a: Cell(self.force(I_.rv(a[0])))
        I.hooks['lfv::Dir::operator()'] = lambda I_, e, ob, a: Cell(self.dirv(I_.rv(a[0])))
        I.hooks['lfv::MFV::operator()'] = lambda I_, e, ob, a: Cell(self.mf(I_.rv(a[0]), I_.rv(a[1]), False))
        I.hooks['lfv::MFM::operator()'] = lambda I_, e, ob, a: Cell(self.mf(I_.rv(a[0]), I_.rv(a[1]), True))
        self.asked = set()
        self.dirvals = None
        adj = {}
        for q, ce in enumerate(sk.cedges):
            for k, e in enumerate(ce):
                adj.setdefault(e, []).append((q, k))
        self.adj = adj
        self.bedge = {e for e, L in adj.items() if len(L) == 1}
        self.bnode = {v for e in self.bedge for v in sk.edges[e]}

    def corners(self, q):
        return [self.pts[v] for v in self.sk.cells[q]]

    def elen(self, e):
        a, b = (self.pts[v] for v in self.sk.edges[e])
        return alg.sqrt(C(F((b[0] - a[0])**2 + (b[1] - a[1])**2)))

    def f(self, x):
        return [S('f%d0' % d) + S('f%d1' % d) * x[0] + S('f%d2' % d) * x[1] for d in (0, 1)]

    def force(self, X):
        v = [to_rf(X.cells[d][0].v) if X.cols == 1 else to_rf(X.cells[0][d].v) for d in (0, 1)]
        r = self.f(v)
        return cmat(2, 1, lambda i, j: r[i], fr=2, fc=1)

    def g(self, e):
        if self.dirvals is not None:
            return self.dirvals[e]
        return [S('g%d_%d' % (e, d)) for d in (0, 1)]

    def dirv(self, en):
        k = self.sk.parse(en)
        if k is None or k[0] != 1:
            raise ThrowEx('Dirichlet data evaluated on an entity that is not an edge')
        self.asked.add(k[1])
        r = self.g(k[1])
        return cmat(2, 1, lambda i, j: r[i], fr=2, fc=1)

    def field(self, q, x, grad=False):
        """piecewise linear discontinuous vector field on cell q"""
        if grad:
            return [[S('m%d_%d%d0' % (q, i, j)) + S('m%d_%d%d1' % (q, i, j)) * x[0] for j in (0, 1)] for i in (0, 1)]
        return [S('u%d_%d0' % (q, d)) + S('u%d_%d1' % (q, d)) * x[0] + S('u%d_%d2' % (q, d)) * x[1] for d in (0, 1)]

    def glob(self, q, xi):
        c = self.corners(q)
        return [C(F(c[0][d])) + C(F(c[1][d] - c[0][d])) * xi[0] + C(F(c[2][d] - c[0][d])) * xi[1] for d in (0, 1)]

    def mf(self, en, M, grad):
        k = self.sk.parse(en)
        if k is None or k[0] != 0:
            raise ThrowEx('mesh function evaluated on an entity that is not a cell')
        if M.rows != 2:
            raise ThrowEx('mesh function evaluated at points with %d coordinates on a triangle' % M.rows)
        out = []
        for j in range(M.cols):
            r = self.field(k[1], self.glob(k[1], [to_rf(M.cells[i][j].v) for i in (0, 1)]), grad)
            out.append(Cell(cmat(2, 2, lambda a, b: r[a][b], fr=2, fc=2) if grad else cmat(2, 1, lambda a, b: r[a], fr=2, fc=1)))
        return Vec(out)

    def elmat(self, q, sigma, mod):
        P, sk = self.corners(q), self.sk
        M = [[ZERO] * 6 for _ in range(6)]
        for k in range(3):
            n, l = unit_normal(P, k)
            for i in range(3):
                g = hat_grad(P, i)
                # curl b . t with t the normal turned by 90 degrees
                v = ZERO - (C(g[0]) * n[0] + C(g[1]) * n[1])
                M[k + 3][i] = M[i][k + 3] = v
            e = sk.cedges[q][k]
            v = C(F(-1)) / sigma
            if mod:
                v = v / l
            M[k + 3][k + 3] = v if e in self.bedge else v * C(F(1, 2))
        return M

    def elvec(self, q, t, r):
        """quadrature rule (points, weights)"""
        P, sk = self.corners(q), self.sk
        v = [ZERO] * 6
        D = abs(area2(P))
        for k in range(self.npts):
            fx = self.f(self.glob(q, [r[0].cells[d][k].v for d in (0, 1)]))
            w = r[1].cells[k][0].v * C(F(D))
            for i in range(3):
                g = hat_grad(P, i)
                v[i] = v[i] + w * (C(g[1]) * fx[0] - C(g[0]) * fx[1])
        for k in range(3):
            e = sk.cedges[q][k]
            if e in self.bedge:
                n, l = unit_normal(P, k)
                g = self.g(e)
                v[k + 3] = ZERO - n[1] * g[0] + n[0] * g[1]
        return v

    def dofs(self, q):
        return list(self.sk.cells[q]) + [len(self.pts) + e for e in self.sk.cedges[q]]

    def full(self, sigma, mod, r):
        n = len(self.pts) + len(self.sk.edges)
        A = [[ZERO] * n for _ in range(n)]
        b = [ZERO] * n
        for q in range(len(self.sk.cells)):
            d, M, v = self.dofs(q), self.elmat(q, sigma, mod), self.elvec(q, None, r)
            for i in range(6):
                b[d[i]] = b[d[i]] + v[i]
                for j in range(6):
                    A[d[i]][d[j]] = A[d[i]][d[j]] + M[i][j]
        return A, b


def fixzero(A, b, fixed):
    n = len(A)
    A = [[(C(F(int(i == j))) if i in fixed or j in fixed else A[i][j]) for j in range(n)] for i in range(n)]
    return A, [ZERO if i in fixed else b[i] for i in range(n)]


def S02(pid):
    c = Check(pid, rule='The element matrix and vector providers are abstractly interpreted on triangle meshes (both orientations, interior and boundary edges of either direction) with a symbolic penalty, symbolic forces and Dirichlet data and a symbolic quadrature rule: entries are the tangential components of the curls of the hat functions on the edges, -1/sigma (resp. -1/(sigma |e|), halved on interior edges), the quadrature sum of f.curl(b) and the tangential Dirichlet data. buildSystemMatrixNoFlow: sum of the element contributions, boundary nodes fixed to zero. buildSystemMatrixInOutFlow: the offset function has the prescribed normal components on the boundary and mean zero over the boundary nodes, its tangential jumps as edge values, and is subtracted from the right hand side before the boundary nodes are fixed.')
    P = sys_unit()
    A_ = NS + 'assemble::'
    W = {n: wsrc(P, A_ + n) for n in ('PiecewiseConstElementMatrixProvider::Eval', 'PiecewiseConstElementVectorProvider::Eval', 'buildSystemMatrixNoFlow', 'buildSystemMatrixInOutFlow', 'createOffsetFunction')}

    def element(j):
        name, spec, mod = j
        E = StEnv(P, spec)
        I = E.I
        key = 'element/%s/%s' % (name, mod)
        wm, wv = W['PiecewiseConstElementMatrixProvider::Eval'], W['PiecewiseConstElementVectorProvider::Eval']

        def run():
            fl = Cell(obj(I, fcall(I, 'lfv::flags' if mod == 'plain' else 'lfv::flagsa', E.sk.mesh(), *([1] if mod == 'plain' else []))))
            dd = Cell(obj(I, fcall(I, 'lfv::dirds', E.sk.mesh())))
            r = E.rulevals('Tria', 'sel')
            for q in range(len(E.sk.cells)):
                en = Cell(E.sk.ent(0, q))
                M = fcall(I, 'lfv::mat1', S('sigma'), fl, en) if mod == 'default' else fcall(I, 'lfv::mat', S('sigma'), fl, mod == 'modified', en)
                X = E.elmat(q, S('sigma'), mod == 'modified')
                c.equal_mat('%s/matrix%d' % (key, q), wm, I.rv(M), cmat(6, 6, lambda a, b: X[a][b]), ev, 'the element matrix of cell %d is wrong' % q)
                c.require('%s/active%d' % (key, q), wm, I.truth(fcall(I, 'lfv::matact', S('sigma'), fl, en)) if hasattr(I, 'truth') else bool(I.rv(fcall(I, 'lfv::matact', S('sigma'), fl, en))), 'cell %d is not active' % q)
                V = fcall(I, 'lfv::vec', S('sigma'), Cell(E.rule('Tria', 'sel')), fl, dd, en)
                y = E.elvec(q, None, r)
                c.equal_mat('%s/vector%d' % (key, q), wv, I.rv(V), cmat(6, 1, lambda a, b: y[a], fc=1), ev, 'the element vector of cell %d is wrong' % q)
        c.attempt(key, wm, run)
        c.no_abort(key, I, ev)
        c.cover(I)

    def noflow(j):
        name, spec, mod = j
        E = StEnv(P, spec)
        I = E.I
        key = 'noflow/%s/%s' % (name, mod)
        w = W['buildSystemMatrixNoFlow']

        def run():
            dh = Cell(obj(I, fcall(I, 'lfv::dh', E.sk.mesh())))
            t = Cell(fcall(I, 'lfv::nofl', E.sk.mesh(), dh, S('sigma'), Cell(E.rule('Tria', 'sel')), mod))
            A, b = fixzero(*E.full(S('sigma'), mod, E.rulevals('Tria', 'sel')), E.bnode)
            n = len(A)
            c.equal_mat(key + '/matrix', w, I.rv(fcall(I, 'lfv::dense0', t)), cmat(n, n, lambda i, k: A[i][k]), ev, 'the system matrix is wrong')
            c.equal_mat(key + '/rhs', w, I.rv(fcall(I, 'lfv::rhs0', t)), cmat(n, 1, lambda i, k: b[i], fc=1), ev, 'the right hand side is wrong')
        c.attempt(key, w, run)
        c.no_abort(key, I, ev)
        c.cover(I)

    def inout(j):
        name, spec, mod = j
        E = StEnv(P, spec)
        I = E.I
        key = 'inout/%s/%s' % (name, mod)
        w, wo = W['buildSystemMatrixInOutFlow'], W['createOffsetFunction']
        sk = E.sk
        # Dirichlet data with vanishing total flux: normal component from a potential on the boundary nodes
        E.dirvals = {}
        for e in range(len(sk.edges)):
            if e in E.bedge:
                (q, k), = E.adj[e]
                cl = sk.cells[q]
                n, l = unit_normal(E.corners(q), k)
                a, b = cl[k], cl[(k + 1) % 3]
                dq = S('q%d' % b) - S('q%d' % a)
                if area2(E.corners(q)) < 0:
                    dq = ZERO - dq
                gn, gt = dq / l, S('gt%d' % e)
                E.dirvals[e] = [gn * n[0] - gt * n[1], gn * n[1] + gt * n[0]]
            else:
                E.dirvals[e] = [S('g%d_%d' % (e, d)) for d in (0, 1)]

        def run():
            dh = Cell(obj(I, fcall(I, 'lfv::dh', sk.mesh())))
            t = Cell(fcall(I, 'lfv::inout', sk.mesh(), dh, S('sigma'), Cell(E.rule('Tria', 'sel')), mod))
            A0, b0 = E.full(S('sigma'), mod, E.rulevals('Tria', 'sel'))
            n, nv = len(A0), len(E.pts)
            B = sorted(E.bnode)
            mean = ZERO
            for v in B:
                mean = mean + S('q%d' % v) * C(F(1, len(B)))
            off = [S('q%d' % v) - mean if v in E.bnode else ZERO for v in range(nv)]
            jump = [ZERO] * (n - nv)
            for e in range(n - nv):
                for v in range(nv):
                    jump[e] = jump[e] + A0[nv + e][v] * off[v]
            O = I.rv(fcall(I, 'lfv::off1', t))
            c.equal_mat(key + '/offset', wo, O, cmat(n, 1, lambda i, k: (off + jump)[i], fc=1), ev, 'the offset function does not have the prescribed normal components on the boundary')
            b1 = []
            for i in range(n):
                x = b0[i]
                for v in range(nv):
                    x = x - A0[i][v] * off[v]
                b1.append(x)
            A, b = fixzero(A0, b1, E.bnode)
            c.equal_mat(key + '/matrix', w, I.rv(fcall(I, 'lfv::dense1', t)), cmat(n, n, lambda i, k: A[i][k]), ev, 'the system matrix is wrong')
            c.equal_mat(key + '/rhs', w, I.rv(fcall(I, 'lfv::rhs1', t)), cmat(n, 1, lambda i, k: b[i], fc=1), ev, 'the right hand side is wrong')
        c.attempt(key, w, run)
        c.no_abort(key, I, ev)
        c.cover(I)
    ALL = list(SM.items()) + list(IRR.items())
    jobs = [(element, (n, s, m)) for n, s in ALL for m in ('plain', 'modified', 'default')]
    jobs += [(noflow, (n, s, m)) for n, s in ALL for m in (False, True)]
    jobs += [(inout, (n, s, m)) for n, s in SM.items() for m in (False, True)]
    c.par(jobs, lambda j: j[0](j[1]))
    return c.finish(60)


def S03(pid):
    c = Check(pid, rule='extractBasisFunctionCoefficients, extractVelocity and MeshFunctionVelocity are abstractly interpreted with a symbolic solution vector (piecewise linear and quadratic potentials): nodal coefficients, the curl of the potential on every cell. L2norm and DGnorm are interpreted for piecewise polynomial discontinuous fields on triangle meshes with symbolic quadrature rules (symmetric or not, one to three points): square root of the quadrature sums of the documented terms, the jump on an interior edge taken between the values of both cells at the same point.')
    P = sys_unit()
    Q = NS + 'post_processing::'
    W = {n: wsrc(P, Q + n) for n in ('extractBasisFunctionCoefficients', 'extractVelocity', 'MeshFunctionVelocity::operator()', 'L2norm', 'DGnorm')}

    def extract(j):
        name, spec = j
        E = StEnv(P, spec)
        I, sk = E.I, E.sk
        key = 'extract/' + name
        w = W['extractVelocity']

        def run():
            dh = Cell(obj(I, fcall(I, 'lfv::dh', sk.mesh())))
            n = len(E.pts) + len(sk.edges)
            x = Cell(cmat(n, 1, lambda i, k: S('x%d' % i), fc=1))
            for v in range(len(E.pts)):
                c.equal('%s/coefficient%d' % (key, v), W['extractBasisFunctionCoefficients'], I.rv(fcall(I, 'lfv::cf', sk.mesh(), dh, x, Cell(sk.ent(2, v)))), S('x%d' % v), ev, 'the coefficient of node %d is wrong' % v)
            for q, cl in enumerate(sk.cells):
                u = [ZERO, ZERO]
                for i in range(3):
                    g = hat_grad(E.corners(q), i)
                    u = [u[0] + S('x%d' % cl[i]) * C(g[1]), u[1] - S('x%d' % cl[i]) * C(g[0])]
                V = I.rv(fcall(I, 'lfv::vel', sk.mesh(), dh, x, Cell(sk.ent(0, q))))
                c.equal_mat('%s/velocity%d' % (key, q), w, V, cmat(2, 1, lambda a, b: u[a], fr=2, fc=1), ev, 'the velocity on cell %d is not the curl of the potential' % q)
        c.attempt(key, w, run)
        c.no_abort(key, I, ev)
        c.cover(I)

    def mfvel(j):
        name, spec = j
        E = StEnv(P, spec)
        I, sk = E.I, E.sk
        key = 'MeshFunctionVelocity/' + name
        w = W['MeshFunctionVelocity::operator()']

        def run():
            nsf = 3
            E.nsf = {'Point': 1, 'Segment': 2, 'Tria': nsf, 'Quad': 4}
            E.dh = Dh('dhs', sk, len(E.pts), lambda en: [v for v in sk.cells[sk.parse(en)[1]]])
            I.opq_hooks.append(E.dh.hook)
            I.nonnull.add('dhs')
            x = Cell(cmat(len(E.pts), 1, lambda i, k: S('x%d' % i), fc=1))
            s = Opq('fes', 'std::shared_ptr<const lf::uscalfe::UniformScalarFESpace<double>>')
            M = cmat(2, 2, lambda i, k: S('p%d_%d' % (k, i)))
            for q, cl in enumerate(sk.cells):
                L = I.rv(fcall(I, 'lfv::mfv', s, x, Cell(sk.ent(0, q)), Cell(M))).items
                if not c.require('%s/%d/count' % (key, q), w, len(L) == 2, '%d values at two points' % len(L)):
                    continue
                p = E.corners(q)
                A = area2(p)
                # inverse transposed Jacobian
                J = [[p[1][d] - p[0][d], p[2][d] - p[0][d]] for d in (0, 1)]
                JIT = [[F(J[1][1], A), F(-J[1][0], A)], [F(-J[0][1], A), F(J[0][0], A)]]
                for k in range(2):
                    g = [ZERO, ZERO]
                    for i in range(3):
                        for d in (0, 1):
                            for b in (0, 1):
                                g[d] = g[d] + C(JIT[d][b]) * E.gb('Tria', i, b, colkey(M, k)) * S('x%d' % cl[i])
                    u = [g[1], ZERO - g[0]]
                    c.equal_mat('%s/%d/%d' % (key, q, k), w, L[k].v, cmat(2, 1, lambda a, b: u[a], fr=2, fc=1), ev, 'the velocity is not the curl of the potential')
        c.attempt(key, w, run)
        c.no_abort(key, I, ev)
        c.cover(I)

    def norms(j):
        name, spec, n, kind = j
        E = StEnv(P, spec, npts=n)
        I, sk = E.I, E.sk
        key = '%s/%s/%d' % (kind, name, n)
        w = W['DGnorm' if kind == 'dg' else 'L2norm']

        def run():
            R = I.rv(fcall(I, 'lfv::' + kind, sk.mesh()))
            x, wt = E.rulevals('Tria', 'sel')
            tot = ZERO
            for q in range(len(sk.cells)):
                D = C(F(abs(area2(E.corners(q)))))
                for k in range(n):
                    v = E.field(q, E.glob(q, [x.cells[d][k].v for d in (0, 1)]), kind == 'dg')
                    v = [y for r in v for y in r] if kind == 'dg' else v
                    s = ZERO
                    for y in v:
                        s = s + y * y
                    tot = tot + wt.cells[k][0].v * D * s
            if kind == 'dg':
                x, wt = E.rulevals('Segment', 'sel')
                for e, L in sorted(E.adj.items()):
                    if len(L) < 2:
                        continue
                    a, b = (E.pts[v] for v in sk.edges[e])
                    for k in range(n):
                        t = x.cells[0][k].v
                        p = [C(F(a[d])) + C(F(b[d] - a[d])) * t for d in (0, 1)]
                        u, v = (E.field(q, p) for q, _ in L)
                        tot = tot + wt.cells[k][0].v * ((u[0] - v[0]) * (u[0] - v[0]) + (u[1] - v[1]) * (u[1] - v[1]))
            got = to_rf(R)
            c.equal(key + '/squared', w, got * got, tot, ev, 'the square of the norm is not the documented sum')
            c.require(key + '/sign', w, all(float(evalnum(got, Env(ev(i)))) >= 0 for i in range(4)), 'the norm is negative')
        c.attempt(key, w, run)
        c.no_abort(key, I, ev)
        c.cover(I)
    ALL = list(SM.items()) + list(IRR.items())
    jobs = [(extract, x) for x in ALL] + [(mfvel, x) for x in ALL]
    jobs += [(norms, (nm, s, n, k)) for nm, s in ALL for n in ((1, 2, 3) if nm in ('T', 'TT', 'TTI') or TIER == 'thorough' else (2,)) for k in ('l2', 'dg')]
    c.par(jobs, lambda j: j[0](j[1]))
    return c.finish(60)
