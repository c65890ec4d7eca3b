"""hybrid2d meshes: M01 (construction by the mesh factory)"""
from skel import *

MW = '''
#include "%s/lib/lf/mesh/hybrid2d/hybrid2d.h"
#include "%s/lib/lf/geometry/geometry.h"
namespace lfv {
using MF = lf::mesh::hybrid2d::MeshFactory;
using GP = std::unique_ptr<lf::geometry::Geometry>;
unsigned addp(MF& f, Eigen::VectorXd c) { return f.AddPoint(c); }
unsigned addg(MF& f, Eigen::VectorXd c) { GP g = std::make_unique<lf::geometry::Point>(c); return f.AddPoint(std::move(g)); }
unsigned add0(MF& f, lf::base::RefEl r, std::vector<unsigned> n) { return f.AddEntity(r, n, GP()); }
GP geo(int k, Eigen::MatrixXd c) {
  if (k == 2) return std::make_unique<lf::geometry::SegmentO1>(c);
  if (k == 3) return std::make_unique<lf::geometry::TriaO1>(c);
  if (k == 4) return std::make_unique<lf::geometry::QuadO1>(c);
  if (k == 5) return std::make_unique<lf::geometry::SegmentO2>(c);
  if (k == 6) return std::make_unique<lf::geometry::TriaO2>(c);
  return std::make_unique<lf::geometry::QuadO2>(c);
}
unsigned adde(MF& f, lf::base::RefEl r, std::vector<unsigned> n, int k, Eigen::MatrixXd c) { return f.AddEntity(r, n, geo(k, c)); }
std::shared_ptr<lf::mesh::Mesh> build(MF& f) { return f.Build(); }
unsigned numr(const lf::mesh::Mesh& m, lf::base::RefEl r) { return m.NumEntities(r); }
unsigned numc(const lf::mesh::Mesh& m, unsigned c) { return m.NumEntities(c); }
}
'''
MODS = ('lib/lf/mesh/hybrid2d', 'lib/lf/mesh', 'lib/lf/geometry', 'lib/lf/base', 'lib/lf/refinement')


def mesh_unit():
    # mesh_hierarchy.cc is analysed separately
    src = [f for f in module_sources('lib/lf/mesh/hybrid2d', 'lib/lf/mesh', 'lib/lf/geometry', 'lib/lf/base') +
           [os.path.join(REPO, 'lib/lf/refinement/hybrid2d_refinement_pattern.cc'), os.path.join(REPO, 'lib/lf/refinement/refinement.cc')] if os.path.exists(f)]
    return export('meshes', unity(src, MW % (REPO, REPO)))


def coords(d, v):
    return [S('x%d_%d' % (v, k)) for k in range(d)]


def mid(d, a, b):
    a, b = min(a, b), max(a, b)
    return [S('m%d_%d_%d' % (a, b, k)) for k in range(d)]


def curve(d, a, b, order, t):
    """point at parameter t of the edge from vertex a to vertex b"""
    A, B = coords(d, a), coords(d, b)
    if order == 1:
        return [x + (y - x) * t for x, y in zip(A, B)]
    M = mid(d, a, b)
    one = C(F(1))
    return [x * (one - t) * (one - t * C(F(2))) + y * t * (t * C(F(2)) - one) + m * t * (one - t) * C(F(4)) for x, y, m in zip(A, B, M)]


def geonodes(d, vs, order):
    P = [coords(d, v) for v in vs]
    if order == 2:
        n = len(vs)
        P += [mid(d, vs[i], vs[(i + 1) % n]) for i in range(n if n > 2 else 1)]
    return eigen.new_mat(d, len(P), -1, -1, 'double', False, lambda i, j: P[j][i])


def vec(d, v):
    X = coords(d, v)
    return eigen.new_mat(d, 1, -1, 1, 'double', False, lambda i, j: X[i])


class MeshSpec:
    def __init__(self, name, d, nv, cells, edges=(), order=1, check=True):
        """cells: (vertices, has geometry); edges: ((a, b), has geometry)"""
        self.name, self.d, self.nv, self.cells, self.edges, self.order, self.check = name, d, nv, cells, list(edges), order, check

    def feed(self, I, f):
        """fill the factory; returns the indices handed out"""
        d = self.d
        ids = [[], [], []]
        for v in range(self.nv):
            ids[2].append(fcall(I, 'lfv::addg' if v % 2 else 'lfv::addp', f, vec(d, v)))
        for kind, L in ((1, self.edges), (0, self.cells)):
            for vs, geo in L:
                r = ref_el(I, {2: 'Segment', 3: 'Tria', 4: 'Quad'}[len(vs)])
                n = Vec([Cell(x) for x in vs], 'vector')
                if geo:
                    ids[kind].append(fcall(I, 'lfv::adde', f, r, n, len(vs) + (3 if self.order == 2 else 0), geonodes(d, vs, self.order)))
                else:
                    ids[kind].append(fcall(I, 'lfv::add0', f, r, n))
        return ids

    def topo(self):
        pairs = []
        for vs, _ in self.edges:
            pairs.append(frozenset(vs))
        for vs, _ in self.cells:
            for i in range(len(vs)):
                p = frozenset((vs[i], vs[(i + 1) % len(vs)]))
                if p not in pairs:
                    pairs.append(p)
        return pairs


def factory(I, d, check=True):
    return Cell(new(I, 'lf::mesh::hybrid2d::MeshFactory', d, check))


def specs(thorough):
    out = []
    A = [('tri', 3, [(0, 1, 2)], []), ('quad', 4, [(2, 3, 0, 1)], [(1, 0)]),
         ('tt', 4, [(0, 1, 2), (2, 1, 3)], [(2, 3), (1, 2)]),
         ('tt2', 4, [(1, 2, 0), (1, 2, 3)], [(2, 1)]),     # second triangle clockwise
         ('tq', 5, [(0, 1, 2), (1, 3, 4, 2)], [(1, 2), (2, 0)]),
         ('qq', 6, [(0, 1, 4, 3), (5, 4, 1, 2)], [(4, 1), (3, 4)])]
    if thorough:
        A += [('tqt', 6, [(0, 1, 2, 3), (2, 1, 4), (4, 5, 2)], [(5, 2), (2, 1), (0, 3)]),
              ('ttqq', 9, [(0, 1, 4), (0, 4, 3), (1, 2, 5, 4), (3, 4, 7, 6), (4, 5, 8), (8, 7, 4)], [(4, 0), (4, 5), (7, 4)])]
    for name, nv, cells, edges in A:
        for d in (2, 3):
            for order in (1, 2):
                masks = itertools.product((True, False), repeat=len(cells)) if order == 1 and len(cells) <= 3 else [(True,) * len(cells)]
                for m in masks:
                    eo = [()]
                    if edges:
                        eo += [tuple((e, True) for e in edges), tuple((e, False) for e in edges)]
                    if len(edges) > 1:
                        eo.append(((edges[0], True), (edges[1], False)) + tuple((e, True) for e in edges[2:]))
                    for q, ed in enumerate(eo):
                        out.append(MeshSpec('%s/%dD/O%d/%s/%d' % (name, d, order, ''.join('g' if x else 'n' for x in m), q), d, nv, list(zip(cells, m)), ed, order))
    return out


def ents(I, m, codim):
    return mcall(I, m, 'Entities', codim).items


def obj(I, p):
    p = I.rv(p)
    return I.rv(I.deref(p)) if isinstance(p, Ptr) else p


def at(I, e, cols):
    """Geometry()->Global at the points given by columns"""
    g = obj(I, mcall(I, e, 'Geometry'))
    return mcall(I, g, 'Global', eigen.new_mat(len(cols[0]), len(cols), -1, -1, 'double', False, lambda i, j: cols[j][i] if isinstance(cols[j][i], RF) else C(F(cols[j][i]))))


def refn(I, e):
    return mcall(I, mcall(I, e, 'RefEl'), 'NumNodes')


def check_mesh(c, I, m, sp, ids, key, w):
    """all obligations on a mesh object built from a specification"""
    d = sp.d
    pairs = sp.topo()
    want = {0: len(sp.cells), 1: len(pairs), 2: sp.nv}
    wn = loc(I.p.fn('lf::mesh::hybrid2d::Mesh::NumEntities'))
    c.require(key + '/DimWorld', w, mcall(I, m, 'DimWorld') == d and mcall(I, m, 'DimMesh') == 2, 'wrong dimension')
    E = {}
    nm = {'Segment': len(pairs), 'Point': sp.nv, 'Tria': sum(len(v) == 3 for v, _ in sp.cells), 'Quad': sum(len(v) == 4 for v, _ in sp.cells)}
    P = I.p
    for r, n in nm.items():
        g = fcall(I, 'lfv::numr', Cell(m), ref_el(I, r))
        c.require('%s/Num%s' % (key, r), wn, g == n, 'NumEntities(k%s) is %s instead of %d' % (r, g, n))
    for cd in (0, 1, 2):
        n = fcall(I, 'lfv::numc', Cell(m), cd)
        c.require('%s/Num%d' % (key, cd), wn, n == want[cd], 'NumEntities(%d) is %s instead of %d' % (cd, n, want[cd]))
        L = [obj(I, x) for x in ents(I, m, cd)]
        if not c.require('%s/Entities%d' % (key, cd), w, len(L) == want[cd] and len({id(x) for x in L}) == len(L), 'Entities(%d) enumerates %d entities (%d distinct) instead of %d' % (cd, len(L), len({id(x) for x in L}), want[cd])):
            return None
        E[cd] = L
        for i, e in enumerate(L):
            k = '%s/%d.%d' % (key, cd, i)
            c.require(k + '/Index', w, mcall(I, m, 'Index', Cell(e)) == i, 'Entities(%d)[%d] has index %s' % (cd, i, mcall(I, m, 'Index', Cell(e))))
            c.require(k + '/ByIndex', w, obj(I, mcall(I, m, 'EntityByIndex', cd, i)) is e, 'EntityByIndex(%d,%d) is another entity' % (cd, i))
            c.require(k + '/Codim', w, mcall(I, e, 'Codim') == cd, 'Codim()')
            s0 = mcall(I, e, 'SubEntities', 0).items
            c.require(k + '/Self', w, len(s0) == 1 and obj(I, s0[0]) is e, 'SubEntities(0) is not the entity itself')
    V, G, K = E[2], E[1], E[0]
    c.require(key + '/ids', w, [ids[2], ids[1], ids[0]] == [list(range(sp.nv)), list(range(len(sp.edges))), list(range(len(sp.cells)))], 'the factory hands out indices %s' % (ids,))
    for v, e in enumerate(V):
        c.require('%s/v%d/type' % (key, v), w, refn(I, e) == 1, 'a node is not a point')
        g = at(I, e, [()]) if False else mcall(I, obj(I, mcall(I, e, 'Geometry')), 'Global', eigen.new_mat(0, 1))
        for k in range(d):
            c.equal('%s/v%d/pos%d' % (key, v, k), w, g.cells[k][0].v, coords(d, v)[k], what='position of node %d' % v)
    vi = {id(e): i for i, e in enumerate(V)}
    gi = {id(e): i for i, e in enumerate(G)}
    t = S('t')
    en = {}
    for i, e in enumerate(G):
        nd = [vi.get(id(obj(I, x))) for x in mcall(I, e, 'SubEntities', 1).items]
        c.require('%s/e%d/type' % (key, i), w, refn(I, e) == 2 and len(nd) == 2 and None not in nd and nd[0] != nd[1], 'edge %d has the nodes %s' % (i, nd))
        en[i] = nd
        g = at(I, e, [(t,)])
        for k, x in enumerate(curve(d, nd[0], nd[1], sp.order, t)):
            c.equal('%s/e%d/curve%d' % (key, i, k), w, g.cells[k][0].v, x, what='the geometry of edge %d does not run from its first node %d to its second node %d along the shape given' % (i, nd[0], nd[1]))
        o = [I.rv(x) for x in mcall(I, e, 'RelativeOrientations').items]
        c.require('%s/e%d/orient' % (key, i), w, o == [-1, 1], 'relative orientations of the end points are %s' % (o,))
    c.require(key + '/pairs', w, sorted(map(sorted, en.values())) == sorted(map(sorted, pairs)), 'the edges connect %s instead of %s' % (sorted(en.values()), sorted(map(sorted, pairs))))
    for i, (vs, geo) in enumerate(sp.edges):
        c.require('%s/e%d/given' % (key, i), w, set(en[i]) == set(vs) and (not geo or list(en[i]) == list(vs)), 'the edge added with index %d between %s connects %s' % (i, vs, en[i]))
    for i, (vs, geo) in enumerate(sp.cells):
        e = K[i]
        n = len(vs)
        k = '%s/c%d' % (key, i)
        c.require(k + '/type', w, refn(I, e) == n, 'cell type')
        nd = [vi.get(id(obj(I, x))) for x in mcall(I, e, 'SubEntities', 2).items]
        c.require(k + '/nodes', w, nd == list(vs), 'cell %d has the nodes %s instead of %s' % (i, nd, list(vs)))
        ce = [gi.get(id(obj(I, x))) for x in mcall(I, e, 'SubEntities', 1).items]
        if not c.require(k + '/edges', w, len(ce) == n and None not in ce and all(set(en[ce[j]]) == {vs[j], vs[(j + 1) % n]} for j in range(n)), 'cell %d with nodes %s has the edges %s' % (i, list(vs), [en.get(x) for x in ce])):
            continue
        o = [I.rv(x) for x in mcall(I, e, 'RelativeOrientations').items]
        c.require(k + '/orient', w, o == [1 if en[ce[j]][0] == vs[j] else -1 for j in range(n)], 'relative orientations %s of the edges %s of cell %d (%s)' % (o, [en[x] for x in ce], i, list(vs)))
        ref = VERT['Tria' if n == 3 else 'Quad']
        cols = []
        for j in range(n):
            A, B = ref[j], ref[(j + 1) % n]
            cols.append(tuple(C(F(a)) + C(F(b - a)) * t for a, b in zip(A, B)))
        g = at(I, e, cols)
        for j in range(n):
            for q, x in enumerate(curve(d, vs[j], vs[(j + 1) % n], sp.order, t)):
                c.equal('%s/trace%d(%d)' % (k, j, q), w, g.cells[q][j].v, x, what='the geometry of cell %d along its edge %d does not match the edge' % (i, j))
    return E


def memory(I, m):
    """the sequences of entity objects owned by a mesh (for pointer comparisons)"""
    for cell in m.f.values():
        v = I.rv(cell)
        if isinstance(v, Vec) and (not v.items or isinstance(v.items[0].v, Obj)):
            I.addr_vecs.append(v)


def aborts(I, fn):
    n = (len(I.asserts), len(I.throws))
    try:
        fn()
    except ThrowEx:
        return True
    return any(c is False or c_not(c) is True for c, pc, _ in I.asserts[n[0]:]) or any(g is True for g, _, _ in I.throws[n[1]:])


def factory_rules(c, P):
    """Contains, completeness check and reuse of the factory"""
    wc = loc(P.fn('lf::mesh::hybrid2d::Mesh::Contains'))
    w = loc(P.fn('lf::mesh::hybrid2d::MeshFactory::Build'))
    good = [('tq', 5, [(0, 1, 2), (1, 3, 4, 2)], []), ('t', 3, [(0, 1, 2)], [(1, 0)]), ('q', 4, [(0, 1, 2, 3)], []), ('qt', 6, [(0, 1, 2, 3), (2, 1, 4), (4, 5, 2)], [(5, 2)])]

    def reuse():
        alg.reset()
        I = Interp(P)
        f = factory(I, 2)
        M = []
        for name, nv, cells, edges in good + good[:1]:
            sp = MeshSpec('reuse/%d-%s' % (len(M), name), 2, nv, [(v, True) for v in cells], [(e, True) for e in edges])
            ids = sp.feed(I, f)
            m = obj(I, fcall(I, 'lfv::build', f))
            check_mesh(c, I, m, sp, ids, sp.name, w)
            M.append(m)
        for m in M:
            memory(I, m)
        for i, a in enumerate(M):
            for j, b in enumerate(M):
                for cd in (0, 1, 2):
                    for k, e in enumerate(ents(I, b, cd)):
                        g = mcall(I, a, 'Contains', Cell(obj(I, e)))
                        c.require('contains/%d/%d/%d.%d' % (i, j, cd, k), wc, g is (i == j), 'Contains() of mesh %d (%s) says %s for entity %d of co-dimension %d of mesh %d' % (i, good[i % 4][0], g, k, cd, j))
        c.cover(I)
    c.attempt('reuse', w, reuse)

    def complete(name, d, nv, cells, edges, check, want):
        def run():
            alg.reset()
            I = Interp(P)
            sp = MeshSpec(name, d, nv, [(v, True) for v in cells], [(e, True) for e in edges])
            f = factory(I, d, check)
            sp.feed(I, f)
            r = aborts(I, lambda: fcall(I, 'lfv::build', f))
            c.require('complete/%s/%dD/%s' % (name, d, check), w, r == want, 'Build() of a mesh (%s) %s with check_completeness=%s' % (name, 'aborts' if r else 'does not abort', check))
            c.cover(I)
        c.attempt('complete/%s/%dD/%s' % (name, d, check), w, run)
    for d in (2, 3):
        for check in (True, False):
            complete('isolated node', d, 4, [(0, 1, 2)], [], check, check)
            complete('first node isolated', d, 4, [(1, 2, 3)], [], check, check)
            complete('isolated node of a quadrilateral mesh', d, 6, [(0, 1, 2, 4)], [], check, check)
            complete('dangling edge', d, 4, [(0, 1, 2)], [(2, 3)], check, check)
            complete('edge between nodes of different cells', d, 5, [(0, 1, 2), (1, 3, 4, 2)], [(0, 3)], check, check)
            complete('complete', d, 5, [(0, 1, 2), (1, 3, 4, 2)], [(2, 1)], check, False)


def M01(pid):
    c = Check(pid, rule='MeshFactory::AddPoint/AddEntity/Build and the constructors of hybrid2d::Mesh, Point, Segment, Triangle and Quadrilateral are abstractly interpreted with symbolic node positions (planar and embedded, straight and curved) for a set of cell complexes, with every combination of cells/edges supplied with or without geometry and edges supplied in either direction. Contains() is decided for all pairs of five meshes built by one factory, the completeness check for complete and incomplete inputs. On the resulting mesh object: counts, indices, incidence, shared edges, relative orientations, and geometries of edges and cells as polynomials in the parameter.')
    P = mesh_unit()
    thorough = TIER == 'thorough'

    def one(sp):
        alg.reset()
        I = Interp(P)
        w = loc(P.fn('lf::mesh::hybrid2d::MeshFactory::Build'))

        def run():
            f = factory(I, sp.d)
            ids = sp.feed(I, f)
            m = obj(I, fcall(I, 'lfv::build', f))
            E = check_mesh(c, I, m, sp, ids, sp.name, w)
            c.no_abort(sp.name, I, lambda i: {'t': F(i + 1, 9)})
        c.attempt(sp.name, w, run)
        c.cover(I)
    c.par([None] + specs(thorough), lambda sp: one(sp) if sp else factory_rules(c, P))
    return c.finish(1000)
