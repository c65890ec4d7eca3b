"""Mesh hierarchies: R04 (nested conforming meshes), R05 (local refinement), R06 (refinement edges)"""
import random
from meshes import *
from meshes import MW as _MW

HW = _MW + '''
#include "%s/lib/lf/refinement/mesh_hierarchy.h"
namespace lfv {
using MH = lf::refinement::MeshHierarchy;
std::shared_ptr<MH> hier(std::shared_ptr<lf::mesh::Mesh> m, unsigned d) { return std::make_shared<MH>(m, std::make_unique<MF>(d)); }
void mark(MH& h, std::vector<bool> s) { h.MarkEdges([&s](const lf::mesh::Mesh& m, const lf::mesh::Entity& e) -> bool { return s[m.Index(e)]; }); }
void local(MH& h) { h.RefineMarked(); }
void regular(MH& h, int p) { h.RefineRegular(static_cast<lf::refinement::RefPat>(p)); }
void regular0(MH& h) { h.RefineRegular(); }
std::shared_ptr<MH> gen(std::shared_ptr<lf::mesh::Mesh> m, unsigned n, int p) { return lf::refinement::GenerateMeshHierarchyByUniformRefinemnt(m, n, static_cast<lf::refinement::RefPat>(p)); }
std::shared_ptr<lf::mesh::Mesh> level(MH& h, unsigned l) { return h.getMesh(l); }
unsigned levels(const MH& h) { return h.NumLevels(); }
}
'''


def hier_unit():
    src = module_sources('lib/lf/mesh/hybrid2d', 'lib/lf/mesh', 'lib/lf/geometry', 'lib/lf/base') + \
        [os.path.join(REPO, 'lib/lf/refinement/hybrid2d_refinement_pattern.cc'), os.path.join(REPO, 'lib/lf/refinement/refinement.cc'), os.path.join(REPO, 'lib/lf/refinement/mesh_hierarchy.cc')]
    src = [f for f in dict.fromkeys(src) if os.path.exists(f)]
    return export('hier', unity(src, HW % (REPO, REPO, REPO)))


BASE = [('tri', 3, [(0, 1, 2)], []), ('quad', 4, [(2, 3, 0, 1)], [(1, 0)]),
        ('tt', 4, [(0, 1, 2), (2, 1, 3)], [(2, 3), (1, 2)]),
        ('tq', 5, [(0, 1, 2), (1, 3, 4, 2)], [(1, 2), (2, 0)]),
        ('qq', 6, [(0, 1, 4, 3), (5, 4, 1, 2)], [(4, 1), (3, 4)]),
        ('tqt', 6, [(0, 1, 2, 3), (2, 1, 4), (4, 5, 2)], [(5, 2), (2, 1), (0, 3)])]
# generic positions (no symmetries) for the quick decisions on vertex identity
POS = [(F(0), F(0)), (F(7), F(1)), (F(6), F(5)), (F(-1), F(6)), (F(11), F(9)), (F(3), F(13)), (F(17), F(2)), (F(-5), F(17)), (F(23), F(19))]


class Level:
    """observed topology of one mesh"""

    def __init__(self, I, m):
        self.m = m
        self.E = {cd: [obj(I, x) for x in ents(I, m, cd)] for cd in (0, 1, 2)}
        self.pos = {id(e): (cd, i) for cd in self.E for i, e in enumerate(self.E[cd])}
        self.sub = {}
        for cd in (0, 1):
            for i, e in enumerate(self.E[cd]):
                for rel in range(1, 3 - cd):
                    self.sub[cd, i, rel] = [self.pos.get(id(obj(I, x)), (None, None))[1] for x in mcall(I, e, 'SubEntities', rel).items]

    def n(self, cd):
        return len(self.E[cd])


def fld(I, o, name):
    return I.rv(I.rv(o).f[name])


def closure(L, marked, ref):
    """smallest superset of the marked edges that contains the refinement edge of every triangle having a split edge"""
    S_ = set(marked)
    while True:
        n = len(S_)
        for i in range(L.n(0)):
            e = L.sub[0, i, 1]
            if len(e) == 3 and S_ & set(e):
                S_.add(e[ref[i]])
        if len(S_) == n:
            return S_


def refine_level(c, I, key, w, A, B, infos, parents, rel, order=1):
    """obligations on a fine mesh B created from A"""
    pin, ein, cin = infos
    EN = enum(I.p, 'lf::refinement::RefPat')
    nm = {v: k for k, v in EN.items()}
    kids = {}          # (codim, index) of fine entity -> (parent, number)
    for pc, inf in ((2, pin), (1, ein), (0, cin)):
        c.require('%s/infos%d' % (key, pc), w, len(inf) == A.n(pc), 'child information for %d of %d entities of co-dimension %d' % (len(inf), A.n(pc), pc))
        for i, x in enumerate(inf):
            if pc == 2:
                pat = nm.get(fld(I, x, 'ref_pat'))
                L = [(2, [fld(I, x, 'child_point_idx')])]
                c.require('%s/copy%d' % (key, i), w, pat == 'rp_copy', 'node %d has the refinement pattern %s' % (i, pat))
            else:
                pat = nm.get(fld(I, x, 'ref_pat_'))
                L = [(cd, [I.rv(y) for y in fld(I, x, f).items]) for cd, f in ((1, 'child_edge_idx'), (2, 'child_point_idx'), (0, 'child_cell_idx')) if cd or not pc]
                anc = fld(I, x, 'anchor_') if pc == 0 else None
                r = {2: 'Segment', 3: 'Tria', 4: 'Quad'}[2 if pc else len(A.sub[0, i, 2])]
                if not c.require('%s/pat%d.%d' % (key, pc, i), w, pat in PATTERNS[r], '%s %d has the refinement pattern %s' % (r, i, pat)):
                    return None
                o = new(I, 'lf::refinement::Hybrid2DRefinementPattern', ref_el(I, r), EN[pat], anc) if anc is not None else new(I, 'lf::refinement::Hybrid2DRefinementPattern', ref_el(I, r), EN[pat])
                for cd, l in L:
                    n = num(mcall(I, o, 'NumChildren', cd - pc))
                    c.require('%s/num%d.%d/%d' % (key, pc, i, cd), w, len(l) == n, '%s %d refined by %s has %d instead of %s children of co-dimension %d' % (r, i, pat, len(l), n, cd))
                if pc == 0:
                    sp = PATTERNS[r][pat]
                    want = {(s + (anc if pat not in SYM and sp else 0)) % len(A.sub[0, i, 1]) for s in sp}
                    got = {k for k, e in enumerate(A.sub[0, i, 1]) if fld(I, ein[e], 'ref_pat_') == EN['rp_split']}
                    c.require('%s/split%d' % (key, i), w, want == got, 'cell %d is refined by %s with anchor %s, but its edges %s are split' % (i, pat, anc, sorted(got)))
            for cd, l in L:
                for k, ch in enumerate(l):
                    if not c.require('%s/child%d.%d/%d.%d' % (key, pc, i, cd, k), w, 0 <= ch < B.n(cd) and (cd, ch) not in kids, 'child %d of co-dimension %d of entity %d (co-dimension %d) has the index %s (%s)' % (k, cd, i, pc, ch, 'already the child %s' % (kids.get((cd, ch)),))):
                        return None
                    kids[cd, ch] = (pc, i), k
    for cd in (0, 1, 2):
        c.require('%s/parents%d' % (key, cd), w, len(parents[cd]) == B.n(cd), 'parent information for %d of %d entities of co-dimension %d' % (len(parents[cd]), B.n(cd), cd))
        for i, e in enumerate(B.E[cd]):
            k = '%s/%d.%d' % (key, cd, i)
            if not c.require(k + '/parent', w, (cd, i) in kids, 'entity %d of co-dimension %d of the fine mesh is not the child of any entity' % (i, cd)):
                return None
            (pc, pi), num_ = kids[cd, i]
            x = parents[cd][i]
            c.require(k + '/info', w, obj(I, fld(I, x, 'parent_ptr')) is A.E[pc][pi] and fld(I, x, 'parent_index') == pi and fld(I, x, 'child_number') == num_, 'the parent information of entity %d of co-dimension %d does not name entity %d of co-dimension %d, child %d' % (i, cd, pi, pc, num_))
            g, par = rel(cd, e)
            c.require(k + '/ParentEntity', w, par is A.E[pc][pi], 'ParentEntity() is not entity %d of co-dimension %d' % (pi, pc))
            # position in the parent
            T = {0: {3: 'Tria', 4: 'Quad'}.get(len(B.sub[0, i, 2])) if cd == 0 else None, 1: 'Segment', 2: 'Point'}[cd]
            cols = list(VERT[T])
            np_ = 1 if pc == 2 else 2 if pc == 1 else len(A.sub[0, pi, 2])
            pat = nm[fld(I, infos[2 - pc][pi], 'ref_pat' if pc == 2 else 'ref_pat_')]
            full = np_ <= 3 or pat in ('rp_regular', 'rp_split', 'rp_bisect', 'rp_copy')
            if full and cd < 2:
                cols.append((S('t'),) if cd == 1 else (S('t'), S('s')))
            W = [[y.v for y in r] for r in at(I, e, cols).cells] if cd < 2 else [[r[0].v] for r in mcall(I, obj(I, mcall(I, e, 'Geometry')), 'Global', eigen.new_mat(0, 1)).cells]
            if pc == 2:
                loc_ = None
                V = [[r[0].v] for r in mcall(I, obj(I, mcall(I, A.E[2][pi], 'Geometry')), 'Global', eigen.new_mat(0, 1)).cells]
            else:
                G = mcall(I, g, 'Global', eigen.new_mat(len(cols[0]), len(cols), -1, -1, 'double', False, lambda a, b: cols[b][a] if isinstance(cols[b][a], RF) else C(F(cols[b][a]))))
                V = [[y.v for y in r] for r in mcall(I, obj(I, mcall(I, A.E[pc][pi], 'Geometry')), 'Global', G).cells]
            for a in range(len(W)):
                for b in range(len(W[0])):
                    c.equal('%s/geo%d.%d' % (k, a, b), w, W[a][b], V[a][b], what='the geometry of fine entity %d of co-dimension %d does not agree with GeometryInParent() mapped by the parent (entity %d of co-dimension %d, child %d)' % (i, cd, pi, pc, num_))
    # conformity
    cnt = {cd: [0] * m.n(1) for cd, m in ((0, A), (1, B))}
    for t, m in ((0, A), (1, B)):
        for i in range(m.n(0)):
            for e in m.sub[0, i, 1]:
                if e is not None:
                    cnt[t][e] += 1
    for i in range(B.n(1)):
        (pc, pi), _ = kids[1, i]
        want = 2 if pc == 0 else cnt[0][pi]
        c.require('%s/conf%d' % (key, i), w, cnt[1][i] == want, 'fine edge %d (child of the %s %d) belongs to %d instead of %d cells' % (i, 'cell' if pc == 0 else 'edge', pi, cnt[1][i], want))
    return kids


def structure(c, I, key, w, B):
    """a mesh is consistent in itself: incidence, orientation, matching geometries"""
    t = S('t')
    for cd in (0, 1, 2):
        c.require('%s/n%d' % (key, cd), w, fcall(I, 'lfv::numc', Cell(B.m), cd) == B.n(cd), 'NumEntities(%d)' % cd)
        for i, e in enumerate(B.E[cd]):
            c.require('%s/ix%d.%d' % (key, cd, i), w, mcall(I, B.m, 'Index', Cell(e)) == i and mcall(I, e, 'Codim') == cd, 'Index() of entity %d of co-dimension %d' % (i, cd))
    tr = {}
    for i, e in enumerate(B.E[1]):
        W = at(I, e, [(0,), (1,), (t,)])
        tr[i] = [W.cells[k][2].v for k in range(W.rows)]
        for j, v in enumerate(B.sub[1, i, 1]):
            P = mcall(I, obj(I, mcall(I, B.E[2][v], 'Geometry')), 'Global', eigen.new_mat(0, 1))
            for k in range(W.rows):
                c.equal('%s/e%d/end%d.%d' % (key, i, j, k), w, W.cells[k][j].v, P.cells[k][0].v, what='endpoint %d of edge %d is not at its node %d' % (j, i, v))
    for i, e in enumerate(B.E[0]):
        vs = B.sub[0, i, 2]
        n = len(vs)
        ce = B.sub[0, i, 1]
        o = [I.rv(x) for x in mcall(I, e, 'RelativeOrientations').items]
        if not c.require('%s/c%d/inc' % (key, i), w, None not in vs + ce and len(set(vs)) == n and all(set(B.sub[1, ce[j], 1]) == {vs[j], vs[(j + 1) % n]} for j in range(n)), 'cell %d with nodes %s has the edges %s' % (i, vs, [B.sub.get((1, x, 1)) for x in ce])):
            continue
        c.require('%s/c%d/or' % (key, i), w, o == [1 if B.sub[1, ce[j], 1][0] == vs[j] else -1 for j in range(n)], 'relative orientations of cell %d' % i)
        ref = VERT['Tria' if n == 3 else 'Quad']
        cols = []
        for j in range(n):
            p, q = ref[j], ref[(j + 1) % n]
            if o[j] == -1:
                p, q = q, p
            cols.append(tuple(C(F(a)) + C(F(b - a)) * t for a, b in zip(p, q)))
        g = at(I, e, cols)
        for j in range(n):
            for k in range(g.rows):
                c.equal('%s/c%d/trace%d.%d' % (key, i, j, k), w, g.cells[k][j].v, tr[ce[j]][k], what='the geometry of cell %d along its edge %d is not that of the edge' % (i, j))


class Hier:
    def __init__(self, P, sp, ref):
        """ref: refinement edge of cell i of the base mesh (LongestEdge is decided separately)"""
        alg.reset()
        self.I = I = Interp(P)
        self.P = P
        self.n = 0
        self.ref = ref
        I.hooks['lf::refinement::MeshHierarchy::LongestEdge'] = self.longest
        f = factory(I, sp.d)
        sp.feed(I, f)
        self.sp = sp
        self.mesh = fcall(I, 'lfv::build', f)
        self.levels = []

    def start(self):
        self.h = obj(self.I, fcall(self.I, 'lfv::hier', self.mesh, self.sp.d))
        self.sync()
        return self

    def longest(self, I, e, ob, args):
        self.n += 1
        return Cell(self.ref[(self.n - 1) % len(self.ref)] if self.n <= len(self.ref) else (self.n * 7 + 1) % 3)

    def sync(self):
        I = self.I
        n = fcall(I, 'lfv::levels', Cell(self.h))
        for l in range(len(self.levels), n):
            self.levels.append(Level(I, obj(I, fcall(I, 'lfv::level', Cell(self.h), l))))

    def vecof(self, name, *a):
        return [I_rv(self.I, x) for x in mcall(self.I, self.h, name, *a).items]

    def mark(self, s):
        L = self.levels[-1]
        fcall(self.I, 'lfv::mark', Cell(self.h), Vec([Cell(i in s) for i in range(L.n(1))], 'vector'))

    def infos(self, l):
        return [mcall(self.I, self.h, n, l).items for n in ('PointChildInfos', 'EdgeChildInfos', 'CellChildInfos')]

    def parents(self, l):
        return [mcall(self.I, self.h, 'ParentInfos', l, cd).items for cd in (0, 1, 2)]

    def redges(self, l):
        return [self.I.rv(x) for x in mcall(self.I, self.h, 'RefinementEdges', l).items]

    def rel(self, l):
        I = self.I

        def f(cd, e):
            return obj(I, mcall(I, self.h, 'GeometryInParent', l, Cell(e))), obj(I, mcall(I, self.h, 'ParentEntity', l, Cell(e)))
        return f

    def check(self, c, key, w):
        l = len(self.levels) - 1
        A, B = self.levels[-2:]
        inf = self.infos(l - 1)
        kids = refine_level(c, self.I, key, w, A, B, inf, self.parents(l), self.rel(l))
        structure(c, self.I, key, w, B)
        return kids


def I_rv(I, x):
    return I.rv(x)


SAMP = lambda i: {'t': F(i + 1, 9), 's': F(i + 1, 17)}


def trias(sp):
    return [i for i, (v, _) in enumerate(sp.cells) if len(v) == 3]


def R04(pid):
    c = Check(pid, rule='The constructor of MeshHierarchy, RefineRegular, RefineMarked, PerformRefinement, initGeometryInParent and GenerateMeshHierarchyByUniformRefinemnt are abstractly interpreted together with hybrid2d::MeshFactory/Mesh on cell complexes with symbolic node positions. For every new level: child and parent tables are inverse to each other and complete, numbers of children match the refinement pattern, the fine mesh is conforming and consistent in itself, and the geometry of every fine entity is the parent geometry applied to GeometryInParent (polynomial identities).')
    P = hier_unit()
    thorough = TIER == 'thorough'
    E = enum(P, 'lf::refinement::RefPat')
    w = loc(P.fn('lf::refinement::MeshHierarchy::PerformRefinement'))
    jobs = []
    for name, nv, cells, edges in BASE:
        for d in (2, 3):
            for order in (1, 2):
                sp = MeshSpec('%s/%dD/O%d' % (name, d, order), d, nv, [(v, True) for v in cells], [(e, True) for e in edges], order)
                for pat in ('rp_regular', 'rp_barycentric'):
                    if pat == 'rp_barycentric' and (any(len(v) == 4 for v in cells)):
                        continue
                    if order == 2 and not thorough and name not in ('tri', 'quad', 'tq'):
                        continue
                    n = 2 if order == 1 and (thorough or (d == 2 and name in ('tri', 'quad', 'tq'))) else 1
                    jobs.append((sp, pat, n, False))
                    if order == 1:
                        jobs.append((sp, pat, 2 if d == 2 and name in ('tri', 'quad') else 1, True))

    def one(j):
        sp, pat, n, gen = j
        key = '%s/%s/%s' % (sp.name, pat, 'gen' if gen else 'steps')

        def run():
            H = Hier(P, sp, [0] * len(trias(sp)))
            if gen:
                H.h = obj(H.I, fcall(H.I, 'lfv::gen', H.mesh, n, E[pat]))
                H.sync()
                c.require(key + '/levels', w, len(H.levels) == n + 1, '%d refinement steps yield %d levels' % (n, len(H.levels)))
                LV, H.levels = H.levels, []
                for l in range(1, len(LV)):
                    H.levels = LV[:l + 1]
                    H.check(c, '%s/L%d' % (key, l), w)
            else:
                H.start()
                for l in range(1, n + 1):
                    fcall(H.I, 'lfv::regular', Cell(H.h), E[pat])
                    H.sync()
                    c.require(key + '/levels%d' % l, w, len(H.levels) == l + 1, 'number of levels after %d refinements is %d' % (l, len(H.levels)))
                    H.check(c, '%s/L%d' % (key, l), w)
            c.no_abort(key, H.I, SAMP)
            c.cover(H.I)
        c.attempt(key, w, run)
    c.par(jobs, one)
    return c.finish(1000)


def local_jobs(thorough, rnd):
    jobs = []
    for name, nv, cells, edges in BASE:
        sp = MeshSpec('%s/2D/O1' % name, 2, nv, [(v, True) for v in cells], [(e, True) for e in edges])
        ne = len(sp.topo())
        al = [(r, s) for r in itertools.product(range(3), repeat=len(trias(sp))) for s in itertools.product((0, 1), repeat=ne)]
        cap = 10 ** 9 if thorough else {'tri': 24, 'quad': 16, 'tt': 150, 'tq': 150, 'qq': 128, 'tqt': 100}[name]
        if len(al) > cap:
            al = rnd.sample(al, cap)
        for r, s in al:
            jobs.append((sp, r, [{i for i, b in enumerate(s) if b}], None))
    # histories of several steps; marks of later steps are chosen when the number of edges is known
    for k in range(600 if thorough else 60):
        name, nv, cells, edges = BASE[k % len(BASE)]
        sp = MeshSpec('%s/2D/O1' % name, 2, nv, [(v, True) for v in cells], [(e, True) for e in edges])
        r = tuple(rnd.randrange(3) for _ in trias(sp))
        jobs.append((sp, r, [None] * (2 if not thorough else rnd.choice((2, 2, 3))), k))
    return jobs


def local_step(c, H, key, marked, w):
    """mark, refine, compare with the closure"""
    I = H.I
    l = len(H.levels) - 1
    A = H.levels[-1]
    ref = H.redges(l)
    for i in range(A.n(0)):
        if len(A.sub[0, i, 2]) == 3:
            if not c.require('%s/ref%d' % (key, i), w, ref[i] in (0, 1, 2), 'triangle %d has the refinement edge %s' % (i, ref[i])):
                return False
    H.mark(marked)
    fcall(I, 'lfv::local', Cell(H.h))
    H.sync()
    c.require(key + '/levels', w, len(H.levels) == l + 2, 'number of levels')
    want = closure(A, marked, ref)
    E = enum(I.p, 'lf::refinement::RefPat')
    got = {i for i, x in enumerate(H.infos(l)[1]) if fld(I, x, 'ref_pat_') == E['rp_split']}
    c.require(key + '/closure', w, got == want, 'marking the edges %s (refinement edges %s, cells %s) splits the edges %s instead of %s' % (sorted(marked), ref, [A.sub[0, i, 1] for i in range(A.n(0))], sorted(got), sorted(want)))
    return H.check(c, key, w)


def R05(pid):
    c = Check(pid, rule='MarkEdges and RefineMarked are abstractly interpreted with symbolic node positions for enumerated sets of marked edges, choices of refinement edges and histories of several refinement steps (also mixed with regular refinement). The set of split edges is the smallest closed set containing the marked ones, refinement patterns of cells agree with their split edges, and all obligations of R04 hold for the new level.')
    P = hier_unit()
    thorough = TIER == 'thorough'
    rnd = random.Random(SEED)
    w = loc(P.fn('lf::refinement::MeshHierarchy::RefineMarked'))

    def one(j):
        sp, r, steps, hist = j
        key = '%s/%s/%s' % (sp.name, ''.join(map(str, r)), 'h%d' % hist if hist is not None else ''.join(str(int(i in steps[0])) for i in range(len(sp.topo()))))

        def run():
            H = Hier(P, sp, list(r) or [0]).start()
            q = random.Random(SEED * 1000003 + (hist or 0))
            for n, s in enumerate(steps):
                L = H.levels[-1]
                if s is None:
                    p = q.choice((0.15, 0.3, 0.6))
                    s = {i for i in range(L.n(1)) if q.random() < p}
                if hist is not None and n == 0 and hist % 4 == 3:
                    fcall(H.I, 'lfv::regular0', Cell(H.h))
                    H.sync()
                    if H.check(c, '%s/r%d' % (key, n), w) is None:
                        return
                    continue
                if not local_step(c, H, '%s/s%d' % (key, n), s, w):
                    return
            c.no_abort(key, H.I, SAMP)
            c.cover(H.I)
        c.attempt(key, w, run)
    c.par(local_jobs(thorough, rnd), one)
    return c.finish(1000)


def R06(pid):
    c = Check(pid, rule='LongestEdge is abstractly interpreted on triangles and quadrilaterals with symbolic corner positions and its decision tree evaluated for all orders of the edge lengths. The constructor, RefineRegular and RefineMarked are interpreted with every choice of the refinement edge of the parent and every set of marked edges: children made by copying keep the refinement edge, children made by bisection have the edge opposite to the new node, children made by regular refinement the edge parallel to that of the parent, and coarsest triangles, children of barycentric refinement and triangular children of quadrilaterals the result of LongestEdge for that very cell.')
    P = hier_unit()
    thorough = TIER == 'thorough'
    wl = loc(P.fn('lf::refinement::MeshHierarchy::LongestEdge'))
    wp = loc(P.fn('lf::refinement::MeshHierarchy::PerformRefinement'))
    E = enum(P, 'lf::refinement::RefPat')
    nm = {v: k for k, v in E.items()}

    def longest(cell, d, rev):
        alg.reset()
        I = Interp(P)
        n = len(cell)
        key = 'longest/%d/%dD/%s' % (n, d, rev)

        def run():
            f = factory(I, d)
            sp = MeshSpec('x', d, n, [(cell, True)], [((cell[1], cell[0]), True), ((cell[0], cell[n - 1]), True)] if rev else [])
            sp.feed(I, f)
            m = obj(I, fcall(I, 'lfv::build', f))
            K = obj(I, ents(I, m, 0)[0])
            r = fcall(I, 'lf::refinement::MeshHierarchy::LongestEdge', Cell(K))
            rnd = random.Random(SEED)
            seen = set()
            for q in range(4000):
                sc = F(10) ** rnd.choice((-6, 0, 0, 6))
                v = {}
                for a in range(n):
                    for k in range(d):
                        v['x%d_%d' % (a, k)] = F(rnd.randrange(-9, 10)) * sc
                L = []
                for j in range(n):
                    A, B = cell[j], cell[(j + 1) % n]
                    L.append(sum((v['x%d_%d' % (A, k)] - v['x%d_%d' % (B, k)]) ** 2 for k in range(d)))
                if min(L) == 0 or (len(set(L)) < n and q % 3):
                    continue
                o = tuple(sorted(set(L)).index(x) for x in L)
                if (o, sc) in seen and q > 200:
                    continue
                seen.add((o, sc))
                g = evalnum(r, Env(v))
                c.require('%s/%d' % (key, q), wl, g == int(g) and 0 <= g < n and L[int(g)] == max(L), 'edge %s is chosen although the squared edge lengths are %s' % (g, [float(x) for x in L]))
                if not (g == int(g) and 0 <= g < n and L[int(g)] == max(L)):
                    return
            tot = 6 if n == 3 else 24
            if len({o for o, _ in seen if len(set(o)) == n}) < tot:
                c.undec(key + '/orders', 'not all orders of edge lengths were realised')
            c.no_abort(key, I, lambda i: {'x%d_%d' % (a, k): F(2 * a * a + 3 * k * a + i + k, 7) for a in range(n) for k in range(d)})
            c.cover(I)
        c.attempt(key, wl, run)

    def inherit(H, key):
        """obligations between the last two levels"""
        I = H.I
        l = len(H.levels) - 1
        A, B = H.levels[-2:]
        ra, rb = H.redges(l - 1), H.redges(l)
        par = H.parents(l)[0]
        inf = H.infos(l - 1)
        copy = [fld(I, x, 'child_point_idx') for x in inf[0]]
        mid_ = [[I.rv(y) for y in fld(I, x, 'child_point_idx').items] for x in inf[1]]
        c.require(key + '/size', wp, len(rb) == B.n(0), 'refinement edges of %d of %d cells' % (len(rb), B.n(0)))
        for i in range(B.n(0)):
            vs = B.sub[0, i, 2]
            if len(vs) == 4:
                continue
            k = '%s/c%d' % (key, i)
            if not c.require(k, wp, rb[i] in (0, 1, 2), 'triangle %d has the refinement edge %s' % (i, rb[i])):
                return
            ed = {vs[rb[i]], vs[(rb[i] + 1) % 3]}
            p = fld(I, par[i], 'parent_index')
            pv = A.sub[0, p, 2]
            pat = nm[fld(I, inf[2][p], 'ref_pat_')]
            if len(pv) == 4 or pat == 'rp_barycentric':
                got = [r for e, r in H.calls if e is B.E[0][i]]
                c.require(k + '/longest', wp, len(set(got)) == 1 and got[0] == rb[i], 'refinement edge %s of triangle %d, a child of %s, is not the result %s of LongestEdge for it' % (rb[i], i, 'a quadrilateral' if len(pv) == 4 else 'barycentric refinement', got))
                continue
            r = ra[p]
            pe = (copy[pv[r]], copy[pv[(r + 1) % 3]])
            if pat == 'rp_copy':
                c.require(k + '/copy', wp, ed == set(pe), 'the copy of a triangle with refinement edge %d has the refinement edge %d' % (r, rb[i]))
            elif pat == 'rp_bisect':
                m = mid_[A.sub[0, p, 1][r]]
                c.require(k + '/bisect', wp, m and m[0] in vs and m[0] not in ed, 'the refinement edge %d of a child of a bisected triangle contains the new node' % rb[i])
            elif pat == 'rp_regular':
                X = [[I.rv(q) for q in r_] for r_ in at(I, B.E[0][i], [VERT['Tria'][rb[i]], VERT['Tria'][(rb[i] + 1) % 3]]).cells]
                Y = [[I.rv(q) for q in r_] for r_ in at(I, A.E[0][p], [VERT['Tria'][r], VERT['Tria'][(r + 1) % 3]]).cells]
                c.equal(k + '/parallel', wp, (X[0][1] - X[0][0]) * (Y[1][1] - Y[1][0]), (X[1][1] - X[1][0]) * (Y[0][1] - Y[0][0]), what='child %s of a regularly refined triangle with refinement edge %d has the refinement edge %d, which is not parallel to it' % (fld(I, par[i], 'child_number'), r, rb[i]))

    def step(j):
        sp, r, pat, marks = j
        key = '%s/%s/%s' % (sp.name, ''.join(map(str, r)), pat or sorted(marks))

        def run():
            H = Hier(P, sp, list(r) or [0])
            H.calls = []
            H.I.hooks['lf::refinement::MeshHierarchy::LongestEdge'] = lambda I, e, ob, args: hook(H, args)
            H.start()
            L = H.levels[0]
            r0 = H.redges(0)
            for i in range(L.n(0)):
                if len(L.sub[0, i, 2]) == 3:
                    got = [x for e, x in H.calls if e is L.E[0][i]]
                    c.require('%s/base%d' % (key, i), wp, len(set(got)) == 1 and r0[i] == got[0], 'refinement edge %s of triangle %d of the coarsest mesh is not the result %s of LongestEdge for it' % (r0[i], i, got))
            if pat:
                fcall(H.I, 'lfv::regular', Cell(H.h), E[pat])
            else:
                H.mark(marks)
                fcall(H.I, 'lfv::local', Cell(H.h))
            H.sync()
            inherit(H, key)
            c.cover(H.I)
        c.attempt(key, wp, run)

    def hook(H, args):
        e = obj(H.I, args[0])
        x = H.longest(H.I, None, None, args)
        for q, v in H.calls:
            if q is e:
                return Cell(v)
        H.calls.append((e, x.v))
        return x

    jobs = []
    for cell in ((0, 1, 2), (2, 0, 1), (0, 1, 2, 3), (3, 0, 1, 2)):
        for d in (2, 3):
            for rev in (False, True):
                jobs.append((cell, d, rev))
    rnd = random.Random(SEED)
    for name, nv, cells, edges in BASE:
        sp = MeshSpec('%s/2D/O1' % name, 2, nv, [(v, True) for v in cells], [(e, True) for e in edges])
        ne = len(sp.topo())
        tri = len(trias(sp))
        for r in itertools.product(range(3), repeat=tri):
            jobs.append((sp, r, 'rp_regular', None))
            if tri == len(cells):
                jobs.append((sp, r, 'rp_barycentric', None))
            al = list(itertools.product((0, 1), repeat=ne))
            if not thorough and ne > 3:
                al = rnd.sample(al, min(len(al), 6 if tri > 1 else 12))
            for s in al:
                jobs.append((sp, r, None, {i for i, b in enumerate(s) if b}))
    c.par(jobs, lambda j: longest(*j) if len(j) == 3 else step(j))
    return c.finish(1000)
