"""Files: N01 (GmshReader), N03 (VtkWriter)"""
from hier import *
from meshes import *

GW = '''
namespace lfv {
using V2 = lf::io::GMshFileV2;
using V4 = lf::io::GMshFileV4;
using GR = lf::io::GmshReader;
using lf::mesh::Entity;
std::shared_ptr<V2> v2() { return std::make_shared<V2>(); }
std::shared_ptr<V4> v4() { return std::make_shared<V4>(); }
void node2(V2& f, unsigned n, Eigen::Vector3d x) { f.Nodes.emplace_back(n, x); }
void elem2(V2& f, unsigned n, int t, int p, int e, std::vector<unsigned> v) {
  V2::Element x;
  x.Number = n;
  x.Type = static_cast<V2::ElementType>(t);
  x.PhysicalEntityNr = p;
  x.ElementaryEntityNr = e;
  x.NodeNumbers = v;
  f.Elements.push_back(x);
}
void name2(V2& f, int d, int n, std::string s) { f.PhysicalEntities.push_back({d, n, s}); }
void nodes4(V4& f, unsigned lo, unsigned hi) { f.nodes.min_node_tag = lo; f.nodes.max_node_tag = hi; }
void nblock4(V4& f, int d, int t) {
  V4::NodeBlock b;
  b.entity_dim = d;
  b.entity_tag = t;
  f.nodes.node_blocks.push_back(b);
}
void node4(V4& f, unsigned n, Eigen::Vector3d x) { f.nodes.node_blocks.back().nodes.emplace_back(n, x); }
void eblock4(V4& f, int d, int t, int ty) {
  V4::ElementBlock b;
  b.dimension = d;
  b.entity_tag = t;
  b.element_type = static_cast<V4::ElementType>(ty);
  f.elements.element_blocks.push_back(b);
}
void elem4(V4& f, unsigned n, std::vector<std::size_t> v) { f.elements.element_blocks.back().elements.emplace_back(n, v); }
void ent4(V4& f, int d, int t, std::vector<int> p) {
  if (d == 0) { V4::PointEntity e; e.tag = t; e.physical_tags = p; std::get<0>(f.entities).push_back(e); return; }
  V4::Entity e;
  e.tag = t;
  e.physical_tags = p;
  if (d == 1) std::get<1>(f.entities).push_back(e);
  if (d == 2) std::get<2>(f.entities).push_back(e);
}
void pent4(V4& f, int d, int t, std::vector<int> p) {
  f.partitioned_entities.num_partitions = 2;
  if (d == 0) { V4::PartitionedPointEntity e; e.tag = t; e.physical_tags = p; std::get<0>(f.partitioned_entities.partitioned_entities).push_back(e); return; }
  V4::PartitionedEntity e;
  e.tag = t;
  e.physical_tags = p;
  if (d == 1) std::get<1>(f.partitioned_entities.partitioned_entities).push_back(e);
  if (d == 2) std::get<2>(f.partitioned_entities.partitioned_entities).push_back(e);
}
void name4(V4& f, int d, int n, std::string s) { f.physical_names.push_back({d, n, s}); }
std::shared_ptr<GR> read2(unsigned d, const V2& f) { return std::make_shared<GR>(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(d), GR::GmshFileVariant(f)); }
std::shared_ptr<GR> read4(unsigned d, const V4& f) { return std::make_shared<GR>(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(d), GR::GmshFileVariant(f)); }
std::shared_ptr<lf::mesh::Mesh> rmesh(GR& r) { return r.mesh(); }
std::vector<unsigned> phys(const GR& r, const Entity& e) { return r.PhysicalEntityNr(e); }
bool isphys(const GR& r, const Entity& e, unsigned n) { return r.IsPhysicalEntity(e, n); }
unsigned n2n(const GR& r, std::string s, unsigned c) { return r.PhysicalEntityName2Nr(s, c); }
unsigned n2n1(const GR& r, std::string s) { return r.PhysicalEntityName2Nr(s); }
std::string nr2n(const GR& r, unsigned n, unsigned c) { return r.PhysicalEntityNr2Name(n, c); }
std::string nr2n1(const GR& r, unsigned n) { return r.PhysicalEntityNr2Name(n); }
auto ents(const GR& r, unsigned c) { return r.PhysicalEntities(c); }
int num2(int t) { return lf::io::NumNodes(static_cast<V2::ElementType>(t)); }
int num4(int t) { return lf::io::NumNodes(static_cast<V4::ElementType>(t)); }
int dim2(int t) { return lf::io::DimOf(static_cast<V2::ElementType>(t)); }
int dim4(int t) { return lf::io::DimOf(static_cast<V4::ElementType>(t)); }
lf::base::RefEl ref2(int t) { return lf::io::RefElOf(static_cast<V2::ElementType>(t)); }
lf::base::RefEl ref4(int t) { return lf::io::RefElOf(static_cast<V4::ElementType>(t)); }
}
'''


def gmsh_unit():
    src = [f for f in module_sources('lib/lf/mesh/hybrid2d', 'lib/lf/mesh', 'lib/lf/geometry', 'lib/lf/base') +
           [os.path.join(REPO, 'lib/lf/refinement/hybrid2d_refinement_pattern.cc'), os.path.join(REPO, 'lib/lf/refinement/refinement.cc')] +
           [os.path.join(REPO, 'lib/lf/io/' + f) for f in ('gmsh_file_v2.cc', 'gmsh_file_v4.cc', 'gmsh_reader.cc')] if os.path.exists(f)]
    return export('gmsh', '#include <lf/mesh/hybrid2d/hybrid2d.h>\n' + unity(src, GW))


# gmsh element types: number, number of nodes, dimension, shape
GTYPES = {1: (2, 1, 'Segment'), 2: (3, 2, 'Tria'), 3: (4, 2, 'Quad'), 4: (4, 3, None), 5: (8, 3, None), 6: (6, 3, None), 7: (5, 3, None),
          8: (3, 1, 'Segment'), 9: (6, 2, 'Tria'), 10: (9, 2, 'Quad'), 11: (10, 3, None), 12: (27, 3, None), 13: (18, 3, None), 14: (14, 3, None),
          15: (1, 0, 'Point'), 16: (8, 2, 'Quad'), 17: (20, 3, None), 18: (15, 3, None), 19: (13, 3, None), 20: (9, 2, 'Tria'), 21: (10, 2, 'Tria'),
          22: (12, 2, 'Tria'), 23: (15, 2, 'Tria'), 24: (15, 2, 'Tria'), 25: (21, 2, 'Tria'), 26: (4, 1, 'Segment'), 27: (5, 1, 'Segment'),
          28: (6, 1, 'Segment'), 29: (20, 3, None), 30: (35, 3, None), 31: (56, 3, None), 92: (64, 3, None), 93: (125, 3, None)}
NV = {15: 1, 1: 2, 8: 2, 2: 3, 9: 3, 3: 4, 16: 4, 10: 4}
# reference coordinates of the gmsh nodes (vertices, then edge midpoints)
H_ = F(1, 2)
GREF = {1: [(0,), (1,)], 8: [(0,), (1,), (H_,)], 2: [(0, 0), (1, 0), (0, 1)], 9: [(0, 0), (1, 0), (0, 1), (H_, 0), (H_, H_), (0, H_)],
        3: [(0, 0), (1, 0), (1, 1), (0, 1)], 16: [(0, 0), (1, 0), (1, 1), (0, 1), (H_, 0), (1, H_), (H_, 1), (0, H_)]}
GREF[10] = GREF[16]


def st(s):
    return Opq('"' + s + '"', 'std::basic_string<char>')


class GFile:
    """abstract gmsh file: nodes [tag], elements [(type, node tags, geometric entity, physical numbers)]"""

    def __init__(self, name, d, tags, elems, names=()):
        self.name, self.d, self.tags, self.elems, self.names = name, d, tags, elems, names

    def x(self, t):
        return [S('x%d_%d' % (t, k)) if k < self.d else ZERO for k in range(3)]

    def vec(self, t):
        X = self.x(t)
        return eigen.new_mat(3, 1, 3, 1, 'double', False, lambda i, j: X[i])

    def v2(self, I):
        f = obj(I, fcall(I, 'lfv::v2'))
        for t in self.tags:
            fcall(I, 'lfv::node2', Cell(f), t, self.vec(t))
        n = 0
        for ty, vs, g, ph in self.elems:
            for p in ph:
                n += 1
                fcall(I, 'lfv::elem2', Cell(f), n, ty, p, g, Vec([Cell(v) for v in vs], 'vector'))
        for dim, num_, s in self.names:
            fcall(I, 'lfv::name2', Cell(f), dim, num_, st(s))
        return f

    def v4(self, I, part):
        f = obj(I, fcall(I, 'lfv::v4'))
        fcall(I, 'lfv::nodes4', Cell(f), min(self.tags), max(self.tags))
        for i, t in enumerate(self.tags):
            if i % 3 == 0:
                fcall(I, 'lfv::nblock4', Cell(f), 2, 1 + i)
            fcall(I, 'lfv::node4', Cell(f), t, self.vec(t))
        ents = {}
        last = None
        for n, (ty, vs, g, ph) in enumerate(self.elems):
            dim = GTYPES[ty][1]
            if (dim, g) in ents:
                assert ents[dim, g] == ph
            ents[dim, g] = ph
            if (dim, g, ty) != last:
                fcall(I, 'lfv::eblock4', Cell(f), dim, g, ty)
            last = (dim, g, ty)
            fcall(I, 'lfv::elem4', Cell(f), n + 1, Vec([Cell(v) for v in vs], 'vector'))
        for (dim, g), ph in sorted(ents.items(), reverse=True):
            fcall(I, 'lfv::pent4' if part else 'lfv::ent4', Cell(f), dim, g, Vec([Cell(p) for p in ph], 'vector'))
        for dim, num_, s in self.names:
            fcall(I, 'lfv::name4', Cell(f), dim, num_, st(s))
        return f

    def main(self):
        return [t for t in self.tags if any(t in vs[:NV[ty]] for ty, vs, g, ph in self.elems if GTYPES[ty][1] == 2)]

    def check(self, c, I, key, w, r):
        m = obj(I, fcall(I, 'lfv::rmesh', Cell(r)))
        main = self.main()
        N, E, Q = ents(I, m, 2), ents(I, m, 1), ents(I, m, 0)
        N, E, Q = [[obj(I, I.rv(x)) for x in L] for L in (N, E, Q)]
        if not c.require(key + '/nodes', w, len(N) == len(main), 'the mesh has %d nodes, the cells of the file have %d' % (len(N), len(main))):
            return
        d = self.d
        tag = {}
        for i, e in enumerate(N):
            X = I.rv(mcall(I, I.rv(mcall(I, e, 'Geometry')), 'Global', eigen.new_mat(0, 1, -1, -1, 'double', False, lambda a, b: ZERO)))
            for t in main:
                if all(exact_same(X.cells[k][0].v, self.x(t)[k]) for k in range(d)):
                    tag[id(e)] = t
        if not c.require(key + '/nodes/pos', w, len(set(tag.values())) == len(main), 'the nodes of the mesh are not at the positions of the nodes of the file'):
            return
        exp = {id(e): [] for L in (N, E, Q) for e in L}
        node = {}
        for e in N:
            node[tag[id(e)]] = e
        used = {}
        nv = {}
        for L in (E, Q):
            for e in L:
                nv[id(e)] = [tag[id(obj(I, I.rv(x)))] for x in I.rv(mcall(I, e, 'SubEntities', 1 if L is E else 2)).items]
        for n, (ty, vs, g, ph) in enumerate(self.elems):
            k = '%s/e%d' % (key, n)
            dim = GTYPES[ty][1]
            if dim == 0:
                if vs[0] in node:
                    exp[id(node[vs[0]])] += ph
                continue
            vv = list(vs[:NV[ty]])
            hit = [e for e in (E if dim == 1 else Q) if (sorted(nv[id(e)]) == sorted(vv) if dim == 1 else nv[id(e)] == vv)]
            if not c.require(k + '/one', w, len(hit) == 1, 'the element of type %d with the nodes %s appears %d times in the mesh' % (ty, list(vs), len(hit))):
                continue
            e = hit[0]
            exp[id(e)] += ph
            used.setdefault(id(e), n)
            R = GREF[ty]
            G = I.rv(mcall(I, e, 'Geometry'))
            X = I.rv(mcall(I, G, 'Global', eigen.new_mat(dim, len(R), -1, -1, 'double', False, lambda a, b: C(F(R[b][a])))))
            flip = dim == 1 and nv[id(e)] != vv
            for b in range(len(R)):
                t = vs[1 - b] if flip and b < 2 else vs[b]
                for a in range(d):
                    c.equal('%s/x%d%d' % (k, b, a), w, X.cells[a][b].v, self.x(t)[a], what='the geometry of the element of type %d does not pass through its node %d' % (ty, b))
        ncell = len({tuple(vs) for ty, vs, g, ph in self.elems if GTYPES[ty][1] == 2})
        c.require(key + '/cells', w, len(Q) == ncell, 'the mesh has %d cells, the file %d' % (len(Q), ncell))
        wp = w
        allnr = sorted({p for _, _, _, ph in self.elems for p in ph} | {77})
        for cd, L in ((2, N), (1, E), (0, Q)):
            for i, e in enumerate(L):
                got = [int(num(I.rv(x))) for x in I.rv(fcall(I, 'lfv::phys', Cell(r), Cell(e))).items]
                c.require('%s/phys%d.%d' % (key, cd, i), wp, got == sorted(exp[id(e)]), 'an entity of co-dimension %d that belongs to the physical entities %s is reported to belong to %s' % (cd, sorted(exp[id(e)]), got))
                for p in allnr:
                    b = I.rv(fcall(I, 'lfv::isphys', Cell(r), Cell(e), p))
                    c.require('%s/is%d.%d.%d' % (key, cd, i, p), wp, bool(num(b)) == (p in exp[id(e)]), 'IsPhysicalEntity(e, %d) is %s for an entity in %s' % (p, b, sorted(exp[id(e)])))


def gfiles(rnd, thorough):
    out = []
    #      0---1---4
    #      | / |  quad
    base = {'tq': (5, [(0, 1, 2), (1, 3, 4, 2)], [(0, 1), (3, 1), (2, 0)]),
            'tt': (4, [(1, 2, 0), (1, 3, 2)], [(1, 2), (1, 3)]),
            'q': (4, [(0, 1, 2, 3)], [(1, 0), (2, 3), (3, 0)])}
    names = [(2, 1, 'a'), (1, 2, 'a'), (0, 3, 'b'), (1, 4, 'c'), (2, 4, 'd')]
    for top, (nv, cells, edges) in base.items():
        for d in (2, 3):
            for order in (1, 2, 3):
                for v in range(6 if thorough else 3):
                    # vertices 0.., edge midpoints, centers; isolated node
                    lab = [('v', i) for i in range(nv)]
                    pr = []
                    for cl in cells:
                        for i in range(len(cl)):
                            p = frozenset((cl[i], cl[(i + 1) % len(cl)]))
                            if p not in pr:
                                pr.append(p)
                    if order > 1:
                        lab += [('m', p) for p in pr]
                    if order == 3:
                        lab += [('c', cl) for cl in cells if len(cl) == 4]
                    lab.append(('iso', 0))
                    tags = list(range(1, len(lab) + 1))
                    if v == 1:
                        tags = [t * 3 + 4 for t in tags]
                    if v >= 1:
                        rnd.shuffle(tags)
                    if v == 2:
                        # the isolated node has the largest tag
                        i = tags.index(max(tags))
                        tags[i], tags[-1] = tags[-1], tags[i]
                    T = dict(zip(lab, tags))

                    def nodes(cl):
                        r = [T['v', i] for i in cl]
                        if order > 1:
                            n = len(cl)
                            r += [T['m', frozenset((cl[i], cl[(i + 1) % n]))] for i in range(n if n > 2 else 1)]
                        if order == 3 and len(cl) == 4:
                            r.append(T['c', cl])
                        return tuple(r)
                    el = []
                    pl = [lab.index(('iso', 0))] + [i for i in range(nv)] + ([nv] if order > 1 else [])
                    rnd.shuffle(pl)
                    for q, i in enumerate(pl[:4 + v]):
                        el.append((15, (T[lab[i]],), 10 + q, [[3], [5, 2], [7, 3, 5], [1]][(q + v) % 4]))
                    ety = 1 if order == 1 else 8
                    for q, ed in enumerate(edges):
                        el.append((ety, nodes(ed), 3 + q // 2, [[2], [9, 4]][q // 2]))
                    for q, cl in enumerate(cells):
                        ty = {(3, 1): 2, (3, 2): 9, (3, 3): 9, (4, 1): 3, (4, 2): 16, (4, 3): 10}[len(cl), order]
                        el.append((ty, nodes(cl), 1 + q, [[1], [6, 4, 8]][(q + v) % 2]))
                    order_ = [T[l] for l in lab]
                    if v != 1:
                        rnd.shuffle(order_)
                    if v == 2:
                        el = el[::-1]
                    out.append(GFile('%s/%dD/O%d/%d' % (top, d, order, v), d, order_, el, names))
    return out


def N01(pid):
    c = Check(pid, rule='GmshReader, with the hybrid2d mesh factory, is abstractly interpreted on abstract gmsh files (version 2 and 4 data structures) with symbolic coordinates, shuffled and sparse tags, auxiliary and isolated nodes, first and second order elements in any order and entities in several physical groups. Each file element appears exactly once in the mesh, its geometry passes through all its gmsh nodes, and every entity has exactly the physical numbers of its file elements, ascending. Name/number lookups are compared with the table for all names, numbers and co-dimensions. The element type tables are compared with the gmsh format.')
    P = gmsh_unit()
    rnd = random.Random(SEED)
    thorough = TIER == 'thorough'
    w2, w4 = [loc(f) for f in P.funcs.values() if f['sq'].endswith('GmshReader::InitGmshFile')][:2]
    jobs = [(g, v) for g in gfiles(rnd, thorough) for v in (2, 4, 5)]
    jobs += ['lookup', 'types']

    def one(j):
        if j == 'lookup':
            return lookup(c, P)
        if j == 'types':
            return types(c, P)
        g, v = j
        key = '%s/v%s' % (g.name, {2: '2', 4: '4', 5: '4p'}[v])
        w = w2 if v == 2 else w4

        def run():
            alg.reset()
            I = Interp(P)
            f = g.v2(I) if v == 2 else g.v4(I, v == 5)
            r = obj(I, fcall(I, 'lfv::read2' if v == 2 else 'lfv::read4', g.d, Cell(f)))
            g.check(c, I, key, w, r)
            c.no_abort(key, I, SAMP)
            c.cover(I)
        c.attempt(key, w, run)
    c.par(jobs, one)
    return c.finish(1000)


def lookup(c, P):
    wn = loc(P.fn('lf::io::GmshReader::PhysicalEntityName2Nr'))
    wr = loc(P.fn('lf::io::GmshReader::PhysicalEntityNr2Name'))
    we = loc(P.fn('lf::io::GmshReader::PhysicalEntities'))
    univ = [(dm, n, s) for dm in (0, 1, 2) for n, s in ((1, 'a'), (2, 'a'), (1, 'b'), (3, 'c'))]
    rnd = random.Random(SEED)
    tables = [(), ((2, 1, 'a'),), ((2, 1, 'a'), (1, 2, 'a')), ((2, 1, 'a'), (1, 1, 'b'), (0, 3, 'c')), ((2, 1, 'a'), (1, 2, 'a'), (0, 3, 'b'), (0, 4, 'c')),
              ((1, 5, 'x'), (2, 5, 'y'), (0, 6, 'x'), (1, 7, 'y'), (0, 8, 'z'))]
    for _ in range(12):
        t = rnd.sample(univ, rnd.choice((3, 4, 5)))
        # per dimension, names and numbers correspond one to one
        if len({(a, b) for a, b, s in t}) == len(t) and len({(a, s) for a, b, s in t}) == len(t):
            tables.append(tuple(t))
    for ti, tab in enumerate(tables):
        for v in (2, 4):
            key = 'lookup%d/v%d' % (ti, v)

            def run():
                alg.reset()
                I = Interp(P)
                g = GFile('l', 2, [1, 2, 3], [(2, (1, 2, 3), 1, [1])], tab)
                f = g.v2(I) if v == 2 else g.v4(I, False)
                r = obj(I, fcall(I, 'lfv::read%d' % v, 2, Cell(f)))

                def call(*a):
                    try:
                        q = I.rv(fcall(I, a[0], Cell(r), *a[1:]))
                        return stdmodel.cstr(q) if isinstance(q, Opq) else int(num(q))
                    except ThrowEx:
                        return 'throws'
                for s in sorted({x[2] for x in tab} | {'zz'}):
                    have = {2 - dm: n for dm, n, q in tab if q == s}
                    for cd in (0, 1, 2, 3):
                        got = call('lfv::n2n', st(s), cd)
                        c.require('%s/n2n/%s/%d' % (key, s, cd), wn, got == have.get(cd, 'throws'), 'PhysicalEntityName2Nr("%s", %d) %s instead of %s for the names %s' % (s, cd, got, have.get(cd, 'throws'), list(tab)))
                    got = call('lfv::n2n1', st(s))
                    ex = list(have.values())[0] if len(have) == 1 else 'throws'
                    c.require('%s/n2n/%s' % (key, s), wn, got == ex, 'PhysicalEntityName2Nr("%s") %s instead of %s for the names %s' % (s, got, ex, list(tab)))
                for n in sorted({x[1] for x in tab} | {99}):
                    have = {2 - dm: s for dm, q, s in tab if q == n}
                    for cd in (0, 1, 2, 3):
                        got = call('lfv::nr2n', n, cd)
                        c.require('%s/nr2n/%s/%d' % (key, n, cd), wr, got == have.get(cd, 'throws'), 'PhysicalEntityNr2Name(%d, %d) %s instead of %s for the names %s' % (n, cd, got, have.get(cd, 'throws'), list(tab)))
                    got = call('lfv::nr2n1', n)
                    ex = list(have.values())[0] if len(have) == 1 else 'throws'
                    c.require('%s/nr2n/%s' % (key, n), wr, got == ex, 'PhysicalEntityNr2Name(%d) %s instead of %s for the names %s' % (n, got, ex, list(tab)))
                for cd in (0, 1, 2):
                    L = [tuple(I.rv(z.v) for z in I.rv(x).items) for x in I.rv(fcall(I, 'lfv::ents', Cell(r), cd)).items]
                    L = sorted((int(num(a)), stdmodel.cstr(b)) for a, b in L)
                    c.require('%s/list/%d' % (key, cd), we, L == sorted((n, s) for dm, n, s in tab if 2 - dm == cd), 'PhysicalEntities(%d) is %s for the names %s' % (cd, L, list(tab)))
                c.cover(I)
            c.attempt(key, wn, run)


def types(c, P):
    for ver in (2, 4):
        fn = [[f for f in P.funcs.values() if f['q'] == 'lf::io::' + n and ('V%d' % ver) in os.path.basename(f['file']).upper() and f.get('body')] for n in ('NumNodes', 'DimOf', 'RefElOf')]
        W = [loc(f[0]) if f else 'lib/lf/io/gmsh_file_v%d.cc' % ver for f in fn]
        for t, (n, d, shape) in GTYPES.items():
            key = 'type%d/v%d' % (t, ver)

            def run():
                alg.reset()
                I = Interp(P)
                got = int(num(I.rv(fcall(I, 'lfv::num%d' % ver, t))))
                c.require(key + '/num', W[0], got == n, 'NumNodes of the gmsh element type %d is %s instead of %d' % (t, got, n))
                got = int(num(I.rv(fcall(I, 'lfv::dim%d' % ver, t))))
                c.require(key + '/dim', W[1], got == d, 'DimOf the gmsh element type %d is %s instead of %d' % (t, got, d))
                if shape:
                    q = obj(I, fcall(I, 'lfv::ref%d' % ver, t))
                    nn = int(num(mcall(I, q, 'NumNodes')))
                    ex = {'Point': 1, 'Segment': 2, 'Tria': 3, 'Quad': 4}[shape]
                    c.require(key + '/ref', W[2], nn == ex, 'RefElOf the gmsh element type %d has %d nodes' % (t, nn))
                c.cover(I)
            c.attempt(key, W[0], run)


VW = '''
namespace lfv {
using W = lf::io::VtkWriter;
using MF = lf::mesh::hybrid2d::MeshFactory;
using lf::mesh::Entity;
using GP = std::unique_ptr<lf::geometry::Geometry>;
unsigned addp(MF& f, Eigen::VectorXd c) { return f.AddPoint(c); }
unsigned addg(MF& f, Eigen::VectorXd c) { GP g = std::make_unique<lf::geometry::Point>(c); return f.AddPoint(std::move(g)); }
unsigned add0(MF& f, lf::base::RefEl r, std::vector<unsigned> n) { return f.AddEntity(r, n, GP()); }
GP geo(int k, Eigen::MatrixXd c) {
  if (k == 2) return std::make_unique<lf::geometry::SegmentO1>(c);
  if (k == 3) return std::make_unique<lf::geometry::TriaO1>(c);
  if (k == 4) return std::make_unique<lf::geometry::QuadO1>(c);
  if (k == 5) return std::make_unique<lf::geometry::SegmentO2>(c);
  if (k == 6) return std::make_unique<lf::geometry::TriaO2>(c);
  return std::make_unique<lf::geometry::QuadO2>(c);
}
unsigned adde(MF& f, lf::base::RefEl r, std::vector<unsigned> n, int k, Eigen::MatrixXd c) { return f.AddEntity(r, n, geo(k, c)); }
std::shared_ptr<lf::mesh::Mesh> build(MF& f) { return f.Build(); }
std::shared_ptr<W> mk(std::shared_ptr<lf::mesh::Mesh> m, unsigned cd, int order) { return std::make_shared<W>(m, "x.vtk", cd, order); }
template <class T>
struct F {
  std::vector<T> operator()(const Entity& e, const Eigen::MatrixXd& x) const;
};
template <class T>
std::shared_ptr<lf::mesh::utils::CodimMeshDataSet<T>> data(std::shared_ptr<lf::mesh::Mesh> m, unsigned cd) { return lf::mesh::utils::make_CodimMeshDataSet<T>(m, cd); }
template <class T>
void put(lf::mesh::utils::CodimMeshDataSet<T>& d, const Entity& e, T v) { d(e) = v; }
template <class T>
struct Part : public lf::mesh::utils::MeshDataSet<T> {
  const T& operator()(const Entity& e) const override { return get(e); }
  bool DefinedOn(const Entity& e) const override { return def(e); }
  const T& get(const Entity& e) const;
  bool def(const Entity& e) const;
};
%s
void field_i(W& w, std::string s, std::vector<int> d) { w.WriteGlobalData(s, d); }
void field_f(W& w, std::string s, std::vector<float> d) { w.WriteGlobalData(s, d); }
void field_d(W& w, std::string s, std::vector<double> d) { w.WriteGlobalData(s, d); }
}
'''
VTYPES = {'i': ('int', 0), 'u': ('unsigned', 0), 'c': ('char', 0), 'b': ('unsigned char', 0), 'f': ('float', 0), 'd': ('double', 0), 'd2': ('Eigen::Vector2d', 2), 'f2': ('Eigen::Vector2f', 2),
          'd3': ('Eigen::Vector3d', 3), 'f3': ('Eigen::Vector3f', 3), 'dx': ('Eigen::VectorXd', -1), 'fx': ('Eigen::VectorXf', -1)}


def vtk_unit():
    body = ''
    for k, (t, _) in VTYPES.items():
        body += 'void pf_%s(W& w, std::string s) { w.WritePointData(s, F<%s>()); }\n' % (k, t)
        body += 'void cf_%s(W& w, std::string s) { w.WriteCellData(s, F<%s>()); }\n' % (k, t)
        body += 'void pm_%s(W& w, std::string s, %s u) { w.WritePointData(s, Part<%s>(), u); }\n' % (k, t, t)
        body += 'void cm_%s(W& w, std::string s, %s u) { w.WriteCellData(s, Part<%s>(), u); }\n' % (k, t, t)
        body += 'void p0_%s(W& w, std::string s) { w.WritePointData(s, Part<%s>()); }\n' % (k, t)
        body += 'void c0_%s(W& w, std::string s) { w.WriteCellData(s, Part<%s>()); }\n' % (k, t)
    src = [f for f in module_sources('lib/lf/mesh/hybrid2d', 'lib/lf/mesh', 'lib/lf/geometry', 'lib/lf/base') +
           [os.path.join(REPO, 'lib/lf/refinement/hybrid2d_refinement_pattern.cc'), os.path.join(REPO, 'lib/lf/refinement/refinement.cc')] +
           [os.path.join(REPO, 'lib/lf/io/vtk_writer.cc')] if os.path.exists(f)]
    return export('vtk', '#include <lf/mesh/hybrid2d/hybrid2d.h>\n' + unity(src, VW % body))


def vtk_tria(n):
    """points of the VTK Lagrange triangle of order n (barycentric multiples of 1/n)"""
    if n == 0:
        return [(F(1, 3), F(1, 3))]

    def rec(n):
        if n == 0:
            return [(0, 0)]
        r = [(0, 0), (n, 0), (0, n)]
        r += [(k, 0) for k in range(1, n)] + [(n - k, k) for k in range(1, n)] + [(0, n - k) for k in range(1, n)]
        if n >= 3:
            r += [(1 + a, 1 + b) for a, b in rec(n - 3)]
        return r
    return [(F(a, n), F(b, n)) for a, b in rec(n)]


def vtk_quad(n):
    r = [(0, 0), (n, 0), (n, n), (0, n)]
    r += [(k, 0) for k in range(1, n)] + [(n, k) for k in range(1, n)] + [(k, n) for k in range(1, n)] + [(0, k) for k in range(1, n)]
    r += [(a, b) for b in range(1, n) for a in range(1, n)]
    return [(F(a, n), F(b, n)) for a, b in r]


def vtk_line(n):
    return [(F(0),), (F(1),)] + [(F(k, n),) for k in range(1, n)]


VTK = {2: (vtk_line, 3, 68), 3: (vtk_tria, 5, 69), 4: (vtk_quad, 9, 70)}


def vmeshes(thorough):
    A = [('tq', 5, [(0, 1, 2), (1, 3, 4, 2)], [(2, 1), (2, 0)]), ('tt', 4, [(0, 1, 2), (2, 1, 3)], [(1, 2), (3, 2)]), ('q', 4, [(2, 3, 0, 1)], [(1, 0)])]
    if thorough:
        A.append(('tqt', 6, [(0, 1, 2, 3), (2, 1, 4), (4, 5, 2)], [(5, 2), (2, 1), (0, 3)]))
    for name, nv, cells, edges in A:
        for d, order in ((2, 1), (3, 1), (2, 2)):
            yield MeshSpec('%s/%dD/O%d' % (name, d, order), d, nv, [(v, True) for v in cells], [(e, True) for e in edges], order)


class Vtk:
    """one VtkWriter on a mesh; .file() is what its destructor writes"""

    def __init__(self, P, sp, codim, order):
        alg.reset()
        self.P, self.I = P, Interp(P)
        I = self.I
        f = factory(I, sp.d)
        sp.feed(I, f)
        self.m = I.rv(fcall(I, 'lfv::build', f))
        self.mo = obj(I, self.m)
        self.sp, self.codim, self.order = sp, codim, order
        self.out = []

        def write(I_, e, o, args):
            self.out.append((I.rv(args[0]), I.rv(args[1])))
            return None
        I.hooks['lf::io::WriteToFile'] = write
        for k, (t, n) in VTYPES.items():
            pass
        self.w = obj(I, fcall(I, 'lfv::mk', self.m, codim, order))

    def close(self):
        I = self.I
        d = [f for f in self.P.funcs.values() if f['sq'] == 'lf::io::VtkWriter::~VtkWriter']
        I.call(d[0], [], Cell(self.w))
        assert len(self.out) == 1
        return self.out[0][0]


def fld(I, o, n):
    return I.rv(o.f[n])


def ref_at(I, e, p):
    p = [x if isinstance(x, RF) else C(F(x)) for x in p]
    g = obj(I, mcall(I, e, 'Geometry'))
    X = I.rv(mcall(I, g, 'Global', eigen.new_mat(len(p), 1, -1, -1, 'double', False, lambda i, j: p[i])))
    return [X.cells[i][0].v for i in range(X.rows)]


def vtk_grid(c, V, key, w):
    """geometry of the file; returns [(entity, cell)] and the points"""
    I = V.I
    G = fld(I, V.close(), 'unstructured_grid')
    pts = [I.rv(x) for x in fld(I, G, 'points').items]
    pts = [[x.cells[k][0].v for k in range(3)] for x in pts]
    cells = [[int(num(I.rv(y))) for y in I.rv(x).items] for x in fld(I, G, 'cells').items]
    types = [int(num(I.rv(x))) for x in fld(I, G, 'cell_types').items]
    n = V.order
    E = [obj(I, x) for x in ents(I, V.mo, V.codim)]
    N = [obj(I, x) for x in ents(I, V.mo, 2)]
    tot = len(N) + len(ents(I, V.mo, 1)) * (n - 1)
    if V.codim == 0:
        for e in E:
            tot += (n - 1) * (n - 2) // 2 if int(num(refn(I, e))) == 3 else (n - 1) ** 2
    c.require(key + '/points', w, len(pts) == tot, 'the file contains %d points instead of %d' % (len(pts), tot))
    c.require(key + '/used', w, {i for x in cells for i in x} == set(range(len(pts))), 'not all points of the file belong to a cell')
    if not c.require(key + '/cells', w, len(cells) == len(E) == len(types), 'the file has %d cells and %d cell types for %d entities' % (len(cells), len(types), len(E))):
        return None
    for k, e in enumerate(E):
        nv = int(num(refn(I, e)))
        ref, t1, tn = VTK[nv]
        R = ref(n)
        idx = int(num(mcall(I, V.mo, 'Index', Cell(e))))
        t = t1 if n == 1 else tn
        c.require('%s/type%d' % (key, k), w, types[idx] == t, 'the VTK type of a cell with %d vertices is %d instead of %d' % (nv, types[idx], t))
        if not c.require('%s/n%d' % (key, k), w, len(cells[idx]) == len(R), 'a cell with %d vertices has %d points instead of %d' % (nv, len(cells[idx]), len(R))):
            continue
        for q, p in enumerate(R):
            X = ref_at(I, e, p) + [ZERO]
            for a in range(3):
                c.equal('%s/c%d/p%d.%d' % (key, k, q, a), w, pts[cells[idx][q]][a], X[a], what='point %d of a cell with %d vertices is not where VTK expects it' % (q, nv))
    return pts


def vfun(k, X, comps):
    """value of the test function k at the position X: list of components"""
    return [alg.fn('f%s%d' % (k, a), *X) for a in range(comps)]


def vwrap(k, vals):
    if VTYPES[k][1] == 0:
        return vals[0]
    r = VTYPES[k][1]
    return eigen.new_mat(len(vals), 1, r, 1, 'float' if k[0] == 'f' else 'double', False, lambda i, j: vals[i])


def vtk_data(c, P, sp, cd, n):
    """attribute data of points and cells"""
    key = 'data/%s/codim%d/order%d' % (sp.name, cd, n)
    V = Vtk(P, sp, cd, n)
    I = V.I
    W = {}
    for f in P.funcs.values():
        if f.get('body') and f['sq'] in ('lf::io::VtkWriter::WritePointData', 'lf::io::VtkWriter::WriteCellData'):
            W.setdefault(f['sq'][-13:], loc(f))
    wp, wc = loc(P.fn('lf::io::VtkWriter::WritePointData')), loc(P.fn('lf::io::VtkWriter::WriteCellData'))
    state = {}

    def comps(k):
        r = VTYPES[k][1]
        return 1 if r == 0 else (r if r > 0 else state['rows'])

    def probe(I_, e, ob, args):
        ent, x = obj(I, args[0]), I.rv(args[1])
        k = state['k']
        vals = []
        for q in range(x.cols):
            X = ref_at(I, ent, [x.cells[a][q].v for a in range(x.rows)]) if x.rows else ref_at0(I, ent)
            vals.append(Cell(vwrap(k, vfun(k, X, comps(k)))))
        return Cell(Vec(vals, 'vector'))

    def num_of(ent):
        return int(num(mcall(I, V.mo, 'Codim', Cell(ent)))) if False else int(num(mcall(I, ent, 'Codim'))), int(num(mcall(I, V.mo, 'Index', Cell(ent))))

    def gval(k, cdm, idx):
        return [S('g%s_%d_%d_%d' % (k, cdm, idx, a)) for a in range(comps(k))]

    def get(I_, e, ob, args):
        cdm, idx = num_of(obj(I, args[0]))
        if not defd(cdm, idx):
            c.require(key + '/undefined', state['w'], False, 'the writer reads a data set at an entity where it is not defined')
        return Cell(vwrap(state['k'], gval(state['k'], cdm, idx)))

    def defd(cdm, idx):
        return state['all'] or (cdm + idx) % 3 != 0

    I.hooks['lfv::F::operator()'] = probe
    I.hooks['lfv::Part::get'] = get
    I.hooks['lfv::Part::def'] = lambda I_, e, ob, args: defd(*num_of(obj(I, args[0])))
    N = [obj(I, x) for x in ents(I, V.mo, 2)]
    E = [obj(I, x) for x in ents(I, V.mo, cd)]
    want = {'point_data': [], 'cell_data': []}
    wr = Cell(V.w)
    for k in VTYPES:
        for rows in ((2, 3) if VTYPES[k][1] < 0 else (0,)):
            state.update(k=k, rows=rows, all=False, w=wp)
            nm = '%s_%d' % (k, rows)
            fcall(I, 'lfv::pf_' + k, wr, st('pf' + nm))
            want['point_data'].append(('pf' + nm, k, rows, None))
            state['w'] = wc
            fcall(I, 'lfv::cf_' + k, wr, st('cf' + nm))
            want['cell_data'].append(('cf' + nm, k, rows, None))
            for all_ in (False, True):
                state['all'] = all_
                u = [S('u%s_%d' % (k, a)) for a in range(comps(k))]
                if n == 1:
                    state['w'] = wp
                    fcall(I, 'lfv::pm_' + k, wr, st('pm%s%d' % (nm, all_)), vwrap(k, u))
                    want['point_data'].append(('pm%s%d' % (nm, all_), k, rows, (all_, u)))
                state['w'] = wc
                fcall(I, 'lfv::cm_' + k, wr, st('cm%s%d' % (nm, all_)), vwrap(k, u))
                want['cell_data'].append(('cm%s%d' % (nm, all_), k, rows, (all_, u)))
            state['all'] = False
            if rows != 2:
                z = [ZERO] * comps(k)
                if n == 1:
                    state['w'] = wp
                    fcall(I, 'lfv::p0_' + k, wr, st('p0' + nm))
                    want['point_data'].append(('p0' + nm, k, rows, (False, z)))
                state['w'] = wc
                fcall(I, 'lfv::c0_' + k, wr, st('c0' + nm))
                want['cell_data'].append(('c0' + nm, k, rows, (False, z)))
    fd = [('i', [1, 2, 3]), ('f', [S('q0')]), ('d', [])]
    for k, L in fd:
        fcall(I, 'lfv::field_' + k, wr, st('field' + k), Vec([Cell(x) for x in L], 'vector'))
    # repeated names and names with spaces are rejected
    state.update(k='d', rows=0, all=True)
    for what, fn, nm in (('point', 'lfv::pf_d', 'pfd_0'), ('cell', 'lfv::cf_d', 'cfd_0'), ('cell', 'lfv::c0_i', 'cfd_0'), ('point', 'lfv::pf_i', 'a b'), ('cell', 'lfv::cf_d3', 'a b'), ('cell', 'lfv::c0_d', ' x')):
        state['k'] = fn.split('_')[1]
        ok = False
        try:
            fcall(I, fn, wr, st(nm))
        except ThrowEx:
            ok = True
        c.require('%s/name/%s/%s' % (key, fn, nm), wp if what == 'point' else wc, ok, 'writing %s data with the name "%s" (repeated or with a space) is accepted' % (what, nm))
    out = V.close()
    G = fld(I, out, 'unstructured_grid')
    pts = [[I.rv(x).cells[k][0].v for k in range(3)] for x in fld(I, G, 'points').items]
    for part, w in (('point_data', wp), ('cell_data', wc)):
        L = [I.rv(x) for x in fld(I, out, part).items]
        c.require('%s/%s' % (key, part), w, len(L) == len(want[part]), '%d data sets were written, the file has %d' % (len(want[part]), len(L)))
        for o, (nm, k, rows, mds) in zip(L, want[part]):
            state.update(k=k, rows=rows)
            kk = '%s/%s/%s' % (key, part, nm)
            c.require(kk + '/name', w, stdmodel.cstr(fld(I, o, 'name')) == nm, 'the data set %s is called %s' % (nm, fld(I, o, 'name')))
            D = [I.rv(x) for x in fld(I, o, 'data').items]
            ex = []
            if part == 'point_data' and mds is None:
                ex = [vfun(k, X[:sp.d], comps(k)) for X in pts]
            else:
                L2 = N if part == 'point_data' else E
                ex = [None] * len(L2)
                for e in L2:
                    cdm, idx = num_of(e)
                    if mds is None:
                        nv = int(num(refn(I, e)))
                        b = {2: [F(1, 2)], 3: [F(1, 3)] * 2, 4: [F(1, 2)] * 2}[nv]
                        ex[idx] = vfun(k, ref_at(I, e, b), comps(k))
                    else:
                        state['all'] = mds[0]
                        ex[idx] = gval(k, cdm, idx) if defd(cdm, idx) else mds[1]
            if not c.require(kk + '/size', w, len(D) == len(ex), 'the data set has %d values instead of %d' % (len(D), len(ex))):
                continue
            for i, (a, b) in enumerate(zip(D, ex)):
                if VTYPES[k][1] == 0:
                    c.equal('%s/%d' % (kk, i), w, a, b[0], what='value of %s number %d in the file' % (part[:-5], i))
                else:
                    b = list(b) + [ZERO] * (3 - len(b))
                    for r in range(3):
                        c.equal('%s/%d.%d' % (kk, i, r), w, a.cells[r][0].v, b[r], what='component %d of the value of %s number %d in the file' % (r, part[:-5], i))
    L = [I.rv(x) for x in fld(I, out, 'field_data').items]
    wf = loc(P.fn('lf::io::VtkWriter::WriteGlobalData'))
    c.require(key + '/field', wf, [stdmodel.cstr(fld(I, o, 'name')) for o in L] == ['field' + k for k, _ in fd], 'the names of the global data are wrong')
    for o, (k, x) in zip(L, fd):
        D = [I.rv(y) for y in fld(I, o, 'data').items]
        c.require('%s/field/%s' % (key, k), wf, len(D) == len(x) and all(exact_same(a, b) for a, b in zip(D, x)), 'the global data %s are written as %s' % (x, D))
    c.cover(I)


def ref_at0(I, e):
    g = obj(I, mcall(I, e, 'Geometry'))
    X = I.rv(mcall(I, g, 'Global', eigen.new_mat(0, 1, -1, -1, 'double', False, lambda i, j: ZERO)))
    return [X.cells[i][0].v for i in range(X.rows)]


def N03(pid):
    c = Check(pid, rule='VtkWriter (constructor, WritePointData, WriteCellData, WriteGlobalData, destructor) is abstractly interpreted on hybrid meshes with symbolic (straight, curved, embedded) geometry; the VtkFile handed to WriteToFile is compared with an independent description of the VTK linear and Lagrange cells of order 1 to 10: number of points, cell types, and position of every point of every cell as polynomials. Every overload of the data functions is called with uninterpreted mesh functions and data sets (partly undefined); the value at every point and cell is compared, repeated names and names with spaces must be rejected.')
    P = vtk_unit()
    thorough = TIER == 'thorough'
    w = [loc(f) for f in P.funcs.values() if f['sq'] == 'lf::io::VtkWriter::VtkWriter' and f.get('body') and len(f['params']) == 4][0]
    wp = loc(P.fn('lf::io::VtkWriter::WritePointData'))
    jobs = [(sp, cd, n, False) for sp in vmeshes(thorough) for cd in (0, 1) for n in range(1, 11)]
    jobs += [(sp, cd, n, True) for sp in vmeshes(thorough) for cd in (0, 1) for n in (range(1, 11) if thorough else (1, 2, 3, 5))]

    def one(j):
        sp, cd, n, data = j
        key = '%s/%s/codim%d/order%d' % ('data' if data else 'grid', sp.name, cd, n)

        def run():
            if data:
                return vtk_data(c, P, sp, cd, n)
            V = Vtk(P, sp, cd, n)
            vtk_grid(c, V, key, w)
            c.cover(V.I)
        c.attempt(key, wp if data else w, run)
    c.par(jobs, one)
    return c.finish(1000)
