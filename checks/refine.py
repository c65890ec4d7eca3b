"""Refinement patterns: R02 (tiling), R03 (edge conformity), G04 (child geometries)"""
from geom import *

REFEL = {'Point': 1, 'Segment': 2, 'Tria': 3, 'Quad': 4}
VERT = {'Point': [()], 'Segment': [(0,), (1,)], 'Tria': [(0, 0), (1, 0), (0, 1)], 'Quad': [(0, 0), (1, 0), (1, 1), (0, 1)]}
# documented patterns: reference element -> pattern -> (edges split relative to the anchor, needs anchor)
PATTERNS = {
    'Point': {'rp_copy': None},
    'Segment': {'rp_copy': 0, 'rp_split': 1},
    'Tria': {'rp_copy': (), 'rp_bisect': (0,), 'rp_trisect': (0, 1), 'rp_trisect_left': (0, 2), 'rp_quadsect': (0, 1, 2),
             'rp_regular': (0, 1, 2), 'rp_barycentric': (0, 1, 2)},
    'Quad': {'rp_copy': (), 'rp_trisect': (0,), 'rp_quadsect': (0, 1), 'rp_bisect': (0, 2), 'rp_split': (0, 2),
             'rp_threeedge': (0, 1, 3), 'rp_regular': (0, 1, 2, 3)},
}
SYM = {'rp_copy', 'rp_regular', 'rp_barycentric'}


def enum(P, q):
    for e in P.enums:
        if e['q'] == q:
            return dict(e['c'])
    raise CheckError('enumeration %s not found' % q)


def ref_el(I, name):
    rec = I.p.rec('lf::base::RefEl')
    o = fcall(I, 'lf::base::RefEl::k' + name)
    return o


def cases(P):
    E = enum(P, 'lf::refinement::RefPat')
    for r, d in PATTERNS.items():
        for pat, split in d.items():
            if pat not in E:
                raise CheckError('refinement pattern %s not found' % pat)
            n = {'Tria': 3, 'Quad': 4}.get(r, 0)
            anchors = [None]
            if n and pat not in SYM:
                anchors = list(range(n))
            elif n:
                anchors = [None] + list(range(n))
            for a in anchors:
                yield r, pat, E[pat], a, split


def pattern(I, r, patv, a):
    args = [ref_el(I, r), patv] + ([a] if a is not None else [])
    return new(I, 'lf::refinement::Hybrid2DRefinementPattern', *args)


def polys(I, o, codim):
    v = mcall(I, o, 'ChildPolygons', codim)
    out = []
    for c in v.items:
        m = I.rv(c)
        rows = [[num(x.v) for x in r] for r in m.cells]
        out.append([tuple(rows[i][j] for i in range(m.rows)) for j in range(m.cols)])
    return out


def num(x):
    if isinstance(x, int):
        return F(x)
    if isinstance(x, RF) and x.is_const():
        return x.value()
    raise Undecided('child polygon coordinate is not a constant')


def area(p):
    return sum(p[i][0] * p[(i + 1) % len(p)][1] - p[(i + 1) % len(p)][0] * p[i][1] for i in range(len(p))) / 2


def on_seg(p, a, b):
    """p strictly inside segment ab"""
    cr = (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
    if cr != 0:
        return False
    t = (p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1])
    return 0 < t < (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2


def convex(p):
    s = [0, 0]
    n = len(p)
    for i in range(n):
        a, b, c = p[i], p[(i + 1) % n], p[(i + 2) % n]
        z = (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])
        if z > 0:
            s[0] += 1
        elif z < 0:
            s[1] += 1
        else:
            return False
    return s[0] == n or s[1] == n


def each(c, body):
    P = unit()
    n = 0
    for r, pat, pv, a, split in cases(P):
        alg.reset()
        I = Interp(P)
        key = '%s/%s/%s' % (r, pat, 'nil' if a is None else a)

        def run():
            o = pattern(I, r, pv, a)
            body(I, o, key, r, pat, a, split)
        c.attempt(key, loc(P.fn('lf::refinement::Hybrid2DRefinementPattern::ChildPolygons')), run)
        c.cover(I)
        n += 1
    c.extra['patterns_enumerated'] = n


def R02(pid):
    c = Check(pid, rule='For every reference element, documented refinement pattern and anchor edge the lattice polygons built by Hybrid2DRefinementPattern::ChildPolygons are exact constants of the program; the child cells are convex, non-degenerate, lie in the reference element, have total area equal to it and meet edge to edge (every child edge is on the boundary of the parent or shared by exactly two children), the child segments and points are exactly the interior edges and vertices of that subdivision, and NumChildren equals the number of polygons per co-dimension.')

    def body(I, o, key, r, pat, a, split):
        w = loc(I.p.fn('lf::refinement::Hybrid2DRefinementPattern::ChildPolygons'))
        wn = loc(I.p.fn('lf::refinement::Hybrid2DRefinementPattern::NumChildren'))
        L = mcall(I, o, 'LatticeConst')
        L = num(L)
        V = [tuple(F(x) * L for x in p) for p in VERT[r]]
        dim = len(V[0])
        pp = {}
        for codim in range(dim + 1):
            p = pp[codim] = polys(I, o, codim)
            nc = num(mcall(I, o, 'NumChildren', codim))
            c.require('%s/NumChildren(%d)' % (key, codim), wn, nc == len(p), 'NumChildren(%d)=%s but ChildPolygons(%d) has %d entries' % (codim, nc, codim, len(p)))
            for q in p:
                for x in q:
                    if not c.require('%s/inside/%d' % (key, codim), w, len(x) == dim and all(t >= 0 and t == int(t) for t in x) and (sum(x) <= L if r != 'Quad' else all(t <= L for t in x)), 'lattice point %s outside the reference element' % (tuple(map(str, x)),)):
                        return
        if dim == 0:
            c.require(key + '/one', w, len(pp[0]) == 1, 'a point has %d children' % len(pp[0]))
            return
        if dim == 1:
            iv = sorted(tuple(sorted((q[0][0], q[1][0]))) for q in pp[0] if len(q) == 2)
            good = len(iv) == len(pp[0]) and iv[0][0] == 0 and iv[-1][1] == L and all(x[0] < x[1] for x in iv) and all(x[1] == y[0] for x, y in zip(iv, iv[1:]))
            c.require(key + '/tile', w, good, 'child intervals %s do not tile the segment' % iv)
            c.require(key + '/interior', w, sorted(q[0][0] for q in pp[1]) == [x[1] for x in iv[:-1]], 'interior points differ from the break points')
            return
        cells = pp[0]
        tot = F(0)
        for i, q in enumerate(cells):
            if not c.require('%s/convex%d' % (key, i), w, len(q) in (3, 4) and convex(q), 'child cell %d %s is not a strictly convex triangle or quadrilateral' % (i, fmt(q))):
                return
            tot += abs(area(q))
        c.require(key + '/area', w, tot == abs(area(V)), 'the child cells have total area %s instead of %s' % (tot, abs(area(V))))
        cnt = {}
        for q in cells:
            for i in range(len(q)):
                e = frozenset((q[i], q[(i + 1) % len(q)]))
                cnt[e] = cnt.get(e, 0) + 1
        nv = len(V)

        def onb(e):
            x = tuple(e)
            return any(all(p in (V[i], V[(i + 1) % nv]) or on_seg(p, V[i], V[(i + 1) % nv]) for p in x) for i in range(nv))
        inner = set()
        for e, k in cnt.items():
            b = onb(e)
            c.require('%s/edge%s' % (key, fmt(sorted(e))), w, k == (1 if b else 2), '%s edge %s belongs to %d child cells' % ('boundary' if b else 'interior', fmt(sorted(e)), k))
            if not b:
                inner.add(e)
        seg = [frozenset(q) for q in pp[1]]
        c.require(key + '/segments', w, len(set(seg)) == len(seg) and set(seg) == inner, 'child segments %s are not the interior edges %s' % (sorted(fmt(sorted(e)) for e in seg), sorted(fmt(sorted(e)) for e in inner)))
        pts = {p for q in cells for p in q}
        ip = {p for p in pts if p not in V and not any(on_seg(p, V[i], V[(i + 1) % nv]) for i in range(nv))}
        cp = [q[0] for q in pp[2]]
        c.require(key + '/points', w, len(set(cp)) == len(cp) and set(cp) == ip, 'child points %s are not the interior vertices %s' % (cp, ip))
    each(c, body)
    c.extra['exhaustive'] = True
    return c.finish(200)


def fmt(q):
    return '[' + ' '.join('(' + ','.join(str(x) for x in p) + ')' for p in q) + ']'


def R03(pid):
    c = Check(pid, rule='For every pattern/anchor the trace of the subdivision on each edge of the parent cell is either the whole edge or its two halves, and the edges that are halved are exactly the documented ones for that pattern and anchor; the split pattern of a segment halves it at the midpoint. Hence two cells sharing an edge that agree on whether it is split match there.')

    def body(I, o, key, r, pat, a, split):
        w = loc(I.p.fn('lf::refinement::Hybrid2DRefinementPattern::ChildPolygons'))
        if r == 'Point':
            return
        L = num(mcall(I, o, 'LatticeConst'))
        V = [tuple(F(x) * L for x in p) for p in VERT[r]]
        cells = polys(I, o, 0)
        if r == 'Segment':
            iv = sorted(tuple(sorted((q[0][0], q[1][0]))) for q in cells)
            want = [(0, L)] if not split else [(0, L / 2), (L / 2, L)]
            c.require(key + '/halves', w, iv == want, 'child intervals %s' % iv)
            return
        nv = len(V)
        want = {(e + (a or 0)) % nv for e in split}
        if pat in SYM:
            want = set(split)
        for i in range(nv):
            A, B = V[i], V[(i + 1) % nv]
            M = tuple((x + y) / 2 for x, y in zip(A, B))
            es = set()
            for q in cells:
                for k in range(len(q)):
                    e = (q[k], q[(k + 1) % len(q)])
                    if all(p in (A, B) or on_seg(p, A, B) for p in e):
                        es.add(frozenset(e))
            exp = {frozenset((A, M)), frozenset((M, B))} if i in want else {frozenset((A, B))}
            c.require('%s/edge%d' % (key, i), w, es == exp, 'edge %d of the parent is covered by %s, documented: %s' % (i, [fmt(sorted(e)) for e in es], 'two halves' if i in want else 'undivided'))
    each(c, body)
    c.extra['exhaustive'] = True
    return c.finish(100)


def G04(pid):
    c = Check(pid, rule='For every geometry class, world dimension, refinement pattern, anchor and co-dimension: ChildGeometry returns one geometry per child polygon, and at the vertices (for second-order classes also the edge midpoints) of child i the value of its Global() is identical, as a polynomial in the parent nodes, to the parent Global() at the lattice points of child polygon i; children of affine cells agree everywhere.')
    P = unit()
    E = enum(P, 'lf::refinement::RefPat')
    byref = {'Point': 'Point', 'SegmentO1': 'Segment', 'SegmentO2': 'Segment', 'TriaO1': 'Tria', 'TriaO2': 'Tria', 'QuadO1': 'Quad', 'QuadO2': 'Quad', 'Parallelogram': 'Quad'}
    for cls, rd, n in CLS:
        for d in dims(cls, rd):
            if cls != 'Point' and d == 3 and TIER == 'quick' and rd == 2 and cls not in ('TriaO2', 'QuadO2'):
                pass
            for r, pat, pv, a, split in cases(P):
                if r != byref[cls]:
                    continue
                alg.reset()
                I = Interp(P)
                key = '%s/%dD/%s/%s' % (cls, d, pat, 'nil' if a is None else a)
                smp = sampler(cls, rd, d)

                def run():
                    o = build(I, cls, d)
                    w = where(I, o, 'ChildGeometry')
                    rp = pattern(I, r, pv, a)
                    L = num(mcall(I, rp, 'LatticeConst'))
                    g0 = mcall(I, o, 'Global', local(rd, 1) if rd else eigen.new_mat(0, 1))
                    aff = rd == 0 or mcall(I, o, 'isAffine') is True
                    for codim in range(rd + 1):
                        pp = polys(I, rp, codim)
                        ch = mcall(I, o, 'ChildGeometry', Cell(rp), codim)
                        if not c.require('%s/codim%d/count' % (key, codim), w, len(ch.items) == len(pp), 'ChildGeometry returns %d geometries for %d child polygons' % (len(ch.items), len(pp))):
                            continue
                        for i, (p, g) in enumerate(zip(pp, ch.items)):
                            g = I.rv(I.deref(I.rv(g)))
                            k2 = '%s/codim%d/child%d' % (key, codim, i)
                            nn = refel(I, g)
                            if not c.require(k2 + '/refel', w, nn == (len(p), rd - codim), 'child geometry has %s nodes/dimension, the polygon has %d vertices' % (nn, len(p))):
                                continue
                            crd = rd - codim
                            pn = REFN[{(1, 0): 'Point', (2, 1): 'SegmentO1', (3, 2): 'TriaO1', (4, 2): 'QuadO1'}[nn]]
                            pairs = [(pn[j], [x / L for x in p[j]]) for j in range(len(p))]
                            if cls.endswith('O2') and crd > 0:
                                m = len(p)
                                for j in range(m if m > 2 else 1):
                                    A, B = pairs[j], pairs[(j + 1) % m]
                                    pairs.append(([(x + F(y)) / 2 for x, y in zip(A[0], B[0])], [(x + y) / 2 for x, y in zip(A[1], B[1])]))
                            for j, (cr, prf) in enumerate(pairs):
                                gl = mcall(I, g, 'Global', eigen.new_mat(crd, 1, -1, -1, 'double', False, lambda x, y: C(cr[x])))
                                for k in range(d):
                                    c.equal('%s/node%d(%d)' % (k2, j, k), w, gl.cells[k][0].v, subst(to_rf(g0.cells[k][0].v), 0, prf), smp, 'node %d of child %d is not the image of lattice point' % (j, i))
                            if aff and crd > 0 and len(p) != 4:
                                A = [x / L for x in p[0]]
                                U = [[y / L - z for y, z in zip(q, A)] for q in p[1:]]
                                gl = mcall(I, g, 'Global', eigen.new_mat(crd, 1, -1, -1, 'double', False, lambda x, y: S('u%d' % x)))
                                env = {'t%d_0' % k: C(A[k]) + sum((C(U[m][k]) * S('u%d' % m) for m in range(crd)), ZERO) for k in range(rd)}
                                for k in range(d):
                                    c.equal('%s/map(%d)' % (k2, k), w, gl.cells[k][0].v, to_rf(g0.cells[k][0].v).subs(env), smp, 'child map')
                    c.no_abort(key, I, smp)
                c.attempt(key, 'lf::geometry::%s::ChildGeometry' % cls, run)
                c.cover(I)
    return c.finish(1000)
