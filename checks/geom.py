"""Geometry mappings: G01..G05"""
from lib import *
import alg
from alg import S, C, RF, ZERO, ONE
from api import *
import random

CLS = [('Point', 0, 1), ('SegmentO1', 1, 2), ('SegmentO2', 1, 3), ('TriaO1', 2, 3), ('TriaO2', 2, 6), ('QuadO1', 2, 4), ('Parallelogram', 2, 4), ('QuadO2', 2, 8)]
H = F(1, 2)
REFN = {'Point': [()], 'SegmentO1': [(0,), (1,)], 'SegmentO2': [(0,), (1,), (H,)],
        'TriaO1': [(0, 0), (1, 0), (0, 1)], 'TriaO2': [(0, 0), (1, 0), (0, 1), (H, 0), (H, H), (0, H)],
        'QuadO1': [(0, 0), (1, 0), (1, 1), (0, 1)], 'Parallelogram': [(0, 0), (1, 0), (1, 1), (0, 1)],
        'QuadO2': [(0, 0), (1, 0), (1, 1), (0, 1), (H, 0), (1, H), (H, 1), (0, H)]}
NV = {'Point': 1, 'SegmentO1': 2, 'SegmentO2': 2, 'TriaO1': 3, 'TriaO2': 3, 'QuadO1': 4, 'Parallelogram': 4, 'QuadO2': 4}


def unit():
    return export('geometry', unity(module_sources('lib/lf/geometry', 'lib/lf/base', 'lib/lf/refinement')))


def dims(cls, rd):
    return [d for d in (1, 2, 3) if d >= max(rd, 1)] if cls != 'Point' else [1, 2, 3]


def build(I, cls, d):
    n = dict((c, k) for c, _, k in CLS)[cls]
    if cls == 'Point':
        return new(I, 'lf::geometry::Point', symmat(d, 1, 'x', -1, 1))
    if cls == 'Parallelogram':
        X = eigen.new_mat(d, 4, -1, -1, 'double', False, lambda i, j: S('x%d_%d' % (i, j)) if j != 2 else S('x%d_1' % i) + S('x%d_3' % i) - S('x%d_0' % i))
    else:
        X = symmat(d, n, 'x')
    return new(I, 'lf::geometry::' + cls, X)


def affine_map(i, d, rd):
    r = random.Random(100 * i + 10 * d + rd + SEED)
    while True:
        A = [[F(r.randint(-20, 20), 10) for _ in range(rd)] for _ in range(d)]
        if rd == 2:
            g = [[sum(A[k][a] * A[k][b] for k in range(d)) for b in range(2)] for a in range(2)]
            dt = g[0][0] * g[1][1] - g[0][1] * g[1][0]
            if dt < F(1, 2):
                continue
            if d == 2:   # both orientations among the samples
                det = A[0][0] * A[1][1] - A[0][1] * A[1][0]
                if (det > 0) != (i % 2 == 0):
                    continue
        elif rd == 1 and sum(A[k][0] ** 2 for k in range(d)) < F(1, 4):
            continue
        b = [F(r.randint(-20, 20), 7) for _ in range(d)]
        return A, b, r


def sampler(cls, rd, d, npts=9):
    """valid cells (non-degenerate, both orientations) and points of the reference element"""
    def f(i):
        special = i - 6     # samples 6.. are special shapes: affine image, rectangle, reference cell, large, small, far away
        A, b, r = affine_map(i, d, rd)
        if special in (1, 2):
            A = [[F(int(k == a)) * (F(3, 2) if special == 1 and a == 0 else 1) for a in range(rd)] for k in range(d)]
            b = [F(0)] * d if special == 2 else b
        scale = {3: F(100), 4: F(1, 100)}.get(special, F(1))
        if special == 5:
            b = [x + 1000 for x in b]
        env = {}
        for j, p in enumerate(REFN[cls]):
            for k in range(d):
                v = b[k] + sum(A[k][a] * p[a] for a in range(rd))
                if cls not in ('Parallelogram', 'TriaO1', 'SegmentO1', 'Point') and special not in (0, 1, 2):
                    v += F(r.randint(-100, 100), 2000)
                env['x%d_%d' % (k, j)] = v * scale
        env['u'] = F(r.randint(1, 99), 100)
        for q in range(npts):
            if NV[cls] == 3:
                s = F(r.randint(1, 60), 100)
                env['t0_%d' % q], env['t1_%d' % q] = s, F(r.randint(1, 39), 100)
            else:
                for k in range(rd):
                    env['t%d_%d' % (k, q)] = F(r.randint(1, 99), 100)
            if special in (6, 7):
                pt = REFN[cls][(q + special) % len(REFN[cls])]
                if cls in ('SegmentO2', 'TriaO2', 'QuadO2') or special == 6:
                    for k in range(rd):
                        env['t%d_%d' % (k, q)] = F(pt[k])
        return env

    def valid(env):
        return ref_ok(env, NV[cls], rd) and cell_ok(env, cls, rd, d)
    f.valid = valid
    return f


def ref_ok(env, nv, rd):
    """the local coordinates of a sample lie in the reference element"""
    q = 0
    while 't0_%d' % q in env:
        t = [env['t%d_%d' % (k, q)] for k in range(rd)]
        if any(not 0 <= x <= 1 for x in t) or (nv == 3 and sum(t) > 1):
            return False
        q += 1
    return all(0 <= env[n] <= 1 for n in ('u', 's') if n in env)


def cell_ok(env, cls, rd, d):
    """a well-shaped cell: corners far from degenerate, same orientation at all corners, midpoints near the edge midpoints"""
    n = len(REFN[cls])
    X = [[env.get('x%d_%d' % (k, j)) for k in range(d)] for j in range(n)]
    if cls == 'Parallelogram':
        X[2] = [X[1][k] + X[3][k] - X[0][k] for k in range(d)]
    if any(v is None for p in X for v in p):
        return False
    if rd == 0:
        return True
    if rd == 1:
        l2 = sum((X[1][k] - X[0][k]) ** 2 for k in range(d))
        ok = F(1, 100) < l2 < 100
        if ok and n == 3:
            ok = sum((X[2][k] - (X[1][k] + X[0][k]) / 2) ** 2 for k in range(d)) < l2 / 100
        return ok
    nv = NV[cls]
    sg = set()
    for j in range(nv):
        a = [X[(j + 1) % nv][k] - X[j][k] for k in range(d)]
        b = [X[(j - 1) % nv][k] - X[j][k] for k in range(d)]
        aa, bb, ab = (sum(x * y for x, y in zip(p, q)) for p, q in ((a, a), (b, b), (a, b)))
        if aa * bb - ab * ab < F(1, 10) or aa > 100 or bb > 100:
            return False
        if d == 2:
            sg.add(a[0] * b[1] - a[1] * b[0] > 0)
    if len(sg) > 1:
        return False
    if n > nv:
        for j in range(nv):
            l2 = sum((X[(j + 1) % nv][k] - X[j][k]) ** 2 for k in range(d))
            if sum((X[nv + j][k] - (X[j][k] + X[(j + 1) % nv][k]) / 2) ** 2 for k in range(d)) > l2 / 100:
                return False
    return True


def local(rd, n=2):
    return eigen.new_mat(rd, n, -1, -1, 'double', False, lambda i, j: S('t%d_%d' % (i, j)))


def subst(v, q, p):
    return v.subs({'t%d_%d' % (k, q): C(p[k]) for k in range(len(p))})


def for_all(c, body, I0=None):
    P = unit()
    for cls, rd, n in CLS:
        if P.rec('lf::geometry::' + cls) is None:
            raise CheckError('class lf::geometry::%s not found' % cls)
        for d in dims(cls, rd):
            alg.reset()
            I = Interp(P)
            key = '%s/%dD' % (cls, d)
            smp = sampler(cls, rd, d)

            def run():
                o = build(I, cls, d)
                body(I, o, cls, rd, n, d, key, smp)
                c.no_abort(key, I, smp)
            c.attempt(key, 'lf::geometry::' + cls, run)
            c.cover(I)


def where(I, o, name):
    f = method(I, o, name)
    return loc(f)


def nsum(it):
    t = ZERO
    for x in it:
        t = num_add(t, x)
    return t


def D(v, name):
    """formal derivative, branch by branch"""
    return lift1(lambda x: Cx(x.re.diff(name), x.im.diff(name)) if isinstance(x, Cx) else to_rf(x).diff(name), v)


def sub(v, m):
    return lift1(lambda x: Cx(x.re.subs(m), x.im.subs(m)) if isinstance(x, Cx) else to_rf(x).subs(m), v)


def batch(c, I, o, key, rd, names, smp, sizes=(1, 3, 9)):
    """calling with n points gives the same as n calls with one point, for every n tried"""
    for name in names:
        w = where(I, o, name)
        one = mcall(I, o, name, local(rd, 1))
        isv = name == 'IntegrationElement'
        for n in sizes:
            if n == 1:
                continue
            r = mcall(I, o, name, local(rd, n))
            wdt = one.cols
            shape = (n * one.rows, one.cols) if isv else (one.rows, n * one.cols)
            if not c.require('%s/batch-%s(%d)-shape' % (key, name, n), w, (r.rows, r.cols) == shape, '%s returns %dx%d for %d points' % (name, r.rows, r.cols, n)):
                continue
            for q in range(n):
                m = {'t%d_0' % k: S('t%d_%d' % (k, q)) for k in range(rd)}
                for i in range(one.rows):
                    for j in range(wdt):
                        got = r.cells[i + q][j].v if isv else r.cells[i][j + q * wdt].v
                        v0 = one.cells[i][j].v
                        if isinstance(v0, Ite) or isinstance(got, Ite):
                            continue
                        c.equal('%s/batch-%s(%d)(%d,%d)@%d' % (key, name, n, i, j, q), w, got, sub(v0, m), smp, '%s for point %d of %d differs from the call with that point alone' % (name, q, n))


def G01(pid):
    c = Check(pid, rule='For every geometry class, world dimension and symbolic node coordinates: entry (i, k+dimLocal*q) of the abstract value of Jacobian(local) is identical, as a rational function of nodes and local coordinates, to the formal derivative of Global(local)(i,q) with respect to local coordinate k; both have the documented shape.')

    def body(I, o, cls, rd, n, d, key, smp):
        L = local(rd) if rd else eigen.new_mat(0, 2)
        g = mcall(I, o, 'Global', L)
        w = where(I, o, 'Jacobian')
        if not c.require(key + '/Global-shape', where(I, o, 'Global'), (g.rows, g.cols) == (d, 2), 'Global() returns a %dx%d matrix for 2 points in %dD' % (g.rows, g.cols, d)):
            return
        j = mcall(I, o, 'Jacobian', L)
        if not c.require(key + '/Jacobian-shape', w, (j.rows, j.cols) == (d, 2 * rd), 'Jacobian() returns a %dx%d matrix for 2 points' % (j.rows, j.cols)):
            return
        for q in range(2):
            for i in range(d):
                for k in range(rd):
                    c.equal('%s/J(%d,%d)@%d' % (key, i, k, q), w, j.cells[i][rd * q + k].v, D(g.cells[i][q].v, 't%d_%d' % (k, q)), smp, 'Jacobian is not the derivative of Global')
                for k in range(rd):
                    x = D(g.cells[i][q].v, 't%d_%d' % (k, 1 - q))
                    c.equal('%s/indep(%d,%d)@%d' % (key, i, k, q), where(I, o, 'Global'), x, ZERO, smp, 'the image of one point depends on the coordinates of another')
        if rd:
            aff = mcall(I, o, 'isAffine')
            if aff is True:
                for i in range(d):
                    for k in range(rd):
                        for m in range(rd):
                            c.equal('%s/affine(%d,%d,%d)' % (key, i, k, m), where(I, o, 'isAffine'), D(D(g.cells[i][0].v, 't%d_0' % k), 't%d_0' % m), ZERO, smp, 'isAffine() holds but the Jacobian varies')
            batch(c, I, o, key, rd, ['Global', 'Jacobian'], sampler(cls, rd, d, 9))
    for_all(c, body)
    return c.finish(100)


def G02(pid):
    c = Check(pid, rule='For every geometry class and world dimension, with G=J^T J the Gramian of the Jacobian that the class itself returns: G * JacobianInverseGramian^T = J^T and IntegrationElement^2 = det G, as identities of rational functions; IntegrationElement is non-negative on valid cells of both orientations.')

    def body(I, o, cls, rd, n, d, key, smp):
        if rd == 0:
            L = eigen.new_mat(0, 2)
            ie = mcall(I, o, 'IntegrationElement', L)
            for q in range(2):
                c.equal(key + '/ie@%d' % q, where(I, o, 'IntegrationElement'), ie.cells[q][0].v, ONE, smp, 'integration element of a point')
            return
        L = local(rd)
        j0 = mcall(I, o, 'Jacobian', L)
        s2 = smp
        if cls in ('TriaO2', 'QuadO2'):
            # modular: the Jacobian is summarised by independent symbols (checked against Global by G01)
            jt = [[to_rf(x.v) for x in r] for r in j0.cells]
            rec = {}

            def hook(I_, e, ob, args):
                M = I_.rv(args[0])
                cols = []
                for q in range(M.cols):
                    ns = {nm for k in range(rd) for nm in to_rf(M.cells[k][q].v).allnames()}
                    qq = [int(nm.split('_')[1]) for nm in ns if nm.startswith('t')]
                    if len(set(qq)) != 1 or any(not (to_rf(M.cells[k][q].v) - S('t%d_%d' % (k, qq[0]))).is_zero() for k in range(rd)):
                        raise Undecided('Jacobian is requested at points other than the arguments')
                    cols.append(qq[0])
                rec['used'] = True
                return eigen.new_mat(d, rd * M.cols, -1, -1, 'double', False, lambda i, k: S('J%d_%d' % (i, cols[k // rd] * rd + k % rd)))
            I.hooks['lf::geometry::%s::Jacobian' % cls] = hook

            def s2(i):
                env = dict(smp(i))
                e = Env(dict(env))
                for a in range(d):
                    for b in range(2 * rd):
                        env['J%d_%d' % (a, b)] = jt[a][b].eval(e)
                return env
            s2.valid = smp.valid
            j = mcall(I, o, 'Jacobian', L)
        else:
            j = j0
        J = [[x.v for x in r] for r in j.cells]
        g = mcall(I, o, 'JacobianInverseGramian', L)
        w = where(I, o, 'JacobianInverseGramian')
        if not c.require(key + '/JIG-shape', w, (g.rows, g.cols) == (d, 2 * rd), 'JacobianInverseGramian() returns %dx%d for 2 points' % (g.rows, g.cols)):
            return
        ie = mcall(I, o, 'IntegrationElement', L)
        wi = where(I, o, 'IntegrationElement')
        if not c.require(key + '/IE-shape', wi, ie.rows * ie.cols == 2, 'IntegrationElement() returns %dx%d for 2 points' % (ie.rows, ie.cols)):
            return
        iev = [x.v for r in ie.cells for x in r]
        for q in range(2):
            Jq = [[J[i][rd * q + k] for k in range(rd)] for i in range(d)]
            G = [[nsum(num_mul(Jq[i][a], Jq[i][b]) for i in range(d)) for b in range(rd)] for a in range(rd)]
            for a in range(rd):
                for i in range(d):
                    def one(a=a, i=i):
                        if rd == d:
                            # equivalent and smaller: JIG^T J = I
                            lhs = nsum(num_mul(g.cells[k][rd * q + a].v, Jq[k][i]) for k in range(d))
                            rhs = ONE if i == a else ZERO
                        else:
                            lhs = nsum(num_mul(G[a][b], g.cells[i][rd * q + b].v) for b in range(rd))
                            rhs = Jq[i][a]
                        c.equal('%s/JIG(%d,%d)@%d' % (key, i, a, q), w, lhs, rhs, s2, 'JacobianInverseGramian is not J (J^T J)^{-1}')
                    c.attempt('%s/JIG(%d,%d)@%d' % (key, i, a, q), w, one)
            dt = G[0][0] if rd == 1 else num_sub(num_mul(G[0][0], G[1][1]), num_mul(G[0][1], G[1][0]))

            def ieob():
                v = iev[q]
                sq = num_mul(v, v)
                if not exact_same(sq, dt) and exact_same(num_mul(sq, sq), num_mul(dt, dt)):
                    sq = dt    # squares of reals agree and both v^2 and the Gramian determinant are non-negative
                c.equal('%s/IE2@%d' % (key, q), wi, sq, dt, s2, 'IntegrationElement^2 is not det(J^T J)')
                neg = None
                for i in range(6):
                    env = Env(s2(i), salt=i)
                    if evalnum(v, env) < -1e-12:
                        neg = i
                c.require('%s/IE-sign@%d' % (key, q), wi, neg is None, 'IntegrationElement is negative on a valid cell', witness=str({k: str(x) for k, x in (s2(neg) if neg is not None else {}).items()}))
            c.attempt('%s/IE@%d' % (key, q), wi, ieob)
        if cls not in ('TriaO2', 'QuadO2'):
            c.attempt(key + '/batch', w, lambda: batch(c, I, o, key, rd, ['JacobianInverseGramian', 'IntegrationElement'], sampler(cls, rd, d, 9)))
        else:
            def bt():
                g9 = mcall(I, o, 'JacobianInverseGramian', local(rd, 9))
                i9 = mcall(I, o, 'IntegrationElement', local(rd, 9))
                if not c.require(key + '/batch-shape', w, (g9.rows, g9.cols) == (d, 9 * rd) and i9.rows * i9.cols == 9, 'wrong shape for 9 points'):
                    return
                for q in range(9):
                    m = {'J%d_%d' % (i, k): S('J%d_%d' % (i, k + rd * q)) for i in range(d) for k in range(rd)}

                    def s9(i, q=q):
                        r = random.Random(i)
                        return {'J%d_%d' % (a, b): F(r.randint(-30, 30), 10) + (2 if a == b % 2 else 0) for a in range(d) for b in range(9 * rd)}
                    for i in range(d):
                        for k in range(rd):
                            c.equal('%s/batch-JIG(%d,%d)@%d' % (key, i, k, q), w, g9.cells[i][rd * q + k].v, sub(g.cells[i][k].v, m), s9, 'JacobianInverseGramian for point %d of 9 differs' % q)
                    c.equal('%s/batch-IE@%d' % (key, q), wi, [x.v for r in i9.cells for x in r][q], sub(iev[0], m), s9, 'IntegrationElement for point %d of 9 differs' % q)
            c.attempt(key + '/batch', w, bt)
    for_all(c, body)
    c.assumptions.append('TriaO2/QuadO2: JacobianInverseGramian and IntegrationElement are analysed with Jacobian() summarised by free symbols; Jacobian() itself is decided by G01')
    return c.finish(80)


REFTYPE = {0: 'Point', 1: 'Segment', 3: 'Tria', 4: 'Quad'}


def refel(I, o):
    r = mcall(I, o, 'RefEl')
    return mcall(I, r, 'NumNodes'), mcall(I, r, 'Dimension')


def G03(pid):
    c = Check(pid, rule='SubGeometry(codim,i) of every geometry class is the trace of the parent map: on edge i (from reference vertex i to i+1 mod n, or for segments the end point i) the Global() of the returned object equals Global() of the parent on the edge parametrisation, identically in nodes and parameter.')

    def body(I, o, cls, rd, n, d, key, smp):
        w = where(I, o, 'SubGeometry')
        nv = NV[cls]
        V = REFN[cls][:nv]
        gp = mcall(I, o, 'Global', local(rd, 1) if rd else eigen.new_mat(0, 1))
        if rd == 0:
            s = mcall(I, o, 'SubGeometry', 0, 0)
            s = I.rv(I.deref(s))
            gs = mcall(I, s, 'Global', eigen.new_mat(0, 1))
            c.equal_mat(key + '/sub(0,0)', w, gs, gp, smp, 'SubGeometry(0,0) is not the geometry itself')
            return
        s = I.rv(I.deref(mcall(I, o, 'SubGeometry', 0, 0)))
        gs = mcall(I, s, 'Global', local(rd, 1))
        c.equal_mat(key + '/sub(0,0)', w, gs, gp, smp, 'SubGeometry(0,0) is not the geometry itself')
        for i in range(nv):
            s = I.rv(I.deref(mcall(I, o, 'SubGeometry', rd, i)))
            if not c.require('%s/sub(%d,%d)/refel' % (key, rd, i), w, refel(I, s) == (1, 0), 'SubGeometry(%d,%d) is not a point' % (rd, i)):
                continue
            gs = mcall(I, s, 'Global', eigen.new_mat(0, 1))
            for k in range(d):
                c.equal('%s/vertex%d(%d)' % (key, i, k), w, gs.cells[k][0].v, subst(to_rf(gp.cells[k][0].v), 0, V[i]), smp, 'SubGeometry(%d,%d) is not vertex %d' % (rd, i, i))
        if rd == 2:
            for i in range(nv):
                s = I.rv(I.deref(mcall(I, o, 'SubGeometry', 1, i)))
                if not c.require('%s/sub(1,%d)/refel' % (key, i), w, refel(I, s) == (2, 1), 'SubGeometry(1,%d) is not a segment' % i):
                    continue
                u = eigen.new_mat(1, 1, -1, -1, 'double', False, lambda a, b: S('u'))
                gs = mcall(I, s, 'Global', u)
                a, b = V[i], V[(i + 1) % nv]
                env = {'t%d_0' % k: C(a[k]) + (C(b[k]) - C(a[k])) * S('u') for k in range(2)}
                for k in range(d):
                    c.equal('%s/edge%d(%d)' % (key, i, k), w, gs.cells[k][0].v, to_rf(gp.cells[k][0].v).subs(env), smp, 'SubGeometry(1,%d) is not the trace of the cell on its edge %d' % (i, i))
    for_all(c, body)
    return c.finish(60)


def G05(pid):
    c = Check(pid, rule='Every geometry class interpolates its nodes: Global(reference node j) is the j-th column given to the constructor; DimLocal/DimGlobal/RefEl match class and node matrix; lf::geometry::Corners returns the vertices in order.')

    def body(I, o, cls, rd, n, d, key, smp):
        w = where(I, o, 'Global')
        nodes = REFN[cls]
        for j, p in enumerate(nodes):
            L = eigen.new_mat(rd, 1, -1, -1, 'double', False, lambda a, b: C(p[a]))
            g = mcall(I, o, 'Global', L)
            for k in range(d):
                ref = S('x%d_%d' % (k, j)) if not (cls == 'Parallelogram' and j == 2) else S('x%d_1' % k) + S('x%d_3' % k) - S('x%d_0' % k)
                c.equal('%s/node%d(%d)' % (key, j, k), w, g.cells[k][0].v, ref, smp, 'Global(reference node %d) is not node %d of the cell' % (j, j))
        dl, dg = mcall(I, o, 'DimLocal'), mcall(I, o, 'DimGlobal')
        c.equal(key + '/DimLocal', where(I, o, 'DimLocal'), dl, rd, smp, 'DimLocal')
        c.equal(key + '/DimGlobal', where(I, o, 'DimGlobal'), dg, d, smp, 'DimGlobal')
        rr = refel(I, o)
        c.require(key + '/RefEl', where(I, o, 'RefEl'), rr == (NV[cls], rd), 'RefEl() has %s nodes and dimension %s' % rr)
        cm = fcall(I, 'lf::geometry::Corners', Cell(o))
        if c.require(key + '/Corners-shape', 'lf::geometry::Corners', (cm.rows, cm.cols) == (d, NV[cls]), 'Corners() is %dx%d' % (cm.rows, cm.cols)):
            for j in range(NV[cls]):
                for k in range(d):
                    ref = S('x%d_%d' % (k, j)) if not (cls == 'Parallelogram' and j == 2) else S('x%d_1' % k) + S('x%d_3' % k) - S('x%d_0' % k)
                    c.equal('%s/Corners(%d,%d)' % (key, k, j), loc(I.p.fn('lf::geometry::Corners')), cm.cells[k][j].v, ref, smp, 'Corners')
        if rd and mcall(I, o, 'isAffine') is True:
            ie = mcall(I, o, 'IntegrationElement', local(rd, 1))
            vol = fcall(I, 'lf::geometry::Volume', Cell(o))
            fac = C(F(1, 2)) if NV[cls] == 3 else ONE
            c.equal(key + '/Volume', loc(I.p.fn('lf::geometry::Volume')), vol, num_mul(ie.cells[0][0].v, fac), smp, 'Volume of an affine cell')
    for_all(c, body)
    return c.finish(100)
