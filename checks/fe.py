"""Finite element shape functions: F01 .. F06"""
from refine import *
import itertools

SC = {'double': 'double', 'complex': 'std::complex<double>'}
DIM = {'Point': 0, 'Segment': 1, 'Tria': 2, 'Quad': 2}
TDIR = {'Segment': [((0,), (1,))], 'Tria': [((0, 0), (1, 0)), ((1, 0), (0, 1)), ((0, 1), (0, 0))],
        'Quad': [((0, 0), (1, 0)), ((1, 0), (1, 1)), ((1, 1), (0, 1)), ((0, 1), (0, 0))]}
LAGR = [(p, r) for p in (1, 2, 3) for r in ('Segment', 'Tria', 'Quad')]


def fe_unit():
    inst = ''
    for p, r in LAGR:
        for s in SC.values():
            inst += 'template class lf::uscalfe::FeLagrangeO%d%s<%s>;\n' % (p, r, s)
    for r in ('Segment', 'Tria', 'Quad'):
        inst += 'template class lf::fe::FeHierarchic%s<double>;\n' % r
    inst += 'template class lf::fe::FePoint<double>;\n'
    return export('fe', unity(module_sources('lib/lf/fe', 'lib/lf/uscalfe', 'lib/lf/quad', 'lib/lf/base')) +
                  '#include "%s/lib/lf/uscalfe/lagr_fe.h"\n#include "%s/lib/lf/fe/fe_point.h"\n' % (REPO, REPO) + inst)


def rec_of(P, name, s='double'):
    r = P.rec_by_type.get('%s<%s>' % (name, SC[s]))
    if r is None:
        raise CheckError('class %s<%s> not found' % (name, SC[s]))
    return r


def make(I, rec, *args):
    for m in rec['methods']:
        f = I.p.funcs.get(m)
        if f and f.get('ctor') and len(f['params']) == len(args) and not is_copy(I, f, rec):
            if 'body' in f:
                return I.construct(rec, f, [a if isinstance(a, Cell) else Cell(a) for a in args])
            if not args:
                return I.default_obj(rec)
    raise Undecided('constructor of %s' % rec['q'])


class Rules:
    """symbolic quadrature: one generic point per requested rule; the linear functional
    w*x^k -> exact moment is applied afterwards, up to the requested degree of exactness"""

    def __init__(self, I, npts=2):
        self.I = I
        self.n = 0
        self.npts = npts
        self.rules = {}     # rule number -> (refel, degree)
        self.by = {}
        I.hooks['lf::quad::QuadRuleCache::Get'] = self.get

    def get(self, I, e, ob, args):
        r = I.rv(args[0])
        nn = mcall(I, r, 'NumNodes')
        d = I.rv(args[1])
        if isinstance(d, RF):
            d = int(d.value())
        k = (nn, d)
        if k not in self.by:
            self.n += 1
            m = self.n
            dim = {1: 0, 2: 1, 3: 2, 4: 2}[nn]
            self.rules[m] = (nn, d, dim)
            P = eigen.new_mat(dim, self.npts, -1, -1, 'double', False, lambda i, j: S('q%d_%d_%d' % (m, j, i)))
            W = eigen.new_mat(self.npts, 1, -1, 1, 'double', False, lambda i, j: S('w%d_%d' % (m, i)))
            rec = I.p.rec('lf::quad::QuadRule')
            o = Obj(rec)
            I.init_fields(o, rec, set())
            for f in rec['fields']:
                n = f['n']
                if n.startswith('ref_el'):
                    o.f[n] = Cell(r)
                elif n.startswith('degree'):
                    o.f[n] = Cell(d)
                elif n.startswith('points'):
                    o.f[n] = Cell(P)
                elif n.startswith('weights'):
                    o.f[n] = Cell(W)
            self.by[k] = Cell(o)
        return self.by[k]

    def integrate(self, v):
        """apply the functionals: v is a sum of single sums over the points of a rule, and of
        double sums over the points of one rule (tensor products); returns (value, exactness ok).
        The value must treat all points of a rule alike (checked), so the terms of point 0 and of
        the pair of points (0, 1) determine it."""
        v = to_rf(v)
        ok = True
        for m, (nn, d, dim) in self.rules.items():
            ws = ['w%d_%d' % (m, j) for j in range(self.npts)]
            if not any(w in v.allnames() for w in ws):
                continue
            z = {w: ZERO for w in ws}
            q = [['q%d_%d_%d' % (m, j, i) for i in range(dim)] for j in range(self.npts)]
            rest = v.subs(z)
            if any(n in rest.allnames() for p in q for n in p):
                raise Undecided('a quadrature point is used without its weight')
            lin = [v.diff(w).subs(z) for w in ws]
            sw = {}
            for i in range(dim):
                sw[q[0][i]] = S(q[1][i])
                sw[q[1][i]] = S(q[0][i])
            if not (lin[0].subs(sw) - lin[1]).is_zero():
                raise Undecided('the points of a quadrature rule are not treated alike')
            d0 = v.diff(ws[0])
            dd = [d0.diff(ws[0]), d0.diff(ws[1])]
            if any(w in x.allnames() for x in dd for w in ws):
                raise Undecided('value is of degree > 2 in the quadrature weights')
            tot = rest
            for exps, coef in monomials(lin[0], q[0]):
                if sum(exps) > d if nn != 4 else (exps and max(exps) > d):
                    ok = False
                tot = tot + coef * C(moment(nn, exps))
            if not dd[1].is_zero() or not dd[0].is_zero():
                diag = dd[1].subs({q[1][i]: S(q[0][i]) for i in range(dim)})
                if not (diag - dd[0]).is_zero():
                    raise Undecided('the points of a quadrature rule are not treated alike in a double sum')
                for exps, coef in monomials(dd[1], q[0] + q[1]):
                    e0, e1 = exps[:dim], exps[dim:]
                    if any((sum(x) > d if nn != 4 else max(x) > d) for x in (e0, e1)):
                        ok = False
                    tot = tot + coef * C(moment(nn, e0) * moment(nn, e1) / 2)
            v = tot
        return v, ok


def moment(nn, e):
    f = math.factorial
    if nn == 3:
        return F(f(e[0]) * f(e[1]), f(e[0] + e[1] + 2))
    r = F(1)
    for k in e:
        r /= (k + 1)
    return r


def monomials(v, names):
    """[(exponents, coefficient RF)] of v as polynomial in names"""
    if not names:
        return [((), v)]
    n = names[0]
    if n in {x for k, _ in v.d for x in RF(dict(k)).allnames()}:
        raise Undecided('not a polynomial in the quadrature point')
    out = []
    k = 0
    cur = v
    while not cur.is_zero():
        c0 = cur.subs({n: ZERO})
        for ex, co in monomials(c0, names[1:]):
            out.append(((k,) + ex, co))
        cur = (cur - c0) / S(n) if not (cur - c0).is_zero() else ZERO
        k += 1
        if k > 200:
            raise Undecided('degree')
    return out


def rpow(x, n):
    r = ONE
    for _ in range(n):
        r = r * x
    return r


def refpts(r, q=1):
    def f(i):
        rr = random.Random(7 * i + SEED)
        env = {}
        for k in range(q):
            a, b = F(rr.randint(5, 60), 100), F(rr.randint(5, 39), 100)
            env['t0_%d' % k], env['t1_%d' % k] = a, b
        env['s'] = F(rr.randint(5, 95), 100)
        for m in range(1, 12):
            for j in range(2):
                env['q%d_%d_0' % (m, j)], env['q%d_%d_1' % (m, j)], env['w%d_%d' % (m, j)] = F(rr.randint(5, 60), 100), F(rr.randint(5, 39), 100), F(1, 3)
        return env
    f.valid = lambda env: ref_ok(env, {'Tria': 3}.get(r, 4), 2)
    return f


def lagrange(c, body):
    P = fe_unit()

    def one(x):
        p, r, s = x
        alg.reset()
        I = Interp(P)
        key = 'FeLagrangeO%d%s<%s>' % (p, r, s)
        rec = rec_of(P, 'lf::uscalfe::FeLagrangeO%d%s' % (p, r), s)

        def run():
            o = make(I, rec)
            body(I, o, key, r, p, None, None, None)
            c.no_abort(key, I, refpts(r))
        c.attempt(key, 'lf::uscalfe::FeLagrangeO%d%s' % (p, r), run)
        c.cover(I)
    c.par([(p, r, s) for p, r in LAGR for s in SC], one)


def hier_cases():
    thorough = TIER == 'thorough'
    for p in range(1, 13 if thorough else 9):
        yield 'Segment', p, None, None
    mt = 6 if thorough else 4
    for p in range(1, mt + 1):
        for o in itertools.product((1, -1), repeat=3):
            if p > 4 and o not in ((1, 1, 1), (-1, -1, -1), (1, -1, 1)):
                continue
            yield 'Tria', p, (p, p, p), o
        for ed in ((1, p, p), (p, 1, p), (p, p, 1), (p, p + 1, p + 2)) if p > 1 else ((2, 3, 1),):
            yield 'Tria', p, ed, (1, -1, 1)
            yield 'Tria', p, ed, (-1, 1, -1)
    mq = 5 if thorough else 4
    for p in range(1, mq + 1):
        for o in ((1, 1, 1, 1), (-1, -1, -1, -1), (1, -1, 1, -1), (-1, 1, 1, -1), (-1, -1, 1, 1)):
            yield 'Quad', p, (p,) * 4, o
        for ed in ((1, p, p, p + 1), (p + 1, p, 1, 2)):
            yield 'Quad', p, ed, (1, -1, 1, -1)
            yield 'Quad', p, ed, (-1, 1, -1, 1)


def hier(c, body, scal='double'):
    P = fe_unit()

    def one(x):
        r, p, ed, ori = x
        alg.reset()
        I = Interp(P)
        R = Rules(I)
        key = 'FeHierarchic%s(p=%d,edges=%s,orient=%s)' % (r, p, ed, ori)
        rec = rec_of(P, 'lf::fe::FeHierarchic' + r, scal)

        def run():
            qc = new(I, 'lf::quad::QuadRuleCache') if False else Opq('qr_cache', 'lf::quad::QuadRuleCache')
            if r == 'Segment':
                o = make(I, rec, p, qc)
            else:
                ev = Vec([Cell(x) for x in ed], 'array', 'unsigned int')
                ov = Vec([Cell(x) for x in ori], 'span', 'lf::mesh::Orientation')
                o = make(I, rec, p, ev, qc, ov)
            body(I, o, key, r, p, ed, ori, R)
            c.no_abort(key, I, refpts(r))
        c.attempt(key, 'lf::fe::FeHierarchic' + r, run)
        c.cover(I)
    c.par(sorted(hier_cases(), key=lambda x: (-x[1], x[0] != 'Quad')), one)


def ev(I, o, M):
    return mcall(I, o, 'EvalReferenceShapeFunctions', M)


def nsf(I, o, *a):
    return int(num(mcall(I, o, 'NumRefShapeFunctions', *a)))


def pt(p):
    return eigen.new_mat(len(p), 1, -1, -1, 'double', False, lambda i, j: p[i] if isinstance(p[i], RF) else C(p[i]))


def F01(pid):
    c = Check(pid, rule='Interpolation duality: for every Lagrangian element (orders 1-3, segment/triangle/quadrilateral, real and complex scalars) shape function i at evaluation node j is delta_ij and NodalValuesToDofs maps the nodal values of shape function i to the i-th unit vector; the same for the hierarchic elements over the enumerated degrees and orientations, where quadrature inside NodalValuesToDofs is replaced by the exact moment functional and the degree requested from QuadRuleCache must suffice.')

    def body(I, o, key, r, p, ed, ori, R):
        w = where(I, o, 'NodalValuesToDofs')
        n = nsf(I, o)
        nodes = mcall(I, o, 'EvaluationNodes')
        ne = int(num(mcall(I, o, 'NumEvaluationNodes')))
        if not c.require(key + '/nodes-shape', where(I, o, 'EvaluationNodes'), (nodes.rows, nodes.cols) == (DIM[r], ne), 'EvaluationNodes() is %dx%d, NumEvaluationNodes()=%d' % (nodes.rows, nodes.cols, ne)):
            return
        B = ev(I, o, nodes)
        if not c.require(key + '/eval-shape', where(I, o, 'EvalReferenceShapeFunctions'), (B.rows, B.cols) == (n, ne), 'EvalReferenceShapeFunctions() is %dx%d for %d shape functions and %d points' % (B.rows, B.cols, n, ne)):
            return
        if R is None:
            for i in range(n):
                for j in range(ne):
                    c.equal('%s/delta(%d,%d)' % (key, i, j), where(I, o, 'EvalReferenceShapeFunctions'), B.cells[i][j].v, ONE if i == j else ZERO, refpts(r), 'shape function %d at evaluation node %d' % (i, j))
        for i in range(n):
            nv = eigen.new_mat(1, ne, 1, -1, B.st, False, lambda a, j: B.cells[i][j].v)
            dv = mcall(I, o, 'NodalValuesToDofs', nv)
            if not c.require('%s/dofs%d-shape' % (key, i), w, dv.rows * dv.cols == n, 'NodalValuesToDofs returns %dx%d' % (dv.rows, dv.cols)):
                return
            dl = [x.v for row in dv.cells for x in row]
            for j in range(n):
                x = dl[j]
                if R is not None:
                    if isinstance(x, Cx):
                        x = x.re
                    x, ok = R.integrate(x)
                    c.require('%s/exactness(%d,%d)' % (key, i, j), w, ok, 'the quadrature rule requested from the cache is not exact for the dual pairing of shape function %d with functional %d' % (i, j))
                c.equal('%s/dual(%d,%d)' % (key, i, j), w, x, ONE if i == j else ZERO, refpts(r), 'NodalValuesToDofs of shape function %d, component %d' % (i, j))
    lagrange(c, body)
    hier(c, body)
    return c.finish(500)


def F02(pid):
    c = Check(pid, rule='For every Lagrangian and hierarchic reference element (enumerated degrees/orientations) entry (i, k+dim*q) of GradientsReferenceShapeFunctions is identical to the formal derivative of EvalReferenceShapeFunctions(i,q) with respect to coordinate k, and the polynomial degree does not exceed Degree().')

    def body(I, o, key, r, p, ed, ori, R):
        d = DIM[r]
        np = 2 if R is None else 1
        L = local(d, np)
        B = ev(I, o, L)
        w = where(I, o, 'GradientsReferenceShapeFunctions')
        n = nsf(I, o)
        G = mcall(I, o, 'GradientsReferenceShapeFunctions', L)
        if not c.require(key + '/shape', w, (G.rows, G.cols) == (n, np * d) and (B.rows, B.cols) == (n, np), 'gradient matrix is %dx%d for %d functions and %d points' % (G.rows, G.cols, n, np)):
            return
        for i in range(n):
            for q in range(np):
                b = B.cells[i][q].v
                for k in range(d):
                    db = D(b, 't%d_%d' % (k, q))
                    c.equal('%s/grad(%d,%d)@%d' % (key, i, k, q), w, G.cells[i][q * d + k].v, db, refpts(r, 2), 'component %d of the gradient of shape function %d' % (k, i))
        if R is None or p <= 3:
            batch(c, I, o, key, d, ['EvalReferenceShapeFunctions', 'GradientsReferenceShapeFunctions'], refpts(r, 9), sizes=(3, 9) if R is None or p <= 2 else (3,))
        deg = int(num(mcall(I, o, 'Degree')))
        for i in range(n):
            b = B.cells[i][0].v
            b = b.re if isinstance(b, Cx) else to_rf(b)
            mx = 0
            for exps, co in monomials(b, ['t%d_0' % k for k in range(d)]):
                mx = max(mx, sum(exps) if r != 'Quad' else max(exps))
            c.require('%s/degree%d' % (key, i), where(I, o, 'Degree'), mx <= deg, 'shape function %d has degree %d > Degree()=%d' % (i, mx, deg))
    lagrange(c, body)
    hier(c, body)
    return c.finish(500)


def slots(I, o, r):
    """local numbering: list of (codim, subidx, k, n)"""
    out = []
    d = DIM[r]
    nsub = {'Segment': {1: 2, 0: 1}, 'Tria': {2: 3, 1: 3, 0: 1}, 'Quad': {2: 4, 1: 4, 0: 1}}[r]
    for codim in range(d, -1, -1):
        for i in range(nsub[codim]):
            m = nsf(I, o, codim, i)
            for k in range(m):
                out.append((codim, i, k, m))
    return out


def F03(pid):
    c = Check(pid, rule='C0 conformity: with local shape functions numbered vertices - edges - interior, on every edge of the cell (parametrised from its first to its second vertex) the functions of that edge and its end points coincide with the shape functions of the matching segment element, taken in reversed order and direction when the relative orientation is negative, and all other shape functions vanish there.')

    def body(I, o, key, r, p, ed, ori, R):
        if r == 'Segment':
            return
        w = where(I, o, 'EvalReferenceShapeFunctions')
        sl = slots(I, o, r)
        n = nsf(I, o)
        if not c.require(key + '/count', where(I, o, 'NumRefShapeFunctions'), len(sl) == n, 'NumRefShapeFunctions()=%d but the sub-entities carry %d' % (n, len(sl))):
            return
        for e, (A, Bp) in enumerate(TDIR[r]):
            for o_ in ([ori[e]] if ori else [1, -1]):
                s = S('s')
                B = ev(I, o, pt([C(a) + (C(b) - C(a)) * s for a, b in zip(A, Bp)]))
                if R is None:
                    so = make(I, rec_of(I.p, 'lf::uscalfe::FeLagrangeO%dSegment' % p, 'complex' if 'complex' in key else 'double'))
                else:
                    so = make(I, rec_of(I.p, 'lf::fe::FeHierarchicSegment', 'double'), ed[e], Opq('qr_cache', 'lf::quad::QuadRuleCache'))
                T = ev(I, so, pt([s if o_ == 1 else ONE - s]))
                nv = len(TDIR[r])
                for i, (codim, idx, k, m) in enumerate(sl):
                    if codim == 2 and idx in (e, (e + 1) % nv):
                        first = idx == e
                        exp = T.cells[0 if first == (o_ == 1) else 1][0].v
                    elif codim == 1 and idx == e:
                        exp = T.cells[2 + (k if o_ == 1 else m - 1 - k)][0].v
                    else:
                        exp = ZERO
                    c.equal('%s/edge%d(o=%d)/sf%d' % (key, e, o_, i), w, B.cells[i][0].v, exp, refpts(r), 'trace of shape function %d on edge %d' % (i, e))
    lagrange(c, body)
    hier(c, body)
    return c.finish(500)


def F06(pid):
    c = Check(pid, rule='Polynomial completeness: for every Lagrangian element of order p the sum over evaluation nodes of monomial(node_j)*b_j is identical to that monomial for all monomials of degree <= p (triangle, segment) resp. coordinate degree <= p (quadrilateral); for hierarchic elements the interpolation NodalValuesToDofs followed by the basis reproduces these monomials. This includes the partition of unity.')

    def body(I, o, key, r, p, ed, ori, R):
        d = DIM[r]
        w = where(I, o, 'EvalReferenceShapeFunctions')
        n = nsf(I, o)
        pp = p if R is None or r == 'Segment' else min((p,) + tuple(ed))
        nodes = mcall(I, o, 'EvaluationNodes')
        B = ev(I, o, local(d, 1))
        for ex in itertools.product(range(pp + 1), repeat=d):
            if r != 'Quad' and sum(ex) > pp:
                continue
            vals = []
            for j in range(nodes.cols):
                m = ONE
                for k in range(d):
                    m = m * (rpow(to_rf(nodes.cells[k][j].v), ex[k]))
                vals.append(m)
            if R is None:
                co = vals
            else:
                nv = eigen.new_mat(1, len(vals), 1, -1, 'double', False, lambda a, j: vals[j])
                dv = mcall(I, o, 'NodalValuesToDofs', nv)
                co = []
                for row in dv.cells:
                    for x in row:
                        y, ok = R.integrate(x.v)
                        co.append(y)
            tot = ZERO
            for j in range(n):
                tot = num_add(tot, num_mul(co[j], B.cells[j][0].v))
            m = ONE
            for k in range(d):
                m = m * (rpow(S('t%d_0' % k), ex[k]))
            c.equal('%s/monomial%s' % (key, ex), w, tot, m, refpts(r), 'interpolant of the monomial with exponents %s' % (ex,))
    lagrange(c, body)
    hier(c, body)
    return c.finish(100)
