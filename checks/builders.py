"""Structured mesh builders: M02"""
from hier import *

BW = '''
#include "%s/lib/lf/mesh/utils/utils.h"
#include "%s/lib/lf/mesh/hybrid2d/hybrid2d.h"
namespace lfv {
using MF = lf::mesh::hybrid2d::MeshFactory;
namespace mu = lf::mesh::utils;
template <class B> std::shared_ptr<lf::mesh::Mesh> st(int w, int v, double a0, double a1, double b0, double b1, unsigned nx, unsigned ny) {
  B b(std::make_unique<MF>(w));
  if (v == 0) {
    b.setNumXCells(nx); b.setNumYCells(ny); b.setBottomLeftCorner(a0, a1); b.setTopRightCorner(b0, b1);
  } else {
    b.setBottomLeftCorner(Eigen::Vector2d(a0, a1)).setTopRightCorner(Eigen::Vector2d(b0, b1)).setNumXCells(nx).setNumYCells(ny);
  }
  return b.Build();
}
std::shared_ptr<lf::mesh::Mesh> tri(int v, double a0, double a1, double b0, double b1, unsigned nx, unsigned ny) { return st<mu::TPTriagMeshBuilder>(2, v, a0, a1, b0, b1, nx, ny); }
std::shared_ptr<lf::mesh::Mesh> quad(int v, double a0, double a1, double b0, double b1, unsigned nx, unsigned ny) { return st<mu::TPQuadMeshBuilder>(2, v, a0, a1, b0, b1, nx, ny); }
std::shared_ptr<lf::mesh::Mesh> torus(int v, double a0, double a1, double b0, double b1, unsigned nx, unsigned ny) { return st<mu::TorusMeshBuilder>(3, v, a0, a1, b0, b1, nx, ny); }
unsigned numc(const lf::mesh::Mesh& m, unsigned c) { return m.NumEntities(c); }
unsigned numr(const lf::mesh::Mesh& m, lf::base::RefEl r) { return m.NumEntities(r); }
}
'''


class Near:
    """stand-in for Check whose equal() compares numerically (values contain sines and cosines of rounded angles)"""

    def __init__(self, c):
        self.c = c

    def require(self, *a, **k):
        return self.c.require(*a, **k)

    def equal(self, key, w, a, b, samples=None, what=''):
        for i in range(3):
            e = Env({}, salt=i)
            x, y = evalnum(a, e), evalnum(b, e)
            if abs(float(x) - float(y)) > 1e-9:
                return self.c.require(key, w, False, what, found=str(float(x)), expected=str(float(y)))
        return self.c.require(key, w, True, what)


def M02(pid):
    c = Check(pid, rule='TPTriagMeshBuilder, TPQuadMeshBuilder and TorusMeshBuilder are abstractly interpreted with symbolic corners of the rectangle (all numbers of cells up to a bound): the cells are exactly the rectangles of the uniform grid (split along the diagonal), each once and with the geometry spanned by its nodes, the mesh is conforming and consistent in itself, its boundary is that of the rectangle (the torus has none), and the documented numbering of nodes, edges and triangles holds.')
    src = [f for f in module_sources('lib/lf/mesh/hybrid2d', 'lib/lf/mesh', 'lib/lf/mesh/utils', 'lib/lf/geometry', 'lib/lf/base')]
    P = export('builders', unity(src, BW % (REPO, REPO)))
    thorough = TIER == 'thorough'
    from vals import num_cmp

    def one(j):
        kind, nx, ny, v = j
        w = loc(P.fn('lf::mesh::utils::%s::Build' % {'tri': 'TPTriagMeshBuilder', 'quad': 'TPQuadMeshBuilder', 'torus': 'TorusMeshBuilder'}[kind]))
        key = '%s/%dx%d/%d' % (kind, nx, ny, v)

        def run():
            alg.reset()
            I = Interp(P)
            if kind == 'torus':
                a0, a1, b0, b1 = [C(x) for x in (F(1, 3), F(-2), F(5, 3), F(4))]
            else:
                a0, a1, b0, b1 = [S(n) for n in ('a0', 'a1', 'b0', 'b1')]
                I.assume_known = [num_cmp('<', a0, b0), num_cmp('<', a1, b1)]
            m = obj(I, fcall(I, 'lfv::' + kind, v, a0, a1, b0, b1, nx, ny))
            if not c.require(key + '/mesh', w, isinstance(m, Obj), 'no mesh is built'):
                return
            L = Level(I, m)
            hx, hy = (b0 - a0) * C(F(1, nx)), (b1 - a1) * C(F(1, ny))
            per = kind == 'torus'
            gx, gy = (nx, ny) if per else (nx + 1, ny + 1)
            grid = {(i, k): None for i in range(gx) for k in range(gy)}
            for cd, n in ((2, gx * gy), (1, {'tri': nx * ny, 'quad': 0, 'torus': 0}[kind] + nx * gy + gx * ny), (0, nx * ny * (2 if kind == 'tri' else 1))):
                if not c.require('%s/n%d' % (key, cd), w, L.n(cd) == n, '%d entities of co-dimension %d instead of %d' % (L.n(cd), cd, n)):
                    return
            cc = Near(c) if per else c
            if per:
                x, y = float(b0.value() - a0.value()), float(b1.value() - a1.value())
                r, R = x / (2 * math.pi), y / (2 * math.pi)

                def pos(i, k):
                    t, f = 2 * math.pi * i / nx, 2 * math.pi * k / ny
                    return [(R + r * math.cos(t)) * math.cos(f), (R + r * math.cos(t)) * math.sin(f), r * math.sin(t)]
            else:
                def pos(i, k):
                    return [a0 + hx * C(F(i)), a1 + hy * C(F(k))]
            # which node is at which grid point
            P_ = []
            for n in range(L.n(2)):
                g = mcall(I, obj(I, mcall(I, L.E[2][n], 'Geometry')), 'Global', eigen.new_mat(0, 1))
                P_.append([I.rv(q[0]) for q in g.cells])
            at_ = {}
            E0 = Env({'a0': F(1, 7), 'a1': F(2, 7), 'b0': F(12, 5), 'b1': F(41, 9)})
            for n, p in enumerate(P_):
                if not c.require('%s/dim%d' % (key, n), w, len(p) == len(pos(0, 0)), 'node %d has %d coordinates' % (n, len(p))):
                    return
                pn = [float(evalnum(x, E0)) for x in p]
                for gp in grid:
                    if max(abs(float(evalnum(x, E0)) - y) for x, y in zip(pos(*gp), pn)) < 1e-9:
                        at_[n] = gp
                if not c.require('%s/node%d' % (key, n), w, n in at_ and grid[at_[n]] is None, 'node %d at %s is not at a grid point of its own' % (n, pn)):
                    return
                grid[at_[n]] = n
                for q, (x, y) in enumerate(zip(p, pos(*at_[n]))):
                    cc.equal('%s/pos%d.%d' % (key, n, q), w, x, y, what='node %d is not at grid point %s' % (n, at_[n]))
            if kind == 'tri':
                c.require(key + '/lexi', w, all(at_[n] == (n % gx, n // gx) for n in at_), 'the nodes are not numbered lexicographically: %s' % at_)
            want = {}
            for i in range(nx):
                for k in range(ny):
                    q = [grid[i, k], grid[(i + 1) % gx, k], grid[(i + 1) % gx, (k + 1) % gy], grid[i, (k + 1) % gy]]
                    if kind == 'tri':
                        want[frozenset((q[0], q[2], q[3]))] = 0
                        want[frozenset((q[0], q[1], q[2]))] = 1
                    else:
                        want[frozenset(q)] = None
            seen = set()
            for i in range(L.n(0)):
                vs = L.sub[0, i, 2]
                s = frozenset(vs)
                ok = c.require('%s/cell%d' % (key, i), w, s in want and s not in seen and len(vs) == len(s), 'cell %d with the corners %s is not a cell of the grid (or occurs twice)' % (i, [at_.get(x) for x in vs]))
                if not ok:
                    return
                seen.add(s)
                if kind == 'tri':
                    c.require('%s/parity%d' % (key, i), w, want[s] == i % 2, 'triangle %d lies %s the diagonal' % (i, 'below' if want[s] else 'above'))
                W = at(I, L.E[0][i], VERT['Tria' if len(vs) == 3 else 'Quad'] + [(F(1, 4), F(1, 3))])
                X = [[W.cells[d_][n].v for n in range(W.cols)] for d_ in range(W.rows)]
                for n, vtx in enumerate(vs):
                    for d_ in range(W.rows):
                        cc.equal('%s/corner%d.%d.%d' % (key, i, n, d_), w, X[d_][n], P_[vtx][d_], what='corner %d of cell %d is not at its node %d' % (n, i, vtx))
                s_, t_ = F(1, 4), F(1, 3)
                sh = [1 - s_ - t_, s_, t_] if len(vs) == 3 else [(1 - s_) * (1 - t_), s_ * (1 - t_), s_ * t_, (1 - s_) * t_]
                for d_ in range(W.rows):
                    cc.equal('%s/inside%d.%d' % (key, i, d_), w, X[d_][len(vs)], sum((P_[vtx][d_] * C(f) for vtx, f in zip(vs, sh)), C(F(0))), what='cell %d is not spanned by its corners' % i)
                if not per:
                    p = [at_[x] for x in vs]
                    ar = sum(p[n][0] * p[(n + 1) % len(p)][1] - p[(n + 1) % len(p)][0] * p[n][1] for n in range(len(p)))
                    c.require('%s/turn%d' % (key, i), w, ar > 0, 'cell %d is oriented clockwise' % i)
            structure(cc, I, key, w, L)
            cnt = [0] * L.n(1)
            for i in range(L.n(0)):
                for e in L.sub[0, i, 1]:
                    cnt[e] += 1
            cls = []
            for i in range(L.n(1)):
                p, q = [at_[x] for x in L.sub[1, i, 1]]
                bd = not per and ((p[0] == q[0] and p[0] in (0, nx)) or (p[1] == q[1] and p[1] in (0, ny)))
                c.require('%s/edge%d' % (key, i), w, cnt[i] == (1 if bd else 2), 'edge %d from %s to %s belongs to %d cells' % (i, p, q, cnt[i]))
                cls.append(0 if p[1] == q[1] else 1 if p[0] == q[0] else 2)
            if kind == 'tri':
                c.require(key + '/edgeorder', w, cls == sorted(cls), 'edges are not numbered horizontal, vertical, diagonal: %s' % cls)
            c.no_abort(key, I, lambda i: {'a0': F(i, 7), 'a1': F(-i, 3), 'b0': F(i + 2), 'b1': F(i + 1, 2)})
            c.cover(I)
        c.attempt(key, w, run)
    N = 5 if thorough else 3
    jobs = [(kind, nx, ny, (nx + ny) % 2) for kind in ('tri', 'quad') for nx in range(1, N + 1) for ny in range(1, N + 1)]
    jobs += [('torus', nx, ny, (nx + ny) % 2) for nx in range(3, N + 2) for ny in range(3, N + 2)]
    jobs.sort(key=lambda j: -j[1] * j[2])
    c.par(jobs, one)
    return c.finish(1000)
