"""E05: prolongation of finite element functions along a mesh hierarchy"""
from hier import *
from hier import HW as _HW

PW = _HW + '''
#include "%s/lib/lf/fe/fe.h"
#include "%s/lib/lf/uscalfe/uscalfe.h"
namespace lfv {
using Cd = std::complex<double>;
using MP = std::shared_ptr<const lf::mesh::Mesh>;
template <class S> using Vx = Eigen::Matrix<S, Eigen::Dynamic, 1>;
#define LFV_SPACE(N, S, T) \\
std::shared_ptr<T> sp_##N(std::shared_ptr<lf::mesh::Mesh> m) { return std::make_shared<T>(m); } \\
unsigned nd_##N(const T& s) { return s.LocGlobMap().NumDofs(); } \\
auto ev_##N(std::shared_ptr<T> s, Vx<S> v, const lf::mesh::Entity& e, Eigen::MatrixXd p) { return lf::fe::MeshFunctionFE<S, S>(s, v)(e, p); } \\
Eigen::MatrixXd no_##N(std::shared_ptr<T> s, const lf::mesh::Entity& e) { return s->ShapeFunctionLayout(e)->EvaluationNodes(); }
LFV_SPACE(1d, double, lf::uscalfe::FeSpaceLagrangeO1<double>)
LFV_SPACE(2d, double, lf::uscalfe::FeSpaceLagrangeO2<double>)
LFV_SPACE(3d, double, lf::uscalfe::FeSpaceLagrangeO3<double>)
LFV_SPACE(1z, Cd, lf::uscalfe::FeSpaceLagrangeO1<Cd>)
LFV_SPACE(2z, Cd, lf::uscalfe::FeSpaceLagrangeO2<Cd>)
#define LFV_PRO(A, B, S, T, U) \\
auto pro_##A##_##B(const MH& h, std::shared_ptr<T> a, std::shared_ptr<U> b, Vx<S> v, unsigned l) { return lf::fe::prolongate(h, a, b, v, l); }
LFV_PRO(1d, 1d, double, lf::uscalfe::FeSpaceLagrangeO1<double>, lf::uscalfe::FeSpaceLagrangeO1<double>)
LFV_PRO(1d, 2d, double, lf::uscalfe::FeSpaceLagrangeO1<double>, lf::uscalfe::FeSpaceLagrangeO2<double>)
LFV_PRO(2d, 2d, double, lf::uscalfe::FeSpaceLagrangeO2<double>, lf::uscalfe::FeSpaceLagrangeO2<double>)
LFV_PRO(2d, 1d, double, lf::uscalfe::FeSpaceLagrangeO2<double>, lf::uscalfe::FeSpaceLagrangeO1<double>)
LFV_PRO(3d, 3d, double, lf::uscalfe::FeSpaceLagrangeO3<double>, lf::uscalfe::FeSpaceLagrangeO3<double>)
LFV_PRO(1z, 1z, Cd, lf::uscalfe::FeSpaceLagrangeO1<Cd>, lf::uscalfe::FeSpaceLagrangeO1<Cd>)
LFV_PRO(2z, 2z, Cd, lf::uscalfe::FeSpaceLagrangeO2<Cd>, lf::uscalfe::FeSpaceLagrangeO2<Cd>)
}
'''
PAIRS = [('1d', '1d'), ('1d', '2d'), ('2d', '2d'), ('2d', '1d'), ('3d', '3d'), ('1z', '1z'), ('2z', '2z')]


def pro_unit():
    src = module_sources('lib/lf/fe', 'lib/lf/uscalfe', 'lib/lf/assemble', 'lib/lf/mesh/hybrid2d', 'lib/lf/mesh', 'lib/lf/geometry', 'lib/lf/base') + \
        [os.path.join(REPO, 'lib/lf/quad/quad_rule_cache.cc')] + \
        [os.path.join(REPO, 'lib/lf/refinement/' + f) for f in ('hybrid2d_refinement_pattern.cc', 'refinement.cc', 'mesh_hierarchy.cc')]
    src = [f for f in dict.fromkeys(src) if os.path.exists(f)]
    return export('prolong', unity(src, PW % ((REPO,) * 5)))


def E05(pid):
    c = Check(pid, rule='prolongate() is abstractly interpreted together with the finite element spaces, dof handlers, MeshFunctionFE, MeshFunctionTransfer and NodalProjection on hierarchies of hybrid meshes produced by interpreting regular and local refinement, with symbolic coefficient vectors: at every evaluation node of every fine cell the prolongated function equals the coarse function at the image of the node in the parent cell; between spaces of the same or higher degree on cells with affine children of the same type the functions agree at a symbolic point.')
    P = pro_unit()
    thorough = TIER == 'thorough'
    w = loc(P.fn('lf::fe::prolongate'))
    jobs = []
    for name, nv, cells, edges in BASE:
        sp = MeshSpec(name, 2, nv, [(v, True) for v in cells], [(e, True) for e in edges], 1)
        for hist in (['r'], ['m'], ['m', 'm']):
            if len(hist) > 1 and len(cells) > 1 and not thorough:
                continue
            for pr in PAIRS:
                jobs.append((sp, hist, pr))

    def one(j):
        sp, hist, (a, b) = j
        key = '%s/%s/%s-%s' % (sp.name, ''.join(hist), a, b)

        def run():
            q = random.Random(SEED * 7919 + sum(map(ord, key)))
            H = Hier(P, sp, [q.randrange(3) for _ in trias(sp)] or [0]).start()
            I = H.I
            for s in hist:
                if s == 'r':
                    fcall(I, 'lfv::regular0', Cell(H.h))
                else:
                    n = H.levels[-1].n(1)
                    H.mark({i for i in range(n) if q.random() < 0.5} or {0})
                    fcall(I, 'lfv::local', Cell(H.h))
                H.sync()
            for l in range(len(H.levels) - 1):
                k = '%s/%d' % (key, l)
                A = fcall(I, 'lfv::sp_' + a, fcall(I, 'lfv::level', Cell(H.h), l))
                B = fcall(I, 'lfv::sp_' + b, fcall(I, 'lfv::level', Cell(H.h), l + 1))
                na = int(num(fcall(I, 'lfv::nd_' + a, Cell(obj(I, A)))))
                nb = int(num(fcall(I, 'lfv::nd_' + b, Cell(obj(I, B)))))
                z = a[1] == 'z'
                u = eigen.new_mat(na, 1, -1, 1, 'std::complex<double>' if z else 'double', z, lambda i, j: Cx(S('u%d' % i), S('v%d' % i)) if z else S('u%d' % i))
                v = I.rv(fcall(I, 'lfv::pro_%s_%s' % (a, b), Cell(H.h), A, B, copy_val(u), l))
                if not c.require(k + '/size', w, v.rows == nb, 'the result has %d entries for %d dofs' % (v.rows, nb)):
                    continue
                rel = H.rel(l + 1)
                for n, e in enumerate(H.levels[l + 1].E[0]):
                    g, par = rel(0, e)
                    nodes = I.rv(fcall(I, 'lfv::no_' + b, B, Cell(e)))
                    same = int(num(refn(I, e))) == int(num(refn(I, par)))
                    pts = [nodes]
                    if same and a[0] <= b[0] and int(num(refn(I, e))) == 3:
                        pts.append(eigen.new_mat(2, 1, -1, -1, 'double', False, lambda i, j: S('p%d' % i)))
                    for m, p in enumerate(pts):
                        x = I.rv(mcall(I, g, 'Global', p))
                        f = [I.rv(y) for y in I.rv(fcall(I, 'lfv::ev_' + b, B, copy_val(v), Cell(e), copy_val(p))).items]
                        h = [I.rv(y) for y in I.rv(fcall(I, 'lfv::ev_' + a, A, copy_val(u), Cell(par), x)).items]
                        if not c.require('%s/c%d/n%d' % (k, n, m), w, len(f) == len(h) == p.cols, 'number of values'):
                            continue
                        for i, (s, t) in enumerate(zip(f, h)):
                            c.equal('%s/c%d/%s%d' % (k, n, 'x' if m else 'node', i), w, s, t, what='the prolongated function (degree %s to %s) differs from the coarse function %s of fine cell %d' % (a[0], b[0], 'at a point' if m else 'at node %d' % i, n))
            c.no_abort(key, I, SAMP)
            c.cover(I)
        c.attempt(key, w, run)
    c.par(jobs, one)
    return c.finish(1000)
