"""Finite element spaces against their degree-of-freedom handlers: E04"""
from femod import *

SP = '''
#include "%s/lib/lf/fe/fe.h"
#include "%s/lib/lf/uscalfe/uscalfe.h"
namespace lfv {
using Cd = std::complex<double>;
using MP = std::shared_ptr<const lf::mesh::Mesh>;
struct Deg { unsigned operator()(const lf::mesh::Entity& e) const; };
template <class S> using SF = std::shared_ptr<const lf::fe::ScalarFESpace<S>>;
template <class S> using RF = std::shared_ptr<const lf::fe::ScalarReferenceFiniteElement<S>>;
#define LFV_SP(N, S) \\
SF<S> l1_##N(MP m) { return std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<S>>(m); } \\
SF<S> l2_##N(MP m) { return std::make_shared<lf::uscalfe::FeSpaceLagrangeO2<S>>(m); } \\
SF<S> l3_##N(MP m) { return std::make_shared<lf::uscalfe::FeSpaceLagrangeO3<S>>(m); } \\
SF<S> lt1_##N(MP m) { return std::make_shared<lf::uscalfe::UniformScalarFESpace<S>>(m, std::make_shared<lf::uscalfe::FeLagrangeO1Tria<S>>(), nullptr, nullptr, nullptr); } \\
SF<S> lt2_##N(MP m) { return std::make_shared<lf::uscalfe::UniformScalarFESpace<S>>(m, std::make_shared<lf::uscalfe::FeLagrangeO2Tria<S>>(), nullptr, std::make_shared<lf::uscalfe::FeLagrangeO2Segment<S>>(), nullptr); } \\
SF<S> lq3_##N(MP m) { return std::make_shared<lf::uscalfe::UniformScalarFESpace<S>>(m, nullptr, std::make_shared<lf::uscalfe::FeLagrangeO3Quad<S>>(), nullptr, nullptr); } \\
SF<S> lm3_##N(MP m) { return std::make_shared<lf::uscalfe::UniformScalarFESpace<S>>(m, std::make_shared<lf::uscalfe::FeLagrangeO3Tria<S>>(), std::make_shared<lf::uscalfe::FeLagrangeO3Quad<S>>(), nullptr, nullptr); } \\
SF<S> hi_##N(MP m, Deg d) { return std::make_shared<lf::fe::HierarchicScalarFESpace<S>>(m, d); } \\
SF<S> hu_##N(MP m, unsigned p) { return std::make_shared<lf::fe::HierarchicScalarFESpace<S>>(m, p); } \\
unsigned un_##N(SF<S> s, lf::base::RefEl r) { return dynamic_cast<const lf::uscalfe::UniformScalarFESpace<S>&>(*s).NumRefShapeFunctions(r); } \\
const void* ul_##N(SF<S> s, lf::base::RefEl r) { return dynamic_cast<const lf::uscalfe::UniformScalarFESpace<S>&>(*s).ShapeFunctionLayout(r); }
LFV_SP(d, double)
LFV_SP(z, Cd)
}
'''
VTX = {'Segment': [(0,), (1,)], 'Tria': [(0, 0), (1, 0), (0, 1)], 'Quad': [(0, 0), (1, 0), (1, 1), (0, 1)]}


def sp_unit():
    return export('spaces', unity(module_sources('lib/lf/fe', 'lib/lf/uscalfe', 'lib/lf/assemble', 'lib/lf/base') + [os.path.join(REPO, 'lib/lf/quad/quad_rule_cache.cc')], SP % (REPO, REPO)))


def E04(pid):
    c = Check(pid, rule='The constructors of the Lagrange, uniform and hierarchic finite element spaces and their dof handlers are abstractly interpreted over abstract meshes (triangles and quadrilaterals sharing edges in both directions, uniform and varying polynomial degrees). For every entity the layout has the type of the entity, NumRefShapeFunctions() local shape functions equals NumLocalDofs and the interior count NumInteriorDofs. For every global basis function: its trace from every adjacent cell, at a symbolic point of a shared edge, is the same polynomial and equals that of the layout of the edge; functions of other dofs vanish there; at vertices the same holds.')
    P = sp_unit()
    thorough = TIER == 'thorough'
    jobs = []
    for z in 'dz':
        for name in ('T', 'Q', 'TQ', 'QT') + (('TTQQ',) if thorough else ()):
            for k in ('l1', 'l2', 'l3', 'lm3') + (('lt1', 'lt2') if name == 'T' else ()) + (('lq3',) if name == 'Q' else ()):
                jobs.append((k + '_' + z, name, None))
            for p in (1, 2, 3, 4) if thorough or len(name) == 1 else (1, 2, 3):
                jobs.append(('hu_' + z, name, p))
            for sd in range(4 if thorough else 2):
                jobs.append(('hi_' + z, name, sd))
    jobs.sort(key=lambda j: (j[0][0] != 'h', -len(j[1]), -(j[2] or 0)))

    def one(job):
        k, name, arg = job
        sk = [s for s in skels(thorough) if s.name == name][0]
        alg.reset()
        I = Interp(P)
        sk.install(I)
        I.nonnull.add(sk.key)
        Rules(I)
        key = '%s/%s%s' % (k, name, '' if arg is None else '/%s' % arg)
        cls = 'lf::fe::HierarchicScalarFESpace' if k[0] == 'h' else 'lf::uscalfe::UniformScalarFESpace'
        w = wsrc(P, cls + '::ShapeFunctionLayout')
        deg = {}
        for en in sk.all():
            r = random.Random('%s/%s/%s' % (name, arg, en))
            deg[en] = 1 if en[0] == 2 else r.randint(1, 4 if en[0] == 1 else 3)
        if arg == 1:   # high order edges, low order cells and vice versa
            for en in deg:
                if en[0] < 2:
                    deg[en] = {0: (1, 4), 1: (3, 2)}[en[0]][en[1] % 2]
        I.hooks['lfv::Deg::operator()'] = lambda I_, e, ob, args: Cell(deg[sk.parse(I_.rv(args[0]))])

        def run():
            z = k[-1]
            if k[:2] == 'hi':
                s = fcall(I, 'lfv::' + k, sk.mesh(), new_default(I, 'lfv::Deg'))
            elif k[:2] == 'hu':
                s = fcall(I, 'lfv::' + k, sk.mesh(), arg)
            else:
                s = fcall(I, 'lfv::' + k, sk.mesh())
            full = k[:3] not in ('lt1', 'lq3', 'lm3')
            dh = mcall(I, s, 'LocGlobMap')
            m = mcall(I, s, 'Mesh')
            c.require(key + '/mesh', w, isinstance(m, Opq) and m.key == sk.key, 'Mesh() returns %s' % m)
            lay, dofs = {}, {}
            for en in sk.all():
                t = sk.type(*en)
                lk = '%s/%s%d' % (key, t, en[1])
                dofs[en] = [I.rv(x) for x in I.iter_items(mcall(I, dh, 'GlobalDofIndices', sk.ent(*en)))]
                nd = mcall(I, dh, 'NumLocalDofs', sk.ent(*en))
                ni = mcall(I, dh, 'NumInteriorDofs', sk.ent(*en))
                if en[0] and not full:
                    continue
                if k[0] == 'h' and en[0] == 2:
                    pass
                if k[:3] == 'lt2' and en[0] == 2:
                    continue
                L = mcall(I, s, 'ShapeFunctionLayout', sk.ent(*en))
                if not c.require(lk + '/layout', w, isinstance(L, Ptr), 'no shape function layout: %s' % (L,)):
                    continue
                lay[en] = L
                re = mcall(I, L, 'RefEl')
                c.require(lk + '/refel', w, same(mcall(I, re, 'NumNodes'), {'Point': 1, 'Segment': 2, 'Tria': 3, 'Quad': 4}[t]), 'the layout belongs to another reference element')
                c.require(lk + '/nloc', w, same(mcall(I, L, 'NumRefShapeFunctions'), nd), '%s local shape functions but NumLocalDofs() is %s' % (txt(mcall(I, L, 'NumRefShapeFunctions')), txt(nd)))
                wn = wsrc(P, cls + '::NumRefShapeFunctions')
                c.require(lk + '/nint', wn, same(mcall(I, s, 'NumRefShapeFunctions', sk.ent(*en)), ni), 'NumRefShapeFunctions(entity) is %s but the entity owns %s dofs' % (txt(mcall(I, s, 'NumRefShapeFunctions', sk.ent(*en))), txt(ni)))
                c.require(lk + '/nint0', wn, same(mcall(I, L, 'NumRefShapeFunctions', 0), ni), 'the layout has %s interior shape functions but the entity owns %s dofs' % (txt(mcall(I, L, 'NumRefShapeFunctions', 0)), txt(ni)))
                if k[0] != 'h':
                    r = fcall(I, 'lfv::un_' + z, s, ref_el(I, t))
                    c.require(lk + '/nref', wn, same(r, ni), 'NumRefShapeFunctions(ref_el) is %s but entities of that type own %s dofs' % (txt(r), txt(ni)))
                    L2 = fcall(I, 'lfv::ul_' + z, s, ref_el(I, t))
                    c.require(lk + '/byref', w, isinstance(L2, Ptr) and I.rv(I.deref(L2)) is I.rv(I.deref(L)), 'ShapeFunctionLayout(ref_el) and ShapeFunctionLayout(entity) differ')
                d = mcall(I, L, 'Degree')
                ex = (int(k[1]) if k[1].isdigit() else int(k[2])) if k[0] == 'l' else arg if k[:2] == 'hu' else None
                if k[0] == 'l' and en[0] < 2 or ex is not None and en[0] < 2:
                    c.require(lk + '/degree', w, same(d, ex), 'the degree of the layout is %s' % txt(d))
                elif en[0] < 2:
                    # hierarchic elements: the largest degree of the cell and its edges
                    mx = max([deg[en]] + ([deg[x] for x in sk.subs(*en, 1)] if en[0] == 0 else []))
                    c.require(lk + '/degree', w, same(d, mx), 'the degree of the layout is %s, the largest degree is %d' % (txt(d), mx))
            # traces of the global basis functions
            s_ = S('s')
            for (cd, i) in [en for en in sk.all() if en[0] == 1]:
                want = None
                adj = [(q, j) for q in range(len(sk.cells)) for j, e in enumerate(sk.cedges[q]) if e == i]
                src = [('edge', None)] if (1, i) in lay else []
                for q, j in adj:
                    src.append((q, j))
                for q, j in src:
                    if q != 'edge' and (0, q) not in lay:
                        continue
                    if q == 'edge':
                        L, dl, x = lay[1, i], dofs[1, i], [s_]
                    else:
                        t = sk.type(0, q)
                        A, B = TDIR[t][j]
                        tt = s_ if sk.corient[q][j] == 1 else ONE - s_
                        L, dl = lay[0, q], dofs[0, q]
                        x = [C(a) + (C(b) - C(a)) * tt for a, b in zip(A, B)]
                    val = ev(I, L, pt(x))
                    tr = {}
                    if not c.require('%s/edge%d/%s/rows' % (key, i, q), w, val.rows == len(dl), '%d shape functions, %d dofs' % (val.rows, len(dl))):
                        continue
                    for n, g in enumerate(dl):
                        tr[g] = num_add(tr[g], val.cells[n][0].v) if g in tr else val.cells[n][0].v
                    if want is None:
                        want = tr
                        continue
                    for g in sorted(set(want) | set(tr)):
                        c.equal('%s/edge%d/cell%s/dof%d' % (key, i, q, g), w, tr.get(g, ZERO), want.get(g, ZERO), refpts('Tria'), 'the traces of global basis function %d on edge %d from cell %s and its neighbour differ' % (g, i, q))
            for v in range(sk.nv):
                for q, cell in enumerate(sk.cells):
                    if v not in cell or (0, q) not in lay:
                        continue
                    val = ev(I, lay[0, q], pt(VTX[sk.type(0, q)][cell.index(v)]))
                    for n, g in enumerate(dofs[0, q]):
                        c.equal('%s/vertex%d/cell%d/sf%d' % (key, v, q, n), w, val.cells[n][0].v, ONE if g in dofs[2, v] else ZERO, None, 'value of shape function %d of cell %d at vertex %d' % (n, q, v))
        c.attempt(key, w, run)
        c.cover(I)
    c.par(jobs, one)
    return c.finish(500)
