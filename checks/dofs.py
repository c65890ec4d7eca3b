"""Degree of freedom handlers: D01"""
from skel import *

HDR = '''
#include "%s/lib/lf/assemble/assemble.h"
namespace lfv {
using MP = std::shared_ptr<const lf::mesh::Mesh>;
struct Loc { unsigned operator()(const lf::mesh::Entity& e) const; };
lf::assemble::UniformFEDofHandler uni(MP m, unsigned p, unsigned s, unsigned t, unsigned q, bool o) {
  return lf::assemble::UniformFEDofHandler(m, {{lf::base::RefEl::kPoint(), p}, {lf::base::RefEl::kSegment(), s}, {lf::base::RefEl::kTria(), t}, {lf::base::RefEl::kQuad(), q}}, o); }
lf::assemble::UniformFEDofHandler uni2(MP m, unsigned p, unsigned s) {
  return lf::assemble::UniformFEDofHandler(m, {{lf::base::RefEl::kPoint(), p}, {lf::base::RefEl::kSegment(), s}}); }
lf::assemble::DynamicFEDofHandler dyn(MP m, Loc l) { return lf::assemble::DynamicFEDofHandler(m, l); }
}
'''


def D01(pid):
    c = Check(pid, rule='The constructors of UniformFEDofHandler and DynamicFEDofHandler are abstractly interpreted over abstract meshes (opaque entities; all cell types, cells sharing edges in both directions; relative orientations symbolic, so both orders of every edge are covered at once) for distinct numbers of shape functions per entity type. For every entity: numbers of local/interior dofs equal the lengths of the index ranges; the local list is the concatenation of interior dofs of vertices, edges (reversed iff orientation negative) and the entity; interior index sets partition 0..NumDofs-1, ordered nodes, edges, cells by index; Entity(dof) is the owner.')
    P = export('dofs', unity(module_sources('lib/lf/assemble', 'lib/lf/base'), HDR % REPO))
    lay = [(1, 0, 0, 0), (1, 2, 1, 4), (2, 3, 1, 0), (0, 1, 2, 3), (0, 0, 3, 1), (1, 1, 0, 1), (1, 0, 5, 0)]
    if TIER == 'thorough':
        lay += [(3, 2, 4, 1), (0, 2, 0, 5), (2, 0, 3, 0), (1, 4, 6, 9)]
    jobs = []
    for k, sk in enumerate(skels(TIER == 'thorough')):
        for l in lay:
            for ori in (True, False):
                jobs.append((k, 'uni', l, ori))
        jobs.append((k, 'uni2', (1, 2, 0, 0), True))
        for m in range(4 if TIER == 'thorough' else 2):
            jobs.append((k, 'dyn', m, True))

    def one(job):
        k, kind, l, ori = job
        sk = skels(TIER == 'thorough')[k]
        sk.symorient = True
        alg.reset()
        I = Interp(P)
        sk.install(I)
        cls = 'Uniform' if kind != 'dyn' else 'Dynamic'
        key = '%s/%s/%s/%s' % (cls, sk.name, l, 'o' if ori else 'n')
        w = loc(P.fn('lf::assemble::%sFEDofHandler::GlobalDofIndices' % cls))
        NI = {}
        for c_, i in sk.all():
            if kind == 'dyn':
                r = random.Random('%s/%d/%d/%d' % (sk.name, l, c_, i))
                NI[c_, i] = r.randint(0, 3)
            else:
                NI[c_, i] = dict(zip(('Point', 'Segment', 'Tria', 'Quad'), l))[sk.type(c_, i)]

        def locdof(I_, e, ob, args):
            return Cell(NI[sk.parse(I_.rv(args[0]))])
        I.hooks['lfv::Loc::operator()'] = locdof

        def run():
            if kind == 'uni':
                dh = fcall(I, 'lfv::uni', sk.mesh(), *l, ori)
            elif kind == 'uni2':
                dh = fcall(I, 'lfv::uni2', sk.mesh(), l[0], l[1])
            else:
                dh = fcall(I, 'lfv::dyn', sk.mesh(), new_default(I, 'lfv::Loc'))

            def lst(name, en):
                v = mcall(I, dh, name, sk.ent(*en))
                return [I.rv(x) for x in I.iter_items(v)]
            N = mcall(I, dh, 'NumDofs')
            c.require(key + '/NumDofs', w, same(N, sum(NI.values())), 'NumDofs() is %s, the shape functions add up to %d' % (txt(N), sum(NI.values())))
            inter = {}
            used = {}
            nxt = 0
            for en in sk.all():
                li = lst('InteriorGlobalDofIndices', en)
                lk = '%s/%s%d' % (key, sk.type(*en), en[1])
                if not c.require(lk + '/nint', w, len(li) == NI[en] and same(mcall(I, dh, 'NumInteriorDofs', sk.ent(*en)), NI[en]),
                                 'entity with %d interior shape functions has %d interior indices, NumInteriorDofs() is %s' % (NI[en], len(li), txt(mcall(I, dh, 'NumInteriorDofs', sk.ent(*en))))):
                    return
                inter[en] = li
                c.require(lk + '/numbering', w, all(same(x, nxt + j) for j, x in enumerate(li)), 'interior indices are %s, expected %s: not unique or not contiguous' % ([txt(x) for x in li], list(range(nxt, nxt + len(li)))))
                nxt += len(li)
                for j, x in enumerate(li):
                    o = mcall(I, dh, 'Entity', x)
                    c.require(lk + '/owner%d' % j, w, sk.parse(o) == en, 'Entity(%s) is %s, not the entity whose interior dof it is' % (txt(x), o))
            for en in sk.all():
                lk = '%s/%s%d' % (key, sk.type(*en), en[1])
                exp = []
                if en[0] == 2:
                    exp = list(inter[en])
                elif en[0] == 1:
                    for v in sk.subs(*en, 1):
                        exp += inter[v]
                    exp += inter[en]
                else:
                    for v in sk.subs(*en, 2):
                        exp += inter[v]
                    for q, s in enumerate(sk.subs(*en, 1)):
                        x = inter[s]
                        if ori:
                            cd = Cond('op', '%s:or%d_%d' % (sk.key, en[1], q))
                            exp += [mk_ite(cd, a, b) for a, b in zip(x, x[::-1])]
                        else:
                            exp += x
                    exp += inter[en]
                g = lst('GlobalDofIndices', en)
                n = mcall(I, dh, 'NumLocalDofs', sk.ent(*en))
                if not c.require(lk + '/nloc', w, len(g) == len(exp) and same(n, len(exp)), '%d global indices, NumLocalDofs() is %s, shape functions covering the entity: %d' % (len(g), txt(n), len(exp))):
                    continue
                bad = [j for j in range(len(exp)) if not exact_same(g[j], exp[j])]
                c.require(lk + '/local', w, not bad, 'local dof %s maps to %s, expected %s' % ((bad[0], txt(g[bad[0]]), txt(exp[bad[0]])) if bad else ('', '', '')))
            m = mcall(I, dh, 'Mesh')
            c.require(key + '/Mesh', w, isinstance(m, Opq) and m.key == sk.key, 'Mesh() returns %s' % m)
        c.attempt(key, w, run)
        c.no_abort_atoms(key, I, '%s:or' % sk.key)
        c.cover(I)
    c.par(jobs, one)
    return c.finish(500)


def new_default(I, name):
    return I.default_obj(I.p.rec(name))
