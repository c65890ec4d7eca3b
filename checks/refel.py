"""R01: reference element tables"""
from refine import *

NS = {'Point': {0: 1}, 'Segment': {0: 1, 1: 2}, 'Tria': {0: 1, 1: 3, 2: 3}, 'Quad': {0: 1, 1: 4, 2: 4}}


def R01(pid):
    c = Check(pid, rule='All values of the RefEl member functions over their whole domain (4 types, all sub-entity indices) are evaluated by constant propagation and compared: node coordinates (dynamic and static variants), numbers and types of sub-entities, and SubSubEntity2SubEntity, whose answers must make edge i run from vertex i to vertex i+1 (mod n) and be consistent for every relative codimension; ids and names are distinct.')
    body = ''.join('const auto& lfv_nc%s() { return lf::base::RefEl::NodeCoords<lf::base::RefElType::k%s>(); }\n' % (r, r) for r in VERT)
    P = export('refel', unity(module_sources('lib/lf/base')) + '#include "%s/lib/lf/base/ref_el.h"\n' % REPO + body)
    ids, names = {}, {}

    def one(r):
        alg.reset()
        I = Interp(P)

        def w(n):
            return loc(P.fn('lf::base::RefEl::' + n))

        def run():
            o = ref_el(I, r)
            dim = len(VERT[r][0])
            nv = len(VERT[r])
            c.require(r + '/Dimension', w('Dimension'), mcall(I, o, 'Dimension') == dim, 'Dimension() is not %d' % dim)
            c.require(r + '/NumNodes', w('NumNodes'), mcall(I, o, 'NumNodes') == nv, 'NumNodes() is not %d' % nv)
            nc = mcall(I, o, 'NodeCoords')
            c.require(r + '/NodeCoords', w('NodeCoords'), (nc.rows, nc.cols) == (dim, nv) and all(num(nc.cells[i][j].v) == VERT[r][j][i] for i in range(dim) for j in range(nv)), 'NodeCoords() is %s' % [[str(x.v) for x in row] for row in nc.cells])
            sc = fcall(I, 'lfv_nc' + r)
            if isinstance(sc, Opq):
                c.bad(r + '/NodeCoords<>', w('NodeCoords'), 'NodeCoords<>() returns %s, which is declared but not defined' % sc)
                sc = None
            sc is not None and c.require(r + '/NodeCoords<>', w('NodeCoords'), len(sc.items) == nv and all(num(I.rv(sc.items[j]).cells[i][0].v) == VERT[r][j][i] for i in range(dim) for j in range(nv)), 'NodeCoords<>() differs from the reference nodes')
            for cd in range(dim + 1):
                n = NS[r][cd]
                c.require('%s/NumSubEntities(%d)' % (r, cd), w('NumSubEntities'), mcall(I, o, 'NumSubEntities', cd) == n, 'NumSubEntities(%d) is %s instead of %d' % (cd, mcall(I, o, 'NumSubEntities', cd), n))
                for i in range(n):
                    st = mcall(I, o, 'SubType', cd, i)
                    tn = mcall(I, st, 'NumNodes')
                    want = {0: nv, dim: 1}.get(cd, 2) if cd else nv
                    c.require('%s/SubType(%d,%d)' % (r, cd, i), w('SubType'), tn == want and mcall(I, st, 'Dimension') == dim - cd, 'SubType(%d,%d) has %s nodes' % (cd, i, tn))
                    for rc in range(dim - cd + 1):
                        m = NS[{1: 'Point', 2: 'Segment', 3: 'Tria', 4: 'Quad'}[want]][rc]
                        for k in range(m):
                            if cd == 0:
                                e = k
                            elif rc == 0:
                                e = i
                            else:
                                e = (i + k) % nv if cd == 1 and dim == 2 else i
                            g = mcall(I, o, 'SubSubEntity2SubEntity', cd, i, rc, k)
                            c.require('%s/SubSub(%d,%d,%d,%d)' % (r, cd, i, rc, k), w('SubSubEntity2SubEntity'), g == e, 'SubSubEntity2SubEntity(%d,%d,%d,%d) is %s instead of %d' % (cd, i, rc, k, g, e))
            ids[r] = mcall(I, o, 'Id')
            names[r] = mcall(I, o, 'ToString')
        c.attempt(r, 'lib/lf/base/ref_el.h', run)
        c.cover(I)
    for r in VERT:
        one(r)
    c.require('ids', 'lib/lf/base/ref_el.h (lf::base::RefEl::Id)', len(set(map(str, ids.values()))) == len(ids), 'ids are not distinct: %s' % ids)
    c.require('names', 'lib/lf/base/ref_el.h (lf::base::RefEl::ToString)', len(set(map(str, names.values()))) == len(names), 'names are not distinct: %s' % names)
    c.extra['exhaustive'] = True
    return c.finish(60)
