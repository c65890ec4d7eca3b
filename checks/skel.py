"""Abstract meshes: opaque entities with a given incidence relation (the topology is a parameter of the
rule, geometry and relative orientations stay symbolic)."""
from fe import *

NSUB = {'Point': {0: 1}, 'Segment': {0: 1, 1: 2}, 'Tria': {0: 1, 1: 3, 2: 3}, 'Quad': {0: 1, 1: 4, 2: 4}}


class Skel:
    """cells: list of vertex number lists; edges are derived (extra edges may be listed first to fix their order/direction)"""

    def __init__(self, name, nv, cells, edges=(), key='mesh', orient=None, perm=None):
        self.name, self.nv, self.key = name, nv, key
        self.cells = [tuple(c) for c in cells]
        self.edges = [tuple(e) for e in edges]
        idx = {frozenset(e): i for i, e in enumerate(self.edges)}
        self.cedges, self.corient = [], []
        for c in self.cells:
            ce, co = [], []
            for i in range(len(c)):
                e = (c[i], c[(i + 1) % len(c)])
                k = frozenset(e)
                if k not in idx:
                    idx[k] = len(self.edges)
                    self.edges.append(e)
                ce.append(idx[k])
                co.append(1 if self.edges[idx[k]] == e else -1)
            self.cedges.append(ce)
            self.corient.append(co)
        self.symorient = orient == 'sym'

    # entity (codim, index)
    def all(self):
        return [(2, i) for i in range(self.nv)] + [(1, i) for i in range(len(self.edges))] + [(0, i) for i in range(len(self.cells))]

    def count(self, c):
        return (len(self.cells), len(self.edges), self.nv)[c]

    def type(self, c, i):
        return 'Point' if c == 2 else 'Segment' if c == 1 else {3: 'Tria', 4: 'Quad'}[len(self.cells[i])]

    def subs(self, c, i, rel):
        """sub-entities of relative codimension rel"""
        if rel == 0:
            return [(c, i)]
        if c == 1 and rel == 1:
            return [(2, v) for v in self.edges[i]]
        if c == 0 and rel == 1:
            return [(1, e) for e in self.cedges[i]]
        if c == 0 and rel == 2:
            return [(2, v) for v in self.cells[i]]
        return None

    def ent(self, c, i):
        return Opq('%s:e%d_%d' % (self.key, c, i), 'lf::mesh::Entity')

    def mesh(self, ptr=True):
        return Opq(self.key, 'std::shared_ptr<const lf::mesh::Mesh>' if ptr else 'lf::mesh::Mesh')

    def ori(self, i, k):
        if self.symorient:
            return Ite(Cond('op', '%s:or%d_%d' % (self.key, i, k)), 1, -1)
        return self.corient[i][k]

    def parse(self, o):
        if isinstance(o, Opq) and o.key.startswith(self.key + ':e') and '.' not in o.key:
            a, b = o.key[len(self.key) + 2:].split('_')
            return int(a), int(b)
        return None

    def install(self, I):
        I.opq_hooks.append(self.hook)
        return self

    def hook(self, I, e, f, o, name, args):
        en = self.parse(o)

        def a(k):
            x = I.rv(args[k])
            return int(num(x)) if not isinstance(x, (Opq, Obj)) else x
        if en is not None:
            c, i = en
            if name == 'Codim':
                return Cell(c)
            if name == 'RefEl':
                return Cell(ref_el(I, self.type(c, i)))
            if name == 'SubEntities':
                s = self.subs(c, i, a(0))
                if s is None:
                    raise ThrowEx('SubEntities(%s) of an entity of codimension %d' % (a(0), c))
                return Cell(Vec([Cell(self.ent(*x)) for x in s], 'span'))
            if name == 'RelativeOrientations':
                if c == 0:
                    v = [self.ori(i, k) for k in range(len(self.cells[i]))]
                elif c == 1:
                    v = [1, -1]
                else:
                    return NotImplemented
                return Cell(Vec([Cell(x) for x in v], 'span'))
            return NotImplemented
        if not (isinstance(o, Opq) and o.key == self.key):
            return NotImplemented
        if name == 'DimMesh':
            return Cell(2)
        if name == 'Entities':
            return Cell(Vec([Cell(self.ent(a(0), i)) for i in range(self.count(a(0)))], 'span'))
        if name == 'NumEntities':
            x = a(0)
            if isinstance(x, Obj):
                n = mcall(I, x, 'NumNodes')
                t = {1: 'Point', 2: 'Segment', 3: 'Tria', 4: 'Quad'}[n]
                return Cell(sum(1 for en in self.all() if self.type(*en) == t))
            return Cell(self.count(x))
        if name == 'EntityByIndex':
            if not 0 <= a(1) < self.count(a(0)):
                raise ThrowEx('EntityByIndex(%s,%s): index out of range' % (a(0), a(1)))
            return Cell(self.ent(a(0), a(1)))
        if name == 'Index':
            en = self.parse(a(0))
            if en is None:
                raise Undecided('Index of an unknown entity')
            return Cell(en[1])
        if name == 'Contains':
            return Cell(self.parse(a(0)) is not None)
        return NotImplemented


def skels(thorough=False):
    out = [Skel('T', 3, [(0, 1, 2)]), Skel('Q', 4, [(0, 1, 2, 3)]),
           Skel('TQ', 5, [(0, 1, 2), (1, 3, 4, 2)], edges=[(2, 0), (1, 2)]),
           Skel('QT', 6, [(0, 1, 2, 3), (2, 1, 4), (4, 5, 2)], edges=[(5, 2), (2, 1), (0, 3)])]
    if thorough:
        out.append(Skel('TTQQ', 9, [(0, 1, 4), (0, 4, 3), (1, 2, 5, 4), (3, 4, 7, 6), (4, 5, 8), (8, 7, 4)], edges=[(4, 0), (4, 5), (7, 4)]))
    return out
