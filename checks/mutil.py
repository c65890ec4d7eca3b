"""Mesh utilities: R07 (transfer of mesh functions), U01 (entity sets and data sets), U02 (arithmetic of mesh functions)"""
from hier import *
from hier import HW as _HW

TW = _HW + '''
#include "%s/lib/lf/refinement/mesh_function_transfer.h"
namespace lfv {
struct Probe { int tag; std::vector<double> operator()(const lf::mesh::Entity& e, const Eigen::MatrixXd& p) const; };
struct ProbeM { std::shared_ptr<const lf::mesh::Mesh> m; std::vector<std::complex<double>> operator()(const lf::mesh::Entity& e, const Eigen::MatrixXd& p) const; std::shared_ptr<const lf::mesh::Mesh> getMesh() const { return m; } };
auto tr(const MH& h, unsigned c, unsigned l, const lf::mesh::Entity& e, const Eigen::MatrixXd& p) { Probe f{1}; return lf::refinement::MeshFunctionTransfer(h, f, c, l)(e, p); }
auto trm(const MH& h, unsigned c, unsigned l, const lf::mesh::Entity& e, const Eigen::MatrixXd& p) { ProbeM f{h.getMesh(c)}; return lf::refinement::MeshFunctionTransfer(h, f, c, l)(e, p); }
std::shared_ptr<const lf::mesh::Mesh> trmesh(const MH& h, unsigned c, unsigned l) { Probe f{1}; return lf::refinement::MeshFunctionTransfer(h, f, c, l).getMesh(); }
}
'''


def R07(pid):
    c = Check(pid, rule='MeshFunctionTransfer is abstractly interpreted on hierarchies built by the interpreted MeshHierarchy, with an opaque mesh function and symbolic local coordinates. For every entity of the fine mesh the wrapped function is evaluated exactly once, on the ancestor of the entity on the coarse mesh and at the image of the points under the composed GeometryInParent maps, its values are returned unchanged, and getMesh() is the fine mesh.')
    src = module_sources('lib/lf/mesh/hybrid2d', 'lib/lf/mesh', 'lib/lf/geometry', 'lib/lf/base') + \
        [os.path.join(REPO, 'lib/lf/refinement/' + f) for f in ('hybrid2d_refinement_pattern.cc', 'refinement.cc', 'mesh_hierarchy.cc')]
    src = [f for f in dict.fromkeys(src) if os.path.exists(f)]
    P = export('transfer', unity(src, TW % ((REPO,) * 4)))
    thorough = TIER == 'thorough'
    rnd = random.Random(SEED)
    w = loc(next(f for f in P.funcs.values() if 'MeshFunctionTransfer' in f['q'] and f['sq'].endswith('operator()')))
    wg = loc(next(f for f in P.funcs.values() if 'MeshFunctionTransfer' in f['q'] and f['sq'].endswith('getMesh')))
    jobs = []
    for name, nv, cells, edges in BASE:
        for d in (2, 3):
            for order in (1, 2):
                sp = MeshSpec('%s/%dD/O%d' % (name, d, order), d, nv, [(v, True) for v in cells], [(e, True) for e in edges], order)
                if order == 1:
                    for h in (['r', 'm'], ['m', 'r'], ['m', 'm'], ['m', 'm', 'm'], ['m', 'm', 'm', 'm']) if d == 2 or thorough else (['m', 'm'],):
                        if len(h) > 2 and len(cells) > 1 and not thorough:
                            continue
                        jobs.append((sp, h))
                elif d == 2 or thorough:
                    jobs.append((sp, ['m', 'm']))

    def one(j):
        sp, hist = j
        key = '%s/%s' % (sp.name, ''.join(hist))

        def run():
            q = random.Random(SEED * 7919 + sum(map(ord, key)))
            H = Hier(P, sp, [q.randrange(3) for _ in trias(sp)] or [0]).start()
            I = H.I
            for s in hist:
                if s == 'r':
                    fcall(I, 'lfv::regular0', Cell(H.h))
                else:
                    n = H.levels[-1].n(1)
                    H.mark({i for i in range(n) if q.random() < (0.5 if n < 12 else 0.2)} or {0})
                    fcall(I, 'lfv::local', Cell(H.h))
                H.sync()
            nl = len(H.levels)
            calls = []

            def hook(z):
                def f(I, e, ob, args):
                    p = I.rv(args[1])
                    vals = [S('v%d' % k) if not z else Cx(S('v%d' % k), S('w%d' % k)) for k in range(p.cols)]
                    calls.append((obj(I, args[0]), p))
                    return Cell(Vec([Cell(v) for v in vals], 'vector'))
                return f
            I.hooks['lfv::Probe::operator()'] = hook(False)
            I.hooks['lfv::ProbeM::operator()'] = hook(True)
            for fine in range(1, nl):
                for coarse in range(fine):
                    if coarse >= nl - 1:
                        continue
                    k0 = '%s/%d-%d' % (key, coarse, fine)
                    g = obj(I, fcall(I, 'lfv::trmesh', Cell(H.h), coarse, fine))
                    c.require(k0 + '/getMesh', wg, g is H.levels[fine].m, 'getMesh() of a function transferred from level %d to level %d is %s' % (coarse, fine, 'the mesh on level %s' % [i for i, L in enumerate(H.levels) if L.m is g]))
                    for cd in (0, 1, 2):
                        L = H.levels[fine].E[cd]
                        al = list(enumerate(L))
                        if len(al) > 14 and not thorough:
                            al = q.sample(al, 14)
                        for i, e in al:
                            dim = 2 - cd
                            np_ = 1 if cd == 2 else 1 + (i % 2)
                            p = eigen.new_mat(dim, np_, -1, -1, 'double', False, lambda a, b: S('p%d_%d' % (a, b)))
                            del calls[:]
                            z = (i + cd) % 2
                            r = fcall(I, 'lfv::trm' if z else 'lfv::tr', Cell(H.h), coarse, fine, Cell(e), p)
                            k = '%s/%d.%d' % (k0, cd, i)
                            # expected: composition along the chain of parents
                            x, y = p, e
                            for l in range(fine, coarse, -1):
                                gg, par = H.rel(l)(cd, y) if l == fine else (obj(I, mcall(I, H.h, 'GeometryInParent', l, Cell(y))), obj(I, mcall(I, H.h, 'ParentEntity', l, Cell(y))))
                                x = I.rv(mcall(I, gg, 'Global', x))
                                y = par
                            if not c.require(k + '/calls', w, len(calls) == 1, 'the transferred function is evaluated %d times' % len(calls)):
                                continue
                            A, B = calls[0]
                            if not c.require(k + '/entity', w, A is y, 'the transferred function is not evaluated on the ancestor of the entity on level %d' % coarse):
                                continue
                            c.equal_mat(k + '/points', w, B, x, what='the local coordinates on the ancestor differ from the composition of the GeometryInParent maps')
                            rv = [I.rv(v) for v in I.rv(r).items]
                            c.require(k + '/values', w, len(rv) == np_ and all(exact_same(v, Cx(S('v%d' % n), S('w%d' % n)) if z else S('v%d' % n)) for n, v in enumerate(rv)), 'the values of the transferred function are altered')
            c.no_abort(key, I, SAMP)
            c.cover(I)
        c.attempt(key, w, run)
    c.par(jobs, one)
    return c.finish(1000)


DW = '''
#include "%s/lib/lf/mesh/utils/utils.h"
namespace lfv {
using Pm = std::shared_ptr<const lf::mesh::Mesh>;
using lf::mesh::Entity;
namespace mu = lf::mesh::utils;
auto count(Pm m, unsigned a, unsigned b) { return mu::CountNumSuperEntities(m, a, b); }
unsigned count_at(const mu::CodimMeshDataSet<lf::base::size_type>& d, const Entity& e) { return d(e); }
auto flag(Pm m, unsigned a) { return mu::flagEntitiesOnBoundary(m, a); }
bool flag_at(const mu::CodimMeshDataSet<bool>& d, const Entity& e) { return d(e); }
auto flags(Pm m) { return std::make_shared<mu::AllCodimMeshDataSet<bool>>(mu::flagEntitiesOnBoundary(m)); }
bool flags_at(const mu::AllCodimMeshDataSet<bool>& d, const Entity& e) { return d(e); }
#define LFV_DS(N, T) \\
auto cds_##N(Pm m, unsigned c) { return mu::make_CodimMeshDataSet<T>(m, c); } \\
auto cdi_##N(Pm m, unsigned c, T v) { return mu::make_CodimMeshDataSet<T>(m, c, v); } \\
auto cdc_##N(Pm m, unsigned c, T v) { return std::make_shared<mu::CodimMeshDataSet<T>>(m, c, v); } \\
auto ads_##N(Pm m) { return mu::make_AllCodimMeshDataSet<T>(m); } \\
auto adi_##N(Pm m, T v) { return mu::make_AllCodimMeshDataSet<T>(m, v); } \\
void cset_##N(mu::CodimMeshDataSet<T>& d, const Entity& e, T v) { d(e) = v; } \\
void aset_##N(mu::AllCodimMeshDataSet<T>& d, const Entity& e, T v) { d(e) = v; } \\
T get_##N(const mu::MeshDataSet<T>& d, const Entity& e) { return d(e); } \\
T cget_##N(mu::CodimMeshDataSet<T>& d, const Entity& e) { return d(e); } \\
T aget_##N(mu::AllCodimMeshDataSet<T>& d, const Entity& e) { return d(e); } \\
bool def_##N(const mu::MeshDataSet<T>& d, const Entity& e) { return d.DefinedOn(e); }
LFV_DS(d, double)
LFV_DS(b, bool)
LFV_DS(u, unsigned)
LFV_DS(z, std::complex<double>)
LFV_DS(m, Eigen::MatrixXd)
}
'''


def U01(pid):
    c = Check(pid, rule='CountNumSuperEntities, both overloads of flagEntitiesOnBoundary, CodimMeshDataSet and AllCodimMeshDataSet are abstractly interpreted on enumerated mesh topologies (conforming, disconnected, with edges of more than two cells) given by opaque entities: counts and flags are compared with the incidence relation for every entity, and data sets with a symbolic store (a write changes exactly the value of its entity).')
    P = export('mdata', unity(module_sources('lib/lf/mesh/utils', 'lib/lf/mesh/hybrid2d', 'lib/lf/mesh', 'lib/lf/geometry', 'lib/lf/base'), DW % REPO))
    thorough = TIER == 'thorough'
    sks = [lambda k=k: skels(True)[k] for k in range(len(skels(True)))]
    sks += [lambda: Skel('disj', 7, [(0, 1, 2), (3, 4, 5, 6)]), lambda: Skel('fan', 5, [(0, 1, 2), (1, 0, 3), (0, 1, 4)]),
            lambda: Skel('ring', 8, [(0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)]), lambda: Skel('lone', 5, [(0, 1, 2)], [(3, 4)])]
    wc = loc(P.fn('lf::mesh::utils::CountNumSuperEntities'))
    wf = loc(P.fn('lf::mesh::utils::flagEntitiesOnBoundary'))
    wd = 'lib/lf/mesh/utils/codim_mesh_data_set.h'
    wa = 'lib/lf/mesh/utils/all_codim_mesh_data_set.h'

    def sets(sk):
        key = sk.name
        alg.reset()
        I = Interp(P)
        sk.install(I)
        I.nonnull |= {sk.key}
        m = sk.mesh()
        up = {}
        for a in sk.all():
            for rel in range(0, 3 - a[0]):
                for b in sk.subs(a[0], a[1], rel):
                    up.setdefault((b, rel), []).append(a)
        bde = {b for (b, rel), l in up.items() if b[0] == 1 and rel == 1 and len(l) == 1}
        bd = bde | {s for b in bde for s in sk.subs(1, b[1], 1)}

        def cnt():
            for sub in (0, 1, 2):
                for sup in range(0, sub + 1):
                    ds = Cell(fcall(I, 'lfv::count', m, sub, sup))
                    for i in range(sk.count(sub)):
                        want = len(up.get(((sub, i), sup), []))
                        got = num(fcall(I, 'lfv::count_at', ds, Cell(sk.ent(sub, i))))
                        c.require('%s/count%d.%d/%d' % (key, sub, sup, i), wc, got == want, 'entity %d of co-dimension %d: %s super-entities of relative co-dimension %d counted instead of %d' % (i, sub, got, sup, want))

        def flg():
            for cd in (1, 2):
                ds = Cell(fcall(I, 'lfv::flag', m, cd))
                for i in range(sk.count(cd)):
                    got = fcall(I, 'lfv::flag_at', ds, Cell(sk.ent(cd, i)))
                    c.require('%s/flag%d/%d' % (key, cd, i), wf, bool(I.rv(got)) == ((cd, i) in bd), 'entity %d of co-dimension %d is %sflagged' % (i, cd, '' if got else 'not '))
            ds = obj(I, fcall(I, 'lfv::flags', m))
            for cd in (0, 1, 2):
                for i in range(sk.count(cd)):
                    got = fcall(I, 'lfv::flags_at', Cell(ds), Cell(sk.ent(cd, i)))
                    c.require('%s/flags%d/%d' % (key, cd, i), wf, bool(I.rv(got)) == ((cd, i) in bd), 'entity %d of co-dimension %d is %sflagged by the variant for all co-dimensions' % (i, cd, '' if got else 'not '))
        c.attempt(key + '/count', wc, cnt)
        c.attempt(key + '/flag', wf, flg)
        c.no_abort(key, I, lambda i: {})
        c.cover(I)

    def store(sk, t, all_, mode):
        key = '%s/%s/%s/%s' % (sk.name, t, 'all' if all_ else 'codim', mode)
        w = wa if all_ else wd
        cds = [None] if all_ else [0, 1, 2]

        def val(n):
            if t == 'd':
                return S('a%s' % n)
            if t == 'b':
                return Cond('op', 'a%s' % n)
            if t == 'u':
                return 7 + 3 * n if isinstance(n, int) else 5
            if t == 'z':
                return Cx(S('a%s' % n), S('b%s' % n))
            return eigen.new_mat(2, 1, -1, -1, 'double', False, lambda i, j: S('a%s_%d' % (n, i)))

        def same(x, y):
            x = I_rv(I, x)
            if t == 'm':
                return isinstance(x, Mat) and (x.rows, x.cols) == (y.rows, y.cols) and all(exact_same(x.cells[i][0].v, y.cells[i][0].v) for i in range(y.rows))
            return exact_same(x, y)
        I = None
        for cd in cds:
            def run():
                nonlocal I
                alg.reset()
                I = Interp(P)
                sk.install(I)
                other = Skel('o', 3, [(0, 1, 2)], key='foreign').install(I)
                I.nonnull |= {sk.key, 'foreign'}
                m = sk.mesh()
                L = [e for e in sk.all() if cd is None or e[0] == cd]
                args = [m] + ([] if all_ else [cd])
                if mode == 'default':
                    d = fcall(I, 'lfv::%s_%s' % ('ads' if all_ else 'cds', t), *args)
                    init = {'d': C(F(0)), 'b': False, 'u': 0, 'z': Cx(C(F(0)), C(F(0))), 'm': None}[t]
                else:
                    init = val('i')
                    d = fcall(I, 'lfv::%s_%s' % ('adi' if all_ else ('cdc' if mode == 'ctor' else 'cdi'), t), *(args + [init]))
                d = obj(I, d)
                model = {e: init for e in L}
                q = random.Random(SEED + len(key))
                hist = [e for e in L]
                q.shuffle(hist)
                hist = hist[:4 if not thorough else 12] + hist[:1]

                def scan(tag):
                    for e in L:
                        if model[e] is None:
                            continue
                        for f in ('get', 'aget' if all_ else 'cget'):
                            r = fcall(I, 'lfv::%s_%s' % (f, t), Cell(d), Cell(sk.ent(*e)))
                            if not c.require('%s/%s/%s/%s%s.%s' % (key, cd, tag, f, e[0], e[1]), w, same(r, model[e]), 'the value stored for entity %d of co-dimension %d is not the one last written' % (e[1], e[0])):
                                return False
                    return True
                if not scan('init'):
                    return
                for n, e in enumerate(hist):
                    v = val(n)
                    fcall(I, 'lfv::%s_%s' % ('aset' if all_ else 'cset', t), Cell(d), Cell(sk.ent(*e)), v)
                    model[e] = v
                    if not scan('w%d' % n):
                        return
                for e in sk.all():
                    r = fcall(I, 'lfv::def_%s' % t, Cell(d), Cell(sk.ent(*e)))
                    c.require('%s/%s/def%d.%d' % (key, cd, e[0], e[1]), w, I.rv(r) is (e in model), 'DefinedOn() of entity %d of co-dimension %d is %s' % (e[1], e[0], r))
                for e in other.all():
                    r = fcall(I, 'lfv::def_%s' % t, Cell(d), Cell(other.ent(*e)))
                    c.require('%s/%s/foreign%d.%d' % (key, cd, e[0], e[1]), w, I.rv(r) is False, 'DefinedOn() is %s for an entity of another mesh' % r)
                c.no_abort(key, I, lambda i: {})
                c.cover(I)
            c.attempt('%s/%s' % (key, cd), w, run)
    jobs = [(k,) for k in range(len(sks))]
    for k in (2, 3) if not thorough else range(len(sks)):
        for t in 'dbuzm':
            for all_ in (False, True):
                for mode in ('default', 'init') + (() if all_ else ('ctor',)):
                    jobs.append((k, t, all_, mode))
    c.par(jobs, lambda j: sets(sks[j[0]]()) if len(j) == 1 else store(sks[j[0]](), *j[1:]))
    return c.finish(1000)


# value types of mesh functions: name -> (C++ type, kind, complex, rows, cols, fixed rows, fixed cols)
VT = {'d': ('double', 's', 0, 0, 0), 'z': ('std::complex<double>', 's', 1, 0, 0), 'i': ('int', 'i', 0, 0, 0), 'u': ('User', 'u', 0, 0, 0),
      'v': ('Eigen::Vector2d', 'm', 0, 2, 1, 2, 1), 'r': ('Eigen::RowVector3d', 'm', 0, 1, 3, 1, 3), 'm': ('Eigen::Matrix2d', 'm', 0, 2, 2, 2, 2),
      'n': ('Eigen::Matrix<double, 2, 3>', 'm', 0, 2, 3, 2, 3), 'R': ('Eigen::Matrix<double, 2, 3, Eigen::RowMajor>', 'm', 0, 2, 3, 2, 3),
      'Z': ('Eigen::Matrix2cd', 'm', 1, 2, 2, 2, 2), 'Y': ('Eigen::Vector2cd', 'm', 1, 2, 1, 2, 1), 'T': ('Eigen::Matrix<std::complex<double>, 1, 2>', 'm', 1, 1, 2, 1, 2),
      'X': ('Eigen::MatrixXd', 'm', 0, 2, 3, -1, -1), 'V': ('Eigen::VectorXd', 'm', 0, 2, 1, -1, 1), 'H': ('Eigen::Matrix<double, 2, Eigen::Dynamic>', 'm', 0, 2, 3, 2, -1),
      'G': ('Eigen::Matrix<double, Eigen::Dynamic, 3>', 'm', 0, 2, 3, -1, 3), 'W': ('Eigen::MatrixXcd', 'm', 1, 2, 3, -1, -1),
      'Q': ('Eigen::Matrix<double, 3, 2>', 'm', 0, 3, 2, 3, 2), 'P': ('Eigen::MatrixXd', 'm', 0, 3, 2, -1, -1),
      'a': ('Eigen::Array2d', 'a', 0, 2, 1, 2, 1), 'A': ('Eigen::Array<double, 2, 3>', 'a', 0, 2, 3, 2, 3), 'B': ('Eigen::Array<double, 2, 3, Eigen::RowMajor>', 'a', 0, 2, 3, 2, 3),
      'C': ('Eigen::Array<std::complex<double>, 2, 3>', 'a', 1, 2, 3, 2, 3), 'D': ('Eigen::ArrayXXd', 'a', 0, 2, 3, -1, -1), 'E': ('Eigen::Array<double, 2, Eigen::Dynamic>', 'a', 0, 2, 3, 2, -1),
      'b': ('Eigen::Array<double, 1, 3>', 'a', 0, 1, 3, 1, 3), 'x': ('Eigen::ArrayXd', 'a', 0, 2, 1, -1, 1), 'w': ('Eigen::ArrayXXcd', 'a', 1, 2, 3, -1, -1)}


def mf_pairs():
    """(operator, left, right) combinations that the documentation covers"""
    out = []
    sc = 'dz'
    for op in ('add', 'sub', 'mul'):
        out += [(op, a, b) for a in sc for b in sc] + [(op, 'u', 'u'), (op, 'i', 'i')]
    shapes = {}
    for k, t in VT.items():
        if t[1] in 'ma':
            shapes.setdefault((t[1], t[3], t[4]), []).append(k)
    for (kind, r, co), L in shapes.items():
        for a in L:
            for b in L:
                out += [('add', a, b), ('sub', a, b)]
                if kind == 'a':
                    out.append(('mul', a, b))
    for a in VT:
        for b in VT:
            if VT[a][1] == VT[b][1] == 'm' and VT[a][4] == VT[b][3]:
                out.append(('mul', a, b))
        if VT[a][1] in 'ma':
            for s in sc:
                out += [('mul', s, a), ('mul', a, s)]
    return out


UN = [('neg', '-a', 'dziu' + ''.join(k for k in VT if VT[k][1] in 'ma')), ('sqn', 'mu::squaredNorm(a)', 'dzi' + ''.join(k for k in VT if VT[k][1] == 'm')),
      ('tr', 'mu::transpose(a)', ''.join(k for k in VT if VT[k][1] in 'ma')), ('adj', 'mu::adjoint(a)', ''.join(k for k in VT if VT[k][1] == 'm')),
      ('conj', 'mu::conjugate(a)', 'dz' + ''.join(k for k in VT if VT[k][1] in 'ma'))]
OPS = {'add': '+', 'sub': '-', 'mul': '*'}


def mfw():
    t = '#include "%s/lib/lf/mesh/utils/utils.h"\nnamespace lfv {\nusing lf::mesh::Entity;\nnamespace mu = lf::mesh::utils;\nusing Mx = Eigen::MatrixXd;\n' % REPO
    t += 'using mu::operator+; using mu::operator-; using mu::operator*;\n'
    t += 'struct User { double x{0}, y{0}; User operator+(const User& o) const { return {x + 2 * o.x, y + o.y}; } User operator-(const User& o) const { return {x - o.x, y - 3 * o.y}; } User operator*(const User& o) const { return {x * o.x, x * o.y + y}; } User operator-() const { return {-y, -x}; } };\nUser mkUser() { return User{}; }\n'
    for k, v in VT.items():
        t += 'struct F_%s { int tag; std::vector<%s> operator()(const Entity& e, const Mx& p) const; };\n' % (k, v[0])
        t += 'auto const_%s(%s v, const Entity& e, const Mx& p) { return mu::MeshFunctionConstant(v)(e, p); }\n' % (k, v[0])
        t += 'struct G_%s { int tag; %s operator()(const Eigen::VectorXd& x) const; };\n' % (k, v[0])
        t += 'F_%s mkF_%s(int t) { return F_%s{t}; }\nG_%s mkG_%s(int t) { return G_%s{t}; }\n' % ((k,) * 6)
        t += 'auto glob_%s(G_%s f, const Entity& e, const Mx& p) { return mu::MeshFunctionGlobal(f)(e, p); }\n' % (k, k)
    for op, a, b in mf_pairs():
        t += 'auto %s_%s_%s(F_%s a, F_%s b, const Entity& e, const Mx& p) { return (a %s b)(e, p); }\n' % (op, a, b, a, b, OPS[op])
    for n, ex, L in UN:
        for a in L:
            t += 'auto %s_%s(F_%s a, const Entity& e, const Mx& p) { return (%s)(e, p); }\n' % (n, a, a, ex)
    t += 'auto nest(F_d a, F_m b, F_v c, F_v d, const Entity& e, const Mx& p) { auto f = mu::transpose(c) * (a * b - b * mu::transpose(b)) * (d + c); return f(e, p); }\n'
    return t + '}\n'


def U02(pid):
    c = Check(pid, rule='The operators +, -, *, unary -, squaredNorm, transpose, adjoint and conjugate on mesh functions and MeshFunctionConstant/MeshFunctionGlobal are instantiated for %d combinations of value types (real, complex, user-defined, fixed/dynamic/row-major Eigen matrices and arrays) and abstractly interpreted on symbolic operand values at one to three points: the result has one value per point, equal to the operation applied to the values of the operands, which are evaluated on the same entity at the same points.' % (len(mf_pairs()) + sum(len(L) for _, _, L in UN)))
    P = export('mfarith', unity(module_sources('lib/lf/mesh', 'lib/lf/geometry', 'lib/lf/base'), mfw()))
    wb = 'lib/lf/mesh/utils/mesh_function_binary.h'
    wu = 'lib/lf/mesh/utils/mesh_function_unary.h'
    ent = Opq('ent', 'lf::mesh::Entity')

    def sym(n, z):
        return Cx(S(n), S(n + 'i')) if z else S(n)

    def grid(k, nm, q):
        """value of a function at point q as plain data"""
        v = VT[k]
        if v[1] == 's':
            return sym('%s%d' % (nm, q), v[2])
        if v[1] == 'i':
            return 3 * q + len(nm) + ord(nm[-1]) % 7
        if v[1] == 'u':
            return (S('%s%dx' % (nm, q)), S('%s%dy' % (nm, q)))
        return [[sym('%s%d_%d_%d' % (nm, q, i, j), v[2]) for j in range(v[4])] for i in range(v[3])]

    def wrap(k, g, I):
        v = VT[k]
        if v[1] in 'ma':
            return eigen.new_mat(v[3], v[4], v[5], v[6], 'std::complex<double>' if v[2] else 'double', v[1] == 'a', lambda i, j: g[i][j])
        if v[1] == 'u':
            return mkuser(I, g)
        return g

    def mkuser(I, g):
        o = I.rv(fcall(I, 'lfv::mkUser'))
        o.f['x'].v, o.f['y'].v = g
        return o

    from vals import num_add as add, num_sub as sub, num_mul as mul, num_neg as neg

    def conj(x):
        return Cx(x.re, neg(x.im)) if isinstance(x, Cx) else x

    def abs2(x):
        return add(mul(x.re, x.re), mul(x.im, x.im)) if isinstance(x, Cx) else mul(x, x)

    def expect(op, ka, a, kb=None, b=None):
        A, B = VT[ka][1], VT[kb][1] if kb else None
        if op in ('add', 'sub'):
            f = add if op == 'add' else sub
            if A == 'u':
                return (add(a[0], mul(2, b[0])), add(a[1], b[1])) if op == 'add' else (sub(a[0], b[0]), sub(a[1], mul(3, b[1])))
            if A in 'si':
                return f(a, b)
            return [[f(x, y) for x, y in zip(r, s)] for r, s in zip(a, b)]
        if op == 'mul':
            if A == 'u':
                return (mul(a[0], b[0]), add(mul(a[0], b[1]), a[1]))
            if A in 'si' and B in 'si':
                return mul(a, b)
            if A in 'si':
                return [[mul(a, y) for y in r] for r in b]
            if B in 'si':
                return [[mul(y, b) for y in r] for r in a]
            if A == 'a':
                return [[mul(x, y) for x, y in zip(r, s)] for r, s in zip(a, b)]
            return [[sumv(mul(a[i][k], b[k][j]) for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]
        if op == 'neg':
            return (neg(a[1]), neg(a[0])) if A == 'u' else neg(a) if A in 'si' else [[neg(x) for x in r] for r in a]
        if op == 'sqn':
            return abs2(a) if A in 'si' else sumv(abs2(x) for r in a for x in r)
        if op == 'tr':
            return [list(x) for x in zip(*a)]
        if op == 'adj':
            return [[conj(y) for y in x] for x in zip(*a)]
        if op == 'conj':
            return conj(a) if A in 'si' else [[conj(x) for x in r] for r in a]

    def sumv(it):
        t = C(F(0))
        for x in it:
            t = add(t, x)
        return t

    def compare(key, w, got, want, what):
        if isinstance(want, list):
            if not c.require(key + '/shape', w, isinstance(got, Mat) and (got.rows, got.cols) == (len(want), len(want[0])), '%s: shape' % what):
                return
            for i in range(got.rows):
                for j in range(got.cols):
                    c.equal('%s(%d,%d)' % (key, i, j), w, got.cells[i][j].v, want[i][j], what=what)
        elif isinstance(want, tuple):
            for n, x in zip('xy', want):
                c.equal('%s.%s' % (key, n), w, got.f[n].v if isinstance(got, Obj) else got, x, what=what)
        else:
            c.equal(key, w, got, want, what=what)

    def setup(I, calls):
        for k in VT:
            def hook(I, e, ob, args, k=k):
                p = I.rv(args[1])
                tag = I.rv(I.rv(ob).f['tag'])
                calls.append((tag, obj(I, args[0]), p))
                return Cell(Vec([Cell(wrap(k, grid(k, 'abcd'[tag], q), I)) for q in range(p.cols)], 'vector'))
            I.hooks['lfv::F_%s::operator()' % k] = hook

    def probe(I, k, tag):
        return I.rv(fcall(I, 'lfv::mkF_' + k, tag))

    def pts(n):
        return eigen.new_mat(2, n, -1, -1, 'double', False, lambda i, j: S('p%d_%d' % (i, j)))

    def checkcalls(key, w, calls, n, p):
        c.require(key + '/operands', w, {t for t, _, _ in calls} == set(range(n)), 'the operands evaluated are %s instead of all %d' % ([t for t, _, _ in calls], n))
        for t, e, q in calls:
            c.require('%s/arg%d' % (key, t), w, e is ent or e == ent, 'operand %d is evaluated on another entity' % t)
            c.equal_mat('%s/pts%d' % (key, t), w, q, p, what='operand %d is evaluated at other points' % t)

    def one(j):
        op, ks, n = j
        w = wb if len(ks) == 2 else wu
        key = '%s/%s/%d' % (op, '.'.join(ks), n)
        what = '%s of mesh functions with values of type %s' % (op, ' and '.join(VT[k][0] for k in ks))

        def run():
            alg.reset()
            I = Interp(P)
            calls = []
            setup(I, calls)
            p = pts(n)
            r = fcall(I, 'lfv::%s_%s' % (op, '_'.join(ks)), *([probe(I, k, t) for t, k in enumerate(ks)] + [Cell(ent), p]))
            L = [I.rv(x) for x in I.rv(r).items]
            if not c.require(key + '/count', w, len(L) == n, '%s: %d values at %d points' % (what, len(L), n)):
                return
            checkcalls(key, w, calls, len(ks), p)
            for q in range(n):
                g = [grid(k, 'abcd'[t], q) for t, k in enumerate(ks)]
                want = expect(op, ks[0], g[0], *([ks[1], g[1]] if len(ks) == 2 else []))
                compare('%s/%d' % (key, q), w, L[q], want, what)
            c.no_abort(key, I, lambda i: {})
            c.cover(I)
        c.attempt(key, w, run)

    def leaf(j):
        fn, k, n = j
        key = '%s/%s/%d' % (fn, k, n)
        w = 'lib/lf/mesh/utils/mesh_function_%s.h' % {'const': 'constant', 'glob': 'global'}[fn]

        def run():
            alg.reset()
            I = Interp(P)
            p = pts(n)
            I.nonnull |= {'ent', 'geo'}
            X = [[S('x%d_%d' % (i, q)) for q in range(n)] for i in range(2)]

            def oh(I, e, f, o, name, args):
                if o == ent and name == 'Geometry':
                    return Cell(Opq('geo', 'const lf::geometry::Geometry *'))
                if o == ent and name == 'RefEl':
                    return Cell(ref_el(I, 'Tria'))
                if isinstance(o, Opq) and o.key == 'geo' and name == 'Global':
                    q = I.rv(args[0])
                    c.equal_mat(key + '/local', w, q, p, what='Global() is called with other points')
                    return Cell(eigen.new_mat(2, q.cols, -1, -1, 'double', False, lambda i, j: X[i][j]))
                return NotImplemented
            I.opq_hooks.append(oh)
            if fn == 'const':
                v = grid(k, 'a', 0)
                r = fcall(I, 'lfv::const_' + k, wrap(k, v, I), Cell(ent), p)
                want = [v] * n
            else:
                seen = []

                def hook(I, e, ob, args):
                    x = I.rv(args[0])
                    seen.append(x)
                    for q in range(n):
                        if x.rows == 2 and x.cols == 1 and all(exact_same(x.cells[i][0].v, X[i][q]) for i in (0, 1)):
                            return Cell(wrap(k, grid(k, 'a', q), I))
                    raise ThrowEx('the functor is called with a point that is not the image of an evaluation point')
                I.hooks['lfv::G_%s::operator()' % k] = hook
                o = I.rv(fcall(I, 'lfv::mkG_' + k, 1))
                r = fcall(I, 'lfv::glob_' + k, o, Cell(ent), p)
                want = [grid(k, 'a', q) for q in range(n)]
            L = [I.rv(x) for x in I.rv(r).items]
            if c.require(key + '/count', w, len(L) == n, '%d values at %d points' % (len(L), n)):
                for q in range(n):
                    compare('%s/%d' % (key, q), w, L[q], want[q], 'value at point %d' % q)
            c.no_abort(key, I, lambda i: {})
            c.cover(I)
        c.attempt(key, w, run)

    def nest():
        alg.reset()
        I = Interp(P)
        calls = []
        setup(I, calls)
        p = pts(2)
        r = fcall(I, 'lfv::nest', probe(I, 'd', 0), probe(I, 'm', 1), probe(I, 'v', 2), probe(I, 'v', 3), Cell(ent), p)
        L = [I.rv(x) for x in I.rv(r).items]
        c.require('nest/count', wb, len(L) == 2, '%d values at 2 points' % len(L))
        checkcalls('nest', wb, calls, 4, p)
        for q in range(2):
            a, b, x, y = grid('d', 'a', q), grid('m', 'b', q), grid('v', 'c', q), grid('v', 'd', q)
            M = expect('sub', 'm', expect('mul', 'd', a, 'm', b), 'm', expect('mul', 'm', b, 'm', expect('tr', 'm', b)))
            want = expect('mul', 'm', expect('mul', 'm', expect('tr', 'v', x), 'm', M), 'm', expect('add', 'v', y, 'v', x))
            compare('nest/%d' % q, wb, L[q], want, 'nested expression')
        c.cover(I)
    thorough = TIER == 'thorough'
    jobs = []
    for op, a, b in mf_pairs():
        for n in (1, 2, 3) if thorough else (2,) if VT[a][1] in 'ma' or VT[b][1] in 'ma' else (1, 3):
            jobs.append((op, (a, b), n))
    for op, _, L in UN:
        for a in L:
            for n in (1, 2, 3) if thorough else (2,):
                jobs.append((op, (a,), n))
    for fn in ('const', 'glob'):
        for k in VT:
            for n in (0, 1, 3) if fn == 'const' else (1, 2):
                jobs.append((fn, k, n))
    jobs.append('nest')
    c.par(jobs, lambda j: c.attempt('nest', wb, nest) if j == 'nest' else leaf(j) if j[0] in ('const', 'glob') else one(j))
    return c.finish(1000)


SELW = '''
#include "%s/lib/lf/refinement/mesh_hierarchy.h"
namespace lfv {
using lf::mesh::Entity;
struct Pos { int tag; bool operator()(const Eigen::MatrixXd& x) const; };
struct PosV { int tag; bool operator()(const Eigen::VectorXd& x) const; };
bool sel(int t, const Entity& e) { Pos p{t}; lf::refinement::EntityCenterPositionSelector s(p); return s(e); }
bool selc(int t, const Entity& e) { const lf::refinement::EntityCenterPositionSelector<PosV> s(PosV{t}); auto r = s; return r(e); }
}
'''


def U03(pid):
    c = Check(pid, rule='EntityCenterPositionSelector::operator() is abstractly interpreted for an entity of each type (point, edge, triangle, quadrilateral, in the plane and in space) with symbolic corners and an opaque predicate: the predicate is asked exactly once, at the mean of the corners, by the predicate the selector was built with, and its answer is returned.')
    P = export('possel', unity(module_sources('lib/lf/geometry', 'lib/lf/base'), SELW % REPO))
    w = wsrc_(P, 'lf::refinement::EntityCenterPositionSelector::operator()')

    def one(j):
        fn, t, world, tag = j
        alg.reset()
        I = Interp(P)
        sk = skels(True)[1 if t == 'Quad' else 0]
        sk.install(I)
        cd = {'Point': 2, 'Segment': 1, 'Tria': 0, 'Quad': 0}[t]
        n = {'Point': 1, 'Segment': 2, 'Tria': 3, 'Quad': 4}[t]
        V = eigen.new_mat(world, n, -1, 1 if n == 1 else -1, 'double', False, lambda i, k: S('v%d_%d' % (i, k)))
        g = new(I, 'lf::geometry::' + {'Point': 'Point'}.get(t, t + 'O1'), V)
        asked = []

        def ask(I_, e, ob, a):
            x = I_.rv(a[0])
            asked.append((int(num(I_.rv(ob).f['tag'].v)), [I_.rv(q) for r in x.cells for q in r]))
            return Cell(Cond('op', 'predicate%d' % len(asked)))
        I.hooks['lfv::Pos::operator()'] = I.hooks['lfv::PosV::operator()'] = ask

        def geo(I_, e, f, o, name, args):
            if isinstance(o, Opq) and sk.parse(o) == (cd, 0) and name == 'Geometry':
                return Cell(Ptr(g if isinstance(g, Cell) else Cell(g)))
            return NotImplemented
        I.opq_hooks.append(geo)
        key = '%s/%s/%dD' % (fn, t, world)

        def run():
            r = I.rv(fcall(I, 'lfv::' + fn, tag, sk.ent(cd, 0)))
            if not c.require(key + '/once', w, len(asked) == 1, 'the predicate is asked %d times' % len(asked)):
                return
            c.require(key + '/predicate', w, asked[0][0] == tag, 'another predicate is asked')
            c.require(key + '/answer', w, isinstance(r, Cond) and str(r) == str(Cond('op', 'predicate1')), 'the answer of the predicate is not returned')
            if c.require(key + '/dim', w, len(asked[0][1]) == world, 'the predicate gets %d coordinates' % len(asked[0][1])):
                for d in range(world):
                    m = C(F(0))
                    for k in range(n):
                        m = m + S('v%d_%d' % (d, k)) * C(F(1, n))
                    c.equal('%s/x%d' % (key, d), w, asked[0][1][d], m, None, 'the predicate is not evaluated at the centre of the entity')
        c.attempt(key, w, run)
        c.cover(I)
    c.par([(f, t, d, k) for f in ('sel', 'selc') for t in ('Point', 'Segment', 'Tria', 'Quad') for d in (2, 3) for k in (3, 8)], one)
    return c.finish(60)


def wsrc_(P, q):
    for f in P.funcs.values():
        if f['sq'] == q and 'body' in f:
            return loc(f)
    return q
