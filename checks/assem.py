"""Assembly: A01 (assembly loops), A02 (COOMatrix), A03 (elimination of fixed components)"""
from dofs import *

ASM = '''
#include "%s/lib/lf/assemble/assemble.h"
namespace lfv {
using namespace lf::assemble;
using Cd = std::complex<double>;
struct Sink { void AddToEntry(gdof_idx_t i, gdof_idx_t j, double v); };
struct MProv { bool isActive(const lf::mesh::Entity& e); Eigen::MatrixXd Eval(const lf::mesh::Entity& e); };
struct MProvC { bool isActive(const lf::mesh::Entity& e); Eigen::MatrixXcd Eval(const lf::mesh::Entity& e); };
struct VProv { bool isActive(const lf::mesh::Entity& e); Eigen::VectorXd Eval(const lf::mesh::Entity& e); };
struct VProvC { bool isActive(const lf::mesh::Entity& e); Eigen::VectorXcd Eval(const lf::mesh::Entity& e); };
void asm_gen(lf::base::dim_t c, const DofHandler& trial, const DofHandler& test, MProv& p, Sink& m) { AssembleMatrixLocally(c, trial, test, p, m); }
COOMatrix<double> asm_mat(lf::base::dim_t c, const DofHandler& trial, const DofHandler& test, MProv& p) { return AssembleMatrixLocally<COOMatrix<double>>(c, trial, test, p); }
COOMatrix<Cd> asm_matC(lf::base::dim_t c, const DofHandler& trial, const DofHandler& test, MProvC& p) { return AssembleMatrixLocally<COOMatrix<Cd>>(c, trial, test, p); }
COOMatrix<double> asm_mat1(lf::base::dim_t c, const DofHandler& dh, MProv& p) { return AssembleMatrixLocally<COOMatrix<double>>(c, dh, p); }
Eigen::VectorXd asm_vec(lf::base::dim_t c, const DofHandler& dh, VProv& p) { return AssembleVectorLocally<Eigen::VectorXd>(c, dh, p); }
Eigen::VectorXcd asm_vecC(lf::base::dim_t c, const DofHandler& dh, VProvC& p) { return AssembleVectorLocally<Eigen::VectorXcd>(c, dh, p); }
void asm_vecadd(lf::base::dim_t c, const DofHandler& dh, VProv& p, Eigen::VectorXd& r) { AssembleVectorLocally(c, dh, p, r); }
// COOMatrix
struct Pred { bool operator()(gdof_idx_t i, gdof_idx_t j) const; };
#define LFV_COO(S, N) \\
COOMatrix<S> N##_make(unsigned r, unsigned c) { return COOMatrix<S>(r, c); } \\
void N##_add(COOMatrix<S>& A, unsigned i, unsigned j, S v) { A.AddToEntry(i, j, v); } \\
void N##_zero(COOMatrix<S>& A) { A.setZero(); } \\
void N##_zeropred(COOMatrix<S>& A, Pred p) { A.setZero(p); } \\
long N##_rows(const COOMatrix<S>& A) { return A.rows(); } \\
long N##_cols(const COOMatrix<S>& A) { return A.cols(); } \\
Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> N##_dense(const COOMatrix<S>& A) { return A.makeDense(); } \\
Eigen::SparseMatrix<S> N##_sparse(const COOMatrix<S>& A) { return A.makeSparse(); } \\
Eigen::Matrix<S, Eigen::Dynamic, 1> N##_mv(const COOMatrix<S>& A, S a, const Eigen::Matrix<S, Eigen::Dynamic, 1>& x) { return A.MatVecMult(a, x); } \\
void N##_mvadd(const COOMatrix<S>& A, S a, const Eigen::Matrix<S, Eigen::Dynamic, 1>& x, Eigen::Matrix<S, Eigen::Dynamic, 1>& y) { A.MatVecMult(a, x, y); } \\
struct N##_Sel { std::pair<bool, S> operator()(gdof_idx_t i) const; }; \\
void N##_fix(N##_Sel s, COOMatrix<S>& A, Eigen::Matrix<S, Eigen::Dynamic, 1>& b) { FixFlaggedSolutionComponents<S>(s, A, b); } \\
void N##_fixalt(N##_Sel s, COOMatrix<S>& A, Eigen::Matrix<S, Eigen::Dynamic, 1>& b) { FixFlaggedSolutionCompAlt<S>(s, A, b); } \\
void N##_fixlse(const fixed_components_t<S>& f, COOMatrix<S>& A, Eigen::Matrix<S, Eigen::Dynamic, 1>& b) { FixSolutionComponentsLse(f, A, b); }
LFV_COO(double, d)
LFV_COO(Cd, z)
}
'''


def asm_unit():
    return export('assem', unity(module_sources('lib/lf/assemble', 'lib/lf/base'), ASM % REPO))


class Dh:
    """opaque DofHandler: number of dofs and index lists per entity are given"""

    def __init__(self, key, sk, n, lists):
        self.key, self.sk, self.n, self.lists = key, sk, n, lists

    def val(self):
        return Opq(self.key, 'lf::assemble::DofHandler')

    def hook(self, I, e, f, o, name, args):
        if not (isinstance(o, Opq) and o.key == self.key):
            return NotImplemented
        if name == 'NumDofs':
            return Cell(self.n)
        if name == 'Mesh':
            return Cell(self.sk.mesh() if self.sk else Opq('mesh', 'std::shared_ptr<const lf::mesh::Mesh>'))
        if name in ('NumLocalDofs', 'GlobalDofIndices'):
            l = self.lists(I.rv(args[0]))
            return Cell(len(l)) if name == 'NumLocalDofs' else Cell(Vec([Cell(x) for x in l], 'span'))
        return NotImplemented


def mk(s, k):
    return Cx(S(k + '.re'), S(k + '.im')) if s == 'z' else S(k)


def A01(pid):
    c = Check(pid, rule='AssembleMatrixLocally / AssembleVectorLocally are abstractly interpreted (a) for one generic entity of an arbitrary mesh with symbolic activity flag, symbolic global indices and symbolic element matrix: the effects are exactly AddToEntry(test_index[i], trial_index[j], element_matrix(i,j)) for every i, j, under exactly the condition isActive(entity); (b) over abstract meshes with every subset of active entities: the assembled matrix / vector equals the sum of the element contributions, has dimensions NumDofs(test) x NumDofs(trial), starts from zero (or from the given vector), for real and complex scalars and for all overloads.')
    P = asm_unit()
    w = loc(P.fn('lf::assemble::AssembleMatrixLocally', 5) or P.fn('lf::assemble::AssembleMatrixLocally'))
    wv = loc(P.fn('lf::assemble::AssembleVectorLocally', 4) or P.fn('lf::assemble::AssembleVectorLocally'))

    def generic(x):
        nt, nr, er, ec = x
        alg.reset()
        I = Interp(P)
        key = 'generic/%dx%d' % (nt, nr)

        def run():
            trial = Dh('trial', None, S('Ntrial'), lambda e: [S('c%d' % i) for i in range(nr)])
            test = Dh('test', None, S('Ntest'), lambda e: [S('r%d' % i) for i in range(nt)])
            I.opq_hooks += [trial.hook, test.hook]
            E = eigen.new_mat(er, ec, -1, -1, 'double', False, lambda i, j: S('E%d_%d' % (i, j)))
            ents = []
            I.hooks['lfv::MProv::isActive'] = lambda I_, e, ob, a: Cell(Cond('op', 'active(%s)' % I_.rv(a[0]).key))

            def ev(I_, e, ob, a):
                return Cell(copy_val(E))
            I.hooks['lfv::MProv::Eval'] = ev

            def add(I_, e, ob, a):
                I_.event('add', *[I_.rv(q) for q in a])
            I.hooks['lfv::Sink::AddToEntry'] = add
            fcall(I, 'lfv::asm_gen', 1, trial.val(), test.val(), new_default(I, 'lfv::MProv'), new_default(I, 'lfv::Sink'))
            evs = [e for e in I.events if e[0] == 'add']
            got = {}
            for _, a, pc, binders, kw in evs:
                i, j = txt(a[0]), txt(a[1])
                if (i, j) in got:
                    c.bad(key + '/twice', w, 'the entry (%s,%s) receives two contributions from one entity' % (i, j))
                    return
                got[i, j] = (a[2], pc, binders)
            exp = {('r%d' % i, 'c%d' % j): E.cells[i][j].v for i in range(nt) for j in range(nr)}
            if not c.require(key + '/entries', w, set(got) == set(exp), 'entries %s receive contributions, expected (test index, trial index) %s' % (sorted(got)[:12], sorted(exp)[:12])):
                return
            c.require(key + '/values', w, all(exact_same(got[k][0], exp[k]) for k in exp), 'an entry receives the wrong element of the element matrix: %s' % {k: (txt(got[k][0]), txt(exp[k])) for k in exp if not exact_same(got[k][0], exp[k])})
            if not got:
                return
            b = {v[2] for v in got.values()}
            c.require(key + '/entities', w, len(b) == 1 and len(list(b)[0]) == 1 and 'Entities(1)' in str(list(b)[0][0][1]), 'the loop does not run over Entities(codim) of the mesh: %s' % list(b)[:2])
            pcs = {tuple(str(q) for q in v[1] if 'active' in str(q)) for v in got.values()}
            c.require(key + '/active', w, len(pcs) == 1 and len(list(pcs)[0]) == 1 and not list(pcs)[0][0].startswith(('!', 'not')), 'contributions are added under the condition %s' % list(pcs))
        c.attempt(key, w, run)
        c.no_abort_atoms(key, I, ('active(', 'sel(', 'affine(', 'mesh:or'))
        c.cover(I)
    c.par([(1, 1, 1, 1), (3, 2, 3, 2), (2, 3, 4, 5), (0, 2, 2, 2), (4, 4, 4, 4)], generic)
    # (b)
    import itertools as it
    jobs = []
    for sk in ('T', 'Q', 'TQ', 'QT'):
        for codim in (0, 1, 2):
            for kind in ('mat', 'matC', 'mat1', 'vec', 'vecC', 'vecadd'):
                jobs.append((sk, codim, kind))

    def conc(x):
        name, codim, kind = x
        sk = [s for s in skels() if s.name == name][0]
        n = sk.count(codim)
        subsets = list(it.product((0, 1), repeat=n)) if n <= 2 else [tuple((m >> k) & 1 for k in range(n)) for m in (0, (1 << n) - 1, 0b10101 & ((1 << n) - 1), 0b0110110 & ((1 << n) - 1))]
        for act in subsets:
            alg.reset()
            I = Interp(P)
            sk.install(I)
            ww = wv if kind.startswith('vec') else w
            key = '%s/%s/codim%d/%s' % (kind, name, codim, ''.join(map(str, act)))
            z = 'z' if kind.endswith('C') else 'd'
            NT, NR = 4, 3

            def tl(e):
                i = sk.parse(e)[1]
                return [(i + k * 2) % NT for k in range(2 + i % 2)]

            def rl(e):
                i = sk.parse(e)[1]
                return [(2 * i + k) % NR for k in range(2)] + ([(2 * i) % NR] if i == 1 else [])
            test, trial = Dh('test', sk, NT, tl), Dh('trial', sk, NR, rl)

            def run():
                I.opq_hooks.extend([trial.hook, test.hook])

                def ev(I_, e, ob, a):
                    en = sk.parse(I_.rv(a[0]))
                    m = len(tl(I_.rv(a[0])))
                    k = (len(tl(I_.rv(a[0]))) if kind == 'mat1' else len(rl(I_.rv(a[0])))) if kind.startswith('mat') else 1
                    return Cell(eigen.new_mat(m, k, -1, -1 if kind.startswith('mat') else 1, 'double' if z == 'd' else 'std::complex<double>', False, lambda i, j: mk(z, 'E%d_%d_%d' % (en[1], i, j))))
                for s in ('MProv', 'MProvC', 'VProv', 'VProvC'):
                    I.hooks['lfv::%s::isActive' % s] = lambda I_, e, ob, a: Cell(bool(act[sk.parse(I_.rv(a[0]))[1]]))
                    I.hooks['lfv::%s::Eval' % s] = ev
                prov = new_default(I, 'lfv::' + ('MProv' if kind.startswith('mat') else 'VProv') + ('C' if z == 'z' else ''))
                if kind.startswith('mat'):
                    A = fcall(I, 'lfv::asm_' + kind, codim, *([trial.val(), test.val()] if kind != 'mat1' else [test.val()]), prov)
                    M = fcall(I, 'lfv::%s_dense' % z, A)
                    nc, cl = (NR, rl) if kind != 'mat1' else (NT, tl)
                    if not c.require(key + '/dim', ww, (M.rows, M.cols) == (NT, nc), 'the matrix is %dx%d, number of dofs: test %d, trial %d' % (M.rows, M.cols, NT, nc)):
                        return
                    exp = [[ZERO] * nc for _ in range(NT)]
                    for k in range(n):
                        if act[k]:
                            for i, gi in enumerate(tl(sk.ent(codim, k))):
                                for j, gj in enumerate(cl(sk.ent(codim, k))):
                                    exp[gi][gj] = num_add(exp[gi][gj], mk(z, 'E%d_%d_%d' % (k, i, j)))
                    for i in range(NT):
                        for j in range(nc):
                            c.equal('%s/(%d,%d)' % (key, i, j), ww, M.cells[i][j].v, exp[i][j], None, 'entry (%d,%d) is not the sum of the element contributions' % (i, j))
                else:
                    exp = [S('b%d' % i) if kind == 'vecadd' else ZERO for i in range(NT)]
                    if kind == 'vecadd':
                        V = Cell(eigen.new_mat(NT, 1, -1, 1, 'double', False, lambda i, j: S('b%d' % i)))
                        fcall(I, 'lfv::asm_vecadd', codim, test.val(), prov, V)
                        V = V.v
                    else:
                        V = fcall(I, 'lfv::asm_' + kind, codim, test.val(), prov)
                    if not c.require(key + '/dim', ww, V.rows == NT and V.cols == 1, 'the vector has %d entries, number of dofs %d' % (V.rows, NT)):
                        return
                    for k in range(n):
                        if act[k]:
                            for i, gi in enumerate(tl(sk.ent(codim, k))):
                                exp[gi] = num_add(exp[gi], mk(z, 'E%d_%d_0' % (k, i)))
                    for i in range(NT):
                        c.equal('%s/%d' % (key, i), ww, V.cells[i][0].v, exp[i], None, 'component %d is not the sum of the element contributions' % i)
            c.attempt(key, ww, run)
            c.no_abort_atoms(key, I, ('active(', 'sel(', 'affine(', 'mesh:or'))
            c.cover(I)
    c.par(jobs, conc)
    return c.finish(500)


TRIPS = [[], [(0, 0)], [(1, 0), (0, 1), (1, 0)], [(0, 2), (2, 2), (1, 1), (2, 2), (0, 2)], [(3, 1), (0, 4), (2, 2)], [(1, 2), (2, 1), (1, 2), (1, 2)]]


def coo(I, z, r, n, trips):
    A = Cell(fcall(I, 'lfv::%s_make' % z, r, n))
    for k, (i, j) in enumerate(trips):
        fcall(I, 'lfv::%s_add' % z, A, i, j, mk(z, 'a%d' % k))
    return A


def dense_of(trips, R, N, z, names=None):
    M = [[ZERO] * N for _ in range(R)]
    for k, (i, j) in enumerate(trips):
        M[i][j] = num_add(M[i][j], mk(z, 'a%d' % k))
    return M


def vecS(z, n, pre):
    return eigen.new_mat(n, 1, -1, 1, 'double' if z == 'd' else 'std::complex<double>', False, lambda i, j: mk(z, '%s%d' % (pre, i)))


def sparse_dense(I, v, R, N):
    """entries of an Eigen::SparseMatrix value of the abstract domain"""
    if isinstance(v, Mat):
        return [[x.v for x in r] for r in v.cells]
    if (v.r, v.c) != (R, N):
        return None
    M = [[ZERO] * N for _ in range(R)]
    for k, cell in v.d.items():
        M[k[0]][k[1]] = cell.v if isinstance(cell, Cell) else cell
    return M


def A02(pid):
    c = Check(pid, rule='Every operation of COOMatrix (AddToEntry incl. growth, setZero, setZero(predicate), makeDense, makeSparse, both MatVecMult) is abstractly interpreted on triplet lists with symbolic values (repeated entries, growing dimensions, every subset of the occurring positions as predicate), for real and complex scalars: the result is that of the matrix whose entries are the sums of the triplet values.')
    P = asm_unit()

    def W(n):
        return loc(P.fn('lf::assemble::COOMatrix::' + n))

    def one(x):
        z, (r0, n0), trips = x
        alg.reset()
        I = Interp(P)
        R = max([r0] + [i + 1 for i, j in trips])
        N = max([n0] + [j + 1 for i, j in trips])
        key = '%s/%dx%d/%s' % (z, r0, n0, trips)

        def cmp(k, where, M, exp, what):
            if not c.require(k + '/dim', where, M is not None and len(M) == len(exp) and all(len(a) == len(b) for a, b in zip(M, exp)), what + ': wrong dimensions'):
                return
            for i in range(len(exp)):
                for j in range(len(exp[i])):
                    c.equal('%s(%d,%d)' % (k, i, j), where, M[i][j], exp[i][j], None, what)

        def rows(m):
            return [[q.v for q in r] for r in m.cells]

        def run():
            A = coo(I, z, r0, n0, trips)
            exp = dense_of(trips, R, N, z)
            c.require(key + '/rows', W('rows'), same(fcall(I, 'lfv::%s_rows' % z, A), R), 'rows() is %s instead of %d' % (txt(fcall(I, 'lfv::%s_rows' % z, A)), R))
            c.require(key + '/cols', W('cols'), same(fcall(I, 'lfv::%s_cols' % z, A), N), 'cols() is %s instead of %d' % (txt(fcall(I, 'lfv::%s_cols' % z, A)), N))
            cmp(key + '/dense', W('makeDense'), rows(fcall(I, 'lfv::%s_dense' % z, A)), exp, 'makeDense() differs from the sum of the triplets')
            X, Y = vecS(z, N, 'x'), vecS(z, R, 'y')
            al = mk(z, 'al')
            prod = [[nsum([num_mul(al, num_mul(exp[i][j], mk(z, 'x%d' % j))) for j in range(N)])] for i in range(R)]
            cmp(key + '/mv', W('MatVecMult'), rows(fcall(I, 'lfv::%s_mv' % z, A, al, X)), prod, 'MatVecMult(alpha, x) is not alpha*A*x')
            yc = Cell(Y)
            fcall(I, 'lfv::%s_mvadd' % z, A, al, X, yc)
            cmp(key + '/mvadd', W('MatVecMult'), rows(yc.v), [[num_add(mk(z, 'y%d' % i), prod[i][0])] for i in range(R)], 'MatVecMult(alpha, x, y) does not add alpha*A*x to y')
            cmp(key + '/sparse', W('makeSparse'), sparse_dense(I, fcall(I, 'lfv::%s_sparse' % z, A), R, N), exp, 'makeSparse() differs from the sum of the triplets')
            pos = sorted(set(trips))
            for m in range(1 << len(pos)):
                sel = {p for k, p in enumerate(pos) if m >> k & 1}

                def pred(I_, e, ob, a, sel=sel):
                    return Cell((int(num(I_.rv(a[0]))), int(num(I_.rv(a[1])))) in sel)
                I.hooks['lfv::Pred::operator()'] = pred
                B = coo(I, z, r0, n0, trips)
                fcall(I, 'lfv::%s_zeropred' % z, B, new_default(I, 'lfv::Pred'))
                e2 = [[ZERO if (i, j) in sel else exp[i][j] for j in range(N)] for i in range(R)]
                cmp('%s/zero%s' % (key, sorted(sel)), W('setZero'), rows(fcall(I, 'lfv::%s_dense' % z, B)), e2, 'setZero(predicate) does not set exactly the selected entries to zero')
            fcall(I, 'lfv::%s_zero' % z, A)
            cmp(key + '/zero', W('setZero'), rows(fcall(I, 'lfv::%s_dense' % z, A)), [[ZERO] * N for _ in range(R)], 'setZero() leaves entries')
        c.attempt(key, W('AddToEntry'), run)
        c.no_abort_atoms(key, I, ('active(', 'sel(', 'affine(', 'mesh:or'))
        c.cover(I)
    c.par([(z, d, t) for z in 'dz' for d in ((1, 1), (3, 3), (2, 5)) for t in TRIPS], one)
    return c.finish(300)


def A03(pid):
    c = Check(pid, rule='The functions eliminating fixed solution components are abstractly interpreted for symbolic matrices (given as triplets with repeated entries), right-hand sides and fixed values and every subset of fixed components: FixFlaggedSolutionComponents yields [A11 0; 0 I], [b1 - A12 x; x]; FixFlaggedSolutionCompAlt and FixSolutionComponentsLse yield [A11 A12; 0 I], [b1; x]; real and complex scalars.')
    P = asm_unit()
    TR = [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2), (0, 1), (2, 2), (2, 0)]
    TR2 = [(0, 0), (1, 1), (0, 1), (1, 0), (0, 1)]

    def one(x):
        z, fn, trips, n, flags = x
        alg.reset()
        I = Interp(P)
        name = {'fix': 'FixFlaggedSolutionComponents', 'fixalt': 'FixFlaggedSolutionCompAlt', 'fixlse': 'FixSolutionComponentsLse'}[fn]
        w = loc(P.fn('lf::assemble::' + name))
        key = '%s/%s/%s' % (name, z, ''.join(map(str, flags)))

        def run():
            A = coo(I, z, n, n, trips)
            b = Cell(vecS(z, n, 'b'))
            D = dense_of(trips, n, n, z)
            if fn == 'fixlse':
                fc = Vec([Cell(Tup([Cell(i), Cell(mk(z, 'x%d' % i))])) for i in reversed(range(n)) if flags[i]], 'vector')
                fcall(I, 'lfv::%s_fixlse' % z, Cell(fc), A, b)
            else:
                def sel(I_, e, ob, a):
                    i = int(num(I_.rv(a[0])))
                    return Cell(Tup([Cell(bool(flags[i])), Cell(mk(z, 'x%d' % i))]))
                I.hooks['lfv::%s_Sel::operator()' % z] = sel
                fcall(I, 'lfv::%s_%s' % (z, fn), new_default(I, 'lfv::%s_Sel' % z), A, b)
            M = fcall(I, 'lfv::%s_dense' % z, A)
            if not c.require(key + '/dim', w, (M.rows, M.cols) == (n, n), 'the matrix changes its size'):
                return
            for i in range(n):
                for j in range(n):
                    if flags[i]:
                        e = ONE if i == j else ZERO
                    elif flags[j] and fn == 'fix':
                        e = ZERO
                    else:
                        e = D[i][j]
                    c.equal('%s/A(%d,%d)' % (key, i, j), w, M.cells[i][j].v, e, None, 'entry (%d,%d) of the modified matrix' % (i, j))
                if flags[i]:
                    e = mk(z, 'x%d' % i)
                else:
                    e = mk(z, 'b%d' % i)
                    if fn == 'fix':
                        e = num_sub(e, nsum([num_mul(D[i][j], mk(z, 'x%d' % j)) for j in range(n) if flags[j]]))
                c.equal('%s/b(%d)' % (key, i), w, b.v.cells[i][0].v, e, None, 'component %d of the modified right-hand side' % i)
        c.attempt(key, w, run)
        c.no_abort_atoms(key, I, ('active(', 'sel(', 'affine(', 'mesh:or'))
        c.cover(I)
    import itertools as it
    jobs = [(z, fn, t, n, fl) for z in 'dz' for fn in ('fix', 'fixalt', 'fixlse') for t, n in ((TR, 3), (TR2, 2)) for fl in it.product((0, 1), repeat=n)]
    c.par(jobs, one)
    return c.finish(500)
