"""Models of the Eigen operations the code base uses, on abstract matrices."""
import alg
from alg import RF, ZERO, ONE
from vals import *
from prog import tinfo


class VW:
    """colwise()/rowwise() proxy"""
    __slots__ = ('m', 'd')

    def __init__(self, m, d):
        self.m = m
        self.d = d


class Comma:
    __slots__ = ('m', 'r', 'c', 'h')

    def __init__(self, m):
        self.m = m
        self.r = 0
        self.c = 0
        self.h = 0


class Decomp:
    __slots__ = ('m', 'kind')

    def __init__(self, m, kind):
        self.m = m
        self.kind = kind


def etype(ts):
    """(rows, cols, scalar, isarray) of a plain Eigen matrix type string, or None"""
    t = tinfo(ts)
    if t.name in ('Eigen::Matrix', 'Eigen::Array') and len(t.args) >= 3:
        return int(t.args[1]), int(t.args[2]), t.args[0], t.name == 'Eigen::Array'
    return None


def uninit():
    return Top('uninitialised matrix entry')


def new_mat(rows, cols, fr=-1, fc=-1, st='double', arr=False, f=None):
    return mat(rows, cols, f or (lambda i, j: uninit()), fr=fr, fc=fc, st=st, arr=arr)


def zero_of(st):
    if st.startswith('std::complex'):
        return Cx(ZERO, ZERO)
    if st in ('double', 'float', 'long double'):
        return ZERO
    if st == 'bool':
        return False
    return 0


def conv_scalar(st, v):
    """implicit conversion of a coefficient to scalar type st"""
    if st.startswith('std::complex'):
        return lift1(lambda x: x if isinstance(x, Cx) else Cx(to_rf(x), ZERO), v)
    if st in ('double', 'float', 'long double'):
        return lift1(lambda x: to_rf(x) if isinstance(x, (int, bool)) else x, v)
    return v


def cmap(f, m, arr=None, st=None):
    return mat(m.rows, m.cols, lambda i, j: f(m.cells[i][j].v), arr=m.arr if arr is None else arr, st=st or m.st)


def cmap2(f, a, b, st=None):
    if a.rows != b.rows or a.cols != b.cols:
        if 1 not in (a.rows * a.cols, b.rows * b.cols):
            raise OutOfBounds('coefficient-wise operation on matrices of the sizes %dx%d and %dx%d' % (a.rows, a.cols, b.rows, b.cols))
        raise Undecided('coefficient-wise operation on %dx%d and %dx%d' % (a.rows, a.cols, b.rows, b.cols))
    return mat(a.rows, a.cols, lambda i, j: f(a.cells[i][j].v, b.cells[i][j].v), arr=a.arr, st=st or join_st(a.st, b.st))


def join_st(a, b):
    for s in (a, b):
        if s.startswith('std::complex'):
            return s
    for s in (a, b):
        if s == 'double':
            return s
    return a


def matmul(a, b):
    if a.cols != b.rows:
        if a.rows == 1 and a.cols == 1:
            return cmap(lambda x: num_mul(a.cells[0][0].v, x), b)
        if b.rows == 1 and b.cols == 1:
            return cmap(lambda x: num_mul(x, b.cells[0][0].v), a)
        if 1 not in (a.rows * a.cols, b.rows * b.cols):
            raise OutOfBounds('product of matrices of the sizes %dx%d and %dx%d' % (a.rows, a.cols, b.rows, b.cols))
        raise Undecided('product of %dx%d and %dx%d' % (a.rows, a.cols, b.rows, b.cols))
    st = join_st(a.st, b.st)

    def f(i, j):
        t = zero_of(st)
        for k in range(a.cols):
            t = num_add(t, num_mul(a.cells[i][k].v, b.cells[k][j].v))
        return t
    return mat(a.rows, b.cols, f, st=st)


def det(m):
    n = m.rows
    v = [[c.v for c in r] for r in m.cells]
    return _det(v, n, m.st)


def _det(v, n, st):
    if n == 0:
        return ONE
    if n == 1:
        return v[0][0]
    if n == 2:
        return num_sub(num_mul(v[0][0], v[1][1]), num_mul(v[0][1], v[1][0]))
    t = zero_of(st)
    for j in range(n):
        if isinstance(v[0][j], RF) and v[0][j].is_zero():
            continue
        sub = [r[:j] + r[j + 1:] for r in v[1:]]
        p = num_mul(v[0][j], _det(sub, n - 1, st))
        t = num_add(t, p) if j % 2 == 0 else num_sub(t, p)
    return t


def inverse(m):
    n = m.rows
    if n != m.cols:
        raise Undecided('inverse of a non-square matrix')
    v = [[c.v for c in r] for r in m.cells]
    const = all(isinstance(x, RF) and x.is_const() for r in v for x in r)
    if const or n > 4:
        return _gauss_inv(m, v, n)
    d = _det(v, n, m.st)

    def cof(i, j):
        sub = [r[:j] + r[j + 1:] for k, r in enumerate(v) if k != i]
        x = _det(sub, n - 1, m.st)
        return x if (i + j) % 2 == 0 else num_neg(x)
    return mat(n, n, lambda i, j: num_div(cof(j, i), d), st=m.st)


def _gauss_inv(m, v, n):
    a = [list(r) + [ONE if i == j else ZERO for j in range(n)] for i, r in enumerate(v)]
    for c in range(n):
        p = None
        for r in range(c, n):
            x = a[r][c]
            if not isinstance(x, RF):
                raise Undecided('inverse of a large symbolic matrix')
            if not x.is_zero():
                p = r
                if x.is_const():
                    break
        if p is None:
            return mat(n, n, lambda i, j: Top('singular matrix'))
        a[c], a[p] = a[p], a[c]
        iv = a[c][c].inv()
        a[c] = [x * iv for x in a[c]]
        for r in range(n):
            if r != c and not a[r][c].is_zero():
                k = a[r][c]
                a[r] = [x - k * y for x, y in zip(a[r], a[c])]
    return mat(n, n, lambda i, j: a[i][n + j], st=m.st)


def block(m, i, j, r, c):
    i, j, r, c = (idx(x) for x in (i, j, r, c))
    if i < 0 or j < 0 or r < 0 or c < 0 or i + r > m.rows or j + c > m.cols:
        raise OutOfBounds('block (%d,%d) of size %dx%d in a %dx%d matrix' % (i, j, r, c, m.rows, m.cols))
    return Mat(r, c, [row[j:j + c] for row in m.cells[i:i + r]], m.arr, m.st, view=True)


class OutOfBounds(ThrowEx):
    pass


def idx(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, RF) and x.is_const() and x.value().denominator == 1:
        return int(x.value())
    raise Undecided('matrix index or size is not a constant: %r' % (x,))


def coeff(m, i, j=None):
    i = idx(i)
    if j is None:
        if m.cols == 1:
            j = 0
        elif m.rows == 1:
            i, j = 0, i
        else:
            # column-major linear index
            i, j = i % m.rows, i // m.rows
    else:
        j = idx(j)
    if not (0 <= i < m.rows and 0 <= j < m.cols):
        raise OutOfBounds('coefficient (%d,%d) of a %dx%d matrix' % (i, j, m.rows, m.cols))
    return m.cells[i][j]


def assign(I, dst, src):
    """dst = src"""
    if isinstance(src, Ite):
        # element-wise merge when the shapes agree
        src = merge_ite_mat(src)
    if isinstance(src, Opq):
        if dst.view:
            for i, r in enumerate(dst.cells):
                for j, c in enumerate(r):
                    I.set(c, I.sym_of(dst.st, '%s(%d,%d)' % (src.key, i, j)))
            return
        raise Undecided('assignment of an unknown matrix %s' % src.key)
    if isinstance(src, Top):
        for r in dst.cells:
            for c in r:
                I.set(c, src)
        return
    if not isinstance(src, Mat):
        raise Undecided('matrix assignment from %r' % (type(src),))
    r, c = src.rows, src.cols
    vals = [[x.v for x in row] for row in src.cells]
    if (dst.fc == 1 and dst.fr != 1 and r == 1 and c != 1) or (dst.fr == 1 and dst.fc != 1 and c == 1 and r != 1):
        vals = [list(t) for t in zip(*vals)]
        r, c = c, r
    if dst.view and (dst.rows, dst.cols) != (r, c) and (dst.rows, dst.cols) == (c, r) and 1 in (r, c):
        vals = [list(t) for t in zip(*vals)]
        r, c = c, r
    if (dst.rows, dst.cols) != (r, c):
        if dst.view:
            raise OutOfBounds('assignment of a %dx%d expression to a %dx%d block' % (r, c, dst.rows, dst.cols))
        if (dst.fr >= 0 and dst.fr != r) or (dst.fc >= 0 and dst.fc != c):
            raise OutOfBounds('assignment of a %dx%d expression to a fixed-size matrix' % (r, c))
        I.setattr(dst, 'cells', [[Cell() for _ in range(c)] for _ in range(r)])
        I.setattr(dst, 'rows', r)
        I.setattr(dst, 'cols', c)
    for row, vr in zip(dst.cells, vals):
        for cell, v in zip(row, vr):
            I.set(cell, conv_scalar(dst.st, v))


def merge_ite_mat(v):
    if isinstance(v, Ite):
        a, b = merge_ite_mat(v.a), merge_ite_mat(v.b)
        if isinstance(a, Mat) and isinstance(b, Mat) and (a.rows, a.cols) == (b.rows, b.cols):
            return mat(a.rows, a.cols, lambda i, j: mk_ite(v.c, a.cells[i][j].v, b.cells[i][j].v), st=a.st, arr=a.arr)
        if isinstance(a, Mat) or isinstance(b, Mat):
            raise Undecided('matrix of uncertain shape')
    return v


def construct(I, ts, args, e=None):
    """construct an Eigen::Matrix / Array of type ts from evaluated args"""
    fr, fc, st, arr = etype(ts)
    if not args:
        return new_mat(max(fr, 0), max(fc, 0), fr, fc, st, arr)
    a = args[0]
    if isinstance(a, Ite):
        a = merge_ite_mat(a)
    if isinstance(a, Ite):
        I.undecided('matrix construction from a conditional')
    if len(args) == 1 or isinstance(a, (Mat, Comma)):
        # (further arguments are enable_if defaults)
        if isinstance(a, Comma):
            a = a.m
        if isinstance(a, Mat):
            m = new_mat(max(fr, 0), max(fc, 0), fr, fc, st, arr)
            assign(I, m, a)
            return m
        if isinstance(a, Opq):
            return a if fr < 0 or fc < 0 else new_mat(fr, fc, fr, fc, st, arr, lambda i, j: I.sym_of(st, '%s(%d,%d)' % (a.key, i, j)))
        if isinstance(a, Vec):
            items = [c.v for c in a.items]
            if items and isinstance(items[0], Vec):
                rows = [[c.v for c in x.items] for x in items]
                if fc == 1 and len(rows) == 1 and len(rows[0]) > 1:
                    rows = [[x] for x in rows[0]]
                return new_mat(len(rows), len(rows[0]), fr, fc, st, arr, lambda i, j: conv_scalar(st, rows[i][j]))
            if fr == 1:
                return new_mat(1, len(items), fr, fc, st, arr, lambda i, j: conv_scalar(st, items[j]))
            return new_mat(len(items), 1, fr, fc, st, arr, lambda i, j: conv_scalar(st, items[i]))
        if isinstance(a, Ptr):
            raise Undecided('matrix from pointer')
        if fr >= 0 and fc >= 0:
            if fr * fc == 1:
                return new_mat(1, 1, 1, 1, st, arr, lambda i, j: conv_scalar(st, a))
            return new_mat(fr, fc, fr, fc, st, arr)
        n = idx(a)
        if fc == 1:
            return new_mat(n, 1, fr, fc, st, arr)
        if fr == 1:
            return new_mat(1, n, fr, fc, st, arr)
        return new_mat(n, max(fc, 1), fr, fc, st, arr)
    if fr > 0 and fc > 0 and len(args) == fr * fc and (fr == 1 or fc == 1):
        if fr == 1:
            return new_mat(1, fc, fr, fc, st, arr, lambda i, j: conv_scalar(st, args[j]))
        return new_mat(fr, 1, fr, fc, st, arr, lambda i, j: conv_scalar(st, args[i]))
    if len(args) == 2:
        return new_mat(idx(args[0]), idx(args[1]), fr, fc, st, arr)
    raise Undecided('matrix constructor with %d arguments' % len(args))


def static_fn(I, name, ts, args):
    """Zero/Ones/Constant/Identity/... of a plain type"""
    t = etype(ts)
    if t is None:
        # nullary on the result type
        raise Undecided('static %s on %s' % (name, ts))
    fr, fc, st, arr = t
    a = list(args)
    val = None
    if name in ('Constant',):
        val = a.pop()
    if name in ('LinSpaced',):
        n, lo, hi = a[-3:] if len(a) >= 3 else (fr if fr > 0 else fc, a[0], a[1])
        n = idx(n)
        g = lambda k: num_add(lo, num_mul(alg.C(k), num_div(num_sub(hi, lo), alg.C(max(n - 1, 1)))))
        if st not in ('double',):
            raise Undecided('integer LinSpaced')
        return mat(n, 1, lambda i, j: g(i), fr=fr, fc=fc) if fc == 1 else mat(1, n, lambda i, j: g(j), fr=fr, fc=fc)
    if name in ('UnitX', 'UnitY', 'UnitZ'):
        k = 'XYZ'.index(name[-1])
        return mat(fr, 1, lambda i, j: ONE if i == k else ZERO, fr=fr, fc=fc)
    if name == 'Unit':
        k = idx(a[-1])
        n = idx(a[0]) if len(a) == 2 else fr
        return mat(n, 1, lambda i, j: ONE if i == k else ZERO, fr=fr, fc=fc)
    if len(a) == 2:
        r, c = idx(a[0]), idx(a[1])
    elif len(a) == 1:
        n = idx(a[0])
        r, c = (n, fc) if fc > 0 else (fr, n)
    else:
        r, c = fr, fc
    if r < 0 or c < 0:
        raise Undecided('%s without size' % name)
    if name == 'Zero':
        f = lambda i, j: zero_of(st)
    elif name == 'Ones':
        f = lambda i, j: conv_scalar(st, 1)
    elif name == 'Constant':
        f = lambda i, j: conv_scalar(st, val)
    elif name == 'Identity':
        f = lambda i, j: conv_scalar(st, 1) if i == j else zero_of(st)
    elif name in ('Random',):
        f = lambda i, j: Top('random')
    else:
        raise Undecided('static Eigen function ' + name)
    return mat(r, c, f, fr=fr, fc=fc, st=st, arr=arr)


def vsum(vs, st='double'):
    t = zero_of(st)
    for v in vs:
        t = num_add(t, v)
    return t


def dot(a, b):
    x = [c.v for r in a.cells for c in r]
    y = [c.v for r in b.cells for c in r]
    if len(x) != len(y):
        raise OutOfBounds('dot product of vectors of length %d and %d' % (len(x), len(y)))
    return vsum((num_mul(num_conj(p), q) for p, q in zip(x, y)), join_st(a.st, b.st))


def abs2(v):
    return lift1(lambda x: x.re * x.re + x.im * x.im if isinstance(x, Cx) else _mul2(x), v)


def _mul2(x):
    return x * x


def all_true(I, m):
    r = True
    for row in m.cells:
        for c in row:
            v = c.v
            if isinstance(v, Top):
                return v
            r = c_and(r, I.as_cond(v))
    return r


def setall(I, m, f):
    for row in m.cells:
        for c in row:
            I.set(c, f(c.v))


def resize(I, m, r, c, keep=False):
    if (m.rows, m.cols) == (r, c):
        return
    old = m.cells
    if not keep and m.rows * m.cols == r * c and r * c:
        # same number of coefficients: the storage (column major) is kept
        flat = [old[i][j] for j in range(m.cols) for i in range(m.rows)]
        I.setattr(m, 'cells', [[flat[j * r + i] for j in range(c)] for i in range(r)])
        I.setattr(m, 'rows', r)
        I.setattr(m, 'cols', c)
        return
    n = [[(old[i][j] if keep and i < m.rows and j < m.cols else Cell(uninit())) for j in range(c)] for i in range(r)]
    I.setattr(m, 'cells', n)
    I.setattr(m, 'rows', r)
    I.setattr(m, 'cols', c)


def _colsum(m, f):
    return mat(1, m.cols, lambda i, j: f([m.cells[k][j].v for k in range(m.rows)]), arr=m.arr, st=m.st)


def _rowsum(m, f):
    return mat(m.rows, 1, lambda i, j: f([c.v for c in m.cells[i]]), arr=m.arr, st=m.st)


def vw_method(I, name, vw, args):
    m, d = vw.m, vw.d
    red = {'sum': lambda v: vsum(v, m.st),
           'mean': lambda v: num_div(vsum(v, m.st), alg.C(len(v))),
           'squaredNorm': lambda v: vsum([abs2(x) for x in v]),
           'norm': lambda v: num_sqrt(vsum([abs2(x) for x in v])),
           'prod': lambda v: _prod(v),
           'all': lambda v: c_and(*[I.as_cond(x) for x in v]),
           'any': lambda v: c_or(*[I.as_cond(x) for x in v]),
           'maxCoeff': lambda v: I.minmax('max', v), 'minCoeff': lambda v: I.minmax('min', v)}
    if name in red:
        return (_colsum if d == 'col' else _rowsum)(m, red[name])
    if name == 'reverse':
        if d == 'col':
            return Mat(m.rows, m.cols, m.cells[::-1], m.arr, m.st, view=True)
        return Mat(m.rows, m.cols, [r[::-1] for r in m.cells], m.arr, m.st, view=True)
    if name == 'replicate':
        k = idx(args[0])
        if d == 'col':
            return mat(m.rows * k, m.cols, lambda i, j: m.cells[i % m.rows][j].v, arr=m.arr, st=m.st)
        return mat(m.rows, m.cols * k, lambda i, j: m.cells[i][j % m.cols].v, arr=m.arr, st=m.st)
    if name in ('normalized', 'normalize'):
        n = [num_sqrt(vsum([abs2(x) for x in v])) for v in ([[m.cells[i][j].v for i in range(m.rows)] for j in range(m.cols)] if d == 'col' else [[c.v for c in r] for r in m.cells])]
        r = mat(m.rows, m.cols, lambda i, j: num_div(m.cells[i][j].v, n[j if d == 'col' else i]), arr=m.arr, st=m.st)
        if name == 'normalized':
            return r
        for i in range(m.rows):
            for j in range(m.cols):
                I.set(m.cells[i][j], r.cells[i][j].v)
        return None
    raise Undecided('vectorwise ' + name)


def vw_op(I, op, vw, b):
    m = vw.m
    if not isinstance(b, Mat):
        raise Undecided('vectorwise operator with a scalar')
    v = [c.v for r in b.cells for c in r]
    n = m.rows if vw.d == 'col' else m.cols
    if len(v) != n:
        raise OutOfBounds('vectorwise operation with a vector of length %d on a %dx%d matrix' % (len(v), m.rows, m.cols))
    o = {'+': num_add, '-': num_sub, '*': num_mul, '/': num_div}[op.rstrip('=')]
    g = (lambda i, j: o(m.cells[i][j].v, v[i])) if vw.d == 'col' else (lambda i, j: o(m.cells[i][j].v, v[j]))
    r = mat(m.rows, m.cols, g, arr=m.arr, st=join_st(m.st, b.st))
    if op.endswith('='):
        assign(I, m, r)
        return m
    return r


def _prod(v):
    t = ONE
    for x in v:
        t = num_mul(t, x)
    return t


def method(I, name, m, args, e, ta=()):
    """member function of a dense expression"""
    a = args
    n = len(a)
    if name == 'rows':
        return m.rows
    if name == 'cols':
        return m.cols
    if name == 'size':
        return m.rows * m.cols
    if name in ('col', 'row'):
        k = idx(a[0])
        return block(m, 0, k, m.rows, 1) if name == 'col' else block(m, k, 0, 1, m.cols)
    if name in ('array', 'matrix', 'derived', 'eval', 'noalias', 'finished', 'nestedExpression', 'asDiagonal', 'template', 'lazyProduct', 'real', 'imag', 'const_cast_derived', 'reshaped'):
        if name == 'asDiagonal':
            v = [c.v for r in m.cells for c in r]
            return mat(len(v), len(v), lambda i, j: v[i] if i == j else zero_of(m.st), st=m.st)
        if name == 'eval':
            return copy_val(m)
        if name == 'real':
            return cmap(lambda x: lift1(lambda y: y.re if isinstance(y, Cx) else y, x), m, st='double')
        if name == 'imag':
            return cmap(lambda x: lift1(lambda y: y.im if isinstance(y, Cx) else ZERO, x), m, st='double')
        if name == 'reshaped' and n == 2:
            v = [m.cells[i][j] for j in range(m.cols) for i in range(m.rows)]
            r, c = idx(a[0]), idx(a[1])
            return Mat(r, c, [[v[i + j * r] for j in range(c)] for i in range(r)], m.arr, m.st, view=True)
        if name in ('reshaped', 'lazyProduct'):
            raise Undecided('Eigen ' + name)
        arr = True if name == 'array' else False if name == 'matrix' else m.arr
        return Mat(m.rows, m.cols, m.cells, arr, m.st, view=True)
    if name in ('transpose', 'adjoint'):
        if name == 'transpose' or not m.st.startswith('std::complex'):
            return Mat(m.cols, m.rows, [list(r) for r in zip(*m.cells)] if m.rows and m.cols else [[] for _ in range(m.cols)], m.arr, m.st, view=True)
        return mat(m.cols, m.rows, lambda i, j: num_conj(m.cells[j][i].v), st=m.st, arr=m.arr)
    if name == 'conjugate':
        return cmap(num_conj, m)
    if name == 'block':
        if n == 2:
            return block(m, a[0], a[1], ta[0], ta[1])
        return block(m, *a)
    if name in ('head', 'tail', 'segment'):
        L = m.rows * m.cols
        if name == 'segment':
            s = idx(a[0])
            k = idx(a[1]) if n == 2 else ta[0]
        else:
            k = idx(a[0]) if n else ta[0]
            s = 0 if name == 'head' else L - k
        return block(m, s, 0, k, 1) if m.cols == 1 else block(m, 0, s, 1, k)
    if name in ('topRows', 'bottomRows', 'leftCols', 'rightCols', 'middleRows', 'middleCols'):
        if name.startswith('middle'):
            s = idx(a[0])
            k = idx(a[1]) if n == 2 else ta[0]
        else:
            k = idx(a[0]) if n else ta[0]
            s = {'topRows': 0, 'bottomRows': m.rows - k, 'leftCols': 0, 'rightCols': m.cols - k}[name]
        return block(m, s, 0, k, m.cols) if name.endswith('Rows') else block(m, 0, s, m.rows, k)
    if name in ('topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'):
        r, c = (idx(a[0]), idx(a[1])) if n else (ta[0], ta[1])
        return block(m, 0 if name.startswith('top') else m.rows - r, 0 if 'Left' in name else m.cols - c, r, c)
    if name in ('operator()', 'coeff', 'coeffRef', 'operator[]'):
        if n == 1 and isinstance(a[0], Func):
            raise Undecided('indexed view')
        return coeff(m, *a)
    if name in ('x', 'y', 'z', 'w'):
        return coeff(m, 'xyzw'.index(name))
    if name == 'value':
        return m.cells[0][0].v
    if name == 'replicate':
        r, c = (idx(a[0]), idx(a[1])) if n == 2 else (ta[0], ta[1])
        return mat(m.rows * r, m.cols * c, lambda i, j: m.cells[i % m.rows][j % m.cols].v, arr=m.arr, st=m.st)
    if name == 'reverse':
        return Mat(m.rows, m.cols, [r[::-1] for r in m.cells[::-1]], m.arr, m.st, view=True)
    if name in ('sparseView', 'pruned'):
        return copy_val(m)
    if name == 'colwise':
        return VW(m, 'col')
    if name == 'rowwise':
        return VW(m, 'row')
    if name == 'determinant':
        if m.rows != m.cols:
            raise OutOfBounds('determinant of a %dx%d matrix' % (m.rows, m.cols))
        return det(m)
    if name == 'inverse':
        if m.arr:
            return cmap(lambda x: num_div(ONE, x), m)
        return inverse(m)
    if name == 'diagonal':
        k = min(m.rows, m.cols)
        return Mat(k, 1, [[m.cells[i][i]] for i in range(k)], m.arr, m.st, view=True)
    if name == 'trace':
        return vsum([m.cells[i][i].v for i in range(min(m.rows, m.cols))], m.st)
    if name == 'dot':
        return dot(m, need_mat(a[0]))
    if name == 'cross':
        b = need_mat(a[0])
        x = [c.v for r in m.cells for c in r]
        y = [c.v for r in b.cells for c in r]
        if len(x) != 3 or len(y) != 3:
            raise OutOfBounds('cross product of vectors that are not three-dimensional')
        v = [num_sub(num_mul(x[(i + 1) % 3], y[(i + 2) % 3]), num_mul(x[(i + 2) % 3], y[(i + 1) % 3])) for i in range(3)]
        return mat(m.rows, m.cols, lambda i, j: v[max(i, j)], st=m.st)
    if name == 'sum':
        return vsum([c.v for r in m.cells for c in r], m.st)
    if name == 'mean':
        return num_div(vsum([c.v for r in m.cells for c in r], m.st), alg.C(m.rows * m.cols))
    if name == 'prod':
        return _prod([c.v for r in m.cells for c in r])
    if name == 'squaredNorm':
        return vsum([abs2(c.v) for r in m.cells for c in r])
    if name == 'norm':
        return num_sqrt(vsum([abs2(c.v) for r in m.cells for c in r]))
    if name == 'normalized':
        k = num_sqrt(vsum([abs2(c.v) for r in m.cells for c in r]))
        return cmap(lambda x: num_div(x, k), m)
    if name == 'normalize':
        k = num_sqrt(vsum([abs2(c.v) for r in m.cells for c in r]))
        setall(I, m, lambda x: num_div(x, k))
        return None
    if name in ('maxCoeff', 'minCoeff'):
        if n:
            raise Undecided('maxCoeff with index')
        return I.minmax(name[:3], [c.v for r in m.cells for c in r])
    if name == 'all':
        return all_true(I, m)
    if name == 'any':
        return c_or(*[I.as_cond(c.v) for r in m.cells for c in r])
    if name == 'count':
        return vsum([mk_ite(I.as_cond(c.v), 1, 0) for r in m.cells for c in r], 'int')
    if name == 'cwiseProduct':
        return cmap2(num_mul, m, need_mat(a[0]))
    if name == 'cwiseQuotient':
        return cmap2(num_div, m, need_mat(a[0]))
    if name in ('cwiseAbs', 'abs'):
        return cmap(num_abs, m)
    if name in ('cwiseInverse',):
        return cmap(lambda x: num_div(ONE, x), m)
    if name in ('cwiseSqrt', 'sqrt'):
        return cmap(num_sqrt, m)
    if name in ('cwiseAbs2', 'abs2'):
        return cmap(abs2, m)
    if name == 'square':
        return cmap(lambda x: num_mul(x, x), m)
    if name == 'cube':
        return cmap(lambda x: num_mul(x, num_mul(x, x)), m)
    if name == 'pow':
        return cmap(lambda x: I.power(x, a[0]), m)
    if name in ('exp', 'log', 'sin', 'cos'):
        return cmap(lambda x: num_fn(name, x), m)
    if name in ('min', 'max', 'cwiseMin', 'cwiseMax'):
        k = name[-3:].lower()
        b = a[0]
        if isinstance(b, Mat):
            return cmap2(lambda x, y: I.minmax(k, [x, y]), m, b)
        return cmap(lambda x: I.minmax(k, [x, b]), m)
    if name == 'cast':
        st = ta[0] if ta and isinstance(ta[0], str) else m.st
        return cmap(lambda x: I.cast_scalar(x, m.st, st), m, st=st)
    if name == 'unaryExpr':
        return cmap(lambda x: I.rv(I.call_value(a[0], [Cell(x)])), m)
    if name == 'binaryExpr':
        return cmap2(lambda x, y: I.rv(I.call_value(a[1], [Cell(x), Cell(y)])), m, need_mat(a[0]))
    if name == 'select':
        p, q = a

        def pick(i, j):
            x = p.cells[i][j].v if isinstance(p, Mat) else p
            y = q.cells[i][j].v if isinstance(q, Mat) else q
            return mk_ite(I.as_cond(m.cells[i][j].v), x, y)
        return mat(m.rows, m.cols, pick)
    if name in ('setZero', 'setOnes', 'setConstant', 'setIdentity', 'fill'):
        if name == 'fill':
            val = a[0]
            a = ()
        elif name == 'setConstant':
            val = a[-1]
            a = a[:-1]
        else:
            val = zero_of(m.st) if name != 'setOnes' else conv_scalar(m.st, 1)
        if a:
            r, c = (idx(a[0]), idx(a[1])) if len(a) == 2 else ((idx(a[0]), 1) if m.fc == 1 else (1, idx(a[0])))
            resize(I, m, r, c)
        setall(I, m, lambda x: conv_scalar(m.st, val))
        if name == 'setIdentity':
            for i in range(min(m.rows, m.cols)):
                I.set(m.cells[i][i], conv_scalar(m.st, 1))
        return m
    if name in ('resize', 'conservativeResize'):
        keep = name != 'resize'
        if n == 2:
            r = m.rows if isinstance(a[0], Opq) else idx(a[0])
            c = m.cols if isinstance(a[1], Opq) else idx(a[1])
        else:
            r, c = (idx(a[0]), 1) if m.fc == 1 else (1, idx(a[0]))
        resize(I, m, r, c, keep)
        return None
    if name in ('colPivHouseholderQr', 'fullPivLu', 'partialPivLu', 'lu', 'ldlt', 'llt', 'householderQr', 'fullPivHouseholderQr'):
        return Decomp(m, name)
    if name == 'swap':
        b = need_mat(a[0])
        x, y = copy_val(m), copy_val(b)
        assign(I, m, y)
        assign(I, b, x)
        return None
    if name in ('isApprox', 'isZero', 'isOnes', 'isConstant', 'isIdentity', 'allFinite', 'hasNaN'):
        return I.fresh_cond(name + key_of(m))
    if name == 'innerSize' or name == 'outerSize':
        raise Undecided(name)
    if name in ('addTo',):
        raise Undecided(name)
    if name == 'binaryExpr':
        raise Undecided(name)
    if name in ('begin', 'end'):
        v = Vec([c for r in m.cells for c in r] if m.cols == 1 or m.rows == 1 else [m.cells[i][j] for j in range(m.cols) for i in range(m.rows)], 'span')
        return Ptr(None, v, 0 if name == 'begin' else len(v.items))
    if name == 'data':
        v = Vec([m.cells[i][j] for j in range(m.cols) for i in range(m.rows)], 'span')
        return Ptr(None, v, 0)
    if name in ('isMuchSmallerThan',):
        return I.fresh_cond(name + key_of(m))
    if name in ('triangularView', 'selfadjointView', 'eigenvalues'):
        raise Undecided('Eigen ' + name)
    raise Undecided('Eigen member function %s' % name)


def need_mat(x):
    if isinstance(x, Comma):
        return x.m
    if isinstance(x, Ite):
        x = merge_ite_mat(x)
    if not isinstance(x, Mat):
        raise Undecided('expected a matrix, found %s' % type(x).__name__)
    return x


def comma(I, c, v):
    m = c.m
    if isinstance(v, Ite):
        v = merge_ite_mat(v)
    if isinstance(v, Mat):
        if c.c >= m.cols and m.cols:
            c.r += c.h
            c.c = 0
        if v.rows == 0 or v.cols == 0:
            return c
        if c.r + v.rows > m.rows or c.c + v.cols > m.cols:
            raise OutOfBounds('too many coefficients in a comma initializer')
        assign(I, block(m, c.r, c.c, v.rows, v.cols), v)
        c.h = v.rows
        c.c += v.cols
        return c
    if c.c >= m.cols:
        c.r += max(c.h, 1)
        c.c = 0
    if c.r >= m.rows:
        raise OutOfBounds('too many coefficients in a comma initializer')
    I.set(m.cells[c.r][c.c], conv_scalar(m.st, v))
    c.h = 1
    c.c += 1
    return c


def binop(I, op, a, b):
    """operator on at least one Mat"""
    if isinstance(a, Comma):
        a = a.m
    if isinstance(b, Comma):
        b = b.m
    if isinstance(a, Ite):
        a = merge_ite_mat(a)
    if isinstance(b, Ite):
        b = merge_ite_mat(b)
    am, bm = isinstance(a, Mat), isinstance(b, Mat)
    if isinstance(a, Opq) or isinstance(b, Opq):
        raise Undecided('arithmetic on an unknown matrix')
    if op in ('+', '-'):
        f = num_add if op == '+' else num_sub
        if am and bm:
            return cmap2(f, a, b)
        if am:
            return cmap(lambda x: f(x, b), a)
        return cmap(lambda x: f(a, x), b)
    if op == '*':
        if am and bm:
            if a.arr and b.arr:
                return cmap2(num_mul, a, b)
            return matmul(a, b)
        if am:
            return cmap(lambda x: num_mul(x, b), a, st='std::complex<double>' if isinstance(b, Cx) else None)
        return cmap(lambda x: num_mul(a, x), b, st='std::complex<double>' if isinstance(a, Cx) else None)
    if op == '/':
        if am and bm:
            return cmap2(num_div, a, b)
        if am:
            if a.st in ('int', 'unsigned int', 'long'):
                return cmap(lambda x: int_div(x, b), a)
            return cmap(lambda x: num_div(x, b), a)
        return cmap(lambda x: num_div(a, x), b)
    if op in ('<', '<=', '>', '>=', '==', '!='):
        if am and bm:
            if not (a.arr or b.arr) and op in ('==', '!='):
                r = True
                for ra, rb in zip(a.cells, b.cells):
                    for x, y in zip(ra, rb):
                        r = c_and(r, I.as_cond(num_cmp('==', x.v, y.v)))
                if (a.rows, a.cols) != (b.rows, b.cols):
                    r = False
                return r if op == '==' else c_not(r)
            return cmap2(lambda x, y: num_cmp(op, x, y), a, b, st='bool')
        if am:
            return cmap(lambda x: num_cmp(op, x, b), a, st='bool')
        return cmap(lambda x: num_cmp(op, a, x), b, st='bool')
    if op in ('&&', '||'):
        f = c_and if op == '&&' else c_or
        return cmap2(lambda x, y: f(I.as_cond(x), I.as_cond(y)), a, b, st='bool')
    raise Undecided('Eigen operator ' + op)
