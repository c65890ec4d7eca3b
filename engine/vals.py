"""Abstract values of the interpreter."""
from fractions import Fraction
import alg
from alg import RF, ZERO, ONE


class Undecided(Exception):
    """the analysis cannot represent a construct: no verdict"""


class ThrowEx(Exception):
    """every path through the expression throws / aborts"""

    def __init__(self, why=''):
        Exception.__init__(self, why)
        self.why = why


EPOCH = [0]    # advanced at every branch; objects born inside a branch need no undo


class Cell:
    __slots__ = ('v', 'b')

    def __init__(self, v=None):
        self.v = v
        self.b = EPOCH[0]


class Top:
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Top(%s)' % self.why


class Dangling(Top):
    """content of a vector element that has been left behind by a reallocation"""
    __slots__ = ()


DANGLING = Dangling('element of a vector that has been reallocated since the reference was obtained')


class Cx:
    """complex number"""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __eq__(self, o):
        return isinstance(o, Cx) and self.re == o.re and self.im == o.im

    def __hash__(self):
        return hash((self.re, self.im))

    def __repr__(self):
        return '(%s)+i(%s)' % (self.re, self.im)


class Cond:
    """symbolic truth value. kind: lt/le/eq (RF compared with zero), op (opaque key), not, and, or"""
    __slots__ = ('kind', 'a', '_h')

    def __init__(self, kind, a):
        self.kind = kind
        self.a = a
        self._h = hash((kind, a))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Cond) and self.kind == o.kind and self.a == o.a

    def __repr__(self):
        if self.kind in ('lt', 'le', 'eq'):
            return '%s %s 0' % (self.a, {'lt': '<', 'le': '<=', 'eq': '=='}[self.kind])
        if self.kind == 'not':
            return '!(%s)' % (self.a,)
        if self.kind in ('and', 'or'):
            return '(' + {'and': ' && ', 'or': ' || '}[self.kind].join(map(repr, self.a)) + ')'
        return str(self.a)


def c_not(c):
    if isinstance(c, bool):
        return not c
    if c.kind == 'not':
        return c.a
    if c.kind == 'lt':
        return Cond('le', -c.a)
    if c.kind == 'le':
        return Cond('lt', -c.a)
    if c.kind == 'and':
        return c_or(*[c_not(x) for x in c.a])
    if c.kind == 'or':
        return c_and(*[c_not(x) for x in c.a])
    return Cond('not', c)


def c_and(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if c.kind == 'and':
            out += [x for x in c.a if x not in out]
        elif c not in out:
            out.append(c)
    if not out:
        return True
    for c in out:
        if c_not(c) in out:
            return False
    return out[0] if len(out) == 1 else Cond('and', tuple(out))


def c_or(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        if c.kind == 'or':
            out += [x for x in c.a if x not in out]
        elif c not in out:
            out.append(c)
    if not out:
        return False
    for c in out:
        if c_not(c) in out:
            return True
    return out[0] if len(out) == 1 else Cond('or', tuple(out))


class Ite:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __repr__(self):
        return '(%r ? %r : %r)' % (self.c, self.a, self.b)

    def __eq__(self, o):
        return isinstance(o, Ite) and self.c == o.c and self.a == o.a and self.b == o.b

    def __hash__(self):
        return hash(('ite', self.c, 0))


class Opq:
    """an object the analysis knows only by name (canonical access path)"""
    __slots__ = ('key', 'type', 'x')

    def __init__(self, key, type='', x=None):
        self.key = key
        self.type = type
        self.x = x

    def __eq__(self, o):
        return isinstance(o, Opq) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key


class Obj:
    __slots__ = ('rec', 'f', 'tag')

    def __init__(self, rec, f=None):
        self.rec = rec
        self.f = f if f is not None else {}
        self.tag = None

    def __repr__(self):
        return '%s{%s}' % (self.rec['q'].split('::')[-1] if self.rec else '?', ','.join(self.f))


class Vec:
    """vector, array, deque, span, initializer list, C array"""
    __slots__ = ('items', 'kind', 'et', 'sym', 'b', 'cap')

    def __init__(self, items, kind='vector', et=''):
        self.b = EPOCH[0]
        self.items = items
        self.kind = kind
        self.et = et
        self.sym = None
        self.cap = len(items)

    def __repr__(self):
        return '[%s]' % ', '.join(repr(c.v) for c in self.items[:12])


class MapV:
    __slots__ = ('d', 'kind', 'b', 'keys', 'ordered', 'order')

    def __init__(self, d=None, kind='map', ordered=False, keys=None):
        self.b = EPOCH[0]
        self.d = d if d is not None else {}
        self.kind = kind
        self.ordered = ordered      # iteration in key order (std::map, std::set)
        self.keys = keys if keys is not None else {}    # hashable key -> key object (append only)


class Tup:
    """pair / tuple"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return '<%s>' % ', '.join(repr(c.v) for c in self.items)


class Ptr:
    """raw or smart pointer to a cell"""
    __slots__ = ('c', 'vec', 'i')

    def __init__(self, c, vec=None, i=0):
        self.c = c
        self.vec = vec
        self.i = i

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.c is o.c and self.vec is o.vec and self.i == o.i

    def __hash__(self):
        return id(self.c)

    def __repr__(self):
        return '&%r' % (self.c.v if self.c is not None else self.i,)


class Func:
    __slots__ = ('f', 'caps', 'this', 'py', 'spec')

    def __init__(self, f, caps=None, this=None, py=None, spec=()):
        self.f = f
        self.spec = spec     # instantiations of the call operator of a generic lambda
        self.caps = caps or {}
        self.this = this
        self.py = py


class Mat:
    __slots__ = ('rows', 'cols', 'cells', 'arr', 'st', 'fr', 'fc', 'view', 'b')

    def __init__(self, rows, cols, cells, arr=False, st='double', fr=-1, fc=-1, view=False):
        self.b = EPOCH[0]
        self.rows = rows
        self.cols = cols
        self.cells = cells
        self.arr = arr
        self.st = st
        self.fr = fr
        self.fc = fc
        self.view = view

    def vals(self):
        return [[c.v for c in r] for r in self.cells]

    def __repr__(self):
        return '\n'.join('[' + ', '.join(repr(c.v) for c in r) + ']' for r in self.cells)


def mat(rows, cols, f, **kw):
    return Mat(rows, cols, [[Cell(f(i, j)) for j in range(cols)] for i in range(rows)], **kw)


# ------------------------------------------------------------ scalar algebra

def is_num(x):
    return isinstance(x, (int, RF, Cx)) and not isinstance(x, bool)


def to_rf(x):
    if isinstance(x, RF):
        return x
    if isinstance(x, (bool, int, Fraction)):
        return RF.const(int(x) if isinstance(x, bool) else x)
    raise Undecided('not a real number: %r' % (x,))


def to_cx(x):
    return x if isinstance(x, Cx) else Cx(to_rf(x), ZERO)


ITE_BUDGET = 64


def ite_size(x):
    return 1 + ite_size(x.a) + ite_size(x.b) if isinstance(x, Ite) else 1


def restrict(v, c, val):
    """value of v knowing that condition c is val"""
    if isinstance(v, Ite):
        if v.c == c:
            return restrict(v.a if val else v.b, c, val)
        if isinstance(c, Cond) and v.c == c_not(c):
            return restrict(v.b if val else v.a, c, val)
        a, b = restrict(v.a, c, val), restrict(v.b, c, val)
        return v if a is v.a and b is v.b else mk_ite(v.c, a, b)
    return v


def same(a, b):
    if a is b:
        return True
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, RF) and isinstance(b, RF):
        return a == b
    if isinstance(a, RF) and isinstance(b, int):
        return a.is_const() and a.value() == b
    if isinstance(b, RF) and isinstance(a, int):
        return b.is_const() and b.value() == a
    if type(a) is not type(b):
        return False
    if isinstance(a, Mat):
        return a.rows == b.rows and a.cols == b.cols and all(same(x.v, y.v) for r, s in zip(a.cells, b.cells) for x, y in zip(r, s))
    if isinstance(a, (Obj, Vec, Tup, MapV, Func, Top)):
        return False
    return a == b


def mk_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        return c if a else c_not(c)
    if isinstance(a, Cond) or isinstance(b, Cond):
        if isinstance(a, (Cond, bool)) and isinstance(b, (Cond, bool)):
            return c_or(c_and(c, a), c_and(c_not(c), b))
    return Ite(c, restrict(a, c, True), restrict(b, c, False))


def lift2(f, a, b):
    if isinstance(a, Top):
        return a
    if isinstance(b, Top):
        return b
    if isinstance(a, Ite) or isinstance(b, Ite):
        if ite_size(a) * ite_size(b) > ITE_BUDGET * 8:
            return Top('too many case distinctions')
        if isinstance(a, Ite):
            return mk_ite(a.c, lift2(f, a.a, restrict(b, a.c, True)), lift2(f, a.b, restrict(b, a.c, False)))
        return mk_ite(b.c, lift2(f, a, b.a), lift2(f, a, b.b))
    return f(a, b)


def lift1(f, a):
    if isinstance(a, Top):
        return a
    if isinstance(a, Ite):
        return mk_ite(a.c, lift1(f, a.a), lift1(f, a.b))
    return f(a)


def _cond2num(x):
    if isinstance(x, Cond):
        return Ite(x, 1, 0)
    return x


def _add(a, b):
    if type(a) is int and type(b) is int:
        return a + b
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = to_cx(a), to_cx(b)
        return Cx(a.re + b.re, a.im + b.im)
    return to_rf(a) + to_rf(b)


def _sub(a, b):
    if type(a) is int and type(b) is int:
        return a - b
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = to_cx(a), to_cx(b)
        return Cx(a.re - b.re, a.im - b.im)
    return to_rf(a) - to_rf(b)


def _mul(a, b):
    if type(a) is int and type(b) is int:
        return a * b
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = to_cx(a), to_cx(b)
        return Cx(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
    return to_rf(a) * to_rf(b)


def _div(a, b):
    try:
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = to_cx(a), to_cx(b)
            n = b.re * b.re + b.im * b.im
            return Cx((a.re * b.re + a.im * b.im) / n, (a.im * b.re - a.re * b.im) / n)
        return to_rf(a) / to_rf(b)
    except ZeroDivisionError:
        return Top('division by zero')


def num_add(a, b):
    return lift2(_add, _cond2num(a), _cond2num(b))


def num_sub(a, b):
    return lift2(_sub, _cond2num(a), _cond2num(b))


def num_mul(a, b):
    return lift2(_mul, _cond2num(a), _cond2num(b))


def num_div(a, b):
    return lift2(_div, _cond2num(a), _cond2num(b))


def num_neg(a):
    def f(x):
        if type(x) is int:
            return -x
        if isinstance(x, Cx):
            return Cx(-x.re, -x.im)
        return -to_rf(x)
    return lift1(f, _cond2num(a))


def num_conj(a):
    return lift1(lambda x: Cx(x.re, -x.im) if isinstance(x, Cx) else x, a)


def num_sqrt(a):
    def f(x):
        if isinstance(x, Cx):
            return Top('complex square root')
        return alg.sqrt(to_rf(x))
    return lift1(f, a)


def num_abs(a):
    def f(x):
        if type(x) is int:
            return abs(x)
        if isinstance(x, Cx):
            return alg.sqrt(x.re * x.re + x.im * x.im)
        return alg.absv(to_rf(x))
    return lift1(f, a)


def num_fn(name, *args):
    if any(isinstance(a, (Top, Ite)) for a in args):
        for k, a in enumerate(args):
            if isinstance(a, Top):
                return a
            if isinstance(a, Ite):
                l = list(args)
                l[k] = a.a
                t = num_fn(name, *l)
                l[k] = a.b
                return mk_ite(a.c, t, num_fn(name, *l))
    rs = []
    for a in args:
        if isinstance(a, Cx):
            rs += [a.re, a.im]
        else:
            rs.append(to_rf(a))
    return alg.fn(name, *rs)


def num_cmp(op, a, b):
    """comparison -> bool / Cond / Top"""
    def f(x, y):
        if isinstance(x, bool) or isinstance(y, bool):
            x, y = (int(x) if isinstance(x, bool) else x), (int(y) if isinstance(y, bool) else y)
        if type(x) is int and type(y) is int:
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
        if isinstance(x, Cx) or isinstance(y, Cx):
            x, y = to_cx(x), to_cx(y)
            c = c_and(f(x.re, y.re) if op == '==' else True, f(x.im, y.im) if op == '==' else True)
            if op == '==':
                return c
            if op == '!=':
                return c_not(c_and(num_cmp('==', x.re, y.re), num_cmp('==', x.im, y.im)))
            return Top('complex comparison')
        d = to_rf(x) - to_rf(y)
        if d.is_const():
            v = d.value()
            return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[op]
        if op == '<':
            return Cond('lt', d)
        if op == '<=':
            return Cond('le', d)
        if op == '>':
            return Cond('lt', -d)
        if op == '>=':
            return Cond('le', -d)
        k = alg.p_content(d.n)
        d = RF(alg.p_scale(d.n, Fraction(1) / Fraction(k)), d.d)
        e = Cond('eq', d)
        return e if op == '==' else Cond('not', e)
    return lift2(f, _cond2num(a), _cond2num(b))


def int_div(a, b):
    def f(x, y):
        if isinstance(x, RF) and x.is_const() and x.value().denominator == 1:
            x = int(x.value())
        if isinstance(y, RF) and y.is_const() and y.value().denominator == 1:
            y = int(y.value())
        if type(x) is int and type(y) is int:
            if y == 0:
                return Top('integer division by zero')
            q = abs(x) // abs(y)
            return q if (x >= 0) == (y >= 0) else -q
        return alg.fn('idiv', to_rf(x), to_rf(y))
    return lift2(f, a, b)


def int_mod(a, b):
    def f(x, y):
        if isinstance(x, RF) and x.is_const():
            x = int(x.value())
        if isinstance(y, RF) and y.is_const():
            y = int(y.value())
        if type(x) is int and type(y) is int:
            if y == 0:
                return Top('integer division by zero')
            r = abs(x) % abs(y)
            return r if x >= 0 else -r
        return alg.fn('imod', to_rf(x), to_rf(y))
    return lift2(f, a, b)


def copy_val(v):
    if isinstance(v, Mat):
        return Mat(v.rows, v.cols, [[Cell(c.v) for c in r] for r in v.cells], v.arr, v.st, v.fr, v.fc)
    if isinstance(v, Vec):
        if v.kind == 'span':
            return v
        r = Vec([Cell(copy_val(c.v)) for c in v.items], v.kind, v.et)
        r.sym = v.sym
        return r
    if isinstance(v, Obj):
        o = Obj(v.rec, {k: (c if k.startswith('&') else Cell(copy_val(c.v))) for k, c in v.f.items()})
        o.tag = v.tag
        return o
    if isinstance(v, Tup):
        return Tup([c if getattr(v, 'refs', False) else Cell(copy_val(c.v)) for c in v.items])
    if isinstance(v, MapV):
        return MapV({k: Cell(copy_val(c.v)) for k, c in v.d.items()}, v.kind, v.ordered, dict(v.keys))
    if isinstance(v, Ite):
        return Ite(v.c, copy_val(v.a), copy_val(v.b))
    return v


def key_of(v):
    """canonical printable key of a value (for uninterpreted terms)"""
    if isinstance(v, Opq):
        return v.key
    if isinstance(v, RF):
        if v.is_const():
            return str(v.value())
        return alg.to_str(v, 10 ** 6)
    if isinstance(v, Ptr):
        return '&' + key_of(v.c.v) if v.c is not None else 'it%d' % v.i
    if isinstance(v, Mat):
        return '[' + ';'.join(','.join(key_of(c.v) for c in r) for r in v.cells) + ']'
    if isinstance(v, Vec):
        return '{' + ','.join(key_of(c.v) for c in v.items) + '}'
    if isinstance(v, Tup):
        return '<' + ','.join(key_of(c.v) for c in v.items) + '>'
    if isinstance(v, Obj):
        return (v.rec['q'] if v.rec else '?') + '{' + ','.join(k + ':' + key_of(c.v) for k, c in sorted(v.f.items())) + '}'
    if isinstance(v, Ite):
        return '(%r?%s:%s)' % (v.c, key_of(v.a), key_of(v.b))
    if isinstance(v, Func):
        return 'fn%s' % (v.f['id'] if v.f else id(v.py))
    return repr(v)
