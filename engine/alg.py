"""Exact algebra used as the abstract value domain: multivariate rational
functions with rational coefficients over named symbols and algebraic atoms
(square roots, absolute values, uninterpreted applications).

Polynomials are dicts {packed exponent vector: coefficient}; a variable owns
ten bits of the packed integer, so a product of monomials is one addition."""
from fractions import Fraction
from math import isqrt, gcd
import math, random, hashlib

BITS = 10
FULL = (1 << BITS) - 1


class Blowup(Exception):
    pass


LIMIT = 400000


def _co(c):
    if type(c) is int:
        return c
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class _Ctx:
    def __init__(self):
        self.names = []
        self.index = {}
        self.defs = {}      # var -> ('sqrt', RF/poly) | ('abs', poly) | ('fn', name, args)
        self.sqmask = 0
        self.rel = {}       # var -> poly equal to its square
        self.atoms = {}


CTX = _Ctx()


def reset():
    global CTX
    CTX.__init__()


def var_index(name):
    i = CTX.index.get(name)
    if i is None:
        i = len(CTX.names)
        CTX.names.append(name)
        CTX.index[name] = i
    return i


def p_const(c):
    return {0: c} if c else {}


def p_var(i):
    return {1 << (BITS * i): 1}


def p_add(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if s == 1 else -c if s == -1 else s * c)
        if v:
            r[m] = _co(v)
        else:
            r.pop(m, None)
    return r


def p_scale(a, k):
    if k == 1:
        return a
    if k == 0:
        return {}
    return {m: _co(c * k) for m, c in a.items()}


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and 0 in a:
        return p_scale(b, a[0])
    if len(b) == 1 and 0 in b:
        return p_scale(a, b[0])
    if len(a) * len(b) > 20 * LIMIT:
        raise Blowup('polynomial product too large')
    r = {}
    get = r.get
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            r[m] = get(m, 0) + c1 * c2
    r = {m: _co(c) for m, c in r.items() if c}
    if CTX.sqmask:
        r = p_reduce(r)
    if len(r) > LIMIT:
        raise Blowup('polynomial too large')
    return r


def p_reduce(r):
    sm = CTX.sqmask
    if not any(m & sm for m in r):
        return r
    out = {}
    todo = []
    for m, c in r.items():
        if m & sm:
            todo.append((m, c))
        else:
            out[m] = c
    for m, c in todo:
        extra = {0: c}
        mm = m
        for v, p in CTX.rel.items():
            e = (mm >> (BITS * v)) & FULL
            if e >= 2:
                mm -= (e - e % 2) << (BITS * v)
                for _ in range(e // 2):
                    extra = p_mul(extra, p)
        extra = p_mul(extra, {mm: 1}) if mm else extra
        out = p_add(out, extra)
    return out


def p_lead(a):
    m = max(a)
    return m, a[m]


def m_divides(d, m):
    """exponent vector d <= m, componentwise"""
    while d:
        if (d & FULL) > (m & FULL):
            return False
        d >>= BITS
        m >>= BITS
    return True


def p_divexact(a, b, limit=4000):
    """a / b if exact, else None"""
    if not a:
        return {}
    if len(b) == 1:
        (mb, cb), = b.items()
        r = {}
        for m, c in a.items():
            if not m_divides(mb, m):
                return None
            r[m - mb] = _co(Fraction(c) / cb)
        return r
    if len(a) > limit or len(b) > limit:
        return None
    lb, cb = p_lead(b)
    r = dict(a)
    q = {}
    n = 0
    while r:
        n += 1
        if n * len(b) > 400000:
            return None
        m = max(r)
        if not m_divides(lb, m):
            return None
        qm = m - lb
        qc = _co(Fraction(r[m]) / cb)
        q[qm] = qc
        for m2, c2 in b.items():
            mm = qm + m2
            v = r.get(mm, 0) - qc * c2
            if v:
                r[mm] = _co(v)
            else:
                r.pop(mm, None)
    return q


def p_content(a):
    """signed rational content so that a = c * primitive with positive lead"""
    num = 0
    den = 1
    for c in a.values():
        f = Fraction(c)
        num = gcd(num, f.numerator)
        den = den * f.denominator // gcd(den, f.denominator)
    c = Fraction(num, den)
    if p_lead(a)[1] < 0:
        c = -c
    return _co(c)


def p_sqrt(a):
    """polynomial square root of a primitive polynomial, or None"""
    if not a:
        return {}
    if len(a) > 3000:
        return None
    m, c = p_lead(a)
    t = m
    i = 0
    while t:
        if (t & FULL) & 1:
            return None
        t >>= BITS
    f = Fraction(c)
    if f < 0:
        return None
    n, d = isqrt(f.numerator), isqrt(f.denominator)
    if n * n != f.numerator or d * d != f.denominator:
        return None
    # halve exponents
    hm = 0
    t = m
    sh = 0
    while t:
        hm |= ((t & FULL) >> 1) << sh
        t >>= BITS
        sh += BITS
    q = {hm: _co(Fraction(n, d))}
    lead2 = 2 * Fraction(n, d)
    r = p_add(a, p_mul(q, q), -1)
    k = 0
    while r:
        k += 1
        if k > 200:
            return None
        m, c = p_lead(r)
        if not m_divides(hm, m):
            return None
        qm = m - hm
        if qm >= hm:
            return None
        qc = _co(Fraction(c) / lead2)
        t = {qm: qc}
        # r -= 2 q t + t^2
        r = p_add(r, p_add(p_scale(p_mul(q, t), 2), p_mul(t, t)), -1)
        q = p_add(q, t)
    return q


class RF:
    __slots__ = ('n', 'd', '_k')

    def __init__(self, n, d=()):
        self.n = n
        self.d = d if n else ()
        self._k = None

    # --- construction
    @staticmethod
    def const(c):
        c = _co(Fraction(c)) if not isinstance(c, int) else c
        return RF({0: c} if c else {})

    @staticmethod
    def sym(name):
        return RF(p_var(var_index(name)))

    def is_const(self):
        return not self.d and (not self.n or (len(self.n) == 1 and 0 in self.n))

    def value(self):
        return Fraction(self.n.get(0, 0))

    def is_zero(self):
        return not self.n

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.n.items()), self.d)
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        if not isinstance(o, RF):
            return NotImplemented
        if self.key() == o.key():
            return True
        return (self - o).is_zero()

    def denp(self):
        r = {0: 1}
        for k, e in self.d:
            p = dict(k)
            for _ in range(e):
                r = p_mul(r, p)
        return r

    def __add__(self, o, s=1):
        if not self.n:
            return o if s == 1 else -o
        if not o.n:
            return self
        if self.d == o.d:
            n = p_add(self.n, o.n, s)
            return RF(n, self.d)._cancel() if self.d else RF(n)
        da, db = dict(self.d), dict(o.d)
        l = dict(da)
        for k, e in db.items():
            l[k] = max(l.get(k, 0), e)
        fa, fb = self.n, o.n
        for k, e in l.items():
            p = dict(k)
            for _ in range(e - da.get(k, 0)):
                fa = p_mul(fa, p)
            for _ in range(e - db.get(k, 0)):
                fb = p_mul(fb, p)
        return RF(p_add(fa, fb, s), _dk(l))._cancel()

    def __sub__(self, o):
        return self.__add__(o, -1)

    def __neg__(self):
        return RF(p_scale(self.n, -1), self.d)

    def __mul__(self, o):
        if not self.n or not o.n:
            return ZERO
        if not self.d and not o.d:
            return RF(p_mul(self.n, o.n))
        a, b = self.n, o.n
        l = {}
        # cancel crosswise first
        da, db = dict(self.d), dict(o.d)
        for k in list(db):
            while db.get(k, 0):
                q = p_divexact(a, dict(k))
                if q is None:
                    break
                a = q
                db[k] -= 1
        for k in list(da):
            while da.get(k, 0):
                q = p_divexact(b, dict(k))
                if q is None:
                    break
                b = q
                da[k] -= 1
        for d in (da, db):
            for k, e in d.items():
                if e:
                    l[k] = l.get(k, 0) + e
        return RF(p_mul(a, b), _dk(l))

    def inv(self):
        if not self.n:
            raise ZeroDivisionError
        n = self.denp()
        c = p_content(self.n)
        P = p_scale(self.n, Fraction(1) / c)
        n = p_scale(n, Fraction(1) / c)
        l = {}
        if len(P) == 1:
            (m, _), = P.items()
            i = 0
            while m:
                e = m & FULL
                if e:
                    if i in CTX.rel:
                        # 1/s = s / s^2
                        r = RF(n)
                        base = RF(p_var(i)) / RF(CTX.rel[i])
                        rest = RF({0: 1})
                        for _ in range(e):
                            rest = rest * base
                        mm = P.copy()
                        (pm, pc), = P.items()
                        pm -= e << (BITS * i)
                        return r * rest * RF({pm: pc}).inv()
                    l[frozenset(p_var(i).items())] = e
                m >>= BITS
                i += 1
        else:
            l[frozenset(P.items())] = 1
        return RF(n, _dk(l))._cancel()

    def _cancel(self):
        if not self.d:
            return self
        n = self.n
        l = {}
        ch = False
        for k, e in self.d:
            p = dict(k)
            while e:
                q = p_divexact(n, p)
                if q is None:
                    break
                n = q
                e -= 1
                ch = True
            if e:
                l[k] = e
        return RF(n, _dk(l)) if ch else self

    def __truediv__(self, o):
        if o.is_const():
            if not o.n:
                raise ZeroDivisionError
            return RF(p_scale(self.n, Fraction(1) / o.value()), self.d)
        return self * o.inv()

    def pow(self, k):
        if k < 0:
            return self.inv().pow(-k)
        r = ONE
        b = self
        while k:
            if k & 1:
                r = r * b
            k >>= 1
            if k:
                b = b * b
        return r

    def vars(self):
        s = set()
        for p in [self.n] + [dict(k) for k, _ in self.d]:
            for m in p:
                i = 0
                while m:
                    if m & FULL:
                        s.add(i)
                    m >>= BITS
                    i += 1
        return s

    def allnames(self):
        """names of base symbols this depends on, through atoms"""
        out = set()
        todo = list(self.vars())
        seen = set()
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            d = CTX.defs.get(v)
            out.add(CTX.names[v])
            if d:
                if d[0] in ('sqrt', 'abs'):
                    todo += list(RF(d[1]).vars())
                else:
                    for a in d[2]:
                        if isinstance(a, RF):
                            todo += list(a.vars())
        return out

    def diff(self, name):
        """partial derivative w.r.t. a base symbol (chain rule through
        square roots and absolute values)"""
        i = var_index(name)
        tot = ZERO
        dn = p_diff(self.n, i)
        n = RF(self.n)
        num_d = RF(dn)
        for v in RF(self.n).vars():
            if v != i and v in CTX.defs:
                dv = atom_diff(v, name)
                if not dv.is_zero():
                    num_d = num_d + RF(p_diff(self.n, v)) * dv
        if not self.d:
            return num_d
        den = self.denp()
        D = RF(den)
        dd = RF(p_diff(den, i))
        for v in D.vars():
            if v != i and v in CTX.defs:
                dv = atom_diff(v, name)
                if not dv.is_zero():
                    dd = dd + RF(p_diff(den, v)) * dv
        return (num_d * D - n * dd) / (D * D)

    def subs(self, env):
        """env: {name: RF}; atoms are rebuilt"""
        cache = {}

        def atom(i):
            if i in cache:
                return cache[i]
            nm = CTX.names[i]
            if nm in env:
                r = env[nm]
            elif i in CTX.defs:
                d = CTX.defs[i]
                if d[0] == 'sqrt':
                    r = sqrt(RF(d[1]).subs(env))
                elif d[0] == 'abs':
                    r = absv(RF(d[1]).subs(env))
                else:
                    r = fn(d[1], *[a.subs(env) if isinstance(a, RF) else a for a in d[2]])
            else:
                r = RF(p_var(i))
            cache[i] = r
            return r

        def ev(p):
            t = ZERO
            pw = {}
            for m, c in p.items():
                term = RF.const(c)
                i = 0
                mm = m
                while mm:
                    e = mm & FULL
                    if e:
                        q = pw.get((i, e))
                        if q is None:
                            q = atom(i).pow(e)
                            pw[(i, e)] = q
                        term = term * q
                    mm >>= BITS
                    i += 1
                t = t + term
            return t
        r = ev(self.n)
        for k, e in self.d:
            r = r / ev(dict(k)).pow(e)
        return r

    def eval(self, env):
        """numeric value; env: callable name -> float"""
        def pe(p):
            t = 0.0
            for m, c in p.items():
                term = float(c)
                i = 0
                while m:
                    e = m & FULL
                    if e:
                        term *= atom_val(i, env) ** e
                    m >>= BITS
                    i += 1
                t += term
            return t
        r = pe(self.n)
        for k, e in self.d:
            r /= pe(dict(k)) ** e
        return r

    def __repr__(self):
        return to_str(self)


def p_diff(p, i):
    r = {}
    one = 1 << (BITS * i)
    for m, c in p.items():
        e = (m >> (BITS * i)) & FULL
        if e:
            r[m - one] = _co(c * e)
    return r


def atom_diff(v, name):
    d = CTX.defs[v]
    s = RF(p_var(v))
    if d[0] == 'sqrt':
        return RF(d[1]).diff(name) / (RF.const(2) * s)
    if d[0] == 'abs':
        q = RF(d[1])
        return q.diff(name) * s / q
    t = ZERO
    dep = False
    for a in d[2]:
        if isinstance(a, RF) and name in a.allnames():
            dep = True
    if not dep:
        return ZERO
    a = d[2][0] if d[2] else None
    if d[1] == 'exp':
        return s * a.diff(name)
    if d[1] == 'sin':
        return fn('cos', a) * a.diff(name)
    if d[1] == 'cos':
        return -fn('sin', a) * a.diff(name)
    for k, a in enumerate(d[2]):
        if isinstance(a, RF):
            da = a.diff(name)
            if not da.is_zero():
                t = t + fn('d%d:%s' % (k, d[1]), *d[2]) * da
    return t


def atom_val(i, env):
    d = CTX.defs.get(i)
    if d is None:
        return env(CTX.names[i])
    key = ('$atom', i)
    if d[0] == 'sqrt':
        x = RF(d[1]).eval(env)
        if x < 0:
            if x > -1e-9:
                return 0.0
            raise ArithmeticError('sqrt of a negative number')
        return math.sqrt(x)
    if d[0] == 'abs':
        return abs(RF(d[1]).eval(env))
    args = [a.eval(env) if isinstance(a, RF) else a for a in d[2]]
    f = {'exp': math.exp, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'log': math.log,
         'atan': math.atan, 'atan2': math.atan2, 'pow': math.pow, 'floor': math.floor,
         'acos': math.acos, 'asin': math.asin}.get(d[1])
    if f:
        return float(f(*args))
    h = hashlib.md5(repr((d[1], [round(a, 9) if isinstance(a, float) else str(a) for a in args])).encode()).digest()
    return int.from_bytes(h[:6], 'big') / 2 ** 48 * 2 + 0.25


def _dk(l):
    return tuple(sorted(((k, e) for k, e in l.items() if e), key=lambda t: (len(t[0]), hash(t[0]), t[1])))


ZERO = RF({})
ONE = RF({0: 1})


def C(x):
    return RF.const(x)


def S(name):
    return RF.sym(name)


def _atom(kind, key, d, rel=None):
    a = CTX.atoms.get((kind, key))
    if a is None:
        nm = '%s#%d' % (kind, len(CTX.names))
        i = var_index(nm)
        CTX.defs[i] = d
        if rel is not None:
            CTX.rel[i] = rel
            CTX.sqmask |= (FULL & ~1) << (BITS * i)
        a = i
        CTX.atoms[(kind, key)] = a
    return RF(p_var(a))


def _isq(n):
    """n = a^2 * b with b squarefree-ish (trial division)"""
    a = 1
    b = n
    f = 2
    while f * f <= b and f < 2000:
        while b % (f * f) == 0:
            b //= f * f
            a *= f
        f += 1
    r = isqrt(b)
    if r * r == b:
        a *= r
        b = 1
    return a, b


def sqrt(r):
    if r.is_zero():
        return ZERO
    n = r.n
    if r.d:
        D = r.denp()
        n = p_mul(n, D)
        den = absv(RF(D))
    else:
        den = ONE
    c = Fraction(p_content(n))
    if c < 0:
        P = p_scale(n, Fraction(-1) / c)
        if len(P) == 1 and 0 in P:
            return fn('nan')
        c = -c
        P = p_scale(n, Fraction(1) / c)
    else:
        P = p_scale(n, Fraction(1) / c)
    a, b = _isq(c.numerator * c.denominator)
    res = RF.const(Fraction(a, c.denominator)) / den
    if b != 1:
        res = res * _atom('sqrt', ('c', b), ('sqrt', {0: b}), {0: b})
    if not (len(P) == 1 and 0 in P):
        q = p_sqrt(P)
        if q is not None:
            res = res * absv(RF(q))
        else:
            res = res * _atom('sqrt', frozenset(P.items()), ('sqrt', P), P)
    return res


POSITIVE = set()   # names of symbols known positive


def absv(r):
    if r.is_zero():
        return ZERO
    if r.is_const():
        return RF.const(abs(r.value()))
    if r.d:
        return absv(RF(r.n)) / absv(RF(r.denp()))
    c = p_content(r.n)
    P = p_scale(r.n, Fraction(1) / Fraction(c))
    k = RF.const(abs(Fraction(c)))
    # nonnegative atoms / positive symbols pull out
    if len(P) == 1:
        (m, _), = P.items()
        i = 0
        ok = True
        t = m
        while t:
            e = t & FULL
            if e:
                if not (e % 2 == 0 or i in CTX.rel or CTX.names[i] in POSITIVE):
                    ok = False
            t >>= BITS
            i += 1
        if ok:
            return k * RF(P)
    vs = RF(P).vars()
    if all((CTX.names[v] in POSITIVE or v in CTX.rel) for v in vs) and all(c2 > 0 for c2 in P.values()):
        return k * RF(P)
    return k * _atom('abs', frozenset(P.items()), ('abs', P), p_mul(P, P))


def fn(name, *args):
    key = (name,) + tuple(a.key() if isinstance(a, RF) else a for a in args)
    return _atom('fn', key, ('fn', name, args))


def to_str(r, lim=400):
    def mono(m):
        out = []
        i = 0
        while m:
            e = m & FULL
            if e:
                out.append(aname(i) + ('^%d' % e if e > 1 else ''))
            m >>= BITS
            i += 1
        return '*'.join(out)

    def aname(i):
        d = CTX.defs.get(i)
        if d is None:
            return CTX.names[i]
        if d[0] in ('sqrt', 'abs'):
            return '%s(%s)' % (d[0], ps(d[1], 8))
        return '%s(%s)' % (d[1], ','.join(map(str, d[2])))

    def ps(p, k=12):
        if not p:
            return '0'
        out = []
        for j, (m, c) in enumerate(sorted(p.items(), reverse=True)):
            if j >= k:
                out.append('+...(%d terms)' % len(p))
                break
            s = mono(m)
            if not s:
                out.append('%+g' % c if not isinstance(c, Fraction) else '%+d/%d' % (c.numerator, c.denominator))
            elif c == 1:
                out.append('+' + s)
            elif c == -1:
                out.append('-' + s)
            else:
                out.append(('%+d' % c if isinstance(c, int) else '%+d/%d' % (c.numerator, c.denominator)) + '*' + s)
        t = ''.join(out)
        return t[1:] if t.startswith('+') else t
    s = ps(r.n)
    if r.d:
        s = '(%s)/(%s)' % (s, ' * '.join('(%s)%s' % (ps(dict(k)), '^%d' % e if e > 1 else '') for k, e in r.d))
    return s[:lim]
