"""Abstract interpreter over the exported program.

State: cells holding abstract values (exact rational functions, uninterpreted
terms, matrices of such).  Branches whose condition is not decided by the
state are both analysed and their effects joined into conditional values; no
path is enumerated and nothing is executed.  Loops with constant trip count
are unrolled; other counting loops and range loops over unknown containers are
analysed for one generic iteration."""
import sys
import alg
from alg import RF, ZERO, ONE
from fractions import Fraction
from vals import *
from prog import Prog, tinfo, short
import eigen
from eigen import Comma, VW, Decomp, OutOfBounds, idx

sys.setrecursionlimit(60000)

NORMAL = None


class Split:
    __slots__ = ('outs',)

    def __init__(self, outs):
        self.outs = outs   # list of (guard, status, diff)


INT_S = {'int': 32, 'long': 64, 'short': 16, 'signed char': 8, 'char': 8, 'long long': 64}
INT_W = {'unsigned int': 32, 'unsigned long': 64, 'unsigned short': 16, 'unsigned char': 8, 'unsigned long long': 64}
INTS = {'int', 'long', 'short', 'char', 'signed char', 'long long', 'bool', 'unsigned int', 'unsigned long', 'unsigned short', 'unsigned char', 'unsigned long long'}
FLOATS = {'double', 'float', 'long double'}


class Frame:
    __slots__ = ('env', 'this', 'func')

    def __init__(self, this=None, func=None):
        self.env = {}
        self.this = this
        self.func = func


class Interp:
    def __init__(self, prog, maxsteps=3000000):
        self.p = prog
        self.trail = []
        self.depth = 0
        self.pc = []
        self.globals = {}
        self.hooks = {}
        self.opq_hooks = []
        self.nonnull = set()
        self.addr_vecs = []
        self.less_cache, self.less_fns = {}, {}
        self.frame = Frame()
        self.steps = 0
        self.maxsteps = maxsteps
        self.events = []
        self.binders = []
        self.nb = 0
        self.visited = set()
        self.unmodelled = {}
        self.assume_known = []
        self.calldepth = 0
        self.site = None
        self.fresh = 0
        self.throws = []
        self.asserts = []

    # ------------------------------------------------------------ utilities
    def undecided(self, why):
        raise Undecided(why)

    def loc(self, e=None):
        f = self.frame.func
        l = (e or {}).get('l') if isinstance(e, dict) else None
        return '%s:%s' % (f['file'] if f else '?', l or (f['line'] if f else '?'))

    def set(self, cell, v):
        if self.depth:
            self.trail.append((cell, 'v', cell.v))
        cell.v = v

    def setattr(self, o, a, v):
        if self.depth:
            self.trail.append((o, a, getattr(o, a)))
        setattr(o, a, v)

    def rv(self, x):
        while isinstance(x, Cell):
            x = x.v
        if x is DANGLING:
            raise OutOfBounds('use of a reference to an ' + x.why)
        return x

    def event(self, kind, *args, **kw):
        self.events.append((kind, args, tuple(self.pc), tuple(self.binders), kw))

    def fresh_cond(self, key):
        return Cond('op', key)

    def fresh_sym(self, pre):
        self.fresh += 1
        return alg.S('%s$%d' % (pre, self.fresh))

    def sym_of(self, ts, key):
        """symbolic value of type ts named key"""
        t = tinfo(ts)
        b = t.base
        if t.ptr:
            return Opq(key, b)
        if b == 'bool':
            return Cond('op', key)
        if b in INTS or b in FLOATS or b in self.enum_types():
            return alg.S(key)
        if b.startswith('std::complex<'):
            return Cx(alg.S(key + '.re'), alg.S(key + '.im'))
        et = eigen.etype(b)
        if et and et[0] >= 0 and et[1] >= 0:
            return eigen.new_mat(et[0], et[1], et[0], et[1], et[2], et[3], lambda i, j: self.sym_of(et[2], '%s(%d,%d)' % (key, i, j)))
        return Opq(key, b)

    def enum_types(self):
        s = getattr(self, '_enums', None)
        if s is None:
            s = self._enums = {self.p.t(e['t']) for e in self.p.enums}
        return s

    def as_cond(self, v):
        v = self.rv(v)
        if isinstance(v, (bool, Cond)):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, RF):
            return num_cmp('!=', v, 0)
        if isinstance(v, Ite):
            a, b = self.as_cond(v.a), self.as_cond(v.b)
            if isinstance(a, Top) or isinstance(b, Top):
                return a if isinstance(a, Top) else b
            return mk_ite(v.c, a, b) if isinstance(v.c, (bool, Cond)) else Top('?')
        if v is None:
            return False
        if isinstance(v, Ptr):
            return True
        if isinstance(v, Func):
            return True
        if isinstance(v, Opq):
            return True if self.is_nonnull(v) else Cond('op', 'nonnull ' + v.key)
        if isinstance(v, Top):
            return v
        if isinstance(v, Vec):
            return True
        raise Undecided('truth value of %s' % type(v).__name__)

    def decide(self, c):
        """True / False / None under the path assumptions"""
        if isinstance(c, bool):
            return c
        if isinstance(c, Top):
            return None
        known = self.pc + self.assume_known
        if c in known:
            return True
        n = c_not(c)
        if n in known:
            return False
        if c.kind == 'and':
            r = [self.decide(x) for x in c.a]
            if any(x is False for x in r):
                return False
            return True if all(x is True for x in r) else None
        if c.kind == 'or':
            r = [self.decide(x) for x in c.a]
            if any(x is True for x in r):
                return True
            return False if all(x is False for x in r) else None
        if c.kind == 'not':
            r = self.decide(c.a)
            return None if r is None else not r
        if c.kind in ('lt', 'le', 'eq'):
            for k in known:
                if k.kind in ('lt', 'le', 'eq'):
                    # c: x R 0 ; known: y R' 0 ; difference constant?
                    d = c.a - k.a
                    if d.is_const():
                        d = d.value()
                        if c.kind in ('lt', 'le') and k.kind in ('lt', 'le'):
                            # x = y + d, y <(=) 0
                            if d < 0 or (d == 0 and (c.kind == 'le' or k.kind == 'lt')):
                                return True
                        if k.kind == 'eq':
                            return {'lt': d < 0, 'le': d <= 0, 'eq': d == 0}[c.kind]
                        if c.kind == 'eq' and k.kind == 'lt' and d <= 0:
                            return False
                        if c.kind == 'eq' and k.kind == 'le' and d < 0:
                            return False
                    d = c.a + k.a
                    if d.is_const():
                        d = d.value()       # x = d - y,  y<(=)0  => x >(=) d
                        if c.kind in ('lt', 'le') and k.kind in ('lt', 'le'):
                            if d > 0 or (d == 0 and (c.kind == 'lt' or k.kind == 'lt')):
                                return False
                        if k.kind == 'eq':
                            return {'lt': d < 0, 'le': d <= 0, 'eq': d == 0}[c.kind]
                        if c.kind == 'eq' and ((d > 0) or (d == 0 and k.kind == 'lt')):
                            return False
                elif k.kind == 'and':
                    pass
            s = self.sign_known(c.a)
            if s is not None:
                if c.kind == 'lt':
                    if s in ('+', '0+'):
                        return False
                    if s == '-':
                        return True
                if c.kind == 'le':
                    if s == '+':
                        return False
                    if s in ('-', '0-'):
                        return True
                if c.kind == 'eq' and s in ('+', '-'):
                    return False
        return None

    def sign_known(self, r):
        """sign of a polynomial with one-signed coefficients in nonnegative/positive symbols"""
        if r.d:
            return None
        pos = neg = False
        strict = False
        for m, c in r.n.items():
            i = 0
            t = m
            st = True
            while t:
                e = t & alg.FULL
                if e:
                    n = alg.CTX.names[i]
                    if n in alg.POSITIVE:
                        pass
                    elif n in self.nonneg or i in alg.CTX.rel or e % 2 == 0:
                        st = False
                    else:
                        return None
                t >>= alg.BITS
                i += 1
            if c > 0:
                pos = True
            else:
                neg = True
            strict = strict or st
        if pos and neg:
            return None
        if pos:
            return '+' if strict else '0+'
        return '-' if strict else '0-'

    nonneg = frozenset()

    # ------------------------------------------------------------- branching
    def branch(self, guard, run):
        """run under a guard from the current state; returns outcome list and restores the state"""
        mark = len(self.trail)
        self.depth += 1
        EPOCH[0] += 1
        ep = EPOCH[0]
        if isinstance(guard, Cond):
            self.pc.append(guard)
        try:
            try:
                st = run()
            except ThrowEx as ex:
                st = ('thr', ex.why)
        finally:
            if isinstance(guard, Cond):
                self.pc.pop()
        diff = {}
        for o, a, old in self.trail[mark:]:
            if o.b >= ep:
                continue
            k = (id(o), a)
            if k not in diff:
                diff[k] = [o, a, old, None]
        for d in diff.values():
            d[3] = getattr(d[0], d[1])
        for o, a, old in reversed(self.trail[mark:]):
            if o.b < ep:
                setattr(o, a, old)
        del self.trail[mark:]
        self.depth -= 1
        if isinstance(st, Split):
            outs = []
            for g, s, dd in st.outs:
                m = {k: list(v) for k, v in diff.items()}
                for k, v in dd.items():
                    if k in m:
                        m[k][3] = v[3]
                    else:
                        m[k] = list(v)
                outs.append((c_and(guard, g), s, m))
            return outs
        return [(guard, st, diff)]

    def apply(self, diff):
        for o, a, old, new in diff.values():
            self.setattr(o, a, new)

    def join(self, outs):
        """combine outcomes; apply directly when a single status remains"""
        live = []
        for g, s, d in outs:
            if s is not None and s[0] == 'thr':
                self.throws.append((c_and(*self.pc, g) if isinstance(g, Cond) else c_and(*self.pc), s[1], self.loc()))
                continue
            if g is False:
                continue
            live.append((g, s, d))
        if not live:
            why = [s[1] for g, s, d in outs if s and s[0] == 'thr']
            raise ThrowEx(why[0] if why else 'all paths throw')
        groups = {}
        for g, s, d in live:
            groups.setdefault(s[0] if s else 'n', []).append((g, s, d))
        res = []
        for k, l in groups.items():
            g, s, d = l[-1]
            for g2, s2, d2 in reversed(l[:-1]):
                d = self.join_diff(g2, d2, d)
                if s and s[0] == 'ret':
                    s = ('ret', self.join_val(g2, s2[1], s[1]))
                g = c_or(g, g2)
            res.append((g, s, d))
        if len(res) == 1:
            self.apply(res[0][2])
            return res[0][1]
        return Split(res)

    def join_diff(self, g, a, b):
        r = {}
        for k in list(a) + [k for k in b if k not in a]:
            x = a.get(k)
            y = b.get(k)
            o, at, old = (x or y)[0], (x or y)[1], (x or y)[2]
            va = x[3] if x else old
            vb = y[3] if y else old
            r[k] = [o, at, old, self.join_val(g, va, vb) if at == 'v' else self.join_attr(g, o, at, va, vb)]
        return r

    def join_attr(self, g, o, at, va, vb):
        if va is vb or va == vb:
            return va
        if at == 'items' and isinstance(va, list) and isinstance(vb, list) and len(va) == len(vb):
            return [Cell(self.join_val(g, x.v, y.v)) if x is not y else x for x, y in zip(va, vb)]
        if at == 'd' and isinstance(va, dict) and isinstance(vb, dict) and set(va) == set(vb):
            return {k: Cell(self.join_val(g, va[k].v, vb[k].v)) if va[k] is not vb[k] else va[k] for k in va}
        if isinstance(va, (int, str)) or isinstance(vb, (int, str)):
            raise Undecided('join of differing shapes')
        if at == 'cells':
            raise Undecided('join of matrices resized in one branch')
        if at == 'items':
            raise Undecided('join of containers of different length')
        raise Undecided('join of attribute ' + at)

    def join_val(self, g, a, b):
        if isinstance(a, Cell) or isinstance(b, Cell):
            if a is b:
                return a
            return Cell(self.join_val(g, self.rv(a), self.rv(b)))
        if same(a, b):
            return a
        if isinstance(a, Mat) and isinstance(b, Mat) and (a.rows, a.cols) == (b.rows, b.cols):
            return Mat(a.rows, a.cols, [[Cell(self.join_val(g, x.v, y.v)) for x, y in zip(r, s)] for r, s in zip(a.cells, b.cells)], a.arr, a.st, a.fr, a.fc)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([Cell(self.join_val(g, x.v, y.v)) for x, y in zip(a.items, b.items)])
        if isinstance(a, Vec) and isinstance(b, Vec) and len(a.items) == len(b.items) and a.kind == b.kind:
            return Vec([Cell(self.join_val(g, x.v, y.v)) for x, y in zip(a.items, b.items)], a.kind, a.et)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.rec is b.rec and set(a.f) == set(b.f):
            return Obj(a.rec, {k: (a.f[k] if a.f[k] is b.f[k] else Cell(self.join_val(g, a.f[k].v, b.f[k].v))) for k in a.f})
        return mk_ite(g, a, b)

    def choose(self, c, fa, fb):
        """conditional evaluation of expressions"""
        d = self.decide(c)
        if d is True:
            return fa()
        if d is False:
            return fb()
        if isinstance(c, Top):
            raise Undecided('condition is unknown: ' + c.why)
        outs = self.branch(c, lambda: ('ret', fa())) + self.branch(c_not(c), lambda: ('ret', fb()))
        s = self.join(outs)
        if isinstance(s, Split):
            raise Undecided('control flow in conditional expression')
        return s[1]

    # ------------------------------------------------------------ statements
    def exec(self, s):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Undecided('analysis budget exhausted')
        k = s['k']
        return getattr(self, 's_' + k, self.s_other)(s)

    def s_other(self, s):
        raise Undecided('statement ' + s['k'] + ' ' + str(s.get('c', '')))

    def s_nop(self, s):
        return NORMAL

    def s_block(self, s):
        return self.exec_list(s['s'], 0)

    def exec_list(self, l, i):
        while i < len(l):
            st = self.exec(l[i])
            i += 1
            if st is NORMAL:
                continue
            if isinstance(st, Split):
                if i >= len(l):
                    return st
                return self.cont(st, lambda: self.exec_list(l, i))
            return st
        return NORMAL

    def cont(self, split, rest, on=('n',)):
        """continue the outcomes of `split` whose status is in `on` with rest()"""
        outs = []
        for g, s, d in split.outs:
            kind = s[0] if s else 'n'
            if kind in on:
                def run(d=d):
                    self.apply(d)
                    return rest()
                outs += self.branch(g, run)
            else:
                outs.append((g, s, d))
        return self.join(outs)

    def s_expr(self, s):
        self.ev(s['e'])
        return NORMAL

    def s_decl(self, s):
        skip = set()
        for v in s['v']:
            if v['d'] in skip:
                continue
            for b in v.get('bind', []):
                if 'hv' in b:
                    skip.add(b['hv'])
            self.declare(v)
        return NORMAL

    def declare(self, v):
        env = self.frame.env
        ts = self.p.t(v['t'])
        t = tinfo(ts)
        if v.get('static'):
            c = self.globals.get(v['d'])
            if c is None:
                val = self.init_value(v, ts, t)
                c = val if isinstance(val, Cell) else Cell(val)
                self.globals[v['d']] = c
            env[v['d']] = c
            return
        val = self.init_value(v, ts, t)
        if t.ref:
            env[v['d']] = val if isinstance(val, Cell) else Cell(val)
        else:
            env[v['d']] = Cell(self.own(self.rv(val), t))
        if 'bind' in v:
            self.bind(v['bind'], env[v['d']])

    def own(self, v, t):
        # a variable of plain matrix type owns its storage
        return v

    def init_value(self, v, ts, t):
        if 'init' in v:
            i = v['init']
            if t.ref and i and i['k'] == 'ilist' and len(i['e']) == 1:
                return self.ev(i['e'][0])
            if i and i['k'] == 'ilist' and t.base.startswith(('std::', 'Eigen::')):
                return self.ev_typed_ilist(i, t)
            return self.ev(i)
        return self.default(ts)

    def ev_typed_ilist(self, i, t):
        return self.ev(i)

    def bind(self, binds, cell):
        v = self.rv(cell)
        env = self.frame.env
        if isinstance(v, Ite):
            raise Undecided('structured binding of a conditional value')
        if isinstance(v, (Tup, Vec)):
            items = v.items
        elif isinstance(v, Obj):
            items = [v.f[f['n']] for f in v.rec['fields']]
        elif isinstance(v, Opq):
            items = [Cell(Opq('%s.%d' % (v.key, k))) for k in range(len(binds))]
            targs = tinfo(v.type).args
            if len(targs) >= len(binds):
                items = [Cell(self.sym_of(targs[k], '%s.%d' % (v.key, k))) for k in range(len(binds))]
        else:
            raise Undecided('structured binding of %s' % type(v).__name__)
        for b, c in zip(binds, items):
            env[b['d']] = c
            if 'hv' in b:
                env[b['hv']] = c

    def s_if(self, s):
        if 'init' in s:
            self.exec(s['init'])
        if 'var' in s:
            self.declare(s['var'])
        if s.get('cx') and 'cv' in s:
            c = s['cv']
        else:
            c = self.as_cond(self.ev(s['c']))
        d = self.decide(c)
        if d is True:
            return self.exec(s['a'])
        if d is False:
            return self.exec(s['b']) if s.get('b') else NORMAL
        # assertion idiom: the failing branch aborts; the rest assumes the condition
        if self.aborts(s['a']) and not s.get('b'):
            if isinstance(c, Cond):
                self.note_assume(c_not(c), s)
            return NORMAL
        if isinstance(c, Top):
            raise Undecided('branch on an unknown condition (%s) at %s' % (c.why, self.loc(s)))
        outs = self.branch(c, lambda: self.exec(s['a']))
        outs += self.branch(c_not(c), lambda: self.exec(s['b']) if s.get('b') else NORMAL)
        return self.join(outs)

    def note_assume(self, c, s=None):
        self.asserts.append((c, tuple(self.pc), self.loc(s)))

    def aborts(self, st):
        """statement certainly ends in throw/abort (syntactic)"""
        k = st['k']
        if k == 'block':
            return bool(st['s']) and any(self.aborts(x) for x in st['s'])
        if k == 'expr':
            e = st['e']
            if e['k'] == 'throw':
                return True
            if e['k'] == 'call' and e.get('fn') in ('abort', 'std::abort', 'lf::base::AssertionFailed', '__assert_fail', 'std::terminate', 'exit'):
                return True
        return False

    def s_ret(self, s):
        if not s.get('e'):
            return ('ret', None)
        f = self.frame.func
        v = self.ev(s['e'])
        if f is not None and tinfo(self.p.t(f['ret'])).ref:
            return ('ret', v if isinstance(v, Cell) else Cell(v))
        return ('ret', self.rv(v))

    def s_break(self, s):
        return ('brk',)

    def s_continue(self, s):
        return ('cnt',)

    def s_try(self, s):
        return self.exec(s['s'])

    def s_while(self, s):
        return self.loop(lambda: (self.declare(s['var']) if 'var' in s else None, self.as_cond(self.ev(s['c'])))[1], lambda: self.exec(s['s']), lambda: None, s)

    def s_do(self, s):
        if s['c']['k'] in ('bool', 'int') and not s['c']['v']:
            st = self.exec(s['s'])
            return self.unloop(st)
        st = self.exec(s['s'])
        if st is not NORMAL and not (isinstance(st, tuple) and st[0] == 'cnt'):
            if isinstance(st, tuple):
                return NORMAL if st[0] == 'brk' else st
            raise Undecided('control flow in do loop')
        return self.loop(lambda: self.as_cond(self.ev(s['c'])), lambda: self.exec(s['s']), lambda: None, s)

    def unloop(self, st):
        """break/continue leave the loop"""
        if isinstance(st, tuple) and st[0] in ('brk', 'cnt'):
            return NORMAL
        if isinstance(st, Split):
            return self.join([(g, None if (x and x[0] in ('brk', 'cnt')) else x, d) for g, x, d in st.outs])
        return st

    def s_for(self, s):
        if s.get('init'):
            self.exec(s['init'])
        if s.get('c'):
            c = self.as_cond(self.ev(s['c']))
            if self.decide(c) is None:
                return self.symbolic_for(s, c)
        return self.loop(lambda: self.as_cond(self.ev(s['c'])) if s.get('c') else True, lambda: self.exec(s['s']),
                         lambda: self.ev(s['inc']) if s.get('inc') else None, s)

    def loop(self, cond, body, inc, s, n=0):
        while True:
            n += 1
            if n > 20000:
                raise Undecided('loop does not terminate within the unrolling bound at ' + self.loc(s))
            c = cond()
            d = self.decide(c)
            if d is False:
                return NORMAL
            if d is None:
                if s['k'] in ('while', 'do'):
                    raise Undecided('loop condition is not constant at ' + self.loc(s))
                if isinstance(c, Top):
                    raise Undecided('loop condition unknown: ' + c.why)
                # trip count depends on the state: bounded case split
                if n > 64:
                    raise Undecided('loop bound is not constant at ' + self.loc(s))

                def more():
                    self.n_iter = n
                    st = body()
                    return self.loop_step(st, cond, body, inc, s, n)
                return self.join(self.branch(c_not(c), lambda: NORMAL) + self.branch(c, more))
            st = body()
            if st is NORMAL:
                inc()
                continue
            if isinstance(st, tuple):
                if st[0] == 'brk':
                    return NORMAL
                if st[0] == 'cnt':
                    inc()
                    continue
                return st
            return self.loop_step(st, cond, body, inc, s, n)

    def loop_step(self, st, cond, body, inc, s, n):
        if st is NORMAL or (isinstance(st, tuple) and st[0] == 'cnt'):
            inc()
            return self.loop(cond, body, inc, s, n)
        if isinstance(st, tuple):
            return NORMAL if st[0] == 'brk' else st
        # Split: merge normal and continue, keep others

        def rest():
            inc()
            return self.loop(cond, body, inc, s, n)
        outs = []
        go = [(g, None, d) for g, x, d in st.outs if x is None or x[0] == 'cnt']
        oth = [(g, None if x[0] == 'brk' else x, d) for g, x, d in st.outs if x is not None and x[0] != 'cnt']
        if go:
            g, _, d = go[-1]
            for g2, _, d2 in reversed(go[:-1]):
                d = self.join_diff(g2, d2, d)
                g = c_or(g, g2)

            def run():
                self.apply(d)
                return rest()
            outs += self.branch(g, run)
        outs += oth
        return self.join(outs)

    def s_switch(self, s):
        if 'init' in s:
            self.exec(s['init'])
        v = self.rv(self.ev(s['c']))
        body = s['s']['s'] if s['s']['k'] == 'block' else [s['s']]
        items = []
        for st in body:
            labels = []
            while st['k'] in ('case', 'default'):
                labels.append(st)
                st = st['s']
            items.append((labels, st))
        stmts = [x[1] for x in items]
        cases = []
        default = None
        for i, (labels, _) in enumerate(items):
            for l in labels:
                if l['k'] == 'default':
                    default = i
                else:
                    cases.append((l['v'], l.get('v2'), i))
        if isinstance(v, Top):
            raise Undecided('switch on an unknown value: ' + v.why)
        if isinstance(v, RF) and v.is_const():
            v = int(v.value())
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            for cv, c2, i in cases:
                if v == cv or (c2 is not None and cv <= v <= c2):
                    return self.unswitch(self.exec_list(stmts, i))
            if default is not None:
                return self.unswitch(self.exec_list(stmts, default))
            return NORMAL
        outs = []
        others = True
        for cv, c2, i in cases:
            g = num_cmp('==', v, cv)
            if c2 is not None:
                g = c_and(self.as_cond(num_cmp('>=', v, cv)), self.as_cond(num_cmp('<=', v, c2)))
            d = self.decide(g)
            if d is False:
                continue
            if d is True:
                return self.unswitch(self.exec_list(stmts, i))
            outs += self.branch(g, lambda: self.exec_list(stmts, i))
            others = c_and(others, c_not(g))
        if others is not False:
            outs += self.branch(others, lambda: self.exec_list(stmts, default) if default is not None else NORMAL)
        return self.join([(g, None if (x and x[0] == 'brk') else x, d) for g, x, d in outs])

    def unswitch(self, st):
        if isinstance(st, tuple) and st[0] == 'brk':
            return NORMAL
        if isinstance(st, Split):
            return self.join([(g, None if (x and x[0] == 'brk') else x, d) for g, x, d in st.outs])
        return st

    def s_case(self, s):
        return self.exec(s['s'])

    s_default = s_case

    # ------------------------------------------------------ range-for, generic loops
    def s_rfor(self, s):
        if 'init' in s:
            self.exec(s['init'])
        r = self.ev(s['r'])
        rng = self.rv(r)
        if isinstance(rng, Ite):
            return self.join([o for g, x in ((rng.c, rng.a), (c_not(rng.c), rng.b)) for o in self.branch(g, lambda: self.rfor_over(s, x))])
        return self.rfor_over(s, rng)

    def rfor_over(self, s, rng):
        v = s['v']
        t = tinfo(self.p.t(v['t']))
        items = self.iter_items(rng)
        if items is None:
            return self.generic_rfor(s, rng, v, t)
        items = list(items)

        def setvar(c):
            if t.ref:
                self.frame.env[v['d']] = c
            else:
                self.frame.env[v['d']] = Cell(copy_val(self.rv(c)))
            if 'bind' in v:
                self.bind(v['bind'], self.frame.env[v['d']])
        pos = [0]
        # position must follow joins: use a tracked cell
        pc = Cell(0)

        def cond():
            return pc.v < len(items)

        def body():
            setvar(items[pc.v])
            return self.exec(s['s'])

        def inc():
            self.set(pc, pc.v + 1)
        return self.loop(cond, body, inc, s)

    def iter_items(self, rng):
        if isinstance(rng, Vec):
            if rng.sym is not None:
                return None
            return rng.items
        if isinstance(rng, MapV):
            out = []
            for k in self.map_order(rng):
                kv = rng.keys.get(k, k)
                if rng.kind == 'set':
                    out.append(Cell(kv))
                else:
                    t = Tup([Cell(kv), rng.d[k]])
                    out.append(Cell(t))
            return out
        if isinstance(rng, Mat):
            return [c for r in rng.cells for c in r] if rng.cols == 1 or rng.rows == 1 else [rng.cells[i][j] for j in range(rng.cols) for i in range(rng.rows)]
        if isinstance(rng, Opq):
            h = self.opq_iter(rng)
            return h
        raise Undecided('range-for over %s' % type(rng).__name__)

    def opq_iter(self, o):
        return None

    def elem_type(self, o):
        t = tinfo(o.type)
        if t.args:
            return t.args[0]
        return ''

    def generic_rfor(self, s, rng, v, t):
        key = rng.key if isinstance(rng, Opq) else rng.sym
        self.nb += 1
        ix = '#%d' % len(self.binders)
        elem = self.sym_of(self.elem_type(rng) if isinstance(rng, Opq) else rng.et or t.base, '%s[%s]' % (key, ix))

        def body():
            self.frame.env[v['d']] = Cell(elem)
            if 'bind' in v:
                self.bind(v['bind'], self.frame.env[v['d']])
            return self.exec(s['s'])
        return self.generic_body(('in', key, ix), body, s)

    def symbolic_for(self, s, c):
        """for (i = a; i < N; ++i) with a symbolic bound: generic iteration"""
        # find the loop counter: the variable advanced by the increment
        inc = s.get('inc')
        if not inc or isinstance(c, Top):
            raise Undecided('for loop with unknown bound at ' + self.loc(s))
        mark = len(self.trail)
        self.depth += 1
        self.ev(inc)
        w = {}
        for o, a, old in self.trail[mark:]:
            w.setdefault((id(o), a), (o, a, old))
        new = [(o, a, old, getattr(o, a)) for o, a, old in w.values()]
        for o, a, old in reversed(self.trail[mark:]):
            setattr(o, a, old)
        del self.trail[mark:]
        self.depth -= 1
        if len(new) != 1 or new[0][1] != 'v':
            raise Undecided('for loop with a complicated increment at ' + self.loc(s))
        cell, _, old, nv = new[0]
        if isinstance(old, Ptr) and old.vec is not None and old.vec.sym is not None:
            raise Undecided('iterator loop over unknown container')
        step = num_sub(nv, old) if is_num(nv) and is_num(old) else None
        if step is None or not same(step, 1):
            raise Undecided('for loop with a step other than one at ' + self.loc(s))
        self.nb += 1
        ix = '#%d' % len(self.binders)
        isym = alg.S(ix)
        saved = cell.v
        self.set(cell, isym)
        c2 = self.as_cond(self.ev(s['c']))
        # c2 : i - N < 0 (or i - N + 1 <= 0, or i != N)
        hi = None
        if isinstance(c2, Cond):
            if c2.kind == 'lt':
                hi = isym - c2.a
            elif c2.kind == 'le':
                hi = isym - c2.a + ONE
            elif c2.kind == 'not' and c2.a.kind == 'eq':
                hi = isym - c2.a.a if '#' not in repr((isym - c2.a.a)) else isym + c2.a.a
        if hi is None or ix in hi.allnames():
            self.set(cell, saved)
            raise Undecided('for loop with an unrecognised bound at ' + self.loc(s))

        def body():
            self.set(cell, isym)
            return self.exec(s['s'])
        st = self.generic_body(('rng', key_of(saved), key_of(hi), ix), body, s, skip=cell)
        self.set(cell, hi)
        return st

    def generic_body(self, binder, body, s, skip=None):
        ix = binder[-1]
        self.binders.append(binder)
        ev0 = len(self.events)
        # pass 1: which cells are written
        outs = self.branch(Cond('op', 'iter' + ix), body)
        del self.events[ev0:]
        written = {}
        for g, st, d in outs:
            for k, v in d.items():
                written[k] = v
        acc = {}
        saved = []
        bad = None
        self.depth += 1
        mark = len(self.trail)
        for k, (o, a, old, new) in written.items():
            if a == 'v' and (is_num(old) or isinstance(old, (Ite, Cond, bool))):
                sym = self.fresh_sym('acc')
                if isinstance(old, (bool, Cond)):
                    acc[k] = (o, old, Cond('op', repr(sym)))
                else:
                    acc[k] = (o, old, Cx(sym, self.fresh_sym('acci')) if isinstance(old, Cx) else sym)
                o.v = acc[k][2]
            else:
                acc[k] = (o, old, None)
        outs = self.branch(Cond('op', 'iter' + ix), body)
        for k, (o, old, sym) in acc.items():
            if sym is not None:
                o.v = old
        del self.trail[mark:]
        self.depth -= 1
        self.binders.pop()
        norm = [(g, None, d) for g, st, d in outs if st is None or st[0] == 'cnt']
        rest = [(g, st, d) for g, st, d in outs if st is not None and st[0] not in ('cnt', 'thr')]
        final = {}
        it = Cond('op', 'iter' + ix)

        def strip(c):
            if isinstance(c, Cond) and c == it:
                return True
            if isinstance(c, Cond) and c.kind == 'and':
                return c_and(*[x for x in c.a if x != it])
            return c
        if norm:
            g, _, d = norm[-1]
            for g2, _, d2 in reversed(norm[:-1]):
                d = self.join_diff(strip(g2), d2, d)
            for k, (o, a, old, new) in d.items():
                if skip is not None and o is skip:
                    continue
                o2, init, sym = acc.get(k, (o, old, None))
                if sym is None:
                    final[k] = [o, a, init, self.generic_obj(binder, o, a, init, new)]
                    continue
                final[k] = [o, a, init, self.summarise(binder, init, sym, new)]
        if rest:
            ret = [(strip(g), st, d) for g, st, d in rest]
            names = Cond('op', 'exists %s: %s' % (binder, ' | '.join(sorted(repr(g) for g, st, d in ret))))
            outs2 = []
            for g, st, d in ret:
                if st[0] == 'brk':
                    if d:
                        raise Undecided('generic loop with break after writes at ' + self.loc(s))
                    outs2.append((names, None, {}))
                else:
                    outs2.append((Cond('op', 'exists %s: %r' % (binder, g)) if len(ret) > 1 else names, st, d))
            if any(o[1] is None for o in outs2):
                raise Undecided('generic loop with break at ' + self.loc(s))
            fin = final
            nn = Cond('not', names)
            return self.join(outs2 + [(nn, None, fin)])
        self.apply(final)
        return NORMAL

    def generic_obj(self, binder, o, a, init, new):
        if same(init, new) or (isinstance(init, list) and init == new):
            return init
        if a == 'items' and isinstance(init, list) and isinstance(new, list) and len(new) > len(init) and all(x is y for x, y in zip(init, new)):
            # container appended to in every iteration
            app = new[len(init):]
            self.event('append', o, [c.v for c in app], binder)
            o.sym = 'appended%d' % self.nb
            return init
        if a == 'v':
            if isinstance(new, Top):
                return new
            return Top('written in a loop of unknown length')
        raise Undecided('container modified in a loop of unknown length (%s)' % a)

    def summarise(self, binder, init, sym, new):
        """value after the loop from one generic iteration acc -> new"""
        if isinstance(new, Top):
            return new
        if isinstance(sym, Cond):
            if same(new, sym):
                return init
            return Top('flag set in a loop of unknown length')
        d = num_sub(new, sym)
        names = {n for n in self.names_in(sym)}
        if isinstance(d, Top):
            return d
        if not (self.names_in(d) & names):
            if isinstance(d, RF) and d.is_zero():
                return init
            return num_add(init, self.sum_over(binder, d))
        if not (self.names_in(new) & names):
            return lift1(lambda x: alg.fn('last:%s' % (binder,), to_rf(x)), new) if not isinstance(new, Cx) else Top('last value in loop')
        return Top('value carried through a loop of unknown length')

    def sum_over(self, binder, d):
        if isinstance(d, Cx):
            return Cx(self.sum_over(binder, d.re), self.sum_over(binder, d.im))
        if isinstance(d, Ite):
            g = self.sum_over(binder, d.a)
            # indicator functions as symbols
            one = alg.fn('ind:%r' % (d.c,))
            x = _ind(d, lambda c: alg.fn('ind:%r' % (c,)))
            return self.sum_over(binder, x)
        if type(d) is int:
            d = alg.C(d)
        return alg.fn('sum:%s' % (binder[:-1],), d.subs({}) if False else d)

    def names_in(self, v):
        if isinstance(v, RF):
            return v.allnames()
        if isinstance(v, Cx):
            return v.re.allnames() | v.im.allnames()
        if isinstance(v, Ite):
            return self.names_in(v.a) | self.names_in(v.b) | self.cnames(v.c)
        if isinstance(v, Cond):
            return self.cnames(v)
        return set()

    def cnames(self, c):
        if isinstance(c, bool):
            return set()
        if c.kind in ('lt', 'le', 'eq'):
            return c.a.allnames()
        if c.kind == 'not':
            return self.cnames(c.a)
        if c.kind in ('and', 'or'):
            r = set()
            for x in c.a:
                r |= self.cnames(x)
            return r
        return {c.a}

    # ----------------------------------------------------------- expressions
    def ev(self, e):
        self.steps += 1
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Undecided('expression %s %s at %s' % (k, e.get('c', ''), self.loc(e)))
        return m(e)

    def val(self, e):
        return self.rv(self.ev(e))

    def e_int(self, e):
        return e['v']

    def e_bool(self, e):
        return e['v']

    def e_float(self, e):
        s = e.get('s') or e['v']
        try:
            x = s.rstrip('fFlL').replace("'", '')
            if x.lower().startswith('0x'):
                raise ValueError
            return RF.const(Fraction(x if x[-1] != '.' else x + '0'))
        except Exception:
            return RF.const(Fraction(e['v']))

    def e_str(self, e):
        return Opq('"' + e['v'] + '"', 'string')

    def e_null(self, e):
        return None

    def e_this(self, e):
        return Ptr(self.frame.this)

    def e_zero(self, e):
        return self.default(self.p.t(e['t']), zero=True)

    def e_typeid(self, e):
        return Opq('typeid', 'typeid')

    def e_pdtor(self, e):
        return None

    def e_delete(self, e):
        return None

    def e_stdinit(self, e):
        v = self.ev(e['e'])
        return v

    def e_arrcopy(self, e):
        return copy_val(self.val(e['e']))

    def e_stmtexpr(self, e):
        l = e['s']['s']
        for s in l[:-1]:
            if self.exec(s) is not NORMAL:
                raise Undecided('control flow in statement expression')
        if l and l[-1]['k'] == 'expr':
            return self.ev(l[-1]['e'])
        if l:
            self.exec(l[-1])
        return None

    def e_ref(self, e):
        dk = e.get('dk')
        d = e['d']
        if dk in ('var', 'bind'):
            c = self.frame.env.get(d)
            if c is None:
                c = self.globals.get(d)
            if c is None:
                if 'v' in e:
                    return e['v']
                v = self.p.vars.get(d)
                if v:
                    return self.gvar(v)
                raise Undecided('variable %s has no binding at %s' % (e['n'], self.loc(e)))
            return c
        if dk == 'enumc':
            return e['v']
        if dk == 'func':
            f = self.p.funcs.get(e['f'])
            return Func(f)
        if dk == 'gvar':
            if 'v' in e:
                return e['v']
            v = self.p.vars.get(d)
            if v:
                return self.gvar(v)
        if 'v' in e:
            return e['v']
        raise Undecided('reference to %s (%s)' % (e['n'], dk))

    def gvar(self, v):
        c = self.globals.get(v['d'])
        if c is None:
            h = self.hooks.get('var:' + v['q'])
            if h is not None:
                c = Cell(h)
            elif v['q'] == 'std::numbers::pi' or v['q'].startswith('std::numbers::pi'):
                c = Cell(alg.S('pi'))
            elif 'init' in v:
                sf, self.frame = self.frame, Frame()
                try:
                    c = Cell(self.val(v['init']))
                finally:
                    self.frame = sf
            elif 'v' in v:
                c = Cell(v['v'])
            else:
                c = Cell(Opq('::' + v['q'], self.p.t(v['t'])))
            self.globals[v['d']] = c
        return c

    def e_member(self, e):
        if e.get('sv'):
            v = self.p.vars.get(e['d'])
            if v:
                return self.gvar(v)
        b = self.ev(e['b'])
        if e['n'] == '':
            return b
        return self.member(b, e['n'], e)

    def member(self, b, n, e):
        o = self.rv(b)
        if isinstance(o, Ptr):
            o = self.rv(self.deref(o))
        if isinstance(o, Obj):
            c = o.f.get(n)
            if c is None:
                c = o.f.get('&' + n)
            if c is None:
                raise Undecided('field %s of %s has no value' % (n, o.rec['q']))
            return c
        if isinstance(o, Tup):
            if n in ('first', 'second'):
                return o.items[0 if n == 'first' else 1]
        if isinstance(o, Ite):
            return self.choose(o.c, lambda: self.member(o.a, n, e), lambda: self.member(o.b, n, e))
        if isinstance(o, Opq):
            return Cell(self.sym_of(self.p.t(e['t']), '%s.%s' % (o.key, n)))
        if isinstance(o, Vec) and o.kind == 'array':
            return Cell(o)
        if isinstance(o, Top):
            raise Undecided('member of an unknown value: ' + o.why)
        raise Undecided('member %s of %s at %s' % (n, type(o).__name__, self.loc(e)))

    def deref(self, p):
        p = self.rv(p)
        if isinstance(p, Ptr):
            if p.c is not None:
                return p.c
            if p.vec is not None:
                if isinstance(p.i, int) and 0 <= p.i < len(p.vec.items):
                    return p.vec.items[p.i]
                raise OutOfBounds('dereference of position %s in a sequence of length %d' % (p.i, len(p.vec.items)))
            raise Undecided('dereference of a null pointer')
        if isinstance(p, Opq):
            t = tinfo(p.type)
            b = t.base
            if b.endswith('*'):
                b = b[:-1].strip()
            elif t.name in ('std::shared_ptr', 'std::unique_ptr', 'gsl::not_null') and t.args:
                b = t.args[0]
            return Cell(Opq(p.key if p.key.startswith('*') is False else p.key, tinfo(b).base))
        if isinstance(p, Ite):
            return self.choose(p.c, lambda: self.deref(p.a), lambda: self.deref(p.b))
        if p is None:
            raise ThrowEx('null pointer dereferenced')
        if isinstance(p, Vec):
            return p.items[0]
        raise Undecided('dereference of %s' % type(p).__name__)

    def e_index(self, e):
        a = self.val(e['a'])
        i = self.val(e['i'])
        return self.subscript(a, i, e)

    def subscript(self, a, i, e=None):
        a = self.rv(a)
        if isinstance(i, Ite):
            return self.choose(i.c, lambda: self.subscript(a, i.a, e), lambda: self.subscript(a, i.b, e))
        if isinstance(a, Ite):
            return self.choose(a.c, lambda: self.subscript(a.a, i, e), lambda: self.subscript(a.b, i, e))
        if isinstance(a, Ptr) and a.vec is not None:
            i = num_add(i, a.i)
            a = a.vec
        if isinstance(a, Vec):
            if a.sym is not None:
                return Cell(self.sym_of(a.et, '%s[%s]' % (a.sym, key_of(i))))
            if isinstance(i, Cond):
                return self.choose(i, lambda: self.subscript(a, 1), lambda: self.subscript(a, 0))
            if isinstance(i, RF) and not i.is_const():
                t = None
                return self.symbolic_subscript(a, i, e)
            i = eigen.idx(i)
            if not 0 <= i < len(a.items):
                raise OutOfBounds('index %d into a sequence of length %d' % (i, len(a.items)))
            return a.items[i]
        if isinstance(a, Opq):
            et = self.p.t(e['t']) if e else self.elem_type(a)
            return Cell(self.sym_of(et, '%s[%s]' % (a.key, key_of(i))))
        if isinstance(a, Mat):
            return eigen.coeff(a, i)
        if isinstance(a, MapV):
            return self.map_get(a, i, e)
        raise Undecided('subscript of %s' % type(a).__name__)

    def symbolic_subscript(self, a, i, e):
        if not a.items:
            raise OutOfBounds('index into an empty sequence')
        if all(same(c.v, a.items[0].v) for c in a.items):
            return a.items[0]
        # case distinction over the positions
        v = a.items[-1].v
        for k in range(len(a.items) - 2, -1, -1):
            v = self.join_val(num_cmp('==', i, k), a.items[k].v, v)
        return Cell(v)

    def map_get(self, m, k, e=None, create=True):
        kk = self.map_key(m, k)
        c = m.d.get(kk)
        if c is None:
            if not create:
                return None
            c = Cell(self.default(self.p.t(e['t']), zero=True) if e else None)
            nd = dict(m.d)
            nd[kk] = c
            self.setattr(m, 'd', nd)
        return c

    def map_key(self, m, k):
        """the hashable key of the entry equivalent to k (for class keys in ordered maps: by operator<)"""
        kk = self.mkey(k)
        if m.ordered and kk not in m.d:
            kv = self.rv(k)
            if isinstance(kv, Obj):
                for k2 in m.d:
                    o = m.keys.get(k2)
                    if isinstance(o, Obj) and not self.key_less(kv, o) and not self.key_less(o, kv):
                        return k2
        if kk not in m.keys:
            m.keys[kk] = copy_val(self.rv(k))
        return kk

    def key_less(self, a, b):
        if isinstance(a, Obj) and isinstance(b, Obj):
            k = self.mkey(a), self.mkey(b)
            if k in self.less_cache:
                return self.less_cache[k]
            g, mem = self.less_fn(a.rec)
            if mem is None:
                r = self.key_less(self.rv(self.call(g, [], Cell(a))), self.rv(self.call(g, [], Cell(b))))
            else:
                r = self.decide(self.as_cond(self.rv(self.call(g, [Cell(b)], Cell(a)) if mem else self.call(g, [Cell(a), Cell(b)]))))
            if r is None:
                raise Undecided('ordered map with a symbolic order')
            if all(type(x) in (int, bool, str) for q in k for x in q):
                self.less_cache[k] = r
            return r
        if isinstance(a, Tup) and isinstance(b, Tup):
            for x, y in zip(a.items, b.items):
                if self.key_less(self.rv(x), self.rv(y)):
                    return True
                if self.key_less(self.rv(y), self.rv(x)):
                    return False
            return False
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Undecided('ordered map with pointer keys')
        if isinstance(a, str) and isinstance(b, str):
            return a < b
        if isinstance(a, Opq) and isinstance(b, Opq):
            import stdmodel
            x, y = stdmodel.cstr(a), stdmodel.cstr(b)
            if x is None or y is None:
                raise Undecided('order of unknown keys')
            return x < y
        r = self.decide(self.as_cond(num_cmp('<', a, b)))
        if r is None:
            raise Undecided('ordered map with a symbolic order')
        return r

    def less_fn(self, rec):
        f = self.less_fns.get(rec['id'])
        if f is None:
            for g in self.p.funcs.values():
                if g['q'].split('::')[-1] == 'operator<' and len(g['params']) == 2 and 'body' in g:
                    if all(tinfo(self.p.t(x['t'])).base == self.p.t(rec['t']) for x in g['params']):
                        f = g, False
            if f is None:
                for m in rec['methods']:
                    g = self.p.funcs.get(m)
                    if g and g['q'].endswith('operator<') and 'body' in g:
                        f = g, True
                        break
            if f is None:      # built-in comparison after a conversion
                for m in rec['methods']:
                    g = self.p.funcs.get(m)
                    if g and '::operator ' in g['q'] and not g['params'] and 'body' in g:
                        f = g, None
                        break
            if f is None:
                raise Undecided('ordered map with keys of type ' + rec['q'])
            self.less_fns[rec['id']] = f
        return f

    def map_order(self, m):
        """hashable keys in iteration order"""
        ks = list(m.d)
        if not m.ordered or len(ks) < 2:
            return ks
        if all(type(k) is int for k in ks):
            return sorted(ks)
        import functools
        if getattr(m, 'order', None) and m.order[0] == ks:
            return m.order[1]
        m.order = ks, sorted(ks, key=functools.cmp_to_key(lambda x, y: -1 if self.key_less(m.keys.get(x, x), m.keys.get(y, y)) else 1 if self.key_less(m.keys.get(y, y), m.keys.get(x, x)) else 0))
        return m.order[1]

    def mkey(self, k):
        k = self.rv(k)
        if isinstance(k, RF) and k.is_const():
            return int(k.value()) if k.value().denominator == 1 else k.value()
        if isinstance(k, Tup):
            return tuple(self.mkey(c) for c in k.items)
        if isinstance(k, Obj):
            return (k.rec['id'],) + tuple(self.mkey(k.f[n]) for n in sorted(k.f))
        if isinstance(k, (int, bool, str, Opq, RF, Ptr)):
            return k
        raise Undecided('map key of type %s' % type(k).__name__)

    def e_un(self, e):
        op = e['op']
        if op == '&':
            x = self.addr_of_entry(e['e'])
            if x is not None:
                return x
            x = self.ev(e['e'])
            v = self.rv(x)
            if isinstance(v, Opq):
                return Opq(v.key, v.type + ' *')
            if isinstance(x, Func) or isinstance(v, Func):
                return v
            if isinstance(x, Cell):
                return Ptr(x)
            return Ptr(Cell(x))
        if op == '*':
            return self.deref(self.ev(e['e']))
        if op == '!':
            c = self.as_cond(self.ev(e['e']))
            return c if isinstance(c, Top) else c_not(c)
        if op in ('++', '--', '++post', '--post'):
            c = self.ev(e['e'])
            if not isinstance(c, Cell):
                raise Undecided('increment of a non-lvalue')
            old = c.v
            self.set(c, self.incr(old, 1 if op[0] == '+' else -1, self.p.t(e['t'])))
            return old if op.endswith('post') else c
        v = self.val(e['e'])
        if op == '-':
            if isinstance(v, bool):
                v = int(v)
            return self.wrap(num_neg(v), self.p.t(e['t']))
        if op == '+':
            return v
        if op == '~':
            if isinstance(v, int):
                return self.wrap(~v, self.p.t(e['t']))
            return alg.fn('bitnot', to_rf(v))
        if op == '__extension__':
            return v
        raise Undecided('unary ' + op)

    def addr_of_entry(self, e):
        """&m(i, j) for a plain matrix m: a pointer into its (column-major)
        storage; &v[k](i, j) for a vector of fixed-size matrices: a pointer
        into the concatenated storage of all the elements"""
        while e.get('k') == 'paren':
            e = e['e']
        if e.get('op') == '[]' and len(e.get('args', ())) == 2:
            v = self.val(e['args'][0])
            if isinstance(v, Vec):
                k = self.val(e['args'][1])
                if isinstance(k, int) and 0 <= k < len(v.items):
                    return Ptr(None, v, k)
            return None
        if not (e.get('op') == '()' and len(e.get('args', ())) >= 2):
            return None
        me = e['args'][0]
        m = self.val(me)
        if not isinstance(m, Mat) or m.view:
            return None
        ix = [idx(self.val(a)) for a in e['args'][1:]]
        rm = self.row_major(me, m)
        off = ix[0] if len(ix) == 1 else ix[0] * m.cols + ix[1] if rm else ix[0] + ix[1] * m.rows
        return self.storage(me, m, off)

    def row_major(self, me, m):
        """storage order of the plain matrix that the expression me denotes"""
        o = tinfo(tinfo(self.p.t(me['t'])).base if 't' in me else '').args
        if len(o) > 3 and o[3].strip().isdigit():
            return bool(int(o[3]) & 1)
        return m.rows == 1 and m.fr == 1 and m.cols > 1

    def storage(self, me, m, off=0):
        """pointer to the coefficients of m in the order in which they are stored; if m is a fixed-size
        element of a vector, the storage goes on with the next elements"""
        rm = self.row_major(me, m)
        seq = [m]
        while me.get('k') == 'paren':
            me = me['e']
        if me.get('op') == '[]' and m.fr >= 0 and m.fc >= 0:
            v = self.val(me['args'][0])
            if isinstance(v, Vec):
                k = idx(self.val(me['args'][1]))
                seq = [c.v for c in v.items]
                if not all(isinstance(x, Mat) for x in seq):
                    return None
                off += k * m.rows * m.cols
        if rm:
            cells = [x.cells[i][j] for x in seq for i in range(x.rows) for j in range(x.cols)]
        else:
            cells = [x.cells[i][j] for x in seq for j in range(x.cols) for i in range(x.rows)]
        return Ptr(None, Vec(cells, 'carray'), off)

    def incr(self, old, k, ts):
        if isinstance(old, Ptr):
            return Ptr(None, old.vec, old.i + k)
        return self.wrap(num_add(old, k), ts)

    def wrap(self, v, ts):
        if type(v) is int:
            w = INT_W.get(tinfo(ts).base)
            if w and not 0 <= v < (1 << w):
                return v & ((1 << w) - 1)
        return v

    def e_bin(self, e):
        op = e['op']
        if op == '&&':
            a = self.as_cond(self.ev(e['a']))
            d = self.decide(a)
            if d is False:
                return False
            if d is True:
                return self.as_cond(self.ev(e['b']))
            return self.logic(a, lambda: self.as_cond(self.ev(e['b'])), c_and, lambda: False)
        if op == '||':
            a = self.as_cond(self.ev(e['a']))
            d = self.decide(a)
            if d is True:
                return True
            if d is False:
                return self.as_cond(self.ev(e['b']))
            if isinstance(a, Top):
                return a
            return self.logic(c_not(a), lambda: self.as_cond(self.ev(e['b'])), lambda x, y: c_or(c_not(x), y), lambda: True)
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        if op == '=':
            r = self.val(e['b'])
            c = self.ev(e['a'])
            if not isinstance(c, Cell):
                raise Undecided('assignment to a non-lvalue')
            self.set(c, r)
            return c
        a = self.val(e['a'])
        b = self.val(e['b'])
        return self.binop(op, a, b, self.p.t(e['t']), self.p.t(e['a'].get('t', -1)))

    def logic(self, a, fb, comb, short_val):
        if isinstance(a, Top):
            return a
        mark = len(self.trail)
        outs = self.branch(a, lambda: ('ret', fb()))
        g, s, d = outs[0]
        if len(outs) == 1 and s[0] == 'ret' and not d:
            if isinstance(s[1], Top):
                return s[1]
            return comb(a, s[1])
        st = self.join(outs + [(c_not(a), ('ret', short_val()), {})])
        if isinstance(st, Split):
            raise Undecided('control flow in logical operator')
        return st[1]

    def binop(self, op, a, b, ts, ats=''):
        if isinstance(a, Comma):
            a = a.m
        if isinstance(b, Comma):
            b = b.m
        if isinstance(a, Mat) or isinstance(b, Mat):
            return eigen.binop(self, op, a, b)
        base = tinfo(ts).base
        if isinstance(a, Ptr) or isinstance(b, Ptr) or a is None or b is None:
            return self.ptr_op(op, a, b)
        if isinstance(a, (Opq, Vec, Obj, Tup, MapV, Func)) or isinstance(b, (Opq, Vec, Obj, Tup, MapV, Func)):
            return self.obj_op(op, a, b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if op == '+':
            return self.wrap(num_add(a, b), ts)
        if op == '-':
            return self.wrap(num_sub(a, b), ts)
        if op == '*':
            return self.wrap(num_mul(a, b), ts)
        if op == '/':
            if base in FLOATS or base.startswith('std::complex') or base not in INTS:
                return num_div(a, b)
            return int_div(a, b)
        if op == '%':
            return int_mod(a, b)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            if isinstance(a, Cond) and op in ('==', '!=') and isinstance(b, int) and b in (0, 1):
                r = a if b else c_not(a)
                return r if op == '==' else c_not(r)
            if isinstance(a, Cond) and isinstance(b, Cond) and op in ('==', '!='):
                r = c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
                return r if op == '==' else c_not(r)
            return num_cmp(op, a, b)
        if type(a) is int and type(b) is int:
            if op == '<<':
                return self.wrap(a << b, ts)
            if op == '>>':
                return a >> b
            if op == '&':
                return a & b
            if op == '|':
                return a | b
            if op == '^':
                return a ^ b
        if op in ('&', '|') and base == 'bool':
            return (c_and if op == '&' else c_or)(self.as_cond(a), self.as_cond(b))
        if op == '&' and isinstance(b, int) and b == 1:
            return int_mod(a, 2)
        if op in ('<<', '>>', '&', '|', '^'):
            return lift2(lambda x, y: alg.fn('op' + op, to_rf(x), to_rf(y)), a, b)
        raise Undecided('binary ' + op)

    def is_nonnull(self, o):
        return any(o.key == k or o.key.startswith(k + ':') for k in self.nonnull)

    def ptr_op(self, op, a, b):
        if isinstance(a, Ite):
            return mk_ite(a.c, self.ptr_op(op, a.a, b), self.ptr_op(op, a.b, b))
        if isinstance(b, Ite):
            return mk_ite(b.c, self.ptr_op(op, a, b.a), self.ptr_op(op, a, b.b))
        if op in ('==', '!='):
            if isinstance(a, Opq) or isinstance(b, Opq):
                if a is None or b is None:
                    o = b if a is None else a
                    c = True if self.is_nonnull(o) else Cond('op', 'nonnull ' + o.key)
                    return c_not(c) if op == '==' else c
                r = isinstance(a, Opq) and isinstance(b, Opq) and a.key == b.key
            elif a is None or b is None:
                r = a is b
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.c is not None or b.c is not None:
                    ca, cb = self.cell_of(a), self.cell_of(b)
                    r = ca is cb
                else:
                    r = a.vec is b.vec and a.i == b.i
            else:
                r = False
            return r if op == '==' else not r
        if isinstance(a, Ptr) and a.c is None:
            if op == '+':
                return Ptr(None, a.vec, a.i + eigen.idx(b))
            if op == '-':
                if isinstance(b, Ptr):
                    return a.i - b.i
                return Ptr(None, a.vec, a.i - eigen.idx(b))
            if op in ('<', '<=', '>', '>=') and isinstance(b, Ptr):
                return num_cmp(op, a.i, b.i)
        if op in ('<', '<=', '>', '>=') and isinstance(a, Ptr) and isinstance(b, Ptr):
            x, y = self.address(a), self.address(b)
            if x is None or y is None:
                self.own_sequences()
                x, y = self.address(a), self.address(b)
            if x is not None and y is not None:
                return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
        raise Undecided('pointer operation ' + op)

    def own_sequences(self):
        """register the sequences of objects stored in the current object"""
        t = self.frame.this
        t = t.v if isinstance(t, Cell) else t
        if isinstance(t, Obj):
            for cell in t.f.values():
                v = self.rv(cell)
                if isinstance(v, Vec) and v.items and isinstance(v.items[0].v, Obj) and not any(v is x for x in self.addr_vecs):
                    self.addr_vecs.append(v)

    def address(self, p):
        """position of an object in the registered sequences (disjoint blocks of memory), for pointer comparisons"""
        c = self.cell_of(p)
        for n, v in enumerate(self.addr_vecs):
            for i, x in enumerate(v.items):
                if x is c or isinstance(x.v, Obj) and x.v is getattr(c, 'v', None):
                    return (n, i)
        return None

    def cell_of(self, p):
        if p.c is not None:
            return p.c
        if p.vec is not None and 0 <= p.i < len(p.vec.items):
            return p.vec.items[p.i]
        return p

    def obj_op(self, op, a, b):
        if isinstance(a, Ite):
            return self.choose(a.c, lambda: self.obj_op(op, a.a, b), lambda: self.obj_op(op, a.b, b))
        if isinstance(b, Ite):
            return self.choose(b.c, lambda: self.obj_op(op, a, b.a), lambda: self.obj_op(op, a, b.b))
        if op in ('==', '!='):
            r = self.equal(a, b)
            if r is not None:
                return r if op == '==' else c_not(r)
        if op in ('<', '>', '<=', '>=') and isinstance(a, (Vec, Tup)) and isinstance(b, (Vec, Tup)):
            x = [c.v for c in a.items]
            y = [c.v for c in b.items]
            if all(type(v) is int for v in x + y):
                return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
        if op in ('+',) and isinstance(a, Opq) and isinstance(b, Opq):
            return Opq('(%s+%s)' % (a.key, b.key), a.type)
        if op in ('<<', '>>'):
            return a
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return Cond('op', '%s %s %s' % (key_of(a), op, key_of(b)))
        raise Undecided('operator %s on %s and %s' % (op, type(a).__name__, type(b).__name__))

    def equal(self, a, b):
        a, b = self.rv(a), self.rv(b)
        if isinstance(a, (Vec, Tup)) and isinstance(b, (Vec, Tup)):
            if len(a.items) != len(b.items):
                return False
            r = True
            for x, y in zip(a.items, b.items):
                c = self.equal(x, y)
                if c is None:
                    return None
                r = c_and(r, c)
            return r
        if isinstance(a, Opq) and isinstance(b, Opq):
            if a.key == b.key:
                return True
            import stdmodel
            if stdmodel.cstr(a) is not None and stdmodel.cstr(b) is not None:
                return False
            x, y = sorted((a.key, b.key))
            return Cond('op', '%s==%s' % (x, y))
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
            return c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
        if is_num(a) and is_num(b):
            return num_cmp('==', a, b)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.rec is b.rec:
            r = True
            for k in a.f:
                c = self.equal(a.f[k], b.f[k])
                if c is None:
                    return None
                r = c_and(r, c)
            return r
        return None

    def e_cassign(self, e):
        b = self.val(e['b'])
        c = self.ev(e['a'])
        if not isinstance(c, Cell):
            raise Undecided('compound assignment to a non-lvalue')
        op = e['op'][:-1]
        a = c.v
        ct = self.p.t(e['ct'])
        if isinstance(a, Ptr):
            self.set(c, Ptr(None, a.vec, a.i + (eigen.idx(b) if op == '+' else -eigen.idx(b))))
            return c
        if tinfo(ct).base in FLOATS:
            a = self.cast_scalar(a, '', 'double')
        r = self.binop(op, a, b, ct)
        if op == '/' and tinfo(ct).base in FLOATS:
            r = num_div(a, b)
        tt = self.p.t(e['t'])
        if tinfo(ct).base in FLOATS and tinfo(tt).base in INTS:
            r = self.cast_scalar(r, 'double', tinfo(tt).base)
        self.set(c, self.wrap(r, tt))
        return c

    def e_cond(self, e):
        c = self.as_cond(self.ev(e['c']))
        return self.choose(c, lambda: self.ev(e['a']), lambda: self.ev(e['b']))

    def e_ilist(self, e):
        ts = self.p.t(e['t'])
        t = tinfo(ts)
        rec = self.p.rec_by_type.get(t.base)
        if rec is not None and not t.base.startswith('std::'):
            if len(e['e']) == 1 and tinfo(self.p.t(e['e'][0]['t'])).base == t.base:
                return copy_val(self.rv(self.ev(e['e'][0])))
            o = Obj(rec)
            names = []
            vals = list(e['e'])
            for b in self.p.bases(rec):
                if vals:
                    bv = self.val(vals.pop(0))
                    if isinstance(bv, Obj):
                        o.f.update(bv.f)
            for f in rec['fields']:
                ft = tinfo(self.p.t(f['t']))
                if vals:
                    x = self.ev(vals.pop(0))
                    o.f[f['n']] = (x if isinstance(x, Cell) and ft.ref else Cell(self.rv(x)))
                elif 'init' in f:
                    o.f[f['n']] = Cell(self.val(f['init']))
                else:
                    o.f[f['n']] = Cell(self.default(self.p.t(f['t']), zero=True))
            return o
        items = [Cell(self.val(x)) for x in e['e']]
        if len(items) == 1 and isinstance(items[0].v, Vec) and tinfo(self.p.t(e['e'][0]['t'])).base == t.base:
            return items[0].v if t.name in ('gsl::span', 'std::span') else copy_val(items[0].v)
        if t.name == 'std::array' or t.name in ('gsl::span', 'std::span'):
            # brace elision: one inner list
            if len(items) == 1 and isinstance(items[0].v, Vec) and e['e'][0]['k'] in ('ilist', 'zero') and self.p.t(e['e'][0]['t']).endswith(']'):
                v = items[0].v
                return Vec(v.items, 'array', t.args[0])
            return Vec(items, 'array', t.args[0])
        if t.base.endswith(']'):
            n = int(t.base[t.base.rindex('[') + 1:-1] or len(items))
            et = t.base[:t.base.rindex('[')].strip()
            # multi-dimensional: outer dimension is the first bracket
            if t.base.count('[') > 1:
                i0 = t.base.index('[')
                n = int(t.base[i0 + 1:t.base.index(']')])
                et = t.base[:i0] + t.base[t.base.index(']') + 1:]
            while len(items) < n:
                items.append(Cell(self.val(e['fill']) if 'fill' in e else self.default(et, zero=True)))
            return Vec(items, 'carray', et)
        if len(items) == 1 and (t.base in INTS or t.base in FLOATS or t.ptr or t.base in self.enum_types()):
            return items[0].v
        if not items:
            return self.default(ts, zero=True)
        if len(items) == 1:
            return items[0].v
        if t.name in ('std::pair', 'std::tuple'):
            return Tup(items)
        return Vec(items, 'ilist')

    def cast_scalar(self, v, src, dst):
        d = tinfo(dst).base
        if d in FLOATS:
            def f(x):
                if isinstance(x, (int, bool)):
                    return alg.C(int(x))
                return x
            return lift1(f, _c2n(v))
        if d.startswith('std::complex'):
            return lift1(lambda x: x if isinstance(x, Cx) else Cx(to_rf(x), ZERO), _c2n(v))
        if d == 'bool':
            return self.as_cond(v)
        if d in INTS:
            def g(x):
                if isinstance(x, RF):
                    if x.is_const():
                        q = x.value()
                        n = abs(q.numerator) // q.denominator
                        return self.wrap(n if q >= 0 else -n, d)
                    if src in FLOATS or src == '':
                        if src in FLOATS:
                            return alg.fn('trunc', x)
                    return x
                if isinstance(x, bool):
                    return int(x)
                if type(x) is int and d in INT_S:
                    h = 1 << (INT_S[d] - 1)
                    return (x + h) % (2 * h) - h
                return self.wrap(x, d)
            return lift1(g, _c2n(v))
        return v

    def e_cast(self, e):
        ck = e['ck']
        x = self.ev(e['e'])
        ts = self.p.t(e['t'])
        src = tinfo(self.p.t(e['e'].get('t', -1))).base
        if ck in ('LValueToRValue', 'NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'UserDefinedConversion', 'ConstructorConversion',
                  'FunctionToPointerDecay', 'ArrayToPointerDecay', 'AtomicToNonAtomic'):
            return x
        if ck == 'Dynamic':
            return self.dyn_cast(x, ts, e)
        v = self.rv(x)
        if ck == 'ToVoid':
            return None
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'BooleanToSignedIntegral'):
            if isinstance(v, (Opq, Ptr)):
                return v
            return self.cast_scalar(v, src, ts)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            return self.as_cond(v)
        if ck == 'NullToPointer':
            return None
        if ck in ('FloatingRealToComplex',):
            return Cx(to_rf(v), ZERO)
        raise Undecided('cast ' + ck)

    def dyn_cast(self, x, ts, e):
        v = self.rv(x)
        t = tinfo(ts)
        target = t.base.rstrip('*').strip()
        if target.startswith('const '):
            target = target[6:]
        if v is None:
            return None
        if isinstance(v, Ite):
            return mk_ite(v.c, self.dyn_cast(v.a, ts, e), self.dyn_cast(v.b, ts, e))
        o = self.rv(self.deref(v)) if t.ptr else v
        if isinstance(o, Obj):
            ok = self.p.derives(o.rec, target) or any(self.p.t(o.rec['t']) == target for _ in [0]) or self.derives_type(o.rec, target)
            if t.ptr:
                return x if ok else None
            if ok:
                return x
            raise ThrowEx('bad_cast')
        if isinstance(o, Opq):
            return Opq('dyncast<%s>(%s)' % (target, o.key), ts)
        raise Undecided('dynamic_cast of %s' % type(o).__name__)

    def derives_type(self, rec, ts):
        if self.p.t(rec['t']) == ts:
            return True
        return any(self.derives_type(b, ts) for b in self.p.bases(rec))

    def e_lambda(self, e):
        caps = {}
        this = None
        for c in e['caps']:
            if c.get('this'):
                this = self.frame.this
                if c.get('star') == '1':
                    this = Cell(copy_val(self.rv(this)))
            elif 'd' in c:
                if 'init' in c:
                    x = self.ev(c['init'])
                    caps[c['d']] = x if (str(c['ref']) == '1' and isinstance(x, Cell)) else Cell(self.rv(x))
                else:
                    cell = self.frame.env.get(c['d'])
                    if cell is None:
                        cell = self.globals.get(c['d'])
                    if cell is None:
                        raise Undecided('captured variable %s unbound' % c['n'])
                    caps[c['d']] = cell if str(c['ref']) == '1' else Cell(copy_val(cell.v))
        return Func(self.p.funcs.get(e['f']) if 'f' in e else None, caps, this, None, e.get('spec', ()))

    def e_new(self, e):
        if 'init' in e:
            return Ptr(Cell(self.val(e['init'])))
        return Ptr(Cell(self.default(self.p.t(e['et']))))

    def e_throw(self, e):
        raise ThrowEx('throw at ' + self.loc(e))

    def e_unk(self, e):
        raise Undecided('expression of kind %s at %s' % (e.get('c'), self.loc(e)))

    # ------------------------------------------------------------- defaults
    def default(self, ts, zero=False):
        t = tinfo(ts)
        b = t.base
        if t.ptr:
            return None if zero else Top('uninitialised pointer')
        if b in INTS:
            return (False if b == 'bool' else 0) if zero else Top('uninitialised variable')
        if b in FLOATS:
            return ZERO if zero else Top('uninitialised variable')
        if b in self.enum_types():
            return 0 if zero else Top('uninitialised enumeration')
        et = eigen.etype(b)
        if et:
            return eigen.new_mat(max(et[0], 0), max(et[1], 0), *et)
        if t.name in ('std::vector', 'std::deque', 'std::list', 'std::initializer_list', 'gsl::span', 'std::span', 'nonstd::span'):
            return Vec([], t.name.split('::')[-1], t.args[0])
        if t.name == 'std::array':
            n = int(t.args[1])
            return Vec([Cell(self.default(t.args[0], zero)) for _ in range(n)], 'array', t.args[0])
        if b.endswith(']'):
            i0 = b.index('[')
            n = int(b[i0 + 1:b.index(']')] or 0)
            et2 = b[:i0] + b[b.index(']') + 1:]
            return Vec([Cell(self.default(et2.strip(), zero)) for _ in range(n)], 'carray', et2.strip())
        if t.name in ('std::map', 'std::unordered_map'):
            return MapV({}, 'map', t.name == 'std::map')
        if t.name in ('std::multimap', 'std::multiset'):
            return Vec([], t.name[5:])
        if t.name in ('std::set', 'std::unordered_set'):
            return MapV({}, 'set', t.name == 'std::set')
        if t.name in ('std::unique_ptr', 'std::shared_ptr', 'std::function', 'std::optional', 'std::nullptr_t'):
            return None
        if t.name in ('std::pair', 'std::tuple'):
            return Tup([Cell(self.default(a, True)) for a in t.args])
        if t.name in ('std::variant', 'boost::variant'):
            return self.default(t.args[0], True)
        if b == 'std::monostate':
            return Opq('monostate', b)
        if b.startswith('std::complex'):
            return Cx(ZERO, ZERO)
        if b.startswith('std::basic_string') or b.startswith('std::basic_'):
            return Opq('""', b)
        rec = self.p.rec_by_type.get(b)
        if rec is not None:
            return self.default_obj(rec)
        return Opq('default(%s)' % b, b)

    def default_obj(self, rec):
        for m in rec['methods']:
            f = self.p.funcs.get(m)
            if f and f.get('ctor') and not f['params'] and 'body' in f:
                return self.construct(rec, f, [])
        o = Obj(rec)
        self.init_fields(o, rec, set())
        return o

    def init_fields(self, o, rec, done):
        for b in self.p.bases(rec):
            if ('base', b['id']) not in done:
                self.init_fields(o, b, set())
        sf, self.frame = self.frame, Frame(Cell(o))
        try:
            for f in rec['fields']:
                if f['n'] in done:
                    continue
                if 'init' in f:
                    o.f[f['n']] = Cell(self.val(f['init']))
                else:
                    o.f[f['n']] = Cell(self.default(self.p.t(f['t'])))
        finally:
            self.frame = sf

    # ---------------------------------------------------------------- calls
    def construct(self, rec, f, args, cell=None):
        """args: list of Cells/values"""
        self.visited.add(f['id'])
        o = None
        if cell is None:
            o = Obj(rec)
            cell = Cell(o)
        else:
            o = cell.v
        fr = Frame(cell, f)
        self.bind_params(fr, f, args)
        sf, self.frame = self.frame, fr
        self.calldepth += 1
        if self.calldepth > 150:
            raise Undecided('call depth')
        try:
            inits = f.get('inits', [])
            deleg = [i for i in inits if i.get('deleg')]
            if deleg:
                e = deleg[0]['e']
                self.construct(rec, self.p.funcs[e['f']], [self.ev(a) for a in e['args']], cell)
            else:
                done = {i['m'] for i in inits if 'm' in i}
                bdone = set()
                for i in inits:
                    if 'base' in i:
                        br = self.p.rec_by_type.get(self.p.t(i['base']))
                        if br:
                            bdone.add(('base', br['id']))
                self.init_fields_pre(o, rec, done, bdone)
                for i in inits:
                    if 'm' in i:
                        fd = [x for x in rec['fields'] if x['n'] == i['m']]
                        ft = tinfo(self.p.t(fd[0]['t'])) if fd else tinfo('')
                        x = self.ev(i['e'])
                        o.f[i['m']] = x if (ft.ref and isinstance(x, Cell)) else Cell(self.rv(x))
                    elif 'base' in i:
                        e = i['e']
                        br = self.p.rec_by_type.get(self.p.t(i['base']))
                        if br is None:
                            continue
                        if e['k'] in ('ctor', 'inhctor'):
                            bf = self.p.funcs.get(e['f'])
                            bargs = [self.ev(a) for a in e.get('args', [])]
                            if e['k'] == 'inhctor':
                                bargs = args
                            if (e.get('cp') or e.get('mv')) and isinstance(self.rv(bargs[0]), Obj):
                                src = self.rv(bargs[0])
                                for n2 in self.all_fields(br):
                                    if n2 in src.f:
                                        o.f[n2] = Cell(copy_val(src.f[n2].v))
                                continue
                            if bf and 'body' in bf:
                                self.construct(br, bf, bargs, cell)
                            else:
                                self.init_fields(o, br, set())
                        else:
                            bv = self.val(e)
                            if isinstance(bv, Obj):
                                o.f.update(bv.f)
            st = self.exec(f['body']) if f.get('body') else NORMAL
        finally:
            self.frame = sf
            self.calldepth -= 1
        return cell.v

    def all_fields(self, rec):
        out = [f['n'] for f in rec['fields']]
        for b in self.p.bases(rec):
            out += self.all_fields(b)
        return out

    def init_fields_pre(self, o, rec, done, bdone):
        for b in self.p.bases(rec):
            if ('base', b['id']) not in bdone:
                self.init_fields(o, b, set())
        for f in rec['fields']:
            if f['n'] in done:
                continue
            if 'init' in f:
                o.f[f['n']] = Cell(self.val(f['init']))
            else:
                o.f[f['n']] = Cell(self.default(self.p.t(f['t'])))

    def bind_params(self, fr, f, args):
        ps = f['params']
        for p, a in zip(ps, args):
            t = tinfo(self.p.t(p['t']))
            if t.ref:
                fr.env[p['d']] = a if isinstance(a, Cell) else Cell(a)
            else:
                fr.env[p['d']] = Cell(self.rv(a))
        if len(args) < len(ps):
            raise Undecided('missing arguments for ' + f['q'])

    def call(self, f, args, this=None, caps=None):
        """call a function with a body"""
        self.visited.add(f['id'])
        fr = Frame(this, f)
        if caps:
            fr.env.update(caps)
        self.bind_params(fr, f, args)
        sf, self.frame = self.frame, fr
        self.calldepth += 1
        try:
            if self.calldepth > 150:
                raise Undecided('call depth exceeded in ' + f['q'])
            st = self.exec(f['body'])
            if isinstance(st, Split):
                rets = [(g, ('ret', None) if s is None else s, d) for g, s, d in st.outs]
                st = self.join(rets)
                if isinstance(st, Split):
                    raise Undecided('unjoined control flow at the end of ' + f['q'])
            if st is NORMAL:
                if self.p.t(f['ret']) == 'void' or f.get('ctor'):
                    return None
                raise ThrowEx('flows off the end of ' + f['q'])
            if st[0] == 'ret':
                v = st[1]
                return v
            raise Undecided('stray control flow')
        finally:
            self.frame = sf
            self.calldepth -= 1

    def call_value(self, fv, args):
        fv = self.rv(fv)
        if isinstance(fv, Func):
            if fv.py:
                return fv.py(self, args)
            if fv.spec:
                c = [self.p.funcs[s] for s in fv.spec if 'body' in self.p.funcs.get(s, ())]
                c = [g for g in c if len(g['params']) == len(args) and all(__import__("stdmodel").exact_arg(self, self.p.t(q['t']), self.rv(a)) for q, a in zip(g['params'], args))]
                if not c:
                    raise Undecided('no instantiation of a generic lambda fits the call')
                return self.call(c[0], args, fv.this, fv.caps)
            if fv.f is None or 'body' not in fv.f:
                raise Undecided('call of a function without body')
            return self.call(fv.f, args, fv.this, fv.caps)
        if isinstance(fv, Ite):
            return self.choose(fv.c, lambda: self.call_value(fv.a, args), lambda: self.call_value(fv.b, args))
        if isinstance(fv, Obj):
            h = self.hooks.get(fv.rec['q'] + '::operator()')
            if h is not None:
                r = h(self, None, Cell(fv), args)
                if r is not NotImplemented:
                    return r
            m = self.p.method(fv.rec, 'operator()', len(args))
            if m and 'body' in m:
                return self.call(m, args, Cell(fv))
        if isinstance(fv, Opq):
            return None
        raise Undecided('call of %s' % type(fv).__name__)

    def e_call(self, e):
        if 'f' not in e:
            fv = self.val(e['callee'])
            args = [self.ev(a) for a in e['args']]
            r = self.call_value(fv, args)
            if r is None and isinstance(fv, Opq):
                return self.sym_of(self.p.t(e['t']), '%s(%s)' % (fv.key, ','.join(key_of(self.rv(a)) for a in args)))
            return r
        f = self.p.funcs.get(e['f'])
        sq = f['sq'] if f else short(e['fn'])
        h = self.hooks.get(sq)
        if h is not None:
            args = [self.ev(a) for a in e['args']]
            r = h(self, e, None, args)
            if r is not NotImplemented:
                return r
            if f and 'body' in f:
                return self.call(f, args)
        import stdmodel
        if f and 'body' in f and sq not in stdmodel.FORCE:
            if f['sq'] == 'lf::base::AssertionFailed':
                raise ThrowEx('assertion fails at %s' % self.loc(e))
            return self.call(f, [self.ev(a) for a in e['args']])
        return stdmodel.call(self, e, f, sq)

    def e_mcall(self, e):
        if 'f' not in e:
            raise Undecided('call through a member pointer')
        f = self.p.funcs.get(e['f'])
        ob = self.ev(e['obj'])
        o = self.rv(ob)
        if e.get('arrow') and isinstance(o, Ptr):
            ob = self.deref(o)
            o = self.rv(ob)
        elif e.get('arrow') and isinstance(o, Opq):
            ob = self.deref(o)
            o = self.rv(ob)
        args = [self.ev(a) for a in e['args']]
        return self.invoke(e, f, ob, args)

    def invoke(self, e, f, ob, args):
        o = self.rv(ob)
        sq = f['sq'] if f else short(e['fn'])
        if isinstance(o, Ite):
            return self.choose(o.c, lambda: self.invoke(e, f, o.a, args), lambda: self.invoke(e, f, o.b, args))
        if isinstance(o, Ptr) and e.get('arrow'):
            return self.invoke(e, f, self.deref(o), args)
        h = self.hooks.get(sq)
        if h is not None:
            r = h(self, e, ob, args)
            if r is not NotImplemented:
                return r
        if isinstance(o, Top):
            raise Undecided('member call on an unknown value: ' + o.why)
        import stdmodel
        if isinstance(o, Obj):
            if e.get('virt'):
                m = self.p.dispatch(o.rec, e['f'])
                if m is not None:
                    f = self.p.funcs[m]
                    h = self.hooks.get(f['sq'])
                    if h is not None:
                        r = h(self, e, ob, args)
                        if r is not NotImplemented:
                            return r
            if f and 'body' in f:
                return self.call(f, args, ob if isinstance(ob, Cell) else Cell(ob))
            if f and f.get('dtor'):
                return None
            if f and f['sq'].endswith('operator=') and f.get('defaulted'):
                return self.assign_obj(ob, args[0])
            # inherited std function etc.
            raise Undecided('no body for %s' % (f['q'] if f else e['fn']))
        if isinstance(o, Opq):
            r = self.opq_call(e, f, o, args)
            if r is not NotImplemented:
                return r
        return stdmodel.method(self, e, f, sq, ob, o, args)

    def opq_call(self, e, f, o, args):
        """method of an opaque object: uninterpreted term"""
        name = (f['sq'] if f else short(e['fn'])).split('::')[-1]
        for h in self.opq_hooks:
            r = h(self, e, f, o, name, args)
            if r is not NotImplemented:
                return r
        import stdmodel
        r = stdmodel.opq_std(self, e, f, o, name, args)
        if r is not NotImplemented:
            return r
        # non-virtual method with a body on an opaque object of known class: inline with this = opaque
        if f and 'body' in f and not e.get('virt') and not f.get('priv0'):
            if f.get('inline_opq', True):
                return self.call(f, args, Cell(o))
        ts = self.p.t(e['t'])
        if f and not f.get('const') and not f.get('static'):
            self.event('call', o.key, name, tuple(key_of(self.rv(a)) for a in args), loc=self.loc(e))
        if ts == 'void':
            return None
        return Cell(self.sym_of(ts, '%s.%s(%s)' % (o.key, name, ','.join(key_of(self.rv(a)) for a in args))))

    def assign_obj(self, ob, src):
        v = copy_val(self.rv(src))
        if not isinstance(ob, Cell):
            raise Undecided('assignment to a temporary object')
        self.set(ob, v)
        return ob

    def e_opcall(self, e):
        op = e['op']
        f = self.p.funcs.get(e['f']) if 'f' in e else None
        sq = f['sq'] if f else ''
        h = self.hooks.get(sq)
        args = [self.ev(a) for a in e['args']]
        if h is not None:
            r = h(self, e, args[0], args[1:])
            if r is not NotImplemented:
                return r
        import stdmodel
        if f and 'body' in f and not isinstance(self.rv(args[0]), Opq):
            if e.get('mem'):
                o = self.rv(args[0])
                if isinstance(o, Func):
                    return self.call_value(o, args[1:])
                if isinstance(o, Ite):
                    return self.choose(o.c, lambda: self.call_op(f, e, o.a, args), lambda: self.call_op(f, e, o.b, args))
                if isinstance(o, Ptr):
                    raise Undecided('operator on pointer')
                return self.call_op(f, e, args[0], args)
            return self.call(f, args)
        return stdmodel.opcall(self, e, f, sq, op, args)

    def call_op(self, f, e, ob, args):
        o = self.rv(ob)
        if isinstance(o, Func):
            return self.call_value(o, args[1:])
        if isinstance(o, Obj) and f.get('virt'):
            m = self.p.dispatch(o.rec, f['id'])
            if m is not None:
                f = self.p.funcs[m]
        return self.call(f, args[1:], ob if isinstance(ob, Cell) else Cell(ob))

    def e_ctor(self, e):
        import stdmodel
        ts = self.p.t(e['t'])
        t = tinfo(ts)
        f = self.p.funcs.get(e['f'])
        h = self.hooks.get('ctor:' + (f['sq'] if f else ''))
        args = [self.ev(a) for a in e['args']]
        if h is not None:
            r = h(self, e, None, args)
            if r is not NotImplemented:
                return r
        if (e.get('cp') or e.get('mv')) and len(args) >= 1:
            v = self.rv(args[0])
            if not (f and 'body' in f and f.get('inits') is not None and not f.get('defaulted') and isinstance(v, Obj)):
                if isinstance(v, Comma):
                    v = v.m
                return self.move_val(v) if e.get('mv') else copy_val(v)
        rec = self.p.rec_by_type.get(t.base)
        if rec is not None:
            if f and 'body' in f:
                return self.construct(rec, f, args)
            if not args or e.get('df'):
                o = Obj(rec)
                self.init_fields(o, rec, set())
                return o
            if f and f.get('defaulted') and args:
                return copy_val(self.rv(args[0]))
        return stdmodel.ctor(self, e, f, t, args)

    def move_val(self, v):
        """value of an object move-constructed from v: the elements of sequences keep their identity"""
        if isinstance(v, Vec) and v.kind in ('vector', 'deque', 'list'):
            r = Vec(v.items, v.kind, v.et)
            r.sym = v.sym
            r.cap = max(v.cap, len(v.items))
            if v.sym is None and not self.pc and not self.binders:
                self.setattr(v, 'items', [])
                v.cap = 0
                return r
            return copy_val(v)
        if isinstance(v, Vec) and v.kind == 'array' and v.sym is None:
            return Vec([Cell(self.move_val(c.v)) for c in v.items], v.kind, v.et)
        if isinstance(v, Obj):
            o = Obj(v.rec, {k: (c if k.startswith('&') else Cell(self.move_val(c.v))) for k, c in v.f.items()})
            o.tag = v.tag
            return o
        if isinstance(v, Tup) and not getattr(v, 'refs', False):
            return Tup([Cell(self.move_val(c.v)) for c in v.items])
        return copy_val(v)

    def is_move(self, a):
        while a.get('k') in ('cast', 'paren', 'mat', 'temp') and isinstance(a.get('e'), dict):
            if a.get('xv'):
                return True
            a = a['e']
        return bool(a.get('xv')) or a.get('k') == 'call' and a.get('fn') == 'std::move'

    def e_inhctor(self, e):
        raise Undecided('inherited constructor')

    # ---------------------------------------------------------------- misc
    def minmax(self, kind, vs):
        r = vs[0]
        for v in vs[1:]:
            c = num_cmp('<', v, r) if kind == 'min' else num_cmp('<', r, v)
            if isinstance(c, Top):
                return c
            d = self.decide(c) if isinstance(c, Cond) else c
            r = v if d is True else r if d is False else mk_ite(c, v, r)
        return r

    def power(self, x, k):
        if isinstance(k, RF) and k.is_const() and k.value().denominator == 1:
            k = int(k.value())
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, int):
            if k >= 0:
                r = ONE
                for _ in range(k):
                    r = num_mul(r, x)
                return r
            return num_div(ONE, self.power(x, -k))
        if isinstance(k, RF) and k.is_const() and k.value().denominator == 2:
            return num_mul(self.power(num_sqrt(x), k.value().numerator), ONE)
        return num_fn('pow', x, k)


def _c2n(v):
    return Ite(v, 1, 0) if isinstance(v, Cond) else v


def _ind(d, f):
    if isinstance(d, Ite):
        a, b = _ind(d.a, f), _ind(d.b, f)
        i = f(d.c)
        return b + i * (a - b)
    return to_rf(d)
