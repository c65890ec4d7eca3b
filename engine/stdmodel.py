"""Models of the standard library (and a few third-party) functions used by the code base."""
import alg
from alg import RF, ZERO, ONE
from vals import *
from prog import tinfo, short
import eigen
from eigen import Comma, VW, Decomp, OutOfBounds, idx

# functions with visible bodies that must nevertheless be modelled
FORCE = set()

LOGGING = ('spdlog::', 'fmt::')


def uninterp(I, e, name, args):
    ts = I.p.t(e['t'])
    if ts == 'void':
        I.event('call', None, name, tuple(key_of(I.rv(a)) for a in args), loc=I.loc(e))
        return None
    vals = [I.rv(a) for a in args]
    if tinfo(ts).base in ('double', 'float') and all(is_num(v) for v in vals):
        return num_fn(name, *vals)
    I.unmodelled[name] = I.unmodelled.get(name, 0) + 1
    return I.sym_of(ts, '%s(%s)' % (name, ','.join(key_of(v) for v in vals)))


MATH1 = {'sqrt': num_sqrt, 'abs': num_abs, 'fabs': num_abs, 'conj': num_conj}


def call(I, e, f, sq):
    name = sq
    args = [I.ev(a) for a in e['args']]
    n = name.split('::')[-1]
    ta = []
    if f and f.get('ta'):
        ta = f['ta']
    if name.startswith('std::') or '::' not in name or name.startswith('__'):
        r = std_call(I, e, f, n, args, ta)
        if r is not NotImplemented:
            return r
    if name.startswith('Eigen::'):
        r = eigen_call(I, e, f, name, n, args, ta)
        if r is not NotImplemented:
            return r
    if name.startswith(LOGGING):
        return I.sym_of(I.p.t(e['t']), 'log') if I.p.t(e['t']) != 'void' else None
    if name == 'boost::apply_visitor' and len(args) in (2, 3):
        r = std_call(I, e, f, 'visit', args[:2], ta)
        if r is not NotImplemented:
            return r
    if name == 'boost::math::iround' or n == 'narrow':
        return I.rv(args[0])
    if f is not None:
        for p, a in zip(f['params'], args):
            t = tinfo(I.p.t(p['t']))
            if t.ref == '&' and not t.noref.startswith('const ') and isinstance(a, Cell):
                I.event('outarg', key_of(I.rv(a)) if isinstance(I.rv(a), Opq) else '', name, (), loc=I.loc(e))
                if not isinstance(I.rv(a), Opq):
                    raise Undecided('unmodelled function %s may modify its argument' % name)
    return uninterp(I, e, name, args)


def std_call(I, e, f, n, args, ta):
    if n in ('move', 'forward', 'as_const', 'addressof', 'cref', 'ref', 'move_if_noexcept', '__addressof') and len(args) == 1:
        if n in ('addressof', '__addressof'):
            return Ptr(args[0] if isinstance(args[0], Cell) else Cell(args[0]))
        return args[0]
    v = [I.rv(a) for a in args]
    if n in ('make_unique', 'make_shared'):
        ts = tinfo(I.p.t(e['t'])).args[0]
        return make(I, ts, args, e)
    if n in MATH1 and len(v) == 1:
        return MATH1[n](v[0])
    if n in ('exp', 'sin', 'cos', 'tan', 'log', 'atan', 'acos', 'asin', 'floor', 'ceil', 'log2', 'log10', 'tanh', 'sinh', 'cosh', 'cbrt', 'tgamma', 'lgamma') and len(v) == 1:
        x = v[0]
        if isinstance(x, RF) and x.is_zero():
            if n in ('sin', 'tan', 'atan', 'asin', 'floor', 'ceil', 'sinh', 'tanh'):
                return ZERO
            if n in ('exp', 'cos', 'cosh'):
                return ONE
        if isinstance(x, (RF, int)) and n in ('floor', 'ceil'):
            r = to_rf(x)
            if r.is_const():
                import math
                return alg.C(math.floor(r.value()) if n == 'floor' else math.ceil(r.value()))
        return num_fn(n, x)
    if n in ('round', 'lround', 'atan2', 'hypot', 'fmod', 'isnan', 'isfinite', 'isinf', 'signbit', 'copysign'):
        if n.startswith('is') or n == 'signbit':
            return I.fresh_cond(n + key_of(v[0]))
        if n == 'hypot':
            return num_sqrt(num_add(num_mul(v[0], v[0]), num_mul(v[1], v[1])))
        return num_fn(n, *v)
    if n == 'pow':
        return I.power(v[0], v[1])
    if n in ('min', 'max', 'lowest') and not args:
        t = tinfo(I.p.t(e['t'])).base
        I_ = {'unsigned int': (0, 2 ** 32 - 1), 'int': (-2 ** 31, 2 ** 31 - 1), 'unsigned long': (0, 2 ** 64 - 1), 'long': (-2 ** 63, 2 ** 63 - 1),
              'unsigned short': (0, 65535), 'short': (-32768, 32767), 'unsigned char': (0, 255), 'char': (-128, 127)}.get(t)
        if I_ is None:
            raise Undecided('numeric limit of ' + t)
        return I_[n == 'max']
    if n in ('min', 'max'):
        if len(v) == 1 and isinstance(v[0], Vec):
            return I.minmax(n, [c.v for c in v[0].items])
        return I.minmax(n, v[:2])
    if n == 'clamp':
        return I.minmax('max', [I.minmax('min', [v[0], v[2]]), v[1]])
    if n in ('real', 'imag'):
        if isinstance(v[0], Cx):
            return v[0].re if n == 'real' else v[0].im
        return v[0] if n == 'real' else ZERO
    if n == 'norm' and isinstance(v[0], Cx):
        return v[0].re * v[0].re + v[0].im * v[0].im
    if n in ('swap', 'iter_swap'):
        a, b = args
        if n == 'iter_swap':
            a, b = I.deref(a), I.deref(b)
        va, vb = I.rv(a), I.rv(b)
        if isinstance(va, Mat):
            x, y = copy_val(va), copy_val(vb)
            eigen.assign(I, va, y)
            eigen.assign(I, vb, x)
            return None
        I.set(a, vb)
        I.set(b, va)
        return None
    if n == 'exchange':
        old = I.rv(args[0])
        I.set(args[0], v[1])
        return old
    if n == 'get':
        return std_get(I, v[0], ta, e, args[0])
    if n in ('holds_alternative',):
        raise Undecided('variant')
    if n in ('tie', 'forward_as_tuple'):
        t = Tup([a if isinstance(a, Cell) else Cell(a) for a in args])
        return t
    if n in ('make_pair', 'make_tuple'):
        return Tup([Cell(copy_val(x)) for x in v])
    if n in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend', 'size', 'ssize', 'data', 'empty'):
        return method(I, e, None, 'std::' + n, args[0], v[0], [])
    if n in ('next', 'prev', 'advance'):
        k = idx(v[1]) if len(v) > 1 else 1
        if n == 'prev':
            k = -k
        p = v[0]
        if isinstance(p, Ptr) and p.vec is not None:
            r = Ptr(None, p.vec, p.i + k)
            if n == 'advance':
                I.set(args[0], r)
                return None
            return r
        raise Undecided('iterator arithmetic')
    if n == 'distance':
        if isinstance(v[0], Ptr) and isinstance(v[1], Ptr):
            return v[1].i - v[0].i
    r = algorithm(I, e, n, args, v)
    if r is not NotImplemented:
        return r
    if n in ('__builtin_expect', '__builtin_unreachable'):
        return v[0] if v else None
    if n in ('abort', 'terminate', 'exit', '__assert_fail', '__throw_bad_function_call'):
        raise ThrowEx(n)
    if n in ('to_string',):
        return Opq('str(%s)' % key_of(v[0]), 'string')
    if n in ('getline',):
        return I.sym_of('bool', 'getline')
    if n == 'invoke':
        return I.call_value(v[0], args[1:])
    if n in ('setw', 'setprecision', 'endl', 'left', 'right', 'fixed', 'scientific', 'boolalpha', 'flush', 'setfill', 'hex', 'dec'):
        return Opq('manip', 'manip')
    if n == 'visit' and len(args) == 2:
        if isinstance(v[1], Ite):
            return I.choose(v[1].c, lambda: I.call_value(args[0], [Cell(v[1].a)]), lambda: I.call_value(args[0], [Cell(v[1].b)]))
        if isinstance(v[1], (Obj, Opq)):
            return I.call_value(args[0], [args[1]])
    if n == 'holds_alternative' and isinstance(v[0], (Obj, Opq)):
        return exact_arg(I, I.p.t(ta[0]) if isinstance(ta[0], int) else ta[0], v[0])
    if n in ('static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast'):
        if n == 'dynamic_pointer_cast':
            t = tinfo(I.p.t(e['t'])).args[0]
            return I.dyn_cast(args[0], t + ' *', e)
        return v[0]
    return NotImplemented


def std_get(I, v, ta, e, cell):
    if isinstance(v, Ite):
        return I.choose(v.c, lambda: std_get(I, v.a, ta, e, None), lambda: std_get(I, v.b, ta, e, None))
    k = ta[0] if ta else 0
    if isinstance(v, (Tup, Vec)):
        if isinstance(k, int):
            return v.items[k]
    if isinstance(v, Opq):
        return Cell(I.sym_of(I.p.t(e['t']), '%s.%s' % (v.key, k)))
    if isinstance(k, str):
        return cell if cell is not None else v
    raise Undecided('std::get on %s' % type(v).__name__)


def rng(I, b, e):
    b, e = I.rv(b), I.rv(e)
    if isinstance(b, Ptr) and isinstance(e, Ptr) and b.vec is not None and b.vec is e.vec:
        if b.vec.sym is not None:
            raise Undecided('algorithm over an unknown container')
        return b.vec, b.i, e.i
    raise Undecided('iterator range')


def algorithm(I, e, n, args, v):
    if n in ('erase_if', 'erase') and len(v) == 2 and isinstance(v[0], Vec) and v[0].sym is None:
        keep = []
        for c in v[0].items:
            q = I.decide(I.as_cond(I.call_value(v[1], [c])) if n == 'erase_if' else I.equal(c, v[1]))
            if q is None:
                raise Undecided('erase with a symbolic predicate')
            if not q:
                keep.append(c)
        k = len(v[0].items) - len(keep)
        I.setattr(v[0], 'items', keep)
        return k
    if n in ('for_each', 'all_of', 'any_of', 'none_of', 'count_if', 'find_if', 'transform', 'accumulate', 'fill', 'copy', 'find', 'count', 'reverse', 'sort', 'iota',
             'equal', 'max_element', 'min_element', 'swap_ranges', 'inner_product', 'unique', 'find_if_not', 'remove_if', 'remove', 'partition', 'stable_partition', 'upper_bound', 'stable_sort', 'rotate', 'fill_n', 'is_sorted', 'copy_n', 'generate', 'reduce', 'lower_bound', 'binary_search'):
        # std::ranges style: first argument is a container
        if v and isinstance(v[0], (Vec, Mat)):
            V = v[0] if isinstance(v[0], Vec) else Vec([c for r in v[0].cells for c in r], 'span')
            v = [Ptr(None, V, 0), Ptr(None, V, len(V.items))] + v[1:]
            args = [v[0], v[1]] + list(args[1:])
        if n == 'fill_n' or n == 'copy_n':
            p = v[0]
            if isinstance(p, Ptr) and p.vec is not None:
                k = idx(v[1])
                if n == 'fill_n':
                    for c in p.vec.items[p.i:p.i + k]:
                        I.set(c, copy_val(v[2]))
                    return Ptr(None, p.vec, p.i + k)
                d = v[2]
                for j in range(k):
                    I.set(d.vec.items[d.i + j], copy_val(p.vec.items[p.i + j].v))
                return Ptr(None, d.vec, d.i + k)
            raise Undecided(n)
        V, i, j = rng(I, v[0], v[1])
        items = V.items[i:j]
        if n == 'for_each':
            for c in items:
                I.call_value(v[2], [c])
            return v[2]
        if n in ('all_of', 'any_of', 'none_of', 'count_if', 'find_if', 'find_if_not'):
            cs = [I.as_cond(I.call_value(v[2], [c])) for c in items]
            for c in cs:
                if isinstance(c, Top):
                    return c
            if n == 'all_of':
                return c_and(*cs)
            if n == 'any_of':
                return c_or(*cs)
            if n == 'none_of':
                return c_not(c_or(*cs))
            if n == 'count_if':
                t = 0
                for c in cs:
                    t = num_add(t, mk_ite(c, 1, 0))
                return t
            r = Ptr(None, V, j)
            for k in range(len(cs) - 1, -1, -1):
                c = cs[k] if n == 'find_if' else c_not(cs[k])
                d = I.decide(c)
                if d is True:
                    r = Ptr(None, V, i + k)
                elif d is None:
                    r = mk_ite(c, Ptr(None, V, i + k), r)
            return r
        if n in ('find', 'count'):
            r = Ptr(None, V, j)
            cnt = 0
            for k in range(len(items) - 1, -1, -1):
                c = I.equal(items[k], v[2])
                if c is None:
                    c = I.as_cond(I.binop('==', I.rv(items[k]), v[2], 'bool'))
                d = I.decide(c)
                if d is True:
                    r = Ptr(None, V, i + k)
                elif d is None:
                    r = mk_ite(c, Ptr(None, V, i + k), r)
                cnt = num_add(cnt, mk_ite(c, 1, 0))
            return r if n == 'find' else cnt
        if n == 'transform':
            if len(v) == 4:
                res = [copy_val(I.rv(I.call_value(v[3], [c]))) for c in items]
                d = v[2]
            else:
                W, wi = v[2].vec, v[2].i
                res = [copy_val(I.rv(I.call_value(v[4], [c, W.items[wi + k]]))) for k, c in enumerate(items)]
                d = v[3]
            return store(I, d, res)
        if n in ('accumulate', 'reduce'):
            t = v[2] if len(v) > 2 else 0
            for c in items:
                t = I.rv(I.call_value(v[3], [Cell(t), c])) if len(v) > 3 else num_add(t, c.v) if not isinstance(t, Mat) else eigen.binop(I, '+', t, c.v)
            return t
        if n == 'inner_product':
            t = v[3]
            W, wi = v[2].vec, v[2].i
            for k, c in enumerate(items):
                t = num_add(t, num_mul(c.v, W.items[wi + k].v))
            return t
        if n == 'fill':
            for c in items:
                I.set(c, copy_val(v[2]))
            return None
        if n == 'iota':
            k = v[2]
            for c in items:
                I.set(c, k)
                k = num_add(k, 1)
            return None
        if n == 'copy':
            return store(I, v[2], [copy_val(c.v) for c in items])
        if n == 'reverse':
            vals = [c.v for c in items]
            for c, x in zip(items, reversed(vals)):
                I.set(c, x)
            return None
        if n in ('remove_if', 'remove', 'partition', 'stable_partition', 'unique'):
            keep, drop = [], []
            for k, c in enumerate(items):
                if n == 'unique':
                    q = I.equal(c, keep[-1]) if keep else False
                else:
                    q = I.as_cond(I.call_value(v[2], [c])) if n != 'remove' else I.equal(c, v[2])
                q = I.decide(q)
                if q is None:
                    raise Undecided('%s with a symbolic predicate' % n)
                if n.endswith('partition'):
                    q = not q
                (drop if q else keep).append(c)
            vals = [c.v for c in keep + drop]
            for c, x in zip(items, vals):
                I.set(c, x)
            return Ptr(None, V, i + len(keep))
        if n == 'rotate':
            vals = [c.v for c in items]
            m = v[1].i - i if len(v) > 2 else 0
            raise Undecided('rotate')
        if n in ('lower_bound', 'upper_bound', 'binary_search'):
            vals = [c.v for c in items]
            if all(type(x) is int for x in vals) and len(v) == 3 and type(v[2]) is int:
                import bisect
                k = bisect.bisect_left(vals, v[2]) if n != 'upper_bound' else bisect.bisect_right(vals, v[2])
                if n == 'binary_search':
                    return k < len(vals) and vals[k] == v[2]
                return Ptr(None, V, i + k)
            raise Undecided(n)
        if n in ('sort', 'stable_sort'):
            vals = [c.v for c in items]
            if len(v) == 3:
                import functools

                def cmp_(a, b):
                    q = I.decide(I.as_cond(I.call_value(v[2], [Cell(a), Cell(b)])))
                    if q is None:
                        raise Undecided('sort with a symbolic order')
                    if q:
                        return -1
                    return 1 if I.decide(I.as_cond(I.call_value(v[2], [Cell(b), Cell(a)]))) else 0
                for c, x in zip(items, sorted(vals, key=functools.cmp_to_key(cmp_))):
                    I.set(c, x)
                return None
            if all(type(x) is int for x in vals) and len(v) == 2:
                for c, x in zip(items, sorted(vals)):
                    I.set(c, x)
                return None
            raise Undecided('sort of symbolic values')
        if n == 'equal':
            W, wi = v[2].vec, v[2].i
            r = True
            for k, c in enumerate(items):
                q = I.equal(c, W.items[wi + k])
                r = c_and(r, q)
            return r
        if n in ('max_element', 'min_element'):
            vals = [c.v for c in items]
            if all(type(x) is int for x in vals) and len(v) == 2:
                b = (max if n[:3] == 'max' else min)(vals)
                return Ptr(None, V, i + vals.index(b))
            best = 0
            r = Ptr(None, V, i)
            cur = vals[0] if vals else None
            for k in range(1, len(vals)):
                if len(v) > 2:
                    c = I.as_cond(I.call_value(v[2], [Cell(cur), items[k]] if n[:3] == 'max' else [items[k], Cell(cur)]))
                else:
                    c = num_cmp('<', cur, vals[k]) if n[:3] == 'max' else num_cmp('<', vals[k], cur)
                r = mk_ite(c, Ptr(None, V, i + k), r)
                cur = mk_ite(c, vals[k], cur)
            return r
        raise Undecided('algorithm ' + n)
    return NotImplemented


def store(I, d, vals):
    if isinstance(d, Ptr) and d.vec is not None:
        for k, x in enumerate(vals):
            if d.i + k >= len(d.vec.items):
                raise OutOfBounds('write past the end of a sequence of length %d' % len(d.vec.items))
            I.set(d.vec.items[d.i + k], x)
        return Ptr(None, d.vec, d.i + len(vals))
    if isinstance(d, Tup):   # back_inserter
        V = I.rv(d.items[0])
        realloc(I, V, len(V.items) + len(vals))
        I.setattr(V, 'items', V.items + [Cell(x) for x in vals])
        return d
    raise Undecided('output iterator')


def eigen_call(I, e, f, name, n, args, ta):
    v = [I.rv(a) for a in args]
    if n in ('Zero', 'Ones', 'Constant', 'Identity', 'LinSpaced', 'UnitX', 'UnitY', 'UnitZ', 'Unit', 'Random'):
        ts = None
        q = f['q'] if f else e['fn']
        # class the static function is called on
        i = q.find('<')
        inner = q[i + 1:q.rfind('>')] if i > 0 else ''
        ts = inner
        if eigen.etype(ts) is None:
            t = tinfo(I.p.t(e['t']))
            for a in t.args:
                if eigen.etype(tinfo(a).base):
                    ts = tinfo(a).base
        return eigen.static_fn(I, n, ts, v)
    if n == 'kroneckerProduct':
        a, b = eigen.need_mat(v[0]), eigen.need_mat(v[1])
        return mat(a.rows * b.rows, a.cols * b.cols, lambda i, j: num_mul(a.cells[i // b.rows][j // b.cols].v, b.cells[i % b.rows][j % b.cols].v), st=eigen.join_st(a.st, b.st))
    if n in ('sqrt', 'abs', 'exp', 'sin', 'cos', 'log', 'pow', 'conj', 'abs2', 'square', 'min', 'max', 'round', 'floor') and v and isinstance(v[0], Mat):
        return eigen.method(I, 'conjugate' if n == 'conj' else n, v[0], v[1:], e)
    return NotImplemented


def make(I, ts, args, e):
    """make_unique<T>(args)"""
    t = tinfo(ts)
    rec = I.p.rec_by_type.get(t.base)
    if rec is not None:
        return Ptr(Cell(construct_best(I, rec, args)))
    et = eigen.etype(t.base)
    if et:
        return Ptr(Cell(eigen.construct(I, t.base, [I.rv(a) for a in args])))
    if t.name in ('std::vector', 'std::deque'):
        return Ptr(Cell(ctor(I, e, None, t, args)))
    return Ptr(Cell(Opq('new %s(%s)' % (t.base, ','.join(key_of(I.rv(a)) for a in args)), t.base)))


def construct_best(I, rec, args):
    h = I.hooks.get('ctor:' + short(rec['q']) + '::' + rec['q'].split('::')[-1])
    cands = []
    for m in rec['methods']:
        f = I.p.funcs.get(m)
        if f and f.get('ctor') and len(f['params']) == len(args) and not f.get('deleted'):
            cands.append(f)
    if not cands and args:
        for m in rec['methods']:
            f = I.p.funcs.get(m)
            if f and f.get('ctor') and 'body' in f and len(f['params']) > len(args) and all('def' in q for q in f['params'][len(args):]) \
                    and all(compatible(I, I.p.t(q['t']), I.rv(a)) for q, a in zip(f['params'], args)):
                return construct_best(I, rec, list(args) + [Cell(I.val(q['def'])) for q in f['params'][len(args):]])
    if len(args) == 1 and isinstance(I.rv(args[0]), Obj) and I.rv(args[0]).rec is rec:
        own = [I.p.funcs[m] for m in rec['methods'] if m in I.p.funcs and I.p.funcs[m].get('ctor') and len(I.p.funcs[m]['params']) == 1
               and tinfo(I.p.t(I.p.funcs[m]['params'][0]['t'])).base == I.p.t(rec['t'])]
        if any(f.get('deleted') for f in own):      # not copyable, so it is moved
            mv = [f for f in own if not f.get('deleted')]
            if mv and 'body' in mv[0] and not mv[0].get('defaulted'):
                return I.construct(rec, mv[0], args)
            return I.move_val(I.rv(args[0]))
        return copy_val(I.rv(args[0]))
    if len(args) == 1:
        cands = [f for f in cands if tinfo(I.p.t(f['params'][0]['t'])).base != I.p.t(rec['t'])]
    body = [f for f in cands if 'body' in f]
    if len(body) > 1:
        body = [f for f in body if all(compatible(I, I.p.t(p['t']), I.rv(a)) for p, a in zip(f['params'], args))] or body
    if body:
        f = body[0]
        args = [implicit(I, I.p.t(p['t']), a) for p, a in zip(f['params'], args)]
        return I.construct(rec, f, args)
    if not args:
        o = Obj(rec)
        I.init_fields(o, rec, set())
        return o
    raise Undecided('no constructor of %s with %d arguments' % (rec['q'], len(args)))


def compatible(I, ts, v):
    t = tinfo(ts)
    if isinstance(v, Mat):
        return t.name.startswith('Eigen::')
    if isinstance(v, Vec):
        return t.name in ('std::vector', 'std::array', 'std::span', 'gsl::span', 'std::initializer_list')
    if isinstance(v, Obj):
        return I.p.rec_by_type.get(t.base) is not None
    if isinstance(v, Ptr):
        return t.ptr or t.name in ('std::shared_ptr', 'std::unique_ptr', 'gsl::not_null')
    if is_num(v) or isinstance(v, bool):
        return t.base in ('int', 'unsigned int', 'double', 'bool', 'long', 'unsigned long', 'float') or t.base in I.enum_types() or t.base.startswith('std::complex')
    return True


def exact_arg(I, ts, v):
    """can a parameter of type ts of an instantiated generic lambda have been deduced for value v?"""
    t = tinfo(ts)
    if t.name in ('std::variant', 'boost::variant'):
        return any(exact_arg(I, a, v) for a in t.args)
    if isinstance(v, Obj):
        rec = I.p.rec_by_type.get(t.base)
        return rec is not None and rec['id'] == v.rec['id']
    if isinstance(v, Opq) and v.type:
        return tinfo(v.type).base == t.base
    return compatible(I, ts, v)


def implicit(I, ts, a):
    """implicit conversion of a perfectly forwarded argument"""
    t = tinfo(ts)
    v = I.rv(a)
    et = eigen.etype(t.base)
    if et and isinstance(v, Mat):
        if t.ref and v.fr == et[0] and v.fc == et[1] and not v.view:
            return a
        return eigen.construct(I, t.base, [v])
    if t.base in ('double', 'float') and (isinstance(v, int)):
        return I.cast_scalar(v, '', 'double')
    if not t.ref:
        return Cell(copy_val(v))
    return a


def ctor(I, e, f, t, args):
    v = [I.rv(a) for a in args]
    et = eigen.etype(t.base)
    if et:
        v = [sparse_dense(x) if isinstance(x, SparseM) else x for x in v if not (isinstance(x, Opq) and 'Stride' in x.key)]
        if e and e.get('sil') and v and isinstance(v[0], Vec):
            pass
        if v and isinstance(v[0], Ptr):
            p = v[0]
            if p.vec is not None and len(v) == 1:
                return eigen.construct(I, t.base, [Vec(p.vec.items[p.i:])])
        return eigen.construct(I, t.base, v)
    if t.name == 'Eigen::Map':
        p = v[0]
        v = [x for x in v if not (isinstance(x, Opq) and 'Stride' in x.key)]
        if isinstance(p, Ptr) and p.vec is None and p.c is not None:
            p = Ptr(None, Vec([p.c], 'carray'), 0)
        if isinstance(p, Ptr) and p.vec is not None:
            cells = p.vec.items[p.i:]
            st = 'double'
            pt = eigen.etype(tinfo(t.args[0]).base)
            fr, fc = (pt[0], pt[1]) if pt else (-1, -1)
            if pt:
                st = pt[2]
            if len(v) == 1:
                r, c = fr, fc
            elif len(v) == 2:
                k = idx(v[1])
                r, c = (k, fc) if fc > 0 else (fr, k)
            else:
                r, c = idx(v[1]), idx(v[2])
            if r * c > len(cells):
                raise OutOfBounds('Map of size %dx%d over %d entries' % (r, c, len(cells)))
            arr = bool(pt) and pt[3]
            opts = tinfo(tinfo(t.args[0]).base).args
            if len(opts) > 3 and opts[3].isdigit() and int(opts[3]) & 1:
                return Mat(r, c, [[cells[i * c + j] for j in range(c)] for i in range(r)], arr, st, view=True)
            return Mat(r, c, [[cells[i + j * r] for j in range(c)] for i in range(r)], arr, st, view=True)
        raise Undecided('Eigen::Map of %s %s' % (p, v[1:]))
    if t.name.startswith('Eigen::'):
        if t.name in ('Eigen::Triplet',):
            if not v:
                return Tup([Cell(0), Cell(0), Cell(ZERO)])
            return Tup([Cell(x) for x in v] + ([Cell(ZERO)] if len(v) == 2 else []))
        if t.name == 'Eigen::SparseMatrix' or t.name == 'Eigen::SparseVector':
            o = SparseM(v[0] if v else 0, v[1] if len(v) > 1 else 0)
            if len(v) == 1 and isinstance(v[0], SparseM):
                return copy_sparse(v[0])
            if v and isinstance(v[0], Mat):
                return dense_sparse(v[0])
            return o
        if len(v) == 1 and isinstance(v[0], (Mat, Opq)):
            return v[0]
        if any(x in t.name for x in ('QR', 'LU', 'LDLT', 'LLT')) and (not v or isinstance(v[0], (Mat, SparseM))):
            return Decomp(sparse_dense(v[0]) if v and isinstance(v[0], SparseM) else v[0] if v else None, t.name)
        return Opq('%s(%s)' % (t.name, ','.join(key_of(x) for x in v)), t.base)
    if t.name in ('std::vector', 'std::deque', 'std::list'):
        kind = t.name[5:]
        if not v or (len(v) == 1 and isinstance(v[0], Opq) and 'alloc' in v[0].key):
            return Vec([], kind, t.args[0])
        v = [x for x in v if not (isinstance(x, Opq) and 'allocator' in (x.type or ''))]
        a = v[0]
        if isinstance(a, Vec):
            r = Vec([Cell(copy_val(c.v)) for c in a.items], kind, t.args[0])
            r.sym = a.sym
            return r
        if isinstance(a, Ptr) and len(v) > 1 and isinstance(v[1], Ptr):
            if a.vec is not None and a.vec.sym is not None:
                r = Vec([], kind, t.args[0])
                r.sym = a.vec.sym
                return r
            V, i, j = rng(I, a, v[1])
            return Vec([Cell(copy_val(c.v)) for c in V.items[i:j]], kind, t.args[0])
        if isinstance(a, Opq) and (len(v) == 1 or isinstance(v[1], Opq)):
            return Opq('vector(%s)' % a.key, t.base)
        try:
            n = idx(a)
        except Undecided:
            # vector of symbolic length: uniform content
            r = Vec([], kind, t.args[0])
            I.fresh += 1
            r.sym = 'vec%d' % I.fresh
            return r
        return Vec([Cell(copy_val(v[1]) if len(v) > 1 and not isinstance(v[1], Opq) else I.default(t.args[0], zero=True)) for _ in range(n)], kind, t.args[0])
    if t.name in ('gsl::span', 'std::span', 'nonstd::span', 'gsl::details::span_iterator'):
        if not v:
            return Vec([], 'span', t.args[0])
        a = v[0]
        if isinstance(a, Vec):
            r = Vec(a.items, 'span', t.args[0])
            r.sym = a.sym
            return r
        if isinstance(a, Ptr) and a.vec is not None:
            if isinstance(v[1], Ptr):
                return Vec(a.vec.items[a.i:v[1].i], 'span', t.args[0])
            k = idx(v[1])
            if a.i + k > len(a.vec.items):
                raise OutOfBounds('span of %d elements over a sequence of length %d' % (k, len(a.vec.items)))
            return Vec(a.vec.items[a.i:a.i + k], 'span', t.args[0])
        if isinstance(a, Ptr) and a.c is not None and len(v) > 1:
            k = idx(v[1])
            if k == 1:
                return Vec([a.c], 'span', t.args[0])
            if k == 0:
                return Vec([], 'span', t.args[0])
            raise OutOfBounds('span of %d elements over a single object' % k)
        if isinstance(a, Opq):
            return Opq('span(%s)' % ','.join(key_of(x) for x in v), t.base)
        if a is None:
            return Vec([], 'span', t.args[0])
        raise Undecided('span of %s' % type(a).__name__)
    if t.name == 'std::initializer_list':
        return v[0] if v else Vec([], 'ilist')
    if t.name == 'std::array':
        if v and isinstance(v[0], Vec):
            return copy_val(v[0])
        return I.default(t.base, zero=True)
    if t.name in ('std::unique_ptr', 'std::shared_ptr', 'std::function', 'std::optional', 'gsl::not_null', 'std::reference_wrapper', 'std::variant', 'boost::variant'):
        if not v:
            return None
        if t.name == 'std::reference_wrapper':
            return args[0]
        a = v[0]
        if t.name == 'std::optional' and isinstance(a, Opq) and a.key == '::std::nullopt':
            return None
        return a
    if t.name in ('std::pair', 'std::tuple'):
        if not v:
            return Tup([Cell(I.default(a, True)) for a in t.args])
        if len(v) == 1 and isinstance(v[0], Tup) and len(t.args) > 1:
            return copy_val(v[0])
        return Tup([a if (isinstance(a, Cell) and tinfo(ts).ref) else Cell(conv_to(I, ts, x)) for a, x, ts in zip(args, v, t.args)])
    if t.name in ('std::multimap', 'std::multiset'):
        if not v:
            return Vec([], t.name[5:])
        if isinstance(v[0], Vec) and v[0].kind == t.name[5:]:
            return copy_val(v[0])
        raise Undecided('constructor of ' + t.name)
    if t.name in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set'):
        kind = 'set' if 'set' in t.name else 'map'
        m = MapV({}, kind, t.name in ('std::map', 'std::set'))
        if v and isinstance(v[0], Vec):
            for c in v[0].items:
                if kind == 'map':
                    m.d[I.map_key(m, c.v.items[0].v)] = Cell(c.v.items[1].v)
                else:
                    m.d[I.map_key(m, c.v)] = Cell(True)
        elif v and isinstance(v[0], MapV):
            return copy_val(v[0])
        return m
    if t.name == 'std::complex':
        if not v:
            return Cx(ZERO, ZERO)
        if len(v) == 1:
            return I.cast_scalar(v[0], '', t.base)
        return lift2(lambda x, y: Cx(to_rf(x), to_rf(y)), v[0], v[1])
    if t.base.startswith('std::basic_string') or t.name in ('std::allocator', 'std::runtime_error', 'std::logic_error', 'std::invalid_argument', 'std::basic_string_view') or 'stream' in t.name:
        k = v[0].key if v and isinstance(v[0], Opq) else '""'
        return Opq(k, t.base)
    rec = I.p.rec_by_type.get(t.base)
    if rec is not None:
        return construct_best(I, rec, args)
    if t.name.startswith(('std::_', '__gnu_cxx::')) and v:
        return v[0]
    if len(v) == 1 and isinstance(v[0], (Func, Ptr)):
        return v[0]
    return Opq('%s(%s)' % (t.base, ','.join(key_of(x) for x in v)), t.base)


def conv_to(I, ts, v):
    t = tinfo(ts)
    et = eigen.etype(t.base)
    if et and isinstance(v, Mat):
        return eigen.construct(I, t.base, [v])
    if t.base in ('double', 'float') and not isinstance(v, RF):
        return I.cast_scalar(v, '', 'double')
    if t.base.startswith('std::complex') and is_num(v):
        return I.cast_scalar(v, '', t.base)
    return copy_val(v)


class SparseM:
    """sparse matrix as a map"""
    __slots__ = ('r', 'c', 'd', 'b')

    def __init__(self, r, c):
        self.r = r
        self.c = c
        self.d = {}
        self.b = EPOCH[0]


def copy_sparse(s):
    o = SparseM(s.r, s.c)
    o.d = dict(s.d)
    return o


def method(I, e, f, sq, ob, o, args):
    n = sq.split('::')[-1]
    v = [I.rv(a) for a in args]
    ta = (f or {}).get('ta') or ()
    if sq.startswith('std::optional') and not isinstance(o, (Ite, Opq, Top)):
        if n in ('operator bool', 'has_value'):
            return o is not None
        if n in ('operator*', 'value', 'operator->') and o is not None and not v:
            return ob
        if n == 'reset':
            I.set(ob, None)
            return None
        if n == 'value_or' and o is not None:
            return o
        if n == 'value_or':
            return v[0]
    if isinstance(o, Comma):
        o = o.m
        if n == 'finished':
            return o
    if isinstance(o, Ite):
        return I.choose(o.c, lambda: method(I, e, f, sq, o.a, o.a, args), lambda: method(I, e, f, sq, o.b, o.b, args))
    if isinstance(o, Mat):
        if e and e.get('conv'):
            if I.p.t(e['t']).startswith(('double', 'int', 'std::complex', 'float', 'const double')):
                if o.rows * o.cols != 1:
                    raise OutOfBounds('conversion of a %dx%d matrix to a scalar' % (o.rows, o.cols))
                return o.cells[0][0].v
            return o
        if n.startswith('operator') and n[8:] in ('+=', '-=', '*=', '/=', '=', '<<', '*', '+', '-', '/'):
            return opcall(I, e, f, sq, n[8:], [ob] + list(args))
        if n == 'data' and e and isinstance(e.get('obj'), dict) and not o.view:
            p = I.storage(e['obj'], o)
            if p is not None:
                return p
        return eigen.method(I, n, o, v, e, ta)
    if isinstance(o, VW):
        return eigen.vw_method(I, n, o, v)
    if isinstance(o, Decomp):
        if n in ('compute', 'factorize', 'analyzePattern') and v and isinstance(v[0], (Mat, SparseM)):
            if n != 'analyzePattern':
                I.setattr(o, 'm', sparse_dense(v[0]) if isinstance(v[0], SparseM) else copy_val(v[0]))
            return o
        if o.m is None:
            raise ThrowEx('decomposition %s is not initialized' % o.kind)
        if n == 'solve':
            b = v[0]
            return eigen.matmul(eigen.inverse(o.m), eigen.need_mat(b))
        if n == 'determinant':
            return eigen.det(o.m)
        if n == 'inverse':
            return eigen.inverse(o.m)
        if n == 'compute':
            return o
        if n == 'info':
            return 0
        raise Undecided('decomposition ' + n)
    if isinstance(o, SparseM):
        return sparse_method(I, n, o, v, e)
    if isinstance(o, Vec) and o.kind in ('multimap', 'multiset'):
        r = multi_method(I, e, n, o, ob, v)
        if r is not NotImplemented:
            return r
    if isinstance(o, Vec):
        return vec_method(I, e, n, o, ob, args, v, f)
    if isinstance(o, MapV):
        return map_method(I, e, n, o, args, v)
    if isinstance(o, Tup):
        if n in ('row', 'col', 'value') and len(o.items) == 3:
            return o.items[('row', 'col', 'value').index(n)]
        if n == 'operator=':
            return I.assign_obj(ob, args[0])
        if n == 'swap':
            raise Undecided('tuple swap')
    if isinstance(o, (Cx, RF, int)) and not isinstance(o, bool):
        if n == 'real':
            return lift1(lambda x: x.re if isinstance(x, Cx) else x, o)
        if n == 'imag':
            return lift1(lambda x: x.im if isinstance(x, Cx) else ZERO, o)
        if n in ('operator=',):
            I.set(ob, I.cast_scalar(v[0], '', I.p.t(e['t'])))
            return ob
        if n.startswith('operator') and e.get('conv'):
            return o
        if n[8:] in ('+=', '-=', '*=', '/='):
            return opcall(I, e, f, sq, n[8:], [ob] + list(args))
    if isinstance(o, Ptr) or o is None:
        if n in ('get', 'operator->', 'operator*', 'value'):
            if n in ('operator*', 'value'):
                return I.deref(o)
            return o
        if n == 'reset':
            I.set(ob, v[0] if v else None)
            return None
        if n == 'release':
            I.set(ob, None)
            return o
        if n in ('operator bool', 'has_value'):
            return o is not None
        if n == 'use_count':
            return I.fresh_sym('use_count')
        if n == 'operator=':
            I.set(ob, v[0])
            return ob
        if n == 'swap':
            I.set(ob, v[0])
            I.set(args[0], o)
            return None
        if e and e.get('conv'):
            return o
        if n == 'base':
            return o
        if o is not None and o.c is not None:
            # optional<T>/smart pointer pass-through
            return method(I, e, f, sq, o.c, I.rv(o.c), args)
    if isinstance(o, Func):
        if n in ('operator bool',):
            return True
        if n == 'operator=':
            I.set(ob, v[0])
            return ob
        if e.get('conv'):
            return o
        if n == 'operator()':
            return I.call_value(o, args)
    if isinstance(o, Cond) or isinstance(o, bool):
        if e.get('conv') or n == 'operator bool':
            return o
    if isinstance(o, Opq):
        r = I.opq_call(e, f, o, args)
        if r is not NotImplemented:
            return r
    if isinstance(o, Obj):
        # std::optional/variant-like passthrough
        if n in ('value', 'operator*', 'get', 'operator->'):
            return ob
        if n in ('has_value', 'operator bool'):
            return True
        if n == 'operator=' and f and f.get('defaulted'):
            return I.assign_obj(ob, args[0])
    raise Undecided('method %s on %s' % (sq, type(o).__name__))


def sparse_method(I, n, o, v, e):
    if n == 'rows':
        return o.r
    if n == 'cols':
        return o.c
    if n in ('coeffRef', 'insert'):
        k = (idx(v[0]), idx(v[1]))
        if not (0 <= k[0] < idx(o.r) and 0 <= k[1] < idx(o.c)):
            raise OutOfBounds('sparse entry %s of a %sx%s matrix' % (k, o.r, o.c))
        if k not in o.d:
            nd = dict(o.d)
            nd[k] = Cell(ZERO)
            I.setattr(o, 'd', nd)
        return o.d[k]
    if n == 'coeff':
        k = (idx(v[0]), idx(v[1]))
        c = o.d.get(k)
        return c.v if c else ZERO
    if n in ('setFromTriplets',):
        V, i, j = rng(I, v[0], v[1])
        d = {}
        for c in V.items[i:j]:
            t = c.v
            k = (idx(t.items[0].v), idx(t.items[1].v))
            if not (0 <= k[0] < idx(o.r) and 0 <= k[1] < idx(o.c)):
                raise OutOfBounds('triplet %s in a %sx%s matrix' % (k, o.r, o.c))
            d[k] = Cell(num_add(d[k].v, t.items[2].v)) if k in d else Cell(t.items[2].v)
        I.setattr(o, 'd', d)
        return None
    if n in ('makeCompressed', 'reserve', 'prune', 'finalize'):
        return None
    if n == 'resize':
        I.setattr(o, 'r', v[0])
        I.setattr(o, 'c', v[1])
        I.setattr(o, 'd', {})
        return None
    if n == 'setZero':
        I.setattr(o, 'd', {})
        return None
    if n == 'nonZeros':
        return len(o.d)
    if n == 'transpose' or n == 'adjoint':
        r = SparseM(o.c, o.r)
        r.d = {(k[1], k[0]): Cell(c.v) for k, c in o.d.items()}
        return r
    if n in ('toDense', 'block', 'row', 'col', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'middleRows', 'middleCols', 'innerVector', 'sum', 'norm', 'squaredNorm', 'diagonal'):
        D = sparse_dense(o)
        if n == 'toDense':
            return D
        return copy_val(eigen.method(I, {'innerVector': 'col'}.get(n, n), D, v, e))
    raise Undecided('sparse matrix ' + n)


def dense_sparse(m):
    """sparse matrix with the entries of a dense one"""
    r = SparseM(m.rows, m.cols)
    r.d = {(i, j): Cell(m.cells[i][j].v) for i in range(m.rows) for j in range(m.cols) if not is_zero(m.cells[i][j].v)}
    return r


def is_zero(v):
    return isinstance(v, RF) and v.is_zero()


def sparse_dense(o):
    r, c = idx(o.r), idx(o.c)
    return eigen.new_mat(r, c, -1, -1, 'double', False, lambda i, j: o.d[i, j].v if (i, j) in o.d else ZERO)


def realloc(I, o, n):
    """std::vector is about to hold n elements: beyond the guaranteed capacity all references to its elements become invalid"""
    if o.kind != 'vector' or n <= o.cap:
        return
    o.cap = n if n <= 64 else 2 * n
    if I.pc or I.binders or not o.items:
        return
    new = []
    for c in o.items:
        new.append(Cell(c.v))
        I.set(c, DANGLING)
    I.setattr(o, 'items', new)


def vec_method(I, e, n, o, ob, args, v, f):
    if n in ('size', 'ssize', 'length', 'max_size', 'capacity'):
        if o.sym is not None:
            return alg.S('size(%s)' % o.sym)
        return len(o.items)
    if n == 'empty':
        if o.sym is not None:
            return Cond('op', 'empty(%s)' % o.sym)
        return not o.items
    if n in ('operator[]', 'at'):
        return I.subscript(o, v[0], e)
    if n in ('front', 'back'):
        if o.sym is not None:
            return Cell(I.sym_of(o.et, '%s.%s' % (o.sym, n)))
        if not o.items:
            raise OutOfBounds(n + '() of an empty sequence')
        return o.items[0 if n == 'front' else -1]
    if n in ('begin', 'cbegin', 'data'):
        return Ptr(None, o, 0)
    if n in ('end', 'cend'):
        return Ptr(None, o, len(o.items))
    if n in ('rbegin', 'crbegin', 'rend', 'crend'):
        r = Vec(o.items[::-1], 'span', o.et)
        return Ptr(None, r, 0 if n.endswith('begin') else len(r.items))
    if n in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'push'):
        if n.startswith('emplace'):
            if len(v) == 1 and not needs_ctor(I, o.et, v[0]):
                x = conv_to(I, o.et, v[0])
            else:
                x = build(I, o.et, args, e)
        else:
            x = conv_to(I, o.et, v[0]) if o.et else copy_val(v[0])
        c = Cell(x)
        if o.sym is not None:
            I.event('append', o, [x], None)
            return c
        realloc(I, o, len(o.items) + 1)
        I.setattr(o, 'items', ([c] + o.items) if n.endswith('front') else (o.items + [c]))
        return c
    if n == 'pop_back':
        I.setattr(o, 'items', o.items[:-1])
        return None
    if n == 'pop_front':
        I.setattr(o, 'items', o.items[1:])
        return None
    if n in ('reserve', 'shrink_to_fit'):
        I.event('reserve', o, v[0] if v else None)
        if n == 'reserve' and o.sym is None and isinstance(v[0], int):
            realloc(I, o, v[0])
        return None
    if n == 'clear':
        I.setattr(o, 'items', [])
        return None
    if n == 'resize':
        try:
            k = idx(v[0])
        except Undecided:
            if o.items:
                raise
            I.fresh += 1
            I.setattr(o, 'sym', 'vec%d' % I.fresh)
            return None
        realloc(I, o, k)
        it = o.items[:k]
        while len(it) < k:
            it = it + [Cell(copy_val(v[1]) if len(v) > 1 else I.default(o.et, zero=True))]
        I.setattr(o, 'items', it)
        return None
    if n == 'assign':
        if len(v) == 2 and not isinstance(v[0], Ptr):
            I.setattr(o, 'items', [Cell(copy_val(v[1])) for _ in range(idx(v[0]))])
        elif len(v) == 2:
            V, i, j = rng(I, v[0], v[1])
            I.setattr(o, 'items', [Cell(copy_val(c.v)) for c in V.items[i:j]])
        else:
            I.setattr(o, 'items', [Cell(copy_val(c.v)) for c in v[0].items])
        return None
    if n == 'fill':
        for c in o.items:
            I.set(c, copy_val(v[0]))
        return None
    if n == 'insert':
        p = v[0]
        if len(v) == 3 and isinstance(v[1], Ptr):
            V, i, j = rng(I, v[1], v[2])
            new = [Cell(copy_val(c.v)) for c in V.items[i:j]]
        elif len(v) == 2:
            new = [Cell(copy_val(x.v)) for x in v[1].items] if isinstance(v[1], Vec) and v[1].kind == 'ilist' else [Cell(copy_val(v[1]))]
        else:
            new = [Cell(copy_val(v[2])) for _ in range(idx(v[1]))]
        realloc(I, o, len(o.items) + len(new))
        I.setattr(o, 'items', o.items[:p.i] + new + o.items[p.i:])
        return Ptr(None, o, p.i)
    if n == 'erase':
        p = v[0]
        j = v[1].i if len(v) > 1 else p.i + 1
        I.setattr(o, 'items', o.items[:p.i] + o.items[j:])
        return Ptr(None, o, p.i)
    if n in ('subspan', 'first', 'last'):
        if o.sym is not None:
            raise Undecided('subspan of unknown span')
        L = len(o.items)
        if n == 'first':
            i, k = 0, idx(v[0])
        elif n == 'last':
            k = idx(v[0])
            i = L - k
        else:
            i = idx(v[0])
            k = idx(v[1]) if len(v) > 1 and v[1] not in (-1, 2 ** 64 - 1) else L - i
        if i < 0 or i + k > L:
            raise OutOfBounds('subspan [%d,%d) of a span of length %d' % (i, i + k, L))
        return Vec(o.items[i:i + k], 'span', o.et)
    if n == 'swap':
        b = v[0]
        x, y = o.items, b.items
        I.setattr(o, 'items', y)
        I.setattr(b, 'items', x)
        o.cap, b.cap = b.cap, o.cap
        return None
    if n == 'operator=':
        if isinstance(v[0], Vec):
            mv = o is not v[0] and bool(e) and len(e.get('args', ())) == 1 and I.is_move(e['args'][0])
            if o.kind == 'array':
                for x, y in zip(o.items, v[0].items):
                    I.set(x, I.move_val(y.v) if mv else copy_val(y.v))
                return ob
            b = I.move_val(v[0]) if mv and v[0].kind == o.kind else Vec([Cell(copy_val(c.v)) for c in v[0].items])
            I.setattr(o, 'items', b.items)
            I.setattr(o, 'sym', v[0].sym)
            o.cap = max(o.cap, b.cap)
            return ob
        if isinstance(v[0], Opq) and isinstance(ob, Cell):
            I.set(ob, v[0])
            return ob
    if e and e.get('conv'):
        return o
    raise Undecided('container method ' + n)


def needs_ctor(I, ts, v):
    t = tinfo(ts)
    rec = I.p.rec_by_type.get(t.base)
    if rec is not None:
        return not (isinstance(v, Obj) and v.rec is rec)
    if t.name in ('std::vector', 'std::pair', 'std::tuple') and is_num(v):
        return True
    return False


def build(I, ts, args, e):
    t = tinfo(ts)
    rec = I.p.rec_by_type.get(t.base)
    if rec is not None:
        return construct_best(I, rec, args)
    return ctor(I, None, None, t, args)


def map_method(I, e, n, o, args, v):
    if n == 'size':
        return len(o.d)
    if n == 'empty':
        return not o.d
    if n in ('operator[]',):
        return I.map_get(o, v[0], e)
    if n == 'at':
        c = I.map_get(o, v[0], e, create=False)
        if c is None:
            raise ThrowEx('map::at: key not present')
        return c
    if n in ('find', 'count', 'contains'):
        k = I.map_key(o, v[0])
        if n != 'find':
            return (1 if k in o.d else 0) if n == 'count' else k in o.d
        seq = mapvec(I, o)
        ks = I.map_order(o)
        return Ptr(None, seq, ks.index(k) if k in o.d else len(ks))
    if n in ('begin', 'cbegin', 'end', 'cend'):
        seq = mapvec(I, o)
        return Ptr(None, seq, 0 if 'begin' in n else len(seq.items))
    if n in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
        if o.kind == 'set':
            k = I.map_key(o, v[0])
            val = Cell(True)
        elif len(v) == 1:
            k = I.map_key(o, v[0].items[0])
            val = Cell(copy_val(v[0].items[1].v))
        else:
            k = I.map_key(o, v[0])
            val = Cell(copy_val(v[1]))
        ins = k not in o.d
        if ins or n == 'insert_or_assign':
            nd = dict(o.d)
            nd[k] = val
            I.setattr(o, 'd', nd)
        seq = mapvec(I, o)
        return Tup([Cell(Ptr(None, seq, I.map_order(o).index(k))), Cell(ins)])
    if n == 'erase':
        k = I.map_key(o, v[0])
        nd = dict(o.d)
        nd.pop(k, None)
        I.setattr(o, 'd', nd)
        return 1
    if n == 'clear':
        I.setattr(o, 'd', {})
        return None
    if n in ('reserve', 'rehash'):
        return None
    if n == 'operator=':
        I.setattr(o, 'd', copy_val(v[0]).d)
        return None
    raise Undecided('map method ' + n)


def cstr(v):
    """the text of a known string"""
    if isinstance(v, Opq) and len(v.key) >= 2 and v.key[0] == '"' == v.key[-1]:
        return v.key[1:-1]
    return None


def multi_method(I, e, n, o, ob, v):
    """std::multimap / std::multiset: a sequence sorted by key"""
    key = (lambda c: c.v.items[0].v) if o.kind == 'multimap' else (lambda c: c.v)

    def less(a, b):
        return I.key_less(I.rv(a), I.rv(b))
    if n in ('insert', 'emplace'):
        if len(v) == 2 and n == 'emplace':
            x = Tup([Cell(copy_val(v[0])), Cell(copy_val(v[1]))])
        elif len(v) == 1:
            x = copy_val(v[0])
        else:
            return NotImplemented
        c = Cell(x)
        i = 0
        while i < len(o.items) and not less(key(c), key(o.items[i])):
            i += 1
        I.setattr(o, 'items', o.items[:i] + [c] + o.items[i:])
        return Ptr(None, o, i)
    if n in ('equal_range', 'lower_bound', 'upper_bound', 'find', 'count', 'contains'):
        lo = 0
        while lo < len(o.items) and less(key(o.items[lo]), v[0]):
            lo += 1
        hi = lo
        while hi < len(o.items) and not less(v[0], key(o.items[hi])):
            hi += 1
        if n == 'equal_range':
            return Tup([Cell(Ptr(None, o, lo)), Cell(Ptr(None, o, hi))])
        if n == 'count':
            return hi - lo
        if n == 'contains':
            return hi > lo
        return Ptr(None, o, hi if n == 'upper_bound' else lo if n == 'lower_bound' or hi > lo else len(o.items))
    if n == 'operator=':
        b = copy_val(v[0])
        I.setattr(o, 'items', b.items)
        return ob
    if n in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'clear', 'swap'):
        return NotImplemented
    raise Undecided(o.kind + ' method ' + n)


_mapvecs = {}


def mapvec(I, o):
    key = id(o)
    ent = _mapvecs.get(key)
    if ent is not None and ent[0] is o and ent[1] is o.d:
        return ent[2]
    if o.kind == 'set':
        seq = Vec([Cell(o.keys.get(k, k)) for k in I.map_order(o)], 'span')
    else:
        seq = Vec([Cell(Tup([Cell(o.keys.get(k, k)), o.d[k]])) for k in I.map_order(o)], 'span')
    _mapvecs[key] = (o, o.d, seq)
    return seq


def opq_std(I, e, f, o, name, args):
    """methods of library objects known only by name"""
    t = tinfo(o.type)
    n = name
    if t.name in ('std::vector', 'std::span', 'gsl::span', 'nonstd::span', 'std::array', 'std::deque', 'std::initializer_list') or o.type.startswith(('std::vector', 'std::span')):
        if n in ('operator[]', 'at'):
            return I.subscript(o, I.rv(args[0]), e)
        if n in ('size',):
            return alg.S('size(%s)' % o.key)
        if n in ('begin', 'end', 'cbegin', 'cend', 'data'):
            v = Vec([], 'span', t.args[0] if t.args else '')
            v.sym = o.key
            return Ptr(None, v, 0 if 'begin' in n or n == 'data' else 1)
        if n in ('front', 'back'):
            return Cell(I.sym_of(t.args[0], '%s.%s' % (o.key, n)))
    if t.name in ('std::shared_ptr', 'std::unique_ptr', 'gsl::not_null') or o.type.startswith(('std::shared_ptr', 'std::unique_ptr')):
        if n in ('get', 'operator->', 'operator*'):
            return o if n != 'operator*' else I.deref(o)
        if n == 'operator bool':
            return Cond('op', 'nonnull ' + o.key)
    if 'basic_' in o.type or o.type in ('string',) or o.key == 'log':
        ts = I.p.t(e['t'])
        s = cstr(o)
        if s is not None and 'stream' not in o.type:
            if n == 'empty':
                return s == ''
            if n in ('size', 'length'):
                return len(s)
            if n in ('c_str', 'data', 'substr') and not args:
                return o
            if n == 'find' and len(args) >= 1:
                x = I.rv(args[0])
                x = chr(x) if type(x) is int else cstr(x)
                if x is not None:
                    i = s.find(x)
                    return i if i >= 0 else 2 ** 64 - 1
        if n in ('empty',):
            return Cond('op', 'empty(%s)' % o.key)
        return I.sym_of(ts, '%s.%s' % (o.key, n)) if ts != 'void' else None
    if t.name.startswith('Eigen::'):
        if n in ('operator()', 'coeff', 'coeffRef', 'operator[]'):
            vs = [key_of(I.rv(a)) for a in args]
            return Cell(I.sym_of(I.p.t(e['t']), '%s(%s)' % (o.key, ','.join(vs))))
        if n in ('rows', 'cols', 'size'):
            et = eigen.etype(t.base)
            if et and n == 'rows' and et[0] > 0:
                return et[0]
            if et and n == 'cols' and et[1] > 0:
                return et[1]
            return alg.S('%s(%s)' % (n, o.key))
        if n in ('eval', 'derived', 'noalias', 'finished'):
            return o
    if e.get('conv'):
        return I.sym_of(I.p.t(e['t']), o.key) if I.p.t(e['t']) != 'bool' else Cond('op', 'nonnull ' + o.key)
    return NotImplemented


ASSIGN = {'+=': '+', '-=': '-', '*=': '*', '/=': '/', '%=': '%', '|=': '|', '&=': '&'}


def opcall(I, e, f, sq, op, args):
    v = [I.rv(a) for a in args]
    a = v[0]
    b = v[1] if len(v) > 1 else None
    if op == '=' and sq.startswith(('std::variant', 'std::optional', 'std::any')) and isinstance(args[0], Cell):
        I.set(args[0], None if isinstance(b, Opq) and b.key == '::std::nullopt' else copy_val(b))
        return args[0]
    if op in ('==', '!=', '<', '>', '<=', '>=', '+', '+=') and isinstance(a, Opq) and isinstance(b, Opq):
        x, y = cstr(a), cstr(b)
        if x is not None and y is not None:
            if op in ('+', '+='):
                r = Opq('"' + x + y + '"', a.type)
                if op == '+=':
                    I.set(args[0], r)
                    return args[0]
                return r
            return {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
    if isinstance(a, Ite) and (op in ('()', '->', '[]') or (op == '*' and len(v) == 1)):
        return I.choose(a.c, lambda: opcall(I, e, f, sq, op, [a.a] + list(args[1:])), lambda: opcall(I, e, f, sq, op, [a.b] + list(args[1:])))
    if isinstance(a, Top) and op in ('()', '->', '[]'):
        raise Undecided('operator on an unknown value: ' + a.why)
    if op == '<<' and isinstance(a, (Mat,)):
        return eigen.comma(I, Comma(a), b)
    if op == ',' and isinstance(a, Comma):
        return eigen.comma(I, a, b)
    if op == '()':
        if isinstance(a, Comma):
            a = a.m
        if isinstance(a, Mat):
            return eigen.method(I, 'operator()', a, v[1:], e)
        if isinstance(a, (Func,)):
            return I.call_value(a, args[1:])
        if isinstance(a, Opq):
            r = I.opq_call(e, f, a, args[1:])
            return r
        if isinstance(a, Ptr) and a.c is not None:
            return opcall(I, e, f, sq, op, [a.c] + list(args[1:]))
        if isinstance(a, Obj):
            return I.call_value(a, args[1:])
        if a is None:
            raise ThrowEx('call of an empty function object')
    if op == '[]':
        if isinstance(a, MapV):
            return I.map_get(a, b, e)
        if isinstance(a, Ptr) and a.c is not None and isinstance(I.rv(a.c), Vec):
            a = I.rv(a.c)
        return I.subscript(a, b, e)
    if op == '->':
        return a if not isinstance(a, Cell) else a
    if op == '*' and len(v) == 1:
        if isinstance(a, (RF, Cx, Mat, int, Cond, Tup, Obj)):
            return args[0]
        return I.deref(a)
    if op == '=':
        if isinstance(a, MapV) and isinstance(b, Vec):      # assignment of a braced list
            m = MapV({}, a.kind, a.ordered)
            for c in b.items:
                if a.kind == 'map':
                    m.d.setdefault(I.map_key(m, c.v.items[0].v), Cell(c.v.items[1].v))
                else:
                    m.d[I.map_key(m, c.v)] = Cell(True)
            b = m
            args = [args[0], Cell(m)]
        if isinstance(a, SparseM) and isinstance(b, Mat):
            b = dense_sparse(b)
        if isinstance(a, Mat) and isinstance(b, SparseM):
            b = sparse_dense(b)
        if isinstance(a, Mat):
            if isinstance(b, Comma):
                b = b.m
            if isinstance(b, Mat):
                b = copy_val(b) if b.view or a.view else b
            elif is_num(b) and a.arr:
                b0 = b
                b = mat(a.rows, a.cols, lambda i, j: b0)
            eigen.assign(I, a, b)
            return args[0]
        if isinstance(a, SparseM) and isinstance(b, SparseM):
            I.setattr(a, 'd', dict(b.d))
            I.setattr(a, 'r', b.r)
            I.setattr(a, 'c', b.c)
            return args[0]
        if isinstance(a, Vec) and isinstance(b, Vec) and a.kind != 'span':
            mv = a is not b and len(e.get('args', ())) == 2 and I.is_move(e['args'][1])
            if a.kind == 'array':
                for x, y in zip(a.items, b.items):
                    I.set(x, I.move_val(y.v) if mv else copy_val(y.v))
                return args[0]
            b2 = I.move_val(b) if mv and b.kind == a.kind else copy_val(b) if b.kind != 'span' else Vec([Cell(copy_val(c.v)) for c in b.items])
            I.setattr(a, 'items', b2.items)
            I.setattr(a, 'sym', b.sym)
            a.cap = max(a.cap, b2.cap)
            return args[0]
        if isinstance(a, Tup) and isinstance(b, Tup):
            vals = [copy_val(c.v) for c in b.items]
            for x, y in zip(a.items, vals):
                I.set(x, y)
            return args[0]
        if isinstance(a, MapV) and isinstance(b, MapV):
            a.keys.update(b.keys)
            I.setattr(a, 'd', copy_val(b).d)
            return args[0]
        if isinstance(args[0], Cell):
            t = I.p.t(e['t'])
            x = copy_val(b)
            if tinfo(t).base.startswith('std::complex'):
                x = I.cast_scalar(x, '', t)
            if tinfo(t).name == 'std::optional' and isinstance(b, Opq) and b.key == '::std::nullopt':
                x = None
            if isinstance(b, Vec) and not b.items and tinfo(t).name in ('std::unique_ptr', 'std::shared_ptr'):
                x = None
            I.set(args[0], x)
            return args[0]
        if isinstance(a, Opq):
            I.event('assign', a.key, key_of(b), loc=I.loc(e))
            return args[0]
        raise Undecided('assignment')
    if op in ASSIGN:
        o = ASSIGN[op]
        if isinstance(a, Comma):
            a = a.m
        if isinstance(a, VW):
            eigen.vw_op(I, op, a, b)
            return args[0]
        if isinstance(a, Mat):
            if isinstance(b, Comma):
                b = b.m
            eigen.assign(I, a, eigen.binop(I, o, a, b))
            return args[0]
        if isinstance(a, Ptr) and a.vec is not None:
            k = idx(b)
            I.set(args[0], Ptr(None, a.vec, a.i + (k if o == '+' else -k)))
            return args[0]
        if isinstance(a, Opq) and not is_num(a):
            if 'basic_string' in (a.type or '') or a.type == 'string':
                return args[0]
            I.event('assign' + op, a.key, key_of(b), loc=I.loc(e))
            return args[0]
        if not isinstance(args[0], Cell):
            raise Undecided('compound assignment')
        r = I.binop(o, a, b, I.p.t(e['t']))
        I.set(args[0], r)
        return args[0]
    if op in ('++', '--'):
        k = 1 if op == '++' else -1
        old = a
        if isinstance(a, Ptr) and a.vec is not None:
            I.set(args[0], Ptr(None, a.vec, a.i + k))
        elif isinstance(a, Opq):
            raise Undecided('increment of an unknown iterator')
        else:
            I.set(args[0], num_add(a, k))
        return old if len(args) > 1 else args[0]
    if len(v) == 1 and op == '-':
        if isinstance(a, Mat):
            return eigen.cmap(num_neg, a)
        if isinstance(a, SparseM):
            return dense_sparse(eigen.cmap(num_neg, sparse_dense(a)))
        return num_neg(a)
    if len(v) == 1 and op == '+':
        return a
    if len(v) == 1 and op == '!':
        if isinstance(a, Mat):
            return eigen.cmap(lambda x: c_not(I.as_cond(x)), a)
        return c_not(I.as_cond(a))
    if isinstance(a, VW) or isinstance(b, VW):
        if isinstance(a, VW):
            return eigen.vw_op(I, op, a, b)
        raise Undecided('vectorwise operand')
    if isinstance(a, SparseM) or isinstance(b, SparseM):
        if op in ('+', '-', '*', '/') and len(v) <= 2:
            ds = [sparse_dense(x) if isinstance(x, SparseM) else x for x in v]
            if len(ds) == 1:
                if op == '-':
                    return dense_sparse(eigen.cmap(num_neg, ds[0]))
                return v[0]
            r = eigen.matmul(*ds) if op == '*' and all(isinstance(x, Mat) for x in ds) else eigen.binop(I, op, *ds)
            return r if any(isinstance(x, Mat) for x in v) else dense_sparse(r)
        if op in ('+=', '-=', '*=', '/=') and isinstance(a, SparseM):
            r = dense_sparse(eigen.binop(I, op[0], sparse_dense(a), sparse_dense(b) if isinstance(b, SparseM) else b))
            I.setattr(a, 'd', r.d)
            return args[0]
        raise Undecided('sparse operator ' + op)
    if op in ('<<', '>>') and isinstance(a, Opq):
        return args[0]
    if isinstance(a, Comma) or isinstance(b, Comma) or isinstance(a, Mat) or isinstance(b, Mat):
        return eigen.binop(I, op, a, b)
    if op in ('+', '-', '*', '/', '<', '<=', '>', '>=', '==', '!=', '%', '&&', '||', '<=>'):
        ts = I.p.t(e['t'])
        if op == '<=>':
            raise Undecided('three-way comparison')
        if tinfo(ts).base.startswith('std::complex') or (is_num(a) and is_num(b)):
            return I.binop(op, a, b, 'double' if tinfo(ts).base not in ('bool',) else ts)
        if isinstance(a, Ptr) and a.c is None and op in ('+', '-'):
            return I.ptr_op(op, a, b)
        if op in ('+', '-', '*', '/') and isinstance(a, Opq) or isinstance(b, Opq):
            if tinfo(ts).name.startswith('Eigen::') or tinfo(ts).base not in ('bool', 'double', 'int'):
                if op not in ('==', '!=', '<', '>', '<=', '>='):
                    if any(isinstance(x, (Opq,)) for x in v) and not any(isinstance(x, (Obj,)) for x in v):
                        return I.sym_of(ts, '(%s%s%s)' % (key_of(a), op, key_of(b)))
        return I.binop(op, a, b, ts)
    raise Undecided('operator %s (%s)' % (op, sq))
