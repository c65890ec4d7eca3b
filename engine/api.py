"""Convenience layer: build an interpreter for an exported program, construct
objects of repository classes and call their methods with abstract values."""
import alg
from alg import RF
from vals import *
from prog import Prog
from interp import Interp
import stdmodel
import eigen


def new(I, recname, *args, nparams=None):
    rec = I.p.rec(recname)
    if rec is None:
        raise Undecided('class %s not found' % recname)
    c = []
    for m in rec['methods']:
        f = I.p.funcs.get(m)
        if f and f.get('ctor') and 'body' in f and len(f['params']) == len(args) and not is_copy(I, f, rec):
            c.append(f)
    if not c:
        raise Undecided('no constructor of %s with %d parameters' % (recname, len(args)))
    f = c[0]
    if len(c) > 1:
        g = [x for x in c if all(stdmodel.compatible(I, I.p.t(p['t']), I.rv(a)) for p, a in zip(x['params'], args))]
        f = (g or c)[0]
    return I.construct(rec, f, [a if isinstance(a, Cell) else Cell(a) for a in args])


def is_copy(I, f, rec):
    if len(f['params']) != 1:
        return False
    from prog import tinfo
    return tinfo(I.p.t(f['params'][0]['t'])).base == I.p.t(rec['t'])


def method(I, o, name, n=None):
    f = I.p.method(o.rec, name, n)
    if f is None:
        raise Undecided('method %s of %s not found' % (name, o.rec['q']))
    return f


def mcall(I, o, name, *args):
    """dynamic dispatch on the object's class; returns the value"""
    o = I.rv(o)
    if isinstance(o, Ptr):
        o = I.rv(I.deref(o))
    f = method(I, o, name, len(args))
    if 'body' not in f:
        m = I.p.dispatch(o.rec, f['id'])
        f = I.p.funcs[m]
    h = I.hooks.get(f['sq'])
    cargs = [a if isinstance(a, Cell) else Cell(a) for a in args]
    if h is not None:
        r = h(I, {'k': 'mcall', 'f': f['id'], 't': f['ret'], 'fn': f['q'], 'l': f['line']}, Cell(o), cargs)
        if r is not NotImplemented:
            return I.rv(r)
    return I.rv(I.call(f, cargs, Cell(o)))


def fcall(I, name, *args, nparams=None, where=None):
    f = I.p.fn(name, nparams if nparams is not None else len(args), where)
    if f is None:
        raise Undecided('function %s not found' % name)
    return I.rv(I.call(f, [a if isinstance(a, Cell) else Cell(a) for a in args]))


def symmat(rows, cols, pre, fr=-1, fc=-1):
    return eigen.new_mat(rows, cols, fr, fc, 'double', False, lambda i, j: alg.S('%s%d_%d' % (pre, i, j)))


def constmat(rows):
    return eigen.new_mat(len(rows), len(rows[0]) if rows else 0, -1, -1, 'double', False, lambda i, j: alg.C(rows[i][j]))
