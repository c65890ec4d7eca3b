"""Loads the exported, type-checked program and answers structural queries."""
import json
import re


def strip_targs(s):
    out = []
    d = 0
    i = 0
    n = len(s)
    while i < n:
        ch = s[i]
        if ch == '<' and not s.startswith('operator<', max(0, i - 8)) and not (i and s[i - 1] == '<' and s.startswith('operator<<', max(0, i - 9))):
            d += 1
        elif ch == '>' and d:
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return ''.join(out)


_short = {}


def short(q):
    r = _short.get(q)
    if r is None:
        m = re.search(r'::(operator[^A-Za-z_0-9].*)$', q)
        if m:
            r = strip_targs(q[:m.start()]) + '::' + m.group(1)
        else:
            r = strip_targs(q)
        _short[q] = r
    return r


class TI:
    __slots__ = ('s', 'base', 'args', 'ref', 'ptr', 'const', 'name', 'noref')


_ti = {}


def split_args(s):
    out = []
    d = 0
    cur = ''
    for ch in s:
        if ch in '<([{':
            d += 1
        elif ch in '>)]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def tinfo(s):
    t = _ti.get(s)
    if t:
        return t
    t = TI()
    t.s = s
    x = s.strip()
    t.ref = ''
    t.ptr = False
    if x.endswith('&&'):
        t.ref = '&&'
        x = x[:-2].strip()
    elif x.endswith('&'):
        t.ref = '&'
        x = x[:-1].strip()
    t.noref = x
    if x.endswith('*') or x.endswith('*const'):
        t.ptr = True
    t.const = x.startswith('const ')
    if t.const and not t.ptr:
        x = x[6:]
    t.base = x
    i = x.find('<')
    if i > 0 and x.endswith('>'):
        t.name = x[:i]
        if t.name == 'boost::container::vector':
            t.name = 'std::vector'
        t.args = split_args(x[i + 1:-1])
    else:
        t.name = x
        t.args = []
    _ti[s] = t
    return t


class Prog:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types = d['types']
        self.funcs = {}
        self.byname = {}
        for f in d['funcs']:
            self.funcs[f['id']] = f
            f['sq'] = short(f['q'])
            self.byname.setdefault(f['sq'], []).append(f)
        self.recs = {r['id']: r for r in d['recs']}
        self.rec_by_type = {self.types[r['t']]: r for r in d['recs']}
        self.rec_by_name = {}
        for r in d['recs']:
            self.rec_by_name.setdefault(short(r['q']), []).append(r)
        self.vars = {v['d']: v for v in d['vars']}
        self.enums = d['enums']
        self._over = {}
        self._vt = {}

    def t(self, i):
        return self.types[i] if i is not None and i >= 0 else ''

    def ti(self, i):
        return tinfo(self.t(i))

    def fn(self, name, nparams=None, where=None, body=True):
        """the unique function with this template-stripped qualified name"""
        c = [f for f in self.byname.get(name, []) if (not body or 'body' in f)]
        if nparams is not None:
            c = [f for f in c if len(f['params']) == nparams]
        if where:
            c = [f for f in c if where(f)]
        if not c:
            return None
        return c[0]

    def rec(self, name):
        c = self.rec_by_name.get(name, [])
        return c[0] if c else None

    def bases(self, rec):
        out = []
        for b in rec['bases']:
            r = self.rec_by_type.get(self.t(b))
            if r:
                out.append(r)
        return out

    def over_closure(self, fid):
        r = self._over.get(fid)
        if r is None:
            r = {fid}
            f = self.funcs.get(fid)
            for o in (f or {}).get('over', []):
                r |= self.over_closure(o)
            self._over[fid] = r
        return r

    def dispatch(self, rec, fid):
        """final overrider of method fid in class rec"""
        k = (rec['id'], fid)
        if k in self._vt:
            return self._vt[k]
        res = None
        for m in rec['methods']:
            if fid in self.over_closure(m):
                res = m
                break
        if res is None:
            for b in self.bases(rec):
                res = self.dispatch(b, fid)
                if res is not None:
                    break
        self._vt[k] = res
        return res

    def derives(self, rec, base_q):
        if rec['q'] == base_q or short(rec['q']) == base_q:
            return True
        return any(self.derives(b, base_q) for b in self.bases(rec))

    def method(self, rec, name, nparams=None):
        """method by plain name in rec or its bases"""
        for m in rec['methods']:
            f = self.funcs.get(m)
            if f and f['sq'].split('::')[-1] == name and (nparams is None or len(f['params']) == nparams):
                return f
        for b in self.bases(rec):
            f = self.method(b, name, nparams)
            if f:
                return f
        return None
