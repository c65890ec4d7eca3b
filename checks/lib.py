"""Shared driver of the checks: export of the current sources of /repo,
obligations, verdicts and evidence."""
import re, sys, os, json, time, hashlib, subprocess, fcntl, glob, random, math, traceback
from fractions import Fraction
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'engine'))
REPO = os.environ.get('LF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
FLAGS = ['-DBOOST_ENABLE_ASSERT_DEBUG_HANDLER', '-DFMT_SHARED', '-DLF_REDIRECT_ASSERTS', '-DSPDLOG_ACTIVE_LEVEL=6',
         '-DSPDLOG_COMPILED_LIB', '-DSPDLOG_FMT_EXTERNAL', '-DSPDLOG_SHARED_LIB', '-I' + REPO + '/lib',
         '-I' + REPO + '/projects/dpg', '-I' + REPO + '/projects/ipdg_stokes', '-I' + REPO + '/projects',
         '-isystem', '/usr/include/eigen3', '-std=gnu++20', '-Wno-everything']


class CheckError(Exception):
    """the check cannot give an answer (exit 2)"""


def exporter():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'tool', 'astexport.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'astexport-' + h)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            tmp = out + '.tmp%d' % os.getpid()
            r = subprocess.run(['clang++', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                                '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18'],
                               capture_output=True, text=True)
            if r.returncode:
                raise CheckError('cannot build the exporter: ' + r.stderr[-2000:])
            os.rename(tmp, out)
    return out, h


def module_sources(*mods):
    """all .cc files of the given directories (relative to /repo), without tests"""
    out = []
    for m in mods:
        for f in sorted(glob.glob(os.path.join(REPO, m, '*.cc'))):
            out.append(f)
    return out


def unity(files, extra=''):
    # explicit specialisations have to precede their uses
    files = sorted(files, key=lambda f: 0 if re.search(r'template\s*<\s*>', open(f, errors='replace').read()) else 1)
    return ''.join('#include "%s"\n' % f for f in files) + extra


def export(name, text, roots=None, flags=(), log=False):
    """parse the C++ text (which includes the current sources) and load the resolved program"""
    from prog import Prog
    exe, eh = exporter()
    roots = roots or [REPO + '/lib/lf', REPO + '/projects', VERIF + '/witness', BUILD]
    d = os.path.join(BUILD, 'units')
    os.makedirs(d, exist_ok=True)
    fl = [f for f in FLAGS]
    if log:
        fl = [f.replace('SPDLOG_ACTIVE_LEVEL=6', 'SPDLOG_ACTIVE_LEVEL=SPDLOG_LEVEL_TRACE') for f in fl]
    fl += list(flags)
    key0 = hashlib.sha256(('\0'.join([text, REPO] + fl + roots)).encode()).hexdigest()[:12]
    cc = os.path.join(d, '%s-%s.cc' % (name, key0))
    if not os.path.exists(cc) or open(cc).read() != text:
        tmp = cc + '.%d' % os.getpid()
        open(tmp, 'w').write(text)
        os.rename(tmp, cc)
    pp = subprocess.run(['clang++', '-E'] + fl + [cc], capture_output=True)
    if pp.returncode:
        raise CheckError('the sources do not preprocess: ' + pp.stderr.decode()[-3000:])
    key = hashlib.sha256(pp.stdout + eh.encode()).hexdigest()[:24]
    out = os.path.join(d, '%s-%s.json' % (name, key))
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        r = subprocess.run([exe, tmp, ':'.join(roots), cc, '--'] + fl, capture_output=True, text=True)
        if r.returncode or not os.path.exists(tmp):
            raise CheckError('the sources do not compile: ' + r.stderr[-3000:])
        os.rename(tmp, out)
    return Prog(out)


def compiles(name, text, flags=()):
    """compile-time witness: does this translation unit type-check against the current headers?"""
    d = os.path.join(BUILD, 'units')
    os.makedirs(d, exist_ok=True)
    cc = os.path.join(d, '%s-%d.cc' % (name, os.getpid()))
    open(cc, 'w').write(text)
    try:
        fl = [f for f in FLAGS if f != '-DSPDLOG_ACTIVE_LEVEL=6'] + ['-DSPDLOG_ACTIVE_LEVEL=SPDLOG_LEVEL_TRACE']
        r = subprocess.run(['clang++', '-fsyntax-only', '-ferror-limit=5'] + fl + list(flags) + [cc], capture_output=True, text=True)
    finally:
        os.unlink(cc)
    return r.returncode == 0, r.stderr


# ---------------------------------------------------------------- numeric witness
class Env:
    """sample assignment; unknown names get reproducible pseudo random values"""

    def __init__(self, d=None, salt=0, rng=(1, 4)):
        self.d = d or {}
        self.salt = salt

    def __call__(self, n):
        v = self.d.get(n)
        if v is None:
            h = hashlib.md5(('%s/%d/%d' % (n, self.salt, SEED)).encode()).digest()
            v = Fraction(int.from_bytes(h[:2], 'big') % 4001 - 2000, 1000)
            if v == 0:
                v = Fraction(1, 7)
            self.d[n] = v
        return v


def evalnum(v, env):
    from alg import RF
    from vals import Cx, Ite, Cond
    while hasattr(v, 'v') and type(v).__name__ == 'Cell':
        v = v.v
    if isinstance(v, RF):
        return v.eval(env)
    if isinstance(v, Cx):
        return complex(evalnum(v.re, env), evalnum(v.im, env))
    if isinstance(v, Ite):
        return evalnum(v.a if evalcond(v.c, env) else v.b, env)
    if isinstance(v, (Cond, bool)):
        return 1 if evalcond(v, env) else 0
    if isinstance(v, (int, Fraction, float)):
        return v
    raise ArithmeticError('not a number: %s' % type(v).__name__)


def evalcond(c, env):
    if isinstance(c, bool):
        return c
    k = c.kind
    if k in ('lt', 'le', 'eq'):
        x = evalnum(c.a, env)
        if isinstance(x, float) and abs(x) < 1e-11:
            x = 0
        return x < 0 if k == 'lt' else x <= 0 if k == 'le' else x == 0
    if k == 'not':
        return not evalcond(c.a, env)
    if k == 'and':
        return all(evalcond(x, env) for x in c.a)
    if k == 'or':
        return any(evalcond(x, env) for x in c.a)
    key = ('cond', repr(c.a))
    if key not in env.d:
        h = hashlib.md5(('%s/%d/%d' % (c.a, env.salt, SEED)).encode()).digest()
        env.d[key] = bool(h[0] & 1)
    return env.d[key]


def txt(v, lim=160):
    import alg
    from alg import RF
    try:
        if isinstance(v, RF):
            return alg.to_str(v, lim)
        s = repr(v)
    except Exception as e:
        s = '<%s>' % type(v).__name__
    return s[:lim]


class Check:
    def __init__(self, pid, level='proof', rule='', technique=''):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.t0 = time.time()
        self.obl = []           # (key, status, detail)
        self.viol = []
        self.known = load_known(pid)
        self.assumptions = []
        self.extra = {}
        self.analysed = set()
        self.trusted = ['clang 18 front end (resolved AST)', 'the transfer functions in /verif/engine (C++/Eigen semantics over exact rational functions)']

    # --- recording
    def ok(self, key, detail=''):
        self.obl.append((key, 'discharged', detail))

    def undec(self, key, why):
        self.obl.append((key, 'undecided', str(why)[:300]))

    def bad(self, key, where, what, **kw):
        self.obl.append((key, 'violated', what))
        self.viol.append(dict(key=key, where=where, what=what, **kw))

    def cover(self, I):
        """record which functions the interpreter analysed"""
        for i in I.visited:
            f = I.p.funcs.get(i)
            if f:
                self.analysed.add('%s (%s:%s)' % (f['q'][:120], os.path.relpath(f['file'], REPO) if f['file'].startswith(REPO) else f['file'], f['line']))

    def par(self, items, fn, jobs=None):
        """fn(item) for every item, spread over forked worker processes; results are merged in order"""
        import pickle
        items = list(items)
        jobs = min(jobs or os.cpu_count() or 1, len(items), 8)
        if jobs <= 1 or os.environ.get('LF_SERIAL'):
            for x in items:
                fn(x)
            return
        sys.stdout.flush()
        chunks = []
        for k in range(jobs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    out = []
                    for i in range(k, len(items), jobs):
                        self.obl, self.viol, self.analysed = [], [], set()
                        fn(items[i])
                        out.append((i, self.obl, self.viol, self.analysed))
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(out, f)
                    code = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(w)
            chunks.append((pid, r))
        res = []
        fail = False
        for pid, r in chunks:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            _, st = os.waitpid(pid, 0)
            if st or not data:
                fail = True
            else:
                res += pickle.loads(data)
        if fail:
            raise CheckError('a worker process of the analysis failed')
        for _, o, v, a in sorted(res, key=lambda x: x[0]):
            self.obl += o
            self.viol += v
            self.analysed |= a

    # --- obligations
    def attempt(self, key, where, fn):
        """run one obligation; abstract aborts on valid input are violations"""
        from vals import Undecided, ThrowEx
        from alg import Blowup
        try:
            fn()
        except Undecided as ex:
            if os.environ.get("LF_DEBUG") == "2":
                raise
            self.undec(key, ex)
        except Blowup as ex:
            self.undec(key, 'term size limit: %s' % ex)
        except ThrowEx as ex:
            if os.environ.get("LF_DEBUG") == "2":
                raise
            self.bad(key, where, 'aborts for every valid input: %s' % ex.why)
        except RecursionError:
            self.undec(key, 'recursion limit')
        except (AttributeError, TypeError, KeyError, IndexError, ValueError) as ex:
            # the analysed code produced a value of a shape the rule does not handle
            if os.environ.get('LF_DEBUG'):
                raise
            tb = ex.__traceback__
            while tb.tb_next:
                tb = tb.tb_next
            self.undec(key, 'unexpected value: %s (%s:%d)' % (ex, os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno))

    def equal(self, key, where, a, b, samples=None, what='values differ'):
        """a == b for all inputs.  samples: list of dict name->Fraction of valid inputs used to confirm a difference"""
        import vals
        from vals import Cell
        a = a.v if isinstance(a, Cell) else a
        b = b.v if isinstance(b, Cell) else b
        if exact_same(a, b):
            self.ok(key)
            return True
        if isinstance(a, vals.Top) and a.why.startswith('uninitialised') and not isinstance(b, vals.Top):
            self.bad(key, where, '%s: the value is computed from an object that was never initialised (%s)' % (what, a.why), expected=txt(b))
            return False
        w = self.witness(a, b, samples)
        if w is None:
            self.undec(key, 'terms differ syntactically, no separating valid input among the samples: %s vs %s' % (txt(a, 80), txt(b, 80)))
            return None
        self.bad(key, where, what, found=txt(a), expected=txt(b), witness={str(k): str(v) for k, v in list(w[0].items())[:40] if isinstance(k, str)},
                 value_found=str(w[1]), value_expected=str(w[2]))
        return False

    def witness(self, a, b, samples, n=14):
        """a valid input on which a and b differ, or None.  Sampled inputs first; if the values contain
        conditionals, inputs steered to both sides of (and onto) every branch condition."""
        ss = samples if samples is not None else [{} for _ in range(n)]
        if callable(ss):
            ss = [ss(i) for i in range(n)]

        def test(env):
            try:
                x, y = evalnum(a, env), evalnum(b, env)
            except (ArithmeticError, ValueError, OverflowError):
                return None
            if isinstance(x, Fraction) and isinstance(y, Fraction) or isinstance(x, int) and isinstance(y, int):
                if abs(x - y) > Fraction(1, 10**9) * (1 + abs(x) + abs(y)):
                    return env.d, x, y
            else:
                try:
                    if abs(complex(x) - complex(y)) > 1e-7 * (1 + abs(complex(x)) + abs(complex(y))):
                        return env.d, x, y
                except (TypeError, OverflowError):
                    pass
            return None
        for i, s in enumerate(ss):
            r = test(Env(dict(s), salt=i))
            if r:
                return r
        valid = getattr(samples, 'valid', None)
        ats = []
        cond_atoms(a, ats)
        cond_atoms(b, ats)
        if not ats or valid is None:
            return None
        budget = [4000]
        for i, s in enumerate(ss[:3]):
            r = self.steer(dict(s), i, ats, valid, test, budget, 2)
            if r:
                return r
        for f in ats[:6]:
            for i, s in enumerate(ss[:2]):
                for env in descend(f, dict(s), i, valid):
                    r = test(Env(env, salt=i))
                    if r:
                        return r
        return None

    def steer(self, base, salt, ats, valid, test, budget, depth):
        for f in ats[:12]:
            try:
                names = sorted(x for x in f.allnames() if isinstance(x, str) and x in base)
            except Exception:
                continue
            for nme in names[:8]:
                for cand in roots(f, nme, base, salt):
                    if budget[0] <= 0:
                        return None
                    budget[0] -= 1
                    env = dict(base)
                    env[nme] = cand
                    if not valid(env):
                        continue
                    r = test(Env(dict(env), salt=salt))
                    if r:
                        return r
                    if depth > 1:
                        r = self.steer(env, salt, [g for g in ats if g is not f], valid, test, budget, depth - 1)
                        if r:
                            return r
        return None

    def equal_mat(self, key, where, A, B, samples=None, what='matrices differ'):
        if A.rows != B.rows or A.cols != B.cols:
            self.bad(key, where, '%s: shape %dx%d instead of %dx%d' % (what, A.rows, A.cols, B.rows, B.cols))
            return False
        r = True
        for i in range(A.rows):
            for j in range(A.cols):
                x = self.equal('%s(%d,%d)' % (key, i, j), where, A.cells[i][j].v, B.cells[i][j].v, samples, what)
                r = r and x
        return r

    def no_abort(self, key, I, samples, since=(0, 0)):
        """no assertion or throw met by the analysis fires on the sample of valid inputs.  Assertions are
        assumptions of the values computed; this rule rejects assertions that exclude valid input."""
        from vals import Cond, c_not
        n = 0
        for c, pc, where in I.asserts[since[0]:]:
            n += 1
            self._abort1(key, where, tuple(pc) + (c_not(c),), samples, 'an assertion rejects valid input')
        for g, why, where in I.throws[since[1]:]:
            n += 1
            self._abort1(key, where, (g,), samples, 'throws on valid input: %s' % why)
        return n

    def _abort1(self, key, where, conds, samples, what):
        if any(not algebraic(c) for c in conds):
            return
        for i in range(4):
            env = Env(dict(samples(i)), salt=i)
            try:
                if all(evalcond(c, env) for c in conds):
                    self.bad('%s:abort@%s' % (key, where.split('/')[-1]), where, what, witness={str(k): str(v) for k, v in list(env.d.items())[:30]})
                    return
            except (ArithmeticError, ValueError, OverflowError):
                pass

    def no_abort_atoms(self, key, I, pre):
        """assertions and throws whose condition consists of freely choosable truth values only
        (opaque conditions with one of the given key prefixes) must not be reachable"""
        from vals import c_not, c_and

        def atoms(c, out):
            if isinstance(c, bool):
                return True
            if c.kind == 'op':
                out.add(c)
                return isinstance(c.a, str) and c.a.startswith(pre)
            if c.kind == 'not':
                return atoms(c.a, out)
            if c.kind in ('and', 'or'):
                return all([atoms(x, out) for x in c.a])
            return False

        def val(c, m):
            if isinstance(c, bool):
                return c
            if c.kind == 'op':
                return m[c]
            if c.kind == 'not':
                return not val(c.a, m)
            return (all if c.kind == 'and' else any)(val(x, m) for x in c.a)
        L = [(tuple(pc) + (c_not(c),), wh, 'an assertion rejects valid input') for c, pc, wh in I.asserts]
        L += [((g,), wh, 'aborts on valid input: %s' % why) for g, why, wh in I.throws]
        for conds, wh, what in L:
            at = set()
            if not all([atoms(c, at) for c in conds]) or len(at) > 14:
                continue
            at = sorted(at, key=str)
            for m in range(1 << len(at)):
                mm = {a: bool(m >> i & 1) for i, a in enumerate(at)}
                if all(val(c, mm) for c in conds):
                    self.bad('%s:abort@%s' % (key, wh.split('/')[-1]), wh, what, path={str(a): v for a, v in mm.items()})
                    break
        self.ok(key + ':no_abort')

    def require(self, key, where, cond, what, **kw):
        if cond:
            self.ok(key)
        else:
            self.bad(key, where, what, **kw)
        return bool(cond)

    # --- end
    def finish(self, expect_min=1):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        rdir = os.path.join(BUILD, 'replay')
        os.makedirs(rdir, exist_ok=True)
        n = len(self.obl)
        dis = sum(1 for o in self.obl if o[1] == 'discharged')
        und = [(o[0], o[2]) for o in self.obl if o[1] == 'undecided']
        new = []
        seen_known = []
        for v in self.viol:
            k = match_known(self.known, v)
            if k:
                if k not in seen_known:
                    seen_known.append(k)
            else:
                new.append(v)
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': self.level,
              'coverage': {'explanation': self.rule, 'rule': self.rule, 'obligations': n, 'discharged': dis, 'undecided': len(und),
                           'undecided_list': [list(u) for u in und[:60]],
                           'known_findings': [k['id'] for k in seen_known],
                           'functions_analysed': len(self.analysed), 'functions': sorted(self.analysed)[:400],
                           'samples': [list(o) for o in self.obl[:: max(1, n // 12)]][:14],
                           'checker_cmd': 'python3 /verif/checks/run.py %s' % self.pid, 'trusted_base': self.trusted,
                           'exhaustive': False, **self.extra},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if new:
            p = os.path.join(rdir, '%s.json' % self.pid)
            with open(p, 'w') as f:
                json.dump({'property': self.pid, 'rule': self.rule, 'violations': new}, f, indent=1, default=str)
            for v in new[:8]:
                print('%s: [%s] %s: %s' % (v['where'], self.pid, v['key'], v['what']))
                for x in ('found', 'expected', 'witness', 'value_found', 'value_expected', 'path'):
                    if x in v:
                        print('    %s: %s' % (x, str(v[x])[:400]))
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        print('%s: %d obligations, %d discharged, %d undecided, %d known findings, %.1f s' % (self.pid, n, dis, len(und), len(seen_known), time.time() - self.t0))
        if und and os.environ.get('LF_V'):
            for u in und[:40]:
                print('   undecided', u[0], u[1])
        if n < min(expect_min, 20):
            print('%s: the analysis found nothing to decide (%d obligations, expected at least %d)' % (self.pid, n, expect_min))
            return 2
        return 0


def cond_atoms(v, out, depth=0):
    """the polynomials compared with 0 in the branch conditions of a value"""
    from alg import RF
    from vals import Cx, Ite, Cond
    if depth > 40 or len(out) > 40:
        return
    if isinstance(v, Ite):
        cond_atoms(v.c, out, depth + 1)
        cond_atoms(v.a, out, depth + 1)
        cond_atoms(v.b, out, depth + 1)
    elif isinstance(v, Cx):
        cond_atoms(v.re, out, depth + 1)
        cond_atoms(v.im, out, depth + 1)
    elif isinstance(v, Cond):
        if v.kind in ('lt', 'le', 'eq'):
            if isinstance(v.a, RF):
                if not any(v.a is x or (v.a - x).is_zero() for x in out):
                    out.append(v.a)
            else:
                cond_atoms(v.a, out, depth + 1)
        elif v.kind == 'not':
            cond_atoms(v.a, out, depth + 1)
        elif v.kind in ('and', 'or'):
            for x in v.a:
                cond_atoms(x, out, depth + 1)


def descend(f, base, salt, valid, steps=40):
    """coordinate descent on |f| inside the valid inputs, to reach conditions that involve many variables"""
    names = sorted(x for x in f.allnames() if isinstance(x, str) and x in base)
    if len(names) < 2:
        return

    def val(env):
        return abs(float(f.eval(Env(dict(env), salt=salt))))
    try:
        cur = val(base)
        env = dict(base)
        step = Fraction(1, 4)
        for _ in range(steps):
            moved = False
            for nme in names[:16]:
                for d in (step, -step):
                    e2 = dict(env)
                    e2[nme] = env[nme] + d
                    if not valid(e2):
                        continue
                    v = val(e2)
                    if v < cur:
                        env, cur, moved = e2, v, True
                        break
            if not moved:
                step /= 4
                yield dict(env)
                if step < Fraction(1, 100000):
                    return
    except (ArithmeticError, ValueError, OverflowError, TypeError):
        return
    yield dict(env)


def roots(f, nme, base, salt):
    """values of variable nme on and around the zeros of f, the other variables as in base"""
    def g(x):
        e = Env(dict(base), salt=salt)
        e.d[nme] = x
        return f.eval(e)
    out = []
    try:
        g0, g1, g2 = g(Fraction(0)), g(Fraction(1)), g(Fraction(2))
        if all(isinstance(x, (int, Fraction)) for x in (g0, g1, g2)) and g2 - g1 == g1 - g0:
            if g1 == g0:
                return []
            r = -Fraction(g0) / (g1 - g0)
            return [r, r + Fraction(1, 1000), r - Fraction(1, 1000), r + Fraction(1, 10), r - Fraction(1, 10)]
        prev = None
        x0 = Fraction(base[nme])
        for k in range(-20, 21):
            x = x0 + Fraction(k, 8)
            y = float(g(x))
            if prev is not None and (prev[1] < 0) != (y < 0):
                lo, hi = prev[0], x
                slo = prev[1] < 0
                for _ in range(30):
                    m = (lo + hi) / 2
                    if (float(g(m)) < 0) == slo:
                        lo = m
                    else:
                        hi = m
                out += [lo, hi, lo - Fraction(1, 1000), hi + Fraction(1, 1000)]
            prev = (x, y)
    except (ArithmeticError, ValueError, OverflowError, TypeError):
        pass
    return out


def algebraic(c):
    if isinstance(c, bool):
        return True
    if c.kind in ('lt', 'le', 'eq'):
        from alg import RF
        return isinstance(c.a, RF)
    if c.kind == 'not':
        return algebraic(c.a)
    if c.kind in ('and', 'or'):
        return all(algebraic(x) for x in c.a)
    return False


def exact_same(a, b):
    from alg import RF
    from vals import Cx, Ite, Cond, restrict, is_num, to_rf
    import alg
    if type(a) is type(b) and not isinstance(a, (Ite,)):
        if isinstance(a, RF):
            return (a - b).is_zero()
        if isinstance(a, Cx):
            return exact_same(a.re, b.re) and exact_same(a.im, b.im)
        try:
            return bool(a == b)
        except Exception:
            return False
    if isinstance(a, Ite) or isinstance(b, Ite):
        c = a.c if isinstance(a, Ite) else b.c
        return exact_same(restrict(a, c, True), restrict(b, c, True)) and exact_same(restrict(a, c, False), restrict(b, c, False))
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return a == b
    if isinstance(a, Cx) or isinstance(b, Cx):
        a2, b2 = (x if isinstance(x, Cx) else Cx(to_rf(x), alg.ZERO) for x in (a, b))
        return exact_same(a2, b2)
    try:
        return (to_rf(a) - to_rf(b)).is_zero()
    except Exception:
        return False


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid]


def match_known(known, v):
    for k in known:
        if k['key'] == v['key'] and (not k.get('what_contains') or k['what_contains'] in v['what']):
            return k
    return None


def loc(f):
    """file:line of a function record"""
    if f is None:
        return '?'
    p = f['file']
    return '%s:%s (%s)' % (os.path.relpath(p, REPO) if p.startswith(REPO) else p, f['line'], f['sq'])


def F(a, b=1):
    return Fraction(a, b)
