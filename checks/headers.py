"""H01: headers are self-contained and repeatable; H02: the generic interface can be instantiated"""
import subprocess, os, re, shutil
from concurrent.futures import ThreadPoolExecutor
from lib import *

CF = ['-I%s/projects/ipdg_stokes/%s' % (REPO, d) for d in ('assemble', 'mesh', 'post_processing')] + [f for f in FLAGS if f != '-DSPDLOG_ACTIVE_LEVEL=6'] + ['-DSPDLOG_ACTIVE_LEVEL=SPDLOG_LEVEL_TRACE']


def headers():
    out = []
    for base in ('lib/lf', 'projects'):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            if '/_build' in d or re.search(r'/(test|tests|test_utils|convergence_studies|examples)(/|$)', os.path.relpath(d, REPO) + '/'):
                continue
            out += [os.path.join(d, f) for f in fs if f.endswith('.h')]
    return sorted(out)


def run(args, text):
    return subprocess.run(['clang++'] + CF + args + ['-x', 'c++', '-'], input=text, capture_output=True, text=True)


def firsterr(err):
    """(where, message) of the first error, preferring a location in the repository"""
    ls = err.split('\n')
    msg = where = None
    for l in ls:
        m = re.match(r'(.*?):(\d+):\d+: (?:fatal )?error: (.*)', l)
        if m and msg is None:
            msg, where = m.group(3), '%s:%s' % (m.group(1), m.group(2))
            if REPO in m.group(1):
                break
            continue
        m = re.match(r'(.*?):(\d+):\d+: note: (?:.*requested here|in instantiation.*)', l)
        if m and msg and REPO in m.group(1):
            where = '%s:%s' % (m.group(1), m.group(2))
            break
    if where and where.startswith(BUILD):
        where = 'checks/apiwit.py'
    return (where or '?').replace(REPO + '/', ''), msg or err[-200:]


def H01(pid):
    c = Check(pid, rule='every header of the library and the projects is compiled in a translation unit of its own that includes it twice (to LLVM IR); rule: no error; no strong (non-inline, external) function or variable definition in the IR, which would be defined again in every other translation unit; no call of an undefined LF_ or BOOST_ASSERT macro left after preprocessing. All library headers are also compiled together in ascending and descending order in debug and release mode (thorough: each header in release mode).')
    hs = headers()
    inc = lambda h: '#include "%s"\n' % h

    def one(h):
        rel = os.path.relpath(h, REPO)
        res = []
        r = run(['-O0', '-S', '-emit-llvm', '-ferror-limit=3', '-o', '-'], inc(h) * 2)
        if r.returncode:
            w, m = firsterr(r.stderr)
            res.append((rel + '/alone', w, 'the header does not compile when it is included first (or twice): ' + m))
            return res
        res.append((rel + '/alone', None, None))
        strong = []
        for l in r.stdout.split('\n'):
            m = re.match(r'define (?!.*\b(?:linkonce|linkonce_odr|weak|weak_odr|internal|private|available_externally)\b[^@]*@)[^@]*@("[^"]*"|[\w.$]+)', l)
            if m:
                strong.append(m.group(1))
            m = re.match(r'@("[^"]*"|[\w.$]+) = ((?:\S+ )*?)(?:global|constant) ', l)
            if m and not re.search(r'\b(linkonce|linkonce_odr|weak|weak_odr|internal|private|external|available_externally|appending)\b', m.group(2)):
                strong.append(m.group(1))
        strong = [s for s in strong if not s.startswith('llvm.')]
        if strong:
            d = subprocess.run(['c++filt'] + strong, capture_output=True, text=True).stdout.split('\n')[0]
            res.append((rel + '/odr', rel, 'the header defines %s with external linkage: two translation units that include it cannot be linked' % d))
        else:
            res.append((rel + '/odr', None, None))
        if TIER == 'thorough':
            r = run(['-DNDEBUG', '-fsyntax-only', '-ferror-limit=3'], inc(h))
            w, m = firsterr(r.stderr) if r.returncode else (None, None)
            res.append((rel + '/release', w, m and 'the header does not compile in release mode: ' + m))
        r = run(['-E', '-P'], inc(h))
        left = sorted(set(re.findall(r'\b((?:LF_[A-Z_]+|BOOST_ASSERT[A-Z_]*|BOOST_VERIFY[A-Z_]*|SPDLOG_LOGGER_[A-Z]+))\s*\(', r.stdout)))
        res.append((rel + '/macros', rel if left else None, left and 'the macro %s is used but not defined when the header is included first' % left[0]))
        return res
    with ThreadPoolExecutor(8) as ex:
        rs = [x for r in ex.map(one, hs) for x in r]
        lib = [h for h in hs if '/lib/lf/' in h]
        both = [ex.submit(run, a + ['-fsyntax-only', '-ferror-limit=3'], ''.join(inc(h) for h in o)) for o in (lib, lib[::-1]) for a in ([], ['-DNDEBUG'])]
        for n, f in zip(('ascending', 'ascending-release', 'descending', 'descending-release'), both):
            r = f.result()
            w, m = firsterr(r.stderr) if r.returncode else (None, None)
            rs.append(('all/' + n, w, m and 'the headers do not compile together: ' + m))
    for k, w, m in rs:
        c.require(k, w or '', not m, m or '')
        c.analysed.add(k.rsplit('/', 1)[0])
    return c.finish(200)


PRE = '''
using namespace lf;
using C = std::complex<double>;
using mesh::utils::MeshFunctionConstant; using mesh::utils::MeshFunctionGlobal;
'''
UMB = ['assemble/assemble', 'base/base', 'fe/fe', 'geometry/geometry', 'geometry/print_info', 'io/io', 'mesh/mesh', 'mesh/hybrid2d/hybrid2d',
       'mesh/utils/utils', 'quad/quad', 'refinement/refinement', 'uscalfe/uscalfe']


def witnesses():
    from apiwit import W, BAD
    return W, BAD


def H02(pid):
    c = Check(pid, rule='compile-time witnesses: explicit instantiations and calls of the generic interface (finite elements, spaces, dof handlers, element matrix and vector providers, assembly, COO matrices, mesh functions and their arithmetic, integration, projection, data sets, mesh and geometry builders, refinement, input/output, output operators and formatters) for every documented combination of real and complex scalars, fixed and dynamic sizes and kinds of functor are type-checked with all bodies they instantiate against the current headers; static assertions decide which types the concepts accept; ill-formed uses must be rejected.')
    W, BAD = witnesses()
    d = os.path.join(BUILD, 'units')
    os.makedirs(d, exist_ok=True)
    hd = os.path.join(d, 'api-%d.h' % os.getpid())
    open(hd, 'w').write(''.join('#include <lf/%s.h>\n' % u for u in UMB) + '#include <iostream>\n#include <sstream>\n#include <spdlog/fmt/ostr.h>\n')
    tmp = [hd]
    try:
        pch = {}
        for n, fl in (('debug', []), ('release', ['-DNDEBUG'])):
            if n == 'release' and TIER != 'thorough':
                continue
            r = subprocess.run(['clang++'] + CF + fl + ['-x', 'c++-header', hd, '-o', hd + '.' + n], capture_output=True, text=True)
            if r.returncode:
                w, m = firsterr(r.stderr)
                c.bad('headers/' + n, w, 'the module headers do not compile together: ' + m)
                return c.finish(1)
            pch[n] = hd + '.' + n
            tmp.append(hd + '.' + n)

        def one(j):
            mode, k, text = j
            f = os.path.join(d, 'wit-%d-%s-%s.cc' % (os.getpid(), mode, k))
            open(f, 'w').write(PRE + text)
            r = subprocess.run(['clang++'] + CF + (['-DNDEBUG'] if mode == 'release' else []) + ['-include-pch', pch[mode], '-fsyntax-only', '-ferror-limit=5', '-ftemplate-backtrace-limit=0', f], capture_output=True, text=True)
            os.unlink(f)
            return r.returncode, r.stderr
        jobs = [(m, k, t) for m in pch for k, t in W.items()]
        bad = [('debug', 'bad%03d' % i, t) for i, (what, t) in enumerate(BAD)]
        with ThreadPoolExecutor(8) as ex:
            ra, rb = ex.map(one, jobs), ex.map(one, bad)
            for (m, k, t), (rc, err) in zip(jobs, ra):
                w, msg = firsterr(err) if rc else ('', '')
                c.require('%s/%s' % (k, m), w, not rc, 'a documented use of the interface (witness %s) does not compile: %s' % (k, msg))
            for (what, t), (rc, err) in zip(BAD, rb):
                c.require('reject/' + what, 'lib/lf', rc != 0, 'an ill-formed use is accepted: ' + what)
    finally:
        for f in tmp:
            os.path.exists(f) and os.unlink(f)
    return c.finish(len(W))
