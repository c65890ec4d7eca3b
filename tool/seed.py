#!/usr/bin/env python3
"""seed.py SPEC.py: create seeded/<id>/ from a spec (variables ID, PROPERTY, EDITS=[(file, old, new)], DEMO (C++ text), NEEDS, BREAKS)
and validate it in /repo: builds, stable tests pass, demo fails with the patch and passes without, and what the check says."""
import sys, os, subprocess, json
spec = {}
exec(open(sys.argv[1]).read(), spec)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = V + '/seeded/' + spec['ID']
R = os.environ.get('SEED_WORK', '/tmp/mw')   # a scratch copy of /repo with its own build tree _build
os.makedirs(d, exist_ok=True)


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


assert not sh('git -C ' + R + ' status --porcelain').stdout.strip(), 'dirty ' + R
for f, a, b in spec['EDITS']:
    p = os.path.join(R, f)
    s = open(p).read()
    assert s.count(a) >= 1, (f, a, s.count(a))
    if s.count(a) > 1 and not spec.get('FIRST'):
        sh('git -C ' + R + ' checkout -- .')
        sys.exit('ambiguous edit in %s (%d)' % (f, s.count(a)))
    open(p, 'w').write(s.replace(a, b, 1))
diff = sh('git -C ' + R + ' diff').stdout
sh('git -C ' + R + ' checkout -- .')
open(d + '/patch.diff', 'w').write(diff)
open(d + '/demo.cc', 'w').write(spec['DEMO'])
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it does not (or the demo does not build)
d=$(cd "$(dirname "$0")" && pwd)
R=$PWD
B=$R/_build
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
L=$(find $B/lib $B/projects -name '*.a')
g++ -std=gnu++20 -O0 -w -DBOOST_ENABLE_ASSERT_DEBUG_HANDLER -DFMT_SHARED -DLF_REDIRECT_ASSERTS -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB \\
  -I$R/lib -I$R/projects/dpg -I$R/projects/ipdg_stokes -I$R/projects -isystem /usr/include/eigen3 "$d/demo.cc" -o "$t/demo" \\
  -Wl,--start-group $L -Wl,--end-group -lspdlog -lfmt -lboost_program_options -lbacktrace -ldl -lpthread || exit 3
cd "$t" && timeout 120 ./demo
''')
json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
os.chmod(d + '/demo.sh', 0o755)
if '--nocheck' in sys.argv:
    sys.exit(0)
r0 = sh('bash %s/demo.sh' % d, cwd=R)
print('demo on clean tree:', r0.returncode, (r0.stdout + r0.stderr)[-600:] if r0.returncode else '')
sh('git -C %s apply %s/patch.diff' % (R, d))
try:
    e = '. /tmp/mwenv.sh; '
    b = sh(e + "T=$(ninja -C $B -t targets all | sed -nE 's|^([^ ]+/test/[^ ]+[._]test): CXX_EXECUTABLE_LINKER.*|\\1|p'); ninja -C $B $T")
    print('build', b.returncode, b.stdout[-1500:] if b.returncode else '')
    if b.returncode == 0:
        sh(e + "rm -rf $B/vp-reports; mkdir -p $B/vp-reports; ctest --test-dir $B -j8 --timeout 300 --output-junit $B/vp-reports/main.xml; python3 /opt/vp/results.py /tmp/seed_out.json junit:$B/vp-reports/*.xml")
        o = json.load(open('/tmp/seed_out.json'))
        st = json.load(open('/opt/vp/BASELINE.json'))['stable']
        miss = [x for x in st if x not in o['passed']]
        print('stable tests failing:', len(miss), miss[:8])
        r1 = sh('bash %s/demo.sh' % d, cwd=R)
        print('demo with patch:', r1.returncode, (r1.stdout + r1.stderr)[-300:])
        c = sh('LF_REPO=%s python3 checks/run.py %s' % (R, spec['PROPERTY']), cwd=V)
        rp = V + '/doc/seed_results.json'
        rs = json.load(open(rp)) if os.path.exists(rp) else {}
        rs[spec['ID']] = 'yes, by ' + spec['PROPERTY'] if c.returncode == 1 and 'VIOLATION property=' + spec['PROPERTY'] in c.stdout else 'no'
        json.dump(rs, open(rp, 'w'), indent=1, sort_keys=True)
        print('check:', c.returncode, (c.stdout + c.stderr)[-900:])
finally:
    sh('git -C ' + R + ' checkout -- .')
