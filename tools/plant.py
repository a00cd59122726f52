"""Develop planted bugs: plant.py SPEC.py [ID ...] [--no-tests]

SPEC.py defines BUGS, a list of dicts: id, property, edits [(file under src/MTfit, old, new)], demo (Python text),
needs, what.  For each bug the change is made in a scratch copy of /repo, the demo is run on the unchanged tree and on
the copy, the stable tests are run in the copy, and /verif/seeded/<id> is written if all of it is as it should be.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', LANG='C.UTF-8',
           PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
           CC='/opt/vp/lib/cc', CCACHE_DIR='/opt/vp/ccache', CCACHE_COMPILERCHECK='content')
DEMO_SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg
cd "$t" || exit 2
timeout 250 /opt/venv/bin/python "$d/demo.py"
'''


def sh(cmd, cwd, env=ENV, timeout=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           errors='replace')
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def tests(copy):
    work = tempfile.mkdtemp(prefix='planttest-')
    env = dict(ENV, VP_WORK=work, PYTHONPATH='/opt/vp/compat:' + copy + '/src', MTFIT_TEST_PLOT_DIR=work + '/plots')
    os.makedirs(work + '/plots')
    sh(['python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'vp_isolate', '-n', '6', '--dist', 'load', '--timeout=300',
        '--continue-on-collection-errors', '--rootdir=' + copy, '--disable-warnings', '--tb=short', '--log-level=WARNING',
        '-o', 'junit_family=xunit2', '--junitxml=' + work + '/junit.xml', copy + '/src/MTfit/tests'], work, env)
    sh(['python3', '/opt/vp/results.py', work + '/out.json', 'junit:' + work + '/junit.xml'], work, env)
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    try:
        passed = set(json.load(open(work + '/out.json'))['passed'])
    except (OSError, ValueError):
        return ['no result']
    shutil.rmtree(work, ignore_errors=True)
    return [t for t in stable if t not in passed]


def one(b, run_tests):
    out = '/verif/seeded/' + b['id']
    copy = tempfile.mkdtemp(prefix='plant-')
    try:
        c = copy + '/repo'
        subprocess.run(['cp', '-a', '/repo', c], check=True)
        sh(['git', 'tag', '-d', 'vcheck-pass'], c)      # not a version: setup.py would not run
        for f, old, new in b['edits']:
            p = os.path.join(c, 'src/MTfit', f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit of %s matches %d times' % (f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        rc, diff = sh(['git', 'diff', '--no-color'], c)
        if rc or not diff:
            return 'no diff'
        # lines of the original repository are changed
        orig = False
        for f, old, new in b['edits']:
            rc, bl = sh(['git', 'blame', '-s', 'HEAD', '--', 'src/MTfit/' + f], '/repo')
            for line in diff.splitlines():
                if line.startswith('-') and not line.startswith('---'):
                    if any(x.startswith('^b5efbc0') and re.sub(r'^\S+\s+\d+\) ?', '', x) == line[1:] for x in bl.splitlines()):
                        orig = True
        if not orig:
            return 'no original line is changed'
        if any(f.endswith('.pyx') for f, _, _ in b['edits']):
            rc, o = sh(['bash', '-c', 'for f in %s; do rm -f src/MTfit/${f%%.pyx}.c src/MTfit/${f%%.pyx}.cpython*; done; python setup.py build_ext --inplace -j4' % ' '.join(
                f for f, _, _ in b['edits'] if f.endswith('.pyx'))], c)
            for f, _, _ in b['edits']:
                if f.endswith('.pyx') and not any(x.endswith('.so') and x.startswith(os.path.basename(f)[:-4] + '.') for x in os.listdir(os.path.dirname(os.path.join(c, 'src/MTfit', f)))):
                    return 'not built: ' + o[-1500:]
        d = copy + '/demo'
        os.makedirs(d)
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(b['demo'])
        for i in range(2):
            rc, o = sh(['bash', d + '/demo.sh'], '/repo')
            if rc:
                return 'demo fails on the unchanged tree: ' + o[-1500:]
            rc, o = sh(['bash', d + '/demo.sh'], c)
            if rc in (0, 2, 124):
                return 'demo passes (%d) with the change: %s' % (rc, o[-1500:])
        if 'AssertionError' not in o:
            print('   note: demo fails with', o.strip().splitlines()[-1:])
        if run_tests:
            m = tests(c)
            if m:
                return 'fails %d stable tests: %s' % (len(m), m[:3])
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        shutil.copy(d + '/demo.sh', out)
        shutil.copy(d + '/demo.py', out)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(out + '/meta.json', 'w'), indent=1)
        return 'ok'
    finally:
        shutil.rmtree(copy, ignore_errors=True)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    for b in runpy.run_path(args[0])['BUGS']:
        if len(args) > 1 and b['id'] not in args[1:]:
            continue
        print(b['id'], one(b, '--no-tests' not in sys.argv), flush=True)
