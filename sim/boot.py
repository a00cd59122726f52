"""Stage the code under test: a scratch copy of /repo/src with extensions that match its sources.

The copy is made on every check run, so the checks always judge the current working tree.
Compiled extensions in /repo/src are used only when /repo/build/vp.stamp proves that they were
built from exactly the .pyx/.pxd files that are there now; otherwise they are rebuilt in the
scratch copy.  Nothing is written under /repo or /opt/vp.
"""
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
EXTS = ['probability/cprobability', 'convert/cmoment_tensor_conversion',
        'extensions/cscatangle', 'algorithms/cmarkov_chain_monte_carlo']

ENTRY_POINTS = """[MTfit.cmd_defaults]
scatangle = MTfit.extensions.scatangle:cmd_defaults

[MTfit.cmd_opts]
scatangle = MTfit.extensions.scatangle:cmd_opts

[MTfit.location_pdf_parsers]
.scatangle = MTfit.extensions.scatangle:location_pdf_parser

[MTfit.output_data_formats]
full_pdf = MTfit.utilities.file_io:full_pdf_output_dicts
hyp = MTfit.utilities.file_io:hyp_output_dicts

[MTfit.output_formats]
hyp = MTfit.utilities.file_io:hyp_output
matlab = MTfit.utilities.file_io:MATLAB_output
pickle = MTfit.utilities.file_io:pickle_output

[MTfit.parsers]
.csv = MTfit.utilities.file_io:parse_csv
.hyp = MTfit.utilities.file_io:parse_hyp

[MTfit.pre_inversion]
scatangle = MTfit.extensions.scatangle:pre_inversion
"""


def child_env(scratch, hashseed='0'):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('PBS_') or k.startswith('PYTHON'):
            del env[k]
    env.update(PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
               LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(hashseed),
               PYTHONUNBUFFERED='1', MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(scratch, 'mpl'),
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
               VERIF_SCRATCH=scratch, PYTHONPATH=VERIF)
    return env


def _sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def _stamp_key(repo):
    """The key of /opt/vp/lib/ext.sh: names and digests of everything the extensions are built from."""
    script = r'''cd "$1" || exit 1
{ git ls-files -co --exclude-standard -- 'src/*.pyx' 'src/*.pxd' 'src/*.pxi' | LC_ALL=C sort -u | while read -r f; do [ -f "$f" ] && sha256sum "$f"; done
  sha256sum setup.py setup.cfg versioneer.py src/MTfit/_version.py /opt/vp/lib/cc; } 2>&1 | sha256sum'''
    r = subprocess.run(['bash', '-c', script, 'x', repo], capture_output=True, text=True,
                       env=dict(os.environ, PATH='/usr/bin:/bin', GIT_OPTIONAL_LOCKS='0'))
    return r.stdout.strip()


def _so(directory, mod):
    d, b = os.path.split(os.path.join(directory, mod))
    if not os.path.isdir(d):
        return []
    return [os.path.join(d, f) for f in os.listdir(d) if f.startswith(b + '.') and f.endswith('.so')]


def stage(log=sys.stderr, need_ext=True):
    """Return the scratch directory: scratch/src/MTfit is the code under test."""
    scratch = tempfile.mkdtemp(prefix='mtfit-sim-')
    os.makedirs(os.path.join(scratch, 'mpl'))
    src = os.path.join(scratch, 'src')
    tests = os.path.join(REPO, 'src', 'MTfit', 'tests')

    def ignore(d, names):
        out = [n for n in names if n == '__pycache__' or n.endswith(('.c', '.pyc', '.so'))]
        if d == tests:
            out += [n for n in names if n != '__init__.py']
        return out
    shutil.copytree(os.path.join(REPO, 'src', 'MTfit'), os.path.join(src, 'MTfit'), ignore=ignore)
    egg = os.path.join(src, 'MTfit.egg-info')
    os.makedirs(egg)
    with open(os.path.join(egg, 'entry_points.txt'), 'w') as f:
        f.write(ENTRY_POINTS)
    with open(os.path.join(egg, 'PKG-INFO'), 'w') as f:
        f.write('Metadata-Version: 1.1\nName: MTfit\nVersion: 0\n')
    how = 'absent'
    if need_ext:
        stamp = os.path.join(REPO, 'build', 'vp.stamp')
        fresh = False
        base = os.path.join(REPO, 'src', 'MTfit')
        if os.path.exists(stamp) and all(_so(base, m) for m in EXTS):
            with open(stamp) as f:
                fresh = f.read().strip() == _stamp_key(REPO)
        if fresh:
            for m in EXTS:
                for so in _so(base, m):
                    shutil.copy2(so, os.path.join(src, 'MTfit', os.path.dirname(m)))
            how = 'in-place build, stamp matches'
        else:
            build(scratch, log)
            how = 'rebuilt in scratch'
    with open(os.path.join(scratch, 'STAGED'), 'w') as f:
        f.write(how)
    return scratch


def build(scratch, log):
    cc = os.path.join(scratch, 'cc')
    with open(cc, 'w') as f:
        f.write('#!/bin/bash\na=()\nfor x in "$@"; do [ "$x" = -march=native ] || a+=("$x"); done\nexec gcc "${a[@]}"\n')
    os.chmod(cc, 0o755)
    script = os.path.join(scratch, 'setup_ext.py')
    with open(script, 'w') as f:
        f.write('import numpy as np\nfrom setuptools import setup, Extension\n'
                'from Cython.Distutils import build_ext\n'
                'E = %r\n'
                "setup(name='MTfitsim', package_dir={'': 'src'}, include_dirs=[np.get_include()],\n"
                "      cmdclass={'build_ext': build_ext}, ext_modules=[Extension('MTfit.' + e.replace('/', '.'),\n"
                "      sources=['src/MTfit/' + e + '.pyx'], libraries=['m'], extra_compile_args=['-O3', '-w']) for e in E])\n" % (EXTS,))
    env = child_env(scratch)
    env['CC'] = cc
    env['PYTHONPATH'] = os.path.join(scratch, 'src')
    r = subprocess.run([PY, script, 'build_ext', '--inplace', '--force', '-j', '4'], cwd=scratch, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    missing = [m for m in EXTS if not _so(os.path.join(scratch, 'src', 'MTfit'), m)]
    if missing:
        log.write(r.stdout[-4000:] + '\nextensions not built: %s\n' % missing)
        raise RuntimeError('extension build failed')


def cleanup(scratch):
    if scratch and re.match(r'.*/mtfit-sim-[^/]+$', scratch):
        shutil.rmtree(scratch, ignore_errors=True)
