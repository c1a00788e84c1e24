"""Paths, building of the code under verification, evidence and outcome reporting."""
import os, sys, json, shutil, subprocess, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DPV_REPO', '/repo')
VENV_PY = '/opt/venv/bin/python'
TOOLS_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
CEXT = {'correlation': ('c/correlation.c', 'power_spectrum'),
        'mem': ('c/mem.c', 'power_spectrum'),
        'displacements': ('c/displacements.c', '')}
CFLAGS = ['-std=c99', '-fopenmp', '-O2', '-fPIC', '-shared', '-w', '-fno-strict-aliasing']


def base_env(pkg_parent=None):
    env = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           'HOME': os.environ.get('HOME', '/root'), 'LANG': 'C.UTF-8',
           'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg',
           'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '2',
           'DPV_REPO': REPO,
           'VERIF_SEED': os.environ.get('VERIF_SEED', '1'),
           'VERIF_TIER': os.environ.get('VERIF_TIER', 'quick')}
    if pkg_parent:
        env['PYTHONPATH'] = pkg_parent + ':' + VERIF
        env['MPLCONFIGDIR'] = os.path.join(pkg_parent, 'mpl')
        env['DPV_PKG'] = pkg_parent
    return env


def py_config():
    out = subprocess.check_output([VENV_PY, '-c',
        'import sysconfig,numpy;print(sysconfig.get_paths()["include"]);print(numpy.get_include());'
        'print(sysconfig.get_config_var("EXT_SUFFIX"))'], text=True).split('\n')
    return out[0], out[1], out[2]


def build(scratch, sanitize=False):
    """Copies the package of the present working tree and compiles its native kernels from source.
    Returns the directory to put on PYTHONPATH. Nothing is written in /repo."""
    parent = os.path.join(scratch, 'pkg')
    dst = os.path.join(parent, 'dynaphopy')
    shutil.copytree(os.path.join(REPO, 'dynaphopy'), dst,
                    ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyc', '*.pyd'))
    inc, npinc, suffix = py_config()
    flags = list(CFLAGS)
    if sanitize:
        flags = ['-std=c99', '-O1', '-g', '-fPIC', '-shared', '-w', '-fsanitize=address,undefined', '-fopenmp']
    procs = []
    for name, (src, sub) in CEXT.items():
        out = os.path.join(dst, sub, name + suffix)
        cmd = ['gcc'] + flags + ['-I' + inc, '-I' + npinc, os.path.join(REPO, src), '-o', out, '-lm']
        procs.append((name, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for name, p in procs:
        o = p.communicate()[0]
        if p.returncode:
            raise RuntimeError('cannot compile %s: %s' % (name, o.decode()[:2000]))
    os.makedirs(os.path.join(parent, 'mpl'), exist_ok=True)
    return parent


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='dpv-')
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def known_findings(pid):
    """Committed findings of this property: list of dicts with an 'id' and a 'match' substring."""
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path)).get('findings', []) if f['property'] == pid]


def write_replay(pid, data):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s.json' % (pid, h))
    with open(path, 'w') as f:
        json.dump(data, f, indent=1, default=str)
    return path


def write_evidence(pid, data):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(data, f, indent=1, default=str)
