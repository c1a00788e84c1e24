"""Confirms a planted bug in a private copy of /repo mounted over /repo (own user and mount namespace).
   plant.py DIR: DIR has patch.diff and demo.sh. Prints what was confirmed."""
import os, sys, subprocess, tempfile, shutil, json


def main(d):
    d = os.path.abspath(d)
    w = tempfile.mkdtemp(prefix='plant-')
    try:
        subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
        subprocess.check_call(['cp', '-a', '/opt/vp/state', w + '/state'])
        os.makedirs(w + '/demo')
        for f in os.listdir(d):
            if not f.endswith(('.diff', '.json')):
                shutil.copy(os.path.join(d, f), w + '/demo')
        sh = '''
mount --bind %(w)s/repo /repo && mount --bind %(w)s/state /opt/vp/state && cd /repo
export PYTHONDONTWRITEBYTECODE=1
timeout 300 bash %(w)s/demo/demo.sh > %(w)s/d0 2>&1; echo clean=$? > %(w)s/res
git apply %(d)s/patch.diff || exit 3
bash /opt/vp/build.sh > %(w)s/b 2>&1; echo build=$? >> %(w)s/res
timeout 300 bash %(w)s/demo/demo.sh > %(w)s/d1 2>&1; echo patched=$? >> %(w)s/res
bash /opt/vp/test.sh %(w)s/t.json > %(w)s/t 2>&1
''' % dict(w=w, d=d)
        r = subprocess.call(['unshare', '-Urm', 'bash', '-c', sh])
        res = dict(l.strip().split('=') for l in open(w + '/res')) if os.path.exists(w + '/res') else {}
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        passed = set()
        if os.path.exists(w + '/t.json'):
            t = json.load(open(w + '/t.json'))
            passed = set(t.get('passed', []))
        missing = stable - passed
        good = res.get('clean') == '0' and res.get('patched') not in ('0', None) and res.get('build') == '0' and not missing
        print(os.path.basename(d), 'GOOD' if good else 'BAD', res, 'failed tests: %s' % sorted(missing))
        if not good:
            for f in ('d0', 'd1', 'b'):
                p = os.path.join(w, f)
                if os.path.exists(p):
                    print('---', f, open(p, errors='replace').read()[-800:])
        else:
            print('    ', open(w + '/d1', errors='replace').read().strip().split('\n')[-1][:200])
        return 0 if good else 1
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    sys.exit(max(main(a) for a in sys.argv[1:]))
