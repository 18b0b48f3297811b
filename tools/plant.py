#!/usr/bin/env python3
"""Confirm a seeded change and run checks against it, in a private mount namespace (the real /repo is untouched).

usage: plant.py ID [--props C04,C05 | --nocheck] [--tier quick]
prints: applies, builds, stable tests missing, demo exit code without/with the patch, exit code and VIOLATION line per check.
"""
import sys, os, json, subprocess, shutil, argparse, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('id'); ap.add_argument('--props'); ap.add_argument('--nocheck', action='store_true'); ap.add_argument('--tier', default='quick')
ap.add_argument('--notest', action='store_true'); ap.add_argument('--inner')
a = ap.parse_args()
sd = os.path.join(H, 'seeded', a.id)
meta = json.load(open(os.path.join(sd, 'meta.json')))
if not a.inner:
    w = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
    os.makedirs(w + '/reports'); os.makedirs(w + '/ev')
    os.makedirs(os.path.join(H, 'evidence'), exist_ok=True)
    cmd = 'mount --bind %s/repo /repo && mount --bind %s/reports /opt/vp/reports && mount --bind %s/ev %s/evidence && exec %s' % (
        w, w, w, H, ' '.join([sys.executable, os.path.abspath(__file__)] + sys.argv[1:] + ['--inner', w]))
    r = subprocess.run(['unshare', '-rm', 'bash', '-c', cmd])
    shutil.rmtree(w, ignore_errors=True)
    sys.exit(r.returncode)
w = a.inner
os.environ['VERIF_SEED'] = '1'; os.environ['VERIF_TIER'] = 'quick'
out = {'id': a.id, 'property': meta['property']}
def sh(c, t=900): return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t)
out['demo_clean'] = sh('cd /repo && bash %s/demo.sh' % sd, 300).returncode
r = sh('cd /repo && git apply --check %s/patch.diff && git apply %s/patch.diff' % (sd, sd))
out['applies'] = r.returncode == 0
if r.returncode: out['err'] = r.stderr[:300]
if out['applies']:
    d = sh('cd /repo && bash %s/demo.sh' % sd, 300)
    out['demo_patched'] = d.returncode
    out['demo_out'] = (d.stdout + d.stderr)[-200:]
    if not a.notest:
        out['build'] = sh('bash /opt/vp/build.sh').returncode
        sh('bash /opt/vp/test.sh %s/o.json' % w)
        b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o = json.load(open(w + '/o.json'))
        out['missing'] = sorted(b - set(o.get('passed', [])))[:5]
    if not a.nocheck:
        out['checks'] = {}
        for p in (a.props.split(',') if a.props else [meta['property']]):
            c = sh('cd %s && python3-vt check.py %s --tier %s' % (H, p, a.tier), 900)
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            rp = None
            if v:
                f = v[0].split('replay=')[1].split()[0]
                try: rp = open(os.path.join(H, f)).read()[:600]
                except Exception as e: rp = str(e)
            out['checks'][p] = [c.returncode, v[:2], rp]
out['ok'] = out.get('demo_clean') == 0 and out.get('demo_patched', 0) != 0 and not out.get('missing') and out.get('build', 0) == 0
print(json.dumps(out, indent=1))
