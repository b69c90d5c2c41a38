"""Confirms a planted bug in a scratch copy of /repo mounted over /repo in a private mount namespace.
usage: seedtest.py ID [--fast] [--tier quick] [--check C01 ...]   (--fast: skip the repository's own tests)"""
import argparse, json, os, shutil, subprocess, sys, time
V = '/verif'
ap = argparse.ArgumentParser()
ap.add_argument('id'); ap.add_argument('--fast', action='store_true'); ap.add_argument('--tier', default='quick')
ap.add_argument('--check', nargs='*'); ap.add_argument('--inner'); ap.add_argument('--seed', default='1')
a = ap.parse_args()
sd = f'{V}/seeded/{a.id}'


def sh(c, t=900, **kw):
    try:
        p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t, **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)[-2000:]


if not a.inner:
    w = f'/tmp/seed/{a.id}'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
    subprocess.check_call(['cp', '-a', '/verif', w + '/verif'])
    os.makedirs(w + '/demo', exist_ok=True)
    for f in os.listdir(sd):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
            shutil.copy(os.path.join(sd, f), w + '/demo/')
    args = ' '.join(sys.argv[1:])
    r = subprocess.call(['unshare', '-m', 'sh', '-c', f'mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && exec python3 /verif/tools/seedtest.py {args} --inner {w}'])
    shutil.rmtree(w, ignore_errors=True)
    sys.exit(r)

meta = json.load(open(f'{sd}/meta.json'))
out = []
ok = True


def step(name, good, txt=''):
    global ok
    ok &= good
    print(f'{a.id}: {name}: {"ok" if good else "FAILED"}', flush=True)
    if not good:
        print(txt[-2500:], flush=True)


os.chdir('/repo')
rc, o = sh('git status --porcelain'); step('clean', not o.strip(), o)
rc, o = sh(f'git apply --whitespace=nowarn {sd}/patch.diff'); step('applies', rc == 0, o)
if rc: sys.exit(1)
rc, o = sh('bash /opt/vp/build.sh'); step('builds', rc == 0, o)
if rc: sys.exit(1)
if not a.fast:
    rc, o = sh(f'bash /opt/vp/test.sh {a.inner}/t.json')
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('passed') or base.get('stable') or base
    if isinstance(stable, dict): stable = list(stable)
    res = json.load(open(f'{a.inner}/t.json'))
    lost = [t for t in stable if t not in set(res['passed'])]
    step(f'tests ({len(stable)} stable)', not lost, str(lost[:10]) + o[-500:])
t = time.time()
rc, o = sh(f'bash {a.inner}/demo/demo.sh', 300); step(f'demo fails with the patch (rc {rc}, {time.time()-t:.0f}s)', rc not in (0, 124), o)
if rc: print('   ', o.strip().splitlines()[-1][:200] if o.strip() else '')
for c in (a.check or [meta['property']]):
    t = time.time()
    rc, o = sh(f'VERIF_SEED={a.seed} python3-vt /verif/run.py {c} {a.tier}', 900, cwd='/verif')
    v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
    k = [l for l in o.splitlines() if l.strip().startswith('key:')]
    print(f'{a.id}: check {c}: rc {rc} {"CAUGHT" if rc == 1 and v else "MISSED"} in {time.time()-t:.0f}s {k[:3]}', flush=True)
    if not (rc == 1 and v): print(o[-800:])
sh('git checkout -- .')
rc, o = sh('bash /opt/vp/build.sh'); step('rebuilds', rc == 0, o)
for i in range(3):
    rc, o = sh(f'bash {a.inner}/demo/demo.sh', 300)
    step(f'demo passes without the patch (run {i+1})', rc == 0, o)
print(f'{a.id}: {"CONFIRMED" if ok else "NOT CONFIRMED"}')
