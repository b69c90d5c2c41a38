"""python3-vt fworker.py MODULE VSH --seed S --from A --to B [--k v]: runs model cases against the real library"""
import importlib, json, os, random, sys, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib', V]
import numpy as np
import vs, fcommon
np.seterr(all='ignore')
mod = importlib.import_module('fm.' + sys.argv[1])
a = dict(zip(sys.argv[3::2], sys.argv[4::2]))
vs.load(sys.argv[2])
rep = fcommon.Rep()
opts = {k[2:]: v for k, v in a.items()}
core = None
per = getattr(mod, 'PER_CORE', 25)
try:
    if hasattr(mod, 'setup'):
        mod.setup(opts)
    for k in range(int(a['--from']), int(a['--to'])):
        rep.line('CASE %d' % k)
        rng = random.Random('%s:%s:%d' % (sys.argv[1], a['--seed'], k))
        nrng = np.random.default_rng(rng.getrandbits(63))
        if core is None:
            core = vs.Core(threads=rng.choice([1, 2, 4]))
            used = 0
        mod.case(core, rng, nrng, rep, k, opts)
        used += 1
        if used >= per or getattr(mod, 'FRESH', False):
            import gc
            gc.collect()
            core.free()
            core = None
            for t, m in vs.logs():
                if t >= 3 or 'leak' in m or 'still' in m.lower():      # critical and fatal messages, leak reports
                    rep.viol('log', f'the core logged: {m}')
except vs.VSError as e:
    traceback.print_exc()
    rep.viol('unexpected-error', f'{e} ' + ' / '.join(traceback.format_exc().strip().splitlines()[-6:]))
except Exception:
    traceback.print_exc()
    sys.stderr.flush()
    os._exit(77)
if 'variant' in opts:      # which build of the filters really ran
    for f in sorted({l.split('/')[-1].strip() for l in open('/proc/self/maps') if 'libvapoursynthfilters' in l}):
        rep.counts['cases_in_' + f] = int(a['--to']) - int(a['--from'])
rep.done(int(a['--to']) - 1)
d = {'evals': rep.evals, 'distinct': len(rep.distinct)}
d.update(rep.counts)
rep.line('DONE ' + json.dumps(d))
os._exit(0)
