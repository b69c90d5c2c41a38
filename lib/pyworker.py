"""python pyworker.py MODULE --seed S --from A --to B [--k v]: runs pm/MODULE cases against the Python module under test (found through PYTHONPATH)"""
import faulthandler, importlib, json, os, random, sys, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
faulthandler.enable()


class Rep:
    def __init__(self):
        self.nviol = self.evals = self.samples = 0
        self.distinct = set()
        self.counts = {}

    def line(self, s):
        os.write(1, (s.replace('\n', ' / ').replace('\r', ' ') + '\n').encode('utf-8', 'replace'))

    def viol(self, key, msg):
        self.nviol += 1
        if self.nviol <= 25:
            self.line('VIOL %s %s' % (key.replace(' ', '_'), msg[:1500]))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s):
        if self.samples < 2:
            self.samples += 1
            self.line('SAMPLE ' + s)

    def ev(self, n, key=None):
        self.evals += n
        if key is not None:
            self.last = key
            self.distinct.add(key)

    def done(self, k):
        if not self.samples and self.distinct:
            self.sample('case %d: %.300r' % (k, self.last))

    def eq(self, key, got, want, what):
        """judges one observation"""
        self.evals += 1
        if not same(got, want):
            self.viol(key, f'{what}: got {got!r:.300}, expected {want!r:.300}')
            return False
        return True

    def raises(self, key, exc, f, what, text=None):
        """f must raise one of exc"""
        self.evals += 1
        try:
            r = f()
        except exc as e:
            if text and text not in str(e):
                self.viol(key, f'{what}: raised {e!r:.300}, expected a message with {text!r}')
                return False
            return True
        except Exception as e:
            self.viol(key, f'{what}: raised {e!r:.300}, expected {exc}')
            return False
        self.viol(key, f'{what}: gave {r!r:.200}, expected an error')
        return False


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is not type(b) and (isinstance(a, (str, bytes)) or isinstance(b, (str, bytes))):
        return False
    return a == b


if __name__ == '__main__':
    sys.path[:0] = [V, V + '/lib']
    a = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    opts = {k[2:]: v for k, v in a.items()}
    try:
        import warnings
        warnings.simplefilter('ignore')
        import vapoursynth
        mod = importlib.import_module('pm.' + sys.argv[1])
    except Exception:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(77)
    rep = Rep()
    for k in range(int(a['--from']), int(a['--to'])):
        rep.line('CASE %d' % k)
        rng = random.Random('%s:%s:%d' % (sys.argv[1], a['--seed'], k))
        try:
            mod.case(rng, rep, k, opts)
        except Exception as e:
            traceback.print_exc()
            rep.viol('unexpected-error', f'{e!r:.300} ' + ' / '.join(x.strip() for x in traceback.format_exc().strip().splitlines()[-7:]))
    if hasattr(mod, 'finish'):
        mod.finish(rep)
    rep.done(int(a['--to']) - 1)
    d = {'evals': rep.evals, 'distinct': len(rep.distinct)}
    d.update(rep.counts)
    rep.line('DONE ' + json.dumps(d))
    sys.stderr.flush()
    os._exit(0)
