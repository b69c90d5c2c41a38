"""AudioTrim, AudioSplice, AudioLoop, AudioReverse, ShuffleChannels, SplitChannels, AssumeSampleRate, silent BlankAudio: random graphs against a lazy model"""
import numpy as np
from fcommon import *
from vs import adtype

AF = 3072
MAXN = (2**31 - 1) * AF


def rand_afmt(rng):
    return (1, 32) if rng.random() < .25 else (0, rng.choice([16, 16, 17, 20, 24, 24, 31, 32]))


def rand_layout(rng, most=6):
    r = rng.random()
    if r < .5:
        ch = rng.choice([[0], [2], [0, 1], [0, 1], [0, 1, 2, 3, 4, 5], [1], [4, 5]])
    else:
        ch = rng.sample(list(range(12)) + [33, 62, 63], rng.randint(1, most))
    return sum(1 << c for c in ch)


def chans(layout):
    return [c for c in range(64) if layout >> c & 1]


def rand_len(rng):
    return rng.choice([1, 2, 5, 100, AF - 1, AF, AF + 1, 2 * AF - 1, 2 * AF, 2 * AF + 1, 3 * AF, rng.randint(1, 4 * AF), rng.randint(1, 12000)])


def rand_samples(rng, nrng, st, bits, nc, n):
    if st:
        a = nrng.uniform(-1, 1, (nc, n)).astype(np.float32)
    else:
        a = nrng.integers(-(1 << (bits - 1)), 1 << (bits - 1), (nc, n), np.int64)
        cont = 16 if bits == 16 else 32
        a = (a << (cont - bits)).astype(np.int16 if bits == 16 else np.int32)
    if rng.random() < .2:
        a[rng.randrange(nc)] = 0
    return a


class AC:
    """audio clip with its model: f(idx) gives the samples [channels, len], pf(idx) the property value of the frames holding those samples"""
    def __init__(self, node, st, bits, layout, rate, n, f, pf, desc, depth=0):
        self.node, self.st, self.bits, self.layout, self.rate, self.n, self.f, self.pf, self.desc, self.depth = node, st, bits, layout, rate, n, f, pf, desc, depth
        self.nc = bin(layout).count('1')

    @property
    def nf(self):
        return -(-self.n // AF)

    def same(self, o):
        return (self.st, self.bits, self.layout, self.rate) == (o.st, o.bits, o.layout, o.rate)


def split_frames(core, st, bits, layout, a, ids):
    return [core.aframe(st, bits, layout, [c[i:i + AF] for c in a], {'id': ids[i // AF]}) for i in range(0, a.shape[1], AF)]


def source(core, rng, nrng, st, bits, layout, rate, n):
    a = rand_samples(rng, nrng, st, bits, bin(layout).count('1'), n)
    ids = [rng.getrandbits(40) for _ in range(-(-n // AF))]
    fr = split_frames(core, st, bits, layout, a, ids)
    idn = np.array(ids)
    return AC(core.asource(fr, rate, n), st, bits, layout, rate, n, lambda i: a[:, i], lambda i: idn[i // AF], f'S{n}')


class Gen:
    def __init__(self, core, rng, nrng, rep):
        self.core, self.rng, self.nrng, self.rep = core, rng, nrng, rep
        self.st, self.bits = rand_afmt(rng)
        self.rate = rng.choice([8000, 44100, 48000])
        self.lays = [rand_layout(rng) for _ in range(rng.choice([1, 1, 2]))]
        self.pool = [self.src() for _ in range(rng.randint(1, 3))]

    def src(self):
        return source(self.core, self.rng, self.nrng, self.st, self.bits, self.rng.choice(self.lays), self.rate, rand_len(self.rng))

    def pick(self):
        return self.rng.choice(self.pool)

    def fail(self, key, what, fn):
        must_fail(self.rep, key, what, fn)

    def add(self, c, node, n, f, pf, desc, layout=None, rate=None):
        # a new frame takes over the properties of the frame its first sample is from
        r = AC(node, c.st, c.bits, c.layout if layout is None else layout, rate or c.rate, n, f, lambda i: pf(i // AF * AF), desc, c.depth + 1)
        st, bits, by, nc, lay, rt, ns, nf = node.ai
        if (st, bits, lay & (2**64 - 1), rt, ns, nf) != (r.st, r.bits, r.layout, r.rate, n, r.nf):
            self.rep.viol(desc.split('(')[0] + ':info', f'{desc}: format {st}/{bits} layout {lay:#x} rate {rt} samples {ns} frames {nf}, expected {r.st}/{r.bits} {r.layout:#x} {r.rate} {n} {r.nf}')
        self.pool.append(r)
        self.rep.count(desc.split('(')[0])

    def op(self):
        getattr(self, self.rng.choice(['trim', 'trim', 'trim', 'splice', 'splice', 'loop', 'loop', 'reverse', 'reverse', 'shuffle', 'shuffle', 'split', 'asrate', 'blank']))()

    def trim(self):
        c, rng = self.pick(), self.rng
        N = c.n
        a = rng.choice([0, 0, AF, min(N - 1, rng.choice([1, AF - 1, AF, AF + 1, 2 * AF])), rng.randrange(N), max(0, N - rng.randint(1, 2 * AF))])
        if a >= N:
            a = N - 1
        L = N - a
        l = rng.choice([1, L, min(L, AF), min(L, AF - a % AF), min(L, AF - a % AF + rng.randint(0, 2)), rng.randint(1, L), rng.randint(1, min(L, 3 * AF))])
        kw = {}
        if a or rng.random() < .3:
            kw['first'] = a
        m = rng.choice(['last', 'length', 'none'])
        if m == 'last':
            kw['last'] = a + l - 1
        elif m == 'length':
            kw['length'] = l
        else:
            l = L
        inv = lambda **k: self.core.clip('AudioTrim', clip=c.node, **k)
        self.add(c, inv(**kw), l, lambda i: c.f(i + a), lambda i: c.pf(i + a), f'AudioTrim({c.desc},{kw})')
        if rng.random() < .1:
            for k in ({'first': -1}, {'first': N}, {'last': N}, {'length': N + 1}, {'length': 0}, {'first': a, 'length': N - a + 1}, {'first': 1, 'last': 0}, {'last': 0, 'length': 1},
                      {'first': 2**63 - 1}, {'length': 2**63 - 1, 'first': a}, {'last': -1}, {'length': -2**63}, {'last': 2**63 - 1}):
                self.fail('AudioTrim:bad', f'AudioTrim of {N} samples with {k}', lambda: inv(**k))

    def splice(self):
        c, rng = self.pick(), self.rng
        cs = [c]
        for _ in range(rng.choice([0, 1, 1, 2, 3, 8, 40])):
            d = self.pick()
            if d.same(c):
                cs.append(d)
            elif rng.random() < .1:
                self.fail('AudioSplice:mismatch', 'clips of different formats', lambda: self.core.clip('AudioSplice', clips=[c.node, d.node]))
        cum = np.cumsum([x.n for x in cs], dtype=object)
        inv = lambda: self.core.clip('AudioSplice', clips=[x.node for x in cs])
        if cum[-1] > MAXN:
            return self.fail('AudioSplice:long', f'{cum[-1]} samples', inv)
        if sum(x.depth for x in cs) > 60:
            return
        ends = np.array([int(x) for x in cum], np.int64)

        def part(g, empty):
            def f(i):
                w = np.searchsorted(ends, i, 'right')
                out = empty(len(i))
                for k in np.unique(w):
                    m = w == k
                    out[..., m] = g(cs[k], i[m] - (ends[k - 1] if k else 0))
                return out
            return f
        dt = adtype(c.st, c.bits)
        r = len(self.pool)
        self.add(c, inv(), int(cum[-1]), part(lambda x, i: x.f(i), lambda n: np.zeros((c.nc, n), dt)), part(lambda x, i: x.pf(i), lambda n: np.zeros(n, np.int64)), f'AudioSplice({[x.desc if x.depth < 2 else x.n for x in cs[:5]]}..{len(cs)})')
        self.pool[r].depth = sum(x.depth for x in cs) + 1

    def loop(self):
        c, rng = self.pick(), self.rng
        t = rng.choice([None, 0, 1, 2, 3, rng.randint(1, 50), rng.randint(1, 3000), MAXN // c.n, MAXN // c.n + 1, 2**62, 2**63 - 1])
        inv = lambda: self.core.clip('AudioLoop', clip=c.node, times=t)
        if rng.random() < .1:
            self.fail('AudioLoop:negative', 'negative times', lambda: self.core.clip('AudioLoop', clip=c.node, times=rng.choice([-1, -2**63])))
        n = c.n * t if t else MAXN
        if n > MAXN:
            return self.fail('AudioLoop:long', f'{c.n} samples * {t}', inv)
        self.add(c, inv(), n, lambda i: c.f(i % c.n), lambda i: c.pf(i % c.n), f'AudioLoop({c.desc},{t})')

    def reverse(self):
        c = self.pick()
        self.add(c, self.core.clip('AudioReverse', clip=c.node), c.n, lambda i: c.f(c.n - 1 - i), lambda i: c.pf(c.n - 1 - i), f'AudioReverse({c.desc})')

    def shuffle(self):
        rng = self.rng
        c = self.pick()
        cs = [c] + [self.pick() for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
        if any((x.st, x.bits, x.rate) != (c.st, c.bits, c.rate) for x in cs):
            cs = [x if (x.st, x.bits, x.rate) == (c.st, c.bits, c.rate) else c for x in cs]
        k = max(len(cs), rng.randint(1, 5))
        out = rng.sample(list(range(10)) + [40, 63], k)
        cin, src = [], []
        for j in range(k):
            x = cs[min(j, len(cs) - 1)]
            r = rng.random()
            ch = chans(x.layout)
            if r < .5:
                i = rng.randrange(x.nc)
                cin.append(ch[i])
            elif r < .85:
                i = rng.randrange(x.nc)
                cin.append(-1 - i)
            else:
                i = 0
                cin.append(0)
            src.append((x, i))
        inv = lambda a=cin, b=out, cc=cs: self.core.clip('ShuffleChannels', clips=[x.node for x in cc], channels_in=a, channels_out=b)
        if rng.random() < .15:
            missing = [q for q in range(1, 64) if not cs[0].layout >> q & 1]
            self.fail('ShuffleChannels:missing', 'a channel that does not exist', lambda: inv([rng.choice(missing)] + cin[1:]))
            self.fail('ShuffleChannels:missing', 'a channel number that does not exist', lambda: inv([-cs[0].nc - 1] + cin[1:]))
            self.fail('ShuffleChannels:range', 'channel 64', lambda: inv([64] + cin[1:]))
            self.fail('ShuffleChannels:range', 'channel -65', lambda: inv([-65] + cin[1:]))
            self.fail('ShuffleChannels:range', 'output channel 64', lambda: inv(cin, [64] + out[1:]))
            self.fail('ShuffleChannels:range', 'output channel -1', lambda: inv(cin, [-1] + out[1:]))
            self.fail('ShuffleChannels:count', 'different counts', lambda: inv(cin + [0], out))
            self.fail('ShuffleChannels:clips', 'more clips than channels', lambda: inv(cin, out, cs + [c] * (k - len(cs) + 1)))
            self.fail('ShuffleChannels:twice', 'an output channel given twice', lambda: inv(cin + [0], out + [out[0]]))
        n = max(x.n for x in cs)
        order = sorted(range(k), key=lambda j: out[j])
        dt = adtype(c.st, c.bits)

        def f(i):
            o = np.zeros((k, len(i)), dt)
            for row, j in enumerate(order):
                x, q = src[j]
                m = i < x.n
                if m.any():
                    o[row, m] = x.f(i[m])[q]
            return o
        pf = None
        if all(x is c for x in cs):
            pf = c.pf
        one = lambda i: np.full(len(i), -1, np.int64)
        if sum(x.depth for x in cs) > 30:
            return
        self.add(c, inv(), n, f, pf or one, f'ShuffleChannels({[x.desc for x in cs]},{cin},{out})', layout=sum(1 << q for q in out))
        self.pool[-1].depth = sum(x.depth for x in cs) + 1

    def split(self):
        c = self.pick()
        r = self.core.invoke('SplitChannels', clip=c.node)['clip']
        if len(r) != c.nc:
            return self.rep.viol('SplitChannels:count', f'{len(r)} clips from {c.nc} channels')
        for q, (ch, node) in enumerate(zip(chans(c.layout), r)):
            self.add(c, node, c.n, lambda i, q=q: c.f(i)[q:q + 1], c.pf, f'SplitChannels({c.desc})[{q}]', layout=1 << ch)

    def asrate(self):
        c, rng = self.pick(), self.rng
        r = rng.choice([1, 8000, 44100, 96000, 2**31 - 1])
        if rng.random() < .3:
            s = self.pick()
            node, r = self.core.clip('AssumeSampleRate', clip=c.node, src=s.node), s.rate
            self.fail('AssumeSampleRate:bad', 'both arguments', lambda: self.core.clip('AssumeSampleRate', clip=c.node, src=s.node, samplerate=5))
        else:
            node = self.core.clip('AssumeSampleRate', clip=c.node, samplerate=r)
        if rng.random() < .2:
            self.fail('AssumeSampleRate:bad', 'rate 0', lambda: self.core.clip('AssumeSampleRate', clip=c.node, samplerate=rng.choice([0, -5])))
            self.fail('AssumeSampleRate:bad', 'no rate', lambda: self.core.clip('AssumeSampleRate', clip=c.node))
        self.add(c, node, c.n, c.f, c.pf, f'AssumeSampleRate({c.desc},{r})', rate=r)

    def blank(self):
        rng = self.rng
        c = self.pick()
        kw, st, bits, lay, rate, n = {}, c.st, c.bits, c.layout, c.rate, c.n
        tmpl = rng.random() < .6
        if not tmpl:
            st, bits, lay, rate, n = 0, 16, 3, 44100, None
        if rng.random() < .5:
            lay = rand_layout(rng)
            kw['channels'] = chans(lay)
            rng.shuffle(kw['channels'])
        if rng.random() < .5:
            rate = rng.choice([self.rate, 11025])
            kw['samplerate'] = rate
        if n is None:
            n = rate * 10
        if rng.random() < .5:
            n = rng.choice([rand_len(rng), rng.randint(1, MAXN), MAXN])
            kw['length'] = n
        if rng.random() < .5:
            st, bits = (self.st, self.bits) if rng.random() < .7 else rand_afmt(rng)
            kw['sampletype'], kw['bits'] = st, bits
        if rng.random() < .6:
            kw['keep'] = rng.randint(0, 1)
        if rng.random() < .2:
            kw['waveform'] = 'none'
        if rng.random() < .1:
            for k in ({'length': 0}, {'length': -1}, {'length': MAXN + 1}, {'length': 2**63 - 1}, {'samplerate': 0}, {'samplerate': -1}, {'channels': [0, 0]}, {'channels': [64]}, {'channels': [-1]},
                      {'bits': 15}, {'bits': 33}, {'sampletype': 1, 'bits': 16}, {'waveform': 'cosine'}, {'amplitude': float('nan')}, {'frequency': float('inf')}):
                self.fail('BlankAudio:bad', f'BlankAudio {k}', lambda: self.core.clip('BlankAudio', **k))
        node = self.core.clip('BlankAudio', clip=c.node if tmpl else None, **kw)
        nc, dt = bin(lay).count('1'), adtype(st, bits)
        b = AC(node, st, bits, lay, rate, n, None, None, '')
        self.add(b, node, n, lambda i: np.zeros((nc, len(i)), dt), lambda i: np.full(len(i), -1, np.int64), f'BlankAudio({kw})')

    def check(self, c):
        rng, rep = self.rng, self.rep
        nf = c.nf
        ns = list(range(nf)) if nf <= 6 else rng.sample(range(nf), 4) + [0, nf - 1, nf - 2]
        rng.shuffle(ns)
        name = c.desc.split('(')[0]
        for n, f in zip(ns, c.node.getmany(ns)):
            w = f'{c.desc[:700]} frame {n}'
            if isinstance(f, VSError):
                rep.viol(name + ':error', f'{w}: {f}')
                continue
            i = np.arange(n * AF, min((n + 1) * AF, c.n), dtype=np.int64)
            st, bits, by, nc, lay = f.afmt
            if (st, bits, lay & (2**64 - 1)) != (c.st, c.bits, c.layout):
                rep.viol(name + ':format', f'{w}: format {st}/{bits} {lay:#x}')
                continue
            g = np.stack(f.channels)
            e = c.f(i)
            if g.shape != e.shape:
                rep.viol(name + ':length', f'{w}: {g.shape} instead of {e.shape} samples')
                continue
            if not np.array_equal(g.view(np.int16 if c.bits == 16 else np.int32), e.view(np.int16 if c.bits == 16 else np.int32)):
                q, x = np.argwhere(g != e)[0]
                rep.viol(name, f'{w}: {int((g != e).sum())} wrong samples, first at channel {q} sample {x}: {g[q, x]!r} instead of {e[q, x]!r}')
            p = f.props.get('id', [-1])
            ep = int(c.pf(i[:1])[0])
            if ep != -1 and p != [ep]:
                rep.viol(name + ':props', f'{w}: properties of another frame')
            rep.ev(1, (name, n, c.n, c.layout, c.bits))


def case(core, rng, nrng, rep, k, opts):
    core.setcpu(rng.choice(LEVELS))
    g = Gen(core, rng, nrng, rep)
    for _ in range(rng.randint(1, 7)):
        g.op()
    cs = [c for c in g.pool if c.depth]
    if k < 4 and cs:
        rep.sample(cs[-1].desc)
    for c in rng.sample(cs, min(len(cs), 4)):
        g.check(c)
