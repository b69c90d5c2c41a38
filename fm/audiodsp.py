"""AudioGain, AudioMix, AudioResample (format conversion, dither, channel mixing, rate conversion), BlankAudio waveforms"""
import math, re
from fractions import Fraction
import numpy as np
from fcommon import *
from vs import adtype, logs
from fm.audio import AF, MAXN, rand_afmt, rand_layout, rand_len, chans, rand_samples, split_frames


class Src:
    def __init__(self, core, rng, nrng, st=None, bits=None, layout=None, rate=None, n=None, data=None):
        if st is None:
            st, bits = rand_afmt(rng)
        self.st, self.bits = st, bits
        self.layout = rand_layout(rng) if layout is None else layout
        self.nc = bin(self.layout).count('1')
        self.rate = rate or rng.choice([8000, 44100, 48000])
        self.n = n or (data.shape[1] if data is not None else rand_len(rng))
        self.a = rand_samples(rng, nrng, st, bits, self.nc, self.n) if data is None else data
        self.ids = [rng.getrandbits(30) for _ in range(-(-self.n // AF))]
        self.node = core.asource(split_frames(core, st, bits, self.layout, self.a, self.ids), self.rate, self.n)
        self.norm = self.a.astype(np.float64) / (1. if st else float(1 << (self.a.dtype.itemsize * 8 - 1)))
        self.desc = f'{"float" if st else "int"}{bits} {chans(self.layout)} {self.rate}Hz {self.n}'


def quant(v, eps, bits):
    """(lo, hi, clipped) sample values in container units that v +- eps (in units of full scale) may be rounded to; clipped: False, True or None (unclear)"""
    s = float(1 << (bits - 1))
    sh = 1 << ((16 if bits == 16 else 32) - bits)
    v, e = v * s, eps * s
    lo, hi = np.ceil(v - e - .5), np.floor(v + e + .5)
    lo, hi = np.minimum(lo, hi), np.maximum(lo, hi)
    clipped = ((lo > s - 1) | (hi < -s)).any() or (None if ((hi > s - 1) | (lo < -s)).any() else False)
    return np.clip(lo, -s, s - 1) * sh, np.clip(hi, -s, s - 1) * sh, clipped


MSG = re.compile(r'^(\w+): clipping detected in the sample interval (-?\d+) to (-?\d+)(, only the first encountered clipped segment has a warning printed)?$')


def run(core, rng, rep, name, what, mk, st, bits, layout, rate, n, model, overflow, ids=None, ns=None):
    """model(i0, i1) -> (lo, hi, clipped)"""
    logs()
    try:
        node = mk()
    except VSError as e:
        return rep.viol(name + ':refused', f'{what}: {e}')
    ai = node.ai
    nf = -(-n // AF)
    if (ai[0], ai[1], ai[4] & (2**64 - 1), ai[5], ai[6], ai[7]) != (st, bits, layout, rate, n, nf):
        rep.viol(name + ':info', f'{what}: output {ai}, expected {(st, bits, hex(layout), rate, n, nf)}')
        return
    if ns is None:
        ns = list(range(nf)) if nf <= 5 else rng.sample(range(nf), 4) + [nf - 1]
    rng.shuffle(ns)
    anyclip = False
    allnone = False
    got = {}
    for q, f in zip(ns, node.getmany(ns)):
        i0, i1 = q * AF, min((q + 1) * AF, n)
        lo, hi, clipped = model(i0, i1)
        w = f'{what} frame {q}'
        if isinstance(f, VSError):
            m = MSG.match(str(f))
            if not m or m.group(4) or m.group(1) != name:
                rep.viol(name + ':error', f'{w}: {f}')
            elif not overflow or clipped is False:
                rep.viol(name + ':overflow', f'{w}: failed without a clipped sample: {f}')
            elif (int(m.group(2)), int(m.group(3))) != (i0, i1 - 1):
                rep.viol(name + ':interval', f'{w}: {f}, the frame has the samples {i0} to {i1 - 1}')
            rep.count('overflow_errors')
            continue
        if overflow and clipped:
            rep.viol(name + ':overflow', f'{w}: clipped samples without an error')
        anyclip |= bool(clipped)
        allnone |= clipped is None
        g = np.stack(f.channels)
        if g.shape != lo.shape or f.afmt[:2] != (st, bits):
            rep.viol(name + ':shape', f'{w}: {g.shape} {f.afmt}')
            continue
        got[q] = g
        cmp_range(rep, name, w + ' (channel, sample)', g, lo, hi)
        if ids is not None and f.props.get('id') != [ids(q)]:
            rep.viol(name + ':props', f'{w}: properties of another frame')
        rep.ev(1, (name, st, bits, layout, n, q))
    warn = [m for t, m in logs() if 'clipping' in m]
    for m in warn:
        x = MSG.match(m)
        if not x or not x.group(4) or x.group(1) != name:
            rep.viol(name + ':warning', f'{what}: warning {m!r}')
        elif int(x.group(2)) % AF or int(x.group(2)) // AF not in ns:
            rep.viol(name + ':warning', f'{what}: warning about a frame that was not made: {m!r}')
    if overflow and warn or not overflow and (len(warn) > 1 or anyclip and not warn or warn and not anyclip and not allnone):
        rep.viol(name + ':warning', f'{what}: {len(warn)} clipping warnings, clipped: {anyclip}')
    rep.count(name)
    return got


def gain(core, rng, nrng, rep, k):
    s = Src(core, rng, nrng)
    g = [rng.choice([0., 1., -1., .5, 2., 1.0001, rng.uniform(-3, 3), 1e-5, rng.choice([1e10, -1e30])]) for _ in range(s.nc if rng.random() < .5 else 1)]
    ov = rng.random() < .3
    what = f'AudioGain {s.desc} gain={g} overflow_error={ov}'
    gg = np.array(g)[:, None] * np.ones((s.nc, 1))
    src, n, a, ns = s.node, s.n, s.norm, None
    get = lambda i0, i1: a[:, i0:i1]
    ids = lambda q: s.ids[q]
    if rng.random() < .1:           # samples far beyond 2 ** 31
        src, n = core.clip('AudioLoop', clip=src), MAXN
        get = lambda i0, i1: a[:, np.arange(i0, i1) % s.n]
        ids = lambda q: s.ids[q * AF % s.n // AF]
        ns = [rng.randrange(2**31 - 1), 2**31 - 2, 700000 + rng.randrange(100)]

    def model(i0, i1):
        v = get(i0, i1) * gg
        if s.st:
            e = np.abs(v) * 2**-22 + 1e-44
            return np.where(np.abs(v) > 3e38, -np.inf, v - e), np.where(np.abs(v) > 3e38, np.inf, v + e), False
        return quant(v, np.abs(v) * 2**-51, s.bits)
    if k < 5:
        rep.sample(what)
    run(core, rng, rep, 'AudioGain', what, lambda: core.clip('AudioGain', clip=src, gain=g, overflow_error=int(ov) if ov or rng.random() < .5 else None), s.st, s.bits, s.layout, s.rate, n, model, ov, ids, ns)
    if rng.random() < .1:
        must_fail(rep, 'AudioGain:bad', 'wrong number of gains', lambda: core.clip('AudioGain', clip=s.node, gain=[1.] * (s.nc + 1 if s.nc > 1 else 2)))
        must_fail(rep, 'AudioGain:bad', 'no gain', lambda: core.clip('AudioGain', clip=s.node))


def mix(core, rng, nrng, rep, k):
    s0 = Src(core, rng, nrng)
    ss = [s0] + [Src(core, rng, nrng, s0.st, s0.bits, rand_layout(rng, 3), s0.rate, s0.n) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    if rng.random() < .1:
        ss.append(s0)
    nin = sum(x.nc for x in ss)
    nout = rng.randint(1, 5)
    out = rng.sample(list(range(12)) + [63], nout)
    M = [[rng.choice([0., 0., 1., .5, .7071, -1., rng.uniform(-1, 1), rng.uniform(-3, 3)]) for _ in range(nin)] for _ in range(nout)]
    if rng.random() < .2:
        M[0] = [0.] * nin
    ov = rng.random() < .3
    flat = [x for r in M for x in r]
    what = f'AudioMix {[x.desc for x in ss]} out={out} matrix={flat} overflow_error={ov}'
    inv = lambda m=flat, o=out, c=ss: core.clip('AudioMix', clips=[x.node for x in c], matrix=m, channels_out=o, overflow_error=int(ov))
    order = sorted(range(nout), key=lambda j: out[j])
    W = np.array(M)[order]
    A = np.concatenate([x.norm for x in ss])

    def model(i0, i1):
        v = W @ A[:, i0:i1]
        m = np.abs(W) @ np.abs(A[:, i0:i1])
        if s0.st:
            e = m * (nin + 2) * 2**-52 + np.abs(v) * 2**-23 + 1e-44
            return v - e, v + e, False
        return quant(v, m * (nin + 2) * 2**-52, s0.bits)
    run(core, rng, rep, 'AudioMix', what, inv, s0.st, s0.bits, sum(1 << c for c in out), s0.rate, s0.n, model, ov, lambda q: s0.ids[q])
    if rng.random() < .1:
        must_fail(rep, 'AudioMix:bad', 'a matrix of the wrong size', lambda: inv(flat + [1.]))
        must_fail(rep, 'AudioMix:bad', 'an output channel given twice', lambda: inv(flat + [0.] * nin, out + [out[0]]))
        must_fail(rep, 'AudioMix:bad', 'output channel 64', lambda: inv(flat, out[:-1] + [64]))
        must_fail(rep, 'AudioMix:bad', 'output channel -1', lambda: inv(flat, out[:-1] + [-1]))
        for o in (Src(core, rng, nrng, s0.st, s0.bits, 1, s0.rate, s0.n + 1), Src(core, rng, nrng, s0.st, s0.bits, 1, s0.rate + 1, s0.n),
                  Src(core, rng, nrng, 0, 18, 1, s0.rate, s0.n), Src(core, rng, nrng, 1 - s0.st, 32, 1, s0.rate, s0.n)):
            must_fail(rep, 'AudioMix:mismatch', 'clips of different kinds', lambda: inv(flat + [0.] * nout, out, ss + [o]))


# ---------------------------------------------------------------- channel layouts
FL, FR, FC, LFE, BL, BR, FLC, FRC, BC, SL, SR, TC, TFL, TFC, TFR, TBL, TBC, TBR = range(18)
DL, DR, WL, WR, SDL, SDR, LFE2 = 29, 30, 31, 32, 33, 34, 35
R2 = math.sqrt(.5)
GROUND = {TFL: FL, WL: FL, DL: FL, TFR: FR, WR: FR, DR: FR, TFC: FC, TC: FC, TBL: BL, SDL: BL, TBR: BR, SDR: BR, TBC: BC}
ALT = {BL: SL, SL: BL, BR: SR, SR: BR}


def fold(c, out):
    """{output channel: weight} of an input channel"""
    if c in out:
        return {c: 1.}
    c = GROUND.get(c, c)
    if c in out:
        return {c: 1.}
    has = lambda *x: all(y in out for y in x)
    if c == FC:
        return {x: R2 for x in (FL, FR) if x in out}
    if c in (FL, FR):
        o = FL + FR - c
        return {FC: R2} if has(FC) else {o: R2} if has(o) else {}
    if c in ALT:
        f = FL if c in (BL, SL) else FR
        return {ALT[c]: 1.} if has(ALT[c]) else {f: R2} if has(f) else {FC: .5} if has(FC) else {}
    if c == BC:
        for p in ((BL, BR), (SL, SR)):
            if has(*p):
                return {p[0]: R2, p[1]: R2}
        return {FL: .5, FR: .5} if has(FL, FR) else {FC: R2} if has(FC) else {}
    if c in (FLC, FRC):
        f = FL if c == FLC else FR
        return {f: R2, FC: R2} if has(f, FC) else {f: 1.} if has(f) else {FC: 1.} if has(FC) else {}
    if c in (LFE, LFE2):
        o = LFE + LFE2 - c
        return {o: 1.} if has(o) else {}
    return {}


def mixmatrix(li, lo, normalize):
    ci, co = chans(li), chans(lo)
    m = np.zeros((len(co), len(ci)))
    for j, c in enumerate(ci):
        for o, w in fold(c, set(co)).items():
            m[co.index(o), j] += w
    pk = np.abs(m).sum(1).max()
    return m / pk if normalize and pk > 1 else m


# ---------------------------------------------------------------- rate conversion
_k = {}


def kernel(p, q):
    if (p, q) not in _k:
        if len(_k) > 6:
            _k.clear()
        r = min(1., p / q)
        ht = math.ceil(64 / r)
        fc = .5 * r * .91
        t = np.arange(p)[:, None] / p + (ht - 1 - np.arange(2 * ht))[None, :]
        w = np.clip(1 - (t / ht) ** 2, 0, None)
        h = np.sinc(2 * fc * t) * np.i0(9 * np.sqrt(w)) * (np.abs(t / ht) < 1)
        _k[p, q] = h / h.sum(1, keepdims=True), ht
    return _k[p, q]


def resampled(x, p, q, i0, i1, n=None):
    """samples i0..i1 of x [channels, n] resampled by p/q: (values, sum of the magnitudes); n: x is repeated up to this length"""
    h, ht = kernel(p, q)
    m = np.arange(i0, i1, dtype=np.int64)
    base, ph = m * q // p, m * q % p
    a, b = int(base[0]) - ht + 1, int(base[-1]) + ht + 1
    n = n or x.shape[1]
    w = np.zeros((x.shape[0], b - a))
    l, r = max(a, 0), min(b, n)
    if l < r:
        w[:, l - a:r - a] = x[:, np.arange(l, r) % x.shape[1]]
    v = np.empty((x.shape[0], len(m)))
    s = np.empty((x.shape[0], len(m)))
    st = max(1, 400000 // (2 * ht))
    for j in range(0, len(m), st):
        idx = (base[j:j + st] - ht + 1 - a)[:, None] + np.arange(2 * ht)[None, :]
        H = h[ph[j:j + st]]
        v[:, j:j + st] = (w[:, idx] * H).sum(2)
        s[:, j:j + st] = np.abs(w[:, idx] * H).sum(2)
    return v, s


RATES = [(44100, 48000), (48000, 44100), (8000, 48000), (48000, 8000), (44100, 22050), (22050, 44100), (96000, 44100), (44100, 96000), (1, 2), (2, 1), (3, 2), (7, 5), (1000, 999),
         (48000, 1000), (1000, 48000), (192000, 8000), (100, 7), (44100, 44056)]


def resample(core, rng, nrng, rep, k):
    st, bits = rand_afmt(rng)
    r = rng.random()
    doR = r < .35
    doM = rng.random() < (.4 if doR else .55)
    ri, ro = rng.choice(RATES) if doR else (rng.choice([44100, 48000]),) * 2
    layout = rand_layout(rng)
    aim = rng.random() < .35
    if doM and aim:     # the channels that are rarely there, to where they have a choice
        layout = sum(1 << c for c in rng.sample(list(range(6, 18)) + list(range(29, 36)), rng.randint(1, 3)))
    elif doM and rng.random() < .7:
        layout = sum(1 << c for c in rng.choice([[FL, FR], [FC], [FL, FR, FC, LFE, BL, BR], [FL, FR, FC, LFE, SL, SR], [FL, FR, SL, SR], [FL, FR, FC, BC], rng.sample(list(range(18)) + list(range(29, 36)), rng.randint(1, 9))]))
    n = rand_len(rng) if not doR else rng.choice([1, 2, 50, 200, AF, AF + 1, rng.randint(1, 7000)])
    if doR and ri / ro > 20:
        n = n * 7 % 40000 + 1
    s = Src(core, rng, nrng, st, bits, layout, ri, n)
    src, ns = s.node, None
    lay = layout
    kw = {}
    if doM and aim:
        lay = sum(1 << c for c in set(rng.choice([[BL, SL], [BR, SR], [BL, SL, BR, SR, FL], [FL, FR, BC], [FL, FC, BC], [BC, SR], [FL, FR, SL, SR, BL, BR]]) + rng.sample([FL, FR, FC, BL, BR, SL, SR, BC], rng.randint(0, 4))))
        kw['channels'] = chans(lay)
    elif doM:
        lay = sum(1 << c for c in rng.choice([[FL, FR], [FC], [FL, FR, FC, LFE, BL, BR], [FL, FR, FC, LFE, SL, SR], [SL, SR], [FL], [FC, LFE2], [FR, FC], rng.sample(list(range(18)) + list(range(29, 36)), rng.randint(1, 9))]))
        kw['channels'] = chans(lay)
        rng.shuffle(kw['channels'])
    ost, obits = st, bits
    if rng.random() < .7 or not (doR or lay != layout):
        ost, obits = rand_afmt(rng)
        kw['sampletype'] = ost
        if ost == 0 or rng.random() < .5:
            kw['bits'] = obits
    if doR or rng.random() < .1:
        kw['samplerate'] = ro
    dith = rng.choice([None, 'none', 'none', 'rectangular', 'triangular'])
    if dith:
        kw['dither_type'] = dith
    norm = rng.choice([None, None, 0, 1])
    if norm is not None:
        kw['normalize'] = norm
    ov = rng.random() < .25
    if ov:
        kw['overflow_error'] = 1
    mixing = lay != layout
    if norm is None:
        norm = ost == 0
    g = math.gcd(ri, ro)
    p, q = ro // g, ri // g
    if doR and rng.random() < .4:       # far into a long clip, at the frames where the input that is needed starts or ends next to an end of a frame
        n = rng.choice([MAXN * q // p // 3, MAXN, rng.randint(MAXN // 100, MAXN)])
        if n * p // q >= MAXN - AF:
            n = MAXN * q // p - AF
        n = min(n, MAXN)
        src = core.clip('AudioLoop', clip=s.node, times=0)
        if n < src.ai[6]:
            src = core.clip('AudioTrim', clip=src, length=n)
        nf = -(-(-(-n * p // q)) // AF)
        ht = math.ceil(64 / min(1., p / q))
        f0 = rng.randrange(nf) if rng.random() < .7 else rng.randrange(min(nf, 3000))
        f = np.arange(f0, min(f0 + 20000, nf), dtype=np.int64)
        e = np.minimum((f + 1) * AF, -(-n * p // q)) - 1
        fi, la = (f * AF * q // p - ht + 1) % AF, (e * q // p + ht) % AF
        ns = []
        for c in (fi == AF - 1, fi == 0, fi == 1, la == AF - 1, la == 0, la == 1):
            x = np.flatnonzero(c)
            if len(x):
                ns.append(int(f[rng.choice(list(x))]))
        ns = rng.sample(ns, min(len(ns), 4)) + [int(rng.choice(list(f))), nf - 1]
        ns = list(dict.fromkeys(ns))
        rep.count('far_resamples')
    N = -(-n * p // q)
    what = f'AudioResample {s.desc} {kw}' + (f' repeated to {n}' if ns else '')
    if (ost, obits, lay, ro) == (st, bits, layout, ri):
        mk = lambda: core.clip('AudioResample', clip=s.node, **kw)
        return run(core, rng, rep, 'AudioResample', what, mk, st, bits, layout, ri, n, lambda a, b: (s.a[:, a:b], s.a[:, a:b], False), ov, lambda q: s.ids[q])
    W = mixmatrix(layout, lay, norm) if mixing else None
    work = doR or mixing
    dithers = ost == 0 and (work or st == 1 or bits > obits)
    amp = {'none': 0, 'rectangular': .5, 'triangular': 1., None: 1.}[dith] if dithers else 0
    silent = [] if not mixing else [o for o in range(len(W)) if not W[o].any()]

    def model(i0, i1):
        if not work:
            v, e = s.norm[:, i0:i1], np.zeros((s.nc, i1 - i0))
        else:
            x = s.norm
            mag = np.abs(x)
            eps = 2**-24
            if doR:
                v, mg = resampled(W @ x if mixing else x, p, q, i0, i1, n)
                # samples and weights are rounded to single precision before and the mixed samples once per input
                _, m2 = resampled(np.abs(W) @ mag, p, q, i0, i1, n) if mixing else (0, mg)
                e = (m2 * (3 + (s.nc + 3 if mixing else 0)) + mg * 3) * eps + 1e-37 + np.abs(v) * eps
            else:
                v = W @ x[:, i0:i1]
                e = (np.abs(W) @ mag[:, i0:i1]) * (s.nc + 4) * eps + 1e-37
        if ost:
            e = e + np.abs(v) * 2**-23 + (0 if work else 0)
            return v - e, v + e, False
        lo, hi, c = quant(v, e + amp / (1 << (obits - 1)), obits)
        if silent:
            lo[silent], hi[silent] = 0, 0
            keep = [o for o in range(len(v)) if o not in silent]
            c = quant(v[keep], (e + amp / (1 << (obits - 1)))[keep], obits)[2] if keep else False
        return lo, hi, c
    mk = lambda: core.clip('AudioResample', clip=src, **kw)
    ids = (lambda q: s.ids[q]) if not doR else None
    got = run(core, rng, rep, 'AudioResample', what, mk, ost, obits, lay, ro, N, model, ov, ids, ns)
    if k < 12 and rng.random() < .3:
        rep.sample(what)
    rep.count('resampled' if doR else 'mixed' if mixing else 'converted')
    # the same frames again, made by another instance in another order
    if got and rng.random() < .4:
        node = mk()
        qs = list(got)
        rng.shuffle(qs)
        for z, f in zip(qs, node.getmany(qs)):
            if isinstance(f, VSError) or not np.array_equal(np.stack(f.channels), got[z], equal_nan=True):
                rep.viol('AudioResample:repeat', f'{what}: frame {z} differs when it is made again')
    # widening and back again is lossless
    if not work and st == 0 and (ost == 1 and bits <= 24 or ost == 0 and obits >= bits) and not ov and got is not None:
        back = core.clip('AudioResample', clip=mk(), sampletype=0, bits=bits, dither_type='none')
        for z, f in enumerate(back.getmany(range(-(-n // AF)))):
            if isinstance(f, VSError) or not np.array_equal(np.stack(f.channels), s.a[:, z * AF:(z + 1) * AF]):
                rep.viol('AudioResample:lossless', f'{what}: and back again changes samples')
        rep.count('roundtrips')
    logs()
    if rng.random() < .05:
        inv = lambda **a: core.clip('AudioResample', clip=s.node, **a)
        for a in ({'samplerate': 0}, {'samplerate': -5}, {'channels': [64]}, {'channels': [-1]}, {'channels': [1, 1]}, {'bits': 15, 'sampletype': 0}, {'bits': 33, 'sampletype': 0}, {'bits': 16, 'sampletype': 1},
                  {'dither_type': 'noise'}, {'dither_type': ''}):
            must_fail(rep, 'AudioResample:bad', f'{s.desc} {a}', lambda: inv(**a))
        if ri > 10000:
            must_fail(rep, 'AudioResample:ratio', f'{ri} to {ri - 1}', lambda: inv(samplerate=2**31 - 1))


def tone(core, rng, nrng, rep, k):
    """what the documentation promises about the quality: tones well inside the pass band come out unchanged at the new rate, tones beyond the new band vanish"""
    ri, ro = rng.choice([x for x in RATES if max(x) / min(x) <= 8])
    lim = min(ri, ro) / 2
    n = rng.randint(3000, 8000) * max(1, ri // ro)
    f = rng.uniform(.01, .8) * lim
    stop = ri > ro and rng.random() < .4
    if stop:
        f = rng.uniform(1.0 * ro / 2, ri / 2)
    ph = rng.uniform(0, 6.28)
    t = np.arange(n) / ri
    s = Src(core, rng, nrng, 1, 32, 1, ri, data=np.sin(2 * np.pi * f * t + ph)[None, :].astype(np.float32) * np.float32(.9))
    node = core.clip('AudioResample', clip=s.node, samplerate=ro)
    fr = node.getmany(range(node.ai[7]))
    bad = [x for x in fr if isinstance(x, VSError)]
    if bad:
        return rep.viol('AudioResample:error', f'tone {ri} to {ro}: {bad[0]}')
    y = np.concatenate([x.channels[0] for x in fr]).astype(np.float64)
    edge = math.ceil(70 * max(1, ro / ri)) + 3
    tt = np.arange(len(y)) / ro
    e = np.zeros(len(y)) if stop else .9 * np.sin(2 * np.pi * f * tt + ph)
    d = np.abs(y - e)[edge:-edge]
    if len(d):
        m = d.max()
        if m > (2e-3 if False else 1e-4):
            rep.viol('AudioResample:tone', f'a tone of {f:.4f} Hz from {ri} to {ro} Hz is off by {m:.2e}' + (' (should vanish)' if stop else ''))
        rep.count('tones')
        rep.ev(1, ('tone', ri, ro, stop))


def dither(core, rng, nrng, rep, k):
    """dither noise: right size, mean and spread, different for every channel, silent channels stay silent"""
    typ = rng.choice(['rectangular', 'triangular'])
    bits = rng.choice([16, 17, 20, 24])
    lsb = 2. ** -(bits - 1)
    level = rng.choice([0., .25, .5, rng.random()]) + rng.randint(-1000, 1000)
    n = AF * 4
    s = Src(core, rng, nrng, 1, 32, 3, 48000, data=np.full((2, n), level * lsb, np.float32))
    x = float(s.a[0, 0]) / lsb
    node = core.clip('AudioResample', clip=s.node, sampletype=0, bits=bits, dither_type=typ)
    sh = 1 << ((16 if bits == 16 else 32) - bits)
    y = np.concatenate([np.stack(f.channels) for f in node.getmany(range(4))], 1).astype(np.float64) / sh - x
    what = f'{typ} dither of {x} at {bits} bits'
    if (typ != 'rectangular' or x != math.floor(x)) and np.array_equal(y[0], y[1]):
        rep.viol('AudioResample:dither:channels', f'{what}: the same noise in both channels')
    fr = x - math.floor(x)
    # error of a rectangular dither: two levels, variance fr(1-fr); triangular: constant variance 1/4
    var = fr * (1 - fr) if typ == 'rectangular' else .25
    sd = math.sqrt(var)
    for c in range(2):
        if abs(y[c].mean()) > 6 * sd / math.sqrt(n) + 1e-9:
            rep.viol('AudioResample:dither:mean', f'{what}: mean error {y[c].mean():.4f} lsb')
        v = y[c].var()
        if abs(v - var) > .03:
            rep.viol('AudioResample:dither:spread', f'{what}: error variance {v:.4f} instead of {var:.4f}')
        for lag in (1, 2, 7, AF):
            if var > .05:
                r = (y[c][lag:] * y[c][:-lag]).mean() / v
                if abs(r) > .08:
                    rep.viol('AudioResample:dither:correlated', f'{what}: correlation {r:.3f} at lag {lag}')
    if var > .05:
        r = ((y[0] - y[0].mean()) * (y[1] - y[1].mean())).mean() / var
        if abs(r) > .08:
            rep.viol('AudioResample:dither:channels', f'{what}: the noise of the channels is correlated by {r:.3f}')
    rep.count('dithers')
    rep.ev(1, ('dither', typ, bits))


def waveform(core, rng, nrng, rep, k):
    w = rng.choice(['slope', 'sine', 'square', 'triangle'])
    st, bits = rand_afmt(rng)
    lay = rand_layout(rng)
    rate = rng.choice([8000, 44100, 48000, 1, 2**31 - 1])
    n = rng.choice([rand_len(rng), rng.randint(1, 10**7), rng.randint(1, MAXN), MAXN])
    kw = {}
    amp, fq = 1., 440.
    if rng.random() < .7:
        amp = kw['amplitude'] = rng.choice([1., 0., -1., .5, 2., 100., rng.uniform(-1.5, 1.5), .999])
    if rng.random() < .8:
        fq = kw['frequency'] = rng.choice([0., 1., 1000., rate / 4, rate / 2, float(rate), rate * 1.25, -100., .001, rng.uniform(0, rate), rng.uniform(-2 * rate, 5 * rate), 1e-9, -1e-12])
    if rng.random() < .5:
        kw['keep'] = rng.randint(0, 1)
    what = f'BlankAudio {w} {"float" if st else "int"}{bits} {rate}Hz {n} {kw}'
    step = Fraction(fq) / rate % 1
    S = int(step * 2**64)

    def model(i0, i1):
        first = float((step * i0) % 1)
        i = np.arange(i1 - i0)
        # (step * i) mod 1 in double plus the exact phase of the first sample
        t = (first + np.array([float((step * int(j)) % 1) for j in i]) ) % 1. if (i1 - i0) <= 16 else (first + (i.astype(np.uint64) * np.uint64(S % 2**64)).astype(np.float64) / 2.**64) % 1.
        e = i1 * 2.**-52 * max(1., abs(fq / rate)) + 1e-12
        if e > .002:
            e = max(e, .002)
        a, b = t - e, t + e
        if w == 'sine':
            v = np.sin(2 * np.pi * t)
            lo, hi = v - 6.3 * e - 1e-12, v + 6.3 * e + 1e-12
        elif w == 'square':
            f = lambda x: np.where(x % 1. < .5, 1., -1.)
            lo, hi = np.minimum(f(a), f(b)), np.maximum(f(a), f(b))
        elif w == 'slope':
            f = lambda x: 2 * (x % 1.) - 1
            lo, hi = np.minimum(f(a), f(b)), np.maximum(f(a), f(b))
            x = (a < 0) | (b >= 1)
            lo, hi = np.where(x, -1., lo - 1e-12), np.where(x, 1., hi + 1e-12)
        else:
            v = np.where(t < .25, 4 * t, np.where(t < .75, 2 - 4 * t, 4 * t - 4))
            lo, hi = v - 4 * e - 1e-12, v + 4 * e + 1e-12
        lo, hi = (lo * amp, hi * amp) if amp >= 0 else (hi * amp, lo * amp)
        nc = bin(lay).count('1')
        if st:
            q = np.abs(hi) * 2**-23 + 1e-12
            lo, hi = lo - q, hi + q
        else:
            m = (lo + hi) / 2
            h = (hi - lo) / 2
            l1, h1, _ = quant(lo, 1e-12, bits)
            l2, h2, _ = quant(hi, 1e-12, bits)
            lo, hi = l1, h2
        return np.repeat(lo[None, :], nc, 0), np.repeat(hi[None, :], nc, 0), False
    mk = lambda: core.clip('BlankAudio', channels=chans(lay), bits=bits, sampletype=st, samplerate=rate, length=n, waveform=w, **kw)
    got = run(core, rng, rep, 'BlankAudio', what, mk, st, bits, lay, rate, n, model, False)
    for q, g in (got or {}).items():
        if not (g == g[0]).all():
            rep.viol('BlankAudio:channels', f'{what}: the channels differ')
    rep.count(w)


def case(core, rng, nrng, rep, k, opts):
    core.setcpu(rng.choice(LEVELS))
    r = rng.random()
    f = gain if r < .2 else mix if r < .35 else resample if r < .75 else waveform if r < .9 else tone if r < .95 else dither
    f(core, rng, nrng, rep, k)
