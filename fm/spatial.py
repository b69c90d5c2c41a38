"""Convolution, Median, Minimum/Maximum, Inflate/Deflate, Prewitt/Sobel"""
import numpy as np
from fcommon import *


def neigh(a):
    """nine 3x3 neighbours in raster order, edges mirrored"""
    p = mpad(a, 1, 1)
    h, w = a.shape
    return [p[y:y + h, x:x + w] for y in range(3) for x in range(3)]


def f32(x):
    return np.asarray(x, np.float32)


def conv_v(fmt, lo, hi, cs, rdiv, bias, sat, axis2):
    """interval result of one pass; lo/hi float64 arrays; axis2: list of (dy, dx) offsets with coefficients"""
    ry = max(abs(o[0]) for o in axis2)
    rx = max(abs(o[1]) for o in axis2)
    pl, ph = mpad(lo, ry, rx), mpad(hi, ry, rx)
    h, w = lo.shape
    alo = np.zeros((h, w))
    ahi = np.zeros((h, w))
    mag = np.zeros((h, w))
    for (dy, dx), c in zip(axis2, cs):
        a = pl[ry + dy:ry + dy + h, rx + dx:rx + dx + w]
        b = ph[ry + dy:ry + dy + h, rx + dx:rx + dx + w]
        if c >= 0:
            alo += c * a
            ahi += c * b
        else:
            alo += c * b
            ahi += c * a
        mag += abs(c) * np.maximum(np.abs(a), np.abs(b))
    n = len(cs)
    if fmt.isfloat:
        e = (n + 4) * 2 * EPS * (mag * abs(rdiv) + abs(bias)) + 1e-37
    else:
        e = 6 * EPS * (np.maximum(np.abs(alo), np.abs(ahi)) * abs(rdiv) + abs(bias)) + 1e-9
    x, y = alo * rdiv + bias, ahi * rdiv + bias
    vlo, vhi = np.minimum(x, y) - e, np.maximum(x, y) + e
    if not sat:
        l = np.where((vlo <= 0) & (vhi >= 0), 0, np.minimum(np.abs(vlo), np.abs(vhi)))
        vhi = np.maximum(np.abs(vlo), np.abs(vhi))
        vlo = l
    if fmt.isfloat:
        if fmt.bits == 16:
            vlo, vhi = vlo - half_ulp(vlo), vhi + half_ulp(vhi)
        return vlo, vhi
    rl = np.clip(np.ceil(vlo - .5), 0, fmt.peak)
    rh = np.clip(np.floor(vhi + .5), 0, fmt.peak)
    return np.minimum(rl, rh), np.maximum(rl, rh)


def convolution(core, rng, nrng, rep, fmt, src, frames, mindim, hot=False):
    mode = rng.choice(['s', 's', 's', 'h', 'v', 'hv', None])
    if mode in ('s', None):
        n = rng.choice([3, 3, 5, 5, 7, 9, 11])
        num = n * n
    else:
        num = rng.choice([3, 5, 7, 9, 11, 13, 25, rng.randrange(3, 26, 2)])
        num = min(num, 2 * (mindim - 1) + 1)
        # the documented limit: the radius (count // 2) must be smaller than the plane
        num = max(3, num if num % 2 else num - 1)
    if fmt.isfloat:
        c = [rng.choice([0., 1., -1., rng.uniform(-2, 2)]) for _ in range(num)]
    else:
        big = rng.random()
        lim = 1023 if big < .25 else 127 if big < .5 else 3
        c = [float(rng.randint(-lim, lim)) for _ in range(num)]
        if rng.random() < .2:
            c = [float(rng.choice([-lim, lim, 0])) for _ in range(num)]
        if hot or rng.random() < .05:
            # sums as big as they can get
            lim = 1023 if hot else lim
            c = [float(sg * (lim - rng.choice([0, 0, 0, rng.randint(0, min(lim, 5))]))) for sg in [rng.choice([1, 1, -1])] for _ in range(num)]
        if rng.random() < .15:
            c = [x + rng.choice([0, .25, -.4, .49]) if abs(x) < 1022 else x for x in c]
    kw = {}
    cm = [np.float64(np.float32(x)) for x in c] if fmt.isfloat else [float(np.trunc(x + np.copysign(.5, x))) if x % 1 else x for x in c]
    s = float(np.float32(sum(cm)))
    # relative error of the sum, were it accumulated in single precision
    srel = 2 * num * EPS * sum(abs(x) for x in cm) / abs(s) * (2 if mode == 'hv' else 1) if s else 0
    if fmt.isfloat and (abs(s) > 0 and srel > .01 or s == 0):
        s = None
    r = rng.random()
    div = 0.
    if r < .5 or s is None:
        div = rng.choice([1., 2., 3., 7.5, -4., 100., float(num), 1000., rng.choice([.001, -1e-5]) if not fmt.isfloat else .5])
        kw['divisor'] = div
    elif r < .6:
        kw['divisor'] = 0.
    d = np.float32(div) if div else np.float32(s if s else 1.)
    rdiv = float(np.float32(1) / d)
    bias = 0.
    if rng.random() < .4:
        bias = float(np.float32(rng.uniform(-.5, .5) if fmt.isfloat else rng.choice([rng.uniform(-fmt.peak, fmt.peak), fmt.peak // 2, 1.25])))
        kw['bias'] = bias
    sat = True
    if rng.random() < .4:
        sat = rng.random() < .4
        kw['saturate'] = int(sat)
    if mode:
        kw['mode'] = rng.choice(['hv', 'vh']) if mode == 'hv' else mode
    pl, proc = rand_planes_arg(rng, fmt)
    m = mode or 's'
    k = num // 2
    if m == 's':
        q = int(round(num ** .5)) // 2
        offs = [(y, x) for y in range(-q, q + 1) for x in range(-q, q + 1)]

    def model(p, a):
        a = a.astype(np.float64)
        # in float formats the sum of the coefficients is itself rounded: widen by that
        if m == 's':
            r = conv_v(fmt, a, a, cm, rdiv, bias, sat, offs)
        elif m == 'h':
            r = conv_v(fmt, a, a, cm, rdiv, bias, sat, [(0, i) for i in range(-k, k + 1)])
        elif m == 'v':
            r = conv_v(fmt, a, a, cm, rdiv, bias, sat, [(i, 0) for i in range(-k, k + 1)])
        else:
            r = conv_v(fmt, a, a, cm, rdiv, bias, sat, [(i, 0) for i in range(-k, k + 1)])
            r = conv_v(fmt, r[0], r[1], cm, rdiv, bias, sat, [(0, i) for i in range(-k, k + 1)])
        if fmt.isfloat:
            g = 4 * EPS * np.maximum(np.abs(r[0]), np.abs(r[1])) if div else (1e-4 + srel) * np.maximum(np.abs(r[0]), np.abs(r[1])) + 1e-6
            r = (r[0] - g, r[1] + g)
            if fmt.bits == 16 and (np.abs(r[1]).max() > 60000 or np.abs(r[0]).max() > 60000):
                return np.full(a.shape, -np.inf), np.full(a.shape, np.inf)
        return r

    what = f'Convolution {fmt} {src.w}x{src.h} matrix={c if num <= 25 else str(c[:9]) + "..." + str(num)} {kw} planes={pl}'
    rep.count('conv_' + m + (str(num) if m == 's' else ''))
    unary(core, rng, rep, 'Convolution:' + m, what, lambda: core.clip('Convolution', clip=src, matrix=c, planes=pl, **kw), src, frames, model, proc)


def case(core, rng, nrng, rep, k, opts):
    fmt = rand_fmt(rng)
    w, h = rand_dims(rng, fmt, minw=4, minh=4)
    mindim = min(min(fmt.dims(p, w, h)) for p in range(fmt.np))
    src, frames = rand_clip(core, rng, nrng, fmt, w, h, rng.randint(1, 3), wide=rng.random() < .3)
    if k % 10 == 0:
        fmt = rand_fmt(rng, kinds=('u8', 'u16', 'u16'))
        w, h = rand_dims(rng, fmt, minw=4, minh=4)
        mindim = min(min(fmt.dims(p, w, h)) for p in range(fmt.np))
        src, frames = rand_clip(core, rng, nrng, fmt, w, h, 1, style='bright')
        return convolution(core, rng, nrng, rep, fmt, src, frames, mindim, hot=True)
    op = rng.choice(['Convolution'] * 6 + ['Median', 'Minimum', 'Maximum', 'Minimum', 'Maximum', 'Inflate', 'Deflate', 'Prewitt', 'Sobel'])
    if op == 'Convolution':
        return convolution(core, rng, nrng, rep, fmt, src, frames, mindim)
    pl, proc = rand_planes_arg(rng, fmt)
    kw = {}
    rep.count(op)
    ct = np.float64 if not fmt.isfloat else np.float32
    if op in ('Minimum', 'Maximum', 'Inflate', 'Deflate'):
        th = None
        if rng.random() < .6:
            th = rng.choice([0., .01, .5, rng.uniform(0, 1), 3.]) if fmt.isfloat else float(rng.choice([0, 1, fmt.peak, rng.randint(0, fmt.peak), rng.randint(0, max(1, fmt.peak >> 4))]))
            kw['threshold'] = th
        t = np.float32(th) if th is not None else (np.float32(3.4028234663852886e38) if fmt.isfloat else float(fmt.peak))
        if not fmt.isfloat:
            t = float(t)
    if op == 'Median':
        def model(p, a):
            return np.sort(np.stack(neigh(a)), axis=0)[4]
    elif op in ('Minimum', 'Maximum'):
        co = None
        if rng.random() < .6:
            co = [rng.choice([0, 1, 1, 5]) for _ in range(8)]
            kw['coordinates'] = co
        sel = [i for i in range(9) if i == 4 or co is None or co[i if i < 4 else i - 1]]

        def model(p, a):
            ns = neigh(a.astype(ct))
            st = np.stack([ns[i] for i in sel])
            c = ns[4]
            if op == 'Minimum':
                v = np.maximum(st.min(axis=0), c - t)
            else:
                v = np.minimum(st.max(axis=0), c + t)
            return v.astype(fmt.dtype)
    elif op in ('Inflate', 'Deflate'):
        def model(p, a):
            ns = neigh(a.astype(np.float64))
            c = ns[4]
            s = sum(ns[i] for i in range(9) if i != 4)
            if not fmt.isfloat:
                v = np.floor((s + 4) / 8)
                v = np.minimum(np.maximum(v, c), c + t) if op == 'Inflate' else np.maximum(np.minimum(v, c), c - t)
                return v.astype(fmt.dtype)
            v = s / 8
            e = 10 * EPS * sum(np.abs(ns[i]) for i in range(9))
            f = (lambda v: np.minimum(np.maximum(v, c), c + t)) if op == 'Inflate' else (lambda v: np.maximum(np.minimum(v, c), c - t))
            lo, hi = f(v - e), f(v + e)
            return float_range(lo, 2 * EPS * np.abs(lo), fmt)[0], float_range(hi, 2 * EPS * np.abs(hi), fmt)[1]
    else:
        sc = 1.
        if rng.random() < .5:
            sc = rng.choice([0., .5, 2., .1, rng.uniform(0, 4), rng.choice([1e6, 1e9, 3e-5]) if not fmt.isfloat else 3.])
            kw['scale'] = sc
        sc = float(np.float32(sc))
        q = 2. if op == 'Sobel' else 1.

        def model(p, a):
            n = neigh(a.astype(np.float64))
            gx = n[6] + q * n[7] + n[8] - n[0] - q * n[1] - n[2]
            gy = n[2] + q * n[5] + n[8] - n[0] - q * n[3] - n[6]
            v = np.sqrt(gx * gx + gy * gy) * sc
            e = 8 * EPS * v + 1e-9
            if fmt.isfloat:
                e = (20 * EPS * sum(q * np.abs(x) for x in n) + 8 * EPS * np.sqrt(gx * gx + gy * gy)) * max(sc, 1e-6) + 1e-9
            return out_range(v, e, fmt)

    what = f'{op} {fmt} {w}x{h} {kw} planes={pl}'
    unary(core, rng, rep, op, what, lambda: core.clip(op, clip=src, planes=pl, **kw), src, frames, model, proc)
    if k < 2:
        rep.sample(what)
