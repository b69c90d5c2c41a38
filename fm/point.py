"""Invert, InvertMask, Limiter, Binarize(Mask), Levels, Lut, Lut2"""
import numpy as np
from fcommon import *

PER_CORE = 25


def f32(x):
    return float(np.float32(x))


def perplane(rng, fmt, lo, hi, integral=True):
    """(argument, value per plane given the default)"""
    n = rng.choice([0, 1, 1, 2, 3])
    n = min(n, fmt.np)
    if not n:
        return None, None
    v = [rng.randint(int(lo), int(hi)) + (rng.choice([0, 0, .25, .49]) if integral and lo >= 0 and hi < 1e9 else 0) if not fmt.isfloat else rng.choice([lo, hi, rng.uniform(lo, hi)]) for _ in range(n)]
    if not fmt.isfloat:
        v = [min(x, hi) for x in v]
    return [float(x) for x in v], [v[min(p, n - 1)] for p in range(3)]


def case(core, rng, nrng, rep, k, opts):
    op = rng.choice(['Invert', 'InvertMask', 'Limiter', 'Limiter', 'Binarize', 'BinarizeMask', 'Levels', 'Levels', 'Lut', 'Lut', 'Lut2', 'Lut2'])
    if op in ('Lut', 'Lut2'):
        return (lut if op == 'Lut' else lut2)(core, rng, nrng, rep, k)
    fmt = rand_fmt(rng)
    w, h = rand_dims(rng, fmt)
    src, frames = rand_clip(core, rng, nrng, fmt, w, h, rng.randint(1, 3), wide=rng.random() < .4)
    pl, proc = rand_planes_arg(rng, fmt)
    kw = {}
    mask = op.endswith('Mask')
    F = fmt.isfloat
    pk = fmt.peak
    uv = lambda p: fmt.chroma(p) and not mask
    rep.count(op)
    if op.startswith('Invert'):
        def model(p, a):
            if not F:
                return (pk - a.astype(np.int64)).astype(fmt.dtype)
            x = a.astype(np.float32)
            return (-x if uv(p) else np.float32(1) - x).astype(fmt.dtype)
    elif op == 'Limiter':
        lo, hi = (-.5, 1.2) if F else (0, pk)
        for _ in range(20):
            amin, vmin = perplane(rng, fmt, lo, hi)
            amax, vmax = perplane(rng, fmt, lo, hi)
            mn = [vmin[p] if vmin else ((-.5 if fmt.chroma(p) else 0) if F else 0) for p in range(3)]
            mx = [vmax[p] if vmax else ((.5 if fmt.chroma(p) else 1) if F else pk) for p in range(3)]
            if not F:
                mn, mx = [int(x + .5) for x in mn], [int(x + .5) for x in mx]
            if all(a <= b for a, b in zip(mn, mx)):
                break
        else:
            return
        kw = dict(min=amin, max=amax)

        def model(p, a):
            if not F:
                return np.clip(a, mn[p], mx[p]).astype(fmt.dtype)
            return np.minimum(np.float32(mx[p]), np.maximum(np.float32(mn[p]), a.astype(np.float32))).astype(fmt.dtype)
    elif op.startswith('Binarize'):
        lo, hi = (-.5, 1.2) if F else (0, pk)
        t, vt = perplane(rng, fmt, lo, hi)
        a0, v0 = perplane(rng, fmt, lo, hi)
        a1, v1 = perplane(rng, fmt, lo, hi)
        kw = dict(threshold=t, v0=a0, v1=a1)

        def model(p, a):
            th = vt[p] if vt else ((0. if uv(p) else .5) if F else (pk + 1) // 2)
            x0 = v0[p] if v0 else ((-.5 if uv(p) else 0.) if F else 0)
            x1 = v1[p] if v1 else ((.5 if uv(p) else 1.) if F else pk)
            if F:
                th, x0, x1 = np.float32(th), np.float32(x0), np.float32(x1)
                return np.where(a.astype(np.float32) < th, x0, x1).astype(fmt.dtype)
            th, x0, x1 = int(th + .5), int(x0 + .5), int(x1 + .5)
            return np.where(a.astype(np.int64) < th, x0, x1).astype(fmt.dtype)
    else:
        lo, hi = (-.5, 1.5) if F else (0, pk)
        for _ in range(30):
            args = {n: perplane(rng, fmt, lo, hi) for n in ('min_in', 'max_in', 'min_out', 'max_out')}
            ag, vg = perplane(rng, Fmt(fmt.cf, 1, 32, fmt.ssw, fmt.ssh), .2, 4.) if rng.random() < .6 else (None, None)
            if vg and rng.random() < .3:
                ag, vg = [1.] * len(ag), [1.] * 3
            D = dict(min_in=0., min_out=0., max_in=1. if F else float(pk), max_out=1. if F else float(pk))
            v = {n: [(args[n][1][p] if args[n][1] else D[n]) for p in range(3)] for n in args}
            gap = .05 if F else 1.5
            if all(v['max_in'][p] - v['min_in'][p] > gap for p in range(3)):
                break
        else:
            return
        kw = {n: a for n, (a, _) in args.items()}
        kw['gamma'] = ag

        def model(p, a):
            mi, xi, mo, xo = (f32(v[n][p]) for n in ('min_in', 'max_in', 'min_out', 'max_out'))
            if not F:
                mi, xi, mo, xo = (np.floor(x + .5) for x in (mi, xi, mo, xo))
            g = 1. / (f32(vg[p]) if vg else 1.)
            x = np.maximum(np.minimum(a.astype(np.float64), xi) - mi, 0) / (xi - mi)
            # float32 evaluation: the base of the power has a relative error of a few EPS, plus an absolute one from the subtraction
            eb = 8 * EPS * (1 + (abs(mi) + abs(xi)) / (xi - mi)) + 1e-12

            def y(b):
                return np.power(np.maximum(b, 0), g) * (xo - mo) + mo
            y1, y2 = y(x - eb), y(x + eb)
            e = 24 * EPS * (abs(xo - mo) * np.maximum(1, np.power(x, g)) + abs(mo)) + 1e-12
            lo_, hi_ = np.minimum(y1, y2) - e, np.maximum(y1, y2) + e
            if F:
                if fmt.bits == 16:
                    return lo_ - half_ulp(lo_), hi_ + half_ulp(hi_)
                return lo_, hi_
            # rounded by adding .5 in float32 and truncating
            z = 2 * EPS * pk
            return np.clip(np.ceil(lo_ - z - .5), 0, pk), np.clip(np.floor(hi_ + z + .5), 0, pk)

    what = f'{op} {fmt} {w}x{h} {kw} planes={pl}'
    unary(core, rng, rep, op, what, lambda: core.clip(op, clip=src, planes=pl, **kw), src, frames, model, proc)
    if k < 3:
        rep.sample(what)


def lut(core, rng, nrng, rep, k):
    fmt = rand_fmt(rng, kinds=('u8', 'u16'))
    w, h = rand_dims(rng, fmt)
    src, frames = rand_clip(core, rng, nrng, fmt, w, h, rng.randint(1, 3))
    pl, proc = rand_planes_arg(rng, fmt)
    fl = rng.random() < .3
    bits = rng.choice([8, 8, 9, 10, 12, 16, 16])
    kw = {}
    if fl:
        out = Fmt(fmt.cf, 1, 32, fmt.ssw, fmt.ssh)
        kw['floatout'] = 1
        tab = nrng.uniform(-2, 2, 1 << fmt.bits)
    else:
        if rng.random() < .5:
            bits = fmt.bits
        else:
            kw['bits'] = bits
        out = Fmt(fmt.cf, 0, bits, fmt.ssw, fmt.ssh)
        tab = nrng.integers(0, 1 << bits, 1 << fmt.bits)
    if np.dtype(out.dtype).itemsize != np.dtype(fmt.dtype).itemsize:
        pl, proc = None, set(range(fmt.np))
    if fmt.bits <= 9 and rng.random() < .2:
        t = tab.tolist()
        kw['function'] = core.func(lambda a: t[a['x'][0]])
        rep.count('lut_functions')
    else:
        kw['lutf' if fl else 'lut'] = tab
    rep.count('Lut')
    t2 = tab.astype(out.dtype)
    what = f'Lut {fmt}->{out} {w}x{h} planes={pl} {"function" if "function" in kw else "table"}'
    for lv in LEVELS:
        core.setcpu(lv)
        node = core.clip('Lut', clip=src, planes=pl, **kw)
        check_info(rep, 'Lut', what, node, out, w, h, src.n, src.fps)
        for i, f in enumerate(fetch(rep, 'Lut', what, node, list(range(src.n)))):
            if f is None:
                continue
            check_props(rep, 'Lut', what, f.props, frames[i].props)
            for p in range(fmt.np):
                if p in proc:
                    cmp_exact(rep, 'Lut', f'{what} [{lv}] frame {i} plane {p}', f.planes[p], t2[frames[i].planes[p]])
                else:
                    cmp_exact(rep, 'Lut:unprocessed', f'{what} [{lv}] frame {i} plane {p} (not processed)', f.planes[p], frames[i].planes[p])
                rep.ev(1, ('Lut', lv, fmt.key, out.key, w, h))
    if fmt.bits <= 10:
        bad = tab.copy()
        if not fl:
            bad[rng.randrange(len(bad))] = rng.choice([-1, 1 << out.bits])
            must_fail(rep, 'Lut:range', what + ' with a value out of range', lambda: core.clip('Lut', clip=src, lut=bad, bits=out.bits))
            if fmt.bits <= 9 and k % 3 == 0:
                at, v = rng.randrange(1 << fmt.bits), rng.choice([-1, 1 << out.bits, -2**63, 2**40])
                must_fail(rep, 'Lut:range', what + f' with a function returning {v}', lambda: core.clip('Lut', clip=src, bits=out.bits, function=core.func(lambda a: v if a['x'][0] == at else 0)))
        if fmt.np == 3 and np.dtype(out.dtype).itemsize != np.dtype(fmt.dtype).itemsize:
            q = rng.sample(range(3), rng.randint(1, 2))
            must_fail(rep, 'Lut:planes', what + f' with only planes {q}', lambda: core.clip('Lut', clip=src, planes=q, **kw))
        must_fail(rep, 'Lut:length', what + ' with a short table', lambda: core.clip('Lut', clip=src, bits=out.bits, floatout=int(fl), **{'lutf' if fl else 'lut': tab[:-1]}))


def lut2(core, rng, nrng, rep, k):
    while True:
        fmt = rand_fmt(rng, kinds=('u8', 'u8', 'u16'))
        if fmt.bits <= 12:
            break
    b2 = rng.choice([8, 8, 8, 9, 10, 12])
    b2 = min(b2, 20 - fmt.bits)
    if rng.random() < .7 and fmt.bits + b2 > 17:
        b2 = 8
    f2 = Fmt(fmt.cf, 0, b2, fmt.ssw, fmt.ssh)
    w, h = rand_dims(rng, fmt)
    n1, n2 = rng.randint(1, 3), rng.randint(1, 3)
    src, fr1 = rand_clip(core, rng, nrng, fmt, w, h, n1)
    sr2, fr2 = rand_clip(core, rng, nrng, f2, w, h, n2)
    pl, proc = rand_planes_arg(rng, fmt)
    fl = rng.random() < .2
    kw = {}
    if fl:
        out = Fmt(fmt.cf, 1, 32, fmt.ssw, fmt.ssh)
        kw['floatout'] = 1
        tab = nrng.uniform(-2, 2, 1 << (fmt.bits + b2))
    else:
        bits = fmt.bits
        if rng.random() < .5:
            kw['bits'] = bits = rng.choice([8, 10, 16])
        out = Fmt(fmt.cf, 0, bits, fmt.ssw, fmt.ssh)
        tab = nrng.integers(0, 1 << bits, 1 << (fmt.bits + b2))
    if np.dtype(out.dtype).itemsize != np.dtype(fmt.dtype).itemsize:
        pl, proc = None, set(range(fmt.np))
    if fmt.bits + b2 == 16 and rng.random() < .01:
        t = tab.tolist()
        kw['function'] = core.func(lambda a: t[a['x'][0] + (a['y'][0] << fmt.bits)])
        rep.count('lut_functions')
    else:
        kw['lutf' if fl else 'lut'] = tab
    rep.count('Lut2')
    t2 = tab.astype(out.dtype)
    what = f'Lut2 {fmt},{f2}->{out} {w}x{h} planes={pl} {n1},{n2} frames'
    for lv in LEVELS if 'function' not in kw else LEVELS[-1:]:
        core.setcpu(lv)
        node = core.clip('Lut2', clipa=src, clipb=sr2, planes=pl, **kw)
        check_info(rep, 'Lut2', what, node, out, w, h, n1, src.fps)
        for i, f in enumerate(fetch(rep, 'Lut2', what, node, list(range(n1)))):
            if f is None:
                continue
            check_props(rep, 'Lut2', what, f.props, fr1[i].props)
            for p in range(fmt.np):
                if p in proc:
                    x, y = fr1[i].planes[p].astype(np.int64), fr2[min(i, n2 - 1)].planes[p].astype(np.int64)
                    cmp_exact(rep, 'Lut2', f'{what} [{lv}] frame {i} plane {p}', f.planes[p], t2[x + (y << fmt.bits)])
                else:
                    cmp_exact(rep, 'Lut2:unprocessed', f'{what} [{lv}] frame {i} plane {p} (not processed)', f.planes[p], fr1[i].planes[p])
                rep.ev(1, ('Lut2', lv, fmt.key, f2.key, out.key, w, h))
    if not fl and fmt.bits + b2 <= 18 and 'function' not in kw:
        bad = tab.copy()
        bad[rng.randrange(len(bad))] = rng.choice([-1, 1 << out.bits])
        must_fail(rep, 'Lut2:range', what + ' with a value out of range', lambda: core.clip('Lut2', clipa=src, clipb=sr2, lut=bad, bits=out.bits))
        must_fail(rep, 'Lut2:length', what + ' with a short table', lambda: core.clip('Lut2', clipa=src, clipb=sr2, lut=tab[:-1], bits=out.bits))
        if k % 4 == 0:
            at, v = rng.randrange(200), rng.choice([-1, 1 << out.bits, -2**63, 2**40])
            must_fail(rep, 'Lut2:range', what + f' with a function returning {v}', lambda: core.clip('Lut2', clipa=src, clipb=sr2, bits=out.bits, function=core.func(lambda a: v if a['x'][0] == at and not a['y'][0] else 0)))
    if fmt.np == 3 and np.dtype(out.dtype).itemsize != np.dtype(fmt.dtype).itemsize:
        q = rng.sample(range(3), rng.randint(1, 2))
        must_fail(rep, 'Lut2:planes', what + f' with only planes {q}', lambda: core.clip('Lut2', clipa=src, clipb=sr2, planes=q, **kw))
