"""BoxBlur, AverageFrames"""
import numpy as np
from fcommon import *


def box1(fmt, lo, hi, r, up):
    """one horizontal pass over interval data"""
    h, w = lo.shape
    idx = np.clip(np.arange(w)[:, None] + np.arange(-r, r + 1)[None, :], 0, w - 1) if r * w < 4000 else None
    d = 2 * r + 1

    def sums(a):
        if idx is not None:
            return a[:, idx].sum(axis=2)
        p = np.concatenate([np.repeat(a[:, :1], r, 1), a, np.repeat(a[:, -1:], r, 1)], 1)
        c = np.concatenate([np.zeros((h, 1), p.dtype), np.cumsum(p, 1)], 1)
        return c[:, d:] - c[:, :-d]
    if not fmt.isfloat:
        s = sums(lo)
        v = (s + (d - 1 if up else 0)) // d
        return v, v
    m = max(np.abs(lo).max(), np.abs(hi).max())
    e = (2 * w + 2 * r + 8) * EPS * m * (1.2 if idx is not None else 2) + 1e-37
    a, b = sums(lo) / d - e, sums(hi) / d + e
    if fmt.bits == 16:
        a, b = a - half_ulp(a), b + half_ulp(b)
    return a, b


def boxblur(core, rng, nrng, rep, k):
    fmt = rand_fmt(rng)
    w, h = rand_dims(rng, fmt, minw=4, minh=4, maxw=120)
    if fmt.cf == YUV and rng.random() < .3:
        w, h = 4 + (1 << fmt.ssw) * rng.randint(0, 1), 4 + (1 << fmt.ssh) * rng.randint(0, 1)
    src, frames = rand_clip(core, rng, nrng, fmt, w, h, rng.randint(1, 2), wide=rng.random() < .2)
    pl, proc = rand_planes_arg(rng, fmt)
    R = lambda: rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 10, rng.randint(0, 40), rng.randint(0, 300), 30000 if rng.random() < .1 else 1])
    Q = lambda: rng.choice([0, 1, 1, 1, 2, 3, 5])
    hr, vr, hp, vp = R(), R(), Q(), Q()
    kw = {}
    for n, v in (('hradius', hr), ('vradius', vr), ('hpasses', hp), ('vpasses', vp)):
        if v != 1 or rng.random() < .5:
            kw[n] = v
    what = f'BoxBlur {fmt} {w}x{h} {kw} planes={pl}'
    mk = lambda: core.clip('BoxBlur', clip=src, planes=pl, **kw)
    if not (hr and hp) and not (vr and vp):
        return must_fail(rep, 'BoxBlur:nothing', what, mk)

    def model(p, a):
        ct = np.float64 if fmt.isfloat else np.int64
        lo = hi = a.astype(ct)
        if hr and hp:
            for i in range(hp):
                lo, hi = box1(fmt, lo, hi, hr, i % 2 == 0)
        if vr and vp:
            lo, hi = lo.T, hi.T
            for i in range(vp):
                lo, hi = box1(fmt, lo, hi, vr, i % 2 == 0)
            lo, hi = lo.T, hi.T
        return (lo, hi) if fmt.isfloat else lo.astype(fmt.dtype)
    rep.count('BoxBlur')
    unary(core, rng, rep, 'BoxBlur', what, mk, src, frames, model, proc)
    if k < 4:
        rep.sample(what)


def average(core, rng, nrng, rep, k):
    fmt = rand_fmt(rng)
    w, h = rand_dims(rng, fmt, maxh=8)
    F = fmt.isfloat
    single = rng.random() < .5
    nw = rng.choice([1, 3, 3, 5, 7, 31, rng.randrange(1, 32, 2)]) if single else rng.choice([2, 3, 4, 8, 31, rng.randint(2, 31)])
    wide = rng.random() < .2
    sc = single and rng.random() < .6
    cl = []
    for i in range(1 if single else nw):
        n = rng.choice([1, 2, 3, 6, 12]) if single else rng.choice([1, 2, 2, 3])
        fr = []
        for j in range(n):
            p = rand_props(rng, j)
            if rng.random() < .25:
                p['_SceneChangePrev'] = rng.randint(0, 1)
            if rng.random() < .25:
                p['_SceneChangeNext'] = rng.randint(0, 1)
            fr.append(core.frame(fmt, rand_planes(rng, nrng, fmt, w, h, wide=wide), p))
        cl.append((core.source(fr, fps=(25, 1)), fr))
    lim = rng.choice([1, 3, 1023])
    wt = [rng.choice([0., 1., -1., rng.uniform(-2, 2)]) if F else float(rng.randint(-lim if rng.random() < .3 else 0, lim)) for _ in range(nw)]
    kw = {}
    s = sum(float(np.float32(x)) for x in wt)
    if rng.random() < .5 or (F and abs(s) < .3):
        kw['scale'] = rng.choice([.5, 1., 3., 100., rng.uniform(.1, 50)]) if F else float(rng.choice([1, 2, 3, 7, rng.randint(1, 40000)]))
        scale = kw['scale']
    else:
        scale = s if s >= (1e-6 if F else 1) else 1.
    if sc or rng.random() < .2:
        kw['scenechange'] = int(sc)
        if not single:
            kw['scenechange'] = 0
    pl, proc = rand_planes_arg(rng, fmt)
    N = max(len(c[1]) for c in cl)
    what = f'AverageFrames {fmt} {w}x{h} weights={wt} {kw} planes={pl} lengths={[len(c[1]) for c in cl]}'
    rep.count('AverageFrames')
    for lv in LEVELS[::len(LEVELS) - 1]:
        core.setcpu(lv)
        try:
            node = core.clip('AverageFrames', clips=[c[0] for c in cl], weights=wt, planes=pl, **kw)
        except VSError as e:
            return rep.viol('AverageFrames:refused', f'{what}: {e}')
        check_info(rep, 'AverageFrames', what, node, fmt, w, h, N, (25, 1))
        ns = rng.sample(range(N), N)
        for n, f in zip(ns, fetch(rep, 'AverageFrames', what, node, ns)):
            if f is None:
                continue
            ww = list(wt)
            if single:
                r = nw // 2
                fr = [cl[0][1][min(max(n - r + i, 0), N - 1)] for i in range(nw)]
                center = fr[r]
                if sc:
                    first, last = 0, nw - 1
                    for i in range(r, 0, -1):
                        if fr[i].props.get('_SceneChangePrev', [0])[0]:
                            first = i
                            break
                    for i in range(r, nw - 1):
                        if fr[i].props.get('_SceneChangeNext', [0])[0]:
                            last = i
                            break
                    extra = 0
                    for i in range(nw):
                        if i < first or i > last:
                            extra += ww[i]
                            ww[i] = 0
                    ww[r] += extra
                    rep.count('scenechange', bool(extra))
            else:
                fr = [c[1][min(n, len(c[1]) - 1)] for c in cl]
                center = fr[0]
            check_props(rep, 'AverageFrames', f'{what} frame {n}', f.props, center.props)
            for p in range(fmt.np):
                wh = f'{what} [{lv}] frame {n} plane {p}'
                if p not in proc:
                    cmp_exact(rep, 'AverageFrames:unprocessed', wh, f.planes[p], center.planes[p])
                    continue
                a = np.stack([x.planes[p].astype(np.float64) for x in fr])
                cw = np.array([float(np.float32(x)) for x in ww])[:, None, None]
                if F:
                    mag = (np.abs(a) * np.abs(cw)).sum(0) / abs(scale)
                    # the moved weight and the default scale are float sums themselves
                    e = (2 * nw + 8) * EPS * mag + nw * EPS * sum(abs(x) for x in wt) * np.abs(a).max(0) / abs(scale)
                    if 'scale' not in kw and s > 0:
                        e = e + mag * nw * EPS * sum(abs(x) for x in wt) / s
                    lo, hi = float_range((a * cw).sum(0) / scale, e + 1e-37, fmt)
                    if fmt.bits == 16 and max(np.abs(lo).max(), np.abs(hi).max()) > 60000:
                        continue
                else:
                    b = float(1 << (fmt.bits - 1)) if fmt.chroma(p) else 0.
                    v = ((a - b) * cw).sum(0) / scale
                    lo, hi = int_range(v + b, 4 * EPS * np.abs(v) + 1e-9, fmt.peak)
                cmp_range(rep, 'AverageFrames', wh, f.planes[p], lo, hi)
                rep.ev(1, ('av', fmt.key, nw, single, w, h))


def case(core, rng, nrng, rep, k, opts):
    if rng.random() < .6:
        boxblur(core, rng, nrng, rep, k)
    else:
        average(core, rng, nrng, rep, k)
    if k % 4 == 0:
        # the end of the longest possible clip
        nw, n0 = rng.choice([3, 5, 31]), 2**31 - 1 - rng.randint(0, 2)
        b = core.clip('BlankClip', width=4, height=2, format=0x10080000, length=n0, color=float(9), keep=1)
        kw = dict(clips=[b], weights=[1.] * nw, scenechange=rng.randint(0, 1))
        nd = core.clip('AverageFrames', **kw)
        ns = [n0 - 1, n0 - 2, n0 - 1 - nw // 2]
        for n, f in zip(ns, fetch(rep, 'AverageFrames:end', f'AverageFrames of {nw} frames of a clip of {n0} frames', nd, ns)):
            if f is not None:
                cmp_exact(rep, 'AverageFrames:end', f'frame {n} of {n0}', f.planes[0], np.full((2, 4), 9, np.uint8))
    if k % 8 == 0:
        f = rand_fmt(rng)
        c, fr = rand_clip(core, rng, nrng, f, 8, 8, 1)
        d, _ = rand_clip(core, rng, nrng, f, 8 + (1 << f.ssw), 8, 1)
        must_fail(rep, 'AverageFrames:mismatch', 'clips of different sizes', lambda: core.clip('AverageFrames', clips=[c, d], weights=[1, 1]))
        must_fail(rep, 'AverageFrames:even', 'an even number of weights for one clip', lambda: core.clip('AverageFrames', clips=[c], weights=[1, 1]))
        must_fail(rep, 'AverageFrames:count', 'more weights than clips', lambda: core.clip('AverageFrames', clips=[c, c], weights=[1, 1, 1]))
        must_fail(rep, 'AverageFrames:many', '33 weights', lambda: core.clip('AverageFrames', clips=[c], weights=[1] * 33))
        must_fail(rep, 'AverageFrames:scale', 'scale -1', lambda: core.clip('AverageFrames', clips=[c], weights=[1] * 3, scale=-1.))
        must_fail(rep, 'AverageFrames:nan', 'a NaN weight', lambda: core.clip('AverageFrames', clips=[c], weights=[float('nan')] * 3))
        must_fail(rep, 'BoxBlur:negative', 'a negative radius', lambda: core.clip('BoxBlur', clip=c, hradius=-1))
        must_fail(rep, 'BoxBlur:large', 'radius 30001', lambda: core.clip('BoxBlur', clip=c, vradius=30001))
