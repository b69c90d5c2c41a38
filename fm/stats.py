"""PlaneStats and PEMVerifier"""
import re
import numpy as np
from fcommon import *


def planestats(core, rng, nrng, rep, k):
    fmt = rand_fmt(rng)
    w, h = rand_dims(rng, fmt)
    big = k % 250 == 7
    if big:         # rows longer than what partial sums of vector code can hold
        fmt = Fmt(GRAY, 0, rng.choice([8, 16, 16, 16]))
        w, h = rng.randint(520000, 1200000), rng.randint(1, 2)
    wide = rng.random() < .2
    st = rng.choice(STYLES)
    n = 1 if big else rng.randint(1, 3)
    if big:
        sty = rng.choice(['flat', 'extreme', 'uniform', 'low', 'high', 'high'])
        fr = [core.frame(fmt, [np.full((h, w), 0 if sty == 'low' else fmt.peak, fmt.dtype) if sty in ('low', 'high') else rand_plane(rng, nrng, fmt, h, w, style=sty)])]
        src = core.source(fr)
    else:
        src, fr = rand_clip(core, rng, nrng, fmt, w, h, n, wide=wide)
    b, two = None, rng.random() < .6
    if two:
        r = rng.random()
        if r < .15:
            b, fb = src, fr
        elif r < .4:    # nearly equal: the difference is decided by single samples
            fb = []
            for f in fr:
                q = [p.copy() for p in f.planes]
                for p in q:
                    y, x = rng.randrange(p.shape[0]), rng.choice([0, p.shape[1] - 1, rng.randrange(p.shape[1])])
                    p[y, x] = p[y, x] + 1 if fmt.isfloat else fmt.peak - p[y, x]
                fb.append(core.frame(fmt, q))
            b = core.source(fb, fps=src.fps)
        else:
            m = rng.randint(1, 3)
            fb = [core.frame(fmt, rand_planes(rng, nrng, fmt, w, h, wide=wide)) for _ in range(m)]
            b = core.source(fb, fps=rng.choice([(25, 1), src.fps]))
    plane = rng.choice([None] + list(range(fmt.np)))
    prop = rng.choice([None, 'PlaneStats', 'x', '_q'])
    P = plane or 0
    pre = prop or 'PlaneStats'
    what = f'PlaneStats {fmt} {w}x{h} plane={plane} prop={prop} two={two}'
    ns = rng.sample(range(n), n)
    for lv in LEVELS:
        core.setcpu(lv)
        node = core.clip('PlaneStats', clipa=src, clipb=b, plane=plane, prop=prop)
        wl = f'{what} [{lv}]'
        check_info(rep, 'PlaneStats', wl, node, fmt, w, h, n, src.fps)
        for i, f in zip(ns, fetch(rep, 'PlaneStats', wl, node, ns)):
            if f is None:
                continue
            a = fr[i].planes[P]
            c = fb[min(i, len(fb) - 1)].planes[P] if two else None
            A = a.astype(np.float64)
            N = A.size
            sc = 1. if fmt.isfloat else float(fmt.peak)
            exp = {'Min': (float if fmt.isfloat else int)(a.min()), 'Max': (float if fmt.isfloat else int)(a.max())}
            avg = A.sum() / N / sc
            tol = {'Average': 1e-12 * (np.abs(A).sum() / N / sc + 1e-9)}
            exp['Average'] = avg
            if two:
                d = np.abs(A - c.astype(np.float64)).sum() / N / sc
                exp['Diff'] = d
                tol['Diff'] = (2 ** -23 if fmt.isfloat else 1e-12) * d + 1e-21
            props = f.props
            for q, e in exp.items():
                g = props.pop(pre + q, [None])
                ok = len(g) == 1 and type(g[0]) is type(e) if q in ('Min', 'Max') else len(g) == 1 and isinstance(g[0], float)
                if ok:
                    ok = abs(g[0] - e) <= tol[q] if q in tol else g[0] == e
                if not ok:
                    rep.viol('PlaneStats:' + q, f'{wl} frame {i}: {pre + q} is {g}, expected {e!r}')
            if not two and pre + 'Diff' in props:
                rep.viol('PlaneStats:Diff', f'{wl}: a difference without a second clip')
            check_props(rep, 'PlaneStats', wl, props, {x: v for x, v in fr[i].props.items()})
            for p in range(fmt.np):
                cmp_exact(rep, 'PlaneStats:picture', wl, f.planes[p], fr[i].planes[p])
            rep.ev(1, ('PlaneStats', lv, fmt.key, w, two))
    rep.count('PlaneStats')
    if k < 4:
        rep.sample(what)
    if k % 10 == 0:
        o, _ = rand_clip(core, rng, nrng, fmt, w + (1 << fmt.ssw), h, 1)
        must_fail(rep, 'PlaneStats:bad', 'clips of different sizes', lambda: core.clip('PlaneStats', clipa=src, clipb=o))
        must_fail(rep, 'PlaneStats:bad', f'{fmt} plane {fmt.np}', lambda: core.clip('PlaneStats', clipa=src, plane=fmt.np))
        must_fail(rep, 'PlaneStats:bad', 'plane -1', lambda: core.clip('PlaneStats', clipa=src, plane=-1))
        f32 = Fmt(GRAY, 0, 32)
        o, _ = rand_clip(core, rng, nrng, f32, 4, 4, 1)
        must_fail(rep, 'PlaneStats:bad', '32 bit integer', lambda: core.clip('PlaneStats', clipa=o))
        must_fail(rep, 'PEMVerifier:bad', '32 bit integer', lambda: core.clip('PEMVerifier', clip=o))


MSG = re.compile(r'^PEMVerifier: Illegal sample value \((\S+)\) at: plane: (\d+) Y: (\d+), X: (\d+), Frame: (\d+)$')


def pem(core, rng, nrng, rep, k):
    fmt = rand_fmt(rng)
    w, h = rand_dims(rng, fmt)
    n = rng.randint(1, 4)
    wide = fmt.isfloat and rng.random() < .5
    lo = up = None
    nat = [((-.5, .5) if fmt.chroma(p) else (0., 1.)) if fmt.isfloat else (0, fmt.peak) for p in range(fmt.np)]
    L, U = [x[0] for x in nat], [x[1] for x in nat]
    if rng.random() < .6:
        if fmt.isfloat:
            q = lambda: float(np.float32(rng.uniform(-.6, 1.1)))
        else:
            q = lambda: rng.choice([0, fmt.peak, rng.randint(0, fmt.peak), fmt.peak >> 4, 235 << (fmt.bits - 8)])
        which = rng.randint(1, 3)
        for p in range(fmt.np):
            a, b = sorted((q(), q()))
            if fmt.isfloat and rng.random() < .25:      # only samples that aren't finite are left to reject
                a, b = rng.choice([(-np.inf, np.inf), (-3e38, np.inf), (-np.inf, 3e38), (-np.inf, b), (a, np.inf)])
            if which & 1:
                L[p] = a
            if which & 2:
                U[p] = max(b, L[p])
            elif U[p] < L[p]:
                L[p] = nat[p][0]
        if which & 1:
            lo = [float(x) for x in L]
        if which & 2:
            up = [float(x) for x in U]
    frames = []
    for i in range(n):
        pl = []
        good = rng.random() < .7
        for p in range(fmt.np):
            hh, ww = fmt.dims(p, w, h)
            a = rand_plane(rng, nrng, fmt, hh, ww, chroma=fmt.chroma(p), wide=wide)
            if good:                # all good but for a few samples
                a = np.clip(a.astype(np.float64), L[p], U[p])
                if fmt.isfloat and fmt.bits == 16:
                    t = a.astype(np.float16)
                    t = np.where(t.astype(np.float64) < L[p], np.nextafter(t, np.float16(np.inf)), t)
                    t = np.where(t.astype(np.float64) > U[p], np.nextafter(t, np.float16(-np.inf)), t)
                    a = t
                a = a.astype(fmt.dtype)
                for _ in range(rng.choice([0, 0, 0, 1, 2])):
                    y, x = rng.choice([0, hh - 1, rng.randrange(hh)]), rng.choice([0, ww - 1, rng.randrange(ww)])
                    if fmt.isfloat:
                        a[y, x] = rng.choice([np.nan, np.inf, -np.inf, np.nextafter(fmt.dtype(U[p]), fmt.dtype(9)), np.nextafter(fmt.dtype(L[p]), fmt.dtype(-9)), 1, 0, -.5])
                    else:
                        a[y, x] = rng.choice([min(U[p] + 1, int(np.iinfo(fmt.dtype).max)), max(L[p] - 1, 0), int(np.iinfo(fmt.dtype).max), fmt.peak, 0, U[p], L[p]])
            pl.append(a)
        frames.append(core.frame(fmt, pl, rand_props(rng, i)))
    src = core.source(frames)
    core.setcpu(rng.choice(LEVELS))
    what = f'PEMVerifier {fmt} {w}x{h} lower={lo} upper={up}'
    node = core.clip('PEMVerifier', clip=src, lower=lo, upper=up)
    check_info(rep, 'PEMVerifier', what, node, fmt, w, h, n, src.fps)
    for i, f in enumerate(node.getmany(range(n))):
        bad = None
        for p, a in enumerate(frames[i].planes):
            A = a.astype(np.float64)
            m = ~((A >= L[p]) & (A <= U[p]) & np.isfinite(A))
            if m.any():
                y, x = np.argwhere(m)[0]
                bad = (p, int(y), int(x), i)
                break
        if isinstance(f, VSError):
            m = MSG.match(str(f))
            if not m:
                rep.viol('PEMVerifier:message', f'{what}: {f}')
            elif bad is None or tuple(int(v) for v in m.groups()[1:]) != bad:
                rep.viol('PEMVerifier:wrong', f'{what} frame {i}: {f}; the first bad sample is {bad}')
            rep.count('PEMVerifier_bad')
        else:
            if bad:
                rep.viol('PEMVerifier:missed', f'{what} frame {i}: passed, the sample {bad} is {frames[i].planes[bad[0]][bad[1], bad[2]]!r}')
            check_props(rep, 'PEMVerifier', what, f.props, frames[i].props)
            for p in range(fmt.np):
                cmp_exact(rep, 'PEMVerifier:picture', what, f.planes[p], frames[i].planes[p])
            rep.count('PEMVerifier_good')
        rep.ev(1, ('PEM', fmt.key, w, h))
    if k % 10 == 1:
        must_fail(rep, 'PEMVerifier:count', f'{fmt.np + 1} bounds', lambda: core.clip('PEMVerifier', clip=src, lower=[0.] * (fmt.np + 1)))
        must_fail(rep, 'PEMVerifier:count', f'{fmt.np + 1} bounds', lambda: core.clip('PEMVerifier', clip=src, upper=[0.] * (fmt.np + 1)))
        must_fail(rep, 'PEMVerifier:order', 'upper below lower', lambda: core.clip('PEMVerifier', clip=src, lower=[1.] * fmt.np, upper=[0.] * fmt.np))
        if not fmt.isfloat:
            must_fail(rep, 'PEMVerifier:range', 'upper above peak', lambda: core.clip('PEMVerifier', clip=src, upper=[fmt.peak + 1.] * fmt.np))
            must_fail(rep, 'PEMVerifier:range', 'lower below 0', lambda: core.clip('PEMVerifier', clip=src, lower=[-1.] * fmt.np))


def case(core, rng, nrng, rep, k, opts):
    (planestats if rng.random() < .6 else pem)(core, rng, nrng, rep, k)
