"""Merge, MaskedMerge, MakeDiff, MergeDiff, MakeFullDiff, MergeFullDiff, PreMultiply"""
import numpy as np
from fcommon import *

PER_CORE = 25


def fr_out(v, eps, fmt):
    return float_range(v, eps, fmt)


def range_offset(f, fmt):
    r = f.props.get('_Range')
    lim = (r[0] == 0) if r else fmt.cf in (GRAY, YUV)          # 0 limited, 1 full
    return 16 << (fmt.bits - 8) if lim else 0


def premul(x, a, off, pk):
    d = x.astype(np.int64) - off
    m = (np.abs(d) * a.astype(np.int64) + pk // 2) // pk
    return np.where(d < 0, -m, m)


def clipn(core, rng, nrng, fmt, w, h, n, prop=None, **kw):
    fr = []
    for i in range(n):
        d = rand_props(rng, i)
        if prop:
            d.update(prop(i))
        fr.append(core.frame(fmt, rand_planes(rng, nrng, fmt, w, h, **kw), d))
    return core.source(fr, fps=rng.choice([(25, 1), (30000, 1001), (0, 0)])), fr


def case(core, rng, nrng, rep, k, opts):
    op = rng.choice(['Merge', 'Merge', 'MaskedMerge', 'MaskedMerge', 'MaskedMerge', 'MakeDiff', 'MergeDiff', 'MakeFullDiff', 'MergeFullDiff', 'PreMultiply'])
    fmt = rand_fmt(rng)
    if op == 'PreMultiply' and fmt.cf == YUV:
        fmt = Fmt(fmt.cf, fmt.st, fmt.bits)
    w, h = rand_dims(rng, fmt)
    n = rng.randint(1, 3)
    F, pk = fmt.isfloat, fmt.peak
    wide = rng.random() < .3
    rngp = rng.choice([None, 0, 1])
    loc = rng.choice([None, 0, 1, 2, 5])
    def prop(i):
        d = {}
        if rngp is not None:
            d['_Range'] = rngp
        if loc is not None:
            d['_ChromaLocation'] = loc
        return d
    A = clipn(core, rng, nrng, fmt, w, h, n, prop, wide=wide)
    f2 = Fmt(fmt.cf, fmt.st, fmt.bits + (op == 'MergeFullDiff' and not F), fmt.ssw, fmt.ssh)
    nb = rng.choice([n, n, 1, n + 2])
    B = None if op == 'PreMultiply' else clipn(core, rng, nrng, f2, w, h, nb, prop, wide=wide)
    pl, proc = rand_planes_arg(rng, fmt) if op in ('MaskedMerge', 'MakeDiff', 'MergeDiff') else (None, set(range(fmt.np)))
    rep.count(op)
    outfmt = None
    I = lambda a: a.astype(np.int64)
    D = lambda a: a.astype(np.float64)
    props = None
    if op == 'Merge':
        nw = rng.choice([0, 1, 1, 2, 3])
        nw = min(nw, fmt.np)
        wt = [rng.choice([0., 1., .5, .25, 1e-5, 1 - 1e-5, .99999, rng.choice([1, 2, 3, 32766, 32767]) / 32768, 2.**-16, .9999847, rng.random(), rng.random(), rng.random()]) for _ in range(nw)]
        ww = [(wt[min(p, nw - 1)] if nw else .5) for p in range(3)]
        kw = dict(weight=wt or None)
        clips = [A, B]

        def model(p, a, f):
            x = float(np.float32(ww[p]))
            if x == 0:
                return a[0]
            if x == 1:
                return a[1]
            if F:
                v1, v2 = D(a[0]), D(a[1])
                return fr_out(v1 + (v2 - v1) * x, 4 * EPS * (np.abs(v1) + np.abs(v2)), fmt)
            wi = min(int(np.float32(x) * np.float32(32768) + np.float32(.5)), 32767)
            if wi == 0:
                return a[0]
            return (I(a[0]) + (((I(a[1]) - I(a[0])) * wi + 16384) >> 15)).astype(fmt.dtype)
        create = lambda: core.clip(op, clipa=A[0], clipb=B[0], **kw)
    elif op in ('MakeDiff', 'MakeFullDiff', 'MergeDiff', 'MergeFullDiff'):
        full = 'Full' in op
        sub = op.startswith('Make')
        kw = {} if full else dict(planes=pl)
        clips = [A, B]
        if full and sub and not F:
            outfmt = Fmt(fmt.cf, 0, fmt.bits + 1, fmt.ssw, fmt.ssh)

        def model(p, a, f):
            if F:
                x, y = a[0].astype(np.float32), a[1].astype(np.float32)
                return (x - y if sub else x + y).astype(fmt.dtype)
            half = 1 << (fmt.bits if full else fmt.bits - 1)
            v = I(a[0]) - I(a[1]) + half if sub else I(a[0]) + I(a[1]) - half
            o = outfmt or fmt
            return np.clip(v, 0, o.peak).astype(o.dtype)
        create = lambda: core.clip(op, clipa=A[0], clipb=B[0], **kw)
    elif op == 'PreMultiply':
        fa = Fmt(GRAY, fmt.st, fmt.bits)
        M = clipn(core, rng, nrng, fa, w, h, rng.choice([n, 1, n + 1]))
        clips = [A, M]
        kw = {}

        def model(p, a, f):
            m = f[1].planes[0]
            if F:
                return fr_out(D(a[0]) * D(m), 2 * EPS * np.abs(D(a[0]) * D(m)), fmt)
            off = 1 << (fmt.bits - 1) if fmt.chroma(p) else range_offset(f[0], fmt)
            return (premul(a[0], m, off, pk) + off).astype(fmt.dtype)
        create = lambda: core.clip(op, clip=A[0], alpha=M[0])
    else:
        sub = (fmt.ssw or fmt.ssh) and (proc & {1, 2})
        mk = rng.choice(['same', 'gray', 'first'])
        if sub:
            mk = 'same'
        fm = Fmt(GRAY, fmt.st, fmt.bits) if mk == 'gray' else fmt
        M = clipn(core, rng, nrng, fm, w, h, rng.choice([n, 1, n + 1]), wide=rng.random() < .3)
        if fmt.cf == YUV and mk != 'gray' and F:
            # chroma planes of a mask hold 0..1 here
            fr = [core.frame(fm, [rand_plane(rng, nrng, fmt, *fmt.dims(p, w, h), wide=rng.random() < .3) for p in range(3)], {}) for _ in M[1]]
            M = (core.source(fr), fr)
        pm = rng.random() < .4
        kw = dict(planes=pl, first_plane=1 if mk == 'first' else None, premultiplied=1 if pm else rng.choice([None, 0]))
        clips = [A, B, M]

        def model(p, a, f):
            m = f[2].planes[0] if mk != 'same' or fmt.cf == GRAY else a[2]
            if F:
                m = np.clip(D(m), 0, 1)
                v1, v2 = D(a[0]), D(a[1])
                if pm:
                    return fr_out((1 - m) * v1 + v2, 5 * EPS * (np.abs(v1) + np.abs(v2)), fmt)
                return fr_out(v1 + (v2 - v1) * m, 5 * EPS * (np.abs(v1) + np.abs(v2)), fmt)
            if pm:
                off = 1 << (fmt.bits - 1) if fmt.chroma(p) else range_offset(f[0], fmt)
                return np.clip(premul(a[0], pk - I(m), off, pk) + I(a[1]), 0, pk).astype(fmt.dtype)
            return (((pk - I(m)) * I(a[0]) + I(m) * I(a[1]) + pk // 2) // pk).astype(fmt.dtype)
        create = lambda: core.clip(op, clipa=A[0], clipb=B[0], mask=M[0], **kw)
        rep.count('mask_' + mk)
    what = f'{op} {fmt} {w}x{h} {kw} lengths={[len(c[1]) for c in clips]} range={rngp}'
    nary(core, rng, rep, op, what, create, clips, model, proc, outfmt=outfmt)
    if op == 'MaskedMerge' and n == nb == 1:
        # frames that cannot be merged meaningfully are refused
        f1, f2_ = A[1][0], B[1][0]
        if fmt.ssw or fmt.ssh:
            g = core.frame(fmt, f2_.planes, dict(prop(0), _ChromaLocation=4 if loc != 4 else 3))
            c2 = core.source([g])
            r = core.clip(op, clipa=A[0], clipb=c2, mask=M[0], **kw)
            if proc & {1, 2}:
                must_fail(rep, 'MaskedMerge:chromaloc', what + ' with different chroma locations', lambda: r.get(0))
            else:
                fetch(rep, 'MaskedMerge:chromaloc-luma', what, r, [0])
        if pm and not F:
            g = core.frame(fmt, f2_.planes, dict(prop(0), _Range=0 if range_offset(f1, fmt) == 0 else 1))
            r = core.clip(op, clipa=A[0], clipb=core.source([g]), mask=M[0], **kw)
            must_fail(rep, 'MaskedMerge:range', what + ' with different ranges', lambda: r.get(0))
    # clips that do not fit together are refused
    if k % 4 == 0:
        r = rng.random()
        fx = fmt
        if r < .3:
            fx = Fmt(fmt.cf, fmt.st, 8 if fmt.bits != 8 else 10, fmt.ssw, fmt.ssh) if not F else Fmt(fmt.cf, 1, 48 - fmt.bits, fmt.ssw, fmt.ssh)
            wx, hx = w, h
        elif r < .6:
            wx, hx = w + (1 << fmt.ssw), h
        elif r < .8 and not F:
            fx = Fmt(fmt.cf, 1, 16 if fmt.bits == 16 else 32, fmt.ssw, fmt.ssh)
            wx, hx = w, h
        else:
            wx, hx = w, h + (1 << fmt.ssh)
        if op == 'PreMultiply':
            fx = Fmt(GRAY, fx.st, fx.bits)
        elif op == 'MergeFullDiff' and not F and not fx.st:
            fx = Fmt(fx.cf, 0, fx.bits + 1, fx.ssw, fx.ssh)
        if op == 'MergeFullDiff' and (F and False):
            return
        C = clipn(core, rng, nrng, fx, wx, hx, 1)[0]
        w2 = f'{op} {fmt} {w}x{h} with a second clip {fx} {wx}x{hx}'
        if op == 'PreMultiply':
            must_fail(rep, op + ':mismatch', w2, lambda: core.clip(op, clip=A[0], alpha=C))
        elif op == 'MaskedMerge':
            must_fail(rep, op + ':mismatch', w2, lambda: core.clip(op, clipa=A[0], clipb=C, mask=M[0]))
            must_fail(rep, op + ':mask', f'{op} {fmt} {w}x{h} with a mask {fx} {wx}x{hx}', lambda: core.clip(op, clipa=A[0], clipb=B[0], mask=C, planes=0))
        else:
            must_fail(rep, op + ':mismatch', w2, lambda: core.clip(op, clipa=A[0], clipb=C))
