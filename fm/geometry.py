"""Crop, AddBorders, Stack, Flip, Turn, Transpose, SeparateFields, DoubleWeave, ShufflePlanes, SplitPlanes, BlankClip"""
from fractions import Fraction
import numpy as np
from fcommon import *

KINDS = ('u8', 'u16', 'u32', 'f16', 'f32')


def check(rep, rng, key, what, node, fmt, w, h, n, fps, expect, ns=None, dist=()):
    """expect(i) -> (planes, properties)"""
    check_info(rep, key, what, node, fmt, w, h, n, fps)
    m = min(n, 12)
    ns = ns or rng.sample(range(n), m)
    rep.count(key.split(':')[0])
    for i, f in zip(ns, fetch(rep, key, what, node, ns)):
        if f is None:
            continue
        pl, pr = expect(i)
        if f.fmt != fmt or (f.w, f.h) != (w, h):
            rep.viol(key + ':info', f'{what} frame {i}: {f.fmt} {f.w}x{f.h} instead of {fmt} {w}x{h}')
            continue
        for p in range(fmt.np):
            cmp_exact(rep, key, f'{what} frame {i} plane {p}', f.planes[p], pl[p])
        check_props(rep, key, f'{what} frame {i}', f.props, pr)
        rep.ev(1, (key, fmt.key, w, h) + tuple(dist))


def clip(core, rng, nrng, fmt=None, minw=1, minh=1, maxh=24, n=None, kinds=KINDS, dims=None):
    fmt = fmt or rand_fmt(rng, kinds, maxss=4 if rng.random() < .2 else 2)
    w, h = dims or rand_dims(rng, fmt, minw=minw, minh=minh, maxh=maxh)
    src, fr = rand_clip(core, rng, nrng, fmt, w, h, n or rng.randint(1, 4))
    return fmt, w, h, src, fr


def toggled(pr):
    fb = pr.get('_FieldBased', [None])[0]
    return dict(pr, _FieldBased=[3 - fb]) if fb in (1, 2) else pr


def rnd(rng, hi, step, maxv=None):
    """a multiple of step in 0..hi"""
    hi = min(hi, maxv) if maxv else hi
    return rng.choice([0, rng.randint(0, max(0, hi // step)), rng.randint(0, max(0, min(hi // step, 4)))]) * step


def crop(core, rng, nrng, rep):
    fmt, w, h, src, fr = clip(core, rng, nrng)
    sw, sh = 1 << fmt.ssw, 1 << fmt.ssh
    l = rnd(rng, w - sw, sw)
    r = rnd(rng, w - sw - l, sw)
    t = rnd(rng, h - sh, sh)
    b = rnd(rng, h - sh - t, sh)
    W, H = w - l - r, h - t - b
    mode = rng.choice(['Crop', 'CropRel', 'CropAbs', 'CropAbs', 'CropAbs:var'])
    what = f'{mode} {fmt} {w}x{h} l={l} r={r} t={t} b={b}'

    def expect(i):
        pl = [a[t >> (fmt.ssh if p else 0):, l >> (fmt.ssw if p else 0):][:fmt.dims(p, W, H)[0], :fmt.dims(p, W, H)[1]] for p, a in enumerate(fr[i].planes)]
        return pl, toggled(fr[i].props) if t & 1 else fr[i].props
    if mode.startswith('CropAbs'):
        if mode.endswith('var'):       # variable size clip; frames may be larger
            src = core.source(fr, fmt, 0, 0, fps=(25, 1))
        kw = dict(width=W, height=H)
        a, c = rng.choice([('left', 'top'), ('x', 'y')])
        if l or rng.random() < .5:
            kw[a] = l
        if t or rng.random() < .5:
            kw[c] = t
        mk = lambda **o: core.clip('CropAbs', clip=src, **dict(kw, **o))
        node = mk()
    else:
        kw = {k: v for k, v in (('left', l), ('right', r), ('top', t), ('bottom', b)) if v or rng.random() < .5}
        mk = lambda **o: core.clip(mode, clip=src, **dict(kw, **o))
        node = mk()
    check(rep, rng, 'Crop', what, node, fmt, W, H, len(fr), src.fps, expect)
    # arguments that cannot work
    bad = []
    if mode.startswith('CropAbs'):
        if not mode.endswith('var'):
            bad += [dict(width=w - l + sw), dict(height=h - t + sh)]
        bad += [dict(width=0), dict(height=-2 * sh), {a: -sw}, {c: -sh}]
        if sw > 1:
            bad += [dict(width=W + 1), {a: l + 1}]
        if sh > 1:
            bad += [dict(height=H + 1), {c: t + 1}]
    else:
        bad += [dict(left=w), dict(right=w - l), dict(top=h - b), dict(bottom=h), dict(left=-sw), dict(right=-sw - l), dict(top=-sh), dict(bottom=-sh - t)]
        if sw > 1:
            bad += [dict(left=l + 1, right=r)]
        if sh > 1:
            bad += [dict(top=t, bottom=b + 1)]
    o = rng.choice(bad)
    must_fail(rep, 'Crop:bad', f'{what} with {o}', lambda: mk(**o))
    if mode.endswith('var') and (l + W + sw > w or True):
        big = mk(width=w - l + sw)
        e = big.getmany([0])[0]
        if not isinstance(e, VSError):
            rep.viol('Crop:beyond', f'{what}: cropping beyond a frame of a variable size clip gave a frame {e.w}x{e.h}')
        else:
            rep.count('rejected')


def tosample(fmt, v):
    if fmt.isfloat:
        return np.asarray(v, np.float32).astype(fmt.dtype)
    return np.asarray(int(v + .5), fmt.dtype)


def rand_color(rng, fmt):
    c = []
    for p in range(fmt.np):
        if fmt.isfloat:
            c.append(rng.choice([0., 1., -.5, .5, rng.uniform(-1, 2), rng.uniform(-1000, 1000), 65504.]))
        else:
            c.append(rng.choice([0, fmt.peak, 1, fmt.peak >> 1, rng.randint(0, fmt.peak), rng.randint(0, fmt.peak - 1) + .25, rng.randint(0, fmt.peak - 1) + .75]))
    return [float(x) for x in c]


def black(fmt):
    return [0 if fmt.isfloat or not fmt.chroma(p) else 1 << (fmt.bits - 1) for p in range(fmt.np)]


def borders(core, rng, nrng, rep):
    fmt, w, h, src, fr = clip(core, rng, nrng)
    sw, sh = 1 << fmt.ssw, 1 << fmt.ssh
    l, r = rnd(rng, 80, sw), rnd(rng, 80, sw)
    t, b = rnd(rng, 20, sh), rnd(rng, 20, sh)
    kw = {k: v for k, v in (('left', l), ('right', r), ('top', t), ('bottom', b)) if v or rng.random() < .5}
    col = rand_color(rng, fmt) if rng.random() < .6 else None
    cv = [tosample(fmt, x) for x in (col or black(fmt))]
    what = f'AddBorders {fmt} {w}x{h} {kw} color={col}'
    W, H = w + l + r, h + t + b
    var = rng.random() < .15
    if var:
        src = core.source(fr, fmt, 0, 0, fps=(25, 1))

    def expect(i):
        pl = []
        for p, a in enumerate(fr[i].planes):
            o = np.full(fmt.dims(p, W, H), cv[p], fmt.dtype)
            y, x = t >> (fmt.ssh if p else 0), l >> (fmt.ssw if p else 0)
            o[y:y + a.shape[0], x:x + a.shape[1]] = a
            pl.append(o)
        return pl, toggled(fr[i].props) if t & 1 else fr[i].props
    mk = lambda **o: core.clip('AddBorders', clip=src, **dict(dict(kw, color=col), **o))
    node = mk()
    if var:
        if l or r or t or b:
            check_info(rep, 'AddBorders:var', what, node, fmt, 0, 0, len(fr))
        f = node.get(0)
        e = expect(0)
        for p in range(fmt.np):
            cmp_exact(rep, 'AddBorders', f'{what} frame 0 of a variable size clip plane {p}', f.planes[p], e[0][p])
        return
    check(rep, rng, 'AddBorders', what, node, fmt, W, H, len(fr), src.fps, expect)
    big = dict(top=t + sh)
    bad = [dict(left=-sw), dict(bottom=-sh), dict(big, color=[0.] * (fmt.np + 1)), dict(big, color=[float('nan')] * fmt.np)]
    if fmt.np == 3:
        bad += [dict(big, color=[0.]), dict(big, color=[0.] * 2)]
    if not fmt.isfloat:
        bad += [dict(big, color=[-1.] * fmt.np), dict(big, color=[0.] * (fmt.np - 1) + [fmt.peak + 1.])]
    elif fmt.bits == 16:
        bad += [dict(big, color=[70000.] * fmt.np)]
    if sw > 1:
        bad += [dict(left=l + 1), dict(right=r + 1)]
    if sh > 1:
        bad += [dict(bottom=b + 1), dict(top=t + 1)]
    o = rng.choice(bad)
    must_fail(rep, 'AddBorders:bad', f'{what} with {o}', lambda: mk(**o))


def stack(core, rng, nrng, rep):
    vert = rng.random() < .5
    fmt = rand_fmt(rng, KINDS)
    k = rng.choice([1, 2, 2, 3, 5])
    w, h = rand_dims(rng, fmt)
    cl = []
    for i in range(k):
        w2, h2 = rand_dims(rng, fmt)
        cl.append(clip(core, rng, nrng, fmt=fmt, dims=(w, h2) if vert else (w2, h))[1:])
    N = max(len(c[3]) for c in cl)
    if k > 1 and rng.random() < .3:        # the same clip twice
        cl[rng.randrange(k)] = cl[rng.randrange(k)]
        N = max(len(c[3]) for c in cl)
    W, H = (w, sum(c[1] for c in cl)) if vert else (sum(c[0] for c in cl), h)
    name = 'StackVertical' if vert else 'StackHorizontal'
    what = f'{name} {fmt} {[(c[0], c[1], len(c[3])) for c in cl]}'

    def expect(i):
        f = [c[3][min(i, len(c[3]) - 1)] for c in cl]
        return [np.concatenate([x.planes[p] for x in f], 0 if vert else 1) for p in range(fmt.np)], f[0].props
    node = core.clip(name, clips=[c[2] for c in cl])
    check(rep, rng, 'Stack', what, node, fmt, W, H, N, cl[0][2].fps, expect)
    s, fr = clip(core, rng, nrng, fmt=fmt, dims=(w + (1 << fmt.ssw), h) if vert else (w, h + (1 << fmt.ssh)))[3:]
    must_fail(rep, 'Stack:bad', f'{what} with another size', lambda: core.clip(name, clips=[c[2] for c in cl] + [s]))
    f2 = rand_fmt(rng, KINDS)
    if f2 != fmt:
        s = core.source([core.frame(f2, rand_planes(rng, nrng, f2, 64, 64))], f2, 64, 64)
        q = core.source([core.frame(fmt, rand_planes(rng, nrng, fmt, 64, 64))], fmt, 64, 64)
        must_fail(rep, 'Stack:format', f'{name} of {fmt} and {f2}', lambda: core.clip(name, clips=[q, s]))


def flip(core, rng, nrng, rep):
    fmt, w, h, src, fr = clip(core, rng, nrng, maxh=70)
    op = rng.choice(['FlipVertical', 'FlipHorizontal', 'Turn180'])
    g = {'FlipVertical': lambda a: a[::-1], 'FlipHorizontal': lambda a: a[:, ::-1], 'Turn180': lambda a: a[::-1, ::-1]}[op]
    check(rep, rng, op, f'{op} {fmt} {w}x{h}', core.clip(op, clip=src), fmt, w, h, len(fr), src.fps, lambda i: ([g(a) for a in fr[i].planes], fr[i].props))


def turn(core, rng, nrng, rep):
    fmt, w, h, src, fr = clip(core, rng, nrng, maxh=150)
    op = rng.choice(['Turn90', 'Turn270', 'Transpose'])
    g = {'Turn90': lambda a: a[::-1].T, 'Turn270': lambda a: a.T[::-1], 'Transpose': lambda a: a.T}[op]
    o = Fmt(fmt.cf, fmt.st, fmt.bits, fmt.ssh, fmt.ssw)
    for lv in LEVELS[:2]:
        core.setcpu(lv)
        check(rep, rng, op, f'{op} [{lv}] {fmt} {w}x{h}', core.clip(op, clip=src), o, h, w, len(fr), src.fps, lambda i: ([g(a) for a in fr[i].planes], fr[i].props), dist=(lv,))


def scale_dur(pr, mul, div):
    n, d = pr.get('_DurationNum'), pr.get('_DurationDen')
    if n and d and d[0]:
        f = Fraction(n[0], d[0]) * mul / div
        return dict(pr, _DurationNum=[f.numerator], _DurationDen=[f.denominator])
    return pr


def scale_fps(fps, mul, div):
    if not fps[1]:
        return fps
    f = Fraction(*fps) * mul / div
    return f.numerator, f.denominator


def fields(core, rng, nrng, rep):
    """SeparateFields, then DoubleWeave of it"""
    fmt = rand_fmt(rng, KINDS)
    w, h = rand_dims(rng, fmt)
    h = -(-h >> (fmt.ssh + 1)) << (fmt.ssh + 1)
    src, fr = rand_clip(core, rng, nrng, fmt, w, h, rng.randint(1, 4))
    tff = rng.choice([None, 0, 1, 1])
    md = rng.choice([None, 0, 1])
    what = f'SeparateFields {fmt} {w}x{h} tff={tff} modify_duration={md}'
    node = core.clip('SeparateFields', clip=src, tff=tff, modify_duration=md)
    mod = md is None or md
    fps = scale_fps(src.fps, 2, 1) if mod else src.fps
    fb = [f.props.get('_FieldBased', [0])[0] for f in fr]
    order = [0 if b == 1 else 1 if b == 2 else tff for b in fb]

    def expect(i):
        f = fr[i // 2]
        top = (i & 1) ^ order[i // 2]
        pr = {k: v for k, v in f.props.items() if k != '_FieldBased'}
        pr['_Field'] = [top]
        if mod:
            pr = scale_dur(pr, 1, 2)
        return [a[1 - top::2] for a in f.planes], pr
    ok = [i for i in range(2 * len(fr)) if order[i // 2] is not None]
    for i in range(2 * len(fr)):
        if order[i // 2] is None:
            if not isinstance(node.getmany([i])[0], VSError):
                rep.viol('SeparateFields:order', f'{what}: frame {i} delivered without any field order')
            rep.count('rejected')
            break
    if ok:
        rng.shuffle(ok)
        check(rep, rng, 'SeparateFields', what, node, fmt, w, h // 2, 2 * len(fr), fps, expect, ns=ok)
    if (h >> fmt.ssh) % 4 == 2:
        must_fail(rep, 'SeparateFields:odd', f'SeparateFields twice of {what}', lambda: core.clip('SeparateFields', clip=node))
    # weave: random field flags, independent of SeparateFields
    n = rng.randint(1, 5)
    fr2 = []
    for i in range(n):
        p = rand_props(rng, i)
        r = rng.random()
        if r < .5:
            p['_Field'] = i & 1
        elif r < .6:
            p['_Field'] = rng.randint(0, 1)
        fr2.append(core.frame(fmt, rand_planes(rng, nrng, fmt, w, h), p))
    s2 = core.source(fr2, fps=(50, 1))
    if n > 1 and rng.random() < .3:
        s2, fr2 = node, None
        n = 2 * len(fr)
        if any(o is None for o in order):
            return
        fr2 = node.getmany(list(range(n)))
        h = h // 2
    t2 = rng.choice([None, 0, 1])
    what = f'DoubleWeave {fmt} {w}x{h} tff={t2} fields={[f.props.get("_Field") for f in fr2]}'
    nd = core.clip('DoubleWeave', clip=s2, tff=t2)

    def top_first(i):
        a = fr2[i].props.get('_Field', [-1])[0]
        b = fr2[min(i + 1, n - 1)].props.get('_Field', [-1])[0]
        if (a, b) == (0, 1):
            return 0
        if (a, b) == (1, 0):
            return 1
        return None if t2 is None else (i & 1) ^ t2

    def expect2(i):
        a, b = fr2[i], fr2[min(i + 1, n - 1)]
        t = top_first(i)
        if not t:
            tp, bt = b, a
        else:
            tp, bt = a, b
        pl = []
        for p in range(fmt.np):
            hh, ww = a.planes[p].shape
            o = np.empty((2 * hh, ww), fmt.dtype)
            o[0::2], o[1::2] = tp.planes[p], bt.planes[p]
            pl.append(o)
        pr = {k: v for k, v in a.props.items() if k != '_Field'}
        pr['_FieldBased'] = [1 + t]
        return pl, pr
    ok = [i for i in range(n) if top_first(i) is not None]
    for i in range(n):
        if top_first(i) is None:
            if not isinstance(nd.getmany([i])[0], VSError):
                rep.viol('DoubleWeave:order', f'{what}: frame {i} delivered without any field order')
            break
    if ok:
        rng.shuffle(ok)
        check(rep, rng, 'DoubleWeave', what, nd, fmt, w, 2 * h, n, s2.fps, expect2, ns=ok)


def shuffle(core, rng, nrng, rep):
    cf = rng.choice([GRAY, RGB, YUV, YUV])
    base = rand_fmt(rng, KINDS)
    mk = lambda: Fmt(base.cf, base.st, base.bits, base.ssw, base.ssh)
    if cf == GRAY:
        fmt, w, h, src, fr = clip(core, rng, nrng, fmt=base)
        p = rng.randrange(fmt.np)
        out = Fmt(GRAY, fmt.st, fmt.bits)
        H, W = fmt.dims(p, w, h)
        ps = None
        pf = fr
        if rng.random() < .4:
            ps, pf = clip(core, rng, nrng)[3:]
        what = f'ShufflePlanes {fmt} {w}x{h} plane {p} prop_src={ps is not None}'
        node = core.clip('ShufflePlanes', clips=[src], planes=[p], colorfamily=GRAY, prop_src=ps)
        check(rep, rng, 'ShufflePlanes', what, node, out, W, H, len(fr), src.fps, lambda i: ([fr[i].planes[p]], pf[min(i, len(pf) - 1)].props))
        must_fail(rep, 'ShufflePlanes:plane', f'{what} with plane {fmt.np}', lambda: core.clip('ShufflePlanes', clips=[src], planes=[fmt.np], colorfamily=GRAY))
        v = core.source(fr, None if rng.random() < .5 else fmt, 0, 0)
        if v.fmt is None or fmt.np == 3:
            must_fail(rep, 'SplitPlanes:variable', f'SplitPlanes of a variable clip ({v.fmt})', lambda: core.invoke('SplitPlanes', clip=v))
        if fmt.np == 3:
            r = core.invoke('SplitPlanes', clip=src)['clip']
            if len(r) != 3:
                return rep.viol('SplitPlanes', f'{fmt}: {len(r)} clips')
            for q in range(3):
                H, W = fmt.dims(q, w, h)
                check(rep, rng, 'SplitPlanes', f'SplitPlanes {fmt} {w}x{h} plane {q}', r[q], out, W, H, len(fr), src.fps, lambda i: ([fr[i].planes[q]], fr[i].props))
        return
    # one luma-sized and two chroma-sized planes out of clips of any family
    ssw, ssh = (rng.randint(0, 3), rng.randint(0, 3)) if cf == YUV else (0, 0)
    cw, ch = rng.randint(1, 40), rng.randint(1, 12)
    W, H = cw << ssw, ch << ssh
    out = Fmt(cf, base.st, base.bits, ssw, ssh)
    k = rng.randint(1, 3)
    cl, planes = [], []

    def carrier(pw, ph):
        """a clip with a plane of that size"""
        kind = rng.choice(['gray', 'rgb', 'yuv', 'chroma'])
        if kind == 'gray':
            f, p, w, h = Fmt(GRAY, base.st, base.bits), 0, pw, ph
        elif kind == 'rgb':
            f, p, w, h = Fmt(RGB, base.st, base.bits), rng.randrange(3), pw, ph
        elif kind == 'yuv':
            f, p, w, h = Fmt(YUV, base.st, base.bits, 0, 0), rng.randrange(3), pw, ph
        else:
            f, p = Fmt(YUV, base.st, base.bits, rng.randint(0, 2), rng.randint(0, 2)), rng.randint(1, 2)
            w, h = pw << f.ssw, ph << f.ssh
        n = rng.randint(1, 4)
        return rand_clip(core, rng, nrng, f, w, h, n) + (p,)
    if k == 1 or (k == 2 and (ssw or ssh) and rng.random() < .3):
        f = out if out.cf == YUV else Fmt(rng.choice([RGB, YUV]), base.st, base.bits)
        s, fr = rand_clip(core, rng, nrng, f, W, H, rng.randint(1, 4))
        cl = [(s, fr)]
        if ssw or ssh:
            planes = [0] + [rng.randint(1, 2) for _ in range(2)]
        else:
            planes = [rng.randrange(3) for _ in range(3)]
        use = [0, 0, 0]
        if k == 2:
            s, fr = rand_clip(core, rng, nrng, f, W, H, rng.randint(1, 4))
            cl.append((s, fr))
            use = [0, 1, 1]
    else:
        a = carrier(W, H)
        b = carrier(cw, ch)
        if k == 2:
            cl, planes, use = [a[:2], b[:2]], [a[2], b[2], b[2]], [0, 1, 1]
        else:
            c = carrier(cw, ch)
            cl, planes, use = [a[:2], b[:2], c[:2]], [a[2], b[2], c[2]], [0, 1, 2]
    ps, pf = None, cl[0][1]
    if rng.random() < .3:
        ps, pf = clip(core, rng, nrng)[3:]
    N = max(len(c[1]) for c in cl)
    what = f'ShufflePlanes to {out} {W}x{H} from {[(c[1][0].fmt, c[0].w, c[0].h, len(c[1])) for c in cl]} planes={planes} prop_src={ps is not None}'
    node = core.clip('ShufflePlanes', clips=[c[0] for c in cl], planes=planes, colorfamily=cf, prop_src=ps)
    check(rep, rng, 'ShufflePlanes', what, node, out, W, H, N, cl[0][0].fps,
          lambda i: ([cl[use[p]][1][min(i, len(cl[use[p]][1]) - 1)].planes[planes[p]] for p in range(3)], pf[min(i, len(pf) - 1)].props))
    g = rand_clip(core, rng, nrng, Fmt(GRAY, base.st, base.bits), W + 1, H, 1)[0]
    g2 = rand_clip(core, rng, nrng, Fmt(GRAY, base.st, base.bits), W, H, 1)[0]
    must_fail(rep, 'ShufflePlanes:size', f'{what} from planes that are not multiples', lambda: core.clip('ShufflePlanes', clips=[g2, g, g], planes=[0, 0, 0], colorfamily=cf))
    must_fail(rep, 'ShufflePlanes:size', f'{what} from different chroma sizes', lambda: core.clip('ShufflePlanes', clips=[g2, g2, g], planes=[0, 0, 0], colorfamily=cf))
    ob = 16 if base.bits != 16 or base.isfloat else 10
    g3 = rand_clip(core, rng, nrng, Fmt(GRAY, 0, ob), W, H, 1)[0]
    must_fail(rep, 'ShufflePlanes:depth', f'{what} from different depths', lambda: core.clip('ShufflePlanes', clips=[g2, g2, g3], planes=[0, 0, 0], colorfamily=cf))


def blank(core, rng, nrng, rep):
    kw, tmpl = {}, None
    fmt, w, h, n, fps = Fmt(RGB, 0, 8), 640, 480, None, (24, 1)
    if rng.random() < .5:
        fmt = rand_fmt(rng, KINDS)
        w, h = rand_dims(rng, fmt)
        n, fps = rng.randint(1, 300), rng.choice([(25, 1), (30000, 1001), (0, 0), (1, 7)])
        tmpl = core.source([core.frame(fmt, rand_planes(rng, nrng, fmt, w, h))], fmt, w, h, fps=fps)
        tmpl = core.clip('Loop', clip=tmpl, times=n) if n > 1 else tmpl
    if rng.random() < .6:
        fmt = rand_fmt(rng, KINDS)
        kw['format'] = vs.L.vsh_fmtid(core.ptr, *fmt.key)
        w, h = rand_dims(rng, fmt)
        kw.update(width=w, height=h)
    elif rng.random() < .7:
        w, h = rand_dims(rng, fmt)
        kw.update(width=w, height=h)
    if rng.random() < .4:
        a, b = rng.choice([(25, 1), (50, 2), (0, 5), (5, 0), (60000, 1001), (3, 9), (7, 100), (2**31 + 1, 2**20), (2**62, 3), (2**63 - 1, 2**31 - 1), (3, 2**63 - 1)])
        kw.update(fpsnum=a, fpsden=b)
        fps = (0, 0) if not a or not b else (Fraction(a, b).numerator, Fraction(a, b).denominator)
    if rng.random() < .5:
        n = kw['length'] = rng.choice([1, 2, 10, 2**31 - 1, rng.randint(1, 10000)])
    elif tmpl is None:
        n = 300 if fps == (0, 0) else min(fps[0] * 10 // fps[1], 2**31 - 1)
        if n == 0:
            return must_fail(rep, 'BlankClip:length', f'BlankClip {kw} of no length', lambda: core.clip('BlankClip', **kw))
    col = rand_color(rng, fmt) if rng.random() < .6 else None
    keep = rng.choice([None, 0, 1])
    vsz, vf = rng.choice([None, 0, 0, 1]), rng.choice([None, 0, 0, 1])
    what = f'BlankClip clip={tmpl and (tmpl.fmt, tmpl.w, tmpl.h, tmpl.n, tmpl.fps)} {kw} color={col} keep={keep} varsize={vsz} varformat={vf}'
    mk = lambda **o: core.clip('BlankClip', **dict(dict(kw, clip=tmpl, color=col, keep=keep, varsize=vsz, varformat=vf), **o))
    node = mk()
    check_info(rep, 'BlankClip', what, node, None if vf else fmt, 0 if vsz else w, 0 if vsz else h, n, fps)
    cv = [tosample(fmt, x) for x in (col or black(fmt))]
    pr = {'_DurationNum': [fps[1]], '_DurationDen': [fps[0]]} if fps[0] else {}
    ns = [0] + [rng.randrange(n) for _ in range(3)]
    rep.count('BlankClip')
    for i, f in zip(ns, node.getmany(ns)):
        if isinstance(f, VSError):
            rep.viol('BlankClip:error', f'{what}: frame {i}: {f}')
            continue
        if f.fmt != fmt or (f.w, f.h) != (w, h):
            rep.viol('BlankClip:info', f'{what}: frame {f.fmt} {f.w}x{f.h}')
            continue
        for p in range(fmt.np):
            cmp_exact(rep, 'BlankClip', f'{what} frame {i} plane {p}', f.planes[p], np.full(fmt.dims(p, w, h), cv[p], fmt.dtype))
        check_props(rep, 'BlankClip', what, f.props, pr)
        rep.ev(1, ('blank', fmt.key, w, h, n))
    bad = [dict(width=0), dict(height=-1), dict(length=0), dict(fpsnum=-1), dict(fpsden=-3), dict(color=[0.] * (fmt.np + 1)), dict(color=[float('inf')] * fmt.np), dict(format=12345678)]
    if fmt.ssw:
        bad.append(dict(width=w + 1))
    if fmt.ssh:
        bad.append(dict(height=h + 1))
    o = rng.choice(bad)
    if tmpl is None or 'format' not in o:
        must_fail(rep, 'BlankClip:bad', f'{what} with {o}', lambda: mk(**o))


OPS = [crop, crop, borders, borders, stack, flip, turn, fields, fields, shuffle, shuffle, blank]


def case(core, rng, nrng, rep, k, opts):
    rng.choice(OPS)(core, rng, nrng, rep)
