"""Shared pieces of the reference models: random formats, pictures and sizes; comparison and reporting."""
import os, random
import numpy as np
import vs
from vs import Fmt, GRAY, RGB, YUV, VSError

EPS = 2.0 ** -24


def cpu_levels():
    fl = open('/proc/cpuinfo').read() if os.path.exists('/proc/cpuinfo') else ''
    out = ['none', 'sse2']
    if ' avx2' in fl:
        out.append('avx2')
        if ' avx512bw' in fl and ' avx512vl' in fl:
            out.append('avx512')
    return out


LEVELS = cpu_levels()


class Rep:
    def __init__(self):
        self.nviol = 0
        self.evals = 0
        self.distinct = set()
        self.counts = {}
        self.samples = 0
        self.out = []

    def line(self, s):
        os.write(1, (s.replace('\n', ' ').replace('\r', ' ') + '\n').encode('utf-8', 'replace'))

    def viol(self, key, msg):
        self.nviol += 1
        if self.nviol <= 25:
            self.line('VIOL %s %s' % (key.replace(' ', '_'), msg[:1500]))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s):
        if self.samples < 2:
            self.samples += 1
            self.line('SAMPLE ' + s)

    def ev(self, n, key=None):
        self.evals += n
        if key is not None:
            self.last = key
            self.distinct.add(key)

    def done(self, k):
        if not self.samples and self.distinct:
            self.sample('case %d: %.300r' % (k, self.last))


ALLFMT = ['u8', 'u16', 'f16', 'f32']


def rand_fmt(rng, kinds=('u8', 'u16', 'f16', 'f32'), cfs=(GRAY, RGB, YUV), maxss=2):
    k = rng.choice(kinds)
    cf = rng.choice(cfs)
    if k == 'u8':
        st, b = 0, 8
    elif k == 'u16':
        st, b = 0, rng.choice([9, 10, 10, 11, 12, 13, 14, 15, 16, 16, 16])
    elif k == 'u32':
        st, b = 0, rng.choice([17, 24, 31, 32, 32])
    elif k == 'f16':
        st, b = 1, 16
    else:
        st, b = 1, 32
    sw = rng.randint(0, maxss) if cf == YUV else 0
    sh = rng.randint(0, maxss) if cf == YUV else 0
    if cf == YUV and rng.random() < .5:
        sw, sh = rng.choice([(0, 0), (1, 0), (1, 1)])
    return Fmt(cf, st, b, sw, sh)


def rand_dims(rng, fmt, minw=1, minh=1, maxw=200, maxh=24):
    """luma size such that every plane is at least minw x minh"""
    r = rng.random()
    if r < .35:
        w = rng.randint(minw, max(minw, 20))
    elif r < .7:
        w = rng.choice([16, 32, 64, 128]) * rng.randint(1, 2) + rng.randint(-2, 2)
    else:
        w = rng.randint(minw, maxw)
    h = rng.randint(minh, max(minh, maxh)) if rng.random() < .8 else rng.randint(minh, max(minh, minh + 2))
    w, h = max(w, minw), max(h, minh)
    # the drawn numbers are sizes of the smallest plane or of the first one
    if fmt.ssw or fmt.ssh:
        if rng.random() < .5 and w < 100:
            w <<= fmt.ssw
            h <<= fmt.ssh
        w = max(-(-w >> fmt.ssw) << fmt.ssw, minw << fmt.ssw)
        h = max(-(-h >> fmt.ssh) << fmt.ssh, minh << fmt.ssh)
    return w, h


STYLES = ['uniform', 'uniform', 'extreme', 'flat', 'lowc', 'grad', 'sparse', 'bright']


def rand_plane(rng, nrng, fmt, h, w, chroma=False, wide=False, style=None):
    s = style or rng.choice(STYLES)
    if fmt.isfloat:
        lo, hi = (-.5, .5) if chroma else (0., 1.)
        if wide:
            lo, hi = lo - .75, hi + 1.5
        if s == 'uniform':
            a = nrng.uniform(lo, hi, (h, w))
        elif s == 'extreme':
            a = nrng.choice([lo, hi, (lo + hi) / 2], (h, w))
        elif s == 'flat':
            a = np.full((h, w), rng.uniform(lo, hi))
        elif s == 'bright':
            a = nrng.uniform(hi - (hi - lo) / 8, hi, (h, w))
        elif s == 'lowc':
            a = (lo + hi) / 2 + nrng.uniform(-.01, .01, (h, w))
        elif s == 'grad':
            a = lo + (hi - lo) * (np.add.outer(np.arange(h) * 3, np.arange(w)) % 61) / 60
        else:
            a = np.where(nrng.random((h, w)) < .1, nrng.uniform(lo, hi, (h, w)), 0.)
        return a.astype(np.float32).astype(fmt.dtype)
    pk = fmt.peak
    if s == 'uniform':
        a = nrng.integers(0, pk + 1, (h, w))
    elif s == 'extreme':
        a = nrng.choice([0, pk, pk, 1, pk - 1, pk // 2, pk // 2 + 1], (h, w))
    elif s == 'flat':
        a = np.full((h, w), rng.choice([0, pk, rng.randint(0, pk)]))
    elif s == 'bright':
        a = nrng.integers(pk - pk // 8, pk + 1, (h, w))
    elif s == 'lowc':
        m = rng.randint(0, pk)
        a = np.clip(m + nrng.integers(-4, 5, (h, w)), 0, pk)
    elif s == 'grad':
        a = np.add.outer(np.arange(h) * rng.randint(1, 9), np.arange(w) * rng.randint(1, 9)) * max(1, pk >> 8) % (pk + 1)
    else:
        a = np.where(nrng.random((h, w)) < .1, nrng.integers(0, pk + 1, (h, w)), 0)
    return a.astype(fmt.dtype)


def rand_planes(rng, nrng, fmt, w, h, **kw):
    return [rand_plane(rng, nrng, fmt, *fmt.dims(p, w, h), chroma=fmt.chroma(p), **kw) for p in range(fmt.np)]


def rand_props(rng, n):
    d = {'n': n}
    if rng.random() < .5:
        d['txt'] = 'frame %d' % n
    if rng.random() < .3:
        d['fl'] = [rng.random() for _ in range(rng.randint(1, 3))]
    if rng.random() < .3:
        d['_DurationNum'], d['_DurationDen'] = rng.choice([(1, 25), (1001, 30000), (3, 7)])
    if rng.random() < .2:
        d['_FieldBased'] = rng.randint(0, 2)
    return d


def rand_clip(core, rng, nrng, fmt, w, h, n, props=True, fps=None, **kw):
    """(node, frames)"""
    fr = [core.frame(fmt, rand_planes(rng, nrng, fmt, w, h, **kw), rand_props(rng, i) if props else None) for i in range(n)]
    return core.source(fr, fps=fps or rng.choice([(25, 1), (30000, 1001), (0, 0)]) if fps is None else fps), fr


def rand_planes_arg(rng, fmt):
    """(argument or None, set of processed planes)"""
    if rng.random() < .5:
        return None, set(range(fmt.np))
    k = rng.randint(0, fmt.np)
    l = rng.sample(range(fmt.np), k)
    if not l:
        return None, set(range(fmt.np))
    return l, set(l)


def mirror_idx(n, r, lo):
    """half-sample mirrored and then clamped indices lo-r .. "rows" helper: indices of positions -r..n-1+r"""
    i = np.arange(-r, n + r)
    i = np.where(i < 0, -i - 1, i)
    i = np.where(i >= n, 2 * n - 1 - i, i)
    return np.clip(i, 0, n - 1)


def mpad(a, ry, rx):
    return a[np.ix_(mirror_idx(a.shape[0], ry, 0), mirror_idx(a.shape[1], rx, 0))]


def first_diff(bad):
    y, x = np.argwhere(bad)[0]
    return int(y), int(x), int(bad.sum())


def cmp_exact(rep, key, what, got, exp):
    if got.shape != exp.shape:
        rep.viol(key + ':size', f'{what}: size {got.shape} instead of {exp.shape}')
        return False
    if got.dtype.kind == 'f':
        bad = ~((got == exp) | (np.isnan(got) & np.isnan(exp)))
    else:
        bad = got != exp
    if bad.any():
        y, x, k = first_diff(bad)
        rep.viol(key, f'{what}: {k} wrong samples, first at y={y} x={x}: got {got[y, x]!r}, expected {exp[y, x]!r}')
        return False
    return True


def cmp_range(rep, key, what, got, lo, hi):
    """lo <= got <= hi, element-wise"""
    if got.shape != lo.shape:
        rep.viol(key + ':size', f'{what}: size {got.shape} instead of {lo.shape}')
        return False
    g = got.astype(np.float64)
    bad = ~((g >= lo) & (g <= hi))
    if bad.any():
        y, x, k = first_diff(bad)
        rep.viol(key, f'{what}: {k} wrong samples, first at y={y} x={x}: got {got[y, x]!r}, expected between {lo[y, x]!r} and {hi[y, x]!r}')
        return False
    return True


def int_range(v, eps, peak):
    """integers that a correctly rounded value in [v-eps, v+eps], clamped to 0..peak, can be"""
    lo = np.clip(np.ceil(v - eps - .5), 0, peak)
    hi = np.clip(np.floor(v + eps + .5), 0, peak)
    return np.minimum(lo, hi), np.maximum(lo, hi)


def half_ulp(v):
    """upper bound of the rounding error of storing |v| as float16"""
    return np.maximum(np.abs(v) * 2.0 ** -11, 2.0 ** -25) * 1.0001


def float_range(v, eps, fmt):
    e = eps + np.abs(v) * 2 ** -23 + 1e-38
    if fmt.bits == 16:
        e = e + half_ulp(np.abs(v) + e)
    return v - e, v + e


def out_range(v, eps, fmt):
    return float_range(v, eps, fmt) if fmt.isfloat else int_range(v, eps, fmt.peak)


def check_props(rep, key, what, got, exp):
    if got != exp:
        d = {k for k in set(got) | set(exp) if got.get(k) != exp.get(k)}
        rep.viol(key + ':props', f'{what}: properties differ in {sorted(d)}: got { {k: got.get(k) for k in d} } expected { {k: exp.get(k) for k in d} }')
        return False
    return True


def check_info(rep, key, what, node, fmt, w, h, n, fps=None):
    ok = True
    if node.fmt != fmt if fmt else node.fmt is not None:
        rep.viol(key + ':info', f'{what}: clip format {node.fmt} instead of {fmt}')
        ok = False
    if (node.w, node.h) != (w, h):
        rep.viol(key + ':info', f'{what}: clip size {node.w}x{node.h} instead of {w}x{h}')
        ok = False
    if n is not None and node.n != n:
        rep.viol(key + ':info', f'{what}: {node.n} frames instead of {n}')
        ok = False
    if fps is not None and node.fps != fps:
        rep.viol(key + ':info', f'{what}: fps {node.fps} instead of {fps}')
        ok = False
    return ok


def frame_matches_node(rep, key, what, f, node):
    if node.fmt is not None and f.fmt != node.fmt:
        rep.viol(key + ':info', f'{what}: frame format {f.fmt}, clip says {node.fmt}')
        return False
    if node.w and (f.w, f.h) != (node.w, node.h):
        rep.viol(key + ':info', f'{what}: frame size {f.w}x{f.h}, clip says {node.w}x{node.h}')
        return False
    return True


def fetch(rep, key, what, node, ns):
    """list of frames; a failed request is a violation"""
    out = []
    for n, f in zip(ns, node.getmany(ns)):
        if isinstance(f, VSError):
            rep.viol(key + ':error', f'{what}: frame {n} failed: {f}')
            out.append(None)
        else:
            if f.isvideo:
                frame_matches_node(rep, key, f'{what} frame {n}', f, node)
            out.append(f)
    return out


def unary(core, rng, rep, key, what, create, src, frames, model, proc, levels=None, ns=None, props=None):
    """One-input spatial filter: every CPU level, all frames at once, each against the model.
    create() -> node; model(plane index, source plane) -> (lo, hi) or exact array."""
    fmt = frames[0].fmt
    n = len(frames)
    ns = ns if ns is not None else rng.sample(range(n), n)
    exp = {}
    for lv in levels or LEVELS:
        core.setcpu(lv)
        try:
            node = create()
        except VSError as e:
            rep.viol(key + ':refused', f'{what} [{lv}]: {e}')
            return
        w = f'{what} [{lv}]'
        check_info(rep, key, w, node, src.fmt, src.w, src.h, src.n, src.fps)
        for i, f in zip(ns, fetch(rep, key, w, node, ns)):
            if f is None:
                continue
            check_props(rep, key, f'{w} frame {i}', f.props, frames[i].props if props is None else props(i))
            for p in range(fmt.np):
                if p not in proc:
                    cmp_exact(rep, key + ':unprocessed', f'{w} frame {i} plane {p} (not processed)', f.planes[p], frames[i].planes[p])
                    continue
                if (i, p) not in exp:
                    exp[i, p] = model(p, frames[i].planes[p])
                m = exp[i, p]
                if isinstance(m, tuple):
                    cmp_range(rep, key, f'{w} frame {i} plane {p}', f.planes[p], *m)
                else:
                    cmp_exact(rep, key, f'{w} frame {i} plane {p}', f.planes[p], m)
                rep.ev(1, (key, lv, fmt.key, src.w, src.h))
            rep.count('frames_' + lv)


def nary(core, rng, rep, key, what, create, clips, model, proc, levels=None, ns=None, props=None, outfmt=None, size=None, nout=None):
    """Several inputs, frame by frame; clips: list of (node, frames), the first one decides length, unprocessed planes and properties.
    model(plane, [source planes], [source frames]) -> exact array or (lo, hi); shorter later clips repeat their last frame."""
    src, frames = clips[0]
    fmt = frames[0].fmt
    n = len(frames)
    out = outfmt or fmt
    ns = ns if ns is not None else rng.sample(range(n), n)
    exp = {}
    for lv in levels or LEVELS:
        core.setcpu(lv)
        try:
            node = create()
        except VSError as e:
            rep.viol(key + ':refused', f'{what} [{lv}]: {e}')
            return
        w = f'{what} [{lv}]'
        check_info(rep, key, w, node, out, src.w, src.h, src.n, src.fps)
        for i, f in zip(ns, fetch(rep, key, w, node, ns)):
            if f is None:
                continue
            fr = [c[1][min(i, len(c[1]) - 1)] for c in clips]
            check_props(rep, key, f'{w} frame {i}', f.props, fr[0].props if props is None else props(i))
            for p in range(fmt.np):
                if p not in proc:
                    cmp_exact(rep, key + ':unprocessed', f'{w} frame {i} plane {p} (not processed)', f.planes[p], fr[0].planes[p])
                    continue
                if (i, p) not in exp:
                    exp[i, p] = model(p, [x.planes[p] if p < len(x.planes) else None for x in fr], fr)
                m = exp[i, p]
                if isinstance(m, tuple):
                    cmp_range(rep, key, f'{w} frame {i} plane {p}', f.planes[p], *m)
                else:
                    cmp_exact(rep, key, f'{w} frame {i} plane {p}', f.planes[p], m)
                rep.ev(1, (key, lv, fmt.key, src.w, src.h))
            rep.count('frames_' + lv)


def must_fail(rep, key, what, fn, sub=None):
    try:
        r = fn()
    except VSError as e:
        rep.count('rejected')
        if sub and sub not in str(e):
            rep.viol(key + ':message', f'{what}: refused with the unexpected message {str(e)!r}')
        return
    rep.viol(key + ':accepted', f'{what} was accepted')
