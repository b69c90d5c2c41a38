"""Trim, Reverse, Loop, Interleave, SelectEvery, Splice, DuplicateFrames, DeleteFrames, FreezeFrames, AssumeFPS: random graphs of them against a lazy list model"""
import bisect
from fractions import Fraction
import numpy as np
from fcommon import *

MAXN = 2**31 - 1


class MC:
    """model clip: get(i) -> (Frame, properties)"""
    def __init__(self, node, fmt, w, h, n, fps, get, desc, fpsknown=True):
        self.node, self.fmt, self.w, self.h, self.n, self.fps, self.raw, self.desc, self.fpsknown = node, fmt, w, h, n, fps, get, desc, fpsknown

    def get(self, i):
        return self.raw(min(i, self.n - 1))

    @property
    def vi(self):
        return self.fmt, self.w, self.h


def frac(n, d):
    f = Fraction(n, d)
    return f.numerator, f.denominator


def source(core, rng, nrng, fmt=None, dims=None, var=False):
    fmt = fmt or rand_fmt(rng, ('u8', 'u16', 'f16', 'f32'))
    w, h = dims or rand_dims(rng, fmt, maxw=24, maxh=4)
    n = rng.choice([1, 2, 3, 5, 8, 13, rng.randint(1, 24)])
    fr = []
    for i in range(n):
        p = rand_props(rng, i)
        p['id'] = rng.getrandbits(40)
        if var and rng.random() < .6:
            f2 = rand_fmt(rng)
            w2, h2 = rand_dims(rng, f2, maxw=24, maxh=4)
            fr.append(core.frame(f2, rand_planes(rng, nrng, f2, w2, h2), p))
        else:
            fr.append(core.frame(fmt, rand_planes(rng, nrng, fmt, w, h), p))
    fps = rng.choice([(25, 1), (30000, 1001), (0, 0), (1, 3), (24, 1)])
    if var:
        node = core.source(fr, None, 0, 0, fps=fps)
        return MC(node, None, 0, 0, n, fps, lambda i: (fr[i], fr[i].props), f'S{n}var')
    node = core.source(fr, fps=fps)
    return MC(node, fmt, w, h, n, fps, lambda i: (fr[i], fr[i].props), f'S{n}')


def scale_dur(pr, mul, div):
    n, d = pr.get('_DurationNum'), pr.get('_DurationDen')
    if n and d and d[0]:
        a, b = frac(n[0] * mul, d[0] * div)
        return dict(pr, _DurationNum=[a], _DurationDen=[b])
    return pr


def scale_fps(fps, mul, div):
    return frac(fps[0] * mul, fps[1] * div) if fps[1] else fps


class Gen:
    def __init__(self, core, rng, nrng, rep):
        self.core, self.rng, self.nrng, self.rep = core, rng, nrng, rep
        self.fmt = rand_fmt(rng)
        self.dims = rand_dims(rng, self.fmt, maxw=24, maxh=4)
        self.pool = [source(core, rng, nrng, self.fmt, self.dims) for _ in range(rng.randint(1, 3))]
        if rng.random() < .4:
            self.pool.append(source(core, rng, nrng))
        if rng.random() < .2:
            self.pool.append(source(core, rng, nrng, var=True))

    def pick(self):
        return self.rng.choice(self.pool[-3:] if self.rng.random() < .6 else self.pool)

    def clip(self, name, **kw):
        return self.core.clip(name, **kw)

    def refuse(self, key, what, **kw):
        must_fail(self.rep, key + ':bad', what, lambda: self.core.invoke(key, **kw))

    def op(self):
        rng = self.rng
        name = rng.choice(['trim', 'trim', 'reverse', 'loop', 'interleave', 'interleave', 'select', 'select', 'splice', 'splice', 'dup', 'dup', 'delete', 'freeze', 'freeze', 'fps'])
        r = getattr(self, name)()
        if r is not None:
            self.rep.count(name)
            if rng.random() < .3:
                self.core.invoke('SetVideoCache', clip=r.node, mode=rng.choice([-1, 0, 1]))
            check_info(self.rep, name, r.desc, r.node, r.fmt, r.w, r.h, r.n, r.fps if r.fpsknown else None)
            self.pool.append(r)
            return True
        return False

    def derive(self, c, node, n, get, desc, **kw):
        return MC(node, kw.get('fmt', c.fmt), kw.get('w', c.w), kw.get('h', c.h), n, kw.get('fps', c.fps), get, desc, kw.get('fpsknown', c.fpsknown))

    def trim(self):
        rng, c = self.rng, self.pick()
        n = c.n
        kw = {}
        a = 0
        if rng.random() < .7:
            a = kw['first'] = rng.choice([0, n - 1, rng.randint(0, n - 1), rng.randint(0, min(n - 1, 6))])
        b = n - 1
        if rng.random() < .7:
            b = rng.choice([a, n - 1, rng.randint(a, n - 1), min(n - 1, a + rng.randint(0, 8))])
            if rng.random() < .5:
                kw['last'] = b
            else:
                kw['length'] = b - a + 1
        if rng.random() < .15:
            bad = rng.choice([dict(first=-1), dict(first=n), dict(last=n), dict(first=a, last=a - 1), dict(length=0), dict(first=a, length=n - a + 1) if n - a < MAXN else dict(length=0), dict(first=a, last=b, length=b - a + 1), dict(length=-3),
                              dict(first=MAXN), dict(last=2**40) if n < MAXN else dict(length=-1)])
            self.refuse('Trim', f'Trim {bad} of {n} frames', clip=c.node, **bad)
        return self.derive(c, self.clip('Trim', clip=c.node, **kw), b - a + 1, lambda i: c.get(i + a), f'Trim({c.desc},{kw})')

    def reverse(self):
        c = self.pick()
        return self.derive(c, self.clip('Reverse', clip=c.node), c.n, lambda i: c.get(c.n - 1 - i), f'Reverse({c.desc})')

    def loop(self):
        rng, c = self.rng, self.pick()
        t = rng.choice([None, 0, 1, 2, 3, 7, 1000, rng.randint(1, 10**7), MAXN // c.n, min(MAXN, MAXN // c.n + 1)])
        n = c.n * t if t else MAXN
        if n > MAXN:
            self.refuse('Loop', f'Loop {t} times of {c.n} frames', clip=c.node, times=t)
            return None
        if rng.random() < .1:
            self.refuse('Loop', 'Loop -1', clip=c.node, times=-1)
        return self.derive(c, self.clip('Loop', clip=c.node, times=t), n, lambda i: c.get(i % c.n), f'Loop({c.desc},{t})')

    def common(self, cl):
        """format, size of several clips; None where they differ"""
        fm = cl[0].fmt if all(c.fmt == cl[0].fmt for c in cl) else None
        d = (cl[0].w, cl[0].h) if all((c.w, c.h) == (cl[0].w, cl[0].h) for c in cl) else (0, 0)
        same = fm == cl[0].fmt and d == (cl[0].w, cl[0].h)
        return fm, d, same

    def several(self):
        k = self.rng.choice([1, 2, 2, 3, 4, 7])
        return [self.pick() for _ in range(k)]

    def interleave(self):
        rng, cl = self.rng, self.several()
        k = len(cl)
        fm, d, same = self.common(cl)
        rate = all(c.fps == cl[0].fps for c in cl) and all(c.fpsknown for c in cl)
        alike = all(c.vi == cl[0].vi for c in cl)
        ext, md = rng.choice([None, 0, 1]), rng.choice([None, 0, 1])
        mm = rng.choice([None, 0, 1]) if alike and rate else 1
        kw = dict(clips=[c.node for c in cl], extend=ext, modify_duration=md)
        if not alike and rng.random() < .3:
            self.refuse('Interleave', f'Interleave of {[c.vi for c in cl]}', **kw)
        if k == 1:
            return self.derive(cl[0], self.clip('Interleave', mismatch=mm, **kw), cl[0].n, cl[0].get, f'Interleave1({cl[0].desc})')
        n = max(c.n for c in cl) * k if ext else max((c.n - 1) * k + i + 1 for i, c in enumerate(cl))
        if n > MAXN:
            self.refuse('Interleave', f'Interleave to {n} frames', mismatch=mm, **kw)
            return None
        mod = md is None or md

        def get(i):
            f, p = cl[i % k].get(i // k)
            return f, scale_dur(p, 1, k) if mod else p
        return self.derive(cl[0], self.clip('Interleave', mismatch=mm, **kw), n, get, f'Interleave({",".join(c.desc for c in cl)},ext={ext},md={md})', fmt=fm, w=d[0], h=d[1],
                           fps=scale_fps(cl[0].fps, k, 1) if mod else cl[0].fps, fpsknown=rate)

    def select(self):
        rng, c = self.rng, self.pick()
        cyc = rng.choice([2, 2, 3, 4, 5, rng.randint(2, 40), 1000])
        m = rng.choice([1, 1, 2, 3, 5])
        off = [rng.randrange(min(cyc, 12) if rng.random() < .9 else cyc) for _ in range(m)]
        md = rng.choice([None, 0, 1])
        full, rest = divmod(c.n, cyc)
        tail = [o for o in off if o < rest]
        n = full * m + len(tail)
        kw = dict(clip=c.node, cycle=cyc, offsets=off, modify_duration=md)
        if n == 0 or n > MAXN:
            self.refuse('SelectEvery', f'SelectEvery to {n} frames', **kw)
            return None
        if rng.random() < .1:
            self.refuse('SelectEvery', 'SelectEvery with bad arguments', **dict(kw, **rng.choice([dict(cycle=1), dict(cycle=0), dict(offsets=[cyc]), dict(offsets=[0, -1]), dict(cycle=-5)])))
        mod = md is None or md

        def get(i):
            q, r = divmod(i, m)
            f, p = c.get(q * cyc + (off[r] if q < full else tail[r]))
            return f, scale_dur(p, cyc, m) if mod else p
        return self.derive(c, self.clip('SelectEvery', **kw), n, get, f'SelectEvery({c.desc},{cyc},{off},md={md})', fps=scale_fps(c.fps, m, cyc) if mod else c.fps)

    def splice(self):
        rng, cl = self.rng, self.several()
        fm, d, same = self.common(cl)
        alike = all(c.vi == cl[0].vi for c in cl)
        rate = all(c.fps == cl[0].fps for c in cl) and all(c.fpsknown for c in cl)
        mm = rng.choice([None, 0, 1]) if alike else 1
        kw = dict(clips=[c.node for c in cl])
        if not alike and not same and rng.random() < .3:
            self.refuse('Splice', f'Splice of {[c.vi for c in cl]}', **kw)
        n = sum(c.n for c in cl)
        if n > MAXN:
            self.refuse('Splice', f'Splice to {n} frames', mismatch=mm, **kw)
            return None
        starts = [0]
        for c in cl[:-1]:
            starts.append(starts[-1] + c.n)

        def get(i):
            j = bisect.bisect_right(starts, i) - 1
            return cl[j].get(i - starts[j])
        return self.derive(cl[0], self.clip('Splice', mismatch=mm, **kw), n, get, f'Splice({",".join(c.desc for c in cl)})', fmt=fm, w=d[0], h=d[1], fpsknown=rate)

    def some(self, c, k):
        rng = self.rng
        return [rng.choice([0, c.n - 1, rng.randrange(c.n), rng.randrange(min(c.n, 12))]) for _ in range(k)]

    def dup(self):
        rng, c = self.rng, self.pick()
        fr = self.some(c, rng.choice([1, 1, 2, 3, 6, 12]))
        if rng.random() < .1:
            self.refuse('DuplicateFrames', 'DuplicateFrames out of range', clip=c.node, frames=fr + [rng.choice([-1, c.n, 2**35])] if c.n < MAXN else fr + [-1])
        n = c.n + len(fr)
        if n > MAXN:
            self.refuse('DuplicateFrames', f'DuplicateFrames to {n} frames', clip=c.node, frames=fr)
            return None
        s = sorted(fr)

        def get(i):
            # frame f of the input occupies 1 + (times listed) places
            shift = 0
            for q in s:
                if q + shift < i:
                    shift += 1
                else:
                    break
            return c.get(i - shift)
        if c.n < 200:
            l = [f for f in range(c.n) for _ in range(1 + fr.count(f))]
            get = lambda i: c.get(l[i])
        return self.derive(c, self.clip('DuplicateFrames', clip=c.node, frames=fr), n, get, f'DuplicateFrames({c.desc},{fr})')

    def delete(self):
        rng, c = self.rng, self.pick()
        fr = list(set(self.some(c, rng.choice([1, 1, 2, 3, 6]))))
        rng.shuffle(fr)
        if rng.random() < .15:
            self.refuse('DeleteFrames', 'DeleteFrames of a frame twice', clip=c.node, frames=fr + [fr[0]])
            if c.n < MAXN:
                self.refuse('DeleteFrames', 'DeleteFrames out of range', clip=c.node, frames=fr + [c.n])
        if len(fr) == c.n:
            self.refuse('DeleteFrames', 'DeleteFrames of all frames', clip=c.node, frames=fr)
            return None
        s = sorted(fr)

        def get(i):
            for q in s:
                if i >= q:
                    i += 1
            return c.get(i)
        if c.n < 200:
            l = [f for f in range(c.n) if f not in fr]
            get = lambda i: c.get(l[i])
        return self.derive(c, self.clip('DeleteFrames', clip=c.node, frames=fr), c.n - len(fr), get, f'DeleteFrames({c.desc},{fr})')

    def freeze(self):
        rng, c = self.rng, self.pick()
        k = rng.choice([0, 1, 1, 2, 3])
        cut = sorted(set(self.some(c, 2 * k)))
        if len(cut) < 2 * k:
            k = len(cut) // 2
        rg = [(cut[2 * i], cut[2 * i + 1], rng.randrange(c.n)) for i in range(k)]
        if k and rng.random() < .3:
            a, b, r = rg[0]
            rg[0] = (a, a, r)
        arg = [(b, a, r) if rng.random() < .2 else (a, b, r) for a, b, r in rg]
        rng.shuffle(arg)
        kw = dict(clip=c.node, first=[x[0] for x in arg], last=[x[1] for x in arg], replacement=[x[2] for x in arg])
        if k and rng.random() < .15:
            a, b, r = rg[0]
            bad = rng.choice([dict(first=kw['first'] + [b], last=kw['last'] + [b], replacement=kw['replacement'] + [0]), dict(replacement=kw['replacement'] + [0]), dict(last=[-1] + kw['last'][1:])] +
                             ([dict(last=[c.n] + kw['last'][1:]), dict(replacement=[c.n] * k)] if c.n < MAXN else []))
            self.refuse('FreezeFrames', f'FreezeFrames {bad}', **dict(kw, **bad))

        def get(i):
            for a, b, r in rg:
                if a <= i <= b:
                    return c.get(r)
            return c.get(i)
        return self.derive(c, self.clip('FreezeFrames', **kw), c.n, get, f'FreezeFrames({c.desc},{arg})')

    def fps(self):
        rng, c = self.rng, self.pick()
        kw = {}
        if rng.random() < .3:
            s = self.pick()
            if not s.fpsknown:
                return None
            kw['src'] = s.node
            f = s.fps
            if not f[0]:
                self.refuse('AssumeFPS', 'AssumeFPS from a clip without frame rate', clip=c.node, **kw)
                return None
        else:
            a, b = rng.choice([(25, 1), (50, 2), (60000, 1001), (1, 100), (2**40, 2**20), (2**40 + 1, 2**33)])
            kw['fpsnum'] = a
            if b != 1 or rng.random() < .5:
                kw['fpsden'] = b
            f = frac(a, b)
        if rng.random() < .15:
            bad = rng.choice([dict(fpsnum=0), dict(fpsnum=-25), dict(fpsnum=25, fpsden=0), dict(fpsnum=25, fpsden=-1), {}, dict(src=self.pick().node, fpsnum=25)])
            self.refuse('AssumeFPS', f'AssumeFPS {bad}', clip=c.node, **bad)

        def get(i):
            fr, p = c.get(i)
            return fr, dict(p, _DurationNum=[f[1]], _DurationDen=[f[0]])
        return self.derive(c, self.clip('AssumeFPS', clip=c.node, **kw), c.n, get, f'AssumeFPS({c.desc},{f})', fps=f, fpsknown=True)


def verify(rep, rng, c):
    n = c.n
    if n <= 40:
        ns = list(range(n))
    else:
        ns = list(range(5)) + [n - 1 - i for i in range(5)] + [rng.randrange(n) for _ in range(20)]
    rng.shuffle(ns)
    if rng.random() < .5:
        ns += [rng.choice(ns) for _ in range(6)]
    for i, f in zip(ns, fetch(rep, 'timeline', c.desc, c.node, ns)):
        if f is None:
            continue
        e, pr = c.get(i)
        key = 'timeline:' + c.desc.split('(')[0]
        if f.props.get('id') != pr['id']:
            rep.viol(key, f'{c.desc}: frame {i} is frame {f.props.get("n")}, expected {pr["n"]}')
            continue
        check_props(rep, key, f'{c.desc} frame {i}', f.props, pr)
        if f.fmt != e.fmt:
            rep.viol(key + ':format', f'{c.desc}: frame {i} {f.fmt}')
            continue
        for p in range(f.fmt.np):
            cmp_exact(rep, key + ':content', f'{c.desc} frame {i} plane {p}', f.planes[p], e.planes[p])
        rep.ev(1, (c.desc.split('(')[0], c.n, i))


def case(core, rng, nrng, rep, k, opts):
    g = Gen(core, rng, nrng, rep)
    for _ in range(rng.choice([1, 2, 4, 8, 12])):
        g.op()
    for c in g.pool[-4:]:
        verify(rep, rng, c)
    if k < 2:
        rep.sample(g.pool[-1].desc[:300])
