"""Expr: random RPN programs evaluated in interval arithmetic (float64) with a float32 error budget.
The compiler may reassociate sums and products, so every operation is padded relative to the magnitude of its terms;
dyadic values small enough to be exact under any reassociation are tracked exactly (s: number of fraction bits)."""
import math
import numpy as np
from fcommon import *

PER_CORE = 25
NAMES = 'xyzabcdefghijklmnopqrstuvw'
K = 6 * EPS
TINY = 1e-37


class Skip(Exception):
    pass


class V:
    """g: bound of the binary magnitude of any product form of the value: the compiler multiplies powers out"""
    __slots__ = ('lo', 'hi', 'm', 's', 'g')

    def __init__(self, lo, hi, m, s, g=None):
        self.lo, self.hi, self.m, self.s = lo, hi, m, s
        if g is None:
            g = max(1., float(np.log2(max(1., float(np.max(m))))))
            if np.ndim(m) == 0 and m > 0:
                g = max(g, -math.log2(m))
        self.g = g


def big(v, g):
    if g > 110:
        raise Skip
    v.g = max(v.g, g)
    return v


def exact(m, s):
    return s is not None and s <= 24 and float(np.max(m)) * 2.0 ** s <= 2 ** 24


def pad(lo, hi, m, s, extra=0.):
    if exact(m, s):
        return V(lo, hi, m, s)
    e = K * m + TINY + extra
    return V(lo - e, hi + e, m + e, None)


def smax(a, b):
    return None if a.s is None or b.s is None else max(a.s, b.s)


def const_s(c):
    for s in range(13):
        if c * 2 ** s == math.floor(c * 2 ** s):
            return s
    return None


def tri(lo, hi):
    """bool as 0/1 interval: lo = certainly, hi = possibly"""
    m = np.maximum(hi, 0.) * 0 + 1.
    return V(lo.astype(float), hi.astype(float), m, 0)


def pos(a):
    return a.lo > 0, a.hi > 0


def add(a, b):
    return pad(a.lo + b.lo, a.hi + b.hi, a.m + b.m, smax(a, b))


def sub(a, b):
    return pad(a.lo - b.hi, a.hi - b.lo, a.m + b.m, smax(a, b))


def mul(a, b):
    p = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
    lo, hi = np.minimum.reduce(p), np.maximum.reduce(p)
    s = None if a.s is None or b.s is None else a.s + b.s
    return big(pad(lo, hi, a.m * b.m, s), a.g + b.g)


def div(a, b):
    # b is bounded away from 0
    if np.any((b.lo <= 0) & (b.hi >= 0)):
        raise Skip
    p = [a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi]
    lo, hi = np.minimum.reduce(p), np.maximum.reduce(p)
    d = np.minimum(np.abs(b.lo), np.abs(b.hi))
    m = a.m / d * (b.m / d)
    s = None
    if a.s is not None and np.ndim(b.lo) == 0 and b.lo == b.hi:
        q = math.log2(abs(b.lo))
        if q == int(q):
            s = a.s + max(0, int(q))
            m = a.m / d
    return big(pad(lo, hi, m, s), a.g + b.g)


def cmp(a, b, op):
    m = a.m + b.m
    e = 0. if exact(m, smax(a, b)) else K * m + TINY
    if op in '><':
        if op == '<':
            a, b = b, a
        return tri(a.lo - b.hi > e, a.hi - b.lo > -e if np.any(e) else a.hi - b.lo > 0)
    if op in ('>=', '<='):
        if op == '<=':
            a, b = b, a
        return tri(a.lo - b.hi >= e, a.hi - b.lo >= -e)
    eq_possible = (a.lo - b.hi <= e) & (b.lo - a.hi <= e)
    if np.any(e):
        # only certain when the two sides are the same value by construction, which is not tracked
        return tri(np.zeros(np.shape(eq_possible), bool), eq_possible)
    return tri((a.lo == b.hi) & (a.hi == b.lo), eq_possible)


def ternary(c, a, b):
    t, f = pos(c)[0], ~pos(c)[1]
    lo = np.where(t, a.lo, np.where(f, b.lo, np.minimum(a.lo, b.lo)))
    hi = np.where(t, a.hi, np.where(f, b.hi, np.maximum(a.hi, b.hi)))
    return V(lo, hi, np.maximum(a.m, b.m), smax(a, b), max(a.g, b.g))


def sq(a):
    b = absv(a)
    return big(pad(b.lo * b.lo, b.hi * b.hi, a.m * a.m, None if a.s is None else 2 * a.s), 2 * a.g)


def ipow(a, n):
    """integer powers, also of negative values"""
    r = a if n % 2 else absv(a)
    lo, hi = np.sign(r.lo) * np.abs(r.lo) ** abs(n), np.sign(r.hi) * np.abs(r.hi) ** abs(n)
    m = np.maximum(np.abs(lo), np.abs(hi))
    e = (abs(n) + 6) * K * m + TINY
    s = None if a.s is None else abs(n) * a.s
    v = V(lo, hi, m, s) if exact(m, s) else V(lo - e, hi + e, m + e, None)
    v = big(v, abs(n) * a.g)
    return v if n > 0 else div(V(np.float64(1), np.float64(1), np.float64(1), 0), v)


def absv(a):
    lo = np.where((a.lo <= 0) & (a.hi >= 0), 0., np.minimum(np.abs(a.lo), np.abs(a.hi)))
    return V(lo, np.maximum(np.abs(a.lo), np.abs(a.hi)), a.m, a.s, a.g)


def sqrtv(a):
    hi = np.sqrt(np.maximum(a.hi, 0))
    lo = np.sqrt(np.maximum(a.lo, 0))
    hi = np.maximum(hi, math.sqrt(1.18e-38) * 2 ** (a.g / 2))      # see powv: roots become powers
    return big(pad(lo, hi, hi, None), 2 * a.g)


def expv(a):
    lo, hi = np.exp(a.lo), np.exp(a.hi)
    r = 4e-7 + 2 * EPS * np.maximum(1, a.m)
    return V(lo * (1 - r), hi * (1 + r), hi * (1 + r), None)


def logv(a):
    lo, hi = np.log(np.maximum(a.lo, 1e-45)), np.log(a.hi)
    e = 4e-7 + 4 * EPS * np.maximum(np.abs(lo), np.abs(hi))
    m = np.maximum(np.abs(lo), np.abs(hi)) + e
    return V(lo - e, hi + e, m, None)


def powv(a, b):
    la, lb = np.log(np.maximum(a.lo, 1e-45)), np.log(np.maximum(a.hi, 1e-45))
    p = [la * b.lo, la * b.hi, lb * b.lo, lb * b.hi]
    lo, hi = np.minimum.reduce(p), np.maximum.reduce(p)
    e = 4e-7 + (1e-6 + 8 * EPS * (np.maximum(np.abs(la), np.abs(lb)))) * np.maximum(1, np.abs(b.m)) + 4 * EPS * np.maximum(np.abs(lo), np.abs(hi))
    # a zero base gives 0 for a positive exponent
    l = np.exp(lo - e)
    l = np.where(a.lo <= 1e-12, 0., l)
    h = np.exp(hi + e)
    # a base below the normal range, 0 included, counts as the smallest normal number, also when it is a factor of
    # the base (the documented results of pow start at 1e-38)
    if float(np.min(b.lo)) > 0:
        z = math.log(1.18e-38) + a.g * math.log(2)
        h = np.where(a.lo <= 1e-30, np.maximum(h, np.exp(np.maximum(z * b.lo, z * b.hi) + 1e-5)), h)
    # powers of 1.5 and -0.75 are evaluated as the root of the third power (known findings)
    return big(V(l, h, h, None), a.g * max(3., 2 * float(np.max(b.m))))


def sincos(f, a):
    mid, w = (a.lo + a.hi) / 2, (a.hi - a.lo) / 2
    r = f(mid)
    e = w + 2.2e-6 + EPS * np.abs(mid)
    return V(np.maximum(r - e, -1 - 3e-6), np.minimum(r + e, 1 + 3e-6), r * 0 + 1., None)


NICE_EXP = [2, 3, .5, .25, 1.5, 2.25, .75, 4, 1, 0, -1, -2, -.5, 5, 1 / 2.2, 2.2, 2.4, 1 / 3, .45, 3.75, 6.25, -.75, 7, 1.1]


def num(c, rng):
    c = float(np.float32(c))
    t = repr(c)
    if c == int(c) and abs(c) < 1e9 and rng.random() < .8:
        t = str(int(c))
    elif rng.random() < .2:
        t = '%.9e' % c
    return t, V(np.float64(c), np.float64(c), np.float64(abs(c)), const_s(c))


def gen(rng, loads, steps, mode):
    """(tokens, value); loads: {name: V}; every intermediate value is finite and of moderate size"""
    toks, st = [], []
    names = list(loads)

    def push_num(c):
        t, v = num(c, rng)
        toks.append(t)
        st.append(v)

    def un(t, f):
        toks.append(t)
        st.append(f(st.pop()))

    def bi(t, f):
        toks.append(t)
        b = st.pop()
        a = st.pop()
        st.append(f(a, b))

    def rnd_const():
        r = rng.random()
        if r < .5:
            return rng.choice([0, 1, 2, 3, -1, .5, .25, 4, 16, 128, 255, -2, 8, 10, 219, 1.5])
        if r < .8:
            return rng.randint(-300, 300)
        return rng.choice([.1, 1.164, .299, -.587, 3.14159, rng.uniform(-4, 4), rng.uniform(-1000, 1000), 1023 / 255, 1e-3])

    fold = lambda f: f

    def bound_top(c):
        """keeps the top of the stack within -c..c"""
        if np.max(st[-1].m) > c * 1.01:
            push_num(c)
            bi('min', minv)
            push_num(-c)
            bi('max', maxv)
            v = st[-1]
            v.m = np.minimum(v.m, c)
            v.g = math.log2(max(2, c))

    minv = lambda a, b: V(np.minimum(a.lo, b.lo), np.minimum(a.hi, b.hi), np.maximum(a.m, b.m), smax(a, b))
    maxv = lambda a, b: V(np.maximum(a.lo, b.lo), np.maximum(a.hi, b.hi), np.maximum(a.m, b.m), smax(a, b))
    for _ in range(steps):
        r = rng.random()
        n = len(st)
        if n == 0 or (r < .3 and n < 8):
            if rng.random() < .7:
                nm = rng.choice(names)
                toks.append(nm)
                st.append(loads[nm])
            else:
                push_num(rnd_const())
        elif r < .36 and n < 8:
            k = rng.randrange(n)
            toks.append('dup' + (str(k) if k or rng.random() < .3 else ''))
            st.append(st[-1 - k])
        elif r < .42 and n >= 2:
            k = rng.randrange(n)
            toks.append('swap' + (str(k) if k != 1 or rng.random() < .3 else ''))
            st[-1], st[-1 - k] = st[-1 - k], st[-1]
        elif r < .68 and n >= 2:
            o = rng.choice(['+', '-', '*', '+', '-', '*', 'max', 'min', '/'])
            if o == '/':
                if rng.random() < .5:
                    st_top = rng.choice([2, 4, 3, 255, .5, 16, -8, 10, 1.7, 219])
                    push_num(st_top)
                else:
                    un('abs', absv)
                    push_num(rng.choice([1, .5, 2]))
                    bi('+', add)
                if np.min(st[-1].lo) <= .01 and np.max(st[-1].hi) >= -.01:
                    bi('+', add)
                    continue
                bi('/', div)
            elif o == '*':
                bi('*', mul)
            else:
                bi(o, {'+': add, '-': sub, 'max': maxv, 'min': minv}[o])
        elif r < .76 and n >= 2:
            o = rng.choice(['>', '<', '=', '>=', '<='])
            bi(o, lambda a, b: cmp(a, b, o))
        elif r < .80 and n >= 2:
            o = rng.choice(['and', 'or', 'xor'])

            def lg(a, b):
                at, ap = pos(a)
                bt, bp = pos(b)
                if o == 'and':
                    return tri(at & bt, ap & bp)
                if o == 'or':
                    return tri(at | bt, ap | bp)
                sure = (at == ap) & (bt == bp)
                return tri(sure & (at != bt), ~sure | (at != bt))
            bi(o, lg)
        elif r < .83:
            un('not', lambda a: tri(~pos(a)[1], ~pos(a)[0]))
        elif r < .88:
            un('abs', absv)
        elif r < .93 and n >= 3:
            toks.append('?')
            b, a, c = st.pop(), st.pop(), st.pop()
            st.append(ternary(c, a, b))
        elif mode != 'exact':
            o = rng.choice(['sqrt', 'sqrt', 'sqrt2', 'sqrt2', 'ipow', 'ipow', 'exp', 'log', 'pow', 'pow', 'powv', 'sin', 'cos'])
            if o == 'sqrt':
                if np.min(st[-1].lo) < 0:
                    un('abs', absv)
                un('sqrt', sqrtv)
            elif o == 'sqrt2':
                # roots of products of possibly negative values
                toks.extend(['dup', '*'] if rng.random() < .7 else ['2', 'pow'])
                st.append(sq(st.pop()))
                if rng.random() < .5:
                    toks.append(rng.choice(names))
                    st.append(loads[toks[-1]])
                    un('abs', absv)
                    bi('*', mul)
                if np.max(st[-1].m) > 1e24:
                    bound_top(65535)
                if rng.random() < .6:
                    un('sqrt', sqrtv)
                else:
                    e = rng.choice([.5, .25, .75, 1.5])
                    if e * math.log(max(2., float(np.max(st[-1].hi)))) > 40:
                        e = .25
                    push_num(e)
                    bi('pow', lambda a, b: powv(V(np.maximum(a.lo, 0), np.maximum(a.hi, 0), a.m, a.s, a.g), b))
            elif o == 'ipow':
                e = rng.choice([2, 3, 4, 5, 6, 7, -1, -2, -3])
                m = float(np.max(st[-1].m))
                if m ** abs(e) > 1e12:
                    bound_top(20)
                    if abs(e) > 4:
                        e = 3
                if e < 0 and np.min(np.where((st[-1].lo < .5) & (st[-1].hi > -.5), 0, 1)) == 0:
                    e = -e
                toks.append(str(e))
                toks.append('pow')
                st.append(ipow(st.pop(), e))
            elif o == 'exp':
                bound_top(rng.choice([4, 20]))
                un('exp', expv)
            elif o == 'log':
                if np.min(st[-1].lo) < 1e-3:
                    un('abs', absv)
                    push_num(rng.choice([1, .25]))
                    bi('+', add)
                un('log', logv)
            elif o in ('sin', 'cos'):
                bound_top(1e5)
                un(o, lambda a: sincos(np.sin if o == 'sin' else np.cos, a))
            else:
                if np.min(st[-1].lo) < 1e-3:
                    un('abs', absv)
                    push_num(rng.choice([1, .25]))
                    bi('+', add)
                hi = max(2., float(np.max(st[-1].hi)))
                lo = min(.5, float(np.min(st[-1].lo)))
                if lo <= 0:
                    raise Skip
                if o == 'pow' or n < 2:
                    e = rng.choice(NICE_EXP)
                    if abs(e) * math.log(hi) > 40 or abs(e) * -math.log(lo) > 40:
                        e = .5
                    push_num(e)
                    bi('pow', powv)
                else:
                    # variable exponent: the second value bounded
                    toks.append('swap')
                    st[-1], st[-2] = st[-2], st[-1]
                    bound_top(3 if hi < 1e4 else 1)
                    bi('pow', powv)
        bad = st and (not np.all(np.isfinite(st[-1].m)) or np.max(st[-1].m) > 1e12)
        if bad:
            bound_top(rng.choice([1000, 65535]))
            if not np.all(np.isfinite(st[-1].lo)):
                return None
    while len(st) > 1:
        o = rng.choice(['+', '-', 'max', 'min', '+', '*', '?'])
        if o == '?' and len(st) >= 3:
            toks.append('?')
            b, a, c = st.pop(), st.pop(), st.pop()
            st.append(ternary(c, a, b))
            continue
        if o in '*?':
            o = '+'
        bi(o, {'+': add, '-': sub, 'max': maxv, 'min': minv}[o])
    if not st:
        return None
    return toks, st[0]


def out_interval(v, fmt, shape):
    lo, hi = np.broadcast_to(v.lo, shape), np.broadcast_to(v.hi, shape)
    if fmt.isfloat:
        if fmt.bits == 16:
            with np.errstate(over='ignore'):
                return lo.astype(np.float32).astype(np.float16).astype(float), np.nextafter(hi.astype(np.float32), np.float32(np.inf)).astype(np.float16).astype(float) if not exact(v.m, v.s) else hi.astype(np.float16).astype(float)
        if exact(v.m, v.s):
            return lo, hi
        return lo - 1e-37, hi + 1e-37
    return np.rint(np.clip(lo, 0, fmt.peak)), np.rint(np.clip(hi, 0, fmt.peak))


def fmtid(core, f):
    return vs.L.vsh_fmtid(core.ptr, *f.key)


BAD = ['x +', 'x y', '', '   ', 'x foo', 'x 1..2 +', 'x dup3 +', 'x swap2', 'dup', 'x 1 2 + ', '1 2 ?', 'x y z ? ? ', 'x 12abc +', 'A', 'x dup-1 +', 'x dupx +', 'x swap1a', '# x', 'x sqrtt', 'x,y +']


def probe(core, rep):
    """fixed programs whose powers leave the float range when they are multiplied out, although no value of the program does"""
    f = Fmt(GRAY, 1, 32)
    a, b = 60000., 65000.
    c = [core.source([core.frame(f, [np.full((2, 40), v, np.float32)])]) for v in (a, b)]
    for e, r in [('x 65535 / 12 pow 255 *', (a / 65535) ** 12 * 255), ('x y / 10 pow 100 *', (a / b) ** 10 * 100),
                 ('x x * 10000 * 1.5 pow', (a * a * 10000) ** 1.5), ('x x * 10000 * -0.75 pow 1e10 *', (a * a * 10000) ** -.75 * 1e10),
                 ('x x * 10000 * 0.75 pow', (a * a * 10000) ** .75), ('x x * 1e16 * 1.25 pow', (a * a * 1e16) ** 1.25), ('1 x x * 1e16 * / -1.25 pow', (a * a * 1e16) ** 1.25),
                 ('x 1e-16 * 0.75 pow 1e9 *', (a * 1e-16) ** .75 * 1e9)]:
        for lv in LEVELS:
            core.setcpu(lv)
            v = core.clip('Expr', clips=c, expr=e).get(0).planes[0]
            if not np.all(np.abs(v - r) < 1e-4 * r):
                rep.viol('Expr:power-range:' + e.replace(' ', '_'), f'{e!r} for x={a} y={b} [{lv}]: got {v[0, 0]!r}, expected {r!r}')


def probe2(core, rep):
    """very large exponents"""
    f = Fmt(GRAY, 1, 32)
    v = np.array([[0, .5, 1, -.5, -1, 0, 1, -1]] * 2, np.float32)
    c = core.source([core.frame(f, [v])])
    for e, r in [('x 1e10 pow', lambda x: float(abs(x) == 1)), ('x 100001 pow', lambda x: float(x) if abs(x) == 1 else 0.), ('x 3e38 pow 2 *', lambda x: 2. * (abs(x) == 1)),
                 ('x abs 0.5 max -4e9 pow 1000 min', lambda x: 1000. if abs(x) < 1 else 1.),
                 ('x 3 * 2 / 100003 pow -2 max 2 min', lambda x: 2. if x > .9 else -2. if x < -.9 else 0.)]:
        for lv in LEVELS:
            core.setcpu(lv)
            g = core.clip('Expr', clips=c, expr=e).get(0).planes[0]
            x = np.vectorize(r)(v)
            if not np.allclose(g, x, atol=1e-3):
                rep.viol('Expr:large-exponent', f'{e!r} of {v[0].tolist()} [{lv}]: got {g[0].tolist()}, expected {x[0].tolist()}')


def case(core, rng, nrng, rep, k, opts):
    if k == 1:
        probe2(core, rep)
    if k == 0:
        probe(core, rep)
    nc = rng.choice([1, 1, 2, 2, 3, 4, rng.randint(1, 26)])
    base = rand_fmt(rng)
    clips = []
    w, h = rand_dims(rng, base, maxw=150, maxh=8)
    dy = rng.random() < .5
    n = rng.choice([1, 1, 2])
    for i in range(nc):
        f = base if i == 0 else rand_fmt(rng)
        if i:
            if base.cf == YUV or base.cf == RGB:
                f = Fmt(base.cf if rng.random() < .7 or base.ssw or base.ssh else (RGB if base.cf == YUV else YUV), f.st, f.bits, base.ssw, base.ssh)
            else:
                f = Fmt(GRAY, f.st, f.bits)
        fr = []
        for j in range(n if i == 0 else rng.choice([n, n, 1, n + 1])):
            pl = rand_planes(rng, nrng, f, w, h)
            if f.isfloat and dy:
                pl = [(np.round(p.astype(np.float64) * 64) / 64).astype(f.dtype) for p in pl]
            fr.append(core.frame(f, pl, rand_props(rng, j)))
        clips.append((core.source(fr), fr))
    out = base
    kw = {}
    if rng.random() < .5:
        o = rand_fmt(rng)
        out = Fmt(base.cf, o.st, o.bits, base.ssw, base.ssh)
        kw['format'] = fmtid(core, out)
    nexpr = rng.randint(1, base.np)
    mode = rng.choice(['exact', 'exact', 'any', 'any', 'any'])
    # values of all frames are evaluated together plane by plane: one program per plane
    exprs = []
    seeds = [rng.getrandbits(60) for _ in range(nexpr)]
    empt = [rng.random() < .12 for _ in range(nexpr)]
    steps = rng.choice([4, 8, 14, 25, 45])

    def data(i, p):
        # all frames of plane p side by side
        a = np.concatenate([clips[i][1][min(j, len(clips[i][1]) - 1)].planes[p] for j in range(n)], 0).astype(np.float64)
        f = clips[i][1][0].fmt
        s = 0 if not f.isfloat else 6 if dy else None
        return V(a, a, np.abs(a), s)
    vals = {}
    progs = []
    for q in range(nexpr):
        if empt[q]:
            progs.append('')
            continue
        # the same program serves several planes when there are fewer programs: it is generated for the values of all of them together
        planes = [p for p in range(base.np) if p == q or (q == nexpr - 1 and p > q)]
        for attempt in range(20):
            r2 = random.Random(seeds[q] + attempt)
            shapes = [data(0, p).lo.shape for p in planes]
            loads = {}
            for i in range(nc):
                d = [data(i, p) for p in planes]
                fl = np.concatenate([x.lo.ravel() for x in d])
                loads[NAMES[i]] = V(fl, fl, np.abs(fl), d[0].s)
            try:
                g = gen(r2, loads, steps, mode)
            except Skip:
                continue
            if g:
                break
        else:
            return
        toks, v = g
        ws = r2.choice([' ', ' ', '  ', '\n', '\t'])
        progs.append(ws.join(toks))
        off = 0
        tot = sum(a * b for a, b in shapes)
        lo, hi, m = (np.broadcast_to(x, (tot,)) for x in (v.lo, v.hi, v.m))
        for p, (a, b) in zip(planes, shapes):
            vals[p] = V(lo[off:off + a * b].reshape(a, b), hi[off:off + a * b].reshape(a, b), v.m, v.s)
            off += a * b
        rep.count('programs')
        rep.count('tokens', len(toks))
        if exact(v.m, v.s):
            rep.count('exact_programs')
    # an empty program copies
    pl_prog = [progs[min(p, nexpr - 1)] for p in range(base.np)]
    samefmt = out == base
    what = f'Expr {[repr(c[1][0].fmt) for c in clips]}->{out} {w}x{h} {progs}'
    for lv in LEVELS:
        core.setcpu(lv)
        try:
            node = core.clip('Expr', clips=[c[0] for c in clips], expr=progs, **kw)
        except VSError as e:
            rep.viol('Expr:refused', f'{what} [{lv}]: {e}')
            return
        check_info(rep, 'Expr', what, node, out, w, h, n, clips[0][0].fps)
        for j, f in enumerate(fetch(rep, 'Expr', what, node, list(range(n)))):
            if f is None:
                continue
            check_props(rep, 'Expr', f'{what} [{lv}] frame {j}', f.props, clips[0][1][j].props)
            for p in range(base.np):
                if not pl_prog[p]:
                    if samefmt:
                        cmp_exact(rep, 'Expr:copy', f'{what} [{lv}] frame {j} plane {p}', f.planes[p], clips[0][1][j].planes[p])
                    continue
                ph, pw = f.planes[p].shape
                v = vals[p]
                sl = slice(j * ph, (j + 1) * ph)
                lo, hi = out_interval(V(v.lo[sl], v.hi[sl], v.m, v.s), out, (ph, pw))
                cmp_range(rep, 'Expr:' + ('exact' if exact(v.m, v.s) else 'value'), f'{what} [{lv}] frame {j} plane {p} (program {pl_prog[p]!r})', f.planes[p], lo, hi)
                rep.count('pixels', lo.size)
                rep.count('sharp_samples', int((lo == hi).sum()))
                rep.ev(1, (lv, k, p))
    if rng.random() < .2:
        b = rng.choice(BAD)
        if b == '' or (b in ('x y', 'x y z ? ? ') and nc < 3 and False):
            return
        must_fail(rep, 'Expr:invalid', f'invalid expression {b!r}', lambda: core.clip('Expr', clips=[c[0] for c in clips], expr=b))
        if nc < 26:
            must_fail(rep, 'Expr:undefined-clip', f'reference to clip {NAMES[nc]!r} of {nc}', lambda: core.clip('Expr', clips=[c[0] for c in clips], expr=NAMES[nc] + ' x +'))
    if k < 3:
        rep.sample(what)
