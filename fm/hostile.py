"""Every built in function called with hostile arguments on hostile clips: either an error or frames that are what the clip says they are."""
import math
import numpy as np
import vs
from fcommon import *

PER_CORE = 4
SKIP = {'LoadPlugin', 'LoadAllPlugins', 'LoadPluginByPath'}
INTS = [0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 32]
BIG = [-1, -2, -3, 15, 17, 24, 25, 31, 33, 63, 64, 100, 127, 128, 255, 256, 257, 1000, 3071, 3072, 3073, 32767, 32768, 65535, 65536, 2 ** 24, 2 ** 30, 2 ** 31 - 2, 2 ** 31 - 1,
       2 ** 31, -2 ** 31, -2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 53, 2 ** 62, 2 ** 63 - 1, -2 ** 63, -2 ** 63 + 1, -1000, 2 ** 33 + 5]
FLOATS = [0., 1., .5, .25, 2., -1., 3., 10., 255., 128.]
BIGF = [math.nan, math.inf, -math.inf, 1e30, -1e30, 1e300, -1e300, 5e-324, 1e-40, -0., 65535., 65536., 4294967295., 4294967296., 2. ** 31, -2. ** 31, 1e10, .1]
TXT = ['', 'x', 'h', 'v', 's', 'hv', 'vh', 'n', '_FieldBased', '_DurationNum', '_Matrix', '_Alpha', 'fl', 'txt', 'abc*', '*', '**', 'none', 'rectangular', 'triangular', 'sine', 'silence', 'square', 'triangle', 'slope',
       'avx2', 'sse2', 'a' * 300, 'two words', '1', '-1', '\n', 'line one\nline two\r\n\tthree', '\u00fc\u0444\U0001f600', '%s%n%d', 'prop.with.dots', '_Combed', '_PictType', '_ColorRange']
TOK = ['x', 'x', 'y', 'z', 'a', '0', '1', '255', '0.5', '-1', '1e38', '1e-38', '0x1p3', '+', '-', '*', '/', 'max', 'min', '>', '<', '=', '>=', '<=', '?', 'and', 'or', 'xor', 'not', 'abs', 'sqrt', 'exp', 'log', 'sin', 'cos', 'pow', '**', 'dup',
       'dup0', 'dup1', 'dup5', 'swap', 'swap1', 'swap3', 'floor', 'trunc', 'round', '%', 'dup99999999999', 'swap-1', 'q', 'xx', '\u00fc', '1e', '--1', 'nan', 'inf', '1e999']


def rexpr(rng):
    if rng.random() < .15:
        return ''
    if rng.random() < .5:
        return ' '.join(rng.choice(TOK) for _ in range(rng.randint(1, 12)))
    d, out = 0, []
    for _ in range(rng.randint(1, 40)):
        if d >= 2 and rng.random() < .5:
            out.append(rng.choice(['+', '-', '*', '/', 'max', 'min', '>', 'pow', 'and', 'swap']))
            d -= out[-1] != 'swap'
        elif d >= 1 and rng.random() < .3:
            out.append(rng.choice(['abs', 'sqrt', 'exp', 'log', 'sin', 'cos', 'not', 'dup']))
            d += out[-1] == 'dup'
        else:
            out.append(rng.choice(TOK[:13]))
            d += 1
    while d > 1:
        out.append(rng.choice(['+', '*', 'min', '-', '/']))
        d -= 1
    return ' '.join(out)


def rfmt(core, rng):
    if rng.random() < .75:
        f = rand_fmt(rng, ('u8', 'u16', 'f16', 'f32', 'u32'), maxss=4)
        return f, L().vsh_fmtid(core.ptr, *f.key)
    return None, rng.choice([0, 1, 2 ** 31 - 1, 0x10080000 + rng.getrandbits(16), rng.getrandbits(31), -1])


def L():
    return vs.L


def source(core, rng, nrng):
    """a clip, perhaps of varying format and size, with samples and properties nothing should rely on"""
    n = rng.randint(1, 5)
    vary = rng.random()
    f = rand_fmt(rng, ('u8', 'u8', 'u16', 'f16', 'f32', 'u32'), maxss=3 if rng.random() < .2 else 2)
    w, h = rng.choice([(1, 1), (2, 2), (3, 5), (4, 4), (8, 6), (16, 2), (33, 9), (64, 8), (130, 4)])
    fr = []
    for i in range(n):
        if i and vary < .12:
            f = rand_fmt(rng, ('u8', 'u16', 'f16', 'f32', 'u32'))
        if i and vary < .2:
            w, h = rng.randint(1, 40), rng.randint(1, 20)
        w2, h2 = max(1, w >> f.ssw) << f.ssw, max(1, h >> f.ssh) << f.ssh
        pl = rand_planes(rng, nrng, f, w2, h2, wide=True)
        if rng.random() < .4:       # sample values outside the nominal range
            for p in pl:
                if f.isfloat:
                    p[...] = np.where(nrng.random(p.shape) < .2, nrng.choice(np.array([np.nan, np.inf, -np.inf, 60000, -60000, 1e30, -1e30, 1e-40], np.float32), p.shape).astype(p.dtype), p)
                else:
                    p[...] = np.where(nrng.random(p.shape) < .3, nrng.integers(0, 1 << (8 * p.dtype.itemsize), p.shape).astype(p.dtype), p)
        pr = rand_props(rng, i)
        for k in ('_FieldBased', '_DurationNum', '_DurationDen', '_Matrix', '_ColorRange', '_Field', '_AbsoluteTime', '_SceneChangePrev', '_SceneChangeNext', '_SARNum', '_ChromaLocation', '_Combed'):
            if rng.random() < .08:
                pr[k] = rng.choice([0, 1, 2, -1, 2 ** 63 - 1, -2 ** 63, 5, 1 << 40, .5, 'text', [1, 2, 3], math.nan])
        if rng.random() < .1:
            pr['fr'] = core.frame(f, pl)
        if rng.random() < .05:
            pr['long'] = 'w' * rng.choice([100, 5000])
        fr.append(core.frame(f, pl, pr))
    kw = {'fmt': None} if len({x.fmt for x in fr}) > 1 else {}
    if len({(x.w, x.h) for x in fr}) > 1:
        kw.update(w=0, h=0)
    return core.source(fr, **kw, fps=rng.choice([(25, 1), (30000, 1001), (0, 0), (1, 1), (2 ** 62, 1), (1, 2 ** 62), (2 ** 63 - 1, 2 ** 63 - 2)]))


def asource(core, rng, nrng):
    st = rng.randint(0, 1)
    bits = 32 if st else rng.randint(16, 32)
    lay = rng.choice([1, 2, 3, 4, 7, 0x63F, 1 << 35 | 1 << 63 >> 20])
    ln = rng.choice([1, 5, 3071, 3072, 3073, 7000])
    nc = bin(lay).count('1')
    dt = vs.adtype(st, bits)
    ch = []
    for _ in range(nc):
        if st:
            c = nrng.uniform(-1.5, 1.5, ln).astype(np.float32)
            if rng.random() < .3:
                c = np.where(nrng.random(ln) < .1, nrng.choice(np.array([np.nan, np.inf, -np.inf, 1e30], np.float32), ln), c).astype(np.float32)
        else:
            i = np.iinfo(dt)
            c = nrng.integers(i.min, i.max, ln, dtype=np.int64, endpoint=True).astype(dt)
        ch.append(c)
    fr = [core.aframe(st, bits, lay, [c[i:i + 3072] for c in ch]) for i in range(0, ln, 3072)]
    return core.asource(fr, rng.choice([1, 8000, 44100, 48000, 192000, 2 ** 31 - 1]))


def value(core, rng, fn, name, typ, arr, pool, apool):
    if typ == 'int':
        def one():
            if name == 'format':
                return rfmt(core, rng)[1]
            if name in ('hpasses', 'vpasses'):
                return rng.choice([-1, 0, 1, 1, 2, 3])          # the time taken is proportional
            if name == 'bits' and rng.random() < .6:
                return rng.choice([8, 10, 16, 24, 32, 20, 9, 12])
            if name in ('planes', 'plane', 'channels_in', 'channels_out', 'channels') and rng.random() < .7:
                return rng.choice([0, 1, 2, 0, 1, 2, 3, -1, -2])
            if name == 'colorfamily' and rng.random() < .8:
                return rng.choice([1, 2, 3])
            if name == 'matrix' and rng.random() < .7:
                return rng.choice([-3, -1, 0, 1, 2, 5])
            r = rng.random()
            return rng.choice(INTS) if r < .6 else rng.choice(BIG) if r < .9 else rng.randint(-40, 200)
    elif typ == 'float':
        def one():
            return rng.choice(FLOATS) if rng.random() < .65 else rng.choice(BIGF) if rng.random() < .6 else rng.uniform(-300, 300)
    elif typ == 'data':
        def one():
            if name == 'expr':
                return rexpr(rng)
            if rng.random() < .1:
                return bytes(rng.getrandbits(8) for _ in range(rng.randint(0, 20)))
            return rng.choice(TXT)
    elif typ == 'vnode':
        c = rng.choice(pool)

        def one():
            return c if rng.random() < .6 else rng.choice(pool)
    elif typ == 'anode':
        c = rng.choice(apool)

        def one():
            return c if rng.random() < .6 else rng.choice(apool)
    else:
        return function(core, rng, pool, apool)
    if not arr:
        return one()
    if typ == 'int' and name == 'lut' and rng.random() < .7:
        n = rng.choice([255, 256, 257, 512, 1024, 4096, 65535, 65536])
        return [rng.choice([0, 1, 255, 256, 65535, -1]) if rng.random() < .001 else i % 256 for i in range(n)]
    if typ == 'float' and name == 'lutf' and rng.random() < .7:
        return [i / 255 for i in range(rng.choice([255, 256, 65536]))]
    if name == 'matrix' and rng.random() < .8:
        return [one() for _ in range(rng.choice([3, 5, 9, 9, 25, 25, 49, 81, 121, 7, 2, 4]))]
    if name == 'matrix':
        return [one() for _ in range(rng.choice([1, 2, 6, 13, 26, 120, 122]))]
    k = rng.choice([0, 1, 1, 1, 2, 2, 3, 3, 4, 6])
    if name in ('weights',):
        k = rng.choice([1, 3, 5, 31, 32, 2])
    return [one() for _ in range(k)]


def function(core, rng, pool, apool):
    k = rng.randint(0, 6)
    other = rng.choice(pool)

    def f(a):
        if k == 0:
            return {'val': other}
        if k == 1:
            return {'val': 7}
        if k == 2:
            v = a.get('f')
            return {'val': v[0]} if v else {'val': 1.5}
        if k == 3:
            raise ValueError('refused')
        if k == 4:
            return {}
        if k == 5:
            return {'val': 2 ** 62}
        v = a.get('f')
        return {'val': v[-1]} if v else {'val': math.nan}
    return core.func(f)


def usable(node):
    """bounded memory per frame"""
    v = node._vi()
    return v[0] == 0 or not v[7] or v[7] * v[8] <= 1 << 21


def describe(kw):
    def one(v):
        if isinstance(v, vs.Node):
            return ('%s %dx%dx%d' % (v.fmt, v.w, v.h, v.n)) if v.isvideo else 'audio%r' % (tuple(v.ai),)
        if isinstance(v, vs.Func):
            return 'func'
        if isinstance(v, list):
            return '[' + ', '.join(map(one, v[:12])) + (', ... %d' % len(v) if len(v) > 12 else '') + ']'
        return repr(v)[:80]
    return ', '.join('%s=%s' % (k, one(v)) for k, v in kw.items())


def same(a, b):
    if a.isvideo:
        return all(x.tobytes() == y.tobytes() for x, y in zip(a.planes, b.planes))
    return all(x.tobytes() == y.tobytes() for x, y in zip(a.channels, b.channels))


def judge(core, rng, rep, fn, what, node, fresh):
    if node.isvideo:
        v = node._vi()
        fmt, w, h, n = node.fmt, v[7], v[8], v[9]
        if n < 1 or w < 0 or h < 0 or (w == 0) != (h == 0) or v[10] < 0 or v[11] < 0 or (v[10] == 0) != (v[11] == 0):
            rep.viol(fn + ':info', f'{what}: clip info {v}')
            return
        if fmt and w and (w % (1 << fmt.ssw) or h % (1 << fmt.ssh)):
            rep.viol(fn + ':info', f'{what}: {fmt} of size {w}x{h}')
            return
        if not usable(node):
            rep.count('too_big_to_request')
            return
    else:
        st, bits, by, nc, lay, rate, ns, n = node.ai
        if n < 1 or ns < 1 or rate < 1 or nc < 1 or n != -(-ns // 3072):
            rep.viol(fn + ':info', f'{what}: audio info {node.ai}')
            return
    ks = sorted({0, n - 1, rng.randrange(n), rng.randrange(n)})
    got = node.getmany(ks)
    for k, f in zip(ks, got):
        rep.ev(1)
        if isinstance(f, VSError):
            rep.count('failed_frames')
            if not str(f):
                rep.viol(fn + ':silent', f'{what}: frame {k} failed without a message')
            continue
        rep.count('frames')
        if node.isvideo:
            if not f.isvideo or (fmt and f.fmt != fmt) or (w and (f.w, f.h) != (w, h)):
                rep.viol(fn + ':frame-info', f'{what}: frame {k} is {f.fmt} {f.w}x{f.h}, the clip is {fmt} {w}x{h}')
        else:
            exp = 3072 if k < n - 1 else ns - 3072 * (n - 1)
            if f.isvideo or f.afmt[:2] + f.afmt[4:] != (st, bits, lay) or L().vsh_length(f.ptr) != exp:
                rep.viol(fn + ':frame-info', f'{what}: frame {k} is {f.afmt} with {L().vsh_length(f.ptr)} samples, the clip is {node.ai}')
    if fresh:                    # the same frames again, made anew: every sample must have been written
        L().vsh_clearcaches(core.ptr)
        again = node.getmany(ks)
        for k, f, g in zip(ks, got, again):
            if isinstance(f, VSError) != isinstance(g, VSError):
                rep.viol(fn + ':unstable', f'{what}: frame {k} gave {f if isinstance(f, VSError) else "a frame"}, then {g if isinstance(g, VSError) else "a frame"}')
            elif not isinstance(f, VSError):
                rep.ev(1)
                if f.isvideo != g.isvideo or (f.isvideo and (f.fmt != g.fmt or f.w != g.w or f.h != g.h)) or not same(f, g):
                    rep.viol(fn + ':unstable', f'{what}: frame {k} differs the second time')


def case(core, rng, nrng, rep, k, opts):
    lv = rng.choice(LEVELS)
    core.setcpu(lv)
    pool = [(source(core, rng, nrng), True) for _ in range(rng.randint(1, 3))]
    pool.append((pool[0][0], True))
    apool = [(asource(core, rng, nrng), True) for _ in range(2)]
    fns = [('std', f) for f in core.functions('std') if f not in SKIP] + [('text', f) for f in core.functions('text')]
    for _ in range(rng.randint(6, 14)):
        ns, fn = rng.choice(fns)
        sig = sigs(core, ns, fn)
        vp, ap = [x[0] for x in pool], [x[0] for x in apool]
        kw = {}
        for name, typ, arr, opt in sig:
            if opt and rng.random() > .35 or name == 'make_linear':
                continue
            if not opt and rng.random() < .01:
                continue
            kw[name] = value(core, rng, fn, name, typ, arr, vp, ap)
        if fn == 'SetFrameProps':
            for _ in range(rng.randint(0, 3)):
                kw[rng.choice(['q', '_FieldBased', 'n', '_DurationNum', 'bad name', ''])] = rng.choice([1, 1.5, 'z', vp[0], [1, 2], ['a', 'b']])
        if fn == 'BlankClip' and (kw.get('varsize') or kw.get('varformat')):      # frames as big as the memory allow no judgement
            kw.update(width=rng.choice([1, 3, 16, 64]), height=rng.choice([1, 2, 7, 16]))
        if fn == 'AddBorders' and 'clip' in kw and kw['clip'].w == 0:
            for b in ('left', 'right', 'top', 'bottom'):
                if b in kw and kw[b] > 64:
                    kw[b] = 64
        if fn in ('Lut', 'Lut2') and 'function' in kw and rng.random() < .9:
            del kw['function']
        what = f'{fn}({describe(kw)}) [{lv}]'
        rep.line('CALL ' + what[:600]) if opts.get('verbose') else None
        known = {id(n): s for n, s in pool + apool}
        stable = all(known.get(id(x), True) for v in kw.values() for x in (v if isinstance(v, list) else [v])) and fn not in ('CoreInfo', 'SetMaxCPU') and not (fn == 'AudioResample' and kw.get('dither_type') != 'none')
        if fn == 'Expr' and 'format' in kw:      # planes that can't be copied are documented to be undefined
            stable = stable and '' not in kw.get('expr', [])
        try:
            r = core.invoke(fn, ns=ns, **kw)
        except VSError as e:
            rep.ev(1, (fn, 'error', str(e)[:60]))
            rep.count('refused')
            if not str(e):
                rep.viol(fn + ':silent', f'{what} was refused without a message')
            continue
        except ValueError:         # the map refused the argument
            continue
        rep.ev(1, (fn, tuple(sorted(kw)), lv))
        rep.count('accepted')
        if fn == 'SetMaxCPU':
            core.setcpu(lv)
        for key, l in r.items():
            for node in l:
                if isinstance(node, vs.Node):
                    judge(core, rng, rep, fn, what, node, stable)
                    if node.isvideo and len(pool) < 8 and usable(node):
                        pool.append((node, stable))
                    elif not node.isvideo and len(apool) < 6:
                        apool.append((node, stable))
    core.setcpu('avx512')


_sig = {}


def sigs(core, ns, fn):
    if (ns, fn) not in _sig:
        s = L().vsh_args(core.ptr, ns.encode(), fn.encode()).decode()
        out = []
        for a in s.split(';'):
            q = a.split(':')
            if len(q) > 1:
                out.append((q[0], q[1].replace('[]', ''), '[]' in q[1], 'opt' in q[2:]))
        _sig[ns, fn] = out
    return _sig[ns, fn]
