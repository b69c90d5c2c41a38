"""SetFrameProp(s), RemoveFrameProps, CopyFrameProps, SetFieldBased, ClipToProp, PropToClip, FrameEval, ModifyFrame against a model of frames with properties"""
import string, time
import numpy as np
from fcommon import *
from vs import Frame, Node

NAMES = ['a', 'A', 'ab', 'abc', 'Ab1', '_x', '_FieldBased', '_Field', 'PlaneStatsMin', 'PlaneStatsMax', 'VFMMics', 'VFMSceneChange', 'z' * 40, 'data', 'prop', '_Alpha', 'x1', 'x12', 'x2']


class MF:
    """model frame"""
    def __init__(self, f, props):
        self.f, self.props = f, props

    def with_props(self, d):
        return MF(self.f, d)


class MC:
    def __init__(self, node, frames, fps, desc):
        self.node, self.frames, self.fps, self.desc = node, frames, fps, desc
        self.n = len(frames)

    def get(self, i):
        return self.frames[min(i, self.n - 1)]


def norm_frame(f):
    return ('frame', f.fmt.key, tuple(p.tobytes() for p in f.planes))


def norm(v):
    """comparable form of a property value list, from the library or the model"""
    out = []
    for x in v:
        if isinstance(x, Frame):
            out.append(norm_frame(x) + (normp(x.props),))
        elif isinstance(x, MF):
            out.append(norm_frame(x.f) + (normp(x.props),))
        elif isinstance(x, Node):
            out.append(('node', x.n, x.fmt and x.fmt.key, x.w, x.h, x.get(0).props['id'][0]))
        elif isinstance(x, MC):
            out.append(('node', x.n, x.frames[0].f.fmt.key, x.frames[0].f.w, x.frames[0].f.h, x.frames[0].props['id'][0]))
        else:
            out.append((type(x).__name__, x))
    return tuple(out)


def normp(d):
    return tuple(sorted((k, norm(v)) for k, v in d.items()))


def glob(p, s):
    if not p:
        return not s
    if p[0] == '*':
        return any(glob(p[1:], s[i:]) for i in range(len(s) + 1))
    return bool(s) and (p[0] == '?' or p[0] == s[0]) and glob(p[1:], s[1:])


def rand_value(rng):
    t = rng.choice(['int', 'float', 'data', 'str'])
    k = rng.choice([1, 1, 1, 2, 5])
    if t == 'int':
        return t, [rng.choice([0, 1, -1, 2**63 - 1, -2**63, rng.randint(-100, 100)]) for _ in range(k)]
    if t == 'float':
        return t, [rng.choice([0., -1.5, 1e300, float('inf'), rng.random()]) for _ in range(k)]
    if t == 'data':
        return t, [bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 300]))) for _ in range(k)]
    return t, [''.join(rng.choice(string.ascii_letters + 'äß€ ') for _ in range(rng.choice([0, 3, 20]))) for _ in range(k)]


class Serial:
    """notices calls of one function that overlap"""
    def __init__(self, rng, rep, key):
        self.n, self.slow, self.rep, self.key, self.seed = 0, rng.random() < .3, rep, key, rng.random()

    def __enter__(self):
        self.n += 1
        if self.n != 1:
            self.rep.viol(self.key + ':overlap', 'the function of one filter was called again before it returned')
        if self.slow:
            time.sleep(.0005)

    def __exit__(self, *a):
        self.n -= 1


class Gen:
    def __init__(self, core, rng, nrng, rep):
        self.core, self.rng, self.nrng, self.rep = core, rng, nrng, rep
        self.fmt = rand_fmt(rng)
        self.dims = rand_dims(rng, self.fmt, maxw=20, maxh=3)
        self.pool = [self.source() for _ in range(rng.randint(1, 3))]

    def source(self, fmt=None, dims=None, n=None):
        rng = self.rng
        fmt, (w, h) = fmt or self.fmt, dims or self.dims
        fr = []
        for i in range(n or rng.choice([1, 2, 3, 5, 9])):
            p = rand_props(rng, i)
            p['id'] = rng.getrandbits(40)
            for k in rng.sample(NAMES, rng.randint(0, 6)):
                p[k] = rand_value(rng)[1]
            f = self.core.frame(fmt, rand_planes(rng, self.nrng, fmt, w, h), p)
            fr.append(MF(f, f.props))
        fps = rng.choice([(25, 1), (0, 0)])
        return MC(self.core.source([x.f for x in fr], fps=fps), fr, fps, f'S{len(fr)}')

    def pick(self):
        return self.rng.choice(self.pool)

    def op(self):
        rng = self.rng
        name = rng.choice(['setprop', 'setprop', 'setprops', 'remove', 'remove', 'copy', 'copy', 'field', 'clip2prop', 'prop2clip', 'eval', 'eval', 'modify', 'modify'])
        r = getattr(self, name)()
        if r is not None:
            self.rep.count(name)
            f = r.frames[0].f
            check_info(self.rep, name, r.desc, r.node, f.fmt, f.w, f.h, r.n, r.fps)
            self.pool.append(r)

    def mapped(self, c, node, g, desc, n=None):
        return MC(node, [g(i, c.get(i)) for i in range(n or c.n)], c.fps, desc)

    def setprop(self):
        c, rng = self.pick(), self.rng
        k = rng.choice(NAMES)
        t, v = rand_value(rng)
        arg = {'int': 'intval', 'float': 'floatval', 'data': 'data', 'str': 'data'}[t]
        node = self.core.clip('SetFrameProp', clip=c.node, prop=k, **{arg: v})
        if rng.random() < .1:
            must_fail(self.rep, 'SetFrameProp:bad', 'no value', lambda: self.core.clip('SetFrameProp', clip=c.node, prop=k))
            must_fail(self.rep, 'SetFrameProp:bad', 'two values', lambda: self.core.clip('SetFrameProp', clip=c.node, prop=k, intval=[1], floatval=[1.]))
            must_fail(self.rep, 'SetFrameProp:bad', 'empty name', lambda: self.core.clip('SetFrameProp', clip=c.node, prop='', intval=[1]))
        return self.mapped(c, node, lambda i, f: f.with_props(dict(f.props, **{k: v})), f'SetFrameProp({c.desc},{k}={t}*{len(v)})')

    def setprops(self):
        c, rng = self.pick(), self.rng
        d = {k: rand_value(rng)[1] for k in rng.sample(NAMES, rng.randint(0, 4))}
        a = dict(d)
        if rng.random() < .2:
            s = self.source(n=2)
            d['aclip'] = [s]
            a['aclip'] = [s.node]
        node = self.core.clip('SetFrameProps', clip=c.node, **a)
        return self.mapped(c, node, lambda i, f: f.with_props(dict(f.props, **d)), f'SetFrameProps({c.desc},{sorted(d)})')

    def remove(self):
        c, rng = self.pick(), self.rng
        pats = None
        if rng.random() < .85:
            pats = []
            for _ in range(rng.choice([1, 1, 2, 4])):
                p = rng.choice(NAMES + ['id', 'n'])
                r = rng.random()
                if r < .2:
                    p = p[:rng.randint(0, len(p))] + '*'
                elif r < .35:
                    j = rng.randrange(len(p))
                    p = p[:j] + '?' + p[j + 1:]
                elif r < .5:
                    j, l = sorted((rng.randint(0, len(p)), rng.randint(0, len(p))))
                    p = p[:j] + '*' + p[l:]
                elif r < .6:
                    p = rng.choice(['a.', '[a-z]*', 'x1|x2', '(a)', 'a+', '^a', 'ab$', '\\w', '{', ']', 'a**c', '*', '?', '??', 'a*b*c', '_*', '.*', ''])
                pats.append(p)
            if any(p in ('*', '.*') for p in pats) and rng.random() < .8:
                pats = ['_*']
        node = self.core.clip('RemoveFrameProps', clip=c.node, props=pats)

        def g(i, f):
            return f.with_props({} if pats is None else {k: v for k, v in f.props.items() if not any(glob(p, k) for p in pats)})
        return self.mapped(c, node, g, f'RemoveFrameProps({c.desc},{pats})')

    def copy(self):
        c, s, rng = self.pick(), self.pick(), self.rng
        if rng.random() < .3:
            s = self.source(fmt=rand_fmt(rng), dims=(16, 16))
        names = None
        if rng.random() < .7:
            names = [rng.choice(NAMES + ['id', 'never']) for _ in range(rng.choice([1, 2, 5]))]
        node = self.core.clip('CopyFrameProps', clip=c.node, prop_src=s.node, props=names)

        def g(i, f):
            sp = s.get(i).props
            if names is None:
                return f.with_props(dict(sp))
            d = {k: v for k, v in f.props.items() if k not in names}
            d.update({k: sp[k] for k in names if k in sp})
            return f.with_props(d)
        return self.mapped(c, node, g, f'CopyFrameProps({c.desc},{s.desc},{names})')

    def field(self):
        c, rng = self.pick(), self.rng
        v = rng.randint(0, 2)
        if rng.random() < .2:
            b = rng.choice([-1, 3, 2**32])
            must_fail(self.rep, 'SetFieldBased:bad', f'SetFieldBased {b}', lambda: self.core.clip('SetFieldBased', clip=c.node, value=b))
        node = self.core.clip('SetFieldBased', clip=c.node, value=v)

        def g(i, f):
            d = dict(f.props, _FieldBased=[v])
            d.pop('_Field', None)
            return f.with_props(d)
        return self.mapped(c, node, g, f'SetFieldBased({c.desc},{v})')

    def clip2prop(self):
        c, rng = self.pick(), self.rng
        m = self.pick() if rng.random() < .5 else self.source(fmt=rand_fmt(rng), dims=(16, 16))
        if len(m.desc) > 300:
            return None
        p = rng.choice([None, None, 'mask'])
        node = self.core.clip('ClipToProp', clip=c.node, mclip=m.node, prop=p)
        return self.mapped(c, node, lambda i, f: f.with_props(dict(f.props, **{p or '_Alpha': [m.get(i)]})), f'ClipToProp({c.desc},{m.desc},{p})', n=m.n)

    def prop2clip_many(self):
        """several frames in one property, some of them of another kind, and frame by frame in another number"""
        rng, core = self.rng, self.core
        p = rng.choice(['_Alpha', 'mask'])
        n, k = rng.randint(1, 5), rng.randint(1, 4)
        mixed = rng.random() < .6
        fmts = [self.fmt] + ([Fmt(GRAY, 0, 8), Fmt(GRAY, 0, 9), Fmt(GRAY, 1, 32), rand_fmt(rng)] if mixed else [])
        dims = [(16, 16)] + ([(32, 16), (16, 32)] if mixed else [])

        def inner():
            f, (w, h) = (rng.choice(fmts), rng.choice(dims)) if rng.random() < .5 else (fmts[0], dims[0])
            f = core.frame(f, rand_planes(rng, self.nrng, f, w, h), {'id': rng.getrandbits(40)})
            return MF(f, f.props)
        fr, held = [], []
        for i in range(n):
            ins = [inner() for _ in range(k if rng.random() < .7 else rng.randint(0, 4))]
            f = core.frame(self.fmt, rand_planes(rng, self.nrng, self.fmt, *self.dims), dict({'id': rng.getrandbits(40)}, **({p: [x.f for x in ins]} if ins else {})))
            fr.append(f)
            held.append(ins)
        src = core.source(fr)
        idx = rng.randrange(4)
        desc = f'PropToClip of {[[(x.f.fmt.key, x.f.w, x.f.h) for x in ins] for ins in held]} index {idx}'
        mk = lambda: core.clip('PropToClip', clip=src, prop=p, index=idx)
        self.rep.count('prop2clip:many')
        if idx >= len(held[0]):
            must_fail(self.rep, 'PropToClip:bad', desc, mk)
            return None
        a = held[0][idx].f
        node = mk()
        for i, r in enumerate(node.getmany(list(range(n)))):
            want = held[i][idx] if idx < len(held[i]) and held[i][idx].f.fmt == a.fmt and (held[i][idx].f.w, held[i][idx].f.h) == (a.w, a.h) else None
            if (want is None) != isinstance(r, VSError):
                self.rep.viol('PropToClip:missing' if want is None else 'PropToClip:error', f'{desc}: frame {i}: {r if want else "delivered although it does not fit"}')
            elif want is None:
                self.rep.count('rejected')
            elif norm([r]) != norm([want]):
                self.rep.viol('PropToClip:frame', f'{desc}: frame {i} is not the one at the index')
        return None

    def prop2clip(self):
        c, rng = self.pick(), self.rng
        if rng.random() < .3:
            return self.prop2clip_many()
        p = rng.choice(['_Alpha', 'mask'])
        l = [x for x in self.pool if isinstance((x.frames[0].props.get(p) or [0])[0], MF)]
        if not l and rng.random() < .8:
            r = self.clip2prop()
            if r:
                self.rep.count('clip2prop')
                self.pool.append(r)
                l = [r] if p in r.frames[0].props else []
        if l:
            c = rng.choice(l)
        # works when the first frame holds a frame there
        f0 = c.frames[0].props.get(p)
        idx = rng.choice([None, 0, 0, 1])
        mk = lambda: self.core.clip('PropToClip', clip=c.node, prop=None if p == '_Alpha' and rng.random() < .5 else p, index=idx)
        if not f0 or (idx or 0) >= len(f0) or not isinstance(f0[0], MF):
            must_fail(self.rep, 'PropToClip:bad', f'PropToClip {p} of {c.desc}', mk)
            return None
        fr = [f.props.get(p) for f in c.frames]
        a = f0[0].f
        ok = [bool(x) and isinstance(x[0], MF) and x[0].f.fmt == a.fmt and (x[0].f.w, x[0].f.h) == (a.w, a.h) for x in fr]
        node = mk()
        if not all(ok):
            i = ok.index(False)
            if not isinstance(node.getmany([i])[0], VSError):
                self.rep.viol('PropToClip:missing', f'PropToClip({c.desc},{p}) delivered frame {i} from nothing')
            return None
        return MC(node, [x[0] for x in fr], c.fps, f'PropToClip({c.desc},{p})')

    def eval(self):
        c, rng, core = self.pick(), self.rng, self.core
        cand = [self.pick() for _ in range(rng.randint(1, 3))]
        ps = [self.pick() for _ in range(rng.choice([0, 0, 1, 2]))]
        mode = rng.choice(['ok', 'ok', 'ok', 'error', 'notclip', 'badsize', 'badformat'])
        if mode == 'badsize':
            other = self.source(dims=(self.dims[0] + (1 << self.fmt.ssw), self.dims[1]))
        elif mode == 'badformat':
            f2 = Fmt(GRAY, 0, 9 if self.fmt.bits != 9 else 10)
            other = self.source(fmt=f2, dims=self.dims)
        bad = set(rng.sample(range(c.n), rng.randint(1, c.n))) if mode != 'ok' else set()
        seen = []

        def sel(n):
            q = n
            for s in ps:
                q += s.get(n).props.get('n', [1])[0] if isinstance(s.get(n).props.get('n', [1])[0], int) else 0
            return cand[q % len(cand)]

        # the callback sees the same numbers through its arguments
        ser = Serial(rng, self.rep, 'FrameEval')

        def cb(a):
            with ser:
                return cb1(a)

        def cb1(a):
            n = a['n'][0]
            fs = a.get('f', [])
            seen.append((n, len(fs)))
            q = n
            for f in fs:
                v = f.props.get('n', [1])[0]
                q += v if isinstance(v, int) else 0
            if n in bad:
                if mode == 'error':
                    raise ValueError('no frame %d' % n)
                if mode == 'notclip':
                    return {'val': 5}
                return other.node
            return cand[q % len(cand)].node
        node = core.clip('FrameEval', clip=c.node, eval=core.func(cb), prop_src=[s.node for s in ps] or None, clip_src=[x.node for x in cand] if rng.random() < .5 else None)
        desc = f'FrameEval({c.desc},{[x.desc for x in cand]},prop_src={[x.desc for x in ps]})'
        if mode != 'ok':
            for i, f in enumerate(node.getmany(list(range(c.n)))):
                if i in bad:
                    if not isinstance(f, VSError):
                        self.rep.viol('FrameEval:' + mode, f'{desc}: frame {i} was delivered although the function gave no suitable clip')
                    elif mode == 'error' and f'no frame {i}' not in str(f):
                        self.rep.viol('FrameEval:message', f'{desc}: frame {i} failed with {f} instead of the message of the function')
                    self.rep.count('rejected')
                elif isinstance(f, VSError):
                    self.rep.viol('FrameEval:error', f'{desc}: frame {i}: {f}')
            return None
        r = MC(node, [sel(i).get(i) for i in range(c.n)], c.fps, desc)
        node.getmany(list(range(c.n)))
        for n, k in seen:
            if k != len(ps) or not 0 <= n < c.n:
                self.rep.viol('FrameEval:arguments', f'{desc}: the function was called for frame {n} with {k} frames')
        return r

    def modify(self):
        c, rng, core = self.pick(), self.rng, self.core
        cl = [self.pick() for _ in range(rng.choice([1, 1, 2, 3]))]
        mode = rng.choice(['pass', 'new', 'new', 'error', 'notframe', 'badsize'])
        which = rng.randrange(len(cl))
        key = rng.choice(NAMES)
        fmt = self.fmt
        bad = set(rng.sample(range(c.n), rng.randint(1, c.n))) if mode in ('error', 'notframe', 'badsize') else set()
        big = core.frame(fmt, rand_planes(rng, self.nrng, fmt, self.dims[0] + (1 << fmt.ssw), self.dims[1]))
        wrong = []

        ser = Serial(rng, self.rep, 'ModifyFrame')

        def cb(a):
            with ser:
                return cb1(a)

        def cb1(a):
            n, fs = a['n'][0], a['f']
            for f, x in zip(fs, cl):
                if normp(f.props) != normp(x.get(n).props):
                    wrong.append((n, len(fs)))
            if len(fs) != len(cl):
                wrong.append((n, len(fs)))
            if n in bad:
                if mode == 'error':
                    raise ValueError('no frame %d' % n)
                return {'val': 5 if mode == 'notframe' else big}
            f = fs[which]
            if mode == 'new':
                p = dict(f.props)
                p.pop('aclip', None)
                p[key] = [n * 7]
                return core.frame(fmt, [q[::-1] for q in f.planes], p)
            return f
        node = core.clip('ModifyFrame', clip=c.node, clips=[x.node for x in cl], selector=core.func(cb))
        desc = f'ModifyFrame({c.desc},{[x.desc for x in cl]},{mode})'
        res = node.getmany(list(range(c.n)))
        if wrong:
            self.rep.viol('ModifyFrame:arguments', f'{desc}: wrong frames for the selector: {wrong[:3]}')
        for i, f in enumerate(res):
            if i in bad:
                if not isinstance(f, VSError):
                    self.rep.viol('ModifyFrame:' + mode, f'{desc}: frame {i} was delivered although the function returned nothing suitable')
                elif mode == 'error' and f'no frame {i}' not in str(f):
                    self.rep.viol('ModifyFrame:message', f'{desc}: frame {i} failed with {f} instead of the message of the function')
                self.rep.count('rejected')
            elif isinstance(f, VSError):
                self.rep.viol('ModifyFrame:error', f'{desc}: frame {i}: {f}')
        if bad:
            return None
        if mode == 'pass':
            return MC(node, [cl[which].get(i) for i in range(c.n)], c.fps, desc)
        fr = []
        for i in range(c.n):
            s = cl[which].get(i)
            p = {k: v for k, v in s.props.items() if k != 'aclip'}
            p[key] = [i * 7]
            fr.append(MF(core.frame(fmt, [q[::-1] for q in s.f.planes]), p))
        return MC(node, fr, c.fps, desc)


def verify(rep, rng, c):
    ns = list(range(c.n))
    rng.shuffle(ns)
    ns += [rng.randrange(c.n) for _ in range(3)]
    key = 'frameprops:' + c.desc.split('(')[0]
    for i, f in zip(ns, fetch(rep, key, c.desc, c.node, ns)):
        if f is None:
            continue
        e = c.get(i)
        a, b = dict(normp(f.props)), dict(normp(e.props))
        if a != b:
            d = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
            rep.viol(key, f'{c.desc} frame {i}: properties differ in {d}: got {[str(a.get(k))[:80] for k in d]} expected {[str(b.get(k))[:80] for k in d]}')
        for p in range(f.fmt.np):
            cmp_exact(rep, key + ':content', f'{c.desc} frame {i} plane {p}', f.planes[p], e.f.planes[p])
        rep.ev(1, (c.desc.split('(')[0], c.n, i, len(a)))


def case(core, rng, nrng, rep, k, opts):
    g = Gen(core, rng, nrng, rep)
    for _ in range(rng.choice([1, 2, 4, 8])):
        g.op()
        # only clips of the common format go on being combined
        keep = g.pool[-1]
        if keep.frames[0].f.fmt != g.fmt or (keep.frames[0].f.w, keep.frames[0].f.h) != g.dims:
            verify(rep, rng, keep)
            g.pool.pop()
    for c in g.pool[-4:]:
        verify(rep, rng, c)
