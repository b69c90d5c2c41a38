"""P05: what the Python objects say about formats, nodes, plugins, functions and the core, and the messages handlers get, against a model."""
import gc, inspect, keyword, os, threading, time, typing, weakref
from fractions import Fraction
import vapoursynth as vs

HERE = os.path.dirname(os.path.dirname(os.path.dirname(vs.__file__)))
SO = os.path.join(HERE, 'echo.so')


class Policy(vs.EnvironmentPolicy):
    def __init__(self):
        self.cur = None

    def on_policy_registered(self, api):
        self.api = api

    def get_current_environment(self):
        return self.cur

    def set_environment(self, env):
        p, self.cur = self.cur, env
        return p


policy = Policy()
vs.register_policy(policy)


class Env:
    def __init__(self, flags):
        self.flags = int(flags)
        self.data = policy.api.create_environment(self.flags)
        self.wrap = policy.api.wrap_environment(self.data)
        self.base = []
        self.ndef = 0
        self.nhandlers = 0
        with self.wrap.use():
            self.first = vs.core.add_log_handler(lambda t, m: self.base.append((int(t), m)))     # takes what waited until now
            vs.core.std.LoadPlugin(SO)
        self.defined = {}


ENVS = {}


def env_for(rng):
    fl = rng.choice([0, int(vs.ENABLE_GRAPH_INSPECTION)])
    if fl not in ENVS:
        ENVS[fl] = Env(fl)
    return ENVS[fl]


# ---------------------------------------------------------------- formats
FAM = {1: vs.GRAY, 2: vs.RGB, 3: vs.YUV}
SUB = {(1, 1): '420', (1, 0): '422', (0, 0): '444', (2, 2): '410', (2, 0): '411', (0, 1): '440'}


def valid(cf, st, bits, sw, sh):
    return cf in (1, 2, 3) and (st == 0 and 8 <= bits <= 32 or st == 1 and bits in (16, 32)) and (0 <= sw <= 4 and 0 <= sh <= 4 if cf == 3 else sw == sh == 0)


def fname(cf, st, bits, sw, sh):
    suf = ('H' if bits == 16 else 'S') if st else str(bits)
    if cf == 1:
        return 'Gray' + suf
    if cf == 2:
        return 'RGB' + (suf if st else str(3 * bits))
    p = SUB.get((sw, sh))
    return f'YUV{p}P{suf}' if p else f'YUVssw{sw}ssh{sh}P{suf}'


def rand_fmt(rng):
    while True:
        st = rng.choice([0, 0, 1])
        t = rng.choice([1, 2, 3, 3]), st, rng.choice([16, 32]) if st else rng.randint(8, 32), rng.choice([0, 0, 1, 1, 2, 3, 4]), rng.choice([0, 0, 1, 2, 3, 4])
        if t[0] != 3:
            t = t[:3] + (0, 0)
        if valid(*t):
            return t


def check_format(rep, f, t, what):
    cf, st, bits, sw, sh = t
    want = dict(id=cf << 28 | st << 24 | bits << 16 | sw << 8 | sh, name=fname(*t), color_family=FAM[cf], sample_type=vs.SampleType(st), bits_per_sample=bits,
                bytes_per_sample=1 if bits <= 8 else 2 if bits <= 16 else 4, subsampling_w=sw, subsampling_h=sh, num_planes=1 if cf == 1 else 3)
    for k, v in want.items():
        rep.eq('format:' + k, getattr(f, k), v, f'{k} of {what}')
    rep.eq('format:enum', (type(f.color_family), type(f.sample_type)), (vs.ColorFamily, vs.SampleType), f'the types of {what}')
    rep.eq('format:dict', f._as_dict(), want, f'{what} as a dictionary')
    rep.eq('format:int', (int(f), hash(f)), (want['id'], hash(want['id'])), f'int and hash of {what}')
    r = repr(f)
    for k, v in want.items():
        if f'{k}={v.name if hasattr(v, "name") else v}' not in r.replace('>', ', ').replace(' ', ',').split(','):
            rep.viol('format:repr', f'{r} does not say {k}={v}')
    s = str(f).splitlines()
    rep.eq('format:str', [x.split(': ')[-1] for x in s[1:]], [str(want['id']), want['name'], want['color_family'].name, want['sample_type'].name, str(bits), str(want['bytes_per_sample']), str(want['num_planes']),
                                                              f'{1 << sw}x' if sw else 'None', f'{1 << sh}x' if sh else 'None'], f'text of {what}')


def formats(env, rng, rep):
    core = vs.core
    t = rand_fmt(rng)
    q = lambda t: core.query_video_format(FAM.get(t[0], t[0]) if rng.random() < .5 else t[0], *t[1:])
    f = q(t)
    check_format(rep, f, t, f'format {t}')
    g = core.get_video_format(f.id)
    check_format(rep, g, t, f'format {t} by id')
    rep.eq('format:eq', (f == g, f != g, f == f.id, f == None, len({f, g})), (True, False, False, False, 1), f'equality of {f.name}')
    u = rand_fmt(rng)
    h = q(u)
    rep.eq('format:eq', f == h, t == u, f'equality of {f.name} and {h.name}')
    for m in vs.PresetVideoFormat:
        if int(m) == f.id:
            rep.eq('format:preset', m.name.lower() in (f.name.lower(), 'none'), True, f'the name of the preset {m.name}')
            rep.eq('format:preset', core.get_video_format(m) == f, True, f'preset {m.name}')
            rep.count('presets')
    # replace
    names = ['color_family', 'sample_type', 'bits_per_sample', 'subsampling_w', 'subsampling_h']
    ch = {k: x for k, x in zip(names, rand_fmt(rng) if rng.random() < .7 else (rng.randint(1, 3), rng.randint(-1, 2), rng.randint(5, 40), rng.randint(-1, 5), rng.randint(-1, 5))) if rng.random() < .5}
    w = tuple(ch.get(k, x) for k, x in zip(names, t))
    if rng.random() < .3:
        core_arg = {'core': core.core}
    else:
        core_arg = {}
    if valid(*w):
        check_format(rep, f.replace(**ch, **core_arg), w, f'{f.name}.replace({ch})')
    else:
        rep.raises('format:replace', vs.Error, lambda: f.replace(**ch, **core_arg), f'{f.name}.replace({ch})')
    rep.raises('format:replace', TypeError, lambda: f.replace(nothing=1), 'replace(nothing=1)')
    for k in rng.sample(names + ['id', 'name', 'num_planes'], 2):
        rep.raises('format:readonly', AttributeError, lambda: setattr(f, k, 1), f'changing {k}')
    t = rng.randint(1, 3), rng.choice([-1, 0, 1, 2]), rng.choice([0, 7, 8, 16, 24, 32, 33, 64, -8, rng.randint(0, 40)]), rng.randint(-1, 5), rng.randint(-1, 5)
    if rng.random() < .2:
        t = (rng.choice([4, 5, 9, -1]),) + t[1:]
    if valid(*t):
        check_format(rep, q(t), t, f'format {t}')
    else:
        rep.raises('format:invalid', vs.Error, lambda: core.query_video_format(*t), f'query_video_format{t}')
        if all(x >= 0 for x in t):
            i = t[0] << 28 | t[1] << 24 | t[2] << 16 | t[3] << 8 | t[4]
            if i < 2**32:
                rep.raises('format:invalid', vs.Error, lambda: core.get_video_format(i), f'get_video_format of the id {t} would have')
    # frames of the format
    t = rand_fmt(rng)
    w, h = rng.randint(1, 9) << t[3], rng.randint(1, 9) << t[4]
    fr = core.create_video_frame(q(t).id, w, h)
    check_format(rep, fr.format, t, 'the format of a new frame')
    rep.eq('frame:dims', (fr.width, fr.height, len(fr), fr.readonly, fr.closed), (w, h, 1 if t[0] == 1 else 3, False, False), 'a new frame')
    rep.eq('frame:text', all(x in str(fr) for x in (f'Format: {fname(*t)}\n', f'Width: {w}\n', f'Height: {h}\n', 'Readonly: False\n')), True, f'text {str(fr)!r} of {fname(*t)} {w}x{h}')
    rep.eq('frame:text', all(x in repr(fr) for x in (f'format={fname(*t)}', f'width={w}', f'height={h}', 'readonly=False')), True, f'{fr!r}')
    b = rng.choice([(0, h), (w, 0), (-1, h), (w, -5), (0, 0)])
    rep.raises('frame:create', (vs.Error, ValueError), lambda: core.create_video_frame(fr.format.id, *b), f'a frame of {b[0]}x{b[1]}')
    rep.raises('frame:create', (vs.Error, ValueError), lambda: core.create_video_frame(rng.choice([0x10070000, 0x1a080000, 0x40080000, 0x13080000]), w, h), 'a frame of an unknown format')
    rep.ev(0, ('format', t))


# ---------------------------------------------------------------- nodes
def layout_of(m):
    return [c for c in vs.AudioChannels if m >> int(c) & 1]


def check_layout(rep, L, m, what):
    rep.eq('layout:value', (int(L), len(L)), (m, bin(m).count('1')), what)
    rep.eq('layout:iter', list(L), layout_of(m), f'channels of {what}')
    rep.eq('layout:contains', [i in L for i in range(64)], [bool(m >> i & 1) for i in range(64)], f'contents of {what}')
    rep.eq('layout:text', ', '.join(c.name for c in layout_of(m)) in str(L), True, f'{L!s}')


def check_video(rep, n, w, h, t, nf, fps, what):
    rep.eq('node:dims', (n.width, n.height, n.num_frames, len(n), n.fps_num, n.fps_den), (w, h, nf, nf) + fps, what)
    rep.eq('node:fps', (n.fps, type(n.fps)), (Fraction(*fps) if fps[1] else Fraction(0), Fraction), f'frame rate of {what}')
    if t:
        check_format(rep, n.format, t, 'the format of ' + what)
    d = lambda v, x: x if v else 'dynamic'
    both = w and h
    name = fname(*t) if t else None
    for x in [f'Width: {d(both, w)}\n', f'Height: {d(both, h)}\n', f'Num Frames: {nf}\n', f'FPS: {d(n.fps, n.fps)}\n'] + ([f'Format: {name}\n'] if t else []):
        if x not in str(n):
            rep.viol('node:text', f'{str(n)!r} does not say {x!r}')
    for x in [f'width={d(both, w)}', f'height={d(both, h)}', f'num_frames={nf}', f'fps={d(n.fps, n.fps)}'] + ([f'format={name}'] if t else []):
        if x not in repr(n):
            rep.viol('node:text', f'{n!r} does not say {x}')


def nodes(env, rng, rep):
    core = vs.core
    insp = bool(env.flags)
    t = rand_fmt(rng)
    while t[2] > 16 and not t[1] or t[2] < 8:      # what BlankClip, Trim and Splice take
        t = rand_fmt(rng)
    f = core.query_video_format(*t)
    w, h, nf = rng.randint(1, 9) << t[3], rng.randint(1, 9) << t[4], rng.choice([1, 2, 100, 2**31 - 1, rng.randint(1, 1000)])
    num, den = rng.choice([(25, 1), (24000, 1001), (0, 0), (2**31, 1), (rng.randint(1, 10**6), rng.randint(1, 10**6))])
    kw = {} if not num else dict(fpsnum=num, fpsden=den)
    if not num:
        kw = dict(fpsnum=0, fpsden=1)
    fps = (Fraction(num, den).numerator, Fraction(num, den).denominator) if num else (0, 0)
    a = core.std.BlankClip(width=w, height=h, format=f.id, length=nf, **kw)
    what = f'a {f.name} clip of {w}x{h}, {nf} frames at {fps}'
    check_video(rep, a, w, h, t, nf, fps, what)
    rep.raises('node:readonly', AttributeError, lambda: setattr(a, rng.choice(['width', 'num_frames', 'format', 'fps', 'node_name']), 1), 'changing a clip')
    rep.raises('node:create', vs.Error, lambda: rng.choice([vs.VideoNode, vs.AudioNode, vs.VideoFrame, vs.AudioFrame, vs.VideoFormat, vs.Core, vs.Plugin, vs.Function])(), 'creating an object directly')
    # derived from it
    k = rng.randint(1, nf)
    b = a.std.Trim(length=k)
    check_video(rep, b, w, h, t, k, fps, f'the first {k} frames of {what}')
    u = t
    while u == t:
        u = rand_fmt(rng)
        if u[2] > 16 and not u[1]:
            u = t
    w2, h2 = rng.choice([(w, h), (w + 16, h), (w, h + 16)])
    c2 = core.std.BlankClip(width=max(16, w2 >> 4 << 4) if u[3] or u[4] else w2, height=max(16, h2 >> 4 << 4) if u[3] or u[4] else h2, format=core.query_video_format(*u).id, length=3, fpsnum=fps[0] or 7, fpsden=fps[1] or 1)
    v = core.std.Splice([a.std.Trim(length=min(nf, 2)), c2], mismatch=True)
    same = (c2.width, c2.height) == (w, h)
    check_video(rep, v, w if same else 0, h if same else 0, None, min(nf, 2) + 3, fps if (c2.fps_num, c2.fps_den) == fps else (0, 0), f'{what} followed by {c2!r}')
    rep.eq('node:variable', bool(v.format is None or int(v.format) == 0), True, f'format of a clip of several formats: {v.format!r}')
    # audio
    m = rng.choice([1, 3, 4, 0x63f, rng.getrandbits(18) or 1, 1 << rng.randrange(18), rng.getrandbits(36) & 0xfe003ffff | 1])
    st, bits = rng.choice([(0, 16), (0, 24), (0, 32), (1, 32), (0, rng.randint(16, 32))])
    n, rate = rng.choice([1, 3072, 3073, rng.randint(1, 10**6), 2**33]), rng.choice([8000, 44100, 48000, 192000])
    au = core.std.BlankAudio(channels=[int(c) for c in layout_of(m)] if len(layout_of(m)) == bin(m).count('1') else [0], bits=bits, sampletype=st, samplerate=rate, length=n)
    m = m if len(layout_of(m)) == bin(m).count('1') else 1
    wa = f'an audio clip of {n} samples of {"float" if st else "int"}{bits} with the channels {m:#x} at {rate} Hz'
    rep.eq('audio:info', (au.sample_type, type(au.sample_type), au.bits_per_sample, au.bytes_per_sample, au.channel_layout, au.num_channels, au.sample_rate, au.num_samples, au.num_frames),
           (vs.SampleType(st), vs.SampleType, bits, 2 if bits == 16 else 4, m, bin(m).count('1'), rate, n, -(-n // 3072)), wa)
    if n < 2**31:
        rep.eq('audio:len', len(au), n, 'length of ' + wa)
    check_layout(rep, au.channels, m, 'the layout of ' + wa)
    chn = ', '.join(c.name for c in layout_of(m))
    rep.eq('audio:text', all(x in str(au) for x in (f'Sample Type: {vs.SampleType(st).name}\n', f'Bits Per Sample: {bits}\n', f'Num Channels: {bin(m).count("1")}\n', f'Channels: {chn}\n', f'Sample Rate: {rate}\n', f'Num Samples: {n}\n')), True, f'{str(au)!r}')
    fr = au.get_frame(rng.choice([0, au.num_frames - 1]))
    rep.eq('audioframe:info', (fr.sample_type, fr.bits_per_sample, fr.bytes_per_sample, fr.channel_layout, fr.num_channels, len(fr)), (vs.SampleType(st), bits, 2 if bits == 16 else 4, m, bin(m).count('1'), bin(m).count('1')), 'a frame of ' + wa)
    check_layout(rep, fr.channels, m, 'the layout of a frame of ' + wa)
    fr.close()
    # identity
    x = core.echo.Any(clip=b)
    x = x['clip'] if isinstance(x, dict) else x
    one = k == nf      # Trim gives the clip itself then
    rep.eq('node:eq', (b == b, b == x, b == a, a == None, a == 5, au == a), (True, insp, insp and one, False, False, False), f'equality with inspection {insp}')
    t1, t2 = b.std.FlipVertical(), b.std.FlipVertical()
    rep.eq('node:eq', (t1 == t2, t1 != t2, t1 == t1, len({t1, t2}), [t1, t2].index(t2)), (False, True, True, 2, 1), f'two clips made by the same call, with inspection {insp}')
    if insp:
        rep.eq('node:hash', hash(b) == hash(x), True, 'hash of equal clips')
        rep.eq('node:hash', len({a, b, x, au}), 2 + (not one), 'a set of clips')
    else:
        rep.eq('node:hash', len({a, b, x, au, a}), 4, 'a set of clips')
    # inspection
    rep.eq('inspect:able', (bool(a.is_inspectable(0)), a.is_inspectable(1), a.is_inspectable(), a.is_inspectable('0')), (insp, False, False, False), 'is_inspectable')
    rep.eq('inspect:name', (a.node_name, b.node_name, au.node_name), ('BlankClip', 'Trim' if k != nf else 'BlankClip', 'BlankAudio'), 'names of the filters')
    rep.eq('inspect:mode', (type(a.mode), b.mode), (vs.FilterMode, vs.PARALLEL if k != nf else a.mode), 'filter modes')
    s = core.std.StackHorizontal([a, a.std.FlipVertical(), a])
    d = s.dependencies
    rep.eq('inspect:deps', (type(d), [x.node_name for x in d], len(a.dependencies)), (tuple, ['BlankClip', 'FlipVertical', 'BlankClip'], 0), 'dependencies of stacked clips')
    if insp:
        rep.eq('inspect:deps', (d[0] == a, d[2] == a, d[1] == a, d[1].dependencies[0] == a), (True, True, False, True), 'dependencies of stacked clips')
    for y, fn, args in ((a, 'BlankClip', dict(width=w, height=h, format=f.id, length=nf, **kw)), (au, 'BlankAudio', None), (s, 'StackHorizontal', None)):
        if insp:
            rep.eq('inspect:creation', (y._name, y._plugin_ns, y._plugin_id), (fn, 'std', 'com.vapoursynth.std'), f'what created {fn}')
            if args:
                rep.eq('inspect:inputs', dict(y._inputs), args, f'arguments of {fn}')
            elif fn == 'StackHorizontal':
                i = dict(y._inputs)
                rep.eq('inspect:inputs', (list(i), len(i['clips']), i['clips'][0] == a, i['clips'][1] == d[1]), (['clips'], 3, True, True), f'arguments of {fn}')
        else:
            for at in ('_name', '_plugin_ns', '_plugin_id', '_inputs'):
                rep.raises('inspect:disabled', vs.Error, lambda: getattr(y, at), f'{at} without inspection')
    # plugins of nodes
    for y, ty in ((a, ':vnode'), (au, ':anode')):
        inj = lambda fn: ';' in fn.signature and fn.signature.split(';')[0].find(ty) == fn.signature.find(':') > 0
        want = {p.namespace for p in core.plugins() if any(inj(fn) for fn in p.functions())}
        ns = {p.namespace for p in core.plugins()}
        rep.eq('bound:plugins', set(dir(y)) & ns, want, f'namespaces of {type(y).__name__}')
        for p in core.plugins():
            bp = getattr(y, p.namespace)
            rep.eq('bound:functions', sorted(dir(bp)), sorted(fn.name for fn in p.functions() if inj(fn)), f'functions of {p.namespace} bound to {type(y).__name__}')
        rep.raises('bound:missing', AttributeError, lambda: y.nosuchthing, 'an unknown namespace')
    rep.ev(0, ('node', t, m, st, bits, insp))


# ---------------------------------------------------------------- plugins and functions
TYPES = {'int': int, 'float': float, 'data': typing.Union[str, bytes, bytearray], 'vnode': vs.VideoNode, 'anode': vs.AudioNode, 'vframe': vs.VideoFrame, 'aframe': vs.AudioFrame, 'func': typing.Union[vs.Func, typing.Callable]}


def sig_model(sig, skip):
    ps = []
    for x in sig.split(';'):
        if not x:
            continue
        if x == 'any':
            ps.append(('kwargs', 'VAR_KEYWORD', inspect.Parameter.empty, typing.Any))
            continue
        n, t, *o = x.split(':')
        arr = t.endswith('[]')
        t = TYPES[t.removesuffix('[]')]
        if arr:
            t = typing.Union[t, typing.Sequence[t]]
        if o:
            t = typing.Optional[t]
        ps.append((n + '_' if keyword.iskeyword(n) else n, 'POSITIONAL_OR_KEYWORD', None if o else inspect.Parameter.empty, t))
    ps = ps[1:] if skip else ps
    for i, x in enumerate(ps):      # what Python can't express positionally
        if x[1] == 'POSITIONAL_OR_KEYWORD' and x[2] is inspect.Parameter.empty and any(y[2] is None for y in ps[:i]):
            return ps[:i] + [(y[0], 'KEYWORD_ONLY' if y[1] != 'VAR_KEYWORD' else y[1]) + y[2:] for y in ps[i:]]
    return ps


def plugins(env, rng, rep):
    core = vs.core
    # a function of our own
    env.ndef += 1
    if len(env.defined) < 150:
        name = rng.choice(['F', 'get', 'a_', 'Z9x']) + str(env.ndef)
        keys = rng.sample(['a', 'b2', 'clip', 'lambda', 'in', 'class', 'x_y', 'None', 'Clip', 'from'], rng.randint(0, 5))
        sig = ''.join(f'{k}:{rng.choice(list(TYPES))}{rng.choice(["", "[]"])}{rng.choice(["", ":opt", ":opt"])};' for k in keys)
        if rng.random() < .3:
            sig += 'any'
        core.echo.Define(name, sig)
        env.defined[name] = sig
    ps = list(core.plugins())
    ns = [p.namespace for p in ps]
    rep.eq('plugins:known', {'std', 'echo'} <= set(ns) and len(set(ns)) == len(ns), True, f'{ns}')
    rep.eq('plugins:dir', set(ns) <= set(dir(core)), True, 'the namespaces in dir(core)')
    for p in ps:
        q = getattr(core, p.namespace)
        rep.eq('plugins:same', (q.identifier, q.namespace, q.name, tuple(q.version), q.plugin_path), (p.identifier, p.namespace, p.name, tuple(p.version), p.plugin_path), f'{p.namespace} by name and in the list')
        rep.eq('plugins:repr', ('bound=Core' in repr(q), f'version={q.version!r}'.replace(' ', '') in repr(q).replace(' ', '')), (True, True), repr(q))
        fs = list(p.functions())
        fn = [f.name for f in fs]
        rep.eq('functions:names', (len(set(fn)), sorted(dir(p))), (len(fn), sorted(fn)), f'functions of {p.namespace}')
        if p.namespace == 'echo':
            rep.eq('functions:set', set(fn), set(env.defined) | {'Define', 'Any', 'Call', 'EmptyProps', 'Fail'}, 'functions of echo')
        for f in rng.sample(fs, min(len(fs), 6)):
            g = getattr(p, f.name)
            rep.eq('functions:same', (g.name, g.signature, g.return_signature, g.plugin.namespace), (f.name, f.signature, f.return_signature, p.namespace), f'{p.namespace}.{f.name}')
            if p.namespace == 'echo' and f.name in env.defined:
                norm = lambda s: [x for x in s.split(';') if x]
                rep.eq('functions:signature', norm(f.signature), norm(env.defined[f.name]), f'signature of {f.name}')
            s = inspect.signature(f)
            rep.eq('functions:parameters', [(x.name, x.kind.name, x.default, x.annotation) for x in s.parameters.values()], sig_model(f.signature, False), f'parameters of {f.name}({f.signature})')
            ret = [x for x in f.return_signature.split(';') if x]
            if len(ret) == 1:
                rep.eq('functions:return', s.return_annotation, sig_model(ret[0] + ';', False)[0][3] if ret[0] != 'any' else typing.Any, f'return type of {f.name} ({f.return_signature})')
            elif not ret:
                rep.eq('functions:return', s.return_annotation, None, f'return type of {f.name}')
            else:
                rep.eq('functions:return', dict(s.return_annotation.__annotations__), {x[0]: x[3] for x in sig_model(f.return_signature, False)}, f'return type of {f.name}')
            rep.eq('functions:repr', 'bound=Core' in repr(f), True, repr(f))
    e = core.echo
    rep.eq('plugins:echo', (e.identifier, e.name, tuple(e.version), e.version.major, e.version.minor, os.path.realpath(e.plugin_path)), ('com.verif.echo', 'returns arguments', (3, 7), 3, 7, os.path.realpath(SO)), 'the description of a plugin')
    rep.eq('plugins:std', (core.std.identifier, core.std.namespace), ('com.vapoursynth.std', 'std'), 'the std plugin')
    rep.raises('plugins:missing', AttributeError, lambda: getattr(core, rng.choice(['nosuch', 'Std', 'st', 'stdd', ''])), 'an unknown namespace')
    rep.raises('functions:missing', AttributeError, lambda: getattr(core.std, rng.choice(['nosuch', 'blankclip', 'BlankCli', 'BlankClipp', ''])), 'an unknown function')
    # the first argument is taken by what a function is bound to
    v = core.std.BlankClip(width=8, height=8, length=2, format=vs.GRAY8)
    fs = [f for f in core.std.functions() if f.signature.split(':')[1:2] == ['vnode'] or f.signature.split(':')[1:2] == ['vnode;']]
    fs = [f for f in core.std.functions() if f.signature.split(';')[0].split(':')[1:2] == ['vnode']]
    f = rng.choice(fs)
    g = getattr(v.std, f.name)
    rep.eq('bound:parameters', [(x.name, x.kind.name, x.default, x.annotation) for x in inspect.signature(g).parameters.values()], sig_model(f.signature, True), f'parameters of the bound {f.name}({f.signature})')
    rep.eq('bound:repr', ('bound=VideoNode' in repr(g), 'bound=VideoNode' in repr(v.std), 'bound=Core' in repr(core.std)), (True, True, True), repr(g))
    rep.ev(0, ('plugins', len(ps), env.ndef))


# ---------------------------------------------------------------- the core
class Handler:
    def __init__(self, i):
        self.i, self.got, self.want, self.threads = i, [], [], set()
        self.bad = False

    def __call__(self, t, m):
        self.got.append((int(t), m))
        self.threads.add(threading.get_ident())
        if self.bad:
            raise ValueError('a handler that fails')


def handlers(env, rng, rep):
    """every message arrives once, in order, at every handler that is installed, and nothing at the others"""
    core = vs.core
    live, gone, n = [], [], 0
    types = [vs.MESSAGE_TYPE_DEBUG, vs.MESSAGE_TYPE_INFORMATION, vs.MESSAGE_TYPE_WARNING, vs.MESSAGE_TYPE_CRITICAL]
    hist = []
    for _ in range(rng.randint(5, 30)):
        r = rng.random()
        if r < .25 and len(live) < 6:
            h = Handler(env.nhandlers)
            env.nhandlers += 1
            lh = core.add_log_handler(h)
            h.want.append((int(vs.MESSAGE_TYPE_DEBUG), 'New message handler installed from python'))
            live.append((h, lh))
            hist.append('+')
        elif r < .4 and live:
            h, lh = live.pop(rng.randrange(len(live)))
            rep.eq('log:remove', bool(core.remove_log_handler(lh)), True, 'removing a handler')
            gone.append((h, lh))
            hist.append('-')
        elif r < .48 and gone:
            rep.eq('log:again', bool(core.remove_log_handler(rng.choice(gone)[1])), False, 'removing a handler again')
            hist.append('=')
        elif r < .51:
            rep.raises('log:none', (TypeError, vs.Error, ValueError), lambda: core.remove_log_handler(rng.choice([None, 5])), 'removing what is no handler')
        elif r < .56 and gone:      # the memory of removed handlers is free for others
            gone.pop(rng.randrange(len(gone)))
            gc.collect()
        else:
            m = (int(rng.choice(types)), rng.choice([f'message {env.nhandlers} {n}', '', 'ünïcödé \U0001f600 %s %n', 'x' * rng.randint(1, 3000), 'two\nlines']))
            n += 1
            ty = vs.MessageType(m[0]) if rng.random() < .5 else m[0]
            if rng.random() < .3:
                th = threading.Thread(target=core.core.log_message, args=(ty, m[1]))
                th.start()
                th.join()
            else:
                core.log_message(ty, m[1])
            for h, _ in live:
                h.want.append(m)
            hist.append('m')
            rep.eq('log:base', env.base[-1], m, 'the last message at the handler that is always there')
        for h, _ in live + gone:
            rep.eq('log:delivery', len(h.got), len(h.want), f'number of messages of a handler after {"".join(hist)}')
    for h, _ in live + gone:
        rep.eq('log:content', h.got, h.want, f'messages of a handler after {"".join(hist)}')
    refs = []
    for h, lh in live:
        refs.append(weakref.ref(h))
        rep.eq('log:remove', bool(core.remove_log_handler(lh)), True, 'removing a handler at the end')
    refs += [weakref.ref(h) for h, _ in gone]
    h = lh = _ = None
    live.clear()
    gone.clear()
    gc.collect()
    rep.eq('log:freed', [x() for x in refs], [None] * len(refs), 'handlers that were removed are freed')
    del env.base[:-1]
    rep.count('log_messages', n)
    rep.ev(0, ('log', ''.join(hist)))


def settings(env, rng, rep):
    core = vs.core
    for _ in range(rng.randint(1, 4)):
        n = rng.choice([1, 2, 3, 7, 0, -1, -5])
        core.num_threads = n
        rep.eq('core:threads', core.num_threads, n if n >= 1 else os.cpu_count() if n < 1 else n, f'threads after setting {n}') if n >= 1 else rep.eq('core:threads', core.num_threads >= 1, True, f'threads after setting {n}')
        if n < 1:
            env.hw = getattr(env, 'hw', core.num_threads)
            rep.eq('core:threads', core.num_threads, env.hw, f'number of hardware threads after setting {n}')
    core.num_threads = 2
    for _ in range(2):
        mb = rng.choice([1, 100, 4000, 2**31 - 1, rng.randint(1, 10**6)])
        core.max_cache_size = mb
        rep.eq('core:cache', core.max_cache_size, mb, f'cache limit after setting {mb}')
        rep.raises('core:cache', (ValueError, OverflowError), lambda: setattr(core.core, 'max_cache_size', rng.choice([0, -1, -2**31, 2**31])), 'a cache limit that is no positive number')
        rep.eq('core:cache', core.max_cache_size, mb, 'cache limit after a bad value')
    core.max_cache_size = 1000
    gc.collect()    # nothing of earlier cases may be released in between; what worker threads still hold is released a little later
    for attempt in range(8):
        gc.disable()
        u = core.used_cache_size
        fr = [core.create_video_frame(vs.GRAY16, 640, 480) for _ in range(3)]
        t = core.used_cache_size
        for f in fr:
            f.close()
        v = core.used_cache_size
        gc.enable()
        if u == v:
            break
        time.sleep(0.1 * attempt)
    rep.eq('core:used', (t - u >= 3 * 640 * 480 * 2, v), (True, u), f'{u}, {t} and {v} bytes before, with and after three frames of 640x480')
    rep.eq('core:flags', core.flags, env.flags | (core.flags & ~int(vs.ENABLE_GRAPH_INSPECTION)), 'flags of the core')
    rep.eq('core:inspection', bool(core.flags & int(vs.ENABLE_GRAPH_INSPECTION)), bool(env.flags), 'flags of the core')
    rep.eq('core:version', (int(core.core_version.release_major), tuple(core.api_version)[0] == int(core.api_version.api_major) == 4), (int(vs.__version__.release_major), True), 'versions')
    s = str(core)
    rep.eq('core:text', ('Number of Threads: 2\n' in s, 'Max Cache Size: 1000\n' in s), (True, True), s)
    # times spent
    tm = core.timings
    tm.enabled = rng.random() < .5
    on = tm.enabled
    c = core.std.BlankClip(width=640, height=480, format=vs.YUV444P16, length=3).std.Invert()
    t0 = c.timings
    for i in range(3):
        c.get_frame(i).close()
    rep.eq('timing:node', (t0, c.timings > 0), (0, on), f'time of a filter with timing {on}')
    before = tm.freed_nodes
    own = c.timings
    rep.raises('timing:set', ValueError, lambda: setattr(c, 'timings', 1), 'setting a time')
    rep.raises('timing:set', ValueError, lambda: setattr(tm, 'freed_nodes', 1), 'setting a time')
    rep.eq('timing:kept', c.timings, own, 'the time after an attempt to set it')
    if rng.random() < .5:
        c.timings = 0
        rep.eq('timing:reset', c.timings, 0, 'time after a reset')
        own = 0
    del c
    gc.collect()
    rep.eq('timing:freed', tm.freed_nodes - before >= own, True, f'time of freed filters grew by {tm.freed_nodes - before}, the last one took {own}')
    tm.freed_nodes = 0
    rep.eq('timing:reset', tm.freed_nodes, 0, 'time of freed filters after a reset')
    tm.enabled = False
    rep.eq('timing:switch', tm.enabled, False, 'timing')
    rep.ev(0, ('settings', on, env.flags))


def case(rng, rep, k, opts):
    env = env_for(rng)
    with env.wrap.use():
        r = rng.random()
        f = formats if r < .3 else nodes if r < .55 else plugins if r < .65 else handlers if r < .9 else settings
        f(env, rng, rep)
        rep.count(f.__name__)
