"""P04: values passed to and returned from core and plugin functions and Python callbacks."""
import asyncio, enum, gc, inspect, keyword, os, sys, threading, weakref
from concurrent.futures import CancelledError
import vapoursynth as vs

core = vs.core
core.std.LoadPlugin(os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(vs.__file__))), 'echo.so'))
TYPES = ['int', 'float', 'data', 'vnode', 'anode', 'vframe', 'aframe', 'func']
V = [core.std.BlankClip(width=16, height=16, format=vs.GRAY8, length=i + 1, color=i) for i in range(3)]
A = [core.std.BlankAudio(length=i + 1) for i in range(3)]
defined = 0


class En(enum.IntEnum):
    X = 5


class Fl(enum.IntFlag):
    P = 1
    Q = 4


class Idx(float):
    pass


class Obj:
    def __str__(self):
        return 'an object'


class MyExit(BaseException):
    pass


def value(rng, t):
    """(what is passed, what arrives) for one scalar of the type"""
    if t == 'int':
        v = rng.choice([0, 1, -1, True, False, 2**63 - 1, -2**63, En.X, Fl.P | Fl.Q, vs.GRAY8, 2.75, -2.75, rng.randint(-10**12, 10**12), '17'])
        return v, int(v)
    if t == 'float':
        v = rng.choice([0., -0., 1.5, -1e300, 1e-310, float('inf'), float('nan'), 3, True, En.X, 2**53 + 1, Idx(2.5), '1.25'])
        return v, float(v)
    if t == 'data':
        v = rng.choice(['', 'x', 'a\0b', 'ünïcödé \U0001f600', b'', b'\x00\xff\xfe', bytearray(b'ab\0'), 'x' * rng.randint(1, 5000), 5, 1.5, Obj(), 'line\nbreak'])
        return v, v if isinstance(v, (str, bytes)) else bytes(v) if isinstance(v, bytearray) else str(v)
    if t == 'vnode':
        v = rng.choice(V)
    elif t == 'anode':
        v = rng.choice(A)
    elif t == 'vframe':
        v = rng.choice(V).get_frame(0)
        if rng.random() < .5:
            v = v.copy()
            v.props['id'] = rng.random()
            v[0][0, 0] = rng.randrange(256)
    elif t == 'aframe':
        v = rng.choice(A).get_frame(0)
    else:
        r = rng.random()
        v = lambda **kw: r
        v.ret = r
        if rng.random() < .3:
            fr = core.create_video_frame(vs.GRAY8, 1, 1)
            fr.props['f'] = v
            return fr.props['f'], v
    return v, v


def wrong(rng, t):
    """something a scalar of this type can't be made from"""
    if t == 'int':
        return rng.choice(['abc', V[0], 2**63, -2**63 - 1, float('nan'), float('inf'), object(), 1j])
    if t == 'float':
        return rng.choice(['abc', V[0], object(), 1j, 10**400])
    if t == 'data':
        return None
    return rng.choice([5, 'x', 1.5, object()] + {'vnode': [A[0], V[0].get_frame(0)], 'anode': [V[0]], 'vframe': [V[0], A[0].get_frame(0)], 'aframe': [A[0], V[0].get_frame(0)], 'func': [V[0]]}[t])


def arrives(g, w):
    """is g (seen by the callee or returned) the value w?"""
    if isinstance(w, (vs.VideoNode, vs.AudioNode)):
        return type(g) is type(w) and (g.num_frames if isinstance(g, vs.VideoNode) else g.num_samples) == (w.num_frames if isinstance(g, vs.VideoNode) else w.num_samples)
    if isinstance(w, vs.RawFrame):
        return type(g) is type(w) and len(g) == len(w) and all(bytes(x) == bytes(y) for x, y in zip(g.readchunks(), w.readchunks())) and dict(g.props) == dict(w.props) if isinstance(w, vs.VideoFrame) else \
            type(g) is type(w) and len(g) == len(w) and g[0].tobytes() == w[0].tobytes()
    if callable(w):
        return isinstance(g, vs.Func) and g() == w.ret
    if isinstance(w, float):
        return isinstance(g, float) and (g == w and str(g) == str(w) or g != g and w != w)
    return type(g) is type(w) and g == w if isinstance(w, (str, bytes)) else isinstance(g, int) and g == w


def flat(d):
    return {k: v for k, v in d.items()}


def judge(rep, key, got, want, what):
    """want: dict of lists of what should arrive; got: what came back"""
    rep.evals += 1
    want = {k: v for k, v in want.items()}
    if len(want) == 0:
        if got is not None:
            rep.viol(key, f'{what}: got {got!r:.300}, expected nothing')
        return
    if len(want) == 1:
        got = {next(iter(want)): got}
    if not isinstance(got, dict) or sorted(got) != sorted(want):
        rep.viol(key, f'{what}: got {got!r:.300}, expected the names {sorted(want)}')
        return
    for k, w in want.items():
        g = got[k]
        if len(w) == 1:
            g = [g]
        if not isinstance(g, list) or len(g) != len(w) or not all(arrives(x, y) for x, y in zip(g, w)):
            rep.viol(key, f'{what}: {k} is {got[k]!r:.300}, expected {w!r:.300}')
            return


def signature(rng):
    names = rng.sample(['a', 'b', 'clip', 'lambda', 'from', 'x_y', 'Value', 'in', 'kw', 'name', 'self', 'k1', 'k2', 'args'], rng.randint(0, 6))
    args = []
    for i, n in enumerate(names):
        t = rng.choice(TYPES + ['vnode', 'int'] if i == 0 else TYPES)
        arr = rng.random() < .4
        args.append((n, t, arr, rng.random() < .5, arr and rng.random() < .5))
    return args, rng.random() < .3


def text(args, any_):
    return ''.join(f'{n}:{t}{"[]" if arr else ""}{":opt" if opt else ""}{":empty" if emp else ""};' for n, t, arr, opt, emp in args) + ('any' if any_ else '')


def invoke(rng, rep, k):
    global defined
    args, any_ = signature(rng)
    sig = text(args, any_)
    name = f'F{defined}'
    defined += 1
    core.echo.Define(name, sig)
    what0 = f'function({sig})'
    F = getattr(core.echo, name)
    rep.eq('signature', (F.name, F.signature, F.return_signature), (name, sig, 'any'), 'name and signature of ' + what0)
    if not any((a[3] or a[4]) and not (b[3] or b[4]) for i, a in enumerate(args) for b in args[i:]):
        ps = inspect.signature(F).parameters
        want = [(n + '_' if keyword.iskeyword(n) else n) for n, t, arr, opt, emp in args]
        got = [p.name for p in ps.values() if p.kind is not p.VAR_KEYWORD]
        rep.eq('signature:python', got, want, f'Python signature of {what0}')
        repr(F)
    for _ in range(rng.randint(2, 6)):
        # which function, and is a clip injected?
        inj = None
        f = F
        if rng.random() < .4:
            c = rng.choice(V + A)
            t = 'vnode' if c in V else 'anode'
            ok = bool(args) and args[0][1] == t
            rep.eq('bound', name in dir(c.echo), ok, f'{what0} listed for a clip of type {t}')
            if not ok:
                continue
            inj = c
            f = getattr(c.echo, name)
        pos = [inj] if inj is not None else []
        given, kw, expect, bad = {}, {}, {}, None
        nthen = rng.randint(0, len(args))
        first = rng.randint(1 if inj is not None else 0, len(args))     # how many are passed by position
        plist = list(args[:first])
        vals = {}

        def make(n, t, arr, opt, emp):
            nonlocal bad
            r = rng.random()
            if r < .08 and opt:
                return None, 'absent'
            if r < .08 and not opt:
                bad = bad or 'required'
                return None, 'absent'
            if arr:
                m = rng.choice([0, 1, 1, 2, 3, rng.randint(1, 20)])
                if m == 0 and not emp:
                    bad = bad or 'empty'
                vs_ = [value(rng, t) for _ in range(m)]
                p, w = [x[0] for x in vs_], [x[1] for x in vs_]
                if m == 1 and rng.random() < .5:
                    p = p[0]
                    return p, w
                return rng.choice([list, tuple])(p), w
            if r < .14:
                w = wrong(rng, t)
                if w is not None:
                    bad = bad or 'type'
                    return w, []
            if r < .18:
                bad = bad or 'several'
                return [value(rng, t)[0] for _ in range(2)], []
            if r < .2:
                bad = bad or 'empty'
                return [], []
            p, w = value(rng, t)
            return ([p] if rng.random() < .1 else p), [w]
        for i, (n, t, arr, opt, emp) in enumerate(args):
            if i == 0 and inj is not None:
                expect[n] = [inj]
                continue
            if i < first:
                p, w = make(n, t, arr, opt, emp)
                pos.append(p)
            elif rng.random() < (.95 if not opt else .5):
                p, w = make(n, t, arr, opt, emp)
                kn = n + '_' if keyword.iskeyword(n) or rng.random() < .1 and n[-1] != '_' else n
                kw[kn] = p
            else:
                if not opt:
                    bad = bad or 'required'
                continue
            if w != 'absent':
                expect[n] = w
        if rng.random() < .05:
            pos += [1] * (len(args) - first + 1 - sum((n in kw or n + '_' in kw) for n, *_ in args))
            if len(pos) + len(kw) > len(args):
                bad = 'too many'
            else:
                continue
        if rng.random() < (.5 if any_ else .05):
            for n in rng.sample(['extra', 'Other', 'z9'], rng.randint(1, 3)):
                t = rng.choice(TYPES)
                vals = [strict(rng, t) for _ in range(rng.choice([1, 1, 2, 3]))]
                kw[n] = [v[0] for v in vals] if len(vals) > 1 or rng.random() < .3 else vals[0][0]
                expect[n] = [v[1] for v in vals]
                if not any_:
                    bad = 'unknown'
        kws = list(kw.items())
        rng.shuffle(kws)
        kw = dict(kws)
        p = pos[1:] if inj is not None else pos
        what = f'{what0} called with {len(p)} values by position and {sorted(kw)} by name' + (' on a clip' if inj is not None else '')
        if bad:
            rep.raises('refuse:' + bad, Exception, lambda: f(*p, **kw), f'{what} ({bad})')
            rep.count('refused')
        else:
            rep.line('AT ' + what)
            judge(rep, 'invoke', f(*p, **kw), expect, what)
            rep.count('calls')
    rep.ev(0, sig)
    rep.sample(what0)


def strict(rng, t):
    """values whose type alone decides what they become"""
    while True:
        p, w = value(rng, t)
        if t == 'int' and isinstance(p, int) or t == 'float' and isinstance(p, float) or t == 'data' and isinstance(p, (str, bytes, bytearray)) or t not in ('int', 'float', 'data'):
            return p, w


def roundtrip(rng, rep, k):
    """through a Python function: the values it receives, and the values it returns"""
    seen = {}
    back = {}
    want_in, want_out = {}, {}
    for side, want in ((0, want_in), (1, want_out)):
        kw = {}
        for n in rng.sample(['a', 'b', 'val', 'ün', 'x' * 50, '_p', 'n1'], rng.randint(0, 4)):
            t = rng.choice(TYPES)
            vals = [strict(rng, t) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            kw[n] = [v[0] for v in vals] if len(vals) > 1 else vals[0][0]
            want[n] = [v[1] for v in vals]
            if not n.isidentifier() or not n.isascii():
                del kw[n], want[n]
        if side:
            back = kw
        else:
            args = kw
    mode = rng.choice(['dict', 'dict', 'value', 'none'])
    if mode == 'value':
        v, w = strict(rng, rng.choice(TYPES))
        back, want_out = v, {'val': [w]}
    elif mode == 'none':
        back, want_out = None, {'val': [0]}

    def f(**kw):
        seen.update(kw)
        return back
    via = rng.choice(['func', 'plugin'])
    if via == 'func':
        fr = core.create_video_frame(vs.GRAY8, 1, 1)
        fr.props['f'] = f
        r = fr.props['f'](**args)
    else:
        r = core.echo.Call(f, **args)
    judge(rep, 'callback:result', r, want_out, f'result of a Python function called through {via}')
    judge(rep, 'callback:arguments', None if not seen else next(iter(seen.values())) if len(seen) == 1 else seen, want_in, f'arguments of a Python function called through {via}')
    rep.count('roundtrips')
    rep.ev(0, (via, mode, tuple(sorted(want_in)), tuple(sorted(want_out))))
    # bad results
    r = rng.choice([object(), {'a': object()}, {'a': [1, 'x']}, [1, 2.5], {'a b': 1}, {5: 1}, 2**64])
    rep.raises('callback:refuse', vs.Error, lambda: core.echo.Call(lambda **kw: r), f'a Python function returning {r!r:.100}')
    x = rng.choice([object(), [1, 'x'], [1.5, 'y'], [V[0], A[0]], 2**64])
    rep.raises('any:refuse', Exception, lambda: core.echo.Any(a=x), f'Any(a={x!r:.100})')


def errors(rng, rep, k):
    """exceptions of Python functions reach whoever asked, each its own"""
    n = rng.randint(1, 8)
    exc = {}
    for i in range(n):
        m = f'failure {rng.random()}'
        exc[i] = rng.choice([ValueError, RuntimeError, vs.Error, KeyError, KeyboardInterrupt, SystemExit, MyExit, CancelledError, GeneratorExit])(m)
    okay = set(rng.sample(range(n), rng.randint(0, n // 2)))
    core.num_threads = rng.choice([1, 2, 4, 8])
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, .005]))

    def judge_exc(e, i, how):
        w = exc[i]
        if not isinstance(w, Exception) or isinstance(w, CancelledError):
            rep.eq('tunnel', e is w, True, f'{how} of a function raising {w!r}: got {e!r:.300}')
            tb, names = e.__traceback__, []
            while tb:
                names.append(tb.tb_frame.f_code.co_name)
                tb = tb.tb_next
            rep.eq('tunnel:traceback', 'raiser' in names, True, f'{how} of a function raising {w!r}: the traceback shows where it was raised, only {names}')
        else:
            rep.eq('error', isinstance(e, vs.Error) and w.args[0] in str(e) and type(w).__name__ in str(e), True, f'{how} of a function raising {w!r}: got {e!r:.300}')

    def raiser(i):
        if i in okay:
            return 42
        raise exc[i]
    how = rng.choice(['func', 'plugin', 'frame', 'frame', 'async', 'callback', 'fail', 'threads'])
    if how == 'func':
        for i in range(n):
            fr = core.create_video_frame(vs.GRAY8, 1, 1)
            fr.props['f'] = lambda **kw: raiser(i)
            attempt(rep, lambda: fr.props['f'](), 42, i, okay, judge_exc, how)
    elif how in ('plugin', 'threads'):
        def work(i):
            for _ in range(3 if how == 'threads' else 1):
                attempt(rep, lambda: core.echo.Call(lambda **kw: raiser(i)), 42, i, okay, judge_exc, how)
        if how == 'plugin':
            for i in range(n):
                work(i)
        else:
            ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
            [t.start() for t in ts]
            [t.join() for t in ts]
    elif how == 'fail':
        m = rng.choice(['boom', 'with\nlines', 'ünï', '[VS_PY_EXC_ID:999999]\nx', '[VS_PY_EXC_ID:', '[VS_PY_EXC_ID:x]\n', 'x' * 3000])
        rep.raises('error:plugin', vs.Error, lambda: core.echo.Fail(m), 'a failing plugin function', m)
    else:
        src = core.std.BlankClip(width=1, height=1, format=vs.GRAY8, length=n)

        def f(n, f):
            raiser(n)
            return f
        clip = core.std.ModifyFrame(src, src, f)
        order = [rng.randrange(n) for _ in range(2 * n)]
        if how == 'frame':
            for i in order:
                attempt(rep, lambda: clip.get_frame(i).width, 1, i, okay, judge_exc, how)
        elif how == 'async':
            futs = [(i, clip.get_frame_async(i)) for i in order]
            for i, fu in futs:
                e = fu.exception(timeout=60)
                if i in okay:
                    rep.eq('async', (e, fu.result().width), (None, 1), f'frame {i}')
                else:
                    # requests for the same frame share one failure
                    if isinstance(exc[i], Exception) and not isinstance(exc[i], CancelledError) or order.count(i) == 1:
                        judge_exc(e, i, how)
        else:
            got, ev, lock = [], threading.Event(), threading.Lock()

            def cb(i):
                def g(fr, e):
                    with lock:
                        got.append((i, fr, e))
                        if len(got) == len(set(order)):
                            ev.set()
                return g
            for i in set(order):
                clip.get_frame_async(i, cb(i))
            rep.eq('callback', ev.wait(60), True, 'callbacks made')
            for i, fr, e in got:
                if i in okay:
                    rep.eq('async', e is None and fr.width == 1, True, f'frame {i}')
                else:
                    rep.eq('async', fr, None, f'frame {i}, which fails')
                    judge_exc(e, i, how)
    rep.count('failures', n - len(okay))
    rep.ev(0, (how, n, len(okay)))


def attempt(rep, f, want, i, okay, judge_exc, how):
    try:
        r = f()
    except BaseException as e:
        if i in okay:
            rep.viol('error:unexpected', f'{how}: {e!r:.300}')
        else:
            judge_exc(e, i, how)
        return
    if i in okay:
        rep.eq('result', r, want, how)
    else:
        rep.viol('error:lost', f'{how} of a function that raises gave {r!r:.200}')


def leaks(rng, rep, k):
    """what was passed is released once nobody uses it"""
    class Thing:
        def __init__(self, r):
            self.ret = r

        def __call__(self, **kw):
            return self.ret
    t = Thing(V[0])
    w = weakref.ref(t)
    how = rng.choice(['call', 'prop', 'any', 'clip', 'refused', 'return'])
    b = b'data' * 100
    rc = sys.getrefcount(b)
    for _ in range(rng.randint(1, 5)):
        if how == 'call':
            rep.eq('leak:value', core.echo.Call(t, x=b).num_frames, 1, 'result')
        elif how == 'prop':
            fr = core.create_video_frame(vs.GRAY8, 1, 1)
            fr.props['f'] = t
            fr.props['b'] = b
            fr.props['f']
            g = fr.copy()
            del fr, g
        elif how == 'any':
            core.echo.Any(f=[t, t], d=b)
        elif how == 'clip':
            c = core.std.FrameEval(V[1], lambda n, q=t: q())
            c.get_frame(0).close()
            del c
        elif how == 'refused':
            try:
                core.echo.Call(t, x=[b, 5])
            except vs.Error:
                pass
            try:
                core.echo.Call([t, t])
            except vs.Error:
                pass
        else:
            core.echo.Call(lambda **kw: {'f': t, 'n': V, 'b': b})
    del t
    core.clear_cache()
    for _ in range(50):
        gc.collect()
        if w() is None:
            break
        threading.Event().wait(.01)     # a pool thread may still be letting go of the last frame
    rep.eq('leak:' + how, (w() is None, sys.getrefcount(b) - rc), (True, 0), f'value passed by {how} released')
    rep.count('release_checks')
    rep.ev(0, how)


def case(rng, rep, k, opts):
    r = rng.random()
    (invoke if r < .45 else roundtrip if r < .7 else errors if r < .9 else leaks)(rng, rep, k)
