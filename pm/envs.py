"""P03: several environments in one process, with a policy of our own: isolation, nesting, teardown, and objects that outlive their environment."""
import gc, sys, threading, time, weakref
import vapoursynth as vs


class Policy(vs.EnvironmentPolicy):
    """the current environment of a thread is what it was set to; what it returns is recorded"""
    def __init__(self):
        self.loc = threading.local()

    def on_policy_registered(self, api):
        self.api = api

    def get_current_environment(self):
        return getattr(self.loc, 'cur', None)

    def set_environment(self, env):
        p = self.get_current_environment()
        self.loc.cur = env
        return p


policy = Policy()
vs.register_policy(policy)
LOCALS = [vs.Local() for _ in range(3)]


class Env:
    n = 0

    def __init__(self, rng):
        Env.n += 1
        self.id = Env.n
        self.data = policy.api.create_environment(rng.choice([0, 0, int(vs.ENABLE_GRAPH_INSPECTION)]))
        self.wrap = policy.api.wrap_environment(self.data)
        self.outputs, self.locals = {}, [{}, {}, {}]
        self.threads = None
        self.cbs, self.ran = [], []
        self.logged, self.log_on, self.sent, self.held = [], False, [], []
        self.objs, self.pending = {}, []
        self.dead = False
        self.freed = []     # what the core had to say about being freed
        self.lock = threading.Lock()

    def name(self):
        return f'environment {self.id}'


def current():
    return policy.get_current_environment()


def run_ops(st, env):
    """random operations inside env, each judged at once"""
    rng, rep = st.rng, st.rep
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        rep.eq('current', current() is env.data and env.wrap.active is True and vs.get_current_environment() == env.wrap, True, f'current environment inside {env.name()}')
        if r < .25:
            i = rng.choice([0, 0, 1, 2, -1, 77])
            if rng.random() < .25:
                c, want = vs.core.std.BlankAudio(length=env.id), 'A'
                c.set_output(i)
                env.outputs[i] = (c, None, 0)
            else:
                c = vs.core.std.BlankClip(width=16, height=16, format=vs.GRAY8, length=env.id)
                a = vs.core.std.BlankClip(width=16, height=16, format=vs.GRAY8, length=env.id) if rng.random() < .3 else None
                alt = rng.choice([0, 0, 1, 2])
                c.set_output(i, a, alt)
                env.outputs[i] = (c, a, alt)
        elif r < .35:
            if rng.random() < .7:
                i = rng.choice([0, 1, 2, 77, 5])
                vs.clear_output(i)
                env.outputs.pop(i, None)
            else:
                vs.clear_outputs()
                env.outputs.clear()
        elif r < .5:
            k = rng.randrange(3)
            n = rng.choice(['a', 'b', 'clip'])
            if rng.random() < .8:
                v = (env.id, rng.random())
                setattr(LOCALS[k], n, v)
                env.locals[k][n] = v
            elif n in env.locals[k]:
                delattr(LOCALS[k], n)
                del env.locals[k][n]
            else:
                rep.raises('locals:missing', (AttributeError, KeyError), lambda: delattr(LOCALS[k], n), f'deleting local value {n}, which was not set in {env.name()}')
        elif r < .6:
            t = rng.randint(1, 8)
            vs.core.num_threads = t
            env.threads = t
        elif r < .7:
            m = f'message {env.id} {rng.random()}'
            vs.core.log_message(vs.MESSAGE_TYPE_INFORMATION, m)
            if env.log_on:
                env.sent.append(m)
            elif env.held is not None:
                env.held.append(m)      # messages wait for the first handler
        elif r < .75 and not env.log_on:
            vs.core
            policy.api.set_logger(env.data, lambda level, msg, e=weakref.ref(env): e().logged.append(msg) if e() else None)
            env.log_on = True
            env.sent, env.held = env.held or [], None
        elif r < .85:
            calls(st, env)
        elif r < .95:
            add_callback(st, env)
        else:
            rep.eq('policy', policy.api.destroy_environment.__name__, 'destroy_environment', 'api')
            rep.raises('policy', ValueError, lambda: policy.api.wrap_environment(5), 'wrap_environment(5)')
            rep.raises('policy', RuntimeError, lambda: vs.register_policy(Policy()), 'a second policy')
        check(st, env)


def check(st, env):
    rep = st.rep
    o = vs.get_outputs()
    rep.eq('outputs', sorted(o), sorted(env.outputs), f'output indices of {env.name()}')
    for i, (c, a, alt) in env.outputs.items():
        g = vs.get_output(i)
        if a is None and isinstance(c, vs.AudioNode):
            rep.eq('outputs', g is c, True, f'output {i} of {env.name()}')
        else:
            rep.eq('outputs', (g.clip is c, g.alpha is a, g.alt_output), (True, True, alt), f'output {i} of {env.name()}')
    rep.raises('outputs', KeyError, lambda: vs.get_output(12345), 'an output that was not set')
    for k, L in enumerate(LOCALS):
        for n in ('a', 'b', 'clip'):
            rep.eq('locals', getattr(L, n, None), env.locals[k].get(n), f'local value {n} in {env.name()}')
    if env.threads:
        rep.eq('core', vs.core.num_threads, env.threads, f'threads of the core of {env.name()}')
    if 'core' in env.objs:
        rep.eq('core', vs.core.core is env.objs['core'], True, f'core of {env.name()}')
    else:
        env.objs['core'] = vs.core.core
        rep.eq('core', all(e is env or e.objs.get('core') is not env.objs['core'] for e in st.envs), True, 'core shared by two environments')
    if env.log_on:
        rep.eq('log', env.logged, env.sent, f'messages received by the logger of {env.name()}')


def calls(st, env):
    """functions called back by the core run inside the environment they were created in, whoever requests the frame"""
    rng, rep = st.rng, st.rep
    seen = []
    core = vs.core
    n = rng.randint(1, 12)
    src = core.std.BlankClip(width=16, height=16, format=vs.GRAY8, length=n, keep=rng.random() < .5)

    def f(n, f):
        seen.append(current() is env.data)
        g = f.copy()
        g.props['env'] = env.id
        return g

    def fe(n):
        seen.append(current() is env.data)
        return vs.core.std.SetFrameProps(src, env=env.id)
    clip = core.std.ModifyFrame(src, src, f) if rng.random() < .5 else core.std.FrameEval(src, fe)
    got = []
    where = rng.choice(['in', 'thread', 'async', 'cb', 'outside'])
    i = rng.randrange(n)

    def req():
        got.append(clip.get_frame(i).props['env'])
    if where == 'in':
        req()
    elif where == 'thread':
        t = threading.Thread(target=req)
        t.start()
        t.join()
    elif where == 'async':
        got.append(clip.get_frame_async(i).result(timeout=60).props['env'])
    elif where == 'cb':
        ev = threading.Event()

        def cb(fr, err):
            seen.append(current() is env.data)
            got.append(err or fr.props['env'])
            ev.set()
        clip.get_frame_async(i, cb)
        ev.wait(60)
    else:
        p = policy.set_environment(None)
        try:
            got.append(clip.get_frame_async(i).result(timeout=60).props['env'])
        finally:
            policy.set_environment(p)
    rep.eq('callback', (got, all(seen), bool(seen)), ([env.id], True, True), f'frame of {env.name()} requested {where}')
    env.objs.setdefault('clips', []).append(clip)
    st.rep.count('callbacks', len(seen))


def add_callback(st, env):
    rng, rep = st.rng, st.rep
    if env.cbs and rng.random() < .2:
        j = rng.randrange(len(env.cbs))
        vs.unregister_on_destroy(env.cbs.pop(j)[1])
        return
    tag = len(env.cbs), rng.random()
    mode = rng.choice(['', '', '', 'raise', 'use', 'register'])

    def cb(e=env):
        e.ran.append((tag, current() is e.data, all(f.done() for f in e.pending), sys._getframe is not None))
        if mode == 'raise':
            raise RuntimeError('on purpose')
        if mode == 'use':
            e.ran[-1] += (vs.core.std.BlankClip(length=1).get_frame(0).width,)
        if mode == 'register':
            try:
                vs.register_on_destroy(lambda: None)
                e.ran[-1] += ('accepted',)
            except ValueError:
                pass
    vs.register_on_destroy(cb)
    env.cbs.append((tag, cb, mode))


def collect(st, env):
    """objects to be used after the environment is gone"""
    rng = st.rng
    core = vs.core
    slow = []

    def f(n, f):
        if slow:
            time.sleep(.0005)
        return f
    src = core.std.BlankClip(width=40, height=20, format=rng.choice([vs.GRAY8, vs.YUV420P8, vs.RGBS, vs.GRAY16]), length=20)
    n = core.std.ModifyFrame(src, src, f)
    a = core.std.BlankAudio(length=5000)
    fr = n.get_frame(0)
    wf = fr.copy()
    v = wf[0]
    v[0, 0] = 7
    af = a.get_frame(0)
    it, it2 = n.frames(), n.frames()
    next(it)
    L = vs.Local()
    L.x = n
    wf.props['f'] = lambda **kw: 3
    wf.props['n'] = n
    env.held = None
    env.objs.update(cr=core.core, n=n, a=a, fr=fr, wf=wf, props=wf.props, v=v, af=af, av=af[0], F=core.std.BlankClip, PL=core.std, bound=n.std.Trim, it=it, it2=it2, fmt=n.format, L=L, fn=wf.props['f'],
                    lh=core.core.add_log_handler(lambda t, m: None), tim=core.core.timings, bpl=n.std, fut=[])
    if rng.random() < .7:
        slow.append(1)
        core.num_threads = env.threads = rng.choice([1, 2, 4])
        for i in range(rng.randint(1, 20)):
            if rng.random() < .7:
                fu = n.get_frame_async(rng.randrange(20))
                env.pending.append(fu)
            else:
                class Once:
                    calls = 0

                    def __call__(self, fr, err):
                        self.calls += 1
                        env.objs['cbcalls'].append(self)

                    def done(self):
                        return self.calls == 1
                env.objs.setdefault('cbcalls', [])
                o = Once()
                env.pending.append(o)
                n.get_frame_async(rng.randrange(20), o)


# what must be refused once the environment is gone; the others only must not crash
REFUSED = {
    'F': lambda o: o['F'](), 'bound': lambda o: o['bound'](first=1), 'plugin': lambda o: o['PL'].BlankClip(), 'plugins': lambda o: list(o['cr'].plugins()),
    'query': lambda o: o['cr'].query_video_format(vs.GRAY, vs.INTEGER, 8), 'create': lambda o: o['cr'].create_video_frame(vs.GRAY8, 16, 16), 'std': lambda o: o['cr'].std.BlankClip(),
    'get_frame': lambda o: o['n'].get_frame(0), 'async': lambda o: o['n'].get_frame_async(0).result(timeout=60), 'frames': lambda o: next(o['n'].frames()), 'set_output': lambda o: o['n'].set_output(),
    'add': lambda o: o['n'] + o['n'], 'mul': lambda o: o['n'] * 2, 'slice': lambda o: o['n'][1:3], 'index': lambda o: o['n'][0], 'ns': lambda o: o['n'].std.Trim(first=1), 'aget': lambda o: o['a'].get_frame(0),
    'aslice': lambda o: o['a'][5:], 'plane': lambda o: o['fr'][0], 'wplane': lambda o: o['wf'][0], 'fcopy': lambda o: o['fr'].copy(), 'afplane': lambda o: o['af'][0], 'ptr': lambda o: o['fr'].get_read_ptr(0), 'wptr': lambda o: o['wf'].get_write_ptr(0),
    'chunks': lambda o: list(o['fr'].readchunks()), 'pget': lambda o: o['fr'].props['_DurationDen'], 'pset': lambda o: o['props'].__setitem__('a', 1), 'gen': lambda o: [next(o['it']) for _ in range(30)], 'output': lambda o: o['n'].output(Null()),
    'aoutput': lambda o: o['a'].output(Null()), 'coreset': lambda o: setattr(o['cr'], 'num_threads', 3), 'log': lambda o: o['cr'].log_message(vs.MESSAGE_TYPE_WARNING, 'x'),
}
HARMLESS = {
    'fns': lambda o: list(o['PL'].functions()), 'ver': lambda o: o['PL'].version, 'path': lambda o: o['PL'].plugin_path, 'dirPL': lambda o: dir(o['PL']), 'rPL': lambda o: repr(o['PL']), 'gvf': lambda o: o['cr'].get_video_format(vs.GRAY8),
    'alh': lambda o: o['cr'].add_log_handler(lambda a, b: 0), 'rlh': lambda o: o['cr'].remove_log_handler(o['lh']), 'cc': lambda o: o['cr'].clear_cache(), 'cv': lambda o: o['cr'].core_version, 'av': lambda o: o['cr'].api_version,
    'crepr': lambda o: repr(o['cr']), 'cstr': lambda o: str(o['cr']), 'cdir': lambda o: dir(o['cr']), 'nt': lambda o: o['cr'].num_threads, 'mc': lambda o: (o['cr'].max_cache_size, o['cr'].used_cache_size), 'tim': lambda o: o['tim'].enabled,
    'tim2': lambda o: o['tim'].freed_nodes, 'tim3': lambda o: setattr(o['tim'], 'enabled', True), 'timr': lambda o: repr(o['tim']), 'flags': lambda o: o['cr'].flags, 'ncc': lambda o: o['n'].clear_cache(), 'nname': lambda o: o['n'].node_name, 'ntim': lambda o: o['n'].timings,
    'ntim2': lambda o: setattr(o['n'], 'timings', 0), 'nmode': lambda o: o['n'].mode, 'ndep': lambda o: o['n'].dependencies, 'insp': lambda o: o['n'].is_inspectable(0), 'nrepr': lambda o: repr(o['n']), 'nstr': lambda o: str(o['n']),
    'nlen': lambda o: len(o['n']), 'neq': lambda o: (o['n'] == o['n'], o['n'] == 5, hash(o['n'])), 'ndir': lambda o: dir(o['n']), 'adir': lambda o: (dir(o['a']), str(o['a']), repr(o['a'])), 'fprops': lambda o: o['fr'].props, 'frepr': lambda o: (repr(o['fr']), str(o['fr'])),
    'afrepr': lambda o: (repr(o['af']), str(o['af']), len(o['af']), o['af'].channels), 'flen': lambda o: len(o['fr']), 'fro': lambda o: (o['fr'].readonly, o['fr'].closed, o['fr'].get_stride(0)), 'plen': lambda o: len(o['props']), 'prepr': lambda o: repr(o['props']),
    'pdel': lambda o: o['props'].__delitem__('a'), 'pdict': lambda o: dict(o['props']), 'pcopy': lambda o: o['props'].copy(), 'pin': lambda o: 'a' in o['props'], 'pclear': lambda o: o['props'].clear(), 'genclose': lambda o: o['it'].close(), 'gen2': lambda o: next(o['it2']),
    'fmtr': lambda o: o['fmt'].replace(bits_per_sample=16), 'fmts': lambda o: str(o['fmt']), 'local': lambda o: o['L'].x, 'sig': lambda o: o['F'].__signature__, 'frepr2': lambda o: repr(o['F']), 'bsig': lambda o: (repr(o['bound']), o['bound'].__signature__),
    'fn': lambda o: o['fn'](), 'fnarg': lambda o: o['fn'](a=o['n']), 'fnarg2': lambda o: o['fn'](b=o['fr']), 'mixF': lambda o: vs.core.std.Trim(o['n'], first=1), 'mixS': lambda o: vs.core.std.Splice([vs.core.std.BlankClip(), o['n']]), 'mixP': lambda o: vs.core.create_video_frame(vs.GRAY8, 16, 16).props.__setitem__('x', o['n']),
    'mixP2': lambda o: vs.core.create_video_frame(vs.GRAY8, 16, 16).props.__setitem__('x', o['fr']), 'mixo': lambda o: vs.core.std.BlankClip(width=40, height=20, length=20).set_output(0, o['n']), 'mixSFP': lambda o: vs.core.std.SetFrameProps(vs.core.std.BlankClip(), a=o['n']), 'bpl': lambda o: o['bpl'].Trim(first=1), 'view': lambda o: o['v'].__setitem__((0, 0), 1), 'fclose': lambda o: o['fr'].close(), 'wfclose': lambda o: o['wf'].close(),
}


class Thing:
    pass


class Null:
    def write(self, x):
        return len(x)

    def flush(self):
        pass


def racers(st, env):
    """threads that keep requesting frames while the environment is destroyed"""
    rng, rep, n = st.rng, st.rep, env.objs['n']
    out = []

    def sync():
        i = 0
        with env.wrap.use():
            while True:
                i += 1
                with n.get_frame(i % 20) as f:
                    f.width

    def gen():
        with env.wrap.use():
            while True:
                for f in n.frames(prefetch=rng.choice([1, 2, 5])):
                    f.width

    def many():
        with env.wrap.use():
            while True:
                fs = [n.get_frame_async(i) for i in range(5)]
                for f in fs:
                    if f.exception(timeout=60):
                        raise f.exception()
                    f.result().width

    def run(f):
        try:
            f()
        except Exception as e:
            out.append(e)
    ts = [threading.Thread(target=run, args=(rng.choice([sync, sync, gen, many]),), daemon=True) for _ in range(rng.randint(1, 3))]
    for t in ts:
        t.start()
    time.sleep(rng.choice([0, .001, .005]))
    return ts, out


def destroy(st, env):
    rng, rep = st.rng, st.rep
    o = env.objs
    race = racers(st, env) if 'n' in o and rng.random() < .4 else None
    have = 'n' in o
    old = o['v'].tobytes() if have else None
    keep = current()
    gone = {}
    if keep is not env.data:
        with env.wrap.use():
            # held by nothing but the environment
            t = Thing()
            LOCALS[2].thing = t
            c = vs.core.std.BlankClip(length=3)
            c.set_output(55)
            gone = {'a local value': weakref.ref(t), 'an output': weakref.ref(c)}
            t = c = None
            if not have:
                vs.core.core.add_log_handler(lambda t, m, fm=env.freed: fm.append(m))
    policy.api.destroy_environment(env.data)
    env.dead = True
    rep.eq('destroy:current', current() is keep, True, f'current environment after destroying {env.name()}')
    if gone:
        if any(r() is not None for r in gone.values()):
            gc.collect()
        rep.eq('destroy:held', [w for w, r in gone.items() if r() is not None], [], f'still held after destroying {env.name()}')
        rep.count('released_on_destruction', 2)
    if not have:    # (views of frames keep those alive)
        rep.eq('destroy:left', [m for m in env.freed if 'still' in m], [], f'reported by the core of {env.name()} when it was freed')
    rep.eq('destroy:alive', env.wrap.alive, False, f'alive after destroying {env.name()}')
    if race:
        for t in race[0]:
            t.join(60)
        rep.eq('race:end', [t.is_alive() for t in race[0]], [False] * len(race[0]), f'threads requesting frames of {env.name()} still stuck after it was destroyed')
        for e in race[1]:
            rep.eq('race:error', isinstance(e, (vs.Error, RuntimeError, AttributeError)), True, f'a thread requesting frames while the environment is destroyed got {e!r:.200}')
        rep.count('races')
    rep.eq('destroy:pending', [bool(f.done()) for f in env.pending], [True] * len(env.pending), f'requests of {env.name()} answered when it was destroyed')
    rep.eq('destroy:callbacks', [r[0] for r in env.ran], [c[0] for c in env.cbs], f'order of the callbacks run by destroying {env.name()}')
    rep.eq('destroy:inside', [r[1:3] for r in env.ran], [(True, True)] * len(env.ran), f'callbacks of {env.name()} run inside it after all requests were answered')
    for r, c in zip(env.ran, env.cbs):
        if c[2] == 'use':
            rep.eq('destroy:use', r[-1], 640, 'work done by a callback')
        if c[2] == 'register':
            rep.eq('destroy:register', r[-1], True, 'registering a callback during destruction')
    if rng.random() < .3:
        policy.api.destroy_environment(env.data)
    if have:
        tests = list(REFUSED.items()) + list(HARMLESS.items())
        rng.shuffle(tests)
        tests.sort(key=lambda t: t[0] in ('fclose', 'wfclose'))
        within = rng.choice([None] + [e for e in st.envs if not e.dead])

        def use_all():
            viewed = False
            for k, f in tests[:rng.randint(20, len(tests))]:
                st.rep.line('AT ' + k)
                try:
                    r = f(o)
                except Exception as e:
                    rep.evals += 1
                    if k in REFUSED and not isinstance(e, (vs.Error, AttributeError, RuntimeError, ValueError, TypeError, StopIteration)):
                        rep.viol('dead:' + k, f'{k} on an object of a destroyed environment: {e!r:.200}')
                    continue
                viewed |= k == 'view'
                if k in REFUSED:
                    rep.viol('dead:' + k, f'{k} on an object of a destroyed environment gave {r!r:.200}')
            rep.count('uses_after_destruction', len(tests))
            if not viewed:
                rep.eq('dead:view', o['v'].tobytes(), old, 'a view of a frame of a destroyed environment')
        if within is not None:
            with within.wrap.use():
                use_all()
        else:
            use_all()


class State:
    def __init__(self, rng, rep):
        self.rng, self.rep, self.envs = rng, rep, []


def nest(st, depth):
    rng, rep = st.rng, st.rep
    alive = [e for e in st.envs if not e.dead]
    if not alive:
        return
    env = rng.choice(alive)
    before = current()
    # a destroyed environment that is still current is not returned to
    try:
        with (env.wrap if rng.random() < .7 else env.wrap.copy()).use():
            run_ops(st, env)
            if rng.random() < .3 and 'n' not in env.objs:
                collect(st, env)
            if depth < 4 and rng.random() < .6:
                nest(st, depth + 1)
            if not env.dead:
                rep.eq('nesting', current() is env.data, True, f'current environment after a nested use inside {env.name()}')
                check(st, env)
            r = rng.random()
            if r < .1:
                raise KeyError('leave')
            if r < .25:
                victim = rng.choice([e for e in st.envs if not e.dead] or [None])
                if victim:
                    destroy(st, victim)
    except KeyError as e:
        if e.args != ('leave',):
            raise
    dead = [e.data for e in st.envs if e.dead]
    rep.eq('nesting', current() is (None if any(before is d for d in dead) else before), True, f'environment restored after using {env.name()}')


def worker(rng, rep):
    st = State(rng, rep)
    for _ in range(rng.randint(1, 3)):
        st.envs.append(Env(rng))
    rep.eq('ids', len({e.wrap.env_id for e in st.envs}), len(st.envs), 'environment ids')
    rep.raises('none', RuntimeError, lambda: vs.get_current_environment(), 'get_current_environment outside of any environment')
    rep.raises('none', vs.Error, lambda: vs.core.std, 'vs.core outside of any environment')
    rep.raises('none', vs.Error, lambda: vs.get_outputs(), 'get_outputs outside of any environment')
    rep.raises('none', RuntimeError, lambda: LOCALS[0].a, 'a local value outside of any environment')
    for _ in range(rng.randint(1, 4)):
        nest(st, 0)
        rep.eq('nesting', current(), None, 'environment after everything was left')
    for e in st.envs:
        if not e.dead:
            with e.wrap.use():
                check(st, e)
                if 'n' not in e.objs and rng.random() < .7:
                    collect(st, e)
            destroy(st, e)
    refs = [e.wrap for e in st.envs]
    return refs


def case(rng, rep, k, opts):
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, .005]))
    import random
    refs = []
    n = rng.choice([1, 1, 2, 3])
    if n == 1:
        refs += worker(rng, rep)
    else:
        errs = []

        def run(seed):
            try:
                refs.extend(worker(random.Random(seed), rep))
            except BaseException as e:
                errs.append(e)
        ts = [threading.Thread(target=run, args=(rng.random(),)) for _ in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
    rep.ev(0, (k, n))
    rep.sample(f'case {k}: {n} threads, {len(refs)} environments, {rep.counts.get("callbacks", 0)} callbacks and {rep.counts.get("races", 0)} teardown races so far')
    if rng.random() < .2:
        gc.collect()
        gc.collect()
        rep.eq('leak', [r.env() for r in refs if r.env() is not None], [], 'destroyed environments still alive although nothing refers to them')
