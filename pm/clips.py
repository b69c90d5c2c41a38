"""P02: slicing, indexing, joining and repeating clips; frames(), get_frame, get_frame_async and output() deliver exactly the frames of the clip, in order."""
import gc, io, struct, sys, threading, time
from fractions import Fraction
import vapoursynth as vs

core = vs.core
MAXF = 2**31 - 1


class Seq:
    """a virtual sequence of indices that supports slicing and concatenation"""
    def __init__(self, parts):
        self.parts = [p for p in parts if len(p)]

    def __len__(self):
        return sum(len(p) for p in self.parts)

    def at(self, i):
        for p in self.parts:
            if i < len(p):
                return p[i]
            i -= len(p)
        raise IndexError

    def slice(self, s):
        r = range(len(self))[s]
        return Lazy(self, r)


class Lazy:
    def __init__(self, base, r):
        self.base, self.r = base, r

    def __len__(self):
        return len(self.r)

    def at(self, i):
        return self.base.at(self.r[i])

    def slice(self, s):
        return Lazy(self.base, self.r[s])


class Rept:
    def __init__(self, base, n):
        self.base, self.n = base, n

    def __len__(self):
        return len(self.base) * self.n

    def at(self, i):
        return self.base.at(i % len(self.base))

    slice = Seq.slice


class Cat:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __len__(self):
        return len(self.a) + len(self.b)

    def at(self, i):
        return self.a.at(i) if i < len(self.a) else self.b.at(i - len(self.a))

    slice = Seq.slice


def rand_slice(rng, n, video):
    def ix():
        return rng.choice([None, None, 0, 1, -1, n, n - 1, -n, n + 1, -n - 1, rng.randint(-n - 3, n + 3), rng.randint(-n, n), 10**30, -10**30])
    steps = [None, None, 1, -1, -1]
    if video:
        steps += [2, 3, -2, -3, 5, -7, rng.randint(1, n + 2), -rng.randint(1, n + 2)]
    return slice(ix(), ix(), rng.choice(steps))


def video_source(rng, n):
    """frames that know their number: every frame has its own colour and property"""
    f = core.query_video_format(vs.GRAY, vs.INTEGER, 32)
    base = core.std.BlankClip(format=f.id, width=rng.choice([1, 4, 33]), height=rng.choice([1, 2]), length=1, keep=True)
    clips = [core.std.SetFrameProps(core.std.BlankClip(base, color=[float(i)]), idx=i) for i in range(n)]
    return core.std.Splice(clips) if n > 1 else clips[0]


def check_video(rep, rng, clip, seq, what):
    n = len(seq)
    if not rep.eq('length', (clip.num_frames, len(clip)), (n, n), f'length of {what}'):
        return
    for i in {0, n - 1} | {rng.randrange(n) for _ in range(3)}:
        f = clip.get_frame(i)
        rep.eq('frame', (f.props['idx'], f[0][0, 0]), (seq.at(i), seq.at(i)), f'frame {i} of {what}')


def video_ops(rng, rep, k):
    n = rng.choice([1, 2, 3, 5, rng.randint(1, 30)])
    src = video_source(rng, n)
    pool = [(src, Seq([range(n)]), f'V{n}')]
    if rng.random() < .15:
        t = rng.choice([MAXF // n, rng.randint(1, MAXF // n), 10**6])
        t = max(1, min(t, MAXF // n))
        pool.append((src * t, Rept(pool[0][1], t), f'V{n}*{t}'))
    for _ in range(rng.randint(2, 8)):
        c, s, d = rng.choice(pool)
        r = rng.random()
        m = len(s)
        if r < .5:
            sl = rand_slice(rng, m, True)
            w = s.slice(sl)
            d2 = f'({d})[{sl.start}:{sl.stop}:{sl.step}]'
            if not len(w):
                rep.raises('slice:empty', vs.Error, lambda: c[sl], f'{d2}, which has no frames')
                continue
            new = c[sl]
        elif r < .65:
            i = rng.choice([0, -1, m - 1, -m, rng.randint(-m, m - 1)])
            d2, w, new = f'({d})[{i}]', s.slice(slice(i, i + 1 if i != -1 else None)), c[i]
        elif r < .8:
            c2, s2, dd = rng.choice(pool)
            d2, w = f'{d} + {dd}', Cat(s, s2)
            if len(w) > MAXF:
                rep.raises('join:long', vs.Error, lambda: c + c2, f'{d2}, too long')
                continue
            new = c + c2
        elif r < .9:
            t = rng.choice([1, 2, 3, 17, rng.randint(1, 1000)])
            d2, w = f'({d})*{t}', Rept(s, t)
            if len(w) > MAXF:
                rep.raises('repeat:long', vs.Error, lambda: c * t, f'{d2}, too long')
                continue
            new = c * t
        else:
            rep.raises('index', IndexError, lambda: c[rng.choice([m, -m - 1, m + 5])], f'{d} indexed outside')
            rep.raises('index', (TypeError, vs.Error), lambda: c[rng.choice(['a', 1.5, None])], f'{d} indexed with another type')
            rep.raises('slice:step', ValueError, lambda: c[::0], f'{d}[::0]')
            rep.raises('repeat', ValueError, lambda: c * rng.choice([0, -1]), f'{d}*0')
            rep.raises('repeat', TypeError, lambda: c * rng.choice([1.5, '2', None]), f'{d}*1.5')
            rep.raises('join', (TypeError, NotImplementedError, vs.Error), lambda: c + rng.choice([1, None, core.std.BlankAudio(length=1)]), f'{d} + something else')
            rep.raises('get_frame', ValueError, lambda: c.get_frame(rng.choice([-1, m, m + 1][:2 if m == MAXF else 3])), f'a frame outside {d}')
            continue
        if len(d2) < 200 and len(w):
            check_video(rep, rng, new, w, d2)
            pool.append((new, w, d2))
            rep.ev(0, d2)
    rep.sample(pool[-1][2])


def audio_ops(rng, rep, k):
    ch = rng.choice([[0], [0, 1]])
    n = rng.choice([1, 3, 100, 3072, 3073, 7000])
    src = core.std.BlankAudio(channels=ch, bits=32, sampletype=0, length=n, waveform='slope', frequency=1.)

    def data(c):
        b = [[], []]
        for i in range(c.num_frames):
            with c.get_frame(i) as f:
                for j in range(len(f)):
                    b[j] += f[j].tolist()
        return b[:len(ch)]
    ref = data(src)[0]
    rep.eq('audio:source', len(ref), n, 'samples of the source')
    pool = [(src, Seq([range(n)]), f'A{n}')]
    for _ in range(rng.randint(2, 6)):
        c, s, d = rng.choice(pool)
        r = rng.random()
        m = len(s)
        if r < .55:
            sl = rand_slice(rng, m, False)
            w = s.slice(sl)
            d2 = f'({d})[{sl.start}:{sl.stop}:{sl.step}]'
            if not len(w):
                rep.raises('slice:empty', vs.Error, lambda: c[sl], f'{d2}, which has no samples')
                continue
            new = c[sl]
        elif r < .7:
            i = rng.choice([0, -1, m - 1, -m, rng.randint(-m, m - 1)])
            d2, w, new = f'({d})[{i}]', s.slice(slice(i, i + 1 if i != -1 else None)), c[i]
        elif r < .8:
            c2, s2, dd = rng.choice(pool)
            d2, w, new = f'{d} + {dd}', Cat(s, s2), c + c2
        elif r < .9:
            t = rng.choice([1, 2, 3])
            d2, w, new = f'({d})*{t}', Rept(s, t), c * t
        else:
            rep.raises('index', IndexError, lambda: c[rng.choice([m, -m - 1])], f'{d} indexed outside')
            rep.raises('slice:step', ValueError, lambda: c[::rng.choice([0, 2, -2, 3])], f'{d}[::2]')
            rep.raises('repeat', ValueError, lambda: c * 0, f'{d}*0')
            continue
        if rep.eq('length', (new.num_samples, new.num_frames), (len(w), (len(w) + 3071) // 3072), f'length of {d2}') and len(w) < 30000:
            got = data(new)
            for g in got:
                bad = next((i for i in range(len(w)) if g[i] != ref[w.at(i)]), None) if len(g) == len(w) else -1
                rep.eq('audio:samples', bad, None, f'first wrong sample of {d2}')
            pool.append((new, w, d2))
            rep.ev(0, d2)


class Slow:
    """a clip that delays, counts and fails as told"""
    def __init__(self, rng, n, src):
        self.started, self.lock, self.fail = 0, threading.Lock(), set()
        self.delays = [rng.choice([0, 0, 0, .0001, .001]) for _ in range(16)]
        self.n = n

        def f(n, f):
            with self.lock:
                self.started += 1
            d = self.delays[n % 16]
            if d:
                time.sleep(d)
            if n in self.fail:
                raise RuntimeError(f'frame {n} fails on purpose')
            return f
        self.clip = core.std.ModifyFrame(src, [src], f)


def iterate(rng, rep, k):
    core.num_threads = rng.choice([1, 1, 2, 4, 8])
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, .005]))
    n = rng.choice([1, 2, 3, 10, rng.randint(1, 60)])
    audio = rng.random() < .2
    if audio:
        src = core.std.BlankAudio(length=n * 3072 - rng.choice([0, 1, 3071]), bits=16)
    else:
        src = video_source(rng, n)
    sl = Slow(rng, n, src) if rng.random() < .6 and not audio else None
    clip = sl.clip if sl else src
    if sl and rng.random() < .4:
        sl.fail = {rng.randrange(n) for _ in range(rng.randint(1, 3))}
    first = min(sl.fail) if sl and sl.fail else n
    pf = rng.choice([None, None, 1, 1, 2, 3, 20, 0, -1])
    bl = rng.choice([None, None, 0, 1, 2, 5, 30, -1])
    close = rng.random() < .3
    stop = rng.choice([None, None, rng.randint(0, n)])
    p = pf if pf and pf > 0 else core.num_threads
    b = p * 3 if bl is None or bl < 0 else max(bl, p)
    what = f'frames(prefetch={pf}, backlog={bl}, close={close}) of {n} {"audio" if audio else "video"} frames with {core.num_threads} threads'
    got = []
    it = clip.frames(pf, bl, close) if rng.random() < .5 else clip.frames(prefetch=pf, backlog=bl, close=close)
    err = None
    prev = None
    kept = []
    try:
        while stop is None or len(got) < stop:
            try:
                f = next(it)
            except StopIteration:
                break
            if prev is not None:
                rep.eq('frames:close', prev.closed, close, f'{what}: previous frame closed')
            prev = f
            got.append(f.props['idx'] if not audio else len(f[0]))
            if sl:
                with sl.lock:
                    st = sl.started
                if st > len(got) + b:
                    rep.viol('frames:backlog', f'{what}: {st} frames started after {len(got)} were taken, at most {b} may wait')
                rep.ev(1)
            if rng.random() < .05:
                time.sleep(.001)
    except Exception as e:
        err = e
    want = list(range(min(first, n if stop is None else stop)))
    if audio:
        want = [min(3072, src.num_samples - i * 3072) for i in want]
    rep.eq('frames', got, want, what)
    if stop is None and first < n or (stop is not None and stop > first):
        rep.eq('frames:error', isinstance(err, vs.Error) and f'frame {first} fails' in str(err), True, f'{what}: frame {first} fails but frames() raised {err!r:.300}')
    else:
        rep.eq('frames:error', err, None, f'{what}: error')
    it.close()
    if stop is None and err is None:
        rep.raises('frames:end', StopIteration, lambda: next(it), f'{what}: after the end')
    rep.count('iterations')
    rep.ev(0, ('it', n, p, b, close, bool(sl), bool(sl and sl.fail), stop is None, core.num_threads))


def requests(rng, rep, k):
    core.num_threads = rng.choice([1, 2, 4, 8])
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, .005]))
    n = rng.randint(1, 40)
    src = video_source(rng, n)
    sl = Slow(rng, n, src)
    if rng.random() < .6:
        sl.fail = {rng.randrange(n) for _ in range(rng.randint(1, 3))}
    clip = sl.clip
    order = [rng.randrange(n) for _ in range(rng.randint(1, 60))]
    res = {}
    lock, done = threading.Lock(), threading.Event()
    futs = []
    cbs = 0

    def cb(j):
        def f(frame, error):
            with lock:
                res.setdefault(j, []).append((frame.props['idx'] if frame is not None else None, error))
                if sum(len(v) for v in res.values()) >= cbs:
                    done.set()
        return f
    kinds = [rng.choice('fcs') for _ in order]
    cbs = kinds.count('c')
    sync = {}
    for j, (i, q) in enumerate(zip(order, kinds)):
        if q == 'f':
            futs.append((j, clip.get_frame_async(i)))
        elif q == 'c':
            clip.get_frame_async(i, cb(j))
        else:
            try:
                sync[j] = (clip.get_frame(i).props['idx'], None)
            except Exception as e:
                sync[j] = (None, e)
    for j, f in futs:
        rep.eq('async:state', f.running() or f.done(), True, 'state of a future')
        e = f.exception(timeout=60)
        sync[j] = (None, e) if e else (f.result().props['idx'], None)
    if cbs:
        done.wait(60)
    for j, i in enumerate(order):
        if kinds[j] == 'c':
            r = res.get(j, [])
            rep.eq('async:once', len(r), 1, f'calls of the callback for frame {i}')
            if not r:
                continue
            v, e = r[0]
        else:
            v, e = sync[j]
        kind = {'f': 'future', 'c': 'callback', 's': 'get_frame'}[kinds[j]]
        if i in sl.fail:
            rep.eq('async:error', v is None and isinstance(e, vs.Error) and f'frame {i} fails on purpose' in str(e), True, f'{kind} for frame {i}, which fails, got {v} {e!r:.200}')
        else:
            rep.eq('async:frame', (v, e), (i, None), f'{kind} for frame {i}')
    e = clip.get_frame_async(rng.choice([-1, n, n + 5])).exception(timeout=60)
    rep.eq('async:outside', isinstance(e, Exception), True, f'exception of a request outside the clip: {e!r}')
    rep.count('requests', len(order))
    rep.ev(0, (n, core.num_threads, tuple(kinds[:8])))


class Sink(io.RawIOBase):
    def __init__(self, fail_after=None):
        self.b, self.flushed, self.n, self.fail_after = bytearray(), 0, 0, fail_after

    def write(self, x):
        self.n += 1
        if self.fail_after is not None and self.n > self.fail_after:
            raise OSError('disk full')
        self.b += bytes(x)
        return len(bytes(x))

    def flush(self):
        self.flushed += 1


def packed(f):
    return b''.join(f[p].tobytes() for p in range(len(f)))


def output(rng, rep, k):
    core.num_threads = rng.choice([1, 2, 4])
    sys.setswitchinterval(rng.choice([1e-6, .005]))
    n = rng.randint(1, 20)
    cf = rng.choice([vs.GRAY, vs.YUV, vs.YUV, vs.RGB])
    st = rng.random() < .2
    bits = rng.choice([16, 32]) if st else rng.choice([8, 8, 10, 12, 16, 32])
    sw, sh = rng.choice([(0, 0), (1, 1), (1, 0), (2, 2), (2, 0), (0, 1), (2, 1), (3, 3)]) if cf == vs.YUV else (0, 0)
    fm = core.query_video_format(cf, int(st), bits, sw, sh)
    w, h = rng.choice([1, 8, 31, 32, 64, rng.randint(1, 70)]) << sw, rng.randint(1, 8) << sh
    fps = (rng.randint(1, 60000), rng.choice([1, 1001]))
    base = core.std.BlankClip(format=fm.id, width=w, height=h, length=1, fpsnum=fps[0], fpsden=fps[1])
    mx = 1. if st else float(min(2**bits - 1, 255))
    clip = core.std.Splice([core.std.BlankClip(base, color=[round(rng.random() * mx) if not st else .25 * rng.randint(0, 4) for _ in range(fm.num_planes)]) for _ in range(n)])
    alpha = rng.random() < .2
    am = None
    if alpha:
        am = core.std.BlankClip(format=core.query_video_format(vs.GRAY, int(st), bits).id, width=w, height=h, length=n, color=[1.])
        clip = core.std.ClipToProp(clip, am, prop='_Alpha')
    y4m = rng.random() < .5
    if rng.random() < .5:
        clip = Slow(rng, n, clip).clip
    prog = []
    kw = {}
    if rng.random() < .7:
        kw['progress_update'] = lambda a, b: prog.append((a, b))
    if rng.random() < .5:
        kw['prefetch'] = rng.choice([0, 1, 2, 7])
    if rng.random() < .5:
        kw['backlog'] = rng.choice([-1, 0, 1, 9])
    what = f'output(y4m={y4m}) of {n} {fm.name} frames {w}x{h}{" with alpha" if alpha else ""}'
    s = Sink()
    body = [packed(clip.get_frame(i)) + (packed(am.get_frame(i)) if alpha else b'') for i in range(n)]
    bad = y4m and (cf == vs.RGB or alpha or (cf == vs.YUV and (sw, sh) in ((2, 1), (3, 3))))
    if bad:
        rep.raises('output:y4m', (ValueError, NotImplementedError, vs.Error), lambda: clip.output(s, y4m=True, **kw), what)
        return
    if y4m and st:
        return          # how floating point samples are declared in y4m is not specified
    clip.output(s, y4m=y4m, **kw)
    got = bytes(s.b)
    if y4m:
        head, _, got = got.partition(b'\n')
        tok = head.split(b' ')
        ss = {(0, 0): '444', (1, 1): '420', (1, 0): '422', (2, 2): '410', (2, 0): '411', (0, 1): '440'}[sw, sh] if cf == vs.YUV else 'mono'
        c = ss + ((('p' if cf == vs.YUV else '') + str(bits)) if bits > 8 else '')
        g = Fraction(*fps)
        rep.eq('output:y4m', (tok[0], sorted(t.decode() for t in tok[1:])), (b'YUV4MPEG2', sorted(['C' + c, f'W{w}', f'H{h}', f'F{g.numerator}:{g.denominator}', 'Ip', 'A0:0', f'XLENGTH={n}'])), f'{what}: header')
        body = [b'FRAME\n' + x for x in body]
    rep.eq('output:size', len(got), sum(map(len, body)), f'{what}: bytes written')
    o = 0
    for i, x in enumerate(body):
        rep.evals += 1
        if got[o:o + len(x)] != x:
            rep.viol('output:data', f'{what}: frame {i} is wrong')
            break
        o += len(x)
    if 'progress_update' in kw:
        rep.eq('output:progress', prog, [(i, n) for i in range(n + 1)], f'{what}: progress')
    if rng.random() < .2:
        s = Sink(fail_after=rng.randint(0, 3 * n))
        try:
            clip.output(s, y4m=y4m)
        except OSError:
            pass
    rep.count('outputs')
    rep.ev(0, (fm.name, y4m, alpha, w % 32 == 0))


def audio_output(rng, rep, k):
    bits, st = rng.choice([(16, 0), (24, 0), (32, 0), (20, 0), (32, 1), (17, 0)])
    ch = sorted(rng.sample(range(0, 18), rng.randint(1, 8)))
    n = rng.choice([1, 100, 3071, 3072, 3073, 10000])
    rate = rng.choice([8000, 44100, 48000, 96000])
    clip = core.std.BlankAudio(channels=ch, bits=bits, sampletype=st, samplerate=rate, length=n, waveform=rng.choice(['sine', 'slope']), frequency=rng.uniform(1, 500))
    gains = [rng.choice([0., .5, 1., -1., .25]) for _ in ch]
    clip = core.std.AudioGain(clip, gain=gains)
    mode = rng.choice(['', 'wav', 'w64'])
    s = Sink()
    prog = []
    kw = {mode: True} if mode else {}
    clip.output(s, progress_update=lambda a, b: prog.append((a, b)), **kw)
    what = f'output({mode}) of {n} samples of {len(ch)} channels, {"float" if st else "int"}{bits}'
    nb = (bits + 7) // 8
    want = bytearray()
    for i in range(clip.num_frames):
        f = clip.get_frame(i)
        d = [f[c].tobytes() for c in range(len(ch))]
        bps = 2 if bits == 16 else 4
        for j in range(len(f[0])):
            for c in d:
                want += c[j * bps + bps - nb:(j + 1) * bps]
    got = bytes(s.b)
    if mode == 'wav':
        o = wav(rep, got, what, clip, ch, nb, bits, st, rate, len(want))
    elif mode == 'w64':
        o = w64(rep, got, what, clip, ch, nb, bits, st, rate, len(want))
    else:
        o = 0
    rep.eq('wave:size', len(got) - o, len(want), f'{what}: bytes of samples')
    rep.eq('wave:data', got[o:] == want, True, f'{what}: samples')
    rep.eq('output:progress', prog, [(i, clip.num_frames) for i in range(clip.num_frames + 1)], f'{what}: progress')
    rep.count('audio_outputs')
    rep.ev(0, (mode, bits, st, len(ch), n))


GUID = bytes.fromhex('0000001000800000aa00389b71')


def fmt_chunk(rep, b, what, ch, nb, bits, st, rate):
    tag, nc, r, bps, ba, bb = struct.unpack_from('<HHIIHH', b)
    rep.eq('wave:format', (nc, r, bps, ba, bb), (len(ch), rate, rate * nb * len(ch), nb * len(ch), nb * 8), f'{what}: format chunk')
    if tag == 0xfffe:
        cb, vb, mask = struct.unpack_from('<HHI', b, 16)
        rep.eq('wave:format', (cb, vb, mask, struct.unpack_from('<H', b, 24)[0], b[26:40]), (22, bits, sum(1 << c for c in ch), 3 if st else 1, bytes.fromhex('000000001000800000aa00389b71')), f'{what}: extensible format')
    else:
        rep.eq('wave:format', tag, 3 if st else 1, f'{what}: format tag')


def wav(rep, b, what, clip, ch, nb, bits, st, rate, dl):
    rep.eq('wave:riff', (b[:4], struct.unpack_from('<I', b, 4)[0] in (len(b) - 8, len(b) - 8 + (dl & 1)), b[8:12]), (b'RIFF', True, b'WAVE'), f'{what}: RIFF header')
    o = 12
    while o + 8 <= len(b):
        t, n = b[o:o + 4], struct.unpack_from('<I', b, o + 4)[0]
        if t == b'fmt ':
            fmt_chunk(rep, b[o + 8:o + 8 + n], what, ch, nb, bits, st, rate)
        if t == b'data':
            rep.eq('wave:data', n, dl, f'{what}: size of the data chunk')
            return o + 8
        o += 8 + n + (n & 1)
    rep.viol('wave:data', f'{what}: no data chunk')
    return 0


def w64(rep, b, what, clip, ch, nb, bits, st, rate, dl):
    rep.eq('wave:w64', (b[:4], b[24:28], struct.unpack_from('<Q', b, 16)[0] - len(b) in range(0, 8)), (b'riff', b'wave', True), f'{what}: header')
    o = 40
    while o + 24 <= len(b):
        t, n = b[o:o + 4], struct.unpack_from('<Q', b, o + 16)[0]
        if t == b'fmt ':
            fmt_chunk(rep, b[o + 24:o + n], what, ch, nb, bits, st, rate)
        if t == b'data':
            rep.eq('wave:data', n, dl + 24, f'{what}: size of the data chunk')
            return o + 24
        o += (n + 7) // 8 * 8
    rep.viol('wave:data', f'{what}: no data chunk')
    return 0


def case(rng, rep, k, opts):
    r = rng.random()
    f = video_ops if r < .3 else audio_ops if r < .4 else iterate if r < .65 else requests if r < .8 else output if r < .93 else audio_output
    f(rng, rep, k)
    if k % 20 == 0:
        gc.collect()
