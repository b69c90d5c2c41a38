"""P01: frames seen from Python. Random operations on frames, views and property dictionaries against a model of plain bytes and dicts."""
import ctypes, enum, gc, os, struct
import vapoursynth as vs

core = vs.core
core.std.LoadPlugin(os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(vs.__file__))), 'echo.so'))
CODE = {(0, 1): 'B', (0, 2): 'H', (0, 4): 'I', (1, 2): 'e', (1, 4): 'f'}


class MyInt(enum.IntFlag):
    A = 1
    B = 2


class F:
    """a frame and what it should hold"""
    def __init__(self, fr, planes, dims, bps, code, props, ro, kind):
        self.fr, self.planes, self.dims, self.bps, self.code, self.props, self.ro, self.kind = fr, planes, dims, bps, code, props, ro, kind
        self.views = []
        self.closed = False

    def fmt(self):
        return f'{self.kind} frame {self.code} {self.dims}'


def rand_val(rng, code, sig=False):
    if code == 'e':
        return struct.unpack('e', struct.pack('e', rng.uniform(-100, 100)))[0]
    if code == 'f':
        return struct.unpack('f', struct.pack('f', rng.uniform(-100, 100)))[0]
    return rng.randrange(1 << {'B': 8, 'H': 16, 'I': 32}[code])


def rand_format(rng):
    st = rng.random() < .3
    bits = rng.choice([16, 32]) if st else rng.choice([8, 8, 9, 10, 16, 17, 24, 32])
    cf = rng.choice([vs.GRAY, vs.YUV, vs.RGB])
    sw = sh = 0
    if cf == vs.YUV:
        sw, sh = rng.choice([(0, 0), (1, 1), (1, 0), (2, 2), (0, 1), (2, 0)])
    return core.query_video_format(cf, vs.FLOAT if st else vs.INTEGER, bits, sw, sh)


def new_video(rng):
    f = rand_format(rng)
    w = rng.choice([1, 2, 3, 16, 31, 32, 33, 64, rng.randint(1, 90)]) << f.subsampling_w
    h = rng.choice([1, 2, 3, rng.randint(1, 20)]) << f.subsampling_h
    st = int(f.sample_type)
    code = CODE[(st, f.bytes_per_sample)]
    dims = [(w, h)] + [(w >> f.subsampling_w, h >> f.subsampling_h)] * (f.num_planes - 1)
    if rng.random() < .5:
        fr = core.create_video_frame(f.id, w, h)
        m = F(fr, [None] * f.num_planes, dims, f.bytes_per_sample, code, {}, False, 'video')
        for p in range(f.num_planes):
            fill(rng, m, p)
    else:
        mx = min((1 << f.bits_per_sample) - 1, 2**24 - 1)
        color = [rng.randint(0, 100) / 100. if st else rng.choice([0, 1, mx, rng.randint(0, mx)]) for _ in range(f.num_planes)]
        if st:
            color = [float(struct.unpack(code, struct.pack(code, c))[0]) for c in color]
        else:
            color = [float(c) for c in color]
        clip = core.std.BlankClip(format=f.id, width=w, height=h, length=1, fpsnum=25, fpsden=2, color=color)
        fr = clip.get_frame(0)
        pl = [bytearray(struct.pack(code, c if st else int(c)) * (x * y)) for c, (x, y) in zip(color, dims)]
        m = F(fr, pl, dims, f.bytes_per_sample, code, {'_DurationNum': 2, '_DurationDen': 25}, True, 'video')
        m.clip = clip
    m.format = f
    if rng.random() < .2:       # properties holding no values, as plugins may leave them
        keys = rng.sample(NAMES, rng.randint(1, 3))
        m.fr = core.echo.EmptyProps(m.fr, keys, [rng.randint(1, 8) for _ in keys])
        m.ro = True
        if rng.random() < .8:
            m.fr, m.ro = m.fr.copy(), False
        m.props.update({k: ('int', []) for k in keys})
    return m


def new_audio(rng):
    bits, st = rng.choice([(16, vs.INTEGER), (24, vs.INTEGER), (32, vs.INTEGER), (20, vs.INTEGER), (32, vs.FLOAT)])
    ch = rng.sample(range(0, 17), rng.randint(1, 6))
    n = rng.choice([1, 2, 3071, 3072, rng.randint(1, 3072)])
    clip = core.std.BlankAudio(channels=ch, bits=bits, sampletype=st, length=n)
    bps = 2 if bits == 16 else 4
    m = F(clip.get_frame(0), [bytearray(bps * n) for _ in ch], [(n, 1)] * len(ch), bps, CODE[(int(st), bps)], {}, True, 'audio')
    m.format = None
    m.ch = sorted(ch)
    m.clip = clip
    return m


def fill(rng, m, p):
    w, h = m.dims[p]
    row = w * m.bps
    data = bytearray(rng.randbytes(row * h))
    if m.code in 'ef':
        data = bytearray(b''.join(struct.pack(m.code, rng.uniform(-4, 4)) for _ in range(w * h)))
    ptr, st = m.fr.get_write_ptr(p).value, stride(m, p)
    for y in range(h):
        ctypes.memmove(ptr + y * st, bytes(data[y * row:(y + 1) * row]), row)
    m.planes[p] = data


def stride(m, p):
    return m.fr.get_stride(p) if m.kind == 'video' else m.dims[p][0] * m.bps


def view_bytes(v):
    return v.tobytes()


def check_view(rep, m, p, v, what):
    w, h = m.dims[p]
    shape = (h, w) if m.kind == 'video' else (w,)
    rep.eq('view:shape', (v.shape, v.format, v.itemsize, v.nbytes, v.readonly), (shape, m.code, m.bps, w * h * m.bps, m.ro), f'{what} of a {m.fmt()}, plane {p}')
    if rep.evals % 3 == 0:
        rep.eq('view:data', hex_(v.tobytes()), hex_(m.planes[p]), f'{what} of a {m.fmt()}, plane {p}')
    else:
        rep.evals += 1
        if v.tobytes() != m.planes[p]:
            a, b = v.tobytes(), m.planes[p]
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), -1)
            rep.viol('view:data', f'{what} of a {m.fmt()}, plane {p} differs from byte {i} on: {a[i:i+8].hex()} expected {bytes(b[i:i+8]).hex()}')


def hex_(b):
    return bytes(b).hex() if len(b) < 200 else bytes(b)


def check_all(rep, rng, m, what):
    if m.closed:
        return
    for p in range(len(m.planes)):
        check_view(rep, m, p, m.fr[p], what)


def op_view(rep, rng, m, pool):
    p = rng.randrange(len(m.planes))
    q = p - len(m.planes) if rng.random() < .3 else p
    v = m.fr[q]
    check_view(rep, m, p, v, f'frame[{q}]')
    if rng.random() < .6:
        m.views.append((p, v))
    return 'view'


def op_write(rep, rng, m, pool):
    p = rng.randrange(len(m.planes))
    w, h = m.dims[p]
    if m.ro:
        v = m.fr[p]
        rep.raises('readonly', (TypeError, vs.Error), lambda: v.__setitem__((0, 0) if m.kind == 'video' else 0, v[(0, 0) if m.kind == 'video' else 0]), f'writing to a readonly {m.fmt()}')
        rep.raises('readonly', vs.Error, lambda: m.fr.get_write_ptr(p), f'get_write_ptr of a readonly {m.fmt()}')
        return 'write-ro'
    if m.views and rng.random() < .5:
        p, v = rng.choice(m.views)
        w, h = m.dims[p]
        what = 'older view'
    else:
        v = m.fr[p]
        what = 'view'
        if rng.random() < .3:
            m.views.append((p, v))
    for _ in range(rng.randint(1, 4)):
        x, y = rng.randrange(w), rng.randrange(h)
        val = rand_val(rng, m.code)
        if m.kind == 'video':
            v[y, x] = val
        else:
            v[x] = val
        o = (y * w + x) * m.bps
        m.planes[p][o:o + m.bps] = struct.pack(m.code, val)
    check_all(rep, rng, m, f'contents after writing through a {what}')
    return 'write'


def op_fill(rep, rng, m, pool):
    if m.ro or m.closed or (m.kind == 'audio' and m.views):
        return None
    fill(rng, m, rng.randrange(len(m.planes)))
    check_all(rep, rng, m, 'contents after writing through the pointer')
    return 'fill'


def op_read(rep, rng, m, pool):
    p = rng.randrange(len(m.planes))
    w, h = m.dims[p]
    row = w * m.bps
    ptr, st = m.fr.get_read_ptr(p).value, stride(m, p)
    rep.eq('ptr:align', (ptr % 32, st >= row), (0, True), f'pointer of a {m.fmt()}, plane {p}')
    data = b''.join(ctypes.string_at(ptr + y * st, row) for y in range(h))
    rep.eq('ptr:data', hex_(data), hex_(m.planes[p]), f'data at the read pointer of a {m.fmt()}, plane {p}')
    rep.raises('ptr:plane', (IndexError, vs.Error), lambda: m.fr.get_read_ptr(rng.choice([-1, len(m.planes), 100])) if m.kind == 'video' else m.fr[len(m.planes)], 'pointer of a plane that does not exist')
    rep.raises('index', IndexError, lambda: m.fr[rng.choice([len(m.planes), -len(m.planes) - 1, 2**31])], 'a plane that does not exist')
    rep.raises('index', TypeError, lambda: m.fr[rng.choice(['0', 1.0, None])], 'a plane index that is not an integer')
    rep.eq('len', len(m.fr), len(m.planes), f'len of a {m.fmt()}')
    return 'read'


def op_chunks(rep, rng, m, pool):
    if m.kind != 'video':
        return None
    l = [c for c in m.fr.readchunks()] if rng.random() < .5 else []
    if l:
        got = [bytes(c) for c in l]
        ok = all(c.contiguous and c.readonly == m.ro and c.itemsize == m.bps for c in l)
    else:
        got, ok = [], True
        for c in m.fr.readchunks():
            ok = ok and c.contiguous
            got.append(bytes(c))
    rep.eq('readchunks', (hex_(b''.join(got)), ok), (hex_(b''.join(m.planes)), True), f'readchunks of a {m.fmt()}')
    sizes = {w * m.bps for w, h in m.dims} | {w * h * m.bps for w, h in m.dims}
    rep.eq('readchunks:size', all(len(g) in sizes for g in got), True, f'sizes of the chunks of a {m.fmt()}')
    return 'chunks'


def op_copy(rep, rng, m, pool):
    fr = m.fr.copy()
    c = F(fr, [bytearray(p) for p in m.planes], m.dims, m.bps, m.code, dict(m.props), False, m.kind)
    c.format = m.format
    c.ch = getattr(m, 'ch', None)
    rep.eq('copy:readonly', fr.readonly, False, 'readonly of a copy')
    pool.append(c)
    check_all(rep, rng, c, 'copy')
    return 'copy'


def op_info(rep, rng, m, pool):
    if m.kind == 'video':
        f = m.fr.format
        rep.eq('info', (m.fr.width, m.fr.height, f.id, f.name, f.num_planes, f.bytes_per_sample, f.bits_per_sample, f.subsampling_w, f.subsampling_h, f == m.format, m.fr.readonly),
               (*m.dims[0], m.format.id, m.format.name, len(m.planes), m.bps, m.format.bits_per_sample, m.format.subsampling_w, m.format.subsampling_h, True, m.ro), f'attributes of a {m.fmt()}')
    else:
        rep.eq('info', (m.fr.num_channels, m.fr.bytes_per_sample, m.fr.channel_layout, [int(c) for c in m.fr.channels], len(m.fr.channels), m.fr.readonly),
               (len(m.planes), m.bps, sum(1 << c for c in m.ch), m.ch, len(m.ch), m.ro), f'attributes of a {m.fmt()}')
    return 'info'


def op_close(rep, rng, m, pool):
    if rng.random() < .5:
        m.fr.close()
    else:
        with m.fr:
            pass
    m.closed = True
    rep.eq('closed', m.fr.closed, True, 'closed after close()')
    for what, f in (('copy()', m.fr.copy), ('props', lambda: m.fr.props), ('frame[0]', lambda: m.fr[0]), ('len', lambda: len(m.fr)), ('get_read_ptr', lambda: m.fr.get_read_ptr(0)),
                    ('get_write_ptr', lambda: m.fr.get_write_ptr(0)), ('get_stride', lambda: m.fr.get_stride(0))) + ((('readchunks', lambda: list(m.fr.readchunks())),) if m.kind == 'video' else ()):
        rep.raises('closed', (RuntimeError, vs.Error), f, f'{what} of a closed {m.fmt()}')
    for p in getattr(m, 'pd', [])[:1]:
        rep.raises('closed', (RuntimeError, vs.Error), lambda: p['a'], 'properties of a closed frame')
        rep.raises('closed', (RuntimeError, vs.Error), lambda: len(p), 'properties of a closed frame')
    m.fr.close()
    repr(m.fr), str(m.fr)
    gc.collect() if rng.random() < .02 else None
    if m.views:      # views keep the data
        p, v = rng.choice(m.views)
        check_view(rep, m, p, v, 'view after close()')
    return 'close'


NAMES = ['a', 'b', 'Matrix', '_x', 'zz9', '_Combed', 'A' * 40, 'keys1', 'p_1', 'c', 'd']


def rand_str(rng):
    return ''.join(rng.choice(['a', 'Z', ' ', '\0', '\n', 'é', '漢', '😀', '"', '\\']) for _ in range(rng.choice([0, 1, 2, 5, 300])))


def rand_scalar(rng, kind, pool):
    if kind == 'int':
        return rng.choice([0, 1, -1, 2**63 - 1, -2**63, 2**31, -2**31 - 1, True, MyInt.B, vs.GRAY8, rng.randint(-2**63, 2**63 - 1)])
    if kind == 'float':
        return rng.choice([0., -0., 1.5, float('inf'), float('-inf'), float('nan'), 5e-324, 1.7976931348623157e308, rng.uniform(-1e9, 1e9)])
    if kind == 'str':
        return rand_str(rng)
    if kind == 'bytes':
        b = rng.randbytes(rng.choice([0, 1, 3, 100]))
        return bytearray(b) if rng.random() < .3 else b
    if kind == 'data':      # text and binary values next to each other
        return rand_scalar(rng, rng.choice(['str', 'bytes']), pool)
    if kind == 'frame':
        return rng.choice([x for x in pool if not x.closed] or [new_video(rng)])
    if kind == 'node':
        return rng.choice([x.clip for x in pool if hasattr(x, 'clip')] or [core.std.BlankClip(length=1)])
    k = rng.randrange(1000)
    f = lambda **kw: k
    f.k = k
    return f


KINDS = ['int', 'int', 'float', 'str', 'bytes', 'data', 'frame', 'node', 'func']


def expected(v, kind):
    if kind == 'bytes':
        return bytes(v)
    return v


def rand_prop(rng, pool):
    kind = rng.choice(KINDS)
    n = rng.choice([None, None, None, 1, 2, 3, rng.randint(0, 20)])
    if n is None:
        v = rand_scalar(rng, kind, pool)
        return kind, (v.fr if kind == 'frame' else v), [v]
    l = [rand_scalar(rng, kind, pool) for _ in range(n)]
    if kind == 'frame' and len({x.kind for x in l}) > 1:
        l = l[:1]
    if kind == 'node' and len({type(x) for x in l}) > 1:
        l = l[:1]
    arg = [x.fr if kind == 'frame' else x for x in l]
    return kind, rng.choice([list, tuple])(arg), l


def prop_ok(rep, got, kind, want, what):
    """compares a value read from the properties with the list of values stored"""
    if len(want) == 1:
        got = [got]
    rep.evals += 1
    if not isinstance(got, list) or len(got) != len(want):
        rep.viol('props:value', f'{what}: got {got!r:.200}, expected {len(want)} values ({want!r:.200})')
        return
    for g, w in zip(got, want):
        if kind == 'int':
            ok = isinstance(g, int) and g == int(w)
        elif kind == 'float':
            ok = isinstance(g, float) and struct.pack('d', g) == struct.pack('d', w) or (g != g and w != w)
        elif kind == 'str':
            ok = type(g) is str and g == w
        elif kind == 'data':
            ok = g == w if isinstance(w, str) else type(g) is bytes and g == bytes(w)
        elif kind == 'bytes':
            ok = type(g) is bytes and g == bytes(w)
        elif kind == 'frame':
            ok = type(g).__name__ == ('VideoFrame' if w['kind'] == 'video' else 'AudioFrame') and g.readonly and [g[p].tobytes() for p in range(len(g))] == w['planes'] and g.props.get('a') is not Ellipsis
        elif kind == 'node':
            ok = type(g) is type(w) and len(g) == len(w)
        else:
            ok = g() == w.k
        if not ok:
            rep.viol('props:value', f'{what}: got {g!r:.200}, expected {kind} {w!r:.200}')
            return


def frozen(kind, l):
    """what later reads give: frames are shared with the property, so writable ones are only used here while nobody writes to them"""
    if kind == 'frame':
        return [{'kind': x.kind, 'planes': [bytes(p) for p in x.planes]} for x in l]
    return l


def op_props(rep, rng, m, pool):
    p = m.fr.props
    m.pd = getattr(m, 'pd', [])[-2:] + [p]
    if len(m.pd) > 1 and rng.random() < .4:
        p = rng.choice(m.pd)
    name = rng.choice(NAMES)
    r = rng.random()
    what = f'props[{name!r:.20}]'
    have = name in m.props
    if r < .45:
        if m.ro:
            rep.raises('props:readonly', vs.Error, lambda: p.__setitem__(name, 1), 'setting a property of a readonly frame')
            rep.raises('props:readonly', vs.Error, lambda: p.__delitem__(name), 'deleting a property of a readonly frame')
            return 'props-ro'
        kind, arg, l = rand_prop(rng, [x for x in pool if x.ro and x is not m])
        q = rng.random()
        if q < .6:
            p[name] = arg
        elif q < .75:
            setattr(p, name, arg)
        elif q < .9:
            p.update({name: arg})
        else:
            p.update([(name, arg)]) if q < .95 else p.update(**{name: arg})
        m.props.pop(name, None)
        if l:
            m.props[name] = (kind, frozen(kind, l))
        if rng.random() < .1:
            bad = rng.choice([None, object(), {1: 2}.items(), 1j])
            rep.raises('props:type', vs.Error, lambda: p.__setitem__('b', rng.choice([[1, 'x'], ['x', 1.], [b'x', 2], [1., 2], [1, 2., 3], [1, bad], ['x', core.std.BlankClip(length=1)]])), 'values of different types')
            m.props.pop('b', None)
            p.pop('b', None)
        if rng.random() < .05:
            rep.raises('props:name', vs.Error, lambda: p.__setitem__(rng.choice(['', '1a', 'a b', 'é', 'a.b']), 1), 'an invalid name')
    elif r < .55 and not m.ro:
        if rng.random() < .7:
            if rng.random() < .5:
                del p[name]
            else:
                delattr(p, name)
            m.props.pop(name, None)
        elif rng.random() < .3:
            p.clear()
            m.props.clear()
        elif m.props and rng.random() < .5:
            k, v = p.popitem()
            rep.eq('props:popitem', k in m.props, True, f'popitem gave {k!r}')
            if k in m.props:
                check_prop(rep, m, k, v, 'popitem()')
            m.props.pop(k, None)
        elif have:
            check_prop(rep, m, name, p.pop(name), f'pop({name!r})')
            m.props.pop(name)
        else:
            rep.raises('props:pop', KeyError, lambda: p.pop(name), 'pop of a missing property')
            rep.eq('props:pop', p.pop(name, 'dflt'), 'dflt', 'pop of a missing property with a default')
    elif r < .62 and not m.ro:
        if have:
            check_prop(rep, m, name, p.setdefault(name, 77), f'setdefault({name!r})')
        else:
            rep.eq('props:setdefault', p.setdefault(name, 77), 77, f'setdefault({name!r})')
            m.props[name] = ('int', [77])
    elif r < .7 and not m.ro:
        new = {rng.choice(NAMES): rand_prop(rng, [x for x in pool if x.ro and x is not m]) for _ in range(rng.randint(0, 3))}
        m.fr.props = {k: v[1] for k, v in new.items()}
        m.props = {k: (v[0], frozen(v[0], v[2])) for k, v in new.items() if v[2]}
    else:
        if have:
            check_prop(rep, m, name, rng.choice([lambda: p[name], lambda: getattr(p, name), lambda: p.get(name), lambda: p.get(name, 5), lambda: p.copy()[name], lambda: dict(p.items())[name]])(), what)
        else:
            rep.raises('props:missing', KeyError, lambda: p[name], f'{what} missing')
            rep.raises('props:missing', AttributeError, lambda: getattr(p, name), f'{what} missing')
            rep.eq('props:missing', (p.get(name), p.get(name, 9)), (None, 9), f'get of missing {what}')
    q = m.fr.props if rng.random() < .5 else p
    rep.eq('props:keys', (sorted(q), len(q), sorted(q.keys()), name in q), (sorted(m.props), len(m.props), sorted(m.props), name in m.props), f'names of the properties after an operation on {name!r:.20}')
    if rng.random() < .2:
        vals = dict(q.items())
        rep.eq('props:items', (sorted(vals), len(list(q.values()))), (sorted(m.props), len(m.props)), 'items() and values()')
        for k in m.props:
            if k in vals:
                check_prop(rep, m, k, vals[k], f'items() {k!r:.20}')
    return 'props'


def check_prop(rep, m, k, v, what):
    w = m.props[k]
    if isinstance(w, tuple):
        prop_ok(rep, v, w[0], w[1], what)
    else:
        rep.eq('props:value', v, w, what)


OPS = [(op_view, 3), (op_write, 4), (op_fill, 1), (op_read, 2), (op_chunks, 1), (op_copy, 2), (op_info, 1), (op_close, .7), (op_props, 8)]


def case(rng, rep, k, opts):
    pool = [new_video(rng) if rng.random() < .75 else new_audio(rng) for _ in range(rng.randint(1, 3))]
    for m in pool:
        m.props = {k: v if isinstance(v, tuple) else ('int', [v]) for k, v in m.props.items()}
    hist = []
    for _ in range(rng.randint(10, 40)):
        live = [m for m in pool if not m.closed]
        if not live or (len(live) < 6 and rng.random() < .08):
            m = new_video(rng) if rng.random() < .7 else new_audio(rng)
            m.props = {k: v if isinstance(v, tuple) else ('int', [v]) for k, v in m.props.items()}
            pool.append(m)
            live.append(m)
        m = rng.choice(live)
        op = rng.choices([o for o, w in OPS], [w for o, w in OPS])[0]
        n = op(rep, rng, m, pool)
        if n:
            rep.count('op_' + n)
            hist.append(n)
        if rng.random() < .3 and len(live) > 1:      # nobody else's contents may change
            o = rng.choice(live)
            check_all(rep, rng, o, f'contents of another frame after {n}')
        for p, v in rng.sample(m.views, min(2, len(m.views))):
            check_view(rep, m, p, v, f'older view after {n}')
        if len(pool) > 10:
            pool.pop(0)
    for m in pool:
        check_all(rep, rng, m, 'contents at the end')
    rep.ev(0, ' '.join(hist))
