"""numpy/ctypes bindings for the real library, for the reference-model workers (VSH names the vsh.so to load)."""
import ctypes as C, os
import numpy as np

GRAY, RGB, YUV = 1, 2, 3
L = None


class VSError(Exception):
    pass


def load(path):
    global L
    L = C.CDLL(path)
    P, I, Q, S, D = C.c_void_p, C.c_int, C.c_int64, C.c_char_p, C.c_double
    sig = dict(vsh_init=(I,), vsh_core=(P, I, I), vsh_freecore=(None, P), vsh_used=(Q, P), vsh_threads=(I, P), vsh_clearcaches=(None, P), vsh_maxcache=(Q, Q, P),
               vsh_log=(None, P), vsh_nlog=(I,), vsh_getlog=(I, I, S, I), vsh_clearlog=(None,),
               vsh_fmtid=(C.c_uint32, P, I, I, I, I, I),
               vsh_newframe=(P, P, I, I, I, I, I, I, I), vsh_newaudio=(P, P, I, I, C.c_uint64, I), vsh_freeframe=(None, P), vsh_addframe=(P, P),
               vsh_rptr=(P, P, I), vsh_wptr=(P, P, I), vsh_stride=(Q, P, I), vsh_width=(I, P, I), vsh_height=(I, P, I), vsh_length=(I, P),
               vsh_ftype=(I, P), vsh_framefmt=(None, P, P), vsh_audioframefmt=(None, P, P), vsh_propsro=(P, P), vsh_propsrw=(P, P),
               vsh_source=(P, P, I, I, I, I, I, I, I, Q, Q, P, I, I), vsh_asource=(P, P, I, I, C.c_uint64, I, Q, P, I),
               vsh_freenode=(None, P), vsh_addnode=(P, P), vsh_nodetype=(I, P), vsh_vi=(None, P, P), vsh_ai=(None, P, P),
               vsh_numdeps=(I, P), vsh_dep=(None, P, I, P), vsh_nodename=(S, P), vsh_cachemode=(None, P, I),
               vsh_getframe=(P, P, I, S, I), vsh_getframes=(None, P, P, I, P, S, I),
               vsh_map=(P,), vsh_freemap=(None, P), vsh_maperr=(S, P), vsh_nkeys=(I, P), vsh_key=(S, P, I), vsh_ktype=(I, P, S), vsh_knum=(I, P, S),
               vsh_geti=(Q, P, S, I), vsh_getf=(D, P, S, I), vsh_gets=(P, P, S, I), vsh_getsn=(I, P, S, I), vsh_geth=(I, P, S, I), vsh_getn=(P, P, S, I),
               vsh_getfr=(P, P, S, I), vsh_empty=(I, P, S, I), vsh_seti=(I, P, S, Q), vsh_setf=(I, P, S, D), vsh_setia=(I, P, S, P, I), vsh_setfa=(I, P, S, P, I), vsh_sets=(I, P, S, S, I, I),
               vsh_setn=(I, P, S, P), vsh_setfr=(I, P, S, P), vsh_setfn=(I, P, S, P), vsh_seterr=(I, P, S),
               vsh_func=(P, P, P, Q), vsh_freefunc=(None, P), vsh_invoke=(P, P, S, S, P), vsh_args=(S, P, S, S), vsh_functions=(I, P, S, S, I))
    for k, v in sig.items():
        f = getattr(L, k)
        f.restype = v[0]
        f.argtypes = list(v[1:])
    if not L.vsh_init():
        raise RuntimeError('no API')


class Fmt:
    """a video format"""
    __slots__ = ('cf', 'st', 'bits', 'ssw', 'ssh')

    def __init__(self, cf, st, bits, ssw=0, ssh=0):
        self.cf, self.st, self.bits, self.ssw, self.ssh = cf, st, bits, ssw, ssh

    @property
    def np(self):
        return 1 if self.cf == GRAY else 3

    @property
    def key(self):
        return (self.cf, self.st, self.bits, self.ssw, self.ssh)

    def __eq__(self, o):
        return isinstance(o, Fmt) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    @property
    def isfloat(self):
        return self.st == 1

    @property
    def dtype(self):
        if self.st:
            return np.float16 if self.bits == 16 else np.float32
        return np.uint8 if self.bits <= 8 else np.uint16 if self.bits <= 16 else np.uint32

    @property
    def peak(self):
        return (1 << self.bits) - 1

    def dims(self, p, w, h):
        return (h >> self.ssh, w >> self.ssw) if p else (h, w)

    def chroma(self, p):
        return self.cf == YUV and p > 0

    def __repr__(self):
        return '%s%s%d%s' % ({1: 'GRAY', 2: 'RGB', 3: 'YUV'}[self.cf], 'F' if self.st else 'P', self.bits,
                             'ss%d%d' % (self.ssw, self.ssh) if self.cf == YUV else '')


ADT = {(0, 16): np.int16, (0, 32): np.int32, (1, 32): np.float32}


def adtype(st, bits):
    return np.float32 if st else np.int16 if bits == 16 else np.int32


def _arr(ptr, h, w, stride, dt):
    it = np.dtype(dt).itemsize
    if h == 0 or w == 0:
        return np.zeros((h, w), dt)
    buf = (C.c_uint8 * (stride * (h - 1) + w * it)).from_address(ptr)
    return np.ndarray((h, w), dt, buf, 0, (stride, it))


class Frame:
    """owns one reference"""
    def __init__(self, ptr):
        self.ptr = ptr
        self._pl = None

    def __del__(self):
        if self.ptr and L:
            L.vsh_freeframe(self.ptr)
            self.ptr = None

    @property
    def isvideo(self):
        return L.vsh_ftype(self.ptr) == 1

    @property
    def fmt(self):
        o = (C.c_int64 * 8)()
        L.vsh_framefmt(self.ptr, o)
        return Fmt(*list(o)[:5])

    @property
    def afmt(self):
        o = (C.c_int64 * 8)()
        L.vsh_audioframefmt(self.ptr, o)
        return tuple(o)[:5]           # st, bits, bytes, channels, layout

    @property
    def w(self):
        return L.vsh_width(self.ptr, 0)

    @property
    def h(self):
        return L.vsh_height(self.ptr, 0)

    def view(self, p, write=False):
        dt = self.fmt.dtype
        q = L.vsh_wptr(self.ptr, p) if write else L.vsh_rptr(self.ptr, p)
        return _arr(q, L.vsh_height(self.ptr, p), L.vsh_width(self.ptr, p), L.vsh_stride(self.ptr, p), dt)

    @property
    def planes(self):
        if self._pl is None:
            self._pl = [self.view(p).copy() for p in range(self.fmt.np)]
        return self._pl

    def achan(self, c, write=False):
        st, bits, by, nc, lay = self.afmt
        dt = adtype(st, bits)
        q = L.vsh_wptr(self.ptr, c) if write else L.vsh_rptr(self.ptr, c)
        return _arr(q, 1, L.vsh_length(self.ptr), 0, dt)[0]

    @property
    def channels(self):
        return [self.achan(c).copy() for c in range(self.afmt[3])]

    @property
    def props(self):
        return mapget(L.vsh_propsro(self.ptr))

    def setprops(self, d):
        m = L.vsh_propsrw(self.ptr)
        for k, v in d.items():
            mapput(m, k, v)


class Func:
    def __init__(self, ptr):
        self.ptr = ptr

    def __del__(self):
        if self.ptr and L:
            L.vsh_freefunc(self.ptr)
            self.ptr = None


class Node:
    def __init__(self, ptr):
        self.ptr = ptr

    def __del__(self):
        if self.ptr and L:
            L.vsh_freenode(self.ptr)
            self.ptr = None

    @property
    def isvideo(self):
        return L.vsh_nodetype(self.ptr) == 1

    def _vi(self):
        o = (C.c_int64 * 12)()
        L.vsh_vi(self.ptr, o)
        return list(o)

    @property
    def fmt(self):
        v = self._vi()
        return Fmt(*v[:5]) if v[0] else None

    @property
    def w(self):
        return self._vi()[7]

    @property
    def h(self):
        return self._vi()[8]

    @property
    def n(self):
        return self._vi()[9] if self.isvideo else self.ai[7]

    @property
    def fps(self):
        return tuple(self._vi()[10:12])

    @property
    def ai(self):
        """st, bits, bytes, channels, layout, rate, samples, frames"""
        o = (C.c_int64 * 8)()
        L.vsh_ai(self.ptr, o)
        return list(o)

    @property
    def layout(self):
        return self.ai[4] & 0xFFFFFFFFFFFFFFFF

    def get(self, n):
        err = C.create_string_buffer(2048)
        p = L.vsh_getframe(self.ptr, n, err, 2048)
        if not p:
            raise VSError(err.value.decode('utf-8', 'replace'))
        return Frame(p)

    def getmany(self, ns):
        """list of Frame or VSError, all requested at once"""
        k = len(ns)
        if not k:
            return []
        a = (C.c_int * k)(*ns)
        o = (C.c_void_p * k)()
        e = C.create_string_buffer(k * 512)
        L.vsh_getframes(self.ptr, a, k, o, e, 512)
        return [Frame(o[i]) if o[i] else VSError(e.raw[i * 512:(i + 1) * 512].split(b'\0')[0].decode('utf-8', 'replace')) for i in range(k)]


def mapget(m):
    """dict of lists; data values are bytes (or str when marked as text)"""
    out = {}
    for i in range(L.vsh_nkeys(m)):
        k = L.vsh_key(m, i)
        t = L.vsh_ktype(m, k)
        n = L.vsh_knum(m, k)
        v = []
        for j in range(n):
            if t == 1:
                v.append(L.vsh_geti(m, k, j))
            elif t == 2:
                v.append(L.vsh_getf(m, k, j))
            elif t == 3:
                d = C.string_at(L.vsh_gets(m, k, j), L.vsh_getsn(m, k, j))
                v.append(d.decode('utf-8', 'replace') if L.vsh_geth(m, k, j) == 1 else d)
            else:
                v.append(_obj(m, k, j, t))
        out[k.decode()] = v
    return out


def _obj(m, k, j, t):
    # VSPropertyType: 1 int 2 float 3 data 4 function 5 video node 6 audio node 7 video frame 8 audio frame
    if t in (5, 6):
        return Node(L.vsh_getn(m, k, j))
    if t in (7, 8):
        return Frame(L.vsh_getfr(m, k, j))
    return None


def mapput(m, k, v, typ=None):
    kb = k.encode()
    if isinstance(v, np.ndarray):
        v = np.ascontiguousarray(v, np.float64 if typ == 'float' or typ is None and v.dtype.kind == 'f' else np.int64)
        if (L.vsh_setfa if v.dtype.kind == 'f' else L.vsh_setia)(m, kb, v.ctypes.data, len(v)):
            raise ValueError(f'could not set {k}')
        return
    if not isinstance(v, (list, tuple)):
        v = [v]
    if not v:
        L.vsh_empty(m, kb, {'int': 1, 'float': 2, 'data': 3, 'func': 4, 'vnode': 5, 'anode': 6}.get(typ, 1))
    for x in v:
        if isinstance(x, Node):
            r = L.vsh_setn(m, kb, x.ptr)
        elif isinstance(x, Func):
            r = L.vsh_setfn(m, kb, x.ptr)
        elif isinstance(x, Frame):
            r = L.vsh_setfr(m, kb, x.ptr)
        elif isinstance(x, str):
            b = x.encode()
            r = L.vsh_sets(m, kb, b, len(b), 1)
        elif isinstance(x, (bytes, bytearray)):
            r = L.vsh_sets(m, kb, bytes(x), len(x), 0)
        elif typ == 'float' or (typ is None and isinstance(x, (float, np.floating))):
            r = L.vsh_setf(m, kb, float(x))
        else:
            r = L.vsh_seti(m, kb, int(x))
        if r:
            raise ValueError(f'could not set {k}')


_cbs = {}
_ncb = 0
_cbt = C.CFUNCTYPE(None, C.c_int64, C.c_void_p, C.c_void_p)


@_cbt
def _cb(i, inp, out):
    try:
        r = _cbs[i](mapget(inp))
        if not isinstance(r, dict):
            r = {'val': r}
        for k, v in r.items():
            mapput(out, k, v)
    except Exception as e:       # the error text is the callback's
        L.vsh_seterr(out, str(e).encode())


class Core:
    def __init__(self, threads=0, flags=0, log=True):
        self.ptr = L.vsh_core(flags, threads)
        self._args = {}
        if log:
            L.vsh_log(self.ptr)

    def free(self):
        import gc
        _cbs.clear()              # their closures hold nodes and frames
        gc.collect()
        L.vsh_freecore(self.ptr)
        self.ptr = None

    def func(self, f):
        global _ncb
        i = _ncb = _ncb + 1
        _cbs[i] = f
        return Func(L.vsh_func(self.ptr, C.cast(_cb, C.c_void_p), i))

    def signature(self, name, ns='std'):
        k = (ns, name)
        if k not in self._args:
            s = L.vsh_args(self.ptr, ns.encode(), name.encode())
            if s is None:
                raise KeyError(name)
            d = {}
            for a in s.decode().split(';'):
                q = a.split(':')
                if len(q) > 1:
                    d[q[0]] = q[1].replace('[]', '')
            self._args[k] = d
        return self._args[k]

    def functions(self, ns='std'):
        b = C.create_string_buffer(65536)
        L.vsh_functions(self.ptr, ns.encode(), b, 65536)
        return [x for x in b.value.decode().split('\n') if x]

    def invoke(self, name, ns='std', **kw):
        sg = self.signature(name, ns)
        m = L.vsh_map()
        try:
            for k, v in kw.items():
                if v is not None:
                    mapput(m, k, v, sg.get(k))
            r = L.vsh_invoke(self.ptr, ns.encode(), name.encode(), m)
            if not r:
                raise VSError('no plugin')
            try:
                e = L.vsh_maperr(r)
                if e is not None:
                    raise VSError(e.decode('utf-8', 'replace'))
                return mapget(r)
            finally:
                L.vsh_freemap(r)
        finally:
            L.vsh_freemap(m)

    def clip(self, name, **kw):
        return self.invoke(name, **kw)['clip'][0]

    def setcpu(self, cpu):
        return self.invoke('SetMaxCPU', cpu=cpu)['cpu'][0]

    def frame(self, fmt, planes, props=None):
        h, w = planes[0].shape
        f = Frame(L.vsh_newframe(self.ptr, *fmt.key, w, h))
        if not f.ptr:
            raise ValueError('bad format')
        for p in range(fmt.np):
            f.view(p, True)[...] = planes[p]
        if props:
            f.setprops(props)
        return f

    def aframe(self, st, bits, layout, chans, props=None):
        f = Frame(L.vsh_newaudio(self.ptr, st, bits, layout, len(chans[0])))
        for c, a in enumerate(chans):
            f.achan(c, True)[...] = a
        if props:
            f.setprops(props)
        return f

    def source(self, frames, fmt='first', w=None, h=None, fps=(25, 1), delay=0):
        """frames: list of Frame; fmt None: variable format, w 0: variable size; default those of the first frame"""
        if isinstance(fmt, str):
            fmt = frames[0].fmt
        if w is None:
            w, h = frames[0].w, frames[0].h
        a = (C.c_void_p * len(frames))(*[f.ptr if f else None for f in frames])
        k = fmt.key if fmt else (-1, 0, 0, 0, 0)
        return Node(L.vsh_source(self.ptr, *k, w, h, fps[0], fps[1], a, len(frames), delay))

    def asource(self, frames, rate, samples=None):
        st, bits, by, nc, lay = frames[0].afmt
        a = (C.c_void_p * len(frames))(*[f.ptr if f else None for f in frames])
        if samples is None:
            samples = sum(L.vsh_length(f.ptr) for f in frames)
        return Node(L.vsh_asource(self.ptr, st, bits, lay & 0xFFFFFFFFFFFFFFFF, rate, samples, a, len(frames)))


def logs():
    out = []
    b = C.create_string_buffer(4096)
    for i in range(L.vsh_nlog()):
        t = L.vsh_getlog(i, b, 4096)
        out.append((t, b.value.decode('utf-8', 'replace')))
    L.vsh_clearlog()
    return out
