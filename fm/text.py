"""text.Text, FrameNum, FrameProps, ClipInfo and CoreInfo: the glyphs drawn and everything around them, against an independent renderer"""
import math, struct
import numpy as np
from fcommon import *
from vs import Frame, Node, L
import vs
from fm.textfont import FONT

HOLES = (129, 141, 143, 144, 157)
GLYPHS = np.unpackbits(np.frombuffer(FONT, np.uint8).reshape(-1, 16, 1), axis=2).astype(bool)     # [251,16,8]
MARGIN = 16
MATRIX = {0: 'sRGB', 1: 'BT.709', 4: 'FCC', 5: 'BT.601', 6: 'BT.601', 7: 'SMPTE 240M', 8: 'YCoCg', 9: 'BT.2020 NCL', 10: 'BT.2020 CL', 11: 'SMPTE 2085',
          12: 'Chromaticity derived NCL', 13: 'Chromaticity derived CL', 14: 'ICtCp'}
PRIM = {1: 'BT.709', 4: 'BT.470M', 5: 'BT.470BG', 6: 'SMPTE ST 170', 7: 'SMPTE ST 240', 8: 'FILM', 9: 'BT.2020', 10: 'SMPTE ST 428-1', 11: 'SMPTE RP 431-2',
        12: 'SMPTE EG 432-1', 22: 'JEDEC P22'}
TRANS = {1: 'BT.709', 4: 'Gamma 2.2', 5: 'Gamma 2.8', 6: 'SMPTE ST 170', 7: 'SMPTE ST 240', 8: 'Linear', 9: 'Logarithmic (100:1 range)',
         10: 'Logarithmic (100 * Sqrt(10) : 1 range)', 11: 'IEC 61966-2-4', 12: 'BT.1361 Extended Colour Gamut', 13: 'IEC 61966-2-1',
         14: 'BT.2020 for 10 bit system', 15: 'BT.2020 for 12 bit system', 16: 'SMPTE ST 2084', 17: 'SMPTE ST 428-1', 18: 'ARIB STD-B67'}
LOC = {0: 'Left', 1: 'Center', 2: 'Top left', 3: 'Top', 4: 'Bottom left', 5: 'Bottom'}
FIELD = {0: 'Frame based', 1: 'Bottom field first', 2: 'Top field first'}
RANGE = {0: 'Limited range', 1: 'Full range'}


def glyph(c):
    if c < 32 or c in HOLES:
        c = ord('_')
    return c - sum(h < c for h in HOLES)


def layout(txt, w, h, scale):
    """lines of glyph numbers that fit"""
    txt = txt.replace(b'\r\n', b'\n').replace(b'\r', b'\n')
    cap = (w - 2 * MARGIN) // (8 * scale)
    out = []
    for l in txt.split(b'\n'):
        g = [glyph(c) for c in l]
        out.append(g[:cap])
        for i in range(cap, len(g), cap):
            out.append(g[i:i + cap])
    return out[:(h - 2 * MARGIN) // (16 * scale)]


def mask(txt, w, h, al, scale):
    """(covered, ink) of the luma plane"""
    cov, ink = np.zeros((h, w), bool), np.zeros((h, w), bool)
    lines = layout(txt, w, h, scale)
    th = len(lines) * 16 * scale
    row = (al - 1) // 3
    y = [h - th - MARGIN, (h - th) // 2, MARGIN][row]
    for l in lines:
        tw = len(l) * 8 * scale
        x = [MARGIN, (w - tw) // 2, w - tw - MARGIN][(al - 1) % 3]
        if l:
            cov[y:y + 16 * scale, x:x + tw] = True
            ink[y:y + 16 * scale, x:x + tw] = np.kron(np.concatenate([GLYPHS[g] for g in l], axis=1), np.ones((scale, scale), bool))
        y += 16 * scale
    return cov, ink


def plain(d):
    return {k: [type(x).__name__ if isinstance(x, (Frame, Node)) else x for x in v] for k, v in d.items()}


def judge(rep, key, what, src, got, txt, al, scale):
    """got: frame with txt drawn on src"""
    fmt = src.fmt
    if got.fmt != fmt or (got.w, got.h) != (src.w, src.h):
        rep.viol(key + ':info', f'{what}: {got.fmt} {got.w}x{got.h} from {fmt} {src.w}x{src.h}')
        return
    cov, ink = mask(txt, src.w, src.h, al, scale)
    white, black = (1., 0.) if fmt.isfloat else (235 << fmt.bits - 8, 16 << fmt.bits - 8)
    for p in range(fmt.np):
        g, s = got.planes[p], src.planes[p]
        if not p or fmt.cf == vs.RGB:
            e = np.where(cov, np.where(ink, white, black), s).astype(s.dtype)
            cmp_exact(rep, key, f'{what} plane {p}', g, e)
        else:
            c = cov.reshape(s.shape[0], 1 << fmt.ssh, s.shape[1], 1 << fmt.ssw)
            full, some = c.all(axis=(1, 3)), c.any(axis=(1, 3))
            neutral = s.dtype.type(0 if fmt.isfloat else 128 << fmt.bits - 8)
            bad = np.where(full, g != neutral, np.where(some, (g != neutral) & (g != s), g != s))
            if bad.any():
                y, x, k = first_diff(bad)
                rep.viol(key + ':chroma', f'{what} plane {p}: {k} wrong samples, first at y={y} x={x}: got {g[y, x]!r}, was {s[y, x]!r}')
    check_props(rep, key, what, plain(got.props), plain(src.props))


def rand_text(rng, cap):
    r = rng.random()
    if r < .1:
        return b''
    if r < .3:
        cs = range(1, 256)
    elif r < .5:
        cs = list(b'\r\n\r\nab \x81\x8d\x8f\x90\x9d\x80\x82\x8e\x91\x9e\xff\x1f\x7f')
    else:
        cs = list(range(32, 127)) + [10]
    n = rng.choice([rng.randint(1, 6), rng.randint(1, 60), cap, cap + 1, 2 * cap, 2 * cap + 1, rng.randint(1, 400)])
    t = bytes(rng.choice(cs) for _ in range(max(1, min(n, 600))))
    if rng.random() < .2:
        t = rng.choice([b'\r', b'\n', b'\r\n', b'\n\r', b'\r\r\n']) + t
    if rng.random() < .2:
        t += rng.choice([b'\r', b'\n', b'\r\n', b'\n\n', b'\r\r\n'])
    return t


def tostr(v):
    return ('%f' % v).encode() if math.isfinite(v) else (b'-' if math.copysign(1, v) < 0 else b'') + (b'nan' if v != v else b'inf')


def props_text(props, sel):
    t = b'Frame properties:\n'
    for k in sel or sorted(props, key=lambda x: x.encode()):
        t += k.encode() + b':'
        if k not in props:
            t += b' <no such property>\n'
            continue
        v = props[k]
        if isinstance(v[0], (Frame, Node)):
            kind = ('video ' if v[0].isvideo else 'audio ') + ('frame' if isinstance(v[0], Frame) else 'node')
            t += f'{len(v)} {kind}{"s" if len(v) != 1 else ""}'.encode()
        else:
            for x in v:
                t += b' '
                if isinstance(x, int):
                    t += str(x).encode()
                elif isinstance(x, float):
                    t += tostr(x)
                elif isinstance(x, str):
                    b = x.encode()
                    t += b if len(b) <= 100 else b'<property too long (%d bytes)>' % len(b)
                else:
                    t += b'<binary data (%d bytes)>' % len(x)
        t += b'\n'
    return t


def rand_fprops(core, rng):
    d = {}
    for k in rng.sample(['a', 'B', '_Matrix', '_PictType', 'x_y', 'zz', 'Ab', '_SARNum', 'node', 'frame', 'l' * 60], rng.randint(0, 7)):
        t = rng.choice(['i', 'f', 's', 's', 'b', 'n', 'fr'])
        k2 = rng.choice([1, 1, 2, 4])
        if t == 'i':
            d[k] = [rng.choice([0, -1, 2**63 - 1, -2**63, rng.randint(-999, 999)]) for _ in range(k2)]
        elif t == 'f':
            d[k] = [rng.choice([0., -0., 1.5, 1e-9, -2.25e10, 1e18, float('inf'), rng.random()]) for _ in range(k2)]
        elif t == 's':
            d[k] = [''.join(rng.choice(cs) for cs in [rng.choice(['abc \n.', 'abc äß€\n\t.'])] for _ in range(rng.choice([0, 3, 20, 99, 100, 101, 300]))) for _ in range(k2)]
        elif t == 'b':
            d[k] = [bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 101]))) for _ in range(k2)]
        elif t == 'n':
            d[k] = [core.clip('BlankClip', width=16, height=16, length=3)] * k2
        else:
            d[k] = [core.frame(vs.Fmt(1, 0, 8), [np.zeros((4, 4), np.uint8)])] * k2
    return d


def name_of(f):
    """the documented names of formats"""
    st = 'FS'[0] if f.isfloat else ''
    fl = {16: 'H', 32: 'S'}
    if f.cf == vs.GRAY:
        return 'Gray' + (fl[f.bits] if f.isfloat else str(f.bits))
    if f.cf == vs.RGB:
        return 'RGB' + (fl[f.bits] if f.isfloat else str(f.bits * 3))
    s = {(1, 1): '420', (1, 0): '422', (0, 0): '444', (2, 2): '410', (2, 0): '411', (0, 1): '440'}.get((f.ssw, f.ssh))
    if s:
        return 'YUV' + s + ('P' + (fl[f.bits] if f.isfloat else str(f.bits)))
    return 'YUVssw%dssh%dP%s' % (f.ssw, f.ssh, fl[f.bits] if f.isfloat else f.bits)


def clipinfo_text(node, f, vf):
    p = {k: v[0] for k, v in f.props.items()}
    vary = ' (may vary)' if not node.w else ''
    fmt = f.fmt
    g = lambda d, k: d.get(p[k] if isinstance(p.get(k), int) else None, 'Unknown')
    l = ['Clip info:', f'Width: {f.w} px{vary}', f'Height: {f.h} px{vary}',
         f'Sample aspect ratio: {p["_SARNum"]}:{p["_SARDen"]}' if '_SARNum' in p and '_SARDen' in p else 'Sample aspect ratio: Unknown',
         f'Length: {node.n} frames', 'Format name: ' + (name_of(fmt) if vf else 'Undefined (may vary)'),
         'Color family: ' + {1: 'Gray', 2: 'RGB', 3: 'YUV'}[fmt.cf], 'Sample type: ' + ('Float' if fmt.isfloat else 'Integer'), f'Bits per sample: {fmt.bits}',
         f'Subsampling Height/Width: {1 << fmt.ssh}x/{1 << fmt.ssw}x', 'Matrix: ' + g(MATRIX, '_Matrix'), 'Primaries: ' + g(PRIM, '_Primaries'),
         'Transfer: ' + g(TRANS, '_Transfer'), 'Range: ' + g(RANGE, '_Range'), 'Chroma Location: ' + g(LOC, '_ChromaLocation'), 'Field handling: ' + g(FIELD, '_FieldBased'),
         'Picture type: ' + p.get('_PictType', 'Unknown')]
    fn, fd = node.fps
    l.append('Fps: %d/%d (%s)' % (fn, fd, tostr(fn / fd).decode()) if fn and fd else 'Fps: Unknown')
    if '_DurationNum' in p and '_DurationDen' in p:
        a, b = p['_DurationNum'], p['_DurationDen']
        l.append('Frame duration: %d/%d (%s)' % (a, b, tostr(a / b).decode()))
    else:
        l.append('Frame duration: Unknown')
    return ('\n'.join(l) + '\n').encode()


def read_back(f):
    """the text drawn at the top left of a frame with scale 1, glyph by glyph"""
    pl = f.planes[0]
    fmt = f.fmt
    white, black = (1., 0.) if fmt.isfloat else (235 << fmt.bits - 8, 16 << fmt.bits - 8)
    idx = {GLYPHS[glyph(c)].tobytes(): chr(c) for c in range(126, 31, -1)}
    out = []
    for y in range(MARGIN, f.h - MARGIN - 15, 16):
        l = ''
        for x in range(MARGIN, f.w - MARGIN - 7, 8):
            cell = pl[y:y + 16, x:x + 8]
            if not np.isin(cell, [white, black]).all():
                break
            ch = idx.get((cell == white).tobytes())
            if ch is None:
                break
            l += ch
        out.append(l)
    return out


def source(core, rng, nrng, n, minw, minh, props=None, big=False):
    """possibly of variable format or size"""
    fr = []
    var = rng.random() < .2
    fmt = rand_fmt(rng, maxss=4 if rng.random() < .3 else 2)
    for i in range(n):
        if var and i:
            fmt = rand_fmt(rng) if rng.random() < .5 else fmt
        if not i or var:
            w = minw + rng.choice([0, 1, 7, 8, 9, 15, 16, 17, rng.randint(0, 200)]) if not big else rng.randint(640, 700)
            h = minh + rng.choice([0, 1, 15, 16, 17, 31, 32, rng.randint(0, 100)]) if not big else rng.randint(400, 420)
            w = -(-w >> fmt.ssw) << fmt.ssw
            h = -(-h >> fmt.ssh) << fmt.ssh
        fr.append(core.frame(fmt, rand_planes(rng, nrng, fmt, w, h, style=rng.choice(['uniform', 'flat'])), props() if props else rand_props(rng, i)))
    fps = rng.choice([(25, 1), (30000, 1001), (0, 0), (1, 7)])
    if not var:
        return core.source(fr, fps=fps), fr, True
    vf = len({f.fmt.key for f in fr}) == 1
    vs_ = len({(f.w, f.h) for f in fr}) == 1
    return core.source(fr, fmt='first' if vf else None, w=None if vs_ else 0, h=None if vs_ else 0, fps=fps), fr, vf


def case(core, rng, nrng, rep, k, opts):
    core.setcpu(rng.choice(LEVELS))
    flt = rng.choice(['Text', 'Text', 'Text', 'FrameNum', 'FrameProps', 'FrameProps', 'ClipInfo', 'CoreInfo', 'reject'])
    scale = rng.choice([None, 1, 1, 2, 3, 5])
    al = rng.choice([None, 1, 2, 3, 4, 5, 6, 7, 8, 9])
    s, a = scale or 1, al or 7
    n = rng.randint(1, 4)
    minw, minh = 32 + 8 * s, 32 + 16 * s
    if flt == 'reject':
        src, fr, vf = source(core, rng, nrng, n, minw, minh)
        what = None
        kw = {}
        r = rng.choice(['align', 'scale', 'small', 'fmt'])
        if r == 'align':
            kw['alignment'] = rng.choice([0, -1, 10, 2**31, -2**63, 2**40 + 7])
        elif r == 'scale':
            kw['scale'] = rng.choice([0, -1, 65537, 2**32 + 1, 2**63 - 1])
        elif r == 'fmt':
            f = vs.Fmt(1, 0, rng.choice([17, 24, 32]))
            src = core.source([core.frame(f, [np.zeros((200, 200), np.uint32)])])
        else:
            s2 = rng.choice([1, 2, 4, 65536, 30000])
            f = vs.Fmt(1, 0, 8)
            w, h = rng.choice([(31 + 8 * s2, 32 + 16 * s2), (32 + 8 * s2, 31 + 16 * s2)])
            if w * h > 10**7:
                w, h = 500, 300
            c = core.source([core.frame(f, [np.zeros((h, w), np.uint8)])])
            t = core.clip('Text', ns='text', clip=c, text='x', scale=s2)
            try:
                t.get(0)
                rep.viol('Text:small', f'text of scale {s2} accepted on a frame of {w}x{h}')
            except VSError:
                pass
            rep.count('rejected')
            rep.ev(1, ('small', s2, w, h))
            return
        name = rng.choice(['Text', 'FrameNum', 'FrameProps', 'ClipInfo', 'CoreInfo'])
        if name == 'Text':
            kw['text'] = 'abc'
        try:
            core.clip(name, ns='text', clip=src, **kw)
            rep.viol('Text:accepted', f'{name} accepted {kw} on {src.fmt}')
        except VSError:
            pass
        rep.count('rejected')
        rep.ev(1, ('reject', r, name))
        return
    rep.count(flt)
    kw = {}
    if al is not None:
        kw['alignment'] = al
    if scale is not None:
        kw['scale'] = scale
    if flt == 'CoreInfo':
        lim = rng.choice([1 << 30, 123456789, (1 << 33) + 5])
        lim = L_maxcache(core, lim)
        if rng.random() < .3:
            node = core.clip('CoreInfo', ns='text')
            f = node.get(0)
        else:
            src, fr, vf = source(core, rng, nrng, 1, minw, minh, big=True)
            node = core.clip('CoreInfo', ns='text', clip=src)
            f = node.get(0)
        t = read_back(f)
        what = f'CoreInfo {t[:6]}'
        size = f.w * f.h
        used = vs.L.vsh_used(core.ptr)
        d = dict(x.split(': ', 1) for x in t if ': ' in x)
        try:
            if int(d['Threads']) != core_threads(core):
                rep.viol('CoreInfo', f'{what}: the core has {core_threads(core)} threads')
            if d['Maximum framebuffer cache size'].strip() != f'{lim} bytes':
                rep.viol('CoreInfo', f'{what}: the limit is {lim}')
            u = int(d['Used framebuffer cache size'].split()[0])
            if u < size or u > (1 << 31):
                rep.viol('CoreInfo', f'{what}: used memory')
        except (KeyError, ValueError) as e:
            rep.viol('CoreInfo', f'{what}: could not be read: {e!r}')
        rep.ev(1, ('core', f.fmt.key))
        return
    mk = None
    if flt == 'FrameProps':
        mk = lambda: rand_fprops(core, rng)
    elif flt == 'ClipInfo':
        def mk():
            d = {}
            for key, top in (('_Matrix', 15), ('_Primaries', 23), ('_Transfer', 19), ('_Range', 3), ('_ChromaLocation', 6), ('_FieldBased', 3)):
                if rng.random() < .8:
                    d[key] = rng.choice([rng.randint(-1, top), rng.randint(0, top - 1), rng.choice([2**40, -2**63, 2**63 - 1])] if rng.random() < .2 else [rng.randint(0, top - 1)])
            if rng.random() < .7:
                d['_SARNum'] = rng.randint(-3, 100)
                if rng.random() < .8:
                    d['_SARDen'] = rng.randint(1, 2**62)
            if rng.random() < .7:
                d['_DurationNum'] = rng.randint(1, 90000)
                if rng.random() < .8:
                    d['_DurationDen'] = rng.randint(1, 90000)
            if rng.random() < .5:
                d['_PictType'] = rng.choice(['I', 'P', 'B', 'Unknown'])
            return d
    src, fr, vf = source(core, rng, nrng, n, minw, minh, mk, big=flt == 'ClipInfo' or flt == 'FrameProps' and rng.random() < .7)
    if flt == 'Text':
        txt = rand_text(rng, (fr[0].w - 32) // (8 * s))
        kw['text'] = txt
        texts = [txt] * n
    elif flt == 'FrameNum':
        texts = [b'%d' % i for i in range(n)]
        if rng.random() < .5:      # large numbers
            rep_n = rng.choice([10, 99, 1000, 12345])
            src = core.clip('Loop', clip=src, times=0)
            ns = [rng.randrange(src.n) for _ in range(3)] + [src.n - 1]
            node = core.clip('FrameNum', ns='text', clip=src, **kw)
            for i, f in zip(ns, fetch(rep, 'FrameNum', f'FrameNum {kw}', node, ns)):
                if f is not None:
                    judge(rep, 'FrameNum', f'FrameNum {kw} frame {i}', fr[i % n], f, b'%d' % i, a, s)
                    rep.ev(1, ('num', fr[i % n].fmt.key, a, s))
            return
    elif flt == 'FrameProps':
        sel = None
        if rng.random() < .4:
            sel = [rng.choice(list(fr[0].props) + ['no', 'A', '_x']) for _ in range(rng.randint(1, 4))]
            kw['props'] = sel
        texts = [props_text(f.props, sel) for f in fr]
    else:
        texts = [clipinfo_text(src, f, vf) for f in fr]
    what = f'{flt} {kw} on {src.fmt} {src.w}x{src.h}'
    for f in fr:
        f.planes          # kept from before
    node = core.clip(flt, ns='text', clip=src, **kw)
    check_info(rep, flt, what, node, src.fmt, src.w, src.h, src.n, src.fps)
    ns = rng.sample(range(n), n)
    for i, f in zip(ns, fetch(rep, flt, what, node, ns)):
        if f is not None:
            judge(rep, flt, f'{what} frame {i} ({fr[i].fmt} {fr[i].w}x{fr[i].h})', fr[i], f, texts[i], a, s)
            rep.ev(1, (flt, fr[i].fmt.key, fr[i].w, a, s))
    for i, f in enumerate(fr):      # the source frames were not drawn on
        g = src.get(i)
        for p in range(f.fmt.np):
            cmp_exact(rep, flt + ':source', f'{what}: frame {i} of the source afterwards, plane {p}', g.view(p), f.planes[p])


def L_maxcache(core, v):
    return vs.L.vsh_maxcache(v, core.ptr)


def core_threads(core):
    return vs.L.vsh_threads(core.ptr)
