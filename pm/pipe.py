"""V01: vspipe. Generated scripts are run through the real program; what it writes is judged byte for byte against what the script defines."""
import json, math, os, random, re, shutil, struct, subprocess, tempfile
from fractions import Fraction
import vapoursynth as vs

SITE = os.path.dirname(vs.__file__)
PIPE = os.path.join(SITE, 'vspipe')
PD = os.path.join(os.path.dirname(os.path.dirname(SITE)), 'pipedelay.so')
ASAN = 'asan' in os.path.basename(os.path.dirname(os.path.dirname(SITE)))

SCRIPT = r'''
import vapoursynth as vs, json, ctypes, time, random, sys
core = vs.core
with open('cfg.json') as fh:
    cfg = json.load(fh)
seen = dict(name=__name__, file=__file__, args={k: globals().get(k) for k in cfg['args']})
with open('seen.json', 'w') as fh:
    fh.write(json.dumps(seen))
for lv, t in cfg['logs']:
    core.log_message(lv, t)
def fill(o, tag, v):
    def f(n, f):
        g = f.copy()
        for p in range(g.format.num_planes):
            w, h = g.width, g.height
            if p:
                w >>= g.format.subsampling_w
                h >>= g.format.subsampling_h
            row = w * g.format.bytes_per_sample
            data = random.Random('%s:%s:%s:%d:%d' % (cfg['seed'], o, tag, n, p)).randbytes(row * h)
            a, st = g.get_write_ptr(p).value, g.get_stride(p)
            for y in range(h):
                ctypes.memmove(a + y * st, data[y * row:(y + 1) * row], row)
        if tag == 'v':
            for k, x in v['props'].get(str(n), {}).items():
                if isinstance(x, dict):
                    if 'del' in x:
                        del g.props[k]
                        continue
                    x = {'b': lambda t: bytes.fromhex(t), 'f': lambda t: float.fromhex(t), 'fl': lambda t: [float.fromhex(q) for q in t],
                         'clip': lambda t: CL, 'frame': lambda t: FR, 'func': lambda t: (lambda: 1)}[next(iter(x))](next(iter(x.values())))
                g.props[k] = x
            if v['delays'][n % len(v['delays'])]:
                time.sleep(v['delays'][n % len(v['delays'])] / 1000)
            if n == v['fail']:
                raise ValueError('frame %d of output fails' % n)
        return g
    return f
CL = core.std.BlankClip(length=1, width=8, height=8)
FR = CL.get_frame(0)
def audio_clip(core, v):
    a = core.std.BlankAudio(channels=v['ch'], bits=v['bits'], sampletype=v['float'], samplerate=v['rate'], length=v['n'], waveform='sine', amplitude=.7, frequency=441.0)
    return core.std.AudioGain(a, [1 - .07 * i for i in range(len(v['ch']))])
for o, v in cfg['outs'].items():
    if v['type'] == 'v':
        c = core.std.BlankClip(format=v['fmt'], width=v['w'], height=v['h'], length=v['n'], fpsnum=v['fps'][0], fpsden=v['fps'][1])
        if v['const']:
            c = core.std.SetFrameProps(c, **v['const'])
        a = None
        if v['alpha']:
            a = core.std.BlankClip(format=core.query_video_format(vs.GRAY, c.format.sample_type, c.format.bits_per_sample).id, width=v['w'], height=v['h'], length=v['n'])
            a = core.std.ModifyFrame(a, a, fill(o, 'a', v))
        c = core.std.ModifyFrame(c, c, fill(o, 'v', v))
        if v['var']:
            c = core.std.Splice([c, core.std.BlankClip(c, width=v['w'] * 2, length=1)], mismatch=True)
            a = None
        c.set_output(int(o), **({'alpha': a} if a is not None else {}))
    else:
        audio_clip(core, v).set_output(int(o))
if cfg['end'] is not None:
    exec(cfg['end'])
'''
NASTY = ['', 'plain', 'a"b', 'back\\slash', 'tab\tnl\nret\r', 'ctl\x01\x1f\x7f', 'nul\x00in', 'ünï¢ödé \U0001F600', '{"x": [1, 2]}', '\u2028', '%s%n', 'x' * 300]
IDENT = {(1, 1): '420', (1, 0): '422', (0, 0): '444', (2, 2): '410', (2, 0): '411', (0, 1): '440'}


def video(rng, st):
    cf = rng.choice(['g', 'y', 'y', 'y', 'r'])
    fl = rng.random() < .2
    bits = rng.choice([16, 32]) if fl else rng.choice([8, 8, 9, 10, 12, 14, 16, 16, 32])
    sw, sh = rng.choice([(0, 0), (1, 0), (1, 1), (1, 1), (2, 0), (2, 2), (0, 1), (1, 2), (2, 1)]) if cf == 'y' else (0, 0)
    fam = {'g': vs.GRAY, 'y': vs.YUV, 'r': vs.RGB}[cf]
    f = vs.core.query_video_format(fam, vs.FLOAT if fl else vs.INTEGER, bits, sw, sh)
    w, h = rng.choice([1, 2, 3, 7, 16, 33, 64]) << sw, rng.choice([1, 2, 5, 8]) << sh
    n = rng.choice([1, 1, 2, 3, 5, 9, 17, 30])
    if rng.random() < .08:
        w, h, n = 512 << sw, 96 << sh, 6
    v = dict(type='v', fmt=int(f.id), w=w, h=h, n=n, fps=rng.choice([(24, 1), (30000, 1001), (0, 1), (25, 2), (1, 3)]), alpha=rng.random() < .3,
             delays=[rng.choice([0, 0, 0, 1, 3, 12]) for _ in range(7)] if rng.random() < .5 else [0], fail=-1, var=rng.random() < .04, props={}, const={})
    v['_'] = dict(cf=cf, fl=fl, bits=bits, sw=sw, sh=sh, bps=f.bytes_per_sample, name=f.name)
    if rng.random() < .12:
        v['fail'] = rng.randrange(n)
    for k in range(rng.choice([0, 0, 1, 3])):
        v['const']['c%d' % k] = rng.choice([rng.randrange(-9, 9), rng.choice(NASTY), rng.choice(NASTY), [1, 2, 3]])
    if rng.random() < .6:
        for i in range(n):
            if rng.random() < .6:
                v['props'][str(i)] = d = {}
                for k in range(rng.randint(1, 4)):
                    key = rng.choice(['a', 'b', 'Long_Key_9', '_Matrix', '_x'])
                    r = rng.random()
                    d[key] = (rng.choice([0, -1, 2**63 - 1, -2**63, 1 << 53, rng.getrandbits(40)]) if r < .25 or key == '_Matrix' else
                              rng.choice(NASTY) if r < .45 else
                              {'f': rng.choice([.1, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, math.inf, math.nan, -math.inf, 3.0, rng.uniform(-1e6, 1e6)]).hex()} if r < .65 else
                              {'fl': [rng.uniform(-9, 9).hex() for _ in range(3)]} if r < .7 else
                              {'b': rng.randbytes(rng.choice([0, 1, 40, 250])).hex()} if r < .8 else
                              [rng.getrandbits(20) for _ in range(rng.choice([1, 2, 5]))] if r < .87 else
                              [rng.choice(NASTY) for _ in range(2)] if r < .92 else {rng.choice(['clip', 'frame', 'func']): 1})
                    if key == '_Matrix':
                        d[key] = rng.randrange(0, 9)
    st.durbad = None
    if rng.random() < .5:
        for i in range(n):
            d = v['props'].setdefault(str(i), {})
            if rng.random() < .08:
                k, x = rng.choice([('_DurationNum', 0), ('_DurationDen', 0), ('_DurationNum', -4), ('_DurationDen', -1)] + ([('_DurationNum', {'del': 1})] if v['fps'][0] else []))
                d[k] = x
            elif rng.random() < .5 or v['fps'][0] == 0:
                d['_DurationNum'], d['_DurationDen'] = rng.choice([(1, 24), (1001, 30000), (5, 1), (rng.randrange(1, 10**6), rng.randrange(1, 10**6)), (2**62, 3), (1, 2**62)])
    return v


def audio(rng):
    fl = rng.random() < .3
    bits = 32 if fl else rng.choice([16, 16, 24, 20, 32, 17, 25, rng.randint(16, 32)])
    chans = rng.choice([[0], [0, 1], [0, 1], [0, 1, 2, 3, 4, 5], [2, 9, 17], [0, 1, 35]])
    v = dict(type='a', ch=chans, bits=bits, float=int(fl), rate=rng.choice([8000, 44100, 48000, 96000]), n=rng.choice([1, 100, 3071, 3072, 3073, 9000, 30000]))
    return v


def plane_sizes(v, alpha):
    m = v['_']
    if alpha:
        return [v['w'] * v['h'] * m['bps']]
    s = [v['w'] * v['h'] * m['bps']]
    if m['cf'] != 'g':
        s += [(v['w'] >> m['sw']) * (v['h'] >> m['sh']) * m['bps']] * 2
    return s


def frame_bytes(st, o, v, n):
    out = []
    order = [1, 2, 0] if v['_']['cf'] == 'r' else list(range(len(plane_sizes(v, False))))
    sz = plane_sizes(v, False)
    for p in order:
        out.append(random.Random('%s:%s:v:%d:%d' % (st.seed, o, n, p)).randbytes(sz[p]))
    if v['alpha']:
        out.append(random.Random('%s:%s:a:%d:0' % (st.seed, o, n)).randbytes(plane_sizes(v, True)[0]))
    return b''.join(out)


def audio_bytes(v, first, last):
    c = vs.core.std.BlankAudio(channels=v['ch'], bits=v['bits'], sampletype=v['float'], samplerate=v['rate'], length=v['n'], waveform='sine', amplitude=.7, frequency=441.0)
    c = vs.core.std.AudioGain(c, [1 - .07 * i for i in range(len(v['ch']))])
    nb = (v['bits'] + 7) // 8
    nc = c.num_channels
    chan = [b''.join(bytes(f[k]) for f in fr) for fr in [list(c.frames())] for k in range(nc)]
    w = c.bytes_per_sample
    out = bytearray()
    for i in range(first, last + 1):
        for k in range(nc):
            s = chan[k][i * w:(i + 1) * w]
            out += s[1:] if nb == 3 else s
    return bytes(out)


def props_of(v, n):
    """the properties the script defines for frame n"""
    d = {}
    if v['fps'][0]:
        g = math.gcd(*v['fps'])
        d['_DurationNum'], d['_DurationDen'] = v['fps'][1] // g, v['fps'][0] // g
    d.update(v['const'])
    for k, x in v['props'].get(str(n), {}).items():
        if isinstance(x, dict) and 'del' in x:
            d.pop(k, None)
        else:
            d[k] = x
    return d


def json_matches(got, x):
    if isinstance(x, dict):
        (t, val), = x.items()
        if t == 'f':
            f = float.fromhex(val)
            return got is None if not math.isfinite(f) else (isinstance(got, (int, float)) and float(got) == f)
        if t == 'fl':
            return isinstance(got, list) and [float(g) for g in got] == [float.fromhex(q) for q in val]
        if t == 'b':
            return got == '[binary data size: %d]' % (len(val) // 2)
        return True
    if isinstance(x, list):
        if len(x) == 1:
            return json_matches(got, x[0])
        return isinstance(got, list) and len(got) == len(x) and all(json_matches(a, b) for a, b in zip(got, x))
    return type(got) is type(x) and got == x


class St:
    pass


def run(st, args, delay=False, stdout=True):
    env = dict(os.environ)
    env.pop('LD_PRELOAD', None)
    env['XDG_CONFIG_HOME'] = st.dir
    env['PYTHONPATH'] = os.path.dirname(SITE)
    if delay and not ASAN:
        env['LD_PRELOAD'] = PD
        env['VERIF_DELAY'] = str(st.rng.getrandbits(30))
        env['VERIF_DELAY_US'] = str(st.rng.choice([300, 3000, 20000, 20000]))
    st.ran += 1
    for t in range(2):
        p = subprocess.Popen([PIPE] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=st.cwd, stdin=subprocess.DEVNULL)
        try:
            o, e = p.communicate(timeout=60)
            break
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            if t:
                st.rep.viol('hang', f'vspipe {args} did not finish within 60 s, twice')
                return None, b'', ''
    e = e.decode('utf-8', 'replace')
    if p.returncode == 127 or 'Failed to initialize VSScript' in e:
        os.write(2, e.encode())
        os._exit(77)
    if p.returncode < 0 or 'Sanitizer' in e or 'runtime error:' in e:
        m = re.search(r'ERROR: AddressSanitizer: (?:attempting )?(\S+)|runtime error: (.{0,40})', e)
        fn = re.search(r'#\d+ 0x\w+ in (\w+)[^\n]* /\S*/src/(?:vspipe|vsscript|core|common)/', e)
        k = 'crash:' + (re.sub(r'\W+|\d+', '-', (m[1] or m[2])) if m else 'signal%d' % -p.returncode) + (':' + fn[1] if fn else '')
        st.rep.viol(k, f'vspipe {args}: exit {p.returncode}: {e[-1200:]}')
        return None, b'', ''
    return p.returncode, o, e


def check_output(st):
    rng, rep, cfg = st.rng, st.rep, st.cfg
    o = rng.choice(list(cfg['outs']))
    v = cfg['outs'][o]
    vid = v['type'] == 'v'
    n = v['n']
    args, what = [], []
    if o != '0' or rng.random() < .3:
        args += [rng.choice(['-o', '--outputindex']), o]
    first, last, bad = 0, n - 1, False
    if rng.random() < .5:
        if rng.random() < .7:
            first = rng.choice([0, rng.randrange(n), n - 1]) if rng.random() < .88 else rng.choice([n, n + 5])
            args += [rng.choice(['-s', '--start']), str(first)]
        if rng.random() < .7:
            last = rng.choice([min(first, n - 1), rng.randrange(min(first, n - 1), n), n - 1]) if rng.random() < .88 else rng.choice([n, n + 3, max(first - 1, 0)])
            args += [rng.choice(['-e', '--end']), str(last)]
        bad = first >= n or last >= n or last < first
    if rng.random() < .6:
        args += [rng.choice(['-r', '--requests']), str(rng.choice([1, 2, 3, 0, -1, 7, 64]))]
    cont = None
    if rng.random() < .4:
        cont = rng.choice(['y4m', 'y4m', 'y4m', 'wav'] if vid else ['wav', 'w64', 'wav', 'w64', 'y4m'])
        args += [rng.choice(['-c', '--container']), cont]
    tc = js = None
    if rng.random() < (.5 if vid else .0):
        tc = st.dir + '/tc.txt'
        args += [rng.choice(['-t', '--timecodes']), tc]
    if rng.random() < .5:
        js = st.dir + '/p.json'
        args += [rng.choice(['-j', '--json']), js]
    for x, p in (('-p', .15), ('--filter-time', .1), ('--frame-ref-debug', .1)):
        if rng.random() < p:
            args.append(x)
    ftg = None
    if rng.random() < .1:
        ftg = st.dir + '/ftg.dot'
        args += ['--filter-time-graph', ftg]
    for k, x in cfg['args'].items():
        args += [rng.choice(['-a', '--arg']), f'{k}={x}']
    out = rng.choice(['-', 'f', 'f', 'f', '.', '--']) if rng.random() > .06 else '/dev/full'
    outp = st.dir + '/out.bin' if out == 'f' else out
    for f in (tc, js, ftg, st.dir + '/out.bin', st.dir + '/seen.json'):
        if f and os.path.exists(f):
            os.unlink(f)
    pos = [st.script, outp]
    args = args + pos if rng.random() < .5 else pos[:1] + args + pos[1:]
    delay = rng.random() < .5
    rc, so, se = run(st, args, delay)
    if rc is None:
        return
    desc = f'vspipe {" ".join(args)} on {json.dumps({k: x for k, x in v.items() if k not in ("props", "_")})}{" with delays" if delay else ""}'
    # what must happen
    why = None
    if cfg['end'] is not None:
        why, code = 'script fails', cfg['code']
    elif bad:
        why, code = 'invalid range', 1
    elif vid and v['var']:
        why, code = 'variable clip', 1
    elif vid and cont not in (None, 'y4m') or not vid and cont == 'y4m':
        why, code = 'container does not fit', 1
    elif cont == 'y4m' and (v['_']['cf'] == 'r' or v['alpha'] or v['_']['cf'] == 'y' and (v['_']['sw'], v['_']['sh']) not in IDENT):
        why, code = 'no y4m for this format', 1
    elif not vid and cont and any(c > 31 for c in v['ch']):
        why, code = 'no header for this layout', 1
    elif vid and first <= v['fail'] <= last:
        why, code = 'a frame fails', 1
    elif out == '/dev/full':
        why, code = 'output cannot be written', 1
    durs = []
    if vid and tc and why in (None, 'output cannot be written'):
        for k in range(first, last + 1):
            d = props_of(v, k)
            a, b = d.get('_DurationNum'), d.get('_DurationDen')
            if not isinstance(a, int) or not isinstance(b, int) or a <= 0 or b <= 0:
                why, code = 'no duration', 1
                break
            durs.append((a, b))
    rep.ev(1, (vid, cont, why, out, bool(tc), bool(js), v.get('alpha'), first != 0, last != n - 1, v.get('fmt'), delay))
    rep.count('runs:' + (why or 'complete'))
    if why:
        if not rep.eq('exit-code', rc, code, f'{desc}: {why}: exit code ({se[-300:]})'):
            return
    elif not rep.eq('exit-code', rc, 0, f'{desc}: exit code ({se[-300:]})'):
        return
    if cfg['args'] and cfg['code'] != 'unreached':
        seen = json.load(open(st.cwd2 + '/seen.json'))
        rep.eq('script-args', seen['args'], cfg['args'], desc + ': variables the script got')
        rep.eq('script-name', (seen['name'], seen['file']), ('__vapoursynth__', st.script), desc + ': script name')
    if why == 'script fails':
        if cfg['text'] not in se:
            rep.viol('error-text', f'{desc}: {se[-400:]!r} does not tell {cfg["text"]!r}')
        return
    for lv, t in cfg['logs']:
        rep.ev(1)
        if t not in se:
            rep.viol('log', f'{desc}: the logged message {t!r} is not in {se[-400:]!r}')
    data = so if out == '-' else (open(st.dir + '/out.bin', 'rb').read() if out == 'f' and os.path.exists(st.dir + '/out.bin') else None)
    if why == 'a frame fails' and out != '/dev/full' and not (tc and 'duration' in se):
        if 'Failed to retrieve frame %d' % (v['fail'] - first) not in se or 'frame %d of output fails' % v['fail'] not in se:
            rep.viol('error-text', f'{desc}: frame {v["fail"]} fails but stderr is {se[-400:]!r}')
    if why == 'no duration' and out != '/dev/full' and 'duration' not in se:
        rep.viol('error-text', f'{desc}: {se[-300:]!r}')
    if why in (None, 'a frame fails', 'no duration') and data is not None:
        if vid:
            body = b''.join((b'FRAME\n' if cont == 'y4m' else b'') + frame_bytes(st, o, v, k) for k in range(first, last + 1))
            if cont == 'y4m':
                h, _, data = data.partition(b'\n')
                tok = h.decode().split(' ')
                rep.eq('y4m-magic', tok[0], 'YUV4MPEG2', desc)
                tk = {}
                for t in tok[1:]:
                    tk['XLENGTH' if t.startswith('XLENGTH=') else t[:1]] = t[8:] if t.startswith('XLENGTH=') else t[1:]
                g = math.gcd(*v['fps']) or 1
                fps = (v['fps'][0] // g, v['fps'][1] // g) if v['fps'][0] else (0, None)
                m = v['_']
                c = 'mono' if m['cf'] == 'g' else IDENT[(m['sw'], m['sh'])]
                if m['cf'] == 'y' and m['fl']:
                    c += 'p' + {16: 'h', 32: 's'}[m['bits']]
                elif m['bits'] > 8:
                    c += ('p' if m['cf'] == 'y' else '') + str(m['bits'])
                rep.eq('y4m-header', (tk.get('W'), tk.get('H'), tk.get('C'), tk.get('XLENGTH'), tk.get('I'), tk.get('F', '').split(':')[:1 if fps[1] is None else 2]),
                       (str(v['w']), str(v['h']), c, str(last - first + 1), 'p', [str(fps[0])] if fps[1] is None else [str(fps[0]), str(fps[1])]), f'{desc}: header {h!r}')
        else:
            body = audio_bytes(v, first, last)
            if cont:
                data = wave(st, cont, data, v, len(body), desc)
                if data is None:
                    return
        rep.ev((last - first + 1) if vid else (last - first + 3072) // 3072)
        if why is None:
            if data != body:
                k = next((i for i in range(min(len(data), len(body))) if data[i] != body[i]), min(len(data), len(body)))
                rep.viol('content', f'{desc}: {len(data)} bytes written, {len(body)} expected; they differ at byte {k} ({len(body) // (last - first + 1)} per frame)')
                return
        elif body[:len(data)] != data:
            rep.viol('content-before-error', f'{desc}: {why}: what was written is no prefix of the right output')
            return
    if why is None and out in ('.', '--') and so:
        rep.viol('content', f'{desc}: {len(so)} bytes on stdout')
    if why is None:
        m = re.search(r'Output (\d+) (frames|samples)', se)
        rep.eq('summary', m and (int(m[1]), m[2]), (last - first + 1, 'frames' if vid else 'samples'), desc + ': summary on stderr')
    if why is None and tc:
        L = open(tc).read().split('\n')
        rep.eq('timecodes-form', (L[0], L[-1], len(L)), ('# timecode format v2', '', last - first + 3), desc + ': timecodes file')
        t = Fraction(0)
        for k, l in enumerate(L[1:-1]):
            rep.ev(1)
            try:
                ok = abs(Fraction(l) - t) <= abs(t) * Fraction(1, 10**12) + Fraction(1, 10**9)
            except ValueError:
                ok = False
            if not ok:
                rep.viol('timecodes', f'{desc}: timecode {k} is {l!r}, expected {float(t)!r}')
                break
            if k < len(durs):
                t += Fraction(*durs[k]) * 1000
    if why is None and js:
        raw = open(js, 'rb').read()
        try:
            J = json.loads(raw.decode('utf-8'), parse_constant=lambda s: 1 / 0)
        except Exception as e:
            i = getattr(e, 'pos', 0)
            rep.viol('json-invalid', f'{desc}: properties file is not valid JSON: {e!r} near {raw[max(0, i - 80):i + 80]!r}')
            return
        if vid:
            rep.eq('json-frames', len(J), last - first + 1, desc + ': JSON entries')
            for k, d in enumerate(J):
                want = props_of(v, first + k)
                rep.ev(1)
                if set(d) != set(want) or not all(json_matches(d[q], want[q]) for q in want):
                    b = [(q, d.get(q, 'missing'), want.get(q, 'not set')) for q in sorted(set(d) | set(want)) if q not in d or q not in want or not json_matches(d[q], want[q])]
                    rep.viol('json-values', f'{desc}: frame {first + k}: {b!r:.400}')
                    break
        else:
            rep.eq('json-frames', len(J), (last - first + 1 + 3071) // 3072, desc + ': JSON entries')
    if why is None and ftg:
        dot(st, open(ftg).read(), desc, None)


def wave(st, cont, data, v, size, desc):
    rep = st.rep
    nb, nc = (v['bits'] + 7) // 8, len(v['ch'])
    PCM = bytes([3 if v['float'] else 1, 0, 0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xaa, 0, 0x38, 0x9b, 0x71])
    fmt = struct.pack('<HHIIHHHHI', 0xfffe, nc, v['rate'], v['rate'] * nb * nc, nb * nc, nb * 8, 22, v['bits'], sum(1 << c for c in v['ch'])) + PCM
    if cont == 'wav':
        h, body = data[:68], data[68:]
        want = b'RIFF' + struct.pack('<I', 60 + size) + b'WAVEfmt ' + struct.pack('<I', 40) + fmt + b'data' + struct.pack('<I', size)
    else:
        h, body = data[:128], data[128:]
        T = bytes.fromhex('F3ACD3118CD100C04F8EDB8A')
        want = b'riff' + bytes.fromhex('2E91CF11A5D628DB04C10000') + struct.pack('<Q', 128 + size) + b'wave' + T + b'fmt ' + T + struct.pack('<Q', 64) + fmt + b'data' + T + struct.pack('<Q', size + 24)
        want = want[:104] + want[104:]
        if len(want) != 128:     # alignment before the data chunk
            h, body = data[:len(data) - size], data[len(data) - size:]
            k = h.find(b'data' + T)
            if k < 0:
                rep.viol('wave-header', f'{desc}: no data chunk in {h.hex()}')
                return None
            want = want.replace(b'data' + T, bytes(k - want.find(b'data' + T)) + b'data' + T)
    rep.eq('wave-header', h.hex(), want.hex(), desc + ': ' + cont + ' header')
    return body


def dot(st, s, desc, names):
    rep = st.rep
    rep.ev(1)
    t = re.sub(r'"(?:[^"\\]|\\[\s\S])*"', '""', s)
    labels = re.findall(r'"((?:[^"\\]|\\[\s\S])*)"', s)
    decl = set(re.findall(r'^\s*(n\d+) \[', t, re.M))
    edges = re.findall(r'^\s*(n\d+) -> (n\d+)\s*$', t, re.M)
    ok = t.strip().startswith('digraph {') and t.strip().endswith('}') and t.count('{') == t.count('}') and '"' not in t.replace('""', '') and '\\' not in t
    bad = [l for l in t.splitlines() if not re.fullmatch(r'\s*(digraph \{|subgraph \w+ \{|\}|label=""|n\d+ \[label="", shape=oval\]|n\d+ -> n\d+)?\s*', l)]
    if not ok or bad or not decl or any(a not in decl or b not in decl for a, b in edges):
        rep.viol('graph-invalid', f'{desc}: not a valid graph: {(bad or [s])[0]!r:.300}')
        return
    # every node but the output has a consumer
    if len(decl - {a for a, b in edges}) != 1:
        rep.viol('graph-shape', f'{desc}: {len(decl)} filters, edges {edges}')
    for nm in names or ():
        if not any(nm in l for l in labels):
            rep.viol('graph-missing', f'{desc}: {nm} is not in {labels!r:.300}')


def check_info(st):
    rng, rep, cfg = st.rng, st.rep, st.cfg
    args = [rng.choice(['-i', '--info'])] + [x for k, v in cfg['args'].items() for x in ('-a', f'{k}={v}')] + [st.script] + rng.choice([[], ['-'], [st.dir + '/out.bin']])
    rc, so, se = run(st, args)
    if rc is None:
        return
    if cfg['end'] is not None:
        rep.eq('exit-code', rc, cfg['code'], f'vspipe {args}: exit code')
        return
    if not rep.eq('exit-code', rc, 0, f'vspipe {args}: exit code ({se[-300:]})'):
        return
    txt = so.decode() if args[-1] != st.dir + '/out.bin' else open(st.dir + '/out.bin').read()
    got = [dict(l.split(': ', 1) for l in b.splitlines()) for b in txt.strip().split('\n\n')] if txt.strip() else []
    want = []
    for o in sorted(cfg['outs'], key=int):
        v = cfg['outs'][o]
        if v['type'] == 'v':
            m = v['_']
            g = math.gcd(*v['fps']) or 1
            w = {'Output Index': o, 'Type': 'Video', 'Width': 'Variable' if v['var'] else str(v['w']), 'Height': 'Variable' if v['var'] else str(v['h']), 'Frames': str(v['n'] + v['var'])}
            if not v['var']:
                w['FPS'] = 'Variable' if not v['fps'][0] else f"{v['fps'][0] // g}/{v['fps'][1] // g} ({v['fps'][0] / v['fps'][1]:.3f} fps)"
            w.update({'Format Name': m['name'], 'Color Family': {'g': 'Gray', 'y': 'YUV', 'r': 'RGB'}[m['cf']], 'Alpha': 'Yes' if v['alpha'] and not v['var'] else 'No',
                      'Sample Type': 'Float' if m['fl'] else 'Integer', 'Bits': str(m['bits']), 'SubSampling W': str(m['sw']), 'SubSampling H': str(m['sh'])})
        else:
            w = {'Output Index': o, 'Type': 'Audio', 'Samples': str(v['n']), 'Sample Rate': str(v['rate']), 'Sample Type': 'Float' if v['float'] else 'Integer', 'Bits': str(v['bits']), 'Channels': str(len(v['ch']))}
        want.append(w)
    rep.eq('info-outputs', [g.get('Output Index') for g in got], [w['Output Index'] for w in want], f'vspipe {args}')
    for g, w in zip(got, want):
        for k in w:
            if g.get(k) != w[k]:
                # the same rate may be told with more than one spelling of a missing one
                rep.viol('info', f'vspipe {args}: output {w["Output Index"]}: {k}: {g.get(k)!r}, expected {w[k]!r}')
        rep.ev(len(w), ('info', w['Type'], w.get('Format Name')))


def check_graph(st):
    rng, rep, cfg = st.rng, st.rep, st.cfg
    if cfg['end'] is not None:
        return
    o = rng.choice(list(cfg['outs']))
    v = cfg['outs'][o]
    mode = rng.choice(['simple', 'full'])
    args = ['-o', o, '-g', mode] + [x for k, x_ in cfg['args'].items() for x in ('-a', f'{k}={x_}')] + [st.script, '-']
    rc, so, se = run(st, args)
    if rc is None:
        return
    if rep.eq('exit-code', rc, 0, f'vspipe {args}: exit code ({se[-300:]})'):
        names = ['std.BlankAudio', 'std.AudioGain'] if v['type'] == 'a' else ['std.BlankClip', 'std.ModifyFrame'] + (['std.SetFrameProps'] if v['const'] else []) + (['std.Splice'] if v['var'] else [])
        dot(st, so.decode('utf-8', 'replace'), f'vspipe {args}', names)
        rep.ev(1, ('graph', mode, v['type'], bool(v.get('const'))))


def check_bad(st):
    """command lines that must be refused, with nothing written"""
    rng, rep = st.rng, st.rep
    S, O = st.script, st.dir + '/bad.bin'
    bad = rng.choice([
        ['-s', '-1', S, O], ['-e', '-5', S, O], ['-s', 'x', S, O], ['-s', '1x', S, O], ['-s', '', S, O], ['-e', '', S, O], ['-o', '', S, O], ['-r', '', S, O], ['-e', '1.5', S, O],
        ['-s', '99999999999999999999', S, O], ['-e', '99999999999999999999', S, O], ['-s', '-99999999999999999999', S, O], ['-o', '99999999999', S, O], ['-r', '99999999999', S, O],
        ['-c', 'mp4', S, O], ['--nonsense', S, O], [S, O, 'third'], ['-a', 'novalue', S, O], ['-i', '-g', 'full', S], ['-g', 'other', S, '-'], [S], [S, O, '-s'], [S, O, '-c'],
        ['-o', '3', S, O], ['-o', '-1', S, O], [st.dir + '/none.vpy', O], [S, st.dir + '/no/such/dir/x'], [S, O, '-t', st.dir + '/no/such/t'], [S, O, '-j', st.dir + '/no/such/t']])
    if os.path.exists(O):
        os.unlink(O)
    rc, so, se = run(st, bad)
    if rc is None:
        return
    rep.ev(1, ('bad', tuple(x for x in bad if x not in (S, O))))
    if rc == 0 or not se.strip():
        rep.viol('bad-accepted:' + '_'.join(x for x in bad[:2] if '/' not in x), f'vspipe {bad}: exit code {rc}, stderr {se[-300:]!r}')
    if os.path.exists(O) and os.path.getsize(O) or so:
        rep.viol('bad-output', f'vspipe {bad}: wrote {len(so)} bytes to stdout and {os.path.exists(O) and os.path.getsize(O)} to the file')


def case(rng, rep, k, opts):
    st = St()
    st.rng, st.rep, st.ran = rng, rep, 0
    st.seed = rng.getrandbits(40)
    st.dir = tempfile.mkdtemp(prefix='verif-pipe-')
    try:
        os.makedirs(st.dir + '/vapoursynth')
        lib = os.path.join(SITE, 'libvsscript.so')
        exe = '/opt/vp/venv/bin/python'
        open(st.dir + '/vapoursynth/vapoursynth.toml', 'w').write('"%s" = ["%s", "%s", "%d"]\n' % (lib.replace('/lib64/', '/lib/'), exe, '/usr/lib/x86_64-linux-gnu/libpython3.12.so.1.0', int(os.stat(exe).st_mtime)))
        sub = rng.choice(['', 'sub dir', 'ünï'])
        st.cwd2 = os.path.join(st.dir, sub) if sub else st.dir
        os.makedirs(st.cwd2, exist_ok=True)
        st.cwd = '/'
        st.script = st.cwd2 + '/' + rng.choice(['s.vpy', 'my script.vpy', 'ø.vpy'])
        outs = {}
        for o in rng.sample([0, 1, 2, 7, 1000], rng.choice([1, 1, 2, 3])):
            outs[str(o)] = video(rng, st) if rng.random() < .75 else audio(rng)
        if rng.random() < .75 and '0' not in outs:
            outs['0'] = video(rng, st)
        st.cfg = dict(seed=st.seed, outs=outs, args={}, logs=[], end=None, code=None)
        if rng.random() < .3:
            st.cfg['args'] = {rng.choice(['x', 'deinterlace', 'Msg_2']): rng.choice(['yes', '', 'a=b', 'fluffy kittens', 'ü\U0001F600', '"', "'\\"]) for _ in range(2)}
        if rng.random() < .25:
            st.cfg['logs'] = [(int(rng.choice([vs.MESSAGE_TYPE_INFORMATION, vs.MESSAGE_TYPE_WARNING, vs.MESSAGE_TYPE_CRITICAL])), rng.choice(['careful %s %n', 'ünï', 'x' * 500])) for _ in range(2)]
        if rng.random() < .08:
            st.cfg['end'], st.cfg['code'], st.cfg['text'] = rng.choice([
                ('raise ValueError("boom %d")', 1, 'boom %d'), ('sys.exit(7)', 7, 'exit'), ('sys.exit(0)', 1, 'exit'), ('sys.exit("why")', 1, 'why'), ('sys.exit()', 1, 'exit'), ('core.std.Trim(core.std.BlankClip(), 5, 2)', 1, 'Trim'),
                ('raise KeyboardInterrupt("k")', 1, 'k'), ('x = (', 1, '')])
        open(st.cwd2 + '/cfg.json', 'w').write(json.dumps({k: v for k, v in st.cfg.items()}))
        open(st.script, 'w', encoding='utf-8').write(SCRIPT)
        rep.sample(f'outputs {[(o, v["type"], v.get("fmt"), v["n"]) for o, v in outs.items()]}, args {st.cfg["args"]}')
        for _ in range(rng.randint(2, 3) if not ASAN else 2):
            check_output(st)
        r = rng.random()
        (check_info if r < .3 else check_graph if r < .6 else check_bad)(st)
        rep.count('vspipe_runs', st.ran)
    finally:
        shutil.rmtree(st.dir, ignore_errors=True)
