"""Builds /repo's current sources, out of tree, in the flavours the checks need.

Nothing under /repo is written. Objects go to <build root>/<flavour>; when the
content of /repo's sources (or the flags) changes, a flavour is rebuilt from
scratch (ccache, when installed, makes that cheap).
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
PYVENV = "/opt/vp/venv"

CORE = ['cpufeatures', 'internalfilters', 'kernel/cpulevel', 'memoryuse', 'textfilter', 'vsapi',
        'vscore', 'vslog', 'vsthreadpool']
FILT = ['audiofilters', 'audioresampling', 'averageframesfilter', 'boxblurfilter', 'coreplugins',
        'cpufeatures', 'exprfilter', 'expr/expr', 'expr/jitcompiler', 'genericfilters',
        'kernel/cpulevel', 'kernel/generic', 'kernel/merge', 'kernel/planestats', 'kernel/transpose',
        'lutfilters', 'mergefilters', 'reorderfilters', 'simplefilters', 'expr/jitcompiler_x86',
        'kernel/x86/convolution_sse2', 'kernel/x86/generic_sse2', 'kernel/x86/merge_sse2',
        'kernel/x86/planestats_sse2', 'kernel/x86/transpose_sse2']
A2 = ['convolution_avx2', 'generic_avx2', 'merge_avx2', 'planestats_avx2']
A5 = ['convolution_avx512', 'generic_avx512', 'lut_avx512', 'merge_avx512']

DEFS = ['-fno-math-errno', '-DVS_CURRENT_RELEASE=78', '-DVS_GRAPH_API', '-DVS_USE_LATEST_API',
        '-DVSSCRIPT_USE_LATEST_API', '-DVS_TARGET_OS_LINUX', '-DHAVE_SCHED_GETAFFINITY',
        '-DVS_TARGET_CPU_X86', '-D_FILE_OFFSET_BITS=64', '-D_CRT_SECURE_NO_WARNINGS', '-DNOMINMAX']

SAN = {
    # the shipped optimisation level, asserts on (as build.sh), frame guard words on
    'plain': ['-O2', '-DVS_FRAME_GUARD'],
    'asan': ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-fno-common'],
    'asanub': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,nonnull-attribute',
               '-fno-omit-frame-pointer', '-fno-sanitize-recover=all'],
    'tsan': ['-O1', '-fsanitize=thread', '-fno-omit-frame-pointer'],
}


# harness programs: name -> (sources in harness/, extra flags)
HARN = {
    'h_map': (['h_map.cpp'], ''),
    'h_graph': (['h_graph.cpp'], ''),
    'h_cache': (['h_cache.cpp'], ''),
    'h_frame': (['h_frame.cpp'], ''),
    'h_reg': (['h_reg.cpp'], ''),
    'h_log': (['h_log.cpp'], ''),
    'h_fmt': (['h_fmt.cpp'], ''),
    'h_script': (['h_script.cpp'], ''),
    'h_inspect': (['h_inspect.cpp'], ''),
    'h_api3': (['h_api3.cpp'], ''),
}


def get(flavour, parts, harness=()):
    return build(flavour, tuple(parts.split('+')), [(h, HARN[h][0], HARN[h][1]) for h in harness])


class BuildError(Exception):
    pass


def src_files():
    out = []
    for top in ('src', 'include'):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                out.append(os.path.join(d, f))
    out.append(os.path.join(REPO, 'meson.build'))
    return out


_hash = None


def src_hash():
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for f in src_files():
            h.update(f.encode())
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        _hash = h.hexdigest()
    return _hash


def _cxx():
    return ('ccache ' if shutil.which('ccache') else '') + 'g++'


def _vs_release_args():
    return DEFS


def build(flavour, parts=('core', 'filters'), harness=(), log=sys.stderr):
    """flavour: key of SAN. parts: core, filters, stub (an empty std plugin in place of the
    filters), zn4/avx2 (extra plugin variants), py (python module), pipe (vspipe, vsscript), expr.
    harness: [(name, [cpp files], extra flags)]. Returns the directory with the products."""
    d = os.path.join(ROOT, flavour + ('-stub' if 'stub' in parts else ''))
    os.makedirs(d, exist_ok=True)
    with open(d + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(d, flavour, parts, harness, log)


def _build(d, flavour, parts, harness, log):
    t0 = time.time()
    san = SAN[flavour]
    R = REPO
    stamp = src_hash() + ' '.join(san) + R
    sf = os.path.join(d, 'stamp')
    old = open(sf).read() if os.path.exists(sf) else None
    if old != stamp:
        for n in os.listdir(d):
            p = os.path.join(d, n)
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        with open(sf, 'w') as f:
            f.write(stamp)
    for sub in ('obj', 'site/vapoursynth'):
        os.makedirs(os.path.join(d, sub), exist_ok=True)
    L = 'site/vapoursynth'
    base = ['-fPIC', '-fvisibility=hidden', '-std=c++20', '-fno-char8_t', '-w', '-g1', '-pthread',
            f'-I{R}/include'] + san + _vs_release_args()
    link = [x for x in san if x.startswith('-fsanitize=')]
    n = [f'builddir = .\ncxx = {_cxx()}\nbase = {" ".join(base)}\nlflags = {" ".join(link)}\n',
         'rule cc\n command = $cxx $base $x -MD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n',
         'rule so\n command = g++ -shared -pthread $lflags $in -o $out $x -ldl\n',
         'rule exe\n command = g++ -pthread $lflags $in -o $out $x -ldl\n',
         'rule cp\n command = cp $in $out\n',
         f'rule cyth\n command = {PYVENV}/bin/cython --fast-fail -3 --cplus $in -o $out 2>/dev/null\n']
    seen = set()

    def obj(src, tag, x=''):
        o = f'obj/{tag}_{os.path.splitext(os.path.relpath(src, R).replace("/", "_").replace("..", "_"))[0]}.o'
        if o not in seen:
            seen.add(o)
            n.append(f'build {o}: cc {src}\n x = {x}\n')
        return o

    def objs(srcs, tag, x=''):
        return [obj(f'{R}/src/core/{s}.cpp', tag, x) for s in srcs]

    rl = os.path.join(VERIF, 'harness', 'resize_stub.cpp')
    targets = []
    core = f'{L}/libvapoursynth.so.4'
    n.append(f'build {core}: so {" ".join(objs(CORE, "core", "-DVS_CORE_EXPORTS") + [obj(rl, "core")])}\n'
             f' x = -Wl,-soname,libvapoursynth.so.4\n')
    n.append(f'build {L}/libvapoursynth.so: cp {core}\n')
    targets += [core, f'{L}/libvapoursynth.so']

    def plugin(name, tag, x, x2, x5, L=L):
        o = objs(FILT, tag, x) + objs(['kernel/x86/' + s for s in A2], tag + 'a2', x2) \
            + objs(['kernel/x86/' + s for s in A5], tag + 'a5', x5)
        n.append(f'build {L}/{name}: so {" ".join(o)}\n x = -Wl,-Bsymbolic\n')
        targets.append(f'{L}/{name}')

    zn = '-march=znver4 -mno-sse4a -mno-avx512bf16'
    if 'filters' in parts:
        plugin('libvapoursynthfilters.so', 'f', '', '-march=x86-64-v3', '-march=x86-64-v4')
    if 'stub' in parts:
        n.append(f'build {L}/libvapoursynthfilters.so: so '
                 f'{obj(os.path.join(VERIF, "harness", "std_stub.cpp"), "stub")}\n x =\n')
        targets.append(f'{L}/libvapoursynthfilters.so')
    for var, fl in (('avx2', ('v', '-march=x86-64-v3', '-march=x86-64-v3', '-march=x86-64-v4')), ('zn4', ('z', zn, zn, zn))):
        if var in parts:     # a directory of its own in which the core finds just this variant next to the baseline
            os.makedirs(os.path.join(d, f'site_{var}/vapoursynth'), exist_ok=True)
            plugin(f'libvapoursynthfilters_{var}.so', *fl, f'site_{var}/vapoursynth')
            for f in ('libvapoursynth.so.4', 'libvapoursynth.so', 'libvapoursynthfilters.so'):
                n.append(f'build site_{var}/vapoursynth/{f}: cp {L}/{f}\n')
                targets.append(f'site_{var}/vapoursynth/{f}')
            n.append(f"build vsh_{var}.so: so {obj(os.path.join(VERIF, 'harness', 'vsh.cpp'), 'vsh')} site_{var}/vapoursynth/libvapoursynth.so.4\n x = -Wl,-rpath,'$$ORIGIN/site_{var}/vapoursynth'\n")
            targets.append(f'vsh_{var}.so')
    if 'py' in parts:
        n.append(f'build obj/vapoursynth.cpp: cyth {R}/src/cython/vapoursynth.pyx | '
                 + ' '.join(f'{R}/src/cython/{x}' for x in sorted(os.listdir(R + '/src/cython')) if x.endswith('.pxd')) + '\n')
        inc = f'-I/usr/include/python3.12 -I/usr/include/x86_64-linux-gnu/python3.12 -I{R} -I{R}/src/cython -DPy_LIMITED_API=0x030c0000'
        n.append(f'build obj/py_vapoursynth.o: cc obj/vapoursynth.cpp\n x = {inc} {"-O1" if flavour=="plain" else "-O0"}\n')
        n.append(f'build {L}/vapoursynth.abi3.so: so obj/py_vapoursynth.o {obj(R+"/src/common/wave.cpp", "py")} {core}\n'
                 f" x = -Wl,-rpath,'$$ORIGIN'\n")
        targets.append(f'{L}/vapoursynth.abi3.so')
        for f in sorted(os.listdir(R + '/src/py')):
            n.append(f'build {L}/{f}: cp {R}/src/py/{f}\n')
            targets.append(f'{L}/{f}')
    if 'pipe' in parts:
        n.append(f'build {L}/libvsscript.so: so '
                 f'{obj(R+"/src/vsscript/vsscript.cpp", "scr", "-I/usr/include/python3.12 -I/usr/include/x86_64-linux-gnu/python3.12 -DPy_NO_LINK_LIB -DVS_CORE_EXPORTS")}\n x = -Wl,-soname,libvsscript.so\n')
        o = [obj(f'{R}/src/{s}.cpp', 'pipe') for s in ('common/wave', 'vspipe/printgraph', 'vspipe/vsjson', 'vspipe/vspipe')]
        n.append(f"build {L}/vspipe: exe {' '.join(o)} {L}/libvsscript.so\n x = -Wl,-rpath,'$$ORIGIN'\n")
        n.append(f"build pipedelay.so: so {obj(os.path.join(VERIF, 'harness', 'pipedelay.cpp'), 'pd')}\n x =\n")
        targets += [f'{L}/libvsscript.so', f'{L}/vspipe', 'pipedelay.so']
    if 'plug' in parts:
        os.makedirs(os.path.join(d, 'plug/sub'), exist_ok=True)
        src = os.path.join(VERIF, 'harness', 'plug.cpp')
        api = 'VAPOURSYNTH_API_VERSION'
        for i, (nm, pid, ns, fl, ap, x) in enumerate([
                ('pa', 'com.verif.a', 'va', 'pcModifiable', api, ''), ('pb', 'com.verif.b', 'vb', '0', api, ''),
                ('pc', 'com.verif.a', 'vc', '0', api, ''), ('pd', 'com.verif.d', 'va', '0', api, ''),
                ('pe', 'com.verif.e', 've', '0', 'VS_MAKE_VERSION(5,0)', ''),
                ('pf', 'com.verif.f', 'vf', '0', f'({api}+1)', ''),
                ('pg', 'com.verif.g', 'vg', '0', api, '-DPLUG_NOENTRY'),
                ('sub/pi', 'com.verif.i', 'vi', '0', 'VS_MAKE_VERSION(4,0)', '')]):
            o = obj(src, 'plug%d' % i, f"""'-DPLUG_ID="{pid}"' '-DPLUG_NS="{ns}"' '-DPLUG_FLAGS={fl}' '-DPLUG_API={ap}' -DPLUG_NUM={i} {x}""")
            n.append(f'build plug/{nm}.so: so {o}\n x =\n')
            targets.append(f'plug/{nm}.so')
        os.makedirs(os.path.join(d, 'plugq'), exist_ok=True)
        for k in range(6):
            for lv in ((1, 2, 3, 4) if k < 3 else (1,)):
                o = obj(src, f'plugq{k}_{lv}', f"""'-DPLUG_ID="com.verif.q{k}"' '-DPLUG_NS="q{k}"' '-DPLUG_FLAGS=0' '-DPLUG_API={api}' -DPLUG_NUM={1000 + k + 10 * lv}""")
                n.append(f'build plugq/q{k}_{lv}.so: so {o}\n x =\n')
                targets.append(f'plugq/q{k}_{lv}.so')
        n.append(f'build plug/ph.so: cp {src}\nbuild plug/readme.txt: cp {src}\n')
        targets += ['plug/ph.so', 'plug/readme.txt']
    if 'plug3' in parts:
        os.makedirs(os.path.join(d, 'plug3'), exist_ok=True)
        for nm, ro, ap in (('old3', 0, '((3<<16)|6)'), ('old3ro', 1, '3')):
            o = obj(os.path.join(VERIF, 'harness', 'plug3.cpp'), nm, f"'-DPLUG3_RO={ro}' '-DPLUG3_API={ap}'")
            n.append(f'build plug3/{nm}.so: so {o}\n x =\n')
            targets.append(f'plug3/{nm}.so')
    if 'echo' in parts:
        n.append(f"build echo.so: so {obj(os.path.join(VERIF, 'harness', 'echo.cpp'), 'echo')}\n x =\n")
        targets.append('echo.so')
    if 'vsh' in parts:
        n.append(f"build vsh.so: so {obj(os.path.join(VERIF, 'harness', 'vsh.cpp'), 'vsh')} {core}\n x = -Wl,-rpath,'$$ORIGIN/site/vapoursynth'\n")
        targets.append('vsh.so')
    for name, srcs, x in harness:
        o = [obj(os.path.join(VERIF, 'harness', s) if not s.startswith('/') else s, 'h_' + name, x) for s in srcs]
        n.append(f"build {name}: exe {' '.join(o)} {core}{f' {L}/libvsscript.so' if 'pipe' in parts else ''}\n x = -Wl,-rpath,'$$ORIGIN/site/vapoursynth' -rdynamic\n")
        targets.append(name)
    n.append('default ' + ' '.join(targets) + '\n')
    nf = os.path.join(d, 'build.ninja')
    with open(nf, 'w') as f:
        f.write('\n'.join(n))
    env = dict(os.environ, CCACHE_DIR=os.path.join(ROOT, 'ccache'), CCACHE_MAXSIZE='1500M',
               CCACHE_NOHASHDIR='1', LANG='C.UTF-8', HOME='/root',
               CCACHE_SLOPPINESS='time_macros')
    for k in ('LD_PRELOAD', 'ASAN_OPTIONS', 'TSAN_OPTIONS'):
        env.pop(k, None)
    p = subprocess.run(['ninja', '-C', d, '-j', str(os.cpu_count() or 4)], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        raise BuildError(p.stdout[-4000:])
    print(f'[build] {flavour} {"+".join(parts)}: {time.time()-t0:.1f}s', file=log)
    return d


if __name__ == '__main__':
    print(build(sys.argv[1], tuple(sys.argv[2].split(',')) if len(sys.argv) > 2 else ('core', 'filters')))
