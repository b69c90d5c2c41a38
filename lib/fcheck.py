"""Runs a model module (fm/<name>.py) through run_harness, plain and under the sanitizers."""
import glob, os, subprocess
from vrun import run_harness, san_env, VERIF

PY = 'python3-vt'


def libasan():
    """what to preload so that a Python process can load ASan-built libraries (libstdc++ so that ASan finds the real __cxa_throw)"""
    f = lambda n: subprocess.run(['gcc', '-print-file-name=' + n], capture_output=True, text=True).stdout.strip()
    return f('libasan.so') + ' ' + f('libstdc++.so.6')


def builds(parts='core+filters+vsh'):
    return [('plain', parts), ('asanub', parts)]


def run_model(ctx, mod, quick, thorough, first=0, opts=(), asan_frac=8, parts='core+filters+vsh'):
    d = ctx.build('plain', parts)
    w = [PY, VERIF + '/lib/fworker.py', mod]
    n = ctx.scale(quick, thorough)
    env = san_env(OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    run_harness(ctx, w + [d + '/vsh.so'], opts, n, env=env, first=first)
    if asan_frac:
        a = ctx.build('asanub', parts)
        env = san_env(LD_PRELOAD=libasan(), OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
        before = ctx.evaluations
        run_harness(ctx, w + [a + '/vsh.so'], opts, max(16, n // asan_frac), env=env, first=first + 1000000)
        ctx.cov['evaluations_under_asan_ubsan'] = ctx.cov.get('evaluations_under_asan_ubsan', 0) + ctx.evaluations - before


VPY = '/opt/vp/venv/bin/python'


def run_py(ctx, mod, quick, thorough, opts=(), asan_frac=6, parts='core+filters+py', cwd=None):
    """runs pm/<mod>.py against the Python module, plain and with everything below it instrumented"""
    d = ctx.build('plain', parts)
    w = [VPY, VERIF + '/lib/pyworker.py', mod]
    n = ctx.scale(quick, thorough)
    run_harness(ctx, w, opts, n, env=san_env(PYTHONPATH=d + '/site'))
    if asan_frac and 'hang' not in ctx.vkeys:
        a = ctx.build('asanub', parts)
        before = ctx.evaluations
        env = san_env(PYTHONPATH=a + '/site', LD_PRELOAD=libasan(), PYTHONMALLOC='malloc')
        run_harness(ctx, w, opts, max(16, n // asan_frac), env=env, first=1000000)
        ctx.cov['evaluations_under_asan_ubsan'] = ctx.cov.get('evaluations_under_asan_ubsan', 0) + ctx.evaluations - before


def run_variant(ctx, mod, n, parts):
    """runs fm/<mod>.py against the CPU specific builds of the filters (the core falls back to the baseline where the CPU can't run one)"""
    d = ctx.build('plain', parts)
    env = san_env(OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    for i, var in enumerate(('avx2', 'zn4')):
        before = ctx.evaluations
        run_harness(ctx, [PY, VERIF + '/lib/fworker.py', mod, d + f'/vsh_{var}.so'], ['--variant', var], n, env=env, first=2000000 + 1000000 * i)
        ctx.cov['evaluations_in_' + var] = ctx.cov.get('evaluations_in_' + var, 0) + ctx.evaluations - before
