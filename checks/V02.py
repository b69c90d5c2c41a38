import os, shutil, tempfile
from vrun import run_harness, san_env
PARTS = 'core+filters+py+pipe'
BUILDS = [('plain', PARTS, 'h_script'), ('asanub', PARTS, 'h_script')]
EXE, LIB = '/opt/vp/venv/bin/python', '/usr/lib/x86_64-linux-gnu/libpython3.12.so.1.0'


def run(ctx):
    ctx.rule = 'one operation on one of several scripts (evaluation, variables, outputs, failure, release) judged against a model of that script, from one to four threads'
    for flavour, n, first in (('plain', ctx.scale(640, 20000), 0), ('asanub', ctx.scale(64, 2000), 1000000)):
        d = ctx.build(flavour, PARTS, 'h_script')
        cfg = tempfile.mkdtemp(prefix='verif-cfg-')
        try:
            os.makedirs(cfg + '/vapoursynth')
            with open(cfg + '/vapoursynth/vapoursynth.toml', 'w') as f:
                f.write('"%s" = ["%s", "%s", "%d"]\n' % ((d + '/site/vapoursynth/libvsscript.so').replace('/lib64/', '/lib/'), EXE, LIB, int(os.stat(EXE).st_mtime)))
            env = san_env(XDG_CONFIG_HOME=cfg, PYTHONPATH=d + '/site')
            if flavour != 'plain':
                env['PYTHONMALLOC'] = 'malloc'
            before = ctx.evaluations
            run_harness(ctx, d + '/h_script', [], n, env=env, first=first)
            if flavour != 'plain':
                ctx.cov['evaluations_under_asan_ubsan'] = ctx.evaluations - before
        finally:
            shutil.rmtree(cfg, ignore_errors=True)
