from fcheck import run_py
BUILDS = [('plain', 'core+filters+py'), ('asanub', 'core+filters+py')]


def run(ctx):
    run_py(ctx, 'envs', 2400, 20000, asan_frac=12)
    ctx.rule = 'histories of environments created, nested, used from several threads and destroyed, with every kind of object used afterwards'
