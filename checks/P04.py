from fcheck import run_py
BUILDS = [('plain', 'core+filters+py+echo'), ('asanub', 'core+filters+py+echo')]


def run(ctx):
    run_py(ctx, 'args', 24000, 400000, parts='core+filters+py+echo')
    ctx.rule = 'random function signatures and calls, round trips through Python functions, exceptions and releases, judged against the documented conversions'
