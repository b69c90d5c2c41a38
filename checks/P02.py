from fcheck import run_py
BUILDS = [('plain', 'core+filters+py'), ('asanub', 'core+filters+py')]


def run(ctx):
    run_py(ctx, 'clips', 16000, 200000)
    ctx.rule = 'clip expressions, iterations, request sets and written outputs, judged against the list of frames'
