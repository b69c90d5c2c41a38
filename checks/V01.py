from fcheck import run_py
PARTS = 'core+filters+py+pipe'
BUILDS = [('plain', PARTS), ('asanub', PARTS)]


def run(ctx):
    run_py(ctx, 'pipe', 320, 8000, parts=PARTS, asan_frac=8)
    ctx.rule = 'one vspipe command line on one generated script (formats, alpha, ranges, containers, side files, delays, failing frames, refused options), everything it wrote compared with what the script defines'
