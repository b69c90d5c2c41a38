from vrun import run_harness

BUILDS = [('asanub', 'core+stub', 'h_fmt')]


def run(ctx):
    ctx.rule = ('the parameter space of video and audio formats is swept around every bound (cases 0-79), then random parameters, IDs and clip descriptions are tried; distinct: formats accepted and kinds of clip description')
    d = ctx.build(*BUILDS[0])
    run_harness(ctx, d + '/h_fmt', [], ctx.scale(1920, 12000))
    ctx.assumptions = ['the undefined format with non-zero parameters and IDs of the old API are not judged']
