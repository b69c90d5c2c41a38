from fcheck import builds, run_model

BUILDS = builds()


def run(ctx):
    ctx.rule = ('a case draws BoxBlur or AverageFrames, format, size, radii and passes or weights, scale and scene change marks, and compares every frame '
                'with an independent model; distinct: different filter, CPU level, format and size')
    run_model(ctx, 'blur', 8000, 60000)
