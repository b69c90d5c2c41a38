from fcheck import builds, run_model

BUILDS = builds()


def run(ctx):
    ctx.rule = ('a case draws a merging filter, format, size, weights or mask, clip lengths and pictures, and compares every frame at every CPU level with an '
                'independent model; distinct: different filter, CPU level, format and size')
    run_model(ctx, 'merge', 24000, 100000)
