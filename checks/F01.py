from fcheck import builds, run_model

BUILDS = builds()


def run(ctx):
    ctx.rule = ('a case draws a filter, format, size, plane selection, arguments and 1-3 random pictures, and compares every frame at every CPU level with an independent '
                'model; distinct: different filter, CPU level, format and size')
    run_model(ctx, 'spatial', 14000, 100000)
