from fcheck import builds, run_model

BUILDS = builds()


def run(ctx):
    ctx.rule = ('a case draws a geometry filter, format, size, arguments and pictures and compares every frame, its properties and the clip information with an '
                'independent model, then tries arguments that cannot work; distinct: different filter, format and size')
    run_model(ctx, 'geometry', 30000, 300000)
