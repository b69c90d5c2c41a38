from fcheck import builds, run_model

BUILDS = builds()


def run(ctx):
    ctx.rule = ('a case draws one of the seven point filters, format, size, planes and arguments and compares every frame at every CPU level with a table or formula '
                'evaluated independently; distinct: different filter, CPU level, format and size')
    run_model(ctx, 'point', 16000, 60000)
