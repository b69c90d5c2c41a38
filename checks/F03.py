from fcheck import builds, run_model

BUILDS = builds()


def run(ctx):
    ctx.rule = ('a case draws 1-26 clips, output format and up to three random programs of 4-45 operations and compares every sample at every CPU level with an interval '
                'evaluation of the program; distinct: different CPU level, program and plane')
    run_model(ctx, 'expr', 20000, 150000)
