from fcheck import builds, run_model

BUILDS = builds()


def run(ctx):
    ctx.rule = ('a case calls some ten built in functions with hostile arguments on hostile clips and on the results of earlier calls and judges what comes back; '
                'distinct: different function, set of arguments and CPU level, or different error')
    run_model(ctx, 'hostile', 6000, 60000, asan_frac=1)
