from fcheck import builds, run_model

BUILDS = builds()


def run(ctx):
    ctx.rule = ('a case computes plane statistics of one or two random clips, or verifies clips with a few bad samples, and compares the properties, errors and frames with an independent '
                'computation at every CPU level; distinct: different filter, CPU level, format and width')
    run_model(ctx, 'stats', 32000, 200000)
