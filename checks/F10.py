from fcheck import builds, run_model

BUILDS = builds()


def run(ctx):
    ctx.rule = ('a case builds a random graph of up to 7 audio editing filters over random clips and compares sampled frames of up to 4 of its clips with a lazy model; '
                'distinct: different filter, frame number, clip length, channel layout and sample size')
    run_model(ctx, 'audio', 24000, 300000)
