from fcheck import builds, run_model

BUILDS = builds()


def run(ctx):
    ctx.rule = ('a case builds a random graph of up to 12 timeline filters over clips of different length, format and frame rate and compares clip information and the frames '
                'delivered in random order with a lazy list model; distinct: different filter, length and frame number')
    run_model(ctx, 'timeline', 8000, 80000)
