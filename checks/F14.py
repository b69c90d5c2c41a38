from fcheck import builds, run_model

BUILDS = builds()


def run(ctx):
    ctx.rule = ('a case draws text, a frame number, properties, clip or core information with random alignment and scale on frames of random format and size and compares every sample '
                'with an independent renderer; distinct: different filter, format, width, alignment and scale')
    run_model(ctx, 'text', 8000, 60000)
