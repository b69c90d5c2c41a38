from fcheck import builds, run_model

BUILDS = builds()


def run(ctx):
    ctx.rule = ('a case builds a chain of up to 8 frame property filters, FrameEval and ModifyFrame over clips with random properties and compares every frame and all its properties '
                'with a model; distinct: different filter, length, frame number and number of properties')
    run_model(ctx, 'frameprops', 15000, 120000)
