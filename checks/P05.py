from fcheck import run_py
BUILDS = [('plain', 'core+filters+py+echo'), ('asanub', 'core+filters+py+echo')]


def run(ctx):
    run_py(ctx, 'objects', 12000, 300000, parts='core+filters+py+echo')
    ctx.rule = ('a case compares what formats, clips, frames, plugins, functions or the core say about themselves with a model of it, or checks the delivery of messages to a random history of handlers; '
                'distinct: different format, clip, history or settings')
