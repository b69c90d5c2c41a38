from fcheck import run_py
BUILDS = [('plain', 'core+filters+py+echo'), ('asanub', 'core+filters+py+echo')]


def run(ctx):
    run_py(ctx, 'frames', 24000, 300000, parts='core+filters+py+echo')
    ctx.rule = 'frames, views and property dictionaries handed out by the Python module, judged against plain Python values'
