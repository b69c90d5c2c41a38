from vrun import run_harness

BUILDS = [('plain', 'core+stub+plug', 'h_inspect'), ('asanub', 'core+stub+plug', 'h_inspect'), ('tsan', 'core+stub+plug', 'h_inspect')]


def run(ctx):
    ctx.rule = ('a case creates nodes from one to four threads, directly and inside functions that call each other up to five deep, in a core with or without graph inspection, and compares everything '
                'every node says about itself with what it was created with; half of the cases then request frames and judge the time counters; distinct: different shape of the graph')
    ctx.assumptions = ['creation information is read while no frames are requested, as the header demands']
    for b, n, first in zip(BUILDS, (ctx.scale(2000, 60000), ctx.scale(400, 10000), ctx.scale(150, 4000)), (0, 1000000, 2000000)):
        run_harness(ctx, ctx.build(*b) + '/h_inspect', [], n, first=first)
