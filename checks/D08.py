from vrun import run_harness

_P = 'core+stub+plug3'
BUILDS = [('plain', _P, 'h_api3'), ('asanub', _P, 'h_api3'), ('tsan', _P, 'h_api3')]


def run(ctx):
    ctx.rule = ('a case performs a random history of maps, formats, plugin functions, messages or filter graphs through the API 3 functions, or through both APIs on the same objects, '
                'and compares every answer with a model of what API 3 documents; distinct: different history')
    ctx.assumptions = ['what propSetX with paTouch returns for an existing key is not judged', 'gray formats with subsampling are not judged',
                       'the paths of API 3 that end the process (broken filter contracts) are not taken', 'a core is freed last, as API 3 demands']
    for b, n, first in zip(BUILDS, (ctx.scale(80000, 1200000), ctx.scale(10000, 150000), ctx.scale(4000, 60000)), (0, 1000000, 2000000)):
        run_harness(ctx, ctx.build(*b) + '/h_api3', [], n, first=first)
