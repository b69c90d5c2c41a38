from fcheck import run_variant

PARTS = 'core+filters+vsh+avx2+zn4'
BUILDS = [('plain', PARTS)]
MODS = [('point', 800), ('merge', 700), ('spatial', 700), ('blur', 500), ('expr', 500), ('stats', 400), ('geometry', 300), ('timeline', 100), ('frameprops', 100), ('audio', 200), ('audiodsp', 120)]


def run(ctx):
    ctx.rule = ('a case of one of the filter models run against the build of the filters for AVX2 and the one for Zen 4, each at every CPU level; '
                'distinct: as in the models')
    for mod, n in MODS:
        run_variant(ctx, mod, ctx.scale(n * 2, n * 30), PARTS)
