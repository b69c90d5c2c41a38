from vrun import run_harness

BUILDS = [('plain', 'core+stub', 'h_cache'), ('asan', 'core+stub', 'h_cache')]


def run(ctx):
    ctx.rule = ('a case is one of: threads allocating, copying and releasing frames while the limit changes; caches pushed over the limit '
                'with sweeps, with fixed caches and a pipeline flush, or with heavy asynchronous traffic; frame sizes on both sides of the '
                'buffer pool threshold; distinct by configuration')
    ctx.assumptions = ['process heap use is read from the C library at quiescent points (not under ASan)']
    run_harness(ctx, ctx.build(*BUILDS[0]) + '/h_cache', ['--prop', 'C06'], ctx.scale(4000, 80000))
    run_harness(ctx, ctx.build(*BUILDS[1]) + '/h_cache', ['--prop', 'C06'], ctx.scale(600, 12000), first=500000)
