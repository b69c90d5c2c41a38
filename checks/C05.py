from vrun import run_harness

BUILDS = [('plain', 'core+stub', 'h_cache'), ('asan', 'core+stub', 'h_cache')]


def run(ctx):
    ctx.rule = ('a case is a random graph of 1-8 clips and 40-160 operations (requests, cache modes and options, flushes, consumers coming '
                'and going) with the clock standing still, each request and the memory counter compared with a cache model, then runs '
                'with fixed-size and adaptive caches and a jumping clock; non-trivial: some requests were served from a cache and some were not')
    ctx.assumptions = ['one request at a time, so that the order of cache accesses is determined; concurrent use is covered by C03']
    run_harness(ctx, ctx.build(*BUILDS[0]) + '/h_cache', ['--prop', 'C05'], ctx.scale(20000, 300000))
    run_harness(ctx, ctx.build(*BUILDS[1]) + '/h_cache', ['--prop', 'C05'], ctx.scale(2400, 30000), first=500000)
