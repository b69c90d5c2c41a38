"""Runs h_graph with the monitors of one property."""
from vrun import run_harness, san_env

RULE = ('a case is a random graph of 2-13 custom filters (modes, request patterns, failures, property and plane sharing drawn at '
        'random) driven by 1-4 client threads under injected delays, changing thread counts, cache and memory settings and a '
        'warped clock; two cases are distinct when the recorded order of filter activations differs')
BUILDS = [('plain', 'core+stub', 'h_graph'), ('asan', 'core+stub', 'h_graph')]


def go(ctx, quick, thorough, asan_share=0.35, seedofs=0):
    ctx.rule = RULE
    n = ctx.scale(quick, thorough)
    ctx.assumptions = ['filters follow the documented contract: they free what they are given, request only frames of nodes they '
                       'depend on, and return exactly one frame or error',
                       'a hang is judged only when nothing progressed for 12 s and every thread of the process is blocked']
    p = ctx.build(*BUILDS[0])
    first = seedofs * 1000000
    run_harness(ctx, p + '/h_graph', ['--prop', ctx.pid], n, shards=20, first=first)
    a = ctx.build(*BUILDS[1])
    run_harness(ctx, a + '/h_graph', ['--prop', ctx.pid], int(n * asan_share), shards=20, first=first + 500000)
