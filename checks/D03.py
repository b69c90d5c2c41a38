from vrun import run_harness

BUILDS = [('asanub', 'core+stub+plug', 'h_reg'), ('tsan', 'core+stub+plug', 'h_reg')]


def run(ctx):
    ctx.rule = ('a case registers functions with random valid and slightly broken signatures and calls them with random maps around what the signature allows, 30-60 steps, against a model; thread cases register, list and call concurrently; non-trivial: some calls were accepted and some refused')
    d = ctx.build(*BUILDS[0])
    run_harness(ctx, d + '/h_reg', ['--mt', 0], ctx.scale(12000, 160000))
    t = ctx.build(*BUILDS[1])
    run_harness(ctx, t + '/h_reg', ['--mt', 1], ctx.scale(2000, 16000), first=100000)
    ctx.assumptions = ['signatures with repeated argument names or with "any" before the end are not judged: the documentation excludes them, the core does not check']
