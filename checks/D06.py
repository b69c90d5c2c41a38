from vrun import run_harness

BUILDS = [('asanub', 'core+stub+plug', 'h_reg')]


def run(ctx):
    ctx.rule = ('a case is a random history of 8-25 plugin loads (good, conflicting, renamed, wrong API version, no entry point, not a library, missing, whole directories), or a directory tree of plugins with and without manifests and builds for several processors; non-trivial: some loads succeeded and some were refused')
    d = ctx.build(*BUILDS[0])
    run_harness(ctx, d + '/h_reg', ['--plug', 1], ctx.scale(8000, 100000))
    run_harness(ctx, d + '/h_reg', ['--plug', 2], ctx.scale(8000, 100000), first=500000)
    ctx.assumptions = ['of plugins in one directory (without a manifest) that exclude each other either may win']
