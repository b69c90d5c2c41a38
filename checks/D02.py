from vrun import run_harness

BUILDS = [('asanub', 'core+stub', 'h_frame'), ('tsan', 'core+stub', 'h_frame')]


def run(ctx):
    ctx.rule = ('a case is a random history of 40-110 frame operations (new frames, frames from planes, copies, writes, properties, releases) over up to 18 frames compared with independent copies after every step; thread cases write to copies of common frames concurrently; non-trivial: the history shared planes and copied frames')
    d = ctx.build(*BUILDS[0])
    run_harness(ctx, d + '/h_frame', ['--mt', 0], ctx.scale(8000, 120000))
    run_harness(ctx, d + '/h_frame', ['--mt', 1], ctx.scale(600, 10000), first=200000)
    t = ctx.build(*BUILDS[1])
    run_harness(ctx, t + '/h_frame', ['--mt', 1], ctx.scale(600, 10000), first=100000)
    ctx.assumptions = ['frame dimensions are multiples of the subsampling, as the API requires; invalid arguments are documented as fatal and not exercised']
