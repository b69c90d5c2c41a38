from vrun import run_harness, san_env

BUILDS = [('asanub', 'core+stub', 'h_map'), ('tsan', 'core+stub', 'h_map')]


def run(ctx):
    ctx.rule = ('a case is a random history of 120 map operations over 6 maps that share storage through copies and frame '
                'properties, every observer compared with a model after every step; a thread case has 4 threads mutating their '
                'own copies of shared storage; a case is distinct by its operation sequence')
    d = ctx.build(*BUILDS[0])
    run_harness(ctx, d + '/h_map', ['--mt', 0], ctx.scale(2400, 40000))
    t = ctx.build(*BUILDS[1])
    run_harness(ctx, t + '/h_map', ['--mt', 1], ctx.scale(480, 8000), first=100000)
    ctx.assumptions = ['reads with an error pointer only; non-integer values under the legacy key _ColorRange are not exercised']
