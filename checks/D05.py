from vrun import run_harness

BUILDS = [('asanub', 'core+stub', 'h_log'), ('tsan', 'core+stub', 'h_log')]


def run(ctx):
    ctx.rule = ('a case is a random history of logging and of adding and removing handlers, every handler compared with the messages that had to reach it; thread cases log from 2-5 threads while handlers come and go; non-trivial: messages were delivered and more than one handler existed')
    d = ctx.build(*BUILDS[0])
    run_harness(ctx, d + '/h_log', ['--mt', 0], ctx.scale(3000, 40000))
    run_harness(ctx, d + '/h_log', ['--mt', 1], ctx.scale(800, 10000), first=200000)
    t = ctx.build(*BUILDS[1])
    run_harness(ctx, t + '/h_log', ['--mt', 1], ctx.scale(800, 10000), first=100000)
    ctx.assumptions = ['handlers only log, as the API requires; the order of messages logged from within handlers is not judged']
