from vrun import run_harness

# the workloads of the other checks that use the core from several threads
OTHERS = [('core+stub', 'h_map', ['--mt', 1], 240, 4000), ('core+stub', 'h_frame', ['--mt', 1], 300, 5000), ('core+stub', 'h_log', ['--mt', 1], 400, 6000),
          ('core+stub+plug', 'h_reg', ['--mt', 1], 600, 6000), ('core+stub+plug', 'h_inspect', [], 300, 6000), ('core+stub+plug3', 'h_api3', [], 800, 16000)]
BUILDS = [('tsan', 'core+stub', 'h_graph')] + [('tsan', p, h) for p, h, _, _, _ in OTHERS]


def run(ctx):
    from checks import graphlib
    ctx.rule = graphlib.RULE + '; run under ThreadSanitizer, every report is a violation'
    t = ctx.build(*BUILDS[0])
    run_harness(ctx, t + '/h_graph', ['--prop', 'C08'], ctx.scale(400, 8000), shards=16)
    for p, h, opts, q, n in OTHERS:
        if 'hang' in ctx.vkeys:
            break
        before = ctx.evaluations
        run_harness(ctx, ctx.build('tsan', p, h) + '/' + h, opts, ctx.scale(q, n), first=4000000)
        ctx.cov['evaluations_of_' + h[2:]] = ctx.evaluations - before
    ctx.assumptions = ['ThreadSanitizer sees only accesses that were executed, and only with happens-before evidence from that execution']
