from fcheck import builds, run_model

BUILDS = builds()


def run(ctx):
    ctx.rule = ('a case runs one of AudioGain, AudioMix, AudioResample or BlankAudio with random arguments on a random clip and compares sampled frames, or checks the spectrum '
                'of a resampled tone or the statistics of dither noise; distinct: different filter, format, layout, rates and options')
    run_model(ctx, 'audiodsp', 5000, 80000)
