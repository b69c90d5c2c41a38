from checks import graphlib

BUILDS = graphlib.BUILDS


def run(ctx):
    graphlib.go(ctx, 800, 20000, seedofs=4)
