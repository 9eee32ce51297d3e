"""C15 gradients of Hz-polarized objectives are exact"""
from mc.checks import c14

POL = 'Hz'
RULE, BOUND, ASSUMPTIONS = c14.RULE, c14.BOUND, c14.ASSUMPTIONS
warm = c14.warm


def cases(tier):
    c14.POL = POL
    try:
        return c14.cases(tier)
    finally:
        c14.POL = 'Ez'


def run(case, ctx):
    c14.run(case, ctx, POL)
