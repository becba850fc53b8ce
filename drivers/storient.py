from bicon import *


def cases(tier, rng):
    return cases_for(tier, rng, True)
