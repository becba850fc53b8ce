from sequence import cases_for


def cases(tier, rng):
    return cases_for(["plain"], tier, rng)
