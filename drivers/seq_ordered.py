from sequence import cases_for


def cases(tier, rng):
    return cases_for(["simple", "log"], tier, rng)
