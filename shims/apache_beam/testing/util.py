def equal_to(expected):
    def check(actual):
        rest = list(actual)
        for e in expected:
            if e not in rest:
                raise AssertionError("{} not in {}".format(e, rest))
            rest.remove(e)
        if rest:
            raise AssertionError("unexpected {}".format(rest))

    return check


class _Assert:
    def __init__(self, matcher):
        self.matcher = matcher

    def expand(self, elements, rng):
        self.matcher(elements)
        return []


def assert_that(pcoll, matcher, label=None):
    return pcoll | _Assert(matcher)
