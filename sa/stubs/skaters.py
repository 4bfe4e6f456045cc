"""Stand-in for the sibling package: univariate one-step-ahead models in its calling convention."""


class Dist:
    def __init__(self, mean, std):
        self.mean = mean
        self.std = std


def holt(y, state):
    if state is None:
        state = (0.0, 1.0)
    level, s2 = state
    s2 = 0.9 * s2 + 0.1 * (y - level) * (y - level)
    level = level + 0.4 * (y - level)
    return [Dist(level, (s2 + 0.01) ** 0.5)], (level, s2)
