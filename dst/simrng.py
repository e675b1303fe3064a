"""A RandomState whose draws can be made to fail, be recorded or be forced."""

import numpy as np


class Injected(RuntimeError):
    """The injected failure of a random draw."""


class SimRng(np.random.RandomState):
    """Counts draws; raises Injected at draw number `fail_at` once armed."""

    fail_at = None
    draws = 0

    def arm(self, n):
        self.fail_at, self.draws = n, 0

    def disarm(self):
        fired = self.fail_at is not None and self.draws >= self.fail_at
        self.fail_at = None
        return fired

    def _tick(self):
        if self.fail_at is not None:
            self.draws += 1
            if self.draws == self.fail_at:
                raise Injected('injected failure of draw %d' % self.draws)


def _wrap(name):
    base = getattr(np.random.RandomState, name)

    def method(self, *a, **k):
        self._tick()
        return base(self, *a, **k)
    method.__name__ = name
    return method


for _n in ['rand', 'randn', 'random_sample', 'uniform', 'normal', 'gamma',
        'choice', 'permutation', 'shuffle', 'multinomial', 'randint', 'beta',
        'exponential', 'poisson', 'geometric', 'binomial', 'vonmises',
        'lognormal', 'multivariate_normal', 'dirichlet', 'chisquare',
        'standard_normal', 'standard_gamma']:
    setattr(SimRng, _n, _wrap(_n))
