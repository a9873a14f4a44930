"""Plan generator for the texts of devices (C27): devices used through the scripting interface, with few definitions and many instances,
so that instances of one model stand between those of others."""
from . import gen2


class Gen(gen2.Gen):

    def plan(self):
        p = gen2.Gen.plan(self)
        p['workload'] = 'w27'
        return p


def gen(rng, prop):
    return Gen(rng, prop).plan()
