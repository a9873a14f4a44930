"""Workload 3 with comparisons of what devices consist of.  Decides C26."""
from . import compare
from .runner import Violation
from .w2 import Skip
from .w16 import W16


class W26(W16):

    def setup(self):
        W16.setup(self)
        self.viol = []

    def do_compare(self, op, r):
        if op['a'] not in self.objs or op['b'] not in self.objs:
            raise Skip()
        bad = compare.judge(self.objs[op['a']].dev, self.objs[op['b']].dev, self.w.probes)
        if bad is not None:
            self.viol.append(Violation(self.plan['prop'], bad[0], '%s and %s: %s' % (op['a'], op['b'], bad[1]), r.i))


def judge(plan, prop, scratch):
    run = W26(plan, scratch).execute()
    return run.viol, [run]


def shrinks(plan):
    from . import w16
    return w16.shrinks(plan)
