"""Plan generator for threads (C18)."""
from . import gen2

PLACES = ('models', 'more', 'lib/defs', 'pack.zip', 'other.zip/smdx', 'nodir', 'models')


class Gen(gen2.Gen):

    def gen_defs(self):
        gen2.Gen.gen_defs(self)
        rng, cfg = self.rng, self.cfg
        if rng.random() < 0.6:
            # several places, also archives: the search goes through some of them before it finds a file
            path = rng.sample(PLACES, rng.choice((2, 3, 3)))
            cfg['path'] = path
            for rel in sorted(cfg['files']):
                spot = rng.choice(path + path[-1:] * 2)
                text = cfg['files'].pop(rel)
                if '.zip' in spot:
                    cfg.setdefault('zips', {}).setdefault(spot.split('/')[0], {})['/'.join(spot.split('/')[1:] + [rel[7:]])] = text
                else:
                    cfg['files'][spot + rel[6:]] = text
        if self.rng.random() < 0.3:
            # definitions that cannot be used, the same for all threads
            for rel in sorted(self.cfg['files']):
                if self.rng.random() < 0.3:
                    self.cfg['files'][rel] = self.cfg['files'][rel][:-40]
                    del self.cfg['defs'][str(int(rel[-9:-4]))]

    def topology(self):
        rng = self.rng
        gen2.Gen.topology(self)
        n = rng.choice((2, 2, 2, 3))
        while len(self.places) < n:
            self.add_place(rng.choice(('tcp', 'tcp', 'tcp', 'rtu', 'rtu', 'map')))
        # the first model of one device is in the others too
        rng.shuffle(self.places)
        self.threads = [dict(tid=k, places=[self.places[k]], objs=[], ops=[]) for k in range(n)]

    def plan(self):
        rng = self.rng
        self.gen_defs()
        self.topology()
        stall = rng.random() < 0.6
        if stall:
            # nothing may depend on how fast a thread is
            self.kinds = [k for k in self.kinds if k not in ('late', 'crash')] or ['exc']
        per = []
        for th in self.threads:
            self.places, self.objs, self.ops = th['places'], th['objs'], th['ops']
            self.open()
            for _ in range(rng.randint(0, 6)):
                self.one()
            if rng.random() < 0.4:
                self.open()
            ops = []
            for op in self.ops:
                op = dict(op, tid=th['tid'])
                op.pop('intr', None)
                ops.append(op)
            per.append(ops)
        ops = []
        while any(per):
            ops.append(rng.choice([p for p in per if p]).pop(0))
        sched = {'seed': rng.randrange(1 << 30), 'rate': rng.choice((0.5, 0.1, 0.02, 0.005, 0.001))}
        if stall:
            sched['stall'] = True
        return {'workload': 'w18', 'cfg': self.cfg, 'ops': ops, 'sched': sched}


def gen(rng, prop):
    return Gen(rng, prop).plan()
