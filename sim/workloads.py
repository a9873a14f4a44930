"""Which workload decides which property, and how one plan is judged."""
import importlib

# property -> (module of the runner, module of the generator)
# property -> [(share of the runs, generator module)]
TABLE = {}
for _p in ('C01', 'C02', 'C03'):
    TABLE[_p] = [(1, 'gen1')]
for _p in ('C04', 'C05', 'C06', 'C07', 'C08', 'C15'):
    TABLE[_p] = [(1, 'gen1'), (1, 'gen2')]
for _p in ('C09', 'C10', 'C11', 'C12', 'C13', 'C14'):
    TABLE[_p] = [(1, 'gen2')]
TABLE['C17'] = [(2, 'gen1'), (1, 'gen2')]
TABLE['C16'] = [(1, 'gen16')]
TABLE['C18'] = [(1, 'gen18')]
TABLE['C19'] = [(1, 'gen19')]
TABLE['C20'] = [(1, 'gen20')]
TABLE['C21'] = [(1, 'gen21')]
TABLE['C23'] = [(1, 'gen23')]
TABLE['C24'] = [(1, 'gen23')]
TABLE['C25'] = [(1, 'gen25')]
TABLE['C27'] = [(1, 'gen27')]
TABLE['C26'] = [(1, 'gen26')]


JUMPS = ('C01', 'C02', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C14', 'C15', 'C17')


def generate(rng, prop, index=None):
    if prop == 'C01' and index in (20, 21):
        from . import gen1
        return gen1.gen_soak(rng, ('tcp', 'rtu')[index - 20])
    table = TABLE[prop]
    name = table[0][1]
    if len(table) > 1:
        t = rng.random() * sum(w for w, _ in table)
        for w, name in table:
            t -= w
            if t < 0:
                break
    plan = importlib.import_module('sim.' + name).gen(rng, prop)
    if prop in JUMPS and rng.random() < 0.25:
        # the system clock is set while an operation is waiting
        for op in plan['ops']:
            if rng.random() < 0.35:
                op['jmp'] = {}
                for _ in range(rng.choice((1, 1, 3))):
                    op['jmp'][str(rng.choice((0, 1, 2, 3, rng.randrange(12), rng.randrange(40))))] = rng.choice((
                        -3600.0, -86400.0 * 400, -2.0, -0.4, 0.4, 2.0, 30.0, 3600.0, 86400.0 * 400))
    return plan


def judge(plan, prop, scratch):
    """Execute the plan; returns (violations, runs)."""
    return importlib.import_module('sim.' + plan['workload']).judge(plan, prop, scratch)


def shrinks(plan):
    m = importlib.import_module('sim.' + plan['workload'])
    return m.shrinks(plan) if hasattr(m, 'shrinks') else ()
